// Minimal stand-in for the part of cista's string used by utl (cista is a
// download-time dependency that is not available offline).
#pragma once
#include <cstring>
#include <ostream>
#include <string>
#include <string_view>

namespace cista::raw {

struct generic_string {
  generic_string() = default;
  generic_string(generic_string const& o) { copy(o); }
  generic_string(generic_string&& o) noexcept { copy(o); o.reset(); }
  generic_string& operator=(generic_string const& o) { if (this != &o) copy(o); return *this; }
  generic_string& operator=(generic_string&& o) noexcept { if (this != &o) { copy(o); o.reset(); } return *this; }

  void reset() { owned_.clear(); owning_ = false; ptr_ = nullptr; size_ = 0U; }
  void set_non_owning(char const* s, unsigned const n) { owned_.clear(); owning_ = false; ptr_ = s; size_ = n; }
  void set_owning(char const* s, unsigned const n) { owned_.assign(s, n); owning_ = true; }
  void assign(char const* s, std::size_t const n) { set_owning(s, static_cast<unsigned>(n)); }
  void erase(unsigned const pos, unsigned const n) {
    if (!owning_) { owned_ = std::string{view()}; owning_ = true; }
    owned_.erase(pos, n);
  }
  std::string_view view() const { return owning_ ? std::string_view{owned_} : std::string_view{ptr_, size_}; }
  operator std::string_view() const { return view(); }
  unsigned size() const { return static_cast<unsigned>(view().size()); }
  bool empty() const { return size() == 0U; }
  char const* data() const { return view().data(); }
  char operator[](std::size_t const i) const { return view()[i]; }
  std::string str() const { return std::string{view()}; }
  bool owning() const { return owning_; }
  friend bool operator==(generic_string const& a, generic_string const& b) { return a.view() == b.view(); }
  friend std::ostream& operator<<(std::ostream& o, generic_string const& s) { return o << s.view(); }

private:
  void copy(generic_string const& o) { owned_ = o.owned_; owning_ = o.owning_; ptr_ = o.ptr_; size_ = o.size_; }
  std::string owned_;
  bool owning_ = false;
  char const* ptr_ = nullptr;
  unsigned size_ = 0U;
};

}  // namespace cista::raw
