"""Compiling a harness against a tree that some of it does not compile with.

A change of the code under test can leave one exotic instantiation of a harness
uncompilable while everything else still has an answer.  compile_harness()
then leaves out the smallest parts that do not compile (statements of
configs(), i.e. configurations, or whole top-level definitions, whose users fall
in the next round) and says which.  Nothing inside a function body is ever left
out, so what remains checks exactly what it checked before.
"""
import os, re, subprocess

ROUNDS = 8


def definitions(lines):
    """line number -> (first, last) of the top-level definition it belongs to (0-based)"""
    at = {}
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if not l or l[0] in " }#/" or re.match(r"(namespace|using|extern)\b", l):
            i += 1
            continue
        first = i
        while re.match(r"template\b", lines[i]) and not re.search(r"[;}]\s*(//.*)?$", lines[i]) and lines[i].count("{") == lines[i].count("}") and i + 1 < n:
            i += 1
        if not (re.search(r"[;}]\s*(//.*)?$", lines[i]) and lines[i].count("{") == lines[i].count("}")):
            i += 1
            while i < n and not re.match(r"\}", lines[i]):
                i += 1
        for k in range(first, min(i, n - 1) + 1):
            at[k] = (first, min(i, n - 1))
        i += 1
    return at


def whole_statement(l):
    l = re.sub(r"//.*$", "", l).rstrip()
    return l.endswith(";") and all(l.count(a) == l.count(b) for a, b in ("()", "{}", "[]")) and not re.match(r"\s*(return|auto|std::vector|config)\b", l)


def code(l):
    return re.sub(r"//.*$", "", re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'', '""', l)).rstrip()


def statement_around(lines, no, first, last):
    """smallest range of whole lines around no that is a statement of its own, within (first, last)"""
    def boundary(k):
        while k > first and not code(lines[k]):
            k -= 1
        return k <= first or code(lines[k])[-1] in ";{}"
    for a in range(no, first, -1):
        if not code(lines[a]) or re.match(r"\s*(return|std::vector|config|else|case|default|\})", lines[a]) or not boundary(a - 1):
            continue
        depth = 0
        for b in range(a, last):
            l = code(lines[b])
            depth += sum(l.count(c) for c in "({[") - sum(l.count(c) for c in ")}]")
            if depth < 0:
                break
            if depth == 0 and b >= no and l and l[-1] in ";}":
                if re.match(r"\s*else\b", lines[b + 1]):
                    break
                return a, b
            if depth == 0 and l and l[-1] in ";}":
                break  # ended before no
    return None


def compile_harness(cmd, src, workdir, timeout):
    """cmd: compile command naming src; -> (error text or None, list of what was left out)"""
    with open(src) as f:
        lines = f.read().split("\n")
    left_out = []
    cur, path = cmd, src
    for rnd in range(ROUNDS):
        p = subprocess.run(cur + ["-fmax-errors=0", "-fno-diagnostics-show-caret"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        if p.returncode == 0:
            return None, left_out
        out = p.stdout.decode(errors="replace")
        defs = definitions(lines)
        conf = next((d for k, d in sorted(defs.items()) if re.search(r"\bconfigs\(std::string const", lines[d[0]])), None)
        here = re.escape(path)
        drop = set()
        block = []
        for l in out.split("\n"):
            m = re.match(here + r":(\d+):(?:\d+:)?\s*(.*)", l)
            if m and ("required from" in m.group(2) or m.group(2).startswith("error:")):
                block.append((int(m.group(1)) - 1, m.group(2)))
            if ": error: " in l:
                # outermost instantiation point first, the place of the error last
                for no, text in sorted(block, key=lambda b: "required from here" not in b[1]):
                    if "error:" in text and any("required from here" in t for _, t in block):
                        continue
                    if conf and conf[0] < no < conf[1]:
                        part = (no, no) if whole_statement(lines[no]) else statement_around(lines, no, conf[0], conf[1])
                        if part:
                            drop.add(part)
                            break
                    elif no in defs and defs[no] != conf:
                        drop.add(defs[no])
                        break
                block = []
        if not drop:
            return out, left_out
        for a, b in sorted(drop):
            left_out.append(lines[a].strip()[:160])
            for k in range(a, b + 1):
                lines[k] = ""
        path = os.path.join(workdir, "left_out_" + os.path.basename(src))
        with open(path, "w") as f:
            f.write("\n".join(lines))
        cur = [path if a == src else a for a in cmd]
    return out, left_out
