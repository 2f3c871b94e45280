#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's working tree.

Builds the harness units of the property from /repo, enumerates every
configuration of the tier with the engine (all shards in parallel), replays a
violation before reporting it, and writes evidence/<property>.json.

Exit 0: held on everything explored.  1: violation (VIOLATION line).  3: error.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
from units import UNITS, PROPS
from salvage import compile_harness

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", ROOT)  # build, replays and evidence go here
JOBS = os.cpu_count() or 8
SEQ_FLAGS = ("-std=c++23 -O1 -g -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,vptr -fno-sanitize-recover=all "
             f"-D_GLIBCXX_ASSERTIONS -I{REPO}/include -I{ROOT}/shim -I{ROOT}/mc/seq -DFMT_HEADER_ONLY -w").split()
CONC_FLAGS = (f"-std=c++23 -O1 -g -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -I{REPO}/include -I{ROOT}/mc/conc -DFMT_HEADER_ONLY -w").split()


class Err(Exception):
    pass


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Err("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))


def compile_steps(prop, unit, out):
    """(parallel compile commands, link command)"""
    u = UNITS[unit]
    os.makedirs(out, exist_ok=True)
    o = lambda n: os.path.join(out, n)
    binary = o(unit)
    if u["engine"] == "seq":
        fl = SEQ_FLAGS + u.get("flags", []) + ["-DONLY_PROP", f"-DWANT_{prop}"]
        steps = [["g++", *fl, "-c", f"{ROOT}/mc/seq/{u['src']}", "-o", o("h.o")], ["g++", *SEQ_FLAGS, "-c", f"{ROOT}/mc/seq/seq.cc", "-o", o("seq.o")]]
        objs = [o("h.o"), o("seq.o")]
        for s in u.get("repo", []):
            n = o("r_" + s.replace("/", "_") + ".o")
            steps.append(["g++", *fl, "-include", "cmath", "-c", f"{REPO}/{s}", "-o", n])
            objs.append(n)
        link = ["g++", *SEQ_FLAGS, *objs, "-o", binary, *u.get("link", [])]
    else:
        steps = [["g++", "-std=c++23", "-O2", "-g", "-fno-builtin", "-c", f"{ROOT}/mc/conc/mcrt.cc", "-o", o("mcrt.o")],
                 ["g++", *CONC_FLAGS, *u.get("flags", []), "-DLOGGING_HEADER=\"mc_log.h\"", "-c", f"{ROOT}/mc/conc/{u['src']}", "-o", o("h.o")]]
        objs = [o("h.o"), o("mcrt.o")]
        for s in u.get("repo", []):
            n = o("r_" + s.replace("/", "_") + ".o")
            steps.append(["g++", *CONC_FLAGS, "-include", "cmath", "-c", f"{REPO}/{s}", "-o", n])
            objs.append(n)
        link = ["g++", "-static-libstdc++", "-static-libgcc", "-rdynamic", *objs, "-o", binary]
    return steps, link, binary


LEFT_OUT = []  # parts of the harnesses that do not compile with this tree


def sh_harness(cmd, src, workdir):
    err, left = compile_harness(cmd, src, workdir, 600)
    if err is not None or (left and os.environ.get("VERIF_STRICT")):
        raise Err("command failed: %s\n%s" % (" ".join(cmd), (err or "left out: " + str(left))[-6000:]))
    LEFT_OUT.extend(left)


def build(prop, tier):
    base = os.path.join(OUT, "build", prop)
    shutil.rmtree(base, ignore_errors=True)
    bins = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        links = []
        futs = []
        for unit in PROPS[prop]["units"] + (PROPS[prop].get("thorough_units", []) if tier == "thorough" else []):
            steps, link, binary = compile_steps(prop, unit, os.path.join(base, unit))
            harness = f"{ROOT}/mc/{UNITS[unit]['engine']}/{UNITS[unit]['src']}"
            futs += [ex.submit(sh_harness, s, harness, os.path.join(base, unit)) if harness in s else ex.submit(sh, s) for s in steps]
            links.append((unit, link, binary))
        for f in futs:
            f.result()
        for unit, link, binary in links:
            sh(link)
            bins[unit] = binary
    return bins


SCRATCH = ""


def env():
    e = dict(os.environ)
    e["MC_SCRATCH"] = SCRATCH
    e.update(LC_ALL="C", TZ="UTC", UBSAN_OPTIONS="", ASAN_OPTIONS="")
    return e


def run_json(cmd, timeout):
    """runs a harness; -> (returncode, json or None, stderr tail)"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env(), stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return -999, None, "timeout"
    res = None
    for l in p.stdout.decode(errors="replace").splitlines():
        if l.startswith("{"):
            try:
                res = json.loads(l)
            except ValueError:
                pass
    return p.returncode, res, p.stderr.decode(errors="replace")[-5000:]


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        for tool in ("g++", "python3"):
            if not shutil.which(tool):
                print("missing tool", tool)
                return 3
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 700 if tier == "quick" else 12 * 3600))
    bins = build(prop, tier)
    t_build = time.time() - t0
    global SCRATCH
    SCRATCH = os.path.join(OUT, "build", prop, "scratch")
    os.makedirs(SCRATCH, exist_ok=True)
    replay_dir = os.path.join(OUT, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    tasks = []  # (unit, config, shard, nshards)
    for unit, b in bins.items():
        rc = subprocess.run([b, "--property", prop, "--list", "--tier", tier], stdout=subprocess.PIPE, env=env())
        if rc.returncode != 0:
            raise Err(f"listing configurations of {unit} failed")
        for l in rc.stdout.decode().splitlines():
            if UNITS[unit]["engine"] == "seq":
                n, name = l.split(" ", 1)
                tasks += [(unit, name, i, int(n)) for i in range(int(n))]
            elif l.strip():
                tasks.append((unit, l.strip(), 0, 1))
    if not tasks:
        raise Err("no configurations")

    def one(t):
        unit, name, i, n = t
        left = budget - (time.time() - t0)
        if left < 5:
            return t, 0, {"config": name, "ok": True, "executions": 0, "states": 0, "transitions": 0, "exhaustive": False, "wall": 0, "skipped": True}, ""
        rf = os.path.join(OUT, "build", prop, "rp_" + hashlib.sha1(repr(t).encode()).hexdigest()[:12])
        cmd = [bins[unit], "--property", prop, "--config", name, "--limit", str(int(left)), "--replay-out", rf]
        if UNITS[unit]["engine"] == "seq":
            cmd += ["--shard", f"{i}/{n}"]
        rc, res, err = run_json(cmd, left + 120)
        return t, rc, res, err

    results = []
    violation = None
    errors = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, t) for t in tasks]
        for f in cf.as_completed(futs):
            if f.cancelled():
                continue
            t, rc, res, err = f.result()
            if rc == 0 and res and res.get("ok"):
                results.append((t, res))
            elif rc == 1 and res and "violation" in res:
                ok = confirm(prop, bins, t, res, replay_dir)
                if ok:
                    violation = violation or (t, res, ok, err)
                    for g in futs:
                        g.cancel()
                else:
                    errors.append((t, "violation did not reproduce: " + res["violation"]))
            else:
                errors.append((t, f"harness ended with {rc}\n{err}"))

    shutil.rmtree(SCRATCH, ignore_errors=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tot = lambda k: int(sum(r.get(k, 0) for _, r in results))
    meta = PROPS[prop]
    samples = []
    for t, r in sorted(results, key=lambda x: x[0]):
        ss = r.get("samples") or ([r["sample"]] if r.get("sample") else [])
        for s in [x for x in ss if x][-1:]:
            if len(samples) < 12 and t[2] == 0:
                samples.append({"unit": t[0], "configuration": t[1], "execution": s})
    per = {}
    for t, r in results:
        d = per.setdefault(f"{t[0]}: {t[1]}", {"executions": 0, "exhaustive": True, "wall_s": 0.0})
        d["executions"] += int(r.get("executions", 0))
        d["exhaustive"] &= bool(r.get("exhaustive"))
        d["wall_s"] = round(d["wall_s"] + r.get("wall", 0), 2)
        for k in ("preemption_bound", "spurious", "max_choices"):
            if k in r:
                d[k] = r[k]
    exhaustive = bool(results) and all(bool(r.get("exhaustive")) for _, r in results) and not errors and not violation and not LEFT_OUT
    cov = {
        "samples": samples or [{"note": "no execution recorded"}],
        "rule": meta["rule"],
        "exhaustive": exhaustive,
        "configurations": per,
    }
    if meta["level"] == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=int(sum(r.get("complete", r.get("executions", 0)) for _, r in results)))
    else:
        cov.update(evaluations=tot("executions"), distinct_nontrivial=tot("nontrivial"))
    if LEFT_OUT:
        cov["left_out_does_not_compile"] = LEFT_OUT
        print("left out, does not compile with this tree: " + "; ".join(LEFT_OUT[:20]))
    if tot("pruned"):
        cov["pruned_equivalent_schedules"] = tot("pruned")
    if tot("operations"):
        cov["operations_compared"] = tot("operations")
    if meta["level"] == "model_checking" and tot("nontrivial"):
        cov["distinct_nontrivial"] = tot("nontrivial")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: build {t_build:.1f} s, {len(results)}/{len(tasks)} units of work, executions {tot('executions')}, states {tot('states')}, exhaustive {exhaustive}, {time.time()-t0:.1f} s")
    if violation:
        t, res, path, err = violation
        print(f"configuration: {t[0]}: {t[1]}")
        print("what: " + res["violation"])
        if res.get("notes"):
            print("execution: " + res["notes"])
        if res.get("trace"):
            print(res["trace"])
        if err:
            print(err[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for t, e in errors[:5]:
            print("ERROR", t, e)
        return 3
    return 0


def confirm(prop, bins, t, res, replay_dir):
    unit, name, i, n = t
    rf = os.path.join(OUT, "build", prop, "rp_" + hashlib.sha1(repr(t).encode()).hexdigest()[:12])
    if not os.path.exists(rf):
        return None
    rc, r2, _ = run_json([bins[unit], "--property", prop, "--replay", rf], 300)
    if not (rc == 1 and r2 and "violation" in r2):
        # the single execution does not show it (it needs the ones before it): repeat the enumeration
        rf2 = rf + "b"
        cmd = [bins[unit], "--property", prop, "--config", name, "--limit", "300", "--replay-out", rf2]
        if UNITS[unit]["engine"] == "seq":
            cmd += ["--shard", f"{i}/{n}"]
        rc, r2, _ = run_json(cmd, 400)
        if not (rc == 1 and r2 and "violation" in r2 and r2.get("executions") == res.get("executions")):
            return None
    path = os.path.join(replay_dir, prop + ".txt")
    with open(rf) as f:
        body = f.read()
    with open(path, "w") as f:
        f.write(body)
        f.write(f"unit {unit}\nreplay with: build/{prop}/{unit}/{unit} --property {prop} --replay {path}\n")
    return path


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    try:
        sys.exit(main())
    except Err as e:
        print("ERROR", e)
        sys.exit(3)
