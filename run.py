#!/usr/bin/env python3
"""Driver of the bounded model-checking harnesses:  run.py <property-id>

Compiles the harness units of one property against /repo's current working tree (fresh build
directory, 8 in parallel), runs them, replays every violation, writes evidence/<id>.json and prints
VIOLATION / KNOWN-FINDING lines.  VERIF_TIER=quick|thorough selects the units and their bounds.
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("MC_REPO", "/repo")
from checks import CHECKS  # noqa: E402

SAN = {True: ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"], False: [],
       "ub": ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error", "-fno-sanitize=vptr,null,alignment,object-size"]}
T0 = time.time()


class Unit:
    """One harness program in one configuration."""
    def __init__(self, name, src, defs=(), cxx="g++-13", std="c++17", opt="-O1", san=True, flags=(), env=None,
                 timeout=300, libs=(), more=(), subject=""):
        self.name, self.src, self.defs, self.cxx, self.std, self.opt, self.san = name, src, list(defs), cxx, std, opt, san
        self.subject = subject   # what a failure to compile means
        self.flags, self.env, self.timeout, self.libs, self.more = list(flags), dict(env or {}), timeout, list(libs), list(more)

    def cmd(self, out):
        c = [self.cxx, "-std=" + self.std, self.opt, "-w", "-g0", "-I", REPO + "/include", "-I", ROOT + "/harness"]
        if self.cxx.startswith("clang") and self.opt != "-O0":
            c += ["-fno-builtin"]   # else LLVM takes the counting operator new of track.hpp for one that writes no globals
        c += SAN[self.san] + ["-D" + d for d in self.defs] + self.flags
        return c + [os.path.join(ROOT, "harness", f) for f in [self.src] + self.more] + ["-o", out] + self.libs


def run_limited(cmd, timeout, log, env=None, cwd=None):
    """Run cmd in its own process group; returns exit code or None on time-out."""
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True,
                             stdin=subprocess.DEVNULL)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return None


def tail(path, n=60):
    try:
        return "\n".join(open(path, errors="replace").read().splitlines()[:n])
    except OSError:
        return ""


def compile_unit(u, bdir):
    exe, log = os.path.join(bdir, u.name), os.path.join(bdir, u.name + ".build.log")
    for attempt in range(2):
        rc = run_limited(u.cmd(exe), 600, log)
        if rc == 0:
            return "ok", exe
        text = open(log, errors="replace").read()
        hard = re.search(r"(internal compiler error|Killed|out of memory|Cannot allocate|No space left|terminated program)", text)
        if rc is not None and re.search(r"(error|static assertion)", text) and not hard:
            return "compile-error", text
    return "tool-error", text if rc is not None else "compiler timed out"


def run_once(u, exe, bdir, tag, timeout, extra_env=None):
    out, log = os.path.join(bdir, u.name + tag + ".json"), os.path.join(bdir, u.name + tag + ".log")
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ)
    env.update({"MC_OUT": out, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=97",
                "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1", "LC_ALL": "C"})
    env.update(u.env)
    env.update(extra_env or {})
    t = time.time()
    rc = run_limited([exe], timeout, log, env=env, cwd=bdir)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    return {"rc": rc, "res": res, "log": tail(log), "wall": time.time() - t}


def judge(r):
    """List of (key, message, trace) violations of one run; None = timed out."""
    if r["rc"] is None:
        return None
    v = []
    if r["res"]:
        v = [(x["key"], x["msg"], x["trace"]) for x in r["res"]["violations"]]
        if r["res"]["end"] == "ok" and r["rc"] == 0:
            return v
    if not v or not any(k.endswith(":: crash") for k, _, _ in v):
        v.append(("crash", "the harness ended with status %s" % r["rc"], ""))
    return v


def main():
    pid = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[pid]
    units = [Unit(**d) for d in chk["units"](tier)]
    only = os.environ.get("MC_UNIT")
    if only:
        units = [u for u in units if re.search(only, u.name)]
    bdir = tempfile.mkdtemp(prefix="optmc-%s-" % pid)
    replays = os.path.join(ROOT, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(replays, f))
    ok = [True]
    try:
        code = work(pid, tier, seed, chk, units, bdir, replays)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.stdout.flush()
    return code


def work(pid, tier, seed, chk, units, bdir, replays):
    # toolchain sanity: a trivial program must build and run, else nothing below means anything
    for cxx in sorted({u.cxx for u in units}):
        src = os.path.join(bdir, "t.cpp")
        open(src, "w").write("#include <string>\nint main(){return 0;}\n")
        if run_limited([cxx, "-std=c++17", src, "-o", bdir + "/t"], 120, bdir + "/t.log") != 0 or run_limited([bdir + "/t"], 60, bdir + "/t.log") != 0:
            print("ERROR: the toolchain %s does not work here:\n%s" % (cxx, tail(bdir + "/t.log")))
            return 2
    scale = 1 if tier == "quick" else 40
    results, found, errors = {}, [], []   # found: (unit, key, msg, trace, log)

    def job(u):
        t = time.time()
        st, x = compile_unit(u, bdir)
        u.build_s = time.time() - t
        if st != "ok":
            return u, st, x, None
        return u, "ok", x, run_once(u, x, bdir, "", u.timeout * scale)

    done = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MC_JOBS", "8"))) as ex:
        for u, st, x, r in ex.map(job, units):
            done.append((u, st, x, r))
            if os.environ.get("MC_VERBOSE"):
                print("# %-28s %s build %.1fs run %.1fs" % (u.name, st, u.build_s, r["wall"] if r else 0), flush=True)
    for u, st, x, r in done:
        if st == "compile-error":
            errs = "\n".join([l for l in x.splitlines() if "error" in l][:12])
            found.append((u, "does not compile" + (": " + u.subject if u.subject else ""), "the harness, which only uses the public interface, no longer compiles: " + errs[:900], "", x[:20000]))
            continue
        if st == "tool-error":
            errors.append("unit %s could not be built: %s" % (u.name, x[-600:]))
            continue
        v = judge(r)
        if v is None:  # re-run alone with a longer limit before calling it a hang
            r = run_once(u, x, bdir, ".again", u.timeout * scale * 1.5)
            v = judge(r)
            if v is None:
                found.append((u, "does not terminate", "no end within %d s" % (u.timeout * scale * 1.5), "", r["log"]))
                continue
        results[u.name] = r["res"]
        if v:  # replay before report
            r2 = run_once(u, x, bdir, ".replay", u.timeout * scale)
            v2 = judge(r2)
            k2 = {k for k, _, _ in v2} if v2 is not None else set()
            rep = [y for y in v if y[0] in k2]
            if not rep and v2:
                rep = [(k + " (first run: " + v[0][0] + ")", m, t) for k, m, t in v2]
            if not rep:
                errors.append("unit %s: %s did not happen again on replay" % (u.name, v[0][0]))
            for k, m, t in rep:
                found.append((u, k, m, t, r["log"]))
    if chk.get("post"):
        for unit_name, key, msg in chk["post"]({n: r for n, r in results.items() if r}):
            found.append((next(u for u in units if u.name == unit_name), key, msg, "", ""))

    known = load_known(pid)
    reported, hit = [], set()
    for f in found:
        kk = [k for k in known if k["key"] == f[1]]
        if kk:
            hit.add(kk[0]["key"])
        else:
            reported.append(f)
    for k in known:
        if k["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    wall = time.time() - T0
    evidence(pid, tier, seed, chk, units, results, found, wall)
    if reported:
        seen = set()
        for n, (u, k, m, t, log) in enumerate(reported[:20]):
            path = os.path.join(replays, "%s-%d.txt" % (pid, n + 1))
            with open(path, "w") as fo:
                fo.write("property  %s\nunit      %s\nviolation %s\nmessage   %s\nhistory   %s\n" % (pid, u.name, k, m, t))
                fo.write("\nreplay: build with\n  %s\nand run it (MC_OUT unset prints the report%s)\n" % (
                    " ".join(u.cmd("/tmp/" + u.name)), "".join("; %s=%s" % e for e in u.env.items())))
                fo.write("or: MC_UNIT='^%s$' VERIF_TIER=%s python3 run.py %s\n\n--- output ---\n%s\n" % (u.name, tier, pid, log))
            if (u.name, k) in seen:
                continue
            seen.add((u.name, k))
            print("%s: %s | %s | %s" % (u.name, k, m.replace("\n", " ")[:300], t[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    print("OK property=%s tier=%s units=%d wall=%.1fs" % (pid, tier, len(units), wall))
    return 0


def load_known(pid):
    """known_findings.txt: 'KNOWN-FINDING: property=<id> key=<<exact violation key>> <text>' and 'fixed: ...' lines."""
    out, p = [], os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=<<(.*?)>> (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "text": m.group(3)})
    return out


def evidence(pid, tier, seed, chk, units, results, found, wall):
    s = {k: sum(r[k] for r in results.values() if r) for k in ("states", "transitions", "traces", "checks")}
    samples = []
    for n, r in results.items():
        if r:
            samples += ["%s: %s" % (n, x) for x in r["samples"][:max(1, 24 // max(1, len(units)))]]
    samples = samples[:24] or ["(no unit finished)"]
    if chk["level"] == "fault_enumeration":
        cov = {"evaluations": s["transitions"], "distinct_nontrivial": s["traces"], "rule": chk["rule"], "samples": samples,
               "states": s["states"], "oracle_checks": s["checks"]}
    else:
        cov = {"states": s["states"], "transitions": s["transitions"], "traces_validated_against_impl": s["traces"],
               "samples": samples, "oracle_checks": s["checks"], "explanation": chk["rule"]}
    cov["exhaustive"] = True
    cov["units"] = {u.name: {"compiler": u.cxx, "std": u.std, "opt": u.opt, "sanitized": u.san, "defines": u.defs, "env": u.env,
                             "states": (results.get(u.name) or {}).get("states"), "transitions": (results.get(u.name) or {}).get("transitions"),
                             "traces": (results.get(u.name) or {}).get("traces")} for u in units}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(found)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", "." + pid + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
