#!/usr/bin/env python3
"""Runs the check of one property: builds its harness against /repo's working tree, explores,
confirms what it finds by replaying it, writes evidence/<id>.json.

  run.py <id> [--tier quick|thorough]     exit 0: held on everything explored
                                          exit 1: VIOLATION property=<id> replay=<path>
                                          exit 2: the check itself failed
  run.py <id> --replay <path>             re-executes a violation
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OBAKE_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CACHE = os.path.join(VERIF, ".build", "cache")


class CompileError(Exception):
    pass


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# Functions replaced by the concurrency runtime (mc/rt.cpp).
RT_WRAPPED = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock",
              "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "sched_yield", "__cxa_guard_acquire",
              "__cxa_guard_release", "__cxa_guard_abort", "__cxa_thread_atexit"]


def tree_hash(dirs):
    h = hashlib.sha1()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def gen_config(gen):
    """What cmake's configure_file() makes of config.hpp.in."""
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\(obake VERSION ([0-9]+)\.([0-9]+)\.([0-9]+)", cm)
    v = m.groups() if m else ("0", "9", "0")
    s = open(os.path.join(REPO, "config.hpp.in")).read()
    sub = {"obake_VERSION": ".".join(v), "obake_VERSION_MAJOR": v[0], "obake_VERSION_MINOR": v[1], "obake_VERSION_PATCH": v[2]}
    s = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), s)
    os.makedirs(os.path.join(gen, "obake"), exist_ok=True)
    open(os.path.join(gen, "obake", "config.hpp"), "w").write(s)


def gen_boost_fix(gen):
    """Boost 1.83's flat maps corrupt themselves when a never-filled map is copy-assigned to a filled one (fixed
    upstream in 1.84): overlay the header with the repaired condition. See env/README.md."""
    src = "/usr/include/boost/unordered/detail/foa/core.hpp"
    if not os.path.exists(src):
        return
    s = open(src).read()
    a = "  void fast_copy_elements_from(const table_core& x)\n  {\n    if(arrays.elements){"
    if s.count(a) == 1:
        d = os.path.join(gen, "boost/unordered/detail/foa")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "core.hpp"), "w").write(s.replace(a, a.replace("arrays.elements){", "arrays.elements&&x.arrays.elements){")))


class Builder:
    def __init__(self, cfg, bdir, jobs):
        self.cfg, self.bdir, self.jobs = cfg, bdir, jobs
        self.gen = os.path.join(bdir, "gen")
        gen_config(self.gen)
        gen_boost_fix(self.gen)
        self.cxx = cfg.get("cxx", "g++")
        inc = ["-I" + self.gen, "-I" + REPO + "/include"]
        if cfg.get("tbb", "stub") == "stub":
            inc.append("-I" + VERIF + "/env_tbb")
        inc.append("-I" + VERIF + "/env")
        self.common = ["-std=c++20", "-pthread", "-D_GLIBCXX_ASSERTIONS"] + inc
        self.flags = cfg.get("flags", ["-O1"])
        self.base = tree_hash([REPO + "/include", REPO + "/src", VERIF + "/env", VERIF + "/env_tbb", VERIF + "/mc", VERIF + "/h", self.gen])

    def compile(self, src, flags, extra_key=""):
        cmd = [self.cxx] + self.common + flags + ["-c", src]
        rel = [c.replace(self.bdir, "@B@") for c in cmd]
        key = hashlib.sha1((self.base + json.dumps(rel) + open(src).read()).encode()).hexdigest()
        out = os.path.join(CACHE, key + ".o")
        if os.path.exists(out):
            os.utime(out)
            return out
        tmp = os.path.join(self.bdir, key + ".o")
        try:
            r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        except subprocess.TimeoutExpired:
            raise ToolError("compiler timeout on " + src)
        if r.returncode != 0:
            txt = "$ " + " ".join(cmd) + "\n" + r.stdout
            if re.search(r"\b(fatal )?error: ", r.stdout) and "internal compiler error" not in r.stdout \
                    and not re.search(r"Killed|cannot allocate|out of memory", r.stdout):
                raise CompileError(txt)
            raise ToolError(txt[-3000:])
        os.makedirs(CACHE, exist_ok=True)
        os.replace(tmp, out)
        return out

    def build(self, exe):
        cfg = self.cfg
        jobs = []
        for s in cfg["src"]:
            if isinstance(s, dict):
                jobs.append((os.path.join(VERIF, s["file"]), s["flags"]) + ((s["image"],) if s.get("image") else ()))
            else:
                jobs.append((os.path.join(VERIF, s), self.flags))
        libsrc = [f for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if "libbacktrace" not in f]
        if cfg.get("libsrc") is not None:
            libsrc = [f for f in libsrc if any(f.endswith(x) for x in cfg["libsrc"])]
        jobs += [(f, cfg.get("libflags", self.flags)) for f in libsrc]
        with concurrent.futures.ThreadPoolExecutor(self.jobs) as ex:
            objs = list(ex.map(lambda j: self.compile(*j[:2]), jobs))
        for i, j in enumerate(jobs):
            if len(j) > 2:
                # Stands for another shared library: it keeps what has hidden visibility for itself.
                o = os.path.join(self.bdir, "image%d.o" % i)
                # (Its static initialisation is left to the harness.)
                for c in (["ld", "-r", "--force-group-allocation", "-o", o, objs[i]],
                          ["objcopy"] + (["--localize-hidden"] if j[2] > 1 else []) + ["--rename-section", ".init_array=init_of_image%d,alloc,load,data,contents" % j[2], o]):
                    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode != 0:
                        raise ToolError(r.stdout[-2000:])
                objs[i] = o
        cmd = [self.cxx, "-pthread"] + cfg.get("ldflags", []) + ["-o", exe] + objs
        if cfg.get("tbb", "stub") != "stub":
            cmd.append("-ltbb")
        cmd += cfg.get("libs", ["-lfmt", "-lgmp", "-lboost_serialization", "-ldl"])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CompileError("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])


def prune_cache(limit=3 << 30):
    try:
        fs = sorted((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(CACHE + "/*.o"))
        tot = sum(x[1] for x in fs)
        for _, sz, f in fs:
            if tot <= limit:
                break
            os.unlink(f)
            tot -= sz
    except OSError:
        pass


def setup():
    """Nothing needs to be built ahead (each check compiles its harness from the current tree): verify the tools."""
    for t in (["g++", "--version"], ["clang++", "--version"]):
        subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
    sys.exit(0)


def main():
    if sys.argv[1:] == ["--setup"]:
        setup()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.prop
    cfg = dict(CHECKS[pid])
    if "src" not in cfg:
        # The harness is split in parts, selected by a macro and compiled in parallel.
        fl = cfg.get("flags", ["-O1"])
        cfg["src"] = [{"file": "h/%s.cpp" % pid, "flags": fl + ["-DPART=%d" % k]} for k in range(cfg.get("parts", 1))]
    if cfg.get("rt"):
        # The code under test is instrumented, the explorer and the runtime it calls are not.
        plain = ["-O2", "-g1", "-femulated-tls"]
        inst = ["-g1", "-fsanitize=thread", "-femulated-tls", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
        cfg["cxx"] = "clang++"
        cfg["src"] = [dict(s, flags=s["flags"] + inst) for s in cfg["src"]]
        cfg["libflags"] = cfg.get("libflags", cfg.get("flags", ["-O1"])) + inst
        cfg["ldflags"] = cfg.get("ldflags", []) + ["-Wl," + ",".join("--wrap=" + f for f in RT_WRAPPED)]
        cfg["src"] = cfg["src"] + [{"file": "mc/mc.cpp", "flags": plain}, {"file": "mc/rt.cpp", "flags": plain}]
    else:
        cfg["src"] = cfg["src"] + ["mc/mc.cpp"]
    if os.environ.get("VERIF_SAN", "") == "1" or cfg.get("san"):
        # Memory errors and undefined behaviour are violations too.
        san = ["-fsanitize=address,signed-integer-overflow,shift,bounds,integer-divide-by-zero,bool,enum,return,unreachable,float-cast-overflow", "-fno-sanitize-recover=all"]
        fl = cfg.get("flags", ["-O1"])
        cfg["src"] = [dict(s, flags=s["flags"] + san) if isinstance(s, dict) else {"file": s, "flags": fl + san} for s in cfg["src"]]
        cfg["libflags"] = cfg.get("libflags", fl) + san
        cfg["ldflags"] = cfg.get("ldflags", []) + ["-fsanitize=address,undefined"]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    jobs = os.cpu_count() or 8
    bdir = os.path.join(VERIF, ".build", "%s-%d" % (pid, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    evf = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []},
          "assumptions": cfg.get("assumptions", []), "wall_s": 0.0, "violations": 0}

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 3)
        if not a.replay:
            json.dump(ev, open(evf, "w"), indent=1)
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
        prune_cache()
        sys.stdout.flush()
        sys.exit(code)

    def violation(path, msg):
        log(msg[:3000])
        log("VIOLATION property=%s replay=%s" % (pid, path))
        ev["violations"] = 1
        ev["coverage"]["exhaustive"] = False
        finish(1)

    exe = os.path.join(bdir, "check")
    try:
        Builder(cfg, bdir, jobs).build(exe)
    except CompileError as e:
        # A program that only uses the documented interface no longer compiles or links.
        path = os.path.join(rdir, "%s-build.txt" % pid)
        open(path, "w").write(str(e))
        errs = "\n".join(l for l in str(e).splitlines() if "error" in l or "undefined" in l)[:2000]
        ev["coverage"]["samples"] = [errs]
        violation(path, "the harness of %s does not build against the current tree:\n%s" % (pid, errs))
    except ToolError as e:
        log("build failed:", e)
        finish(2)
    log("built in %.1f s" % (time.time() - t0))
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:symbolize=0:quarantine_size_mb=48:malloc_context_size=0", "UBSAN_OPTIONS": "print_stacktrace=0:abort_on_error=1"})
    env.update(cfg.get("env", {}))
    pre = cfg.get("wrap", [])
    if a.replay:
        if a.replay.endswith("-build.txt"):
            log("the harness builds")
            finish(0)
        r = subprocess.run(pre + [exe, "--replay", os.path.abspath(a.replay)], env=env, cwd=bdir)
        log("replay: " + ("violated" if r.returncode else "satisfied"))
        finish(1 if r.returncode else 0)

    out = os.path.join(bdir, "out.json")
    rep = os.path.join(rdir, "%s-%s.txt" % (pid, tier))
    if os.path.exists(rep):
        os.unlink(rep)
    budget = cfg.get("budget", {}).get(tier, 420 if tier == "quick" else 3600)
    cmd = pre + [exe, "--tier", tier, "--out", out, "--replay-out", rep, "--workers", str(min(jobs, cfg.get("workers", 8))),
                 "--budget", str(budget)] + (["--only", a.only] if a.only else [])
    for attempt in range(3):
        try:
            r = subprocess.run(cmd, env=env, cwd=bdir, timeout=budget + 200)
        except subprocess.TimeoutExpired:
            log("the exploration did not end in time")
            finish(2)
        if r.returncode != 2:
            break
        log("the exploration was interrupted (attempt %d)" % attempt)
        # Probably by lack of memory.
        w = cmd.index("--workers") + 1
        cmd[w] = str(max(1, int(cmd[w]) // 2))
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        log("no result from the explorer (status %d)" % r.returncode)
        finish(2)
    cov = ev["coverage"]
    cov.update({
        "states": res["distinct_states"], "transitions": res["ops"], "traces_validated_against_impl": res["executions"],
        "comparisons": res["validated"], "choice_points": res["choice_points"], "pruned": res["pruned"],
        "executions_per_scenario": res["scenarios"], "samples": res["samples"][:12], "exhaustive": bool(res["exhaustive"]),
        "rule": cfg.get("rule", "all the choice sequences of the scenarios, by depth-first re-execution of the real code")})
    log("%d executions, %d distinct states, %d transitions, %d comparisons, exhaustive within the bounds: %s, %.1f s"
        % (res["executions"], res["distinct_states"], res["ops"], res["validated"], res["exhaustive"], res["wall_s"]))
    if r.returncode == 0:
        if res["executions"] == 0:
            log("nothing was explored")
            finish(2)
        finish(0)
    if r.returncode != 1 or not res.get("violation"):
        log("the explorer failed with status", r.returncode)
        finish(2)
    # Confirm by replaying in fresh processes.
    v = res["violation"]
    cov["samples"] = ["%s: %s" % (v["scenario"], v["message"])] + cov["samples"]
    ok = 0
    for _ in range(3):
        try:
            q = subprocess.run(pre + [exe, "--replay", rep], env=env, cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=150, errors="replace", text=True)
            bad = q.returncode != 0
            txt = q.stdout
        except subprocess.TimeoutExpired:
            bad, txt = True, "(no progress)"
        if bad:
            ok += 1
            if ok == 2:
                break
    if not ok:
        log("a reported violation could not be reproduced: %s: %s" % (v["scenario"], v["message"]))
        finish(2)
    log("replayed:\n" + txt[-2500:])
    violation(rep, "%s: %s" % (v["scenario"], v["message"]))


if __name__ == "__main__":
    main()
