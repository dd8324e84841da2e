#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's working tree, runs
them, shrinks and replays failures, writes the evidence file.

  run.py C04                 quick or thorough tier by VERIF_TIER (default quick)
  run.py C04 --replay FILE   rebuilds and replays one case
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
VENV = "/opt/dune/venv"
sys.path.insert(0, VERIF)
from checks import CHECKS, COMMON_RULE   # noqa: E402

CORES = os.cpu_count() or 4

def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8", CCACHE_DISABLE="1")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
    return e

BASE = ["g++", "-std=gnu++20", "-DHAVE_CONFIG_H", "-D_GLIBCXX_ASSERTIONS", "-Og", "-w",
        "-I" + VERIF + "/src", "-I" + VERIF + "/harness", "-I" + REPO, "-isystem", VENV + "/include"]
LIBS = ["-L" + VENV + "/lib", "-ldunegrid", "-ldunegeometry", "-ldunecommon", "-llapack", "-lblas"]

def compile_unit(u, bdir):
    """u: dict(src, name, defs, san, libs, gen)"""
    exe = os.path.join(bdir, u["name"])
    if u.get("prepare"):      # a harness in Python: build the extension modules it uses
        sys.path.insert(0, os.path.join(VERIF, "harness", "py"))
        t = time.time()
        rc, log = __import__(u["prepare"]).prepare(bdir, exe, REPO, VERIF)
        return u, exe, rc, log, time.time() - t
    src = u["src"] if u["src"].startswith("/") else os.path.join(VERIF, "harness", u["src"])
    cmd = list(BASE) + ["-D" + d for d in u.get("defs", [])]
    if u.get("san"):
        cmd += ["-g1", "-fsanitize=" + u["san"], "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    cmd += u.get("flags", []) + [src, "-o", exe] + u.get("prelibs", []) + LIBS + u.get("libs", [])
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), errors="replace")
    return u, exe, p.returncode, p.stdout, time.time() - t

def toolchain_works(bdir):
    p = subprocess.run(BASE + ["-fsyntax-only", os.path.join(VERIF, "src", "control.cc")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env())
    return p.returncode == 0

def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = CHECKS[prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return go(prop, replay, tier, seed, check, t0, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def go(prop, replay, tier, seed, check, t0, bdir):
    units = check["units"](tier, seed, bdir) if callable(check["units"]) else check["units"]
    budget = 3000 if tier == "thorough" else 780      # seconds for everything
    scale = float(os.environ.get("VERIF_SCALE", check.get("thorough_scale", 12) if tier == "thorough" else 1))
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    only = None
    if replay:
        txt = open(replay).read()
        m = re.search(r"^unit (\S+)", txt, re.M); only = m.group(1) if m else None
        m = re.search(r"^seed (\d+)", txt, re.M)
        if m and callable(check["units"]):
            units = check["units"](tier, int(m.group(1)), bdir)
        units = [u for u in units if only in (None, u["name"])]

    results, errors, broken = [], [], []
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = {ex.submit(compile_unit, u, bdir): u for u in units}
        runs = []
        def run_one(u, exe, name, max_time):
            out = os.path.join(bdir, u["name"] + "." + name + ".json")
            rp = os.path.join(rdir, "%s-%s-%s-seed%d.replay" % (prop, u["name"], name, seed))
            cmd = [exe, "--run", name, "--seed", str(seed), "--scale", str(scale * u.get("scale", 1)),
                   "--max-time", str(max_time), "--case-timeout", str(u.get("case_timeout", 60)), "--out", out, "--replay-out", rp]
            try:
                subprocess.run(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=max_time + 400)
                r = json.load(open(out))
            except Exception as e:
                return dict(unit=u["name"], name=name, error="runner: %s" % e)
            r["unit"] = u["name"]
            return r
        compiled = 0
        for f in cf.as_completed(futs):
            u, exe, rc, log, dt = f.result()
            if os.environ.get("VERIF_VERBOSE"): print("compiled %s in %.1fs rc=%d" % (u["name"], dt, rc), flush=True)
            if rc != 0:
                # A documented use (the harnesses use public interfaces only) that the compiler
                # rejects is a violation, a compiler that does not work is an error.
                if re.search(r"\berror: ", log) and not re.search(r"[Kk]illed|internal compiler error|No space left|cannot allocate", log) and toolchain_works(bdir):
                    rp = os.path.join(rdir, "%s-%s-compile.replay" % (prop, u["name"]))
                    with open(rp, "w") as fh: fh.write("unit %s\nseed %d\n# does not compile:\n%s\n" % (u["name"], seed, log[:20000]))
                    broken.append((u["name"], rp, log))
                else:
                    errors.append("unit %s does not compile:\n%s" % (u["name"], log[:6000]))
                continue
            if replay:
                p = subprocess.run([exe, "--replay", replay], env=env(), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                print(p.stdout)
                if p.returncode == 1: print("VIOLATION property=%s replay=%s" % (prop, replay))
                return p.returncode
            compiled += 1
            p = subprocess.run([exe, "--list"], env=env(), text=True, stdout=subprocess.PIPE)
            left = budget - (time.time() - t0)
            for line in p.stdout.split("\n"):
                if line.strip():
                    # the time limit is a safety net; the number of cases decides
                    runs.append(ex.submit(run_one, u, exe, line.split()[0], max(20, min(left * 0.6, 1500 if tier == "thorough" else 300))))
        for r in runs:
            results.append(r.result())

    known = []
    kf = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            if line.strip():
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known": known.append(k)

    violations, knownhits = [], []
    for r in results:
        if r.get("error"): errors.append("%s/%s: %s" % (r["unit"], r["name"], r["error"])); continue
        if r["failed"]:
            if not r["reproduced"]:
                errors.append("%s/%s: failure did not reproduce: %s" % (r["unit"], r["name"], r["first_message"])); continue
            with open(r["replay"], "a") as f: f.write("unit %s\nseed %d\n" % (r["unit"], seed))
            hit = [k for k in known if k["check"] == r["unit"] + "/" + r["name"] and re.search(k["match"], r["message"])]
            (knownhits if hit else violations).append((r, hit[0] if hit else None))
    for r, k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r, _ in violations:
        print("%s/%s case %d, shrunk to %d choices: %s" % (r["unit"], r["name"], r["case"], r["tape_len"], r["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))

    for name, rp, log in broken:
        print("%s: a documented use does not compile: %s" % (name, re.search(r".*\berror: .*", log).group(0)[:500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if replay: return 1 if broken else 2
    violations = violations + broken

    ok = [r for r in results if not r.get("error")]
    samples = []
    for r in ok:
        for s in r["samples"][:1]: samples.append(r["unit"] + "/" + r["name"] + ": " + s)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=sum(r["evaluations"] for r in ok),
            distinct_nontrivial=sum(r["distinct_nontrivial"] for r in ok),
            rule=check["rule"] + " " + COMMON_RULE,
            samples=samples[:12],
            discarded=sum(r["discarded"] for r in ok),
            oracle_comparisons=sum(r["checks"] for r in ok),
            per_check={r["unit"] + "/" + r["name"]: dict(evaluations=r["evaluations"], distinct=r["distinct"], distinct_nontrivial=r["distinct_nontrivial"], comparisons=r["checks"], wall_s=round(r["wall_s"], 2), labels=r["labels"]) for r in ok}),
        assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for e in errors: print("ERROR " + e[:1500], file=sys.stderr)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d comparisons, %d violations, %d errors, %.0f s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        ev["coverage"]["oracle_comparisons"], len(violations), len(errors), time.time() - t0))
    if violations: return 1
    if errors: return 2
    return 0

sys.exit(main())
