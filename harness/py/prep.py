"""Private copy of the Python module cache, and the parallel build of all modules."""
import os, re, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
MASTER, VENV = "/opt/dune/dunepy", "/opt/dune/venv"

def environment(pydir, repo):
    e = dict(os.environ)
    e.update(HOME=pydir, LANG="C.UTF-8", VENV=VENV, VIRTUAL_ENV=VENV, PATH=VENV + "/bin:" + e.get("PATH", ""), CC="gcc", CXX="g++",
        PYTHONDONTWRITEBYTECODE="1", DUNE_PY_DIR=pydir, DUNE_CXX_COMPILER_LAUNCHER=os.path.join(pydir, "launch"), DUNE_LOG_LEVEL="warning",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1", CCACHE_DISABLE="1", PYTHONPATH=repo + "/python", CPATH=HERE)
    return e

def copy_cache(pydir, repo, verif):
    def ignore(d, names):
        return [n for n in names if re.match(r"(algorithm_|globalbasis_|subspaceBasis_)", n) or n.endswith(".lock")]
    shutil.copytree(MASTER, pydir, symlinks=True, ignore=ignore)
    with open(os.path.join(pydir, "launch"), "w") as f: f.write('#!/bin/sh\nexec "$@" -Og -w\n')
    os.chmod(os.path.join(pydir, "launch"), 0o755)
    inc = os.path.join(pydir, "functions-include"); os.makedirs(inc)
    shutil.copy(os.path.join(verif, "src", "dune-functions-config.hh"), inc)
    os.utime(os.path.join(inc, "dune-functions-config.hh"), (1e9, 1e9))
    for root, _, files in os.walk(pydir):
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p): continue
            b = open(p, "rb").read()
            if b"\0" in b[:4096] or (MASTER.encode() not in b and b"/repo/" not in b): continue
            st = os.stat(p)
            b = b.replace(MASTER.encode(), pydir.encode()).replace(b"/repo/_build/include", inc.encode())
            b = b.replace(b"-isystem /repo/_build ", b"").replace(b"/repo/_overlay", repo.encode())
            open(p, "wb").write(b); os.utime(p, (st.st_atime, st.st_mtime))

def prepare(bdir, exe, repo, verif):
    """returns (rc, log)"""
    pydir = os.path.join(bdir, "dunepy")
    copy_cache(pydir, repo, verif)
    e = environment(pydir, repo)
    sys.path.insert(0, HERE)
    from c30trees import SPACES, CHUNKS
    # the parents of the sub-spaces first, then roughly by decreasing cost
    rank = {"th_flat": 0, "th_blocked": 1, "rt_3d": 2, "nedelec_3d": 3, "power_3d": 4, "th_3d": 5, "product": 6, "power_rt": 7, "p2_3d": 8, "one": 8}
    jobs = sorted(["space:" + s.name for s in SPACES if not s.sub], key=lambda j: rank.get(j[6:], 9))
    jobs[10:10] = ["ref:%d:%d" % (d, k) for d in CHUNKS for k in range(CHUNKS[d])]
    after = {s.name: "space:th_blocked" if "blocked" in s.name else "space:th_flat" for s in SPACES if s.sub}
    log, rc = "", 0
    def one(j):
        p = subprocess.run([VENV + "/bin/python", os.path.join(HERE, "c30.py"), "--build", j], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return j, p.returncode, p.stdout
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        queue, running = list(jobs), set()
        while queue or running:
            while queue and len(running) < ex._max_workers:
                running.add(ex.submit(one, queue.pop(0)))
            done, running = cf.wait(running, return_when=cf.FIRST_COMPLETED)
            for f in done:
                j, r, out = f.result()
                if r != 0:
                    rc = 1; log += "== %s\n%s\n" % (j, out)
                queue[:0] = ["space:" + n for n in after if after[n] == j]
    with open(exe, "w") as f:
        f.write("#!/bin/sh\n")
        for k, v in e.items():
            if k.isidentifier() and os.environ.get(k) != v: f.write("export %s='%s'\n" % (k, v))
        f.write("exec %s/bin/python %s/c30.py \"$@\"\n" % (VENV, HERE))
    os.chmod(exe, 0o755)
    return rc, log
