"""A small Python counterpart of src/pbt.hh: cases drawn from tapes of integers,
run in forked children, shrunk on the tape, replayable; same command line and
result format."""
import json, os, random, select, signal, sys, time

class Failure(Exception): pass
class Discard(Exception): pass

class Gen:
    """Draws from a tape; beyond its end from the random source (generation) or 0 (replay)"""
    def __init__(self, tape=None, rng=None):
        self.tape, self.rng, self.pos, self.used = tape or [], rng, 0, []
        self.checks, self.labels, self.text, self.nontrivial = 0, [], [], False
    def draw(self, n):
        if n <= 1: return 0
        if self.rng is not None: v = self.rng.randrange(n)
        else:
            v = self.tape[self.pos] % n if self.pos < len(self.tape) else 0
            self.pos += 1
        self.used.append(v)
        return v
    def pick(self, xs): return xs[self.draw(len(xs))]
    def value(self): return (self.draw(17) - 8) / 4.
    def describe(self, s):
        if len(self.text) < 40: self.text.append(s)
    def label(self, s): self.labels.append(s)
    def check(self, cond, *msg):
        self.checks += 1
        if not cond: raise Failure(" ".join(str(m) for m in msg))

def evaluate(fn, g):
    try:
        fn(g)
        return "pass", ""
    except Discard: return "discarded", ""
    except Failure as e: return "FAIL", "%s [case: %s]" % (e, "; ".join(g.text))
    except BaseException as e:
        return "FAIL", "unexpected %s: %s [case: %s]" % (type(e).__name__, str(e)[:400], "; ".join(g.text))

def isolated(work, timeout):
    """Runs work(send) in a child; yields received objects; ends with None or an error string"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open("/dev/null", os.O_RDWR); os.dup2(dn, 1); os.dup2(dn, 2)
        def send(o): os.write(w, (json.dumps(o) + "\n").encode())
        try: work(send)
        finally: os._exit(0)
    os.close(w)
    buf, got, hang = b"", [], False
    last = time.time()
    while True:
        ready = select.select([r], [], [], 1.0)[0]
        if ready:
            b = os.read(r, 65536)
            if not b: break
            last = time.time(); buf += b
            *lines, buf = buf.split(b"\n")
            for l in lines: got.append(json.loads(l))
        elif time.time() - last > timeout:
            hang = True; os.kill(pid, signal.SIGKILL); break
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    return got, ("hang" if hang else "killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else None)

def once(fn, tape, timeout):
    def work(send):
        g = Gen(tape=tape)
        o, m = evaluate(fn, g)
        send([o, m, g.used])
    got, err = isolated(work, timeout)
    if err: return ("HANG" if err == "hang" else "CRASH"), err, tape
    return got[-1] if got else ("CRASH", "child ended", tape)

def shrink(fn, tape, timeout, limit=25):
    end = time.time() + limit
    res = once(fn, tape, timeout)
    if res[0] in ("pass", "discarded"): return None
    best, msg = tape, res[1]
    def attempt(t):
        nonlocal best, msg
        r = once(fn, t, min(timeout, 10))
        if r[0] in ("pass", "discarded"): return False
        best, msg = t, r[1]
        return True
    progress = True
    while progress and time.time() < end:
        progress = False
        size = max(1, len(best) // 2)
        while size and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if attempt(best[:i] + best[i + size:]): progress = True
                else: i += size
            size //= 2
        for i in range(len(best)):
            if time.time() > end: break
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i] and attempt(best[:i] + [v] + best[i + 1:]): progress = True; break
    return best, msg

def run(props, name, seed, scale, max_time, timeout, out, replay_path):
    fn, cases = props[name]
    cases = max(1, int(cases * scale))
    t0 = time.time()
    st = dict(evaluations=0, discarded=0, distinct=0, distinct_nontrivial=0, checks=0, labels={}, samples=[])
    seen, failed = set(), None
    i = 0
    while i < cases and time.time() - t0 < max_time and failed is None:
        batch = min(50, cases - i)
        def work(send):
            for k in range(i, i + batch):
                if time.time() - t0 > max_time: return
                g = Gen(rng=random.Random("%d/%s/%d" % (seed, name, k)))
                send(dict(start=k))
                o, m = evaluate(fn, g)
                send(dict(k=k, o=o, m=m, tape=g.used, checks=g.checks, labels=g.labels, text="; ".join(g.text)[:300], nt=g.nontrivial))
                if o == "FAIL": return
        got, err = isolated(work, timeout)
        last = i
        for r in got:
            if "start" in r: last = r["start"]; continue
            st["evaluations"] += 1; st["checks"] += r["checks"]
            if r["o"] == "discarded": st["discarded"] += 1
            h = hash(tuple(r["tape"]))
            if h not in seen:
                seen.add(h); st["distinct"] += 1
                if r["nt"]: st["distinct_nontrivial"] += 1
            for l in r["labels"]: st["labels"][l] = st["labels"].get(l, 0) + 1
            if len(st["samples"]) < 3 and r["nt"]: st["samples"].append(r["text"])
            if r["o"] == "FAIL": failed = (r["k"], r["tape"], r["m"])
        if err and failed is None:
            # the tape of a crashed case is not known: record it again from the same seed,
            # written out number by number
            failed = (last, trace(fn, random.Random("%d/%s/%d" % (seed, name, last)), timeout), err)
        i += batch
    res = dict(name=name, **st, seed=seed, failed=failed is not None, reproduced=False, case=0, tape_len=0, first_message="", message="", replay="")
    if failed:
        res["case"], res["first_message"] = failed[0], failed[2]
        s = shrink(fn, failed[1], timeout)
        if s:
            res.update(reproduced=True, tape_len=len(s[0]), message=s[1], replay=replay_path)
            with open(replay_path, "w") as f:
                f.write("# pbt replay\nproperty %s\n# %s\ntape %s\n" % (name, s[1].replace("\n", " "), " ".join(map(str, s[0]))))
    res["wall_s"] = time.time() - t0
    with open(out, "w") as f: json.dump(res, f)

def trace(fn, rng, timeout):
    def work(send):
        g = Gen(rng=rng)
        draw = g.draw
        def d(n):
            v = draw(n)
            if n > 1: send(v)
            return v
        g.draw = d
        evaluate(fn, g)
    return isolated(work, timeout)[0]

def main(props, argv):
    opt = dict(zip(argv[0::2], argv[1::2])) if argv[:1] != ["--list"] else {}
    if argv[:1] == ["--list"]:
        for p in props: print(p, 1)
        return 0
    if "--replay" in opt:
        name, tape = None, []
        for l in open(opt["--replay"]):
            w = l.split()
            if w[:1] == ["property"]: name = w[1]
            if w[:1] == ["tape"]: tape = list(map(int, w[1:]))
        o, m, _ = once(props[name][0], tape, 120)
        print("%s: %s %s" % (name, o, m))
        return 0 if o in ("pass", "discarded") else 1
    run(props, opt["--run"], int(opt.get("--seed", 1)), float(opt.get("--scale", 1)), float(opt.get("--max-time", 300)),
        float(opt.get("--case-timeout", 60)), opt.get("--out", "/dev/null"), opt.get("--replay-out", "/dev/null"))
    return 0
