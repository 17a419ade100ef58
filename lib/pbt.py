"""A small property-based testing engine.

A check generates cases (JSON values, normally with an "ops" list) from a seed,
runs each against the real server code and an oracle, and shrinks a failure by
deleting and simplifying operations.  Every random choice comes from the
generator's Random(VERIF_SEED, property, index): running a case is a pure
function of the case and of the code in /repo.
"""
import collections, hashlib, json, os, random, select, shutil, signal, sys, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Check:
    ID = None
    RULE = ""
    LEVEL = "exploration"
    ASSUMPTIONS = []
    QUICK = 200            # number of cases
    THOROUGH = 4000
    QUICK_CAP = 500        # seconds; a cap hit is recorded, never a violation
    THOROUGH_CAP = 3300
    WORKERS = 8
    VARIANT = "asan"
    CPU = 60               # CPU seconds one case may use before it counts as a hang

    def __init__(self):
        self.worlds = {}

    # -- to override
    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case):
        """Raises Violation; returns {"nontrivial": bool, "labels": [...]}"""
        raise NotImplementedError

    def simplify(self, op):
        """Simpler candidates for one operation."""
        return []

    def prepare(self):
        """Once, in the parent, before workers start (builds)."""
        import ircsim
        ircsim.simbuild.build(self.VARIANT)

    def describe(self, case):
        return case

    # -- worlds, booted once per worker
    def world(self, key, boot):
        w = self.worlds.get(key)
        if w is None:
            w = self.worlds[key] = boot()
        return w

    def drop_worlds(self):
        for w in self.worlds.values():
            w.sim.close()
        self.worlds = {}

    def close(self):
        self.drop_worlds()


class case_of:
    """with case_of(world) as w: ...   -- a forked copy of a booted network"""

    def __init__(self, check, world, leak=False):
        self.c, self.w, self.leak = check, world, leak

    def __enter__(self):
        self.w.begin(self.c.CPU)
        return self.w

    def __exit__(self, et, ev, tb):
        if et is None:
            self.w.finish(self.leak)
        else:
            # state unknown: after a violation the child is still serving
            import ircsim
            if et is Violation:
                self.w.finish()
            else:
                for k, w in list(self.c.worlds.items()):
                    if w is self.w:
                        w.sim.close()
                        del self.c.worlds[k]
        return False


def run_one(check, case):
    """(info, None) or (None, (message, key))"""
    import ircsim
    try:
        return check.run(case), None
    except Violation as v:
        return None, (str(v), v.key)
    except ircsim.Crash as e:
        check.drop_worlds()
        return None, ("CRASH: " + str(e), "crash")
    except ircsim.SimError as e:
        check.drop_worlds()
        return None, ("a step the property takes for granted failed: " + str(e), "simerror")


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def shrink(check, case, key, budget=400, seconds=90):
    """ddmin over every list under "ops" (or over case itself if a list)."""
    t0 = time.time()
    n = [0]

    def fails(c):
        if n[0] >= budget or time.time() - t0 > seconds:
            return False
        n[0] += 1
        try:
            _, bad = run_one(check, c)
        except Exception:
            return False
        return bad is not None and bad[1] == key

    def with_ops(ops):
        c = dict(case)
        c["ops"] = ops
        return c

    if not isinstance(case, dict) or not isinstance(case.get("ops"), list):
        return case, n[0]
    ops = case["ops"]
    size = max(1, len(ops) // 2)
    while True:
        i = 0
        removed = False
        while i < len(ops):
            cand = ops[:i] + ops[i + size:]
            if fails(with_ops(cand)):
                ops = cand
                removed = True
            else:
                i += size
        if size == 1 and not removed:
            break
        if n[0] >= budget or time.time() - t0 > seconds:
            break
        size = max(1, size // 2)
    changed = True
    while changed and n[0] < budget:
        changed = False
        for i in range(len(ops)):
            for alt in check.simplify(ops[i]):
                cand = ops[:i] + [alt] + ops[i + 1:]
                if fails(with_ops(cand)):
                    ops = cand
                    changed = True
                    break
    return with_ops(ops), n[0]


def rng_for(check, seed, i):
    return random.Random("%s/%d/%d" % (check.ID, seed, i))


def load_known(pid):
    """Open findings: {key: (casefile, text)} from known_findings.txt"""
    r = {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("finding: "):
                f = line.split(" ", 4)
                d = dict(x.split("=", 1) for x in f[1:4])
                if d["property"] == pid:
                    r[d["key"]] = (d["case"], f[4] if len(f) > 4 else "")
    return r


def worker(check, wid, nworkers, total, seed, tier, deadline, fd, known):
    out = os.fdopen(fd, "w", buffering=1)

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    hashes = {}
    labels = collections.Counter()
    samples = []
    nev = evals = 0
    unrep = []
    knownhits = collections.Counter()
    try:
        for i in range(wid, total, nworkers):
            if time.time() > deadline:
                emit(kind="cap", at=i)
                break
            case = check.gen(rng_for(check, seed, i), i, tier)
            info, bad = run_one(check, case)
            nev += 1
            if bad is not None and bad[1] in known:
                knownhits[bad[1]] += 1
                continue
            if bad is not None:
                emit(kind="suspect", i=i, msg=bad[0][:200])
                small, tried = shrink(check, case, bad[1])
                ok = 0
                last = bad
                for c in (small, case):
                    ok = 0
                    for _ in range(3):
                        _, b = run_one(check, c)
                        if b is not None and b[1] not in known:
                            ok += 1
                            last = b
                    if ok == 3 or (ok and last[1] == "crash"):
                        small = c
                        break
                if ok == 3 or (ok and last[1] == "crash"):
                    emit(kind="violation", i=i, msg=last[0], key=last[1], case=small, shrunk_with=tried)
                    break
                unrep.append({"index": i, "msg": bad[0][:500]})
                continue
            evals += info.get("checks", 1)
            for l in info.get("labels", ()):
                labels[l] += 1
            h = case_hash(case)
            hashes[h] = bool(info.get("nontrivial"))
            if info.get("nontrivial") and len(samples) < 2 and len(json.dumps(case)) < 4000:
                samples.append(check.describe(case))
            if nev % 20 == 0:
                emit(kind="progress", n=nev)
        emit(kind="done", n=nev, oracle=evals, nontrivial=[h for h, t in hashes.items() if t], labels=labels,
             samples=samples, unreproduced=unrep, known=knownhits)
    except Exception:
        emit(kind="error", msg=traceback.format_exc())
    finally:
        check.close()
        out.close()


def save_replay(check, case, msg, seed):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    p = d / ("%s-%s.json" % (check.ID, case_hash(case)))
    p.write_text(json.dumps({"property": check.ID, "seed": seed, "message": msg[:6000], "case": case}, indent=1))
    return p


def write_evidence(check, tier, seed, cov, wall, violations):
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    ev = {"property": check.ID, "tier": tier, "seed": seed, "level": check.LEVEL, "coverage": cov,
          "assumptions": list(check.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": violations}
    t = d / (".%s.tmp" % check.ID)
    t.write_text(json.dumps(ev, indent=1))
    os.rename(t, d / ("%s.json" % check.ID))


def abandon(check):
    """Leaves a worker at once, from a signal handler: nothing that might take a lock."""
    try:
        import ircsim
        for s in list(ircsim.LIVE):
            try:
                os.killpg(s.p.pid, signal.SIGKILL)
            except (OSError, AttributeError):
                pass
            shutil.rmtree(s.root, ignore_errors=True)
    finally:
        os._exit(0)


def main(check, tier, seed, count=None, only=None, workers=None):
    t0 = time.time()
    check.prepare()
    build_s = time.time() - t0
    total = count or (check.QUICK if tier == "quick" else check.THOROUGH)
    cap = check.QUICK_CAP if tier == "quick" else check.THOROUGH_CAP
    deadline = t0 + cap
    known = load_known(check.ID)
    # listed findings first: each has its own reproducer
    stale = []
    for key, (casefile, text) in sorted(known.items()):
        data = json.loads((VERIF / casefile).read_text())
        _, bad = run_one(check, data["case"])
        if bad is not None and bad[1] == key:
            print("KNOWN-FINDING: property=%s %s" % (check.ID, text), flush=True)
        else:
            stale.append(key)
    check.close()
    if only is not None:
        case = check.gen(rng_for(check, seed, only), only, tier)
        print(json.dumps(case))
        print(run_one(check, case))
        check.close()
        return 0
    nw = min(workers or check.WORKERS, total)
    kids = []
    sys.stdout.flush()
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for k in kids:
                os.close(k[1])
            signal.signal(signal.SIGTERM, lambda *a: abandon(check))
            worker(check, w, nw, total, seed, tier, deadline, wr, known)
            os._exit(0)
        os.close(wr)
        kids.append([pid, r, b""])
    viol, errors, done, caps, unrep = [], [], [], [], []
    open_ = {k[1]: k for k in kids}
    stop_at = None
    asked = 0
    while open_:
        rl, _, _ = select.select(list(open_), [], [], 1.0)
        for fd in rl:
            k = open_[fd]
            d = os.read(fd, 1 << 16)
            if not d:
                os.close(fd)
                del open_[fd]
                continue
            k[2] += d
            *ls, k[2] = k[2].split(b"\n")
            for l in ls:
                m = json.loads(l)
                if m["kind"] == "violation":
                    viol.append(m)
                    stop_at = stop_at or time.time() + 2
                elif m["kind"] == "error":
                    errors.append(m["msg"])
                elif m["kind"] == "done":
                    done.append(m)
                elif m["kind"] == "cap":
                    caps.append(m)
                elif m["kind"] == "suspect":
                    print("candidate at case %d: %s" % (m["i"], m["msg"].replace("\n", " | ")), file=sys.stderr, flush=True)
        if stop_at and time.time() > stop_at:
            for k in open_.values():
                try:
                    os.kill(k[0], signal.SIGKILL if asked else signal.SIGTERM)
                except ProcessLookupError:
                    pass
            stop_at = time.time() + 5
            asked += 1
            if asked > 3:
                break
    for k in kids:
        try:
            os.waitpid(k[0], 0)
        except ChildProcessError:
            pass
    nontriv = set()
    labels = collections.Counter()
    samples, n, oracle = [], 0, 0
    knownhits = collections.Counter()
    for m in done:
        nontriv.update(m["nontrivial"])
        labels.update(m["labels"])
        samples += m["samples"]
        n += m["n"]
        oracle += m["oracle"]
        unrep += m["unreproduced"]
        knownhits.update(m["known"])
    cov = {"evaluations": n, "distinct_nontrivial": len(nontriv), "rule": check.RULE,
           "samples": samples[:3] or [v["case"] for v in viol[:1]], "oracle_comparisons": oracle,
           "labels": dict(sorted(labels.items())), "workers": nw, "planned_cases": total,
           "stopped_by_time_cap": bool(caps), "build_s": round(build_s, 2)}
    if unrep:
        cov["unreproduced_candidates"] = unrep[:5]
    if known:
        cov["known_findings_hit"] = dict(knownhits)
        cov["known_findings_not_reproduced"] = stale
    cov.update(check_extra(check))
    write_evidence(check, tier, seed, cov, time.time() - t0, len(viol))
    if viol:
        v = min(viol, key=lambda v: v["i"])
        p = save_replay(check, v["case"], v["msg"], seed)
        print(v["msg"][:4000])
        print("minimal case: " + json.dumps(v["case"])[:4000])
        print("VIOLATION property=%s replay=%s" % (check.ID, p), flush=True)
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    if n == 0 or (not nontriv and n):
        print("no non-trivial case ran", file=sys.stderr)
        return 2
    print("ok property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs%s" % (
        check.ID, tier, seed, n, len(nontriv), time.time() - t0, " CAP" if caps else ""))
    return 0


def check_extra(check):
    f = getattr(check, "extra_coverage", None)
    return f() if f else {}


def replay(check, path):
    check.prepare()
    data = json.loads(Path(path).read_text())
    info, bad = run_one(check, data["case"])
    check.close()
    if bad is not None:
        print(bad[0])
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    print("ok: the case passes", info)
    return 0
