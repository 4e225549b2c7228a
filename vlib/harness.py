"""Common driver of the checks: command line, parallel drivers, evidence, verdicts."""
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import gen, tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")


MAXREP = int(os.environ.get("VERIF_MAXREP", "5"))


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang("the call did not return within its time limit")


_FN = None


def _guard(args):
    """Run one driver case; a crash of the code under test becomes a crash record."""
    i, a, limit = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return i, _FN(a), None
    except gen.NoGraph:
        return i, None, None
    except BaseException as e:  # noqa: BLE001 - every failure is reported
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-4:]
        return i, None, {
            "exc": type(e).__name__, "msg": str(e)[:300], "where": where,
            "tb": "".join(traceback.format_exception(e))[-3000:],
        }
    finally:
        signal.alarm(0)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.level = "model_checking"
        with open(os.path.join(HERE, "known_findings.json")) as fh:
            kf = json.load(fh)
        self.known = {
            k["id"]: k for k in kf["findings"]
            if k["property"] == pid and k["status"] == "known"
        }
        self.thorough = tier == "thorough"

    # ------------------------------------------------------------ bookkeeping
    def rng(self, *salt):
        return random.Random(f"{self.seed}/{self.pid}/{salt}")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------ verdicts
    def violation(self, clause, replay, key=None):
        """Report a violation (or a known finding, by exact history key)."""
        for kid, k in self.known.items():
            if key is not None and key == k["key"] and clause.startswith(k["clause"]):
                if kid not in self.known_hit:
                    self.known_hit[kid] = clause
                    print(f"KNOWN-FINDING: property={self.pid} {kid}: {k['what']}")
                return
        self.violations.append(clause)
        if len(self.violations) > MAXREP:
            return
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode())
        path = os.path.join(d, f"{self.pid}-{h.hexdigest()[:10]}.json")
        with open(path, "w") as fh:
            json.dump(
                {"property": self.pid, "clause": clause, "case": replay}, fh,
                default=str, indent=1,
            )
        print(f"VIOLATION property={self.pid} replay={path}")
        print(f"  clause: {clause[:400]}", flush=True)

    def drive(self, fn, args, limit=60, procs=8, chunk=4):
        """Run driver cases against the real code in parallel; returns results.

        A case whose call into the code under test raises where the driver expects
        it not to (or never returns) is a violation by itself.  ``fn`` returns None
        when it skips a case.
        """
        global _FN
        _FN = fn
        args = list(args)
        res = [None] * len(args)
        jobs = [(i, a, limit) for i, a in enumerate(args)]
        crashes = 0
        if procs == 1 or len(jobs) < 4:
            it = map(_guard, jobs)
            pool = None
        else:
            pool = multiprocessing.get_context("fork").Pool(procs)
            it = pool.imap_unordered(_guard, jobs, chunksize=chunk)
        for i, r, err in it:
            if err:
                crashes += 1
                self.violation(
                    f"unexpected {err['exc']}: {err['msg']} at {err['where'][-1]}",
                    {"driver_case": args[i], "driver": fn.__name__, **err},
                    key=args[i].get("key") if isinstance(args[i], dict) else None,
                )
                if len(self.violations) > 5:
                    break
            res[i] = r
        if pool:
            pool.terminate()
            pool.join()
        self.count("driver_cases", len(args))
        out = [r for r in res if r is not None]
        flat = []
        for r in out:
            flat.extend(r if isinstance(r, list) else [r])
        return flat

    def validate(self, module, traces, name=None, **kw):
        """Check recorded traces against a trace specification with TLC."""
        if not traces:
            return None
        slim = [{k: v for k, v in t.items() if not k.startswith("_")} for t in traces]
        v = tlc.validate(module, slim, **kw)
        self.states += v.states
        self.transitions += v.transitions
        self.validated += len(v.done)
        self.count(f"traces_{name or module}", len(traces))
        for i, (l, clause) in sorted(v.viol.items()):
            t = traces[i]
            self.violation(
                f"{module}: step {l}: {clause}",
                {"module": module, "step": l, "trace": t}, key=t.get("_key"),
            )
        if v.done:
            i = min(v.done, key=lambda j: len(json.dumps(slim[j])))
            self.sample({"spec": module, "trace": slim[i]})
        self.log(f"{module}: {len(traces)} traces, {len(v.done)} accepted, "
                 f"{len(v.viol)} rejected, {v.states} states")
        return v

    def model(self, module, cfg, files=None, workers=8, timeout=800, heap="8g",
              expect_violation=None, extra=()):
        """Exhaustively check a design model; its failure is an error of the check."""
        r = tlc.run(module, cfg, files=files, workers=workers, timeout=timeout,
                    heap=heap, extra=extra)
        if expect_violation:
            if r.violated != expect_violation:
                raise tlc.TLCError(f"{module}: expected violation of "
                                   f"{expect_violation}, got:\n{r.out[-3000:]}")
        elif not r.ok:
            raise tlc.TLCError(f"{module} design model failed:\n{chr(10).join(x for x in r.out.splitlines() if not x.startswith(chr(34)))[-4000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        self.count(f"model_states_{module}", r.distinct)
        self.log(f"model {module}: {r.distinct} distinct states, depth {r.depth}, "
                 f"{r.wall:.1f}s")
        return r

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or ["none"], **self.cov,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if self.known_hit:
            ev["coverage"]["known_findings_reproduced"] = sorted(self.known_hit)
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        if self.violations:
            n = {}
            for c in self.violations:
                n[c[:160]] = n.get(c[:160], 0) + 1
            for c, k in sorted(n.items(), key=lambda x: -x[1])[:20]:
                self.log(f"{k:5d} x {c}")
        self.log(f"{len(self.violations)} violations; {self.states} states, "
                 f"{self.validated} traces validated")
        return 1 if self.violations else 0


def main(pid, body):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        body(ctx)
    except Exception:
        traceback.print_exc()
        if ctx.violations:  # a violation was already established
            sys.exit(ctx.finish())
        print(f"CHECK-ERROR property={pid}", flush=True)
        sys.exit(2)
    sys.exit(ctx.finish())
