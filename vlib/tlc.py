"""Running TLC on the specifications in /verif/spec, in a scratch directory."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)


class TLCError(RuntimeError):
    """TLC itself failed (parse error, evaluation error, time limit)."""


class Result:
    def __init__(self, out, wall):
        self.out = out
        self.wall = wall
        self.lines = []
        for ln in out.splitlines():
            ln = ln.strip()
            if ln.startswith('"') and ln.endswith('"'):
                self.lines.append(ln[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        m = re.findall(
            r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out
        )
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        m = re.search(r"Invariant (\w+) is violated", out)
        self.violated = m.group(1) if m else None


def run(module, cfg, files=None, workers=1, heap="2g", timeout=600, extra=()):
    """Run TLC on ``module`` with configuration text ``cfg``.

    ``files``: extra files {name: text or object (written as JSON)}.
    """
    d = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                if isinstance(content, str):
                    fh.write(content)
                else:
                    json.dump(content, fh)
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            fh.write(cfg)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = [
            "java", gc, f"-Xmx{heap}", "-Xss16m", "-XX:TieredStopAtLevel=1"
            if workers == 1 else "-XX:+TieredCompilation",
            "-cp", JARS, "tlc2.TLC", "-deadlock", "-noGenerateSpecTE",
            "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
            "-config", "MC.cfg", *extra, module + ".tla",
        ]
        t0 = time.time()
        try:
            p = subprocess.run(
                cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                timeout=timeout, text=True, errors="replace",
            )
        except subprocess.TimeoutExpired as e:
            raise TLCError(f"TLC timed out after {timeout}s on {module}") from e
        r = Result(p.stdout, time.time() - t0)
        r.rc = p.returncode
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


TRACE_CFG = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n"


class TraceVerdict:
    def __init__(self):
        self.done = set()
        self.viol = {}  # trace index -> (step, clause)
        self.states = 0
        self.transitions = 0
        self.notes = []


def validate(module, traces, jobs=8, cfg=TRACE_CFG, timeout=800, heap="3g",
             min_chunk=8, weight=None):
    """Validate traces against a trace specification; every trace gets a verdict."""
    v = TraceVerdict()
    if not traces:
        return v
    n = len(traces)
    k = max(1, min(jobs, n // min_chunk or 1))
    weight = weight or (lambda t: len(t.get("steps", ())) + 1)
    # balance the chunks
    order = sorted(range(n), key=lambda i: -weight(traces[i]))
    chunks = [[] for _ in range(k)]
    load = [0] * k
    for i in order:
        j = load.index(min(load))
        chunks[j].append(i)
        load[j] += weight(traces[i])

    def one(chunk):
        data = [traces[i] for i in chunk]
        return chunk, run(
            module, cfg, files={"traces.json": data}, timeout=timeout, heap=heap
        )

    with ThreadPoolExecutor(k) as ex:
        for chunk, r in ex.map(one, chunks):
            v.states += r.distinct
            v.transitions += max(0, r.generated - len(chunk))
            for ln in r.lines:
                p = ln.split("|")
                if p[0] == "DONE":
                    v.done.add(chunk[int(p[1]) - 1])
                elif p[0] == "VIOL":
                    v.viol[chunk[int(p[1]) - 1]] = (int(p[2]), "|".join(p[3:]))
                elif p[0] == "NOTE":
                    v.notes.append((chunk[int(p[1]) - 1], "|".join(p[2:])))
            miss = [i for i in chunk if i not in v.done and i not in v.viol]
            if miss or not r.ok:
                msg = [x for x in r.out.splitlines() if x.strip()]
                keep = [x for x in msg if not x.startswith('"')
                        and not re.match(r"\d+\. Line", x)]
                raise TLCError(
                    f"{module}: {len(miss)} traces without verdict "
                    f"(first {miss[:3]}); TLC said:\n" + "\n".join(
                        keep[next((i for i, x in enumerate(keep)
                                   if x.startswith("Error")), 0):][:60])[:5000]
                )
    return v
