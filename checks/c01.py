"""C01: edits of a schedule; spec Sched, SchedModel, SchedTrace."""
import json
import random

from vlib import gen, schedlib as sl


def do_edit(sch, c, ev, cur, ops_kind):
    """Apply one edit to the real schedule; returns whether it raised."""
    import b_asic as B

    op, v, k = ev["op"], ev["v"], ev["k"]
    gid = c["ids"][v - 1] if v else "nosuch99"
    types = {"add": B.Addition, "sub": B.Subtraction, "cmul": B.ConstantMultiplication,
             "neg": B.Negation, "addsub": B.AddSub, "r2bfly": B.R2Butterfly,
             "sym2p": B.SymmetricTwoportAdaptor, "mul": B.Multiplication}
    try:
        if op == "move":
            sch.move_operation(gid, k)
        elif op == "alap":
            sch.move_operation_alap(gid)
        elif op == "asap":
            sch.move_operation_asap(gid)
        elif op == "rotf":
            sch.rotate_forward()
        elif op == "rotb":
            sch.rotate_backward()
        elif op == "time":
            sch.set_schedule_time(k)
        elif op == "inc":
            sch.increase_time_resolution(k)
        elif op == "dec":
            sch.decrease_time_resolution(k)
        elif op == "exec":
            if ev["by"]:
                sch.set_execution_time_of_type(types[ev["x"]], k)
            else:
                sch.set_execution_time_of_type_name(ev["x"], k)
        elif op == "lat":
            if ev["by"]:
                sch.set_latency_of_type(types[ev["x"]], k)
            else:
                sch.set_latency_of_type_name(ev["x"], k)
        elif op == "query":
            sch.get_memory_variables()
            sch.get_operations()
            sch.sfg
            sch.get_max_end_time()
            sch.get_io_latency()
            str(sch)
        return False
    except ValueError:
        return True


def random_event(rng, cur, c, lat_ok):
    n = len(c["ids"])
    x = rng.random()
    v = rng.randrange(1, n + 1)
    ev = {"op": "move", "v": v, "k": 0, "x": "", "by": False}
    T = cur["T"]
    if x < 0.46:
        b, f = cur["BS"][v - 1], cur["FS"][v - 1]
        lo, hi = -min(b, T + 2), min(f, T + 2)
        y = rng.random()
        if y < 0.1:
            ev["k"] = hi + 1 if f != sl.INF else hi
        elif y < 0.2:
            ev["k"] = lo - 1 if b != sl.INF else lo
        elif y < 0.35:
            ev["k"] = hi
        elif y < 0.5:
            ev["k"] = lo
        elif y < 0.6:  # land on the period boundary
            ev["k"] = rng.choice([T - cur["S"][v - 1], -cur["S"][v - 1]])
        elif y < 0.62:
            ev["v"] = 0
            ev["k"] = 1
        else:
            ev["k"] = rng.randint(lo, hi)
    elif x < 0.56:
        ev["op"] = rng.choice(["alap", "asap"])
    elif x < 0.68:
        ev["op"] = "rotf"
    elif x < 0.80:
        ev["op"] = "rotb"
    elif x < 0.89:
        ev["op"] = "time"
        ev["k"] = max(1, rng.choice([T - 1, T - 2, T + 1, T + 2, T + 3, T - 3, T]))
    elif x < 0.92:
        ev["op"], ev["k"] = rng.choice([("inc", 2), ("inc", 3), ("inc", 1)])
        if T > 25:
            ev["op"], ev["k"] = "dec", 2
    elif x < 0.95:
        ev["op"], ev["k"] = "dec", rng.choice([1, 2, 3, 4])
    elif x < 0.97:
        ev["op"], ev["k"] = "query", 0
    else:
        names = sorted({k for k in c["K"] if k not in ("in", "out", "c", "sink", "dontcare")})
        ev["x"] = rng.choice(names)
        ev["by"] = rng.random() < 0.5
        late = any(k == ev["x"] and cur["S"][i] == T for i, k in enumerate(c["K"]))
        if lat_ok and not late and rng.random() < 0.6:
            ev["op"] = "lat"
            m = max(cur["lout"][i][0] for i, k in enumerate(c["K"]) if k == ev["x"])
            ev["k"] = max(1, m + rng.choice([-2, -1, 1, 1, 2, 0]))
            if ev["k"] > T:
                ev["k"] = T
        else:
            ev["op"] = "exec"
            ev["k"] = rng.randint(1, 4)
    return ev


def crosses(ev, cur, c):
    """Would the edit leave the regime that start times modulo the period can express?

    Uses of inputs at or past the end of the period, and operations without latency
    that wrap around while an output that they feed stays at the end of the period.
    """
    if ev["op"] in ("move", "alap") and ev["v"] and 0 in cur["lout"][ev["v"] - 1]:
        v, T = ev["v"], cur["T"]
        k = ev["k"] if ev["op"] == "move" else cur["FS"][v - 1]
        if any(e["u"] == v and cur["S"][e["v"] - 1] == T
               and T + T * cur["L"][i] - cur["S"][v - 1] == k
               for i, e in enumerate(c["E"])):
            return True
    if not any(x > 0 for r in cur["lin"] for x in r):
        return False
    T = cur["T"]
    S = list(cur["S"])
    if any(x and S[i] + x >= T for i, r in enumerate(cur["lin"]) for x in r):
        return True
    v, k = ev["v"] - 1, ev["k"]
    if ev["op"] == "alap":
        f = cur["FS"][v]
        k = f if f != sl.INF else T - S[v]
    elif ev["op"] == "asap":
        b = cur["BS"][v]
        k = -b if b != sl.INF else -S[v]
    if ev["op"] in ("move", "alap", "asap"):
        if v >= 0 and -cur["BS"][v] <= k <= cur["FS"][v] and k:
            S[v] = (S[v] + k) % T
    elif ev["op"] in ("rotf", "rotb"):
        S = [(x + (1 if ev["op"] == "rotf" else -1)) % T for x in S]
    elif ev["op"] == "time" and ev["k"] < T:
        T = ev["k"]
    elif ev["op"] == "lat":
        return True
    return any(x and S[i] + x >= T for i, r in enumerate(cur["lin"]) for x in r)


def in_regime(cur, c):
    """Latencies of at most the period."""
    for i, k in enumerate(c["K"]):
        if k in ("in", "out", "c", "sink", "dontcare"):
            continue
        if cur["T"] < 1 or any(not 0 <= x <= cur["T"] for x in cur["lout"][i]):
            return False
    return True


def history(arg):
    rng = random.Random(arg["seed"])
    d = sl.random_sched_desc(rng, big=arg["big"], in_off=arg["off"],
                             lats=(0, 1, 2) if arg["zero"] else (1, 2, 3))
    if sl.io_adjacent(d):
        return None
    cyc = rng.random() < 0.8
    sfg = gen.build(d)
    kw = {}
    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    if rng.random() < 0.5:
        kw["schedule_time"] = crit + rng.randint(0, 4)
    sch = sl.schedule_of(sfg, rng.choice(sl.SCHEDS), cyclic=cyc, **kw)
    c = sl.const(sch, cyc)
    cur = sl.snap(sch, c, dec=True)
    steps = [{"ev": {"op": "init"}, **cur}]
    uniform = all(len(set(o)) <= 1 for o in cur["lout"])
    for _ in range(arg["len"]):
        ev = random_event(rng, cur, c, uniform)
        if not in_regime(cur, c):
            break
        if crosses(ev, cur, c):
            continue
        ev["exc"] = do_edit(sch, c, ev, cur, None)
        cur = sl.snap(sch, c, dec=rng.random() < 0.2)
        steps.append({"ev": ev, **cur})
    return {"K": c["K"], "E": c["E"], "cyc": cyc, "steps": steps,
            "_desc": d, "_seed": arg["seed"]}


# ------------------------------------------------------------- design model
SMALL = [
    # (description, schedule time, cyclic, Tmax, move radius, Dmax)
    ("ring1", [("in", []), ("add", [(0, 0), (3, 0)]), ("out", [(1, 0)]),
               ("t", [(4, 0)]), ("cmul", [(1, 0)])], {"add": 1, "cmul": 1}, 3, True, 4, 4, 2),
    ("ring2", [("in", []), ("sub", [(0, 0), (4, 0)]), ("out", [(3, 0)]),
               ("neg", [(1, 0)]), ("t", [(5, 0)]), ("t", [(3, 0)])],
     {"sub": 1, "neg": 2}, 3, True, 4, 3, 2),
    ("self", [("in", []), ("add", [(0, 0), (2, 0)]), ("t", [(1, 0)]), ("out", [(1, 0)])],
     {"add": 2}, 3, True, 5, 5, 2),
    ("two", [("in", []), ("in", []), ("r2bfly", [(0, 0), (1, 0)]), ("out", [(2, 0)]),
             ("neg", [(2, 1)]), ("out", [(4, 0)])], {"r2bfly": 1, "neg": 1}, 3, True, 3, 3, 1),
    ("unit", [("in", []), ("neg", [(0, 0)]), ("add", [(1, 0), (3, 0)]), ("t", [(2, 0)]),
              ("out", [(1, 0)]), ("out", [(2, 0)])], {"neg": 1, "add": 1}, 2, True, 3, 3, 2),
    ("one", [("in", []), ("neg", [(0, 0)]), ("out", [(1, 0)])], {"neg": 1}, 1, True, 3, 3, 3),
    ("acyc", [("in", []), ("neg", [(0, 0)]), ("add", [(0, 0), (1, 0)]), ("out", [(2, 0)])],
     {"neg": 2, "add": 1}, 4, False, 5, 5, 1),
]


def small_desc(spec):
    nodes = []
    for k, src in spec[1]:
        n = {"k": k, "v": 2 if k == "cmul" else 0, "src": [tuple(x) for x in src]}
        if k in spec[2]:
            i, o = gen.KINDS[k]
            n["lat"] = {**{f"in{j}": 0 for j in range(i)},
                        **{f"out{j}": spec[2][k] for j in range(o)}}
            n["exec"] = 1
        nodes.append(n)
    return {"nodes": nodes}


def find_loops(c):
    """Simple loops of the scheduled graph as lists of edge numbers."""
    adj = {}
    for i, e in enumerate(c["E"], 1):
        adj.setdefault(e["u"], []).append((i, e["v"]))
    loops = []

    def walk(start, v, path, seen):
        for i, w in adj.get(v, []):
            if w == start:
                loops.append(path + [i])
            elif w > start and w not in seen:
                walk(start, w, path + [i], seen | {w})

    for v in sorted(adj):
        walk(v, v, [], {v})
    return loops


def model_cases(emit):
    cases = []
    for spec in SMALL:
        d = small_desc(spec)
        sch = sl.schedule_of(gen.build(d), "ASAP", cyclic=spec[4], schedule_time=spec[3])
        c = sl.const(sch, spec[4])
        cases.append({
            "K": c["K"], "E": c["E"], "cyc": spec[4], "Tmax": spec[5], "R": spec[6],
            "Dmax": spec[7], "init": sl.snap(sch, c, slacks=False), "emit": emit,
            "loops": find_loops(c),
        })
    return cases


_TR = None


def replay_transition(arg):
    """Put a real schedule in a state of the model, apply the edit, record it."""
    import b_asic as B

    spec = SMALL[arg["c"] - 1]
    sfg = gen.build(small_desc(spec))
    probe = sl.schedule_of(gen.build(small_desc(spec)), "ASAP", cyclic=spec[4],
                           schedule_time=spec[3])
    c = sl.const(probe, spec[4])
    out = []
    for tr in arg["trs"]:
        sch = B.Schedule(
            sfg, schedule_time=tr["T"], cyclic=spec[4],
            start_times=dict(zip(c["ids"], tr["S"])), laps=dict(zip(c["eids"], tr["L"])),
        )
        ev = {"op": tr["ev"]["op"], "v": tr["ev"]["v"], "k": tr["ev"]["k"], "x": "",
              "by": False}
        first = sl.snap(sch, c)
        ev["exc"] = do_edit(sch, c, ev, first, None)
        out.append({
            "K": c["K"], "E": c["E"], "cyc": spec[4],
            "steps": [{"ev": {"op": "init"}, **first},
                      {"ev": ev, **sl.snap(sch, c)}],
            "_model_transition": tr,
        })
    return out


MODEL_CFG = """SPECIFICATION Spec
VIEW View
INVARIANT ValidState
INVARIANT LoopDelays
INVARIANT LoopTime
CONSTRAINT Bound
ACTION_CONSTRAINT Refines
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    ctx.assumptions += [
        "operation latencies between 1 and the schedule time; inputs used at start "
        "(other regimes are covered by the listed known findings)",
    ]
    # 1. the design, exhaustively for small graphs, and every transition replayed
    cases = model_cases(ctx.scale(29, 3))
    r = ctx.model("SchedModel", MODEL_CFG, files={"model.json": cases}, workers=8)
    trs = [json.loads(x[3:]) for x in r.lines if x.startswith("TR|")]
    ctx.count("model_transitions", len(trs))
    rng = ctx.rng("sample")
    cap = ctx.scale(2400, 60000)
    if len(trs) > cap:
        trs = rng.sample(trs, cap)
    by = {}
    for t in trs:
        by.setdefault(t["c"], []).append(t)
    args = [{"c": c, "trs": ts[i:i + 60]} for c, ts in sorted(by.items())
            for i in range(0, len(ts), 60)]
    recs = ctx.drive(replay_transition, args, limit=120)
    ctx.count("model_transitions_replayed", len(recs))
    ctx.validate("SchedTrace", recs, name="model_transitions")
    # 2. recorded histories on random graphs
    n = ctx.scale(900, 9000)
    args = [{"seed": f"{ctx.seed}/h/{i}", "len": ctx.scale(14, 24),
             "big": i % 3 == 0, "off": i % 5 == 2, "zero": i % 5 == 4} for i in range(n)]
    hs = ctx.drive(history, args)
    for h in hs:
        for s in h["steps"][1:]:
            ctx.count("ev_" + s["ev"]["op"] + ("_rejected" if s["ev"]["exc"] else ""))
    ctx.validate("SchedTrace", hs, name="histories")
