"""C02: the function of a schedule; specs Dataflow, SchedFunTrace."""
import logging
import random

from checks import c01
from vlib import flow, gen, num, requests, schedlib as sl

M = num.P
KINDS = gen.FIELD + ["mul", "add", "cmul"]


def edge_delays(g, ops, name):
    """Delays on the path into input q of operation v, by (v, q)."""
    res = {}
    for i, nd in enumerate(g["nodes"]):
        if nd["k"] == "t":
            continue
        for q, (s, p) in enumerate(nd["src"]):
            n, k = 0, 0
            while s and g["nodes"][s - 1]["k"] == "t" and k <= len(g["nodes"]):
                n, k = n + 1, k + 1
                s, p = g["nodes"][s - 1]["src"][0]
            res[name(i), q + 1] = (n, name(s - 1) if s else None, p)
    return res


def bag(g):
    r = {}
    for n in g["nodes"]:
        if n["k"] != "t":
            key = "/".join(str(n[x]) for x in ("k", "v", "w", "j", "so", "sh"))
            r[key] = r.get(key, 0) + 1
    return [f"{k} x{v}" for k, v in sorted(r.items())]


def rebuilt(sch, c):
    ops = []
    sfg = sch.sfg
    h = flow.of_sfg(sfg, M, ops)
    ids = [str(o.graph_id) for o in ops]
    try:
        ds = edge_delays(h, ops, lambda i: ids[i])
        D = []
        for e in c["E"]:
            n, src, p = ds[c["ids"][e["v"] - 1], e["q"]]
            if src != c["ids"][e["u"] - 1] or p != e["p"]:
                return h, None
            D.append(n)
    except KeyError:
        return h, None
    return h, D


def propagate(c, D0, D, first="in"):
    """A lap number for every operation that explains D, by propagation (a guess)."""
    adj = {}
    for i, e in enumerate(c["E"]):
        if c["K"][e["u"] - 1] in ("c", "dontcare"):
            continue
        adj.setdefault(e["u"], []).append((e["v"], D[i] - D0[i]))
        adj.setdefault(e["v"], []).append((e["u"], D0[i] - D[i]))
    r = {}
    n = len(c["K"])
    # start from inputs, so that those of one component agree as far as possible
    for root in sorted(range(1, n + 1), key=lambda v: c["K"][v - 1] != first):
        if root in r:
            continue
        r[root] = 0
        st = [root]
        while st:
            u = st.pop()
            for v, d in adj.get(u, []):
                if v not in r:
                    r[v] = r[u] + d
                    st.append(v)
    return [r[v] for v in range(1, n + 1)]


def with_constants(rng, d):
    """Turn some constant multiplications into products with a constant."""
    for n in d["nodes"]:
        if n["k"] == "cmul" and rng.random() < 0.5:
            d["nodes"].append({"k": "c", "v": n["v"], "src": []})
            n["k"], n["v"] = "mul", 0
            s = (len(d["nodes"]) - 1, 0)
            n["src"] = [n["src"][0], s] if rng.random() < 0.5 else [s, n["src"][0]]


def util(rng, d):
    """Read a value without using it, and use a value that does not matter."""
    srcs = [i for i, n in enumerate(d["nodes"]) if n["k"] not in ("out", "t", "c", "in")]
    d["nodes"].append({"k": "sink", "v": 0, "src": [(rng.choice(srcs), 0)]})
    for n in d["nodes"]:
        if n["k"] == "mul" and rng.random() < 0.5:
            d["nodes"].append({"k": "dontcare", "v": 0, "src": []})
            d["nodes"].append({"k": "sink", "v": 0, "src": [n["src"][1]]})
            n["src"] = [n["src"][0], (len(d["nodes"]) - 2, 0)]
            return


def case(arg):
    rng = random.Random(arg["seed"])
    ff = arg["mode"] == "list"
    d = gen.random_graph(
        rng, n_ops=rng.randint(1, 6), n_in=rng.randint(1, 3), n_out=rng.randint(1, 2),
        n_del=rng.randint(0, 3), kinds=KINDS, coef=(1, -1, 2, 0.5, -1.5, 1j),
        mods=True, acyclic=ff)
    if sl.io_adjacent(d):
        return None
    consts = rng.random() < 0.25
    if consts:
        with_constants(rng, d)
    if arg["mode"] == "asap" and rng.random() < 0.25:
        util(rng, d)
    gen.default_latencies(rng, d, in_off=rng.random() < 0.2, out_spread=rng.random() < 0.3,
                          lats=(1, 2, 3), execs=(1, 2))
    sfg = gen.build(d)
    gops = []
    g = flow.of_sfg(sfg, M, gops)
    gids = [str(o.graph_id) for o in gops]
    d0 = edge_delays(g, gops, lambda i: gids[i])
    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    names = {"list": requests.LISTS, "rec": ["RecList"], "asap": ["ASAP", "ALAP"],
             "ilp": ["ILP"]}[arg["mode"]]
    if arg["mode"] == "rec" and not requests.recursive(d):
        return None
    cfg = requests.random_cfg(rng, d, sfg, crit, names)
    try:
        sch = requests.make(sfg, cfg)
    except ValueError:
        return None
    c = sl.const(sch, cfg["cyclic"])
    T = sch.schedule_time
    if T < 1:
        return None
    for e in c["E"]:
        n, src, p = d0[c["ids"][e["v"] - 1], e["q"]]
        e["d"] = n
        assert src == c["ids"][e["u"] - 1] and p == e["p"], "driver: edges changed"
    idn = {x: i + 1 for i, x in enumerate(c["ids"])}
    t = {"K": c["K"], "E": c["E"], "g": g, "bag": bag(g),
         "ins": [idn[gids[i - 1]] for i in g["ins"]],
         "outs": [idn[gids[i - 1]] for i in g["outs"]],
         "steps": [], "_desc": d, "_cfg": cfg, "_seed": arg["seed"]}
    swapped = False

    def step(ev, chk=True):
        nonlocal swapped
        s = {"ev": ev, "T": int(sch.schedule_time),
             "S": [int(sch.start_times[x]) for x in c["ids"]], "chk": chk}
        if chk:
            h, D = rebuilt(sch, c)
            s["h"], s["D"] = h, [] if swapped or D is None else D
            s["h2"] = rebuilt(sch, c)[0] if rng.random() < 0.2 else h
            s["bag"] = bag(h)
            xs = flow.random_x(rng, len(g["ins"]), 6, M)
            s["X"] = [[num.field(v) for v in r] for r in xs]
        t["steps"].append(s)
        return s

    s = step({"op": "init", "r": [], "anchor": ""})
    s["ev"]["r"] = (propagate(c, [e["d"] for e in c["E"]], s["D"],
                              "out" if cfg["name"] == "ALAP" else "in") if s["D"]
                    else [0] * len(c["ids"]))
    s["ev"]["anchor"] = ("" if cfg.get("output_delta_times") or cfg.get("output_times")
                         or cfg.get("input_times") else
                         {"ASAP": "io", "ALAP": "o"}.get(cfg["name"], ""))
    uniform = False
    cur = sl.snap(sch, c)
    for k in range(arg["len"]):
        ev = c01.random_event(rng, cur, c, uniform)
        if rng.random() < 0.1:
            ev = {"op": "swap", "v": rng.randrange(1, len(c["ids"]) + 1), "k": 0, "x": "",
                  "by": False}
            if c["K"][ev["v"] - 1] not in ("add", "mul"):
                continue
            op = sch._sfg.find_by_id(c["ids"][ev["v"] - 1])
            if op.type_name() == "add" and op.mul_j:
                continue
        if ev["op"] in ("exec", "query", "lat") or c01.crosses(ev, cur, c):
            continue
        if not c01.in_regime(cur, c):
            break
        if ev["op"] == "swap":
            sch.swap_io_of_operation(c["ids"][ev["v"] - 1])
            swapped = True
            exc = False
        else:
            exc = c01.do_edit(sch, c, ev, cur, None)
        if exc:
            continue
        if ev["op"] == "alap":
            f = cur["FS"][ev["v"] - 1]
            ev["k"] = f if f != sl.INF else cur["T"] - cur["S"][ev["v"] - 1]
        elif ev["op"] == "asap":
            b = cur["BS"][ev["v"] - 1]
            ev["k"] = -b if b != sl.INF else -cur["S"][ev["v"] - 1]
        ev["S0"] = cur["S"]
        ev["exc"] = False
        cur = {"T": int(sch.schedule_time), "S": [int(sch.start_times[x]) for x in c["ids"]],
               "FS": [sl.fin(sch.forward_slack(x)) for x in c["ids"]],
               "BS": [sl.fin(sch.backward_slack(x)) for x in c["ids"]],
               "lin": cur["lin"], "lout": cur["lout"]} if ev["op"] not in ("inc", "dec", "swap") \
            else sl_snap(sch, c, cur)
        step(ev, chk=rng.random() < 0.5 or k == arg["len"] - 1)
    return t


def sl_snap(sch, c, cur):
    ids, ops, _ = sl.struct(sch)
    return {"T": int(sch.schedule_time), "S": [int(sch.start_times[x]) for x in ids],
            "FS": [sl.fin(sch.forward_slack(x)) for x in ids],
            "BS": [sl.fin(sch.backward_slack(x)) for x in ids],
            "lin": [[sl.num(p.latency_offset) for p in ops[g].inputs] for g in ids],
            "lout": [[sl.num(p.latency_offset) for p in ops[g].outputs] for g in ids]}


def check(ctx):
    logging.disable(logging.WARNING)
    n = ctx.scale(1000, 10000)
    modes = ["asap", "asap", "asap", "list", "list", "rec", "ilp"]
    args = [{"seed": f"{ctx.seed}/{i}", "mode": modes[i % len(modes)],
             "len": ctx.scale(6, 14) if i % 3 else 0} for i in range(n)]
    recs = ctx.drive(case, args)
    for t in recs:
        ctx.count("scheduler_" + t["_cfg"]["name"])
        for s in t["steps"]:
            ctx.count("ev_" + s["ev"]["op"])
            ctx.count("graphs_compared", int(s["chk"]))
    ctx.validate("SchedFunTrace", recs, name="schedules", weight=lambda t: sum(
        len(t["g"]["nodes"]) for s in t["steps"] if s["chk"]) + 1)
