"""C05: ASAP and ALAP schedules are extreme; spec SchedulerTrace."""
import logging
import random

from vlib import gen, requests, schedlib as sl, schedrun

KINDS = ["add", "sub", "cmul", "neg", "r2bfly", "sym2p", "mul", "addsub", "bfly"]


def case(arg):
    rng = random.Random(arg["seed"])
    d = gen.random_graph(
        rng, n_ops=rng.randint(1, 10), n_in=rng.randint(1, 3), n_out=rng.randint(1, 3),
        n_del=rng.choice([0, 0, 1, 2, 3]),
        kinds=[k for k in rng.sample(KINDS, rng.randint(1, 5)) if k in gen.KINDS] or ["add"],
        coef=(1, 2), acyclic=rng.random() < 0.3)
    if sl.io_adjacent(d):
        return None
    gen.default_latencies(rng, d, in_off=rng.random() < 0.3, out_spread=rng.random() < 0.4,
                          lats=(1, 2, 3, 4), execs=(1, 2), per_node=rng.random() < 0.5)
    sfg = gen.build(d)
    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    name = rng.choice(["ASAP", "ALAP"])
    cfg = {"name": name, "cyclic": rng.random() < 0.6,
           "T": None if rng.random() < 0.4 else max(1, crit + rng.randint(-2, 6))}
    x = rng.random()
    if x < 0.25:
        cfg["input_times"] = {g: rng.randint(0, 4) for g in requests.ids_of(d, sfg, "in")
                              if rng.random() < 0.7} or None
    elif x < 0.4 and name == "ALAP" and cfg["T"]:
        cfg["output_times"] = {g: rng.randint(max(0, cfg["T"] - 2), cfg["T"])
                               for g in requests.ids_of(d, sfg, "out")
                               if rng.random() < 0.7} or None
    must = not cfg.get("output_times")
    t, sch, c = schedrun.run(d, cfg, "C05", must and not cfg.get("input_times"), must)
    t["_seed"] = arg["seed"]
    if t["steps"][0]["exc"]:
        return t
    s = t["steps"][0]
    idn = {x: i + 1 for i, x in enumerate(c["ids"])}
    s["fixo"] = [{"v": idn[g], "t": v} for g, v in (cfg.get("output_times") or {}).items()]
    s["r"] = retime(t, s)
    for _ in range(arg["moves"]):
        v = rng.choice(c["ids"])
        op = rng.choice(["alap", "asap"])
        (sch.move_operation_alap if op == "alap" else sch.move_operation_asap)(v)
        n = schedrun.state(sch, c)
        n["ev"] = {"op": op, "v": idn[v]}
        t["steps"].append(n)
    return t


def retime(t, s):
    """The retiming by which the schedule differs from the graph (a witness)."""
    n = len(t["K"])
    adj = {v: [] for v in range(1, n + 1)}
    for i, e in enumerate(t["E"]):
        if t["K"][e["u"] - 1] in ("c", "dontcare"):
            continue
        if t["K"][e["u"] - 1] == "in" and (
                s["S"][e["v"] - 1] + s["lin"][e["v"] - 1][e["q"] - 1] >= s["T"]):
            continue  # see Clear in the specification
        adj[e["u"]].append((e["v"], s["D"][i] - e["d"]))
        adj[e["v"]].append((e["u"], e["d"] - s["D"][i]))
    r = {}
    for root in sorted(adj, key=lambda v: t["K"][v - 1] != "out"):
        if root in r:
            continue
        r[root] = 0
        st = [root]
        while st:
            u = st.pop()
            for v, k in adj[u]:
                if v not in r:
                    r[v] = r[u] + k
                    st.append(v)
    return [r[v] for v in range(1, n + 1)]


def check(ctx):
    logging.disable(logging.WARNING)
    n = ctx.scale(1800, 18000)
    args = [{"seed": f"{ctx.seed}/{i}", "moves": ctx.scale(3, 8)} for i in range(n)]
    recs = ctx.drive(case, args)
    for t in recs:
        ctx.count("scheduler_" + t["q"]["name"])
        ctx.count("rejected", int(t["steps"][0]["exc"]))
        ctx.count("moves", len(t["steps"]) - 1)
    ctx.validate("SchedulerTrace", recs, name="requests", weight=lambda t: len(t["K"]))
