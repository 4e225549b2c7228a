"""C07: splitting on memory ports; specs Share, MemModel, ShareTrace."""
import logging
import random

from checks import c06
from vlib import gen, procs as pr, schedlib as sl

GRAPH = ("greedy_graph_color", "equitable_graph_color", "ilp_graph_color",
         "ilp_min_input_mux", "ilp_min_output_mux", "ilp_min_mux")


def facts(pc, T):
    return {
        "wa": pr.table(pc.write_port_accesses(), T), "ra": pr.table(pc.read_port_accesses(), T),
        "ta": pr.table(pc.total_port_accesses(), T), "wb": int(pc.write_ports_bound()),
        "rb": int(pc.read_ports_bound()), "tb": int(pc.total_ports_bound()),
    }


def config(rng, graph):
    """Port options as given by a user, and what they mean."""
    if graph and rng.random() < 0.9:
        r = w = 1
    else:
        r, w = rng.randint(1, 3), rng.randint(1, 3)
    lo, hi = max(r, w), r + w
    n = rng.randint(lo, hi)
    opts = {"read_ports": r, "write_ports": w, "total_ports": n}
    z = rng.random()
    if n == hi and z < 0.4:
        del opts["total_ports"]
    elif n == r and z < 0.3:
        del opts["read_ports"]
    elif n == w and z < 0.6:
        del opts["write_ports"]
    return r, w, n, opts


def split(rng, pc, idx, strategies, pes=None, seq=True):
    name = rng.choice(strategies)
    graph = name in GRAPH
    r, w, n, opts = config(rng, graph)
    lim = rng.randint(1, 4) if name == "ilp_graph_color" and rng.random() < 0.3 else 0
    par = {}
    if name.startswith("ilp"):
        par["solver"] = pr.solver()
        if lim:
            par["max_colors"] = lim
    if pes is not None:
        par["processing_elements"] = pes
    s = {"op": "split", "name": name, "r": r, "w": w, "n": n, "limit": lim, "exc": False,
         "graph": graph, "parts": [], "T": [], "cyc": [], "conf": [],
         "opt": name == "ilp_graph_color" and not lim}
    try:
        if name == "left_edge" and seq and rng.random() < 0.4:
            order = list(pc.collection)
            rng.shuffle(order)
            parts = pc.split_ports_sequentially(r, w, n, order)
        else:
            parts = pc.split_on_ports(strategy=name, alg_params=par or None, **opts)
        s.update(pr.parts_of(parts, idx))
    except (ValueError, KeyError):
        s["exc"] = True
    return s


def excl(pc, idx, n):
    s = {"op": "excl", "name": "conflicts", "r": 1, "w": 1, "n": n, "limit": 0, "exc": False,
         "graph": True, "parts": [], "T": [], "cyc": [], "conf": [], "opt": False}
    try:
        s["conf"] = pr.edges(pc.exclusion_graph_from_ports(1, 1, n), idx)
    except ValueError:
        s["exc"] = True
    return s


def memory(rng, pc):
    """A memory with given numbers of ports takes the whole collection or refuses it."""
    from b_asic.architecture import Memory

    r, w, n, opts = config(rng, False)
    s = {"op": "memory", "name": "memory", "r": r, "w": w, "n": n, "limit": 0, "exc": False,
         "graph": False, "parts": [], "T": [], "cyc": [], "conf": [], "opt": False}
    try:
        m = Memory(pc, entity_name="mem", **opts)
        if (m.input_count, m.output_count) != (w, r):
            raise AssertionError("the memory does not have the ports asked for")
    except ValueError:
        s["exc"] = True
    return s


def wrapped(_):
    """Known finding: the total number of accesses is not taken modulo the period."""
    P = [{"s": t, "ex": 1, "rd": [1]} for t in range(3)]
    ps = pr.processes(P, "plain")
    pc = pr.collection(ps, 3, True)
    idx = {id(p): i + 1 for i, p in enumerate(ps)}
    s = split(random.Random(0), pc, idx, ["left_edge"], seq=False)
    s.update(r=1, w=1, n=1, exc=False)
    s.update(pr.parts_of(pc.split_on_ports("left_edge", read_ports=1, write_ports=1,
                                           total_ports=1), idx))
    return {"kind": "port", "T": 3, "cyc": True, "P": P, **facts(pc, 3), "steps": [s],
            "strict": True, "_key": "left_edge, one port, reads at the end of the period"}


def trace(rng, P, T, cyc, kind, ilp, n_steps):
    ps = pr.processes(P, kind)
    pc = pr.collection(ps, T, cyc)
    idx = {id(p): i + 1 for i, p in enumerate(ps)}
    t = {"kind": "port", "strict": False, "T": T, "cyc": cyc, "P": P, **facts(pc, T), "steps": []}
    t["steps"].append(excl(pc, idx, rng.choice([1, 2])))
    t["steps"].append(memory(rng, pc))
    strategies = ["left_edge", "left_edge", "greedy_graph_color", "equitable_graph_color"]
    for _ in range(n_steps):
        t["steps"].append(split(rng, pc, idx, strategies + ["ilp_graph_color"] * ilp))
    return t


def case(arg):
    rng = random.Random(arg["seed"])
    T = rng.randint(1, 9)
    P = pr.random_procs(rng, T, rng.randint(1, 7), multi=rng.random() < 0.6,
                        zero=rng.random() < 0.4, long=rng.random() < 0.3)
    return trace(rng, P, T, rng.random() < 0.5, rng.choice(["plain", "var"]), arg["ilp"], 5)


def replay(arg):
    out = []
    for i, c in enumerate(arg["cs"]):
        rng = random.Random(f"{arg['seed']}/{i}")
        P = [{"s": p["s"], "ex": p["ex"], "rd": sorted(p["rd"])} for p in c["P"]]
        out.append(trace(rng, P, c["T"], i % 2 == 0, "plain", 0, 3))
    return out


def scheduled(arg):
    """Memory variables of a schedule, with the strategies that look at the elements."""
    from b_asic.architecture import ProcessingElement

    rng = random.Random(arg["seed"])
    d = gen.random_graph(rng, n_ops=rng.randint(3, 8), n_in=rng.randint(1, 3),
                         n_out=rng.randint(1, 2), n_del=rng.choice([0, 1, 2]),
                         kinds=["add", "sub", "cmul", "r2bfly"], coef=(1, 2))
    gen.default_latencies(rng, d, lats=(1, 2, 3), execs=(1,), per_node=False)
    sfg = gen.build(d)
    crit = sl.schedule_of(sfg, "ASAP").schedule_time
    if crit < 1:
        return None
    sch = sl.schedule_of(gen.build(d), "ASAP", schedule_time=crit + rng.randint(0, 4),
                         cyclic=True)
    for _ in range(rng.randint(0, 6)):
        g = rng.choice(sorted(map(str, sch.start_times)))
        lo, hi = sch.backward_slack(g), sch.forward_slack(g)
        if lo < 10**6 and hi < 10**6:
            sch.move_operation(g, rng.randint(-min(lo, 3), min(hi, 3)))
    pes = []
    for name, col in sorted(sch.get_operations().split_on_type_name().items()):
        for k, part in enumerate(col.split_on_execution_time("left_edge")):
            pes.append(ProcessingElement(part, f"{name}{k}"))
    mem = sch.get_memory_variables()
    _, mem = mem.split_on_length(0)
    if not 0 < len(mem) <= 8:
        return None
    T = int(mem.schedule_time)
    ps = list(mem.collection)
    P = [{"s": int(p.start_time), "ex": int(p.execution_time),
          "rd": sorted({int(x) for x in p.reads.values()})} for p in ps]
    if any(p["s"] >= T for p in P):
        return None
    idx = {id(p): i + 1 for i, p in enumerate(ps)}
    t = {"kind": "port", "strict": False, "T": T, "cyc": pr.is_cyclic(mem), "P": P, **facts(mem, T),
         "steps": [], "_desc": d}
    names = ["left_edge_min_pe_to_mem", "left_edge_min_mem_to_pe"] * 2
    if arg["ilp"]:
        names = ["ilp_min_input_mux", "ilp_min_output_mux", "ilp_min_mux"]
    for _ in range(3):
        t["steps"].append(split(rng, mem, idx, names, pes))
    return t


def check(ctx):
    logging.disable(logging.WARNING)
    ctx.assumptions += [
        "start times lie within the period",
        "optimality is judged for collections of up to 5 variables; strategies that work on "
        "a conflict graph may reject configurations other than one read and one write port",
    ]
    cs = c06.collections(ctx, multi=True)
    recs = ctx.drive(replay, [{"cs": cs[i:i + 40], "seed": f"{ctx.seed}/m{i}"}
                              for i in range(0, len(cs), 40)])
    ctx.validate("ShareTrace", recs, name="model_collections")
    n = ctx.scale(1200, 20000)
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}", "ilp": i % 4 == 0}
                            for i in range(n)])
    recs += ctx.drive(scheduled, [{"seed": f"{ctx.seed}/s{i}", "ilp": i % 5 == 0}
                                  for i in range(ctx.scale(400, 4000))])
    recs += ctx.drive(wrapped, [{}])
    for t in recs:
        for s in t["steps"]:
            ctx.count(s["op"] + "_" + s["name"])
            ctx.count("rejected", int(s["exc"]))
    ctx.validate("ShareTrace", recs, name="collections", weight=lambda t: len(t["P"]))
