"""C08: memories with assigned cells; specs Share, MemModel, MemTrace, SplitTrace."""
import random

from checks import c06
from vlib import procs as pr


def assign(rng, pc, T, ilp):
    """Cells of the processes by Memory.assign (or splitting); None if refused."""
    from b_asic.architecture import Memory

    how = rng.choice(["left_edge", "greedy_graph_color"] + ["ilp_graph_color"] * ilp)
    kw = {"alg_params": {"solver": pr.solver()}} if how == "ilp_graph_color" else {}
    if len({type(p) for p in pc.collection}) > 1 or rng.random() < 0.3:
        parts = pc.split_on_execution_time(how, kw.get("alg_params"))
    else:
        mem = Memory(pc, "RAM", "mem")
        if how == "left_edge" and rng.random() < 0.5:
            mem = Memory(pc, "RAM", "mem", assign=True)
        else:
            mem.assign(how, **kw)
        parts = mem.assignment
    cell = {}
    for k, part in enumerate(parts):
        for p in part.collection:
            if id(p) in cell:
                raise AssertionError("a variable was given two cells")
            cell[id(p)] = k + 1
    return how, cell, len(parts)


def wants(P, procs):
    """Deliveries asked for: every read has its own destination."""
    out = []
    d = 0
    for i, p in enumerate(P):
        reads = [int(x) for x in procs[i].reads.values()]
        if sorted(reads) != p["rd"]:
            raise AssertionError("a variable does not have the reads given to it")
        for x in reads:
            d += 1
            out.append({"w": i + 1, "s": p["s"], "d": d, "L": x})
    return out


def dest_index(procs):
    """Number the destinations of the original variables."""
    idx = {}
    for p in procs:
        for port in p.reads:
            idx[(id(port) if not isinstance(port, int) else (p.name, port))] = len(idx) + 1
    return idx


def reads_of(p, dst, var):
    from b_asic.process import MemoryInputPort

    out = []
    for port, L in p.reads.items():
        if isinstance(port, MemoryInputPort):
            out.append({"d": 0, "nx": var[id(port.destination_variable)], "L": int(L)})
        else:
            key = id(port) if not isinstance(port, int) else (p.name, port)
            out.append({"d": dst[key], "nx": 0, "L": int(L)})
    return out


def variables(pc, roots, dst, cell):
    """Real (possibly chained) variables as records of MemTrace."""
    from b_asic.process import MemoryOutputPort

    ps = list(pc.collection)
    var = {id(p): i + 1 for i, p in enumerate(ps)}
    out = []
    for p in ps:
        wp = p.write_port
        src = var[id(wp.source_variable)] if isinstance(wp, MemoryOutputPort) else 0
        root = p.root_write_port if src else wp
        out.append({"s": int(p.start_time), "src": src,
                    "w": roots[id(root) if not isinstance(root, int) else root],
                    "rd": reads_of(p, dst, var), "cell": cell[id(p)],
                    "ex": int(p.execution_time)})
    return out


def roots_of(procs):
    return {(id(p.write_port) if not isinstance(p.write_port, int) else p.write_port): i + 1
            for i, p in enumerate(procs)}


def mem_trace(rng, P, T, kind, chain, ilp, seed=None):
    procs = pr.processes(P, kind)
    pc = pr.collection(procs, T, rng.random() < 0.5)
    dst, roots = dest_index(procs), roots_of(procs)
    want = wants(P, procs)
    mx = T
    name = kind
    if chain:
        mx = rng.randint(1, T)
        before = [(p.start_time, dict(p.reads)) for p in procs]
        pc = pc.split_into_chains(mx) if mx != T or rng.random() < 0.5 else \
            pc.split_into_chains()
        if before != [(p.start_time, dict(p.reads)) for p in procs]:
            raise AssertionError("splitting into chains changed the variables")
        name = "chains"
    try:
        how, cell, n = assign(rng, pc, T, ilp)
    except ValueError:
        if any(p["ex"] > T for p in P) and not chain:
            return None
        raise
    V = variables(pc, roots, dst, cell)
    H = 2 * T + max(p["ex"] for p in P) + max(p["s"] for p in P) + 1
    return {"T": T, "P": V, "want": want, "cells": n, "max": mx if chain else T,
            "H": H, "name": f"{name} {how}", "_seed": seed}


def case(arg):
    rng = random.Random(arg["seed"])
    T = rng.randint(1, 9)
    chain = arg["i"] % 2 == 0
    P = pr.random_procs(rng, T, rng.randint(1, 6), multi=rng.random() < 0.6,
                        zero=rng.random() < 0.4, long=chain)
    kind = "var" if chain or rng.random() < 0.5 else "plain"
    return mem_trace(rng, P, T, kind, chain, int(arg["i"] % 5 == 0), arg["seed"])


def replay(arg):
    out = []
    for i, c in enumerate(arg["cs"]):
        rng = random.Random(f"{arg['seed']}/{i}")
        P = [{"s": p["s"], "ex": p["ex"], "rd": sorted(p["rd"])} for p in c["P"]]
        out.append(mem_trace(rng, P, c["T"], "var", i % 2 == 0, 0))
    return out


def flat(pc, roots, dst):
    """Deliveries of a collection; plain processes count as one read at their end."""
    out = []
    for p in pc.collection:
        if hasattr(p, "reads"):
            w = p.write_port
            w = roots[id(w) if not isinstance(w, int) else w]
            for r in reads_of(p, dst, {}):
                out.append({"w": w, "s": int(p.start_time), "d": r["d"], "L": r["L"]})
        else:
            out.append({"w": roots[id(p)], "s": int(p.start_time), "d": 0,
                        "L": int(p.execution_time)})
    return out


def lengths(arg):
    """split_on_length of a collection, again and again on the longer part."""
    rng = random.Random(arg["seed"])
    T = rng.randint(1, 9)
    P = pr.random_procs(rng, T, rng.randint(1, 6), multi=rng.random() < 0.8, long=True)
    kind = rng.choice(["process", "plain", "var", "var"])
    cyc = rng.random() < 0.5
    procs = pr.processes(P, kind)
    if kind == "process":
        roots, dst = {id(p): i + 1 for i, p in enumerate(procs)}, {}
    else:
        roots, dst = roots_of(procs), dest_index(procs)
    pc = pr.collection(procs, T, cyc)
    out = []
    for _ in range(3):
        want = flat(pc, roots, dst)
        if not want:
            break
        k = rng.choice([None, 0, 1, 2, rng.randint(0, 2 * T)])
        short, long = pc.split_on_length() if k is None else pc.split_on_length(k)
        out.append({"T": T, "cyc": cyc, "want": want, "steps": [
            {"short": flat(short, roots, dst), "long": flat(long, roots, dst),
             "len": k or 0, "T": [int(short.schedule_time), int(long.schedule_time)],
             "cyc": [pr.is_cyclic(short), pr.is_cyclic(long)]}]})
        if want != flat(pc, roots, dst):
            raise AssertionError("splitting on length changed the collection")
        pc = rng.choice([short, long])
    return out


def check(ctx):
    ctx.assumptions += [
        "reads of a cycle precede its writes; a variable that is only read in the cycle in "
        "which it is produced is not stored; start times lie within the period",
    ]
    cs = c06.collections(ctx, multi=True)
    recs = ctx.drive(replay, [{"cs": cs[i:i + 40], "seed": f"{ctx.seed}/m{i}"}
                              for i in range(0, len(cs), 40)])
    n = ctx.scale(1200, 20000)
    recs += ctx.drive(case, [{"seed": f"{ctx.seed}/{i}", "i": i} for i in range(n)])
    for t in recs:
        ctx.count("memories_" + t["name"].split()[0])
        ctx.count("cells", t["cells"])
        ctx.count("variables", len(t["P"]))
    ctx.validate("MemTrace", recs, name="memories", weight=lambda t: t["H"] * len(t["P"]))
    recs = ctx.drive(lengths, [{"seed": f"{ctx.seed}/l{i}"} for i in range(ctx.scale(800, 8000))])
    ctx.validate("SplitTrace", recs, name="lengths")
