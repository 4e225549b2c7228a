"""Drivers for Schedule objects: random schedules, snapshots, edit histories."""
import random
import sys

from . import gen

INF = 1000000000


def fin(x):
    return INF if x == sys.maxsize else int(x)


def struct(sch):
    """Nodes and edges of the scheduled (delay-free) graph, by public accessors."""
    sch_ops = {}
    for p in sch.get_operations().collection:
        sch_ops[str(p.operation.graph_id)] = p.operation
    # DontCare/Sink are not listed as processes; reach them through signals
    for op in list(sch_ops.values()):
        for port in list(op.inputs) + list(op.outputs):
            for s in port.signals:
                for o in (s.source_operation, s.destination_operation):
                    if o is not None and str(o.graph_id) not in sch_ops:
                        sch_ops[str(o.graph_id)] = o
    ids = sorted(sch_ops)
    num = {g: i + 1 for i, g in enumerate(ids)}
    edges = []
    for g in ids:
        for q, p in enumerate(sch_ops[g].inputs):
            for s in p.signals:
                edges.append((str(s.graph_id), num[str(s.source_operation.graph_id)],
                              s.source.index + 1, num[g], q + 1))
    edges.sort()
    return ids, sch_ops, edges


def const(sch, cyc):
    ids, ops, edges = struct(sch)
    return {
        "K": [str(ops[g].type_name()) for g in ids],
        "E": [{"u": u, "p": p, "v": v, "q": q} for _, u, p, v, q in edges],
        "cyc": bool(cyc), "ids": ids, "eids": [e[0] for e in edges],
    }


def num(x):
    return -1 if x is None else int(x)


def snap(sch, c, slacks=True, dec=False):
    ids, ops, edges = struct(sch)
    if ids != c["ids"] or [e[0] for e in edges] != c["eids"]:
        raise AssertionError("the operations or signals of the schedule changed")
    st = sch.start_times
    laps = sch.laps
    r = {
        "T": int(sch.schedule_time),
        "S": [int(st[g]) for g in ids],
        "L": [int(laps[e]) if e in laps else 0 for e in c["eids"]],
        "lin": [[num(p.latency_offset) for p in ops[g].inputs] for g in ids],
        "lout": [[num(p.latency_offset) for p in ops[g].outputs] for g in ids],
        "ex": [num(ops[g].execution_time) for g in ids],
    }
    if slacks:
        sl = [sch.slacks(g) for g in ids]
        r["FS"] = [fin(sch.forward_slack(g)) for g in ids]
        r["BS"] = [fin(sch.backward_slack(g)) for g in ids]
        for i in range(len(ids)):
            if (r["BS"][i], r["FS"][i]) != (fin(sl[i][0]), fin(sl[i][1])):
                r["FS"][i] = -12345  # the two reports disagree: rejected by the spec
    if dec:
        r["dec"] = [int(x) for x in sch.get_possible_time_resolution_decrements()]
    return r


def laps_get(sch):
    return dict(sch.laps)


SCHEDS = ["ASAP", "ALAP"]


def schedule_of(sfg, name, **kw):
    import b_asic as B

    s = {"ASAP": B.ASAPScheduler, "ALAP": B.ALAPScheduler}[name]()
    return B.Schedule(sfg, scheduler=s, **kw)


def random_sched_desc(rng, in_off=False, kinds=None, big=False, lats=(1, 2, 3)):
    d = gen.random_graph(
        rng, n_ops=rng.randint(1, 9 if big else 5), n_in=rng.randint(1, 2),
        n_out=1, n_del=rng.randint(0, 3), kinds=kinds,
    )
    gen.default_latencies(rng, d, in_off=in_off, lats=lats, execs=(1, 2),
                          out_spread=rng.random() < 0.3)
    return d


def io_adjacent(desc):
    """Is an input connected to an output through delays only?"""
    n = desc["nodes"]
    for x in n:
        if x["k"] == "out":
            j = x["src"][0][0]
            k = 0
            while n[j]["k"] == "t" and k < len(n):
                j, k = n[j]["src"][0][0], k + 1
            if n[j]["k"] == "in":
                return True
    return False
