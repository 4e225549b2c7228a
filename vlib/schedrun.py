"""Run a scheduling request against the real code and record it for SchedulerTrace."""
from checks import c02
from . import flow, gen, num, requests, schedlib as sl


def original_edges(d, sfg):
    ops = []
    g = flow.of_sfg(sfg, num.P, ops)
    gids = [str(o.graph_id) for o in ops]
    return c02.edge_delays(g, ops, lambda i: gids[i]), g, gids


def state(sch, c):
    r = sl.snap(sch, c, slacks=False)
    D = c02.rebuilt(sch, c)[1]
    if D is None:
        raise AssertionError("the rebuilt graph has other connections")
    for i, e in enumerate(c["E"]):
        if c["K"][e["u"] - 1] in ("c", "dontcare"):
            over = r["S"][e["u"] - 1] + r["lout"][e["u"] - 1][0] > r["T"]
            D[i] = r["L"][i] + int(over)
    r["D"] = D
    return r


def run(d, cfg, prop, must, strict):
    """One request; returns (trace, schedule, constants)."""
    sfg = gen.build(d)
    d0, g, gids = original_edges(d, sfg)
    try:
        sch = requests.make(sfg, cfg)
    except ValueError:
        sch = None
    if sch is None or sch.schedule_time < 1:
        probe = sl.schedule_of(gen.build(d), "ASAP")
        c = sl.const(probe, cfg["cyclic"])
        r = sl.snap(probe, c, slacks=False)
        r["D"] = [d0[c["ids"][e["v"] - 1], e["q"]][0] for e in c["E"]]
    else:
        c = sl.const(sch, cfg["cyclic"])
        r = state(sch, c)
    r["exc"] = sch is None
    for e in c["E"]:
        e["d"] = d0[c["ids"][e["v"] - 1], e["q"]][0]
    idn = {x: i + 1 for i, x in enumerate(c["ids"])}

    def times(k):
        return [{"v": idn[x], "t": t} for x, t in sorted((cfg.get(k) or {}).items())]

    lim = []
    if cfg["name"] in requests.LISTS + ["RecList"]:
        kinds = set(c["K"]) - {"dontcare", "sink"}
        for k in sorted(kinds):
            if k == "in" and cfg.get("input_times"):
                continue
            if k == "out" and (cfg.get("output_delta_times") or cfg.get("output_times")):
                continue
            lim.append({"k": k, "n": (cfg.get("max_resources") or {}).get(k, 1)})
    q = {"name": cfg["name"], "T": cfg.get("T") or 0, "cyc": cfg["cyclic"],
         "tin": times("input_times"), "tout": times("output_times"),
         "dout": times("output_delta_times"), "lim": lim,
         "reads": cfg.get("max_concurrent_reads") or 0,
         "writes": cfg.get("max_concurrent_writes") or 0,
         "must": must, "strict": strict}
    t = {"K": c["K"], "E": c["E"], "q": q, "prop": prop, "steps": [r], "_desc": d,
         "_cfg": cfg}
    return t, sch, c
