"""C06: splitting on execution time; specs Share, MemModel, ShareTrace."""
import json
import random

from vlib import procs as pr

COLORING = ["largest_first", "smallest_last", "independent_set", "connected_sequential_bfs",
            "connected_sequential_dfs", "connected_sequential", "saturation_largest_first",
            "DSATUR"]


def trace(rng, P, T, cyc, kind, ilp):
    ps = pr.processes(P, kind)
    pc = pr.collection(ps, T, cyc)
    idx = {id(p): i + 1 for i, p in enumerate(ps)}
    t = {"kind": "time", "T": T, "cyc": cyc, "P": P,
         "conf": pr.edges(pc.exclusion_graph_from_execution_time(), idx),
         "use": pr.table(pc.total_execution_times(), T),
         "bound": int(pc.processing_element_bound()), "steps": []}
    cfgs = [("left_edge", None, 0), ("greedy_graph_color", None, 0)]
    cfgs.append(("greedy_graph_color", {"coloring_strategy": rng.choice(COLORING)}, 0))
    if ilp:
        cfgs.append(("ilp_graph_color", {"solver": pr.solver()}, 0))
        lim = rng.randint(1, 4)
        cfgs.append(("ilp_graph_color", {"solver": pr.solver(), "max_colors": lim}, lim))
    rng.shuffle(cfgs)
    for name, par, lim in cfgs:
        s = {"op": "split", "name": name, "limit": lim, "exc": False, "parts": [], "T": [],
             "cyc": [], "opt": name == "ilp_graph_color"}
        try:
            s.update(pr.parts_of(pc.split_on_execution_time(name, par), idx))
        except (ValueError, KeyError):
            s["exc"] = True
        t["steps"].append(s)
    if [id(p) for p in pc.collection] != [id(p) for p in ps]:
        raise AssertionError("splitting changed the collection")
    return t


def case(arg):
    rng = random.Random(arg["seed"])
    T = rng.randint(1, 9)
    P = pr.random_procs(rng, T, rng.randint(1, 7), multi=rng.random() < 0.4,
                        long=rng.random() < 0.1)
    kind = rng.choice(["process", "plain", "var"])
    return trace(rng, P, T, rng.random() < 0.5, kind, arg["ilp"])


def replay(arg):
    """Collections of the design model."""
    out = []
    for i, c in enumerate(arg["cs"]):
        rng = random.Random(f"{arg['seed']}/{i}")
        P = [{"s": p["s"], "ex": p["ex"], "rd": sorted(p["rd"])} for p in c["P"]]
        out.append(trace(rng, P, c["T"], i % 2 == 0, "process", i % arg["ilp"] == 0))
    return out


MODEL = """SPECIFICATION Spec
INVARIANT Survives
INVARIANT Needed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def collections(ctx, multi=False):
    """Every small collection, from the design model (which is checked on the way)."""
    r = ctx.model("MemModel", MODEL, files={"model.json": {
        "T": ctx.scale([1, 2, 3], [1, 2, 3, 4]), "n": ctx.scale([1, 2, 3], [1, 2, 3]),
        "multi": False}} if not multi else {"model.json": {
            "T": ctx.scale([1, 2, 3], [1, 2, 3, 4]), "n": [1, 2], "multi": True}})
    cs = sorted((json.loads(x[3:]) for x in r.lines if x.startswith("TR|")), key=str)
    ctx.count("model_collections", len(cs))
    return cs


def check(ctx):
    ctx.assumptions += ["start times lie within the period",
                        "optimality is judged for collections of up to 5 processes"]
    cs = collections(ctx)
    recs = ctx.drive(replay, [{"cs": cs[i:i + 40], "seed": f"{ctx.seed}/m{i}",
                               "ilp": ctx.scale(10, 1)} for i in range(0, len(cs), 40)])
    ctx.validate("ShareTrace", recs, name="model_collections")
    n = ctx.scale(1200, 20000)
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}", "ilp": i % 4 == 0}
                            for i in range(n)])
    for t in recs:
        for s in t["steps"]:
            ctx.count("split_" + s["name"])
    ctx.validate("ShareTrace", recs, name="collections", weight=lambda t: len(t["P"]))
