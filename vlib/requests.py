"""Random scheduling requests: a scheduler with its constraints, as plain data."""
from . import gen


def build_scheduler(cfg):
    import b_asic as B

    kw = {}
    for k in ("input_times", "output_delta_times", "output_times", "max_resources",
              "max_concurrent_reads", "max_concurrent_writes", "max_time"):
        if cfg.get(k) is not None:
            kw[k] = dict(cfg[k]) if isinstance(cfg[k], dict) else cfg[k]
    n = cfg["name"]
    if n == "ASAP":
        return B.ASAPScheduler(**kw)
    if n == "ALAP":
        return B.ALAPScheduler(**kw)
    if n == "ILP":
        import pulp

        return B.scheduler.ILPScheduler(solver=pulp.PULP_CBC_CMD(msg=False), **kw)
    if n in ("List", "RecList"):
        so = tuple((int(a), bool(b)) for a, b in cfg["sort"])
        cls = B.ListScheduler if n == "List" else B.RecursiveListScheduler
        return cls(sort_order=so, **kw)
    cls = {"EDF": B.EarliestDeadlineScheduler, "LST": B.LeastSlackTimeScheduler,
           "MFO": B.MaxFanOutScheduler, "HYB": B.HybridScheduler}[n]
    return cls(**kw)


def make(sfg, cfg):
    import b_asic as B

    kw = {"cyclic": cfg["cyclic"]}
    if cfg.get("T") is not None:
        kw["schedule_time"] = cfg["T"]
    return B.Schedule(sfg, scheduler=build_scheduler(cfg), **kw)


LISTS = ["List", "EDF", "LST", "MFO", "HYB"]


def recursive(d):
    """Does the graph of a description have a loop?"""
    n = d["nodes"]
    color = [0] * len(n)

    def visit(i):
        color[i] = 1
        for s, _ in n[i]["src"]:
            if color[s] == 1 or (color[s] == 0 and visit(s)):
                return True
        color[i] = 2
        return False

    return any(color[i] == 0 and visit(i) for i in range(len(n)))


def ids_of(d, sfg, k):
    ops = sfg.input_operations if k == "in" else sfg.output_operations
    return [str(o.graph_id) for o in ops]


def memory_cfg(rng, crit):
    """A request limited by the memories rather than by the operators."""
    cfg = {"name": rng.choice(LISTS), "cyclic": True,
           "T": max(1, crit + rng.randint(-3, 2)),
           "max_resources": {k: rng.choice([2, 2, 3]) for k in ("add", "cmul")}}
    z = rng.random()
    if z < 0.8:
        cfg["max_concurrent_writes"] = rng.randint(1, 2)
    if z > 0.4:
        cfg["max_concurrent_reads"] = rng.randint(2, 6) if z > 0.6 else 8
    if cfg["name"] == "List":
        cols = rng.sample([1, 2, 3, 4], rng.randint(1, 3))
        cfg["sort"] = [[c, rng.random() < 0.7] for c in cols]
    return cfg


def random_cfg(rng, d, sfg, crit, names=None, limits=True, io=True):
    """A random request for a graph whose shortest ASAP schedule takes ``crit``."""
    rec = recursive(d)
    if names is None:
        names = ["ASAP", "ALAP"] + (["RecList"] * 2 if rec else LISTS) + ["ILP"]
    cfg = {"name": rng.choice(names), "cyclic": rng.random() < 0.6}
    n = cfg["name"]
    kinds = sorted({x["k"] for x in d["nodes"]} - {"t", "dontcare", "sink"})
    x = rng.random()
    if n in ("ASAP", "ALAP"):
        cfg["T"] = None if x < 0.4 else max(1, crit + rng.randint(-1, 4))
    elif n == "ILP":
        cfg["T"] = max(1, crit + rng.randint(0, 2))
        if cfg["cyclic"] and rng.random() < 0.4 and crit > 1:
            cfg["T"] = rng.randint(max(1, crit // 2), crit)
            cfg["max_time"] = crit + rng.randint(0, 2)
    else:
        cfg["T"] = None if x < 0.4 else max(1, crit + rng.randint(-1, 8))
        if cfg["cyclic"] and x > 0.8:
            cfg["T"] = rng.randint(1, max(1, crit))
    if n in ("List", "RecList"):
        cols = rng.sample([1, 2, 3, 4], rng.randint(1, 3))
        cfg["sort"] = [[c, rng.random() < 0.7] for c in cols]
    if n in LISTS + ["RecList"]:
        cfg["max_resources"] = {
            k: rng.choice([1, 1, 2, 2, 3]) for k in kinds
            if rng.random() < (0.8 if limits else 1.0)
        }
        if not limits:
            cfg["max_resources"] = {k: 99 for k in kinds}
        if limits and n != "RecList":
            if rng.random() < 0.25:
                cfg["max_concurrent_reads"] = rng.randint(2, 4)
            if rng.random() < 0.25:
                cfg["max_concurrent_writes"] = rng.randint(1, 3)
    if io and rng.random() < 0.3:
        cfg["input_times"] = {g: rng.randint(0, 3) for g in ids_of(d, sfg, "in")
                              if rng.random() < 0.8}
    if io and rng.random() < 0.3:
        cfg["output_delta_times"] = {g: rng.randint(0, 3) for g in ids_of(d, sfg, "out")
                                     if rng.random() < 0.8}
    elif io and n in ("ASAP", "ALAP", "ILP", "List", "RecList") and \
            (n != "ILP" or cfg["T"]) and rng.random() < 0.3:
        t = cfg["T"] or crit
        cfg["output_times"] = {g: rng.randint(max(0, t - 2), t)
                               for g in ids_of(d, sfg, "out") if rng.random() < 0.8}
    for k in ("input_times", "output_delta_times", "output_times", "max_resources"):
        if cfg.get(k) == {}:
            del cfg[k]
    return cfg
