"""C04: what schedulers promise; spec SchedulerTrace."""
import logging
import random

from vlib import gen, requests, schedlib as sl, schedrun

KINDS = ["add", "sub", "cmul", "neg", "r2bfly", "sym2p", "mul", "addsub"]


def case(arg):
    rng = random.Random(arg["seed"])
    mode = arg["mode"]
    d = gen.random_graph(
        rng, n_ops=rng.randint(1, 9), n_in=rng.randint(1, 3), n_out=rng.randint(1, 3),
        n_del=rng.randint(0, 3), kinds=rng.sample(KINDS, rng.randint(1, 4)),
        coef=(1, 2), acyclic=mode == "list")
    if sl.io_adjacent(d):
        return None
    gen.default_latencies(rng, d, in_off=rng.random() < 0.2, out_spread=rng.random() < 0.3,
                          lats=(1, 2, 3), execs=(1, 1, 2, 3) if rng.random() < 0.5 else (1,))
    sfg = gen.build(d)
    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    names = {"list": requests.LISTS, "rec": ["RecList"], "asap": ["ASAP", "ALAP"],
             "ilp": ["ILP"]}[mode]
    if mode == "rec" and not requests.recursive(d):
        return None
    limits = rng.random() < 0.85
    cfg = requests.random_cfg(rng, d, sfg, crit, names, limits=limits)
    plain = not any(cfg.get(k) for k in ("input_times", "output_times",
                                         "output_delta_times", "max_concurrent_reads",
                                         "max_concurrent_writes"))
    must = plain and (mode == "asap" or (mode != "rec" and cfg["T"] is None and not limits))
    t, _, _ = schedrun.run(d, cfg, "C04", must, mode == "asap")
    t["_seed"] = arg["seed"]
    return t


def memory(arg):
    rng = random.Random(arg["seed"])
    d = gen.random_graph(rng, n_ops=rng.randint(3, 9), n_in=rng.randint(1, 3), n_out=2,
                         n_del=0, kinds=["add", "cmul"], coef=(1, 2), acyclic=True)
    if sl.io_adjacent(d):
        return None
    gen.default_latencies(rng, d, in_off=False, out_spread=rng.random() < 0.2,
                          lats=(1, 3), execs=(1,), per_node=False)
    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    cfg = requests.memory_cfg(rng, crit)
    kinds = {x["k"] for x in d["nodes"]}
    cfg["max_resources"] = {k: n for k, n in cfg["max_resources"].items() if k in kinds}
    t, _, _ = schedrun.run(d, cfg, "C04", False, False)
    t["_seed"] = arg["seed"]
    return t


def check(ctx):
    logging.disable(logging.WARNING)
    n = ctx.scale(2400, 24000)
    modes = ["list", "list", "list", "list", "rec", "rec", "asap", "asap", "ilp"]
    args = [{"seed": f"{ctx.seed}/{i}", "mode": modes[i % len(modes)]} for i in range(n)]
    recs = ctx.drive(case, args)
    recs += ctx.drive(memory, [{"seed": f"{ctx.seed}/m{i}"}
                               for i in range(ctx.scale(1600, 12000))])
    for t in recs:
        ctx.count("scheduler_" + t["q"]["name"])
        ctx.count("rejected" if t["steps"][0]["exc"] else "scheduled")
        ctx.count("rejected_" + t["q"]["name"], int(t["steps"][0]["exc"]))
    ctx.validate("SchedulerTrace", recs, name="requests", weight=lambda t: len(t["K"]))
