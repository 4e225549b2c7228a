"""C03: what a schedule reports about itself; spec TimingTrace."""
import contextlib
import io
import random

from checks import c01, c02
from vlib import gen, requests, schedlib as sl


def printed(sch, c, order, kind):
    import b_asic as B

    types = {"add": B.Addition, "sub": B.Subtraction, "cmul": B.ConstantMultiplication,
             "neg": B.Negation, "addsub": B.AddSub, "r2bfly": B.R2Butterfly,
             "in": B.Input, "out": B.Output}
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if kind:
            sch.print_slacks(order, type_name=types[kind])
        else:
            sch.print_slacks(order)
    rows = []
    for line in buf.getvalue().splitlines()[2:]:
        a, b, f = (x.strip() for x in line.split("|"))
        rows.append([c["ids"].index(a) + 1] + [sl.INF if x == "oo" else int(x)
                                               for x in (b, f)])
    return rows


def report(sch, c, rng):
    r = sl.snap(sch, c)
    D = c02.rebuilt(sch, c)[1]
    if D is None:
        return None
    for i, e in enumerate(c["E"]):
        if c["K"][e["u"] - 1] == "c":  # constants are never delayed
            over = r["S"][e["u"] - 1] + r["lout"][e["u"] - 1][0] > r["T"]
            D[i] = r["L"][i] + int(over)
    r["D"] = D
    del r["L"]
    idn = {x: i + 1 for i, x in enumerate(c["ids"])}
    mv = sch.get_memory_variables()
    r["mem"] = [{
        "u": idn[str(m.write_port.operation.graph_id)], "p": m.write_port.index + 1,
        "w": int(m.start_time), "ex": int(m.execution_time),
        "at": sorted(int(x) for x in m.read_times),
        "reads": [[idn[str(p.operation.graph_id)], p.index + 1, int(t)]
                  for p, t in m.reads.items()],
    } for m in mv.collection]
    ops = sch.get_operations()
    r["procs"] = [[idn[str(p.operation.graph_id)], int(p.start_time),
                   int(p.execution_time)] for p in ops.collection]
    r["per"] = [int(mv.schedule_time), int(ops.schedule_time)]
    r["maxend"] = int(sch.get_max_end_time())
    r["nonio"] = int(sch.get_max_non_io_end_time())
    r["iolat"] = [[idn[str(i)], idn[str(o)], int(x)]
                  for i, m in sch.get_io_latency().items() for o, x in m.items()]
    kind = rng.choice(["", "", "", "in", "out", "add", "neg", "cmul"])
    order = rng.randrange(3)
    r["print"] = {"order": order, "kind": kind, "rows": printed(sch, c, order, kind)}
    return r


def case(arg):
    rng = random.Random(arg["seed"])
    mode = arg["mode"]
    d = gen.random_graph(
        rng, n_ops=rng.randint(1, 8), n_in=rng.randint(1, 3), n_out=rng.randint(1, 2),
        n_del=rng.randint(0, 4),
        kinds=["add", "sub", "cmul", "neg", "addsub", "r2bfly", "sym2p", "mul"],
        coef=(1, -1, 2, 3), acyclic=mode == "list")
    if sl.io_adjacent(d):
        return None
    if rng.random() < 0.2:
        c02.with_constants(rng, d)
    if mode == "asap" and rng.random() < 0.2:
        srcs = [i for i, n in enumerate(d["nodes"]) if n["k"] not in ("out", "t", "c", "in")]
        d["nodes"].append({"k": "sink", "v": 0, "src": [(rng.choice(srcs), 0)]})
    gen.default_latencies(rng, d, in_off=rng.random() < 0.3, out_spread=rng.random() < 0.4,
                          lats=(1, 2, 3), execs=(1, 2))
    sfg = gen.build(d)
    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    names = {"list": requests.LISTS, "rec": ["RecList"], "asap": ["ASAP", "ALAP"]}[mode]
    if mode == "rec" and not requests.recursive(d):
        return None
    cfg = requests.random_cfg(rng, d, sfg, crit, names)
    try:
        sch = requests.make(sfg, cfg)
    except ValueError:
        return None
    c = sl.const(sch, cfg["cyclic"])
    if sch.schedule_time < 1:
        return None
    steps = [report(sch, c, rng)]
    cur = sl.snap(sch, c)
    for k in range(arg["len"]):
        ev = c01.random_event(rng, cur, c, False)
        if c01.crosses(ev, cur, c):
            continue
        if not c01.in_regime(cur, c):
            break
        c01.do_edit(sch, c, ev, cur, None)
        cur = sl.snap(sch, c)
        if rng.random() < 0.5 or k == arg["len"] - 1:
            steps.append(report(sch, c, rng))
    if None in steps:
        return None
    return {"K": c["K"], "E": c["E"], "cyc": cfg["cyclic"], "steps": steps,
            "_desc": d, "_cfg": cfg, "_seed": arg["seed"]}


def check(ctx):
    n = ctx.scale(900, 9000)
    modes = ["asap", "asap", "asap", "asap", "list", "rec"]
    args = [{"seed": f"{ctx.seed}/{i}", "mode": modes[i % len(modes)],
             "len": ctx.scale(8, 20) if i % 4 else 0} for i in range(n)]
    recs = ctx.drive(case, args)
    for t in recs:
        ctx.count("reports", len(t["steps"]))
        ctx.count("scheduler_" + t["_cfg"]["name"])
    ctx.validate("TimingTrace", recs, name="reports", weight=lambda t: len(t["steps"]))
