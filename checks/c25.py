"""C25: printed architectures compute the scheduled graph; specs Design*."""
import json
import random
import warnings

from vlib import design, gen, schedlib as sl, vhdl

REAL = ["add", "addsub", "cmul", "mads", "sym2p", "shiftaddsub"]
CPLX = ["addsub", "cmul", "shiftaddsub"]


def busy(p, T):
    return {(p.start_time + j) % T for j in range(max(1, min(int(p.execution_time), T)))}


def pair(x):
    x = complex(x)
    return [int(x.real), int(x.imag)]


def graph(rng, cx):
    """A description of a linear graph of integer coefficients."""
    d = gen.random_graph(
        rng, n_ops=rng.randint(1, 7), n_in=rng.randint(1, 2), n_out=rng.randint(1, 2),
        n_del=rng.choice([0, 1, 1, 2, 3]), coef=(1, 2, -3, 5),
        kinds=rng.sample(CPLX if cx else REAL, rng.randint(1, 3)))
    if sl.io_adjacent(d):
        return None
    for x in d["nodes"]:
        if cx:
            if x["k"] == "cmul":
                x["v"] = complex(rng.randint(-3, 3), rng.choice([0, 1, -2, 3]))
            elif x["k"] in ("addsub", "shiftaddsub"):
                x["j"] = rng.random() < 0.3
        x["sh"] = x["so"] = 0
    gen.default_latencies(rng, d, lats=rng.choice([(1,), (1, 2), (1, 2, 3, 4)]), execs=(1, 1, 2),
                          per_node=rng.random() < 0.2, out_spread=False)
    return d


def scheduled(rng, d):
    import b_asic as B

    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    sfg = gen.build(d)
    for o in sfg.input_operations + sfg.output_operations:
        o.execution_time = 1
    try:
        sch = B.Schedule(sfg, scheduler=rng.choice([B.ASAPScheduler, B.ALAPScheduler])(),
                         schedule_time=crit + rng.randint(0, 3), cyclic=True)
    except ValueError:
        return None
    ids = [str(p.operation.graph_id) for p in sch.get_operations()]
    for _ in range(rng.choice([0, 0, 2, 5])):
        g = rng.choice(sorted(ids))
        lo, hi = sch.slacks(g)
        lo, hi = max(-lo if lo >= 0 else 0, -3), min(hi, 3)
        try:
            sch.move_operation(g, rng.randint(min(lo, hi), max(lo, hi)))
        except ValueError:
            pass
    for _ in range(rng.choice([0, 0, 0, 1, 3])):
        sch.rotate_forward()
    return sch


def project(sch, cx):
    """The schedule as a record of the specification, and its operations."""
    ids, ops, edges = sl.struct(sch)
    st, laps = sch.start_times, sch.laps
    rec = []
    for g in ids:
        o = ops[g]
        k = str(o.type_name())
        v = int(bool(getattr(o, "is_add", 0))) if k in ("addsub", "shiftaddsub", "mads") else 0
        rec.append({"k": k, "v": v, "w": int(bool(getattr(o, "do_addsub", 0))),
                    "j": int(bool(getattr(o, "mul_j", 0))), "s": int(st[g]),
                    "c": pair(o.value) if k in ("cmul", "sym2p") else [0, 0],
                    "lat": [int(p.latency_offset) for p in o.outputs], "port": 0})
    T = int(sch.schedule_time)
    E = [{"u": u, "p": p, "v": v, "q": q, "laps": (int(laps[e]) if e in laps else 0)
          # the code counts from the end of the period of the source on
          + int(rec[u - 1]["s"] + rec[u - 1]["lat"][p - 1] > T)}
         for e, u, p, v, q in edges]
    return {"T": T, "ops": rec, "edges": E}, ids


def memory_depth(d):
    """The most periods a value can be under way from an input to an output, or None."""
    depth = [0] * len(d["ops"])
    for _ in range(len(depth) + 1):
        new = [max((depth[e["u"] - 1] + e["laps"] for e in d["edges"] if e["v"] == v + 1),
                   default=0) for v in range(len(depth))]
        if new == depth:
            return max(new)
        depth = new
    return None


def by_hand(rng, sch, name):
    """Blocks put together from groups of operations that do not meet."""
    from b_asic.architecture import Memory, ProcessingElement
    from b_asic.resources import ProcessCollection

    T = sch.schedule_time
    dens = rng.choice([0.2, 0.8, 1.0])
    groups = []
    ops = sorted(sch.get_operations(), key=lambda p: p.name)
    rng.shuffle(ops)
    for p in ops:
        ok = [g for g in groups if type(g[0].operation) is type(p.operation)
              and g[0].operation.latency == p.operation.latency
              and all(not busy(p, T) & busy(q, T) for q in g)]
        if ok and rng.random() < dens:
            rng.choice(ok).append(p)
        else:
            groups.append([p])
    pes = [ProcessingElement(ProcessCollection(g, T, True), f"{name}pe{k}")
           for k, g in enumerate(groups)]
    direct, stored = sch.get_memory_variables().split_on_length()
    if any(v.execution_time > T for v in stored) or rng.random() < 0.2:
        stored = stored.split_into_chains()
    mems = []
    kind = rng.choice(["RAM", "RAM", "register"])
    if list(stored):
        how = rng.choice(["left_edge", "greedy_graph_color"])
        parts = stored.split_on_ports(how, read_ports=1, write_ports=1)
        for k, c in enumerate(parts):
            m = Memory(c, kind, f"{name}mem{k}")
            m.assign()
            mems.append(m)
    return pes, mems, direct, f"by hand {kind}"


def assigned(rng, sch, name):
    """Blocks by the assignment of resources."""
    from b_asic.resource_assigner import assign_processing_elements_and_memories as assign

    how = rng.choice(["greedy_graph_color", "left_edge"])
    kw = {} if how == "left_edge" else {"memory_total_ports": 2}
    pes, mems, direct = assign(sch, strategy=how, memory_read_ports=1, memory_write_ports=1, **kw)
    for k, pe in enumerate(pes):
        pe.set_entity_name(f"{name}pe{k}")
    for k, m in enumerate(mems):
        m.set_entity_name(f"{name}mem{k}")
        m.assign()
    return pes, mems, direct, f"assigned {how}"


def printed(rng, sch, name, cx, tr, given=None):
    """The printed design of a schedule, ready to be simulated."""
    import b_asic as B
    from b_asic.architecture import Architecture
    from b_asic.code_printer import VhdlPrinter
    from b_asic.data_type import DataType

    d, ids = given or project(sch, cx)
    try:
        pes, mems, direct, how = (by_hand if rng.random() < 0.7 else assigned)(rng, sch, name)
    except ValueError as x:  # whether that is right is judged elsewhere
        tr["_why"] = str(x)
        return None
    arch = Architecture(pes, mems, name, direct)
    w = rng.randint(12, 15)
    kw = {}
    if rng.random() < 0.3:
        kw["input_wl"] = (rng.randint(6, w), 0)
    if rng.random() < 0.3:
        kw["output_wl"] = (rng.randint(12, w), 0)
    dt = DataType(wl=(w, 0), is_complex=cx, **kw)
    p = VhdlPrinter(dt)
    opt = {}
    for o in ("io_registers", "input_register", "output_register", "multiplexer_control_registered",
              "pipeline_pe_control", "pipeline_output_mux", "pipeline_back_edge_mux",
              "pipeline_mem_control"):
        if rng.random() < 0.2:
            opt[o] = True
    if rng.random() < 0.2:
        opt["output_sync"] = False
    if rng.random() < 0.2:
        opt["enable_pin"] = False
    if rng.random() < 0.3:
        pe = rng.choice(pes)
        n = rng.randint(0, pe._latency)
        opt["pe_registers"] = {rng.choice([pe.entity_name, pe._type_name]): (n, pe._latency - n)}
        if any(pe2._type_name == pe._type_name and pe2._latency != pe._latency for pe2 in pes):
            opt["pe_registers"] = {pe.entity_name: (n, pe._latency - n)}
    # what such designs do in their first cycles stays in loops
    skip = 0
    if any(o.startswith(("pipeline", "multiplexer", "enable_pin")) for o in opt):
        depth = memory_depth(d)
        if depth is None:
            opt = {o: x for o, x in opt.items() if not o.startswith(("pipeline", "multiplexer", "enable_pin"))}
        else:
            skip = depth + 2
    enpin = opt.get("enable_pin", True)
    inreg = bool(opt.get("io_registers") or opt.get("input_register"))
    outreg = bool(opt.get("io_registers") or opt.get("output_register"))
    e = {"lag": int(inreg and enpin) + int(outreg), "early": int(inreg and not enpin),
         "skip": skip,
         "_opt": str(opt), "_how": how, "_w": w}
    tr |= {"d": d, "steps": [e], "_how": how, "_opt": opt}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            texts = [p.print_Memory(m, **opt) for m in mems]
            texts += [p.print_ProcessingElement(x, **opt) for x in pes]
            texts += [p.print_Architecture(arch, **opt)]
    except (ValueError, TypeError, NotImplementedError, KeyError, AttributeError) as x:
        e |= {"kind": "refused", "_why": f"{type(x).__name__} {x}"[:200]}
        return None
    dc = "-" if any("to_integer(" in t for t in texts[len(mems):]) else rng.choice("-01")
    ins, outs = [], []
    for pe in pes:
        for pr in pe.collection:
            k = ids.index(str(pr.operation.graph_id))
            if isinstance(pr.operation, B.Input):
                d["ops"][k]["port"] = len(ins) + 1
            elif isinstance(pr.operation, B.Output):
                d["ops"][k]["port"] = len(outs) + 1
        if pe.operation_type is B.Input:
            ins.append(pe.entity_name)
        elif pe.operation_type is B.Output:
            outs.append(pe.entity_name)
    return {"name": name, "texts": [design.unscratch(t, dc) for t in texts], "cplx": cx,
            "types": p.print_types() if cx else None, "T": d["T"],
            "in_bits": dt.input_bits, "out_bits": dt.output_bits, "outs": outs, "ports": ins,
            "enpin": enpin, "stop": enpin and rng.random() < 0.4, "skip": skip}


def drive(rng, d, e, clocks):
    h = 2 ** (d["in_bits"] - 1)
    early = e["early"]
    d["gaps"] = [k > 0 and not (d["stop"] and rng.random() < 0.25) for k in range(clocks)]
    rows = [[[rng.randrange(-h, h) if k >= 1 - early else 0 for _ in range(1 + d["cplx"])]
             for _ in d["ports"]] for k in range(clocks)]
    d["ins"] = {pe: [r[i] for r in rows] for i, pe in enumerate(d["ports"])}
    e |= {"gaps": [int(x) for x in d["gaps"]],
          "ins": [[x if d["cplx"] else [x[0], 0] for x in r] for r in rows]}


def provided(case):
    """The real schedule of a schedule of the design model, and its operations."""
    import b_asic as B

    mk = {"in": B.Input, "out": B.Output}
    nodes = []
    for k, o in enumerate(case["ops"]):
        if o["k"] in mk:
            x = mk[o["k"]](name=f"n{k}")
        elif o["k"] == "cmul":
            x = B.ConstantMultiplication(o["c"][0], name=f"n{k}")
        else:
            x = B.AddSub(bool(o["v"]), name=f"n{k}")
        if o["k"] not in mk:
            x.set_latency(o["lat"][0])
        x.execution_time = 1
        nodes.append(x)
    for e in case["edges"]:
        nodes[e["v"] - 1].input(e["q"] - 1).connect(nodes[e["u"] - 1].output(e["p"] - 1))
    sfg = B.SFG([x for x in nodes if isinstance(x, B.Input)],
                [x for x in nodes if isinstance(x, B.Output)])
    ops = [next(x for x in sfg.operations if x.name == f"n{k}") for k in range(len(nodes))]
    laps = {}
    for e in case["edges"]:
        u = case["ops"][e["u"] - 1]
        late = u["s"] + u["lat"][e["p"] - 1] > case["T"]
        sig = ops[e["v"] - 1].input(e["q"] - 1).signals[0]
        laps[sig.graph_id] = e["laps"] - late
    start = {x.graph_id: o["s"] for x, o in zip(ops, case["ops"], strict=True)}
    sch = B.Schedule(sfg, start_times=start, laps=laps, schedule_time=case["T"], cyclic=True)
    return sch, [str(x.graph_id) for x in ops]


def one(arg, n):
    rng = random.Random(arg["seed"])
    tr = {"_seed": arg["seed"]}
    if "case" in arg:
        sch, ids = provided(arg["case"])
        d = {"T": arg["case"]["T"], "edges": arg["case"]["edges"],
             "ops": [{**o, "port": 0} for o in arg["case"]["ops"]]}
        return tr, printed(rng, sch, f"d{n}", False, tr, (d, ids))
    cx = rng.random() < 0.25
    d = graph(rng, cx)
    sch = d and scheduled(rng, d)
    if not sch:
        return None, None
    return tr, printed(rng, sch, f"d{n}", cx, tr)


def batch(arg):
    recs, ds = [], []
    for n, a in enumerate(arg["jobs"]):
        tr, d = one(a, n)
        if tr is None or "steps" not in tr:
            continue
        recs.append(tr)
        if d:
            ds.append((tr, d))
    if not ds:
        return recs
    clocks = max((4 + d["stop"] + d["skip"]) * d["T"] + 6 for _, d in ds)
    for tr, d in ds:
        drive(random.Random(tr["_seed"] + "d"), d, tr["steps"][0], clocks)
    for (tr, d), r in zip(ds, design.simulate([d for _, d in ds], clocks), strict=True):
        e = tr["steps"][0]
        if "error" in r:
            e |= {"kind": "illegal", "_why": r["error"]}
            continue
        q = 2 if d["cplx"] else 1
        e |= {"kind": "run", "out": [
            [[-999999, 0] if None in row[i:i + q] else (row[i:i + q] + [0])[:2]
             for i in range(0, len(row), q)] for row in r["out"]]}
    return recs


MODEL = """SPECIFICATION Spec
CONSTANTS
  T = {T}
  Lats = {{1, 2}}
  Periods = 4
INVARIANTS Correct Executable
"""


def check(ctx):
    ctx.assumptions += [
        "signed fixed-point words of at least 12 whole bits that wrap; integer coefficients",
        "operations the VHDL printer knows; one read and one write port per memory",
        "one cycle of reset, inputs zero until then",
        "GHDL gives the meaning of the hardware description",
    ]
    if not vhdl.have():
        raise RuntimeError("ghdl is not installed")
    cases = {}
    for T in ctx.scale((1, 2), (1, 2, 3)):
        r = ctx.model("DesignModel", MODEL.format(T=T))
        for line in r.lines:
            if line.startswith("TR|"):
                cases[line] = json.loads(line[3:])
    keys = sorted(cases)
    random.Random(f"{ctx.seed}/replay").shuffle(keys)
    jobs = [{"seed": f"{ctx.seed}/{i}"} for i in range(ctx.scale(600, 6000))]
    jobs += [{"seed": f"{ctx.seed}/m{i}", "case": cases[x]}
             for i, x in enumerate(keys[:ctx.scale(400, 6000)])]
    n = 20
    recs = ctx.drive(batch, [{"jobs": jobs[i:i + n]} for i in range(0, len(jobs), n)], limit=300,
                     chunk=1)
    for t in recs:
        ctx.count(t["_how"])
    ctx.validate("DesignTrace", recs, name="designs",
                 weight=lambda t: len(t["d"]["ops"]) * len(t["steps"][0].get("out", [1])))
