"""C11: architectures and their interconnect; specs Arch*."""
import json
import logging
import random

from vlib import gen, procs as pr, schedlib as sl, schedrun

KINDS = ["add", "sub", "cmul", "neg", "r2bfly", "sym2p", "mul", "addsub"]


def a_schedule(rng, max_ops=8, per_node=None):
    import b_asic as B

    d = gen.random_graph(
        rng, n_ops=rng.randint(2, max_ops), n_in=rng.randint(1, 2), n_out=rng.randint(1, 2),
        n_del=rng.choice([0, 1, 1, 2, 2, 6]), kinds=rng.sample(KINDS, rng.randint(1, 3)), coef=(1, 2))
    if sl.io_adjacent(d):
        return None
    gen.default_latencies(rng, d, in_off=False, lats=(1, 2, 3), execs=(1, 1, 2),
                          per_node=rng.random() < 0.3 if per_node is None else per_node)
    crit = sl.schedule_of(gen.build(d), "ASAP").schedule_time
    if crit < 1:
        return None
    sfg = gen.build(d)
    name = rng.choice(["ASAP", "ASAP", "ALAP"])
    try:
        return B.Schedule(sfg, scheduler={"ASAP": B.ASAPScheduler, "ALAP": B.ALAPScheduler}[name](),
                          schedule_time=crit + rng.randint(0, 3), cyclic=rng.random() < 0.7)
    except ValueError:
        return None


def crossing(sch):
    """Rotate until an operation executes over the end of the period, beside others of its type."""
    if not sch.cyclic:
        return False
    T = sch.schedule_time
    for _ in range(T):
        ops = list(sch.get_operations())
        ends = [p for p in ops if p.start_time + p.execution_time > T]
        if any(q.operation.type_name() == p.operation.type_name() and q is not p
               and q.start_time < p.start_time + p.execution_time - T for p in ends for q in ops):
            return True
        sch.rotate_forward()
    return False


class World:
    """A schedule with its processes, numbered."""

    def __init__(self, sch, ops=None, direct=None, stored=None):
        from b_asic.special_operations import Delay
        self.sch = sch
        self.T, self.cyc = sch.schedule_time, sch.cyclic
        self.ops = sorted(sch.get_operations() if ops is None else ops, key=lambda p: p.name)
        self.oi = {id(p.operation): i + 1 for i, p in enumerate(self.ops)}
        if ops is None:
            direct, stored = sch.get_memory_variables().split_on_length()
            if any(v.execution_time > self.T for v in stored):
                stored = stored.split_into_chains()
        self.direct, self.stored = direct, stored
        self.vars = sorted(self.direct, key=lambda v: (v.name, str(v)))
        n = len(self.vars)
        self.vars += sorted(self.stored, key=lambda v: (v.name, str(v)))
        self.dirs = {id(v) for v in self.vars[:n]}
        self.edges = []
        for p in self.ops:
            for i, x in enumerate(p.operation.inputs):
                s = x.connected_source
                while isinstance(s.operation, Delay):
                    s = s.operation.input(0).connected_source
                self.edges.append({"src": self.oi[id(s.operation)], "sp": s.index,
                                   "dst": self.oi[id(p.operation)], "dp": i})

    def instance(self):
        from b_asic.process import MemoryInputPort, MemoryOutputPort
        vs = []
        num = {id(v): i + 1 for i, v in enumerate(self.vars)}
        for v in self.vars:
            rd = sorted([self.oi[id(p.operation)], p.index] for p in v.reads
                        if not isinstance(p, MemoryInputPort))
            first = v
            while isinstance(first.write_port, MemoryOutputPort):
                first = first.write_port.source_variable
            port = first.write_port
            prev = 0 if first is v else num.get(id(v.write_port.source_variable), -1)
            vs.append({"src": self.oi[id(port.operation)], "sp": port.index, "prev": prev,
                       "rd": rd, "x": sorted({int(t) for t in v.reads.values()}),
                       "s": int(v.start_time), "len": int(v.execution_time),
                       "dir": id(v) in self.dirs})
        ops = []
        for p in self.ops:
            o = p.operation
            ops.append({"ty": str(o.type_name()), "lat": int(o.latency), "s": int(p.start_time),
                        "ex": int(p.execution_time), "ni": o.input_count, "no": o.output_count})
        return {"T": self.T, "ops": ops, "vars": vs, "edges": self.edges}

    def block(self, kind, items):
        if kind == "mem":
            return {"kind": "mem", "ty": "", "lat": 0, "ni": 1, "no": 1, "rp": 0, "wp": 0}
        o = items[0].operation
        return {"kind": "pe", "ty": str(o.type_name()), "lat": int(o.latency),
                "ni": o.input_count, "no": o.output_count, "rp": 0, "wp": 0}


def busy(p, T):
    return {(p.start_time + j) % T for j in range(min(int(p.execution_time), T))}


def partition(rng, w):
    """Random groups of operations that do not meet, and of stored variables."""
    pes = []
    dens = rng.choice([0.3, 0.8, 0.95])
    ops = list(w.ops)
    rng.shuffle(ops)
    for p in ops:
        ok = [g for g in pes if type(g[0].operation) is type(p.operation)
              and g[0].operation.latency == p.operation.latency
              and all(not busy(p, w.T) & busy(q, w.T) for q in g)]
        if ok and rng.random() < dens:
            rng.choice(ok).append(p)
        else:
            pes.append([p])
    stored = [v for v in w.vars if id(v) not in w.dirs]
    n = rng.randint(1, max(1, min(4, len(stored))))
    mems = [[] for _ in range(n)]
    for v in stored:
        rng.choice(mems).append(v)
    return pes, [m for m in mems if m]


def construct(rng, w, pes, mems, inst, spare=None):
    """The real blocks; fills in the blocks of the instance."""
    from b_asic.architecture import Memory, ProcessingElement
    from b_asic.resources import ProcessCollection

    real, blocks = [], []
    inst |= {"blocks": [], "pe": [0] * len(w.ops), "mem": [0] * len(w.vars)}
    for k, g in enumerate(pes):
        real.append(ProcessingElement(ProcessCollection(list(g), w.T, w.cyc), f"pe{k}",
                                      assign=rng.random() < 0.5))
        blocks.append(w.block("pe", g))
    for k, g in enumerate(mems):
        pc = ProcessCollection(list(g), w.T, w.cyc)
        kw = {}
        if rng.random() < 0.6:
            rp = pc.read_ports_bound() + rng.randint(0, 2)
            wp = pc.write_ports_bound() + rng.randint(0, 1)
            kw = {"read_ports": rp, "write_ports": wp, "total_ports": rp + wp}
        m = Memory(pc, entity_name=f"mem{k}", assign=rng.random() < 0.5, **kw)
        real.append(m)
        b = w.block("mem", g)
        b["rp"], b["wp"] = m.output_count, m.input_count
        blocks.append(b)
    inst["blocks"] = blocks
    inst |= placed(w, pes, mems)[0]
    return real


def placed(w, pes, mems):
    """Block of every operation and variable; whether each has exactly one."""
    pe = [0] * len(w.ops)
    mem = [0] * len(w.vars)
    once = True
    for b, g in enumerate(pes):
        for p in g:
            i = next(i for i, x in enumerate(w.ops) if x is p)
            once = once and not pe[i]
            pe[i] = b + 1
    for b, g in enumerate(mems):
        for v in g:
            i = next(i for i, x in enumerate(w.vars) if x is v)
            once = once and not mem[i]
            mem[i] = len(pes) + b + 1
    return {"pe": pe, "mem": mem}, once


def observe(w, arch, real):
    from b_asic.architecture import Memory

    num = {id(r): b + 1 for b, r in enumerate(real)}
    ov = {id(p): i + 1 for i, p in enumerate(w.ops)} | {id(v): i + 1 for i, v in enumerate(w.vars)}

    def conn(d):
        return sorted([num[id(r)], int(p), int(c)] for (r, p), c in d.items())

    live = [num[id(r)] for r in [*arch.processing_elements, *arch.memories]]
    rep = []
    for b, r in enumerate(real):
        if b + 1 not in live:
            rep.append({"in": [], "out": []})
        elif isinstance(r, Memory):
            i, o = arch.get_interconnects_for_memory(r)
            rep.append({"in": [sorted([num[id(x)], 0, int(c)] for x, c in i.items())],
                        "out": [sorted([num[id(x)], 0, int(c)] for x, c in o.items())]})
        else:
            i, o = arch.get_interconnects_for_pe(r)
            rep.append({"in": [conn(x) for x in i], "out": [conn(x) for x in o]})
    return {"has": [sorted(ov[id(p)] for p in r.collection) for r in real], "live": live,
            "asg": [b + 1 for b, r in enumerate(real) if r.is_assigned],
            "rep": rep, "mux": int(arch.get_multiplexer_input_count()),
            "muxed": int(arch.get_multiplexer_input_count(multiplexed_only=True))}


def accept(w, real, direct, rng):
    from b_asic.architecture import Architecture, ProcessingElement

    pes = [r for r in real if isinstance(r, ProcessingElement)]
    mems = [r for r in real if not isinstance(r, ProcessingElement)]
    form = rng.randrange(4)
    if form == 0:
        pes, mems = iter(pes), iter(mems)
    elif form == 1:
        pes = pes[0] if len(pes) == 1 else tuple(pes)
        mems = mems[0] if len(mems) == 1 else tuple(mems)
    try:
        return Architecture(pes, mems, direct_interconnects=direct)
    except ValueError:
        return None


def act(w, arch, real, e):
    """Performs e (move, remove, add) and says whether it went through."""
    try:
        if e["act"] == "move":
            p = w.ops[e["p"]["i"] - 1] if e["p"]["k"] == "op" else w.vars[e["p"]["i"] - 1]
            a, b = real[e["from"] - 1], real[e["to"] - 1]
            if e["byname"]:
                p, a, b = p.name, a.entity_name, b.entity_name
            arch.move_process(p, a, b, assign=e["assign"])
        elif e["act"] == "remove":
            r = real[e["b"] - 1]
            arch.remove_resource(r.entity_name if e["byname"] else r)
        elif e["act"] == "add":
            arch.add_resource(real[e["b"] - 1])
    except (ValueError, KeyError, TypeError):
        return False
    return True


def named(w):
    n = [p.name for p in [*w.ops, *w.vars]]
    return len(set(n)) == len(n)


def where(w, real):
    return {id(p): b + 1 for b, r in enumerate(real) for p in r.collection}


def history(arg):
    rng = random.Random(arg["seed"])
    sch = a_schedule(rng)
    if sch is None:
        return None
    w = World(sch)
    if w.T < 1 or any(p.execution_time > w.T for p in w.ops):
        return None
    inst = w.instance()
    pes, mems = partition(rng, w)
    if rng.random() < 0.2:
        long = [m for m in mems if any("_chain" in v.name for v in m)]
        g = rng.choice(long if long and rng.random() < 0.6 else pes + mems)
        if g in pes and len(pes) > 1 and rng.random() < 0.7:
            pes.remove(g)
        else:
            relays = [v for v in g if g not in pes and v.name.find("_chain") > 0]
            g.remove(rng.choice(relays or g))
            pes, mems = [x for x in pes if x], [x for x in mems if x]
        if not pes:
            return None
    try:
        real = construct(rng, w, pes, mems, inst)
    except ValueError as e:
        return inst | {"built": False, "acc": False, "steps": [], "_error": str(e)}
    arch = accept(w, real, w.direct if w.dirs or rng.random() < 0.5 else None, rng)
    inst |= {"built": True, "acc": arch is not None, "steps": [], "_seed": arg["seed"]}
    if arch is None:
        return inst
    inst["steps"].append({"act": "look", "ok": True} | observe(w, arch, real))
    names = named(w)
    for _ in range(rng.randint(0, arg["n"])):
        here = where(w, real)
        live = inst["steps"][-1]["live"]
        empty = [b for b in live if not inst["steps"][-1]["has"][b - 1]]
        gone = [b + 1 for b in range(len(real)) if b + 1 not in live]
        x = rng.random()
        if gone and x < 0.3:
            e = {"act": "add", "b": rng.choice(gone)}
        elif x < (0.5 if empty else 0.1):
            e = {"act": "remove", "b": rng.choice(empty if empty and x < 0.4 else live)}
        else:
            k = rng.choice(["op", "var"])
            L = w.ops if k == "op" else w.vars
            if not L:
                continue
            i = rng.randrange(len(L)) + 1
            at = here.get(id(L[i - 1]), 0)
            kin = [b + 1 for b, r in enumerate(inst["blocks"]) if r["kind"] == ("pe" if k == "op" else "mem")
                   and (k == "var" or r["ty"] == inst["ops"][i - 1]["ty"])]
            y = rng.random()
            fr = at if at and y < 0.85 else rng.choice(live)
            to = rng.choice(kin) if kin and rng.random() < 0.85 else rng.choice(range(1, len(real) + 1))
            e = {"act": "move", "p": {"k": k, "i": i}, "from": fr, "to": to,
                 "assign": rng.random() < 0.4}
        e["byname"] = names and rng.random() < 0.4
        e["ok"] = act(w, arch, real, e)
        inst["steps"].append(e | observe(w, arch, real))
    return inst


STRATEGIES = ["left_edge", "greedy_graph_color", "ilp_graph_color", "ilp_min_mux"]


def assigned(arg):
    """An architecture made by assign_processing_elements_and_memories."""
    from b_asic.resource_assigner import assign_processing_elements_and_memories

    rng = random.Random(arg["seed"])
    tight = arg.get("tight", False)
    strat = "ilp_min_mux" if tight else rng.choice([*STRATEGIES, "ilp_min_mux"])
    sch = a_schedule(rng, max_ops=4 if strat == "ilp_min_mux" else 6, per_node=False)
    if sch is None:
        return None
    if strat == "ilp_min_mux" and not crossing(sch) and tight:
        return None
    w = World(sch)
    if w.T < 1 or any(p.execution_time > w.T for p in w.ops):
        return None
    kw = {"strategy": strat}
    groups = {}
    for p in w.ops:
        groups.setdefault(p.operation.type_name(), []).append(p)
    need = {t: len(g.split_on_execution_time("greedy_graph_color"))
            for t, g in sch.get_operations().split_on_type_name().items()}
    lim = {}
    if rng.random() < 0.5 or strat == "ilp_min_mux":
        lim = {t: n if tight else max(1, n + rng.choice([0, 0, 0, 1, -1])) for t, n in need.items()}
        if strat != "ilp_min_mux" and rng.random() < 0.5:
            lim.pop(rng.choice(sorted(lim)))
        kw["resources"] = dict(lim)
    # with one port for both, left_edge: see the finding of C07
    total = rng.choice([None, 2] if strat == "left_edge" else [None, 1, 2, 2])
    kw |= {"memory_read_ports": 1, "memory_write_ports": 1, "memory_total_ports": total}
    mems = None
    if rng.random() < 0.4 or strat == "ilp_min_mux":
        mems = rng.randint(1, 3)
        kw["max_mems"] = mems
    size = None
    if strat == "ilp_min_mux" and rng.random() < 0.5:
        size = kw["max_mux_size"] = rng.randint(1, 3)
    if strat.startswith("ilp"):
        kw["solver"] = pr.solver()
    base = {"T": w.T, "_seed": arg["seed"], "built": True, "_kw": str(kw),
            "limits": {"types": [{"ty": str(t), "n": n} for t, n in sorted(lim.items())],
                       "mems": mems or 0, "t": total or 2, "mux": size or 0, "best": strat}}
    # the best is found by enumeration, for small cases
    n = (max(mems or 0, 1) ** len(list(w.stored)) * max([1, *lim.values()]) ** len(w.ops)
         if strat == "ilp_min_mux" else 0)
    size = max(len(list(w.stored)), *(len(g) for g in groups.values()))
    base["limits"] |= {"small": size <= 5, "enum": n <= 1000 and size <= 6}
    try:
        pes, ms, direct = assign_processing_elements_and_memories(sch, **kw)
    except (ValueError, KeyError, TypeError) as e:
        inst = w.instance()
        return inst | base | {"acc": False, "raised": True, "whole": True, "_error": str(e),
                              "blocks": [], "pe": [0] * len(w.ops), "mem": [0] * len(w.vars),
                              "steps": []}
    ops = [p for g in pes for p in g]
    stored = [v for g in ms for v in g]
    once = len({id(p.operation) for p in ops}) == len(ops) == len(w.ops)
    if not once:
        return w.instance() | base | {"acc": False, "raised": False, "whole": False, "steps": [],
                              "blocks": [], "pe": [0] * len(w.ops), "mem": [0] * len(w.vars)}
    w2 = World(sch, ops, direct, list({id(v): v for v in stored}.values()))
    inst = w2.instance()
    at, one = placed(w2, pes, ms)
    inst |= at | base | {"raised": False, "whole": once and one}
    inst["blocks"] = [w2.block("pe", list(g)) for g in pes]
    for m in ms:
        b = w2.block("mem", [])
        b["rp"], b["wp"] = m.output_count, m.input_count
        inst["blocks"].append(b)
    real = [*pes, *ms]
    arch = accept(w2, real, direct, rng)
    inst |= {"acc": arch is not None, "steps": []}
    if arch is not None:
        inst["steps"].append({"act": "look", "ok": True} | observe(w2, arch, real))
    return inst


MODEL = """CONSTANT Depth = {depth}
SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
"""


def small_world(seed):
    """A complete architecture of few processes on a few blocks, or None."""
    rng = random.Random(seed)
    sch = a_schedule(rng, max_ops=3)
    if sch is None:
        return None
    w = World(sch)
    if w.T < 1 or any(p.execution_time > w.T for p in w.ops) or len(w.ops) + len(w.vars) > 9:
        return None
    inst = w.instance()
    pes, mems = partition(rng, w)
    if not mems or len(pes) + len(mems) > 6:
        return None
    return w, inst, construct(rng, w, pes, mems, inst)


def replay(arg):
    """The histories of the model, performed."""
    out = []
    for h in arg["hs"]:
        w, inst, real = small_world(arg["seed"])
        for r in real:
            r.assign()
        rng = random.Random(f"{arg['seed']}/{h}")
        arch = accept(w, real, w.direct, rng)
        inst |= {"built": True, "acc": arch is not None, "steps": [], "_seed": arg["seed"]}
        if arch is not None:
            inst["steps"].append({"act": "look", "ok": True} | observe(w, arch, real))
            names = named(w)
            for a in h:
                e = {"act": a["act"], "byname": names and rng.random() < 0.5}
                if a["act"] == "move":
                    e |= {"p": {"k": a["k"], "i": a["i"]}, "from": a["from"], "to": a["to"],
                          "assign": True}
                else:
                    e["b"] = a["i"]
                e["ok"] = act(w, arch, real, e)
                e["want"] = a["ok"]
                inst["steps"].append(e | observe(w, arch, real))
        out.append(inst)
    return out


def model(ctx):
    insts, seeds = [], []
    i = 0
    want = ctx.scale(6, 30)
    while len(insts) < want and i < 100 * want:
        seed = f"{ctx.seed}/w{i}"
        i += 1
        x = small_world(seed)
        if x is not None:
            insts.append(x[1])
            seeds.append(seed)
    r = ctx.model("ArchModel", MODEL.format(depth=2), files={"model.json": insts})
    hs = {}
    for line in r.lines:
        if line.startswith("TR|"):
            t = json.loads(line[3:])
            hs.setdefault(t["k"], {})[json.dumps(t["hist"], sort_keys=True)] = t["hist"]
    jobs = []
    n = 0
    for k in sorted(hs):
        L = [hs[k][x] for x in sorted(hs[k])]
        n += len(L)
        random.Random(f"{ctx.seed}/h{k}").shuffle(L)
        L = L[:ctx.scale(120, 2000)]
        jobs += [{"seed": seeds[k - 1], "hs": L[j:j + 40]} for j in range(0, len(L), 40)]
    ctx.count("model_histories", n)
    recs = ctx.drive(replay, jobs)
    ctx.validate("ArchTrace", recs, name="model_histories",
                 weight=lambda t: (len(t["steps"]) + 1) * len(t["ops"]) ** 2)


def check(ctx):
    logging.disable(logging.WARNING)
    ctx.assumptions += ["operations take at most one period",
                        "assignments are compared with the best one for small schedules"]
    model(ctx)
    recs = ctx.drive(history, [{"seed": f"{ctx.seed}/{i}", "n": 10}
                               for i in range(ctx.scale(1200, 20000))])
    ctx.count("accepted", sum(t["acc"] for t in recs))
    ctx.count("steps", sum(len(t["steps"]) for t in recs))
    ctx.validate("ArchTrace", recs, name="histories",
                 weight=lambda t: (len(t["steps"]) + 1) * len(t["ops"]) ** 2)
    recs = ctx.drive(assigned, [{"seed": f"{ctx.seed}/a{i}"}
                                for i in range(ctx.scale(600, 6000))]
                     + [{"seed": f"{ctx.seed}/x{i}", "tight": True}
                        for i in range(ctx.scale(1200, 8000))])
    for t in recs:
        ctx.count(f"assigned_{t['limits']['best']}")
    ctx.count("judged_best", sum(t["limits"]["small"] if t["limits"]["best"] != "ilp_min_mux"
                                 else t["limits"]["enum"] for t in recs))
    ctx.count("assignment_refused", sum(t["raised"] for t in recs))
    ctx.validate("ArchTrace", recs, name="assignments", weight=lambda t: len(t["ops"]) ** 2)
