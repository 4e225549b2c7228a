"""C14: transformations of graphs; specs XForm, XFormTrace."""
import random
import warnings

from vlib import flow, gen, num

M = num.P


def kinds_kw(mode):
    if mode == "cplx":
        return {"kinds": gen.FIELD, "coef": gen.CPLX, "mods": "j", "inits": (0, 0, 1, 0.5)}
    return {"kinds": gen.FIELD, "coef": gen.REAL, "mods": "r", "inits": (0, 0, 2, -0.5)}


def names(desc, prefix="n"):
    for i, n in enumerate(desc["nodes"]):
        n["name"] = f"{prefix}{i}"


def snapshot(sfg):
    """Everything a user can observe of a graph's structure."""
    from b_asic import SFG

    out = []
    for o in sfg.operations:
        ins = []
        for p in o.inputs:
            s = p.signals[0] if p.signals else None
            src = s.source if s else None
            ins.append([str(s.graph_id) if s else "", str(src.operation.graph_id) if src
                        else "", src.index if src else -1])
        ps = "" if isinstance(o, SFG) else repr(sorted(map(str, o.params.items())))
        out.append([str(o.graph_id), str(o.name), str(o.type_name()), ps, ins,
                    repr(o.latency_offsets), repr(o.execution_time),
                    [p.signal_count for p in o.outputs]])
    out.append([[str(o.graph_id) for o in sfg.input_operations],
                [str(o.graph_id) for o in sfg.output_operations]])
    return repr(out)


def attrs(sfg):
    """Per named operation: identifier, latencies and execution time."""
    from b_asic import SFG

    out = {}

    def walk(g):
        for o in g.operations:
            if isinstance(o, SFG):
                walk(o)
            elif o.name:
                out.setdefault(str(o.name), []).append(
                    [str(o.graph_id), repr(sorted(o.latency_offsets.items())),
                     repr(o.execution_time)])
    walk(sfg)
    for o in sfg.input_operations:  # inputs that feed nothing
        if o.name and str(o.name) not in out:
            out[str(o.name)] = [[str(o.graph_id), repr(sorted(o.latency_offsets.items())),
                                 repr(o.execution_time)]]
    return {k: sorted(v) for k, v in out.items()}


def feeds(g, i):
    """Nodes reachable from node i (1-based) without passing a delay."""
    cons = {}
    for q, n in enumerate(g["nodes"], 1):
        if n["k"] != "t":
            for s, _ in n["src"]:
                cons.setdefault(s, []).append(q)
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        for q in cons.get(x, []):
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def closes(g, i):
    """Removing the delay i (1-based) would close a delay-free loop."""
    s = g["nodes"][i - 1]["src"][0][0]
    return s == i or s in feeds(g, i)


def loses(g, i):
    """Removing node i (1-based) leaves some operation without a way to an output."""
    nodes = g["nodes"]

    def src(x, p):
        seen = 0
        while x == i and seen < 9:
            x, p, seen = *nodes[i - 1]["src"][p - 1], seen + 1
        return x
    seen, todo = set(), list(g["outs"])
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [src(*e) for e in nodes[x - 1]["src"]]
    return len(seen) < len(nodes) - 1


def dead_names(sfg, g):
    ops = []
    flow.of_sfg(sfg, M, ops)
    seen, todo = set(), list(g["outs"]) + list(g["ins"])
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [s for s, _ in g["nodes"][x - 1]["src"]]
    return [str(o.name) for i, o in enumerate(ops, 1) if i not in seen]


def new_node(rng, kinds, kw, counter, n_io=1):
    counter[0] += 1
    if n_io == 1:
        k = rng.choice(["t", "neg", "cmul", "lshift", "shift", "rshift", "imul"])
        if kw["mods"] != "j" and k == "imul":
            k = "t"
    else:
        k = {2: rng.choice(["r2bfly", "sym2p", "par2p"]), 3: "ser3p", 4: "r4bfly"}[n_io]
    v = {"t": rng.choice([0, 0, 1, 0.5]), "cmul": rng.choice(kw["coef"]),
         "lshift": rng.randint(0, 2), "rshift": rng.randint(0, 2),
         "shift": rng.randint(-2, 2), "sym2p": rng.choice([0.5, -1, 0]),
         "par2p": rng.choice([0.5, 1, 2]), "ser3p": 0.5}.get(k, 0)
    nd = {"k": k, "v": v, "w": 1 if k == "ser3p" else 0, "src": [],
          "name": f"x{counter[0]}"}
    return nd


def same_io(rng, a, b, kw, counter):
    """A random node with a inputs and b outputs."""
    cand = [k for k in gen.FIELD if gen.KINDS[k] == (a, b) and k != "ser2p"]
    if not cand:
        return None
    counter[0] += 1
    k = rng.choice(cand)
    v, w = 0, 0
    if k in ("cmul", "r2difbfly", "r2ditbfly", "r2tfbfly"):
        v, w = rng.choice(kw["coef"]), rng.choice(kw["coef"]) if k == "r2tfbfly" else 0
    elif k in ("addsub", "mad", "mads", "shiftaddsub"):
        v, w = rng.randint(0, 1), rng.randint(0, 1) if k == "mads" else 0
    elif k in ("lshift", "rshift"):
        v = 1
    elif k in ("shift", "sym2p"):
        v = -1
    elif k in ("par2p", "rfs3p"):
        v = 0.5
    elif k == "ser3p":
        v, w = 0.5, 1
    return {"k": k, "v": v, "w": w, "sh": 1 if k == "shiftaddsub" else 0, "src": [],
            "name": f"x{counter[0]}"}


def node_rec(nd):
    n = flow._node(nd["k"], nd["v"], nd.get("w", 0), M, nd.get("j", 0), nd.get("so", 0),
                   nd.get("sh", 0))
    n["src"] = []
    return n


def choose(rng, sfg, kw, counter):
    """(event, thunk) or None: one applicable transformation of the real graph."""
    import b_asic as B

    ops = []
    g = flow.of_sfg(sfg, M, ops)
    idx = {id(o): i for i, o in enumerate(ops, 1)}
    top = [o for o in sfg.operations if id(o) in idx]
    mid = [o for o in top if not isinstance(o, (B.Input, B.Output))]
    nested = [o for o in sfg.operations if isinstance(o, B.SFG)]
    e = {"op": "", "i": 0, "ports": [], "nd": node_rec({"k": "neg", "v": 0}), "n": 0,
         "targets": [], "to": "", "exact": True, "extra": 0, "drop": []}
    z = rng.choice(["copy", "after", "after", "afterport", "afterall", "aftersig", "before",
                    "beforeport", "beforeall", "beforesig", "replace", "replacesfg",
                    "remove", "remove", "extract", "extract", "rw_addsub", "rw_sas",
                    "rw_csd", "rw_shift", "join", "simplify", "swap", "swap", "expand",
                    "unfold", "flatten", "dupdelay", "insertop"])
    if nested and rng.random() < 0.5:
        z = "flatten"
    if not mid:
        return None
    if any(n["k"] == "div" for n in g["nodes"]):  # other divisors may be zero
        z = rng.choice(["copy", "flatten", "extract", "expand", "simplify", "swap"])
    if z == "copy":
        e["op"] = "copy"
        return e, g, lambda: rng.choice([sfg, sfg.copy])()
    if z == "flatten":
        e["op"] = "flatten"
        return e, g, lambda: sfg.flatten()
    if z == "expand":
        e["op"] = "expand"
        if any(n["k"] in ("ser2p",) for n in g["nodes"]):
            return None
        e["drop"] = "*"
        return e, g, lambda: sfg.flatten(expand=True)
    if z in ("after", "afterport", "afterall", "aftersig", "insertop"):
        o = rng.choice([x for x in top if x.output_count])
        i = idx[id(o)]
        e["i"] = i
        if z == "afterall":
            if o.output_count not in (2, 3, 4):
                return None
            nd = new_node(rng, None, kw, counter, o.output_count)
            e["op"], e["ports"] = "insafterall", list(range(1, o.output_count + 1))
            e["nd"] = node_rec(nd)
            return e, g, lambda: sfg.insert_operation_after(o.graph_id, gen.make_op(nd))
        nd = new_node(rng, None, kw, counter)
        e["nd"] = node_rec(nd)
        e["op"] = "insafter"
        key = rng.choice([str(o.graph_id), str(o.name)]) if len(
            sfg.find_by_name(o.name)) == 1 and o.name else str(o.graph_id)
        if z == "after":
            e["ports"] = list(range(1, o.output_count + 1))
            return e, g, lambda: sfg.insert_operation_after(key, gen.make_op(nd))
        p = rng.randrange(o.output_count)
        if z in ("afterport", "insertop"):
            e["ports"] = [p + 1]
            if z == "insertop":
                return e, g, lambda: sfg.insert_operation(gen.make_op(nd),
                                                          f"{o.graph_id}.{p}")
            if rng.random() < 0.5:
                return e, g, lambda: sfg.insert_operation_after(
                    f"{o.graph_id}.{p}", gen.make_op(nd))
            return e, g, lambda: sfg.insert_operation_after(key, gen.make_op(nd), port=p)
        if not o.output(p).signals:
            return None
        s = rng.choice(o.output(p).signals)
        d = s.destination.operation
        if id(d) not in idx:
            return None
        e["op"], e["i"], e["ports"] = "insbefore", idx[id(d)], [s.destination.index + 1]
        f = rng.choice([sfg.insert_operation_after, sfg.insert_operation_before])
        return e, g, lambda: f(s.graph_id, gen.make_op(nd))
    if z in ("before", "beforeport", "beforeall", "beforesig"):
        o = rng.choice([x for x in top if x.input_count])
        i = idx[id(o)]
        e["i"] = i
        if z == "beforeall":
            if o.input_count not in (2, 3, 4):
                return None
            nd = new_node(rng, None, kw, counter, o.input_count)
            e["op"] = "insbeforeall"
            e["nd"] = node_rec(nd)
            return e, g, lambda: sfg.insert_operation_before(o.graph_id, gen.make_op(nd))
        nd = new_node(rng, None, kw, counter)
        e["nd"] = node_rec(nd)
        e["op"] = "insbefore"
        if z == "before":
            e["ports"] = list(range(1, o.input_count + 1))
            return e, g, lambda: sfg.insert_operation_before(o.graph_id, gen.make_op(nd))
        p = rng.randrange(o.input_count)
        e["ports"] = [p + 1]
        if z == "beforesig":
            s = o.input(p).signals[0]
            f = rng.choice([sfg.insert_operation_after, sfg.insert_operation_before])
            return e, g, lambda: f(s.graph_id, gen.make_op(nd))
        if rng.random() < 0.5:
            return e, g, lambda: sfg.insert_operation_before(
                f"{o.graph_id}.{p}", gen.make_op(nd))
        return e, g, lambda: sfg.insert_operation_before(o.graph_id, gen.make_op(nd), port=p)
    if z == "replace":
        o = rng.choice(mid)
        if isinstance(o, B.Delay) and closes(g, idx[id(o)]):
            return None
        nd = same_io(rng, o.input_count, o.output_count, kw, counter)
        if nd is None:
            return None
        e["op"], e["i"], e["nd"] = "replace", idx[id(o)], node_rec(nd)
        e["drop"] = [str(o.name)]
        return e, g, lambda: sfg.replace(o.graph_id, gen.make_op(nd))
    if z == "replacesfg":
        o = rng.choice([x for x in mid if not isinstance(x, B.Delay)] or [None])
        if o is None:
            return None
        e["op"] = "copy"
        # a nested graph computing the same function
        e["op"], e["drop"] = "replacesfg", [str(o.name)]
        return e, g, lambda: sfg.replace(o.graph_id, o.to_sfg())
    if z == "remove":
        cand = [x for x in mid if x.input_count == x.output_count]
        if not cand:
            return None
        o = rng.choice(cand)
        i = idx[id(o)]
        if any(s == i for s, _ in g["nodes"][i - 1]["src"]):
            return None
        if isinstance(o, B.Delay) and closes(g, i):
            return None
        if loses(g, i):
            return None
        e["op"], e["i"], e["drop"] = "remove", i, [str(o.name)]
        return e, g, lambda: sfg.remove_operation(o.graph_id)
    if z == "extract":
        k = rng.randint(1, min(3, len(mid)))
        t = [str(o.graph_id) for o in rng.sample(mid, k)]
        e["op"] = "extract"
        return e, g, lambda: sfg.extract(t)
    if z.startswith("rw_"):
        src, to, exact = {
            "rw_addsub": (["add", "sub"], B.AddSub, True),
            "rw_sas": (["add", "sub", "addsub"], B.ShiftAddSub, True),
            "rw_csd": (["cmul"], B.ShiftAddSub, False),
            "rw_shift": (["cmul"], B.Shift, False),
        }[z]
        cand = [o for o in top if str(o.type_name()) in src
                and (exact or not isinstance(o.value, complex))]
        if not cand or nested:
            return None
        ts = rng.sample(cand, rng.randint(1, len(cand)))
        how = rng.random()
        kinds = {str(o.type_name()) for o in ts}
        arg = [rng.choice([o, str(o.graph_id)]) for o in ts]
        if how < 0.3 and len(kinds) == 1:
            cls = type(ts[0])
            ts = [o for o in top if type(o) is cls]
            if all(exact or not isinstance(o.value, complex) for o in ts):
                arg = cls
            else:
                return None
        elif how < 0.5:
            ts, arg = ts[:1], arg[0]
        e.update(op="rewrite", targets=[idx[id(o)] for o in ts], exact=exact,
                 to={"AddSub": "addsub", "ShiftAddSub": "shiftaddsub",
                     "Shift": "shift"}[to.__name__])
        e["drop"] = [str(o.name) for o in ts]
        return e, g, lambda: sfg.rewrite(to, arg)
    if z == "join":
        cand = [o for o in mid if str(o.type_name()) == "imul" and all(
            str(s.destination.operation.type_name()) in ("add", "sub", "addsub",
                                                         "shiftaddsub")
            for s in o.output(0).signals)]
        if not cand or nested:
            return None
        o = rng.choice(cand)
        ds = [s.destination.operation for s in o.output(0).signals]
        e["op"], e["extra"] = "join", 2 * len(ds)
        e["drop"] = [str(o.name)] + [str(d.name) for d in ds]
        e["_join"] = [[s.destination.index, d.shift_output] for s, d in
                      zip(o.output(0).signals, ds)]
        return e, g, lambda: sfg.join(o.graph_id, "forward")
    if z == "simplify":
        e["op"] = "simplify"
        e["drop"] = [str(o.name) for o in top if isinstance(o, B.Delay)]
        return e, g, lambda: sfg.simplify_delay_element_placement()
    if z == "dupdelay":
        # two delays in parallel behind one port, then simplify
        o = rng.choice([x for x in top if x.output_count and not isinstance(x, B.Output)])
        p = o.output(rng.randrange(o.output_count))
        if p.signal_count < 2 or nested:
            return None
        v = rng.choice([0, 0, 1])
        vs = [v if rng.random() < 0.7 else 0.5 for _ in p.signals]
        ids = [str(s.graph_id) for s in p.signals]
        e["op"] = "dup"
        return e, g, (ids, vs)
    if z == "swap":
        cand = [o for o in mid if o.is_swappable and str(o.type_name()) not in ("ser2p",)]
        if not cand:
            return None
        o = rng.choice(cand)
        e["op"] = "swap"
        e["drop"] = [str(o.name)]

        def thunk():
            c = sfg()
            c.swap_io_of_operation(o.graph_id)
            return c
        return e, g, thunk
    if z == "unfold":
        if nested or len(g["nodes"]) > 12:
            return None
        return None
    return None


def real_outputs(sfg, xs):
    from b_asic import Simulation

    sim = Simulation(sfg, [[r[i] for r in xs] for i in range(len(xs[0]))])
    out = []
    for _ in xs:
        out.append([num.field(v) for v in sim.step()])
    return out


def drop_outputs(rng, d):
    """Leave output ports of operations with several outputs unused."""
    for i in reversed(range(len(d["nodes"]))):
        n = d["nodes"]
        if n[i]["k"] != "out" or sum(x["k"] == "out" for x in n) < 2:
            continue
        s, p = n[i]["src"][0]
        if gen.KINDS[n[s]["k"]][1] < 2 or rng.random() < 0.3:
            continue
        rest = n[:i] + n[i + 1:]
        new = [{**x, "src": [(a - (a > i), b) for a, b in x["src"]]} for x in rest]
        if gen.alive({"nodes": new}):
            d["nodes"] = new


def history(arg):
    import b_asic as B

    rng = random.Random(arg["seed"])
    kw = kinds_kw(arg["mode"])
    d = gen.random_graph(rng, n_ops=rng.randint(2, 7), n_in=rng.randint(1, 2),
                         n_del=rng.randint(0, 3), n_const=rng.choice([0, 0, 1]),
                         n_out=rng.randint(1, 2), **kw)
    if rng.random() < 0.4:
        drop_outputs(rng, d)
    names(d)
    gen.default_latencies(rng, d, per_node=True)
    counter = [0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sfg = gen.build(d)
        g0 = flow.of_sfg(sfg, M)
        steps = []
        tries = 0
        queue = []
        while len(steps) < arg["len"] and tries < 40:
            tries += 1
            if queue:
                c = queue.pop(0)(sfg)
            else:
                c = choose(rng, sfg, kw, counter)
            if c is None:
                continue
            e, g, thunk = c
            e["_g"] = g
            if e["op"] == "dup":
                queue = [ins_sig(s, v) for s, v in zip(*thunk)]
                queue.append(simp)
                continue
            before = snapshot(sfg)
            at0 = attrs(sfg)
            try:
                res = thunk()
            except ValueError:
                if e["op"] != "join":  # not every pair can be joined
                    raise
                if snapshot(sfg) != before:
                    raise RuntimeError("a refused join changed the graph") from None
                continue
            after = snapshot(sfg)
            e["before"], e["after"] = ("", "") if before == after else (before, after)
            drop = e.pop("drop")
            e["attr0"] = at0 if drop != "*" else {}
            e["attr"] = attrs(res)
            if e["op"] == "flatten":  # what does not reach an output may be dropped
                drop = dead_names(sfg, e["_g"])
            e.pop("_g", None)
            e["keep"] = sorted(set(e["attr0"]) - set(drop if drop != "*" else []))
            if e["op"] != "copy":  # identifiers may be renumbered
                for a in (e["attr"], e["attr0"]):
                    for k in a:
                        a[k] = sorted(x[1:] for x in a[k])
            e["h"] = flow.of_sfg(res, M)
            n_in = len(e["h"]["ins"])
            xs = flow.random_x(rng, n_in, 6, M, arg["mode"] == "cplx")
            e["X"] = [[num.field(v) for v in r] for r in xs]
            e["y"] = []
            hops = []
            flow.of_sfg(res, M, hops)
            if not any(isinstance(o, B.SFG) for o in res.operations):
                raws = [dict(zip("vw", flow.params(o)[:2])) for o in hops]
                ln = min(4, flow.safe_length(e["h"], raws, 4))
                if ln:
                    e["y"] = real_outputs(res, xs[:ln])
            e.pop("_join", None)
            steps.append(e)
            sfg = res
            if len(e["h"]["nodes"]) > 30:
                break
    return {"g": g0, "steps": steps, "_desc": d, "_seed": arg["seed"]} if steps else None


def ins_sig(sid, v):
    def f(sfg):
        import b_asic as B

        s = sfg.find_by_id(sid)
        if s is None:
            return None
        ops = []
        g = flow.of_sfg(sfg, M, ops)
        idx = {id(o): i for i, o in enumerate(ops, 1)}
        d = s.destination.operation
        e = {"op": "insbefore", "i": idx[id(d)], "ports": [s.destination.index + 1],
             "nd": node_rec({"k": "t", "v": v}), "n": 0, "targets": [], "to": "",
             "exact": True, "extra": 0, "drop": []}
        return e, g, lambda: sfg.insert_operation_after(sid, B.Delay(initial_value=v))
    return f


def simp(sfg):
    import b_asic as B

    e = {"op": "simplify", "i": 0, "ports": [], "nd": node_rec({"k": "neg", "v": 0}),
         "n": 0, "targets": [], "to": "", "exact": True, "extra": 0,
         "drop": [str(o.name) for o in sfg.operations if isinstance(o, B.Delay)]}
    return e, flow.of_sfg(sfg, M), lambda: sfg.simplify_delay_element_placement()


def check(ctx):
    ctx.assumptions += [
        "functions are compared in Z_40961 (dyadic complex parameters, j mapped to a "
        "square root of -1) on random input sequences of length 6 from the initial state",
    ]
    n = ctx.scale(2400, 24000)
    args = [{"seed": f"{ctx.seed}/{i}", "mode": "cplx" if i % 3 == 0 else "real",
             "len": ctx.scale(4, 6)} for i in range(n)]
    recs = ctx.drive(history, args)
    for t in recs:
        for s in t["steps"]:
            ctx.count("edit_" + s["op"])
    ctx.validate("XFormTrace", recs, name="chains", weight=lambda t: sum(
        len(s["h"]["nodes"]) for s in t["steps"]))
