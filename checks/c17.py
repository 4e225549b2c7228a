"""C17: identities and lookups; specs Ids, IdModel, IdTrace."""
import json
import random
import warnings

from vlib import gen


def universe(sfg):
    """All components of a graph, found through ports and signals."""
    seen, todo = {}, [*sfg.input_operations, *sfg.output_operations]
    while todo:
        c = todo.pop(0)
        if id(c) in seen:
            continue
        seen[id(c)] = c
        if hasattr(c, "inputs"):
            todo += [s for p in [*c.inputs, *c.outputs] for s in p.signals]
        else:
            todo += [p.operation for p in (c.source, c.destination) if p is not None]
    return list(seen.values())


def table(sfg):
    out = []
    for c in universe(sfg):
        if hasattr(c, "inputs"):
            ends = [[[str(s.graph_id) for s in p.signals] for p in c.inputs],
                    [sorted(str(s.graph_id) for s in p.signals) for p in c.outputs]]
        else:
            ends = [str(p.operation.graph_id) + "." + str(p.index)
                    for p in (c.source, c.destination)]
        out.append(repr([str(c.graph_id), str(c.name), str(c.type_name()), ends]))
    return sorted(out)


def look(sfg):
    import b_asic as B
    from b_asic.graph_component import AbstractGraphComponent, GraphComponent

    cs = universe(sfg)
    num = {id(c): i for i, c in enumerate(cs, 1)}
    recs = []
    for c in cs:
        op = hasattr(c, "inputs")
        recs.append({"id": str(c.graph_id), "name": str(c.name), "t": str(c.type_name()),
                     "cls": [k.__name__ for k in type(c).__mro__], "op": op,
                     "n": c.output_count if op else 0})

    def ix(q):
        return [num.get(id(x), -1) for x in q]
    ids = sorted({r["id"] for r in recs})
    names = sorted({r["name"] for r in recs})
    types = sorted({r["t"] for r in recs})
    some = ids[:1] + [i + "0" for i in ids[:2]] + [i[:-1] for i in ids[:3]]
    probe = sorted({t[:-1] for t in types} | {t + "0" for t in types[:2]}
                   | {"a", "add", "sub", "s", "addsub", "shift", "mul", "r2", ".", "x"})
    byid = []
    for k in sorted({*ids, *some, *names, "add0", "nope"}):
        c = sfg.find_by_id(k)
        byid.append({"key": k, "ret": -1 if c is None else num.get(id(c), -2)})
    clss = {type(c).__name__: type(c) for c in cs}
    for k in (B.Input, B.Output, B.Delay, B.Signal, B.Addition, B.Subtraction, B.Constant,
              B.operation.Operation, B.operation.AbstractOperation, GraphComponent,
              AbstractGraphComponent, B.SFG):
        clss[k.__name__] = k
    keys = []
    for n in names:
        for p in (0, 1):
            keys.append({"key": n, "port": p, "ret": [
                str(x) for x in sfg.find_result_keys_by_name(n, p)]})
    return {
        "kind": "look", "cs": recs, "byid": byid,
        "byname": [{"key": n, "ret": ix(sfg.find_by_name(n))}
                   for n in sorted({*names, *ids[:3], "nope"})],
        "bytn": [{"key": t, "ret": ix(sfg.find_by_type_name(t))}
                 for t in sorted({*types, *probe})],
        "bycls": [{"key": k, "ret": ix(sfg.find_by_type(v))}
                  for k, v in sorted(clss.items())],
        "components": ix(sfg.components), "operations": ix(sfg.operations),
        "split": ix(sfg.split()),
        "usedids": sorted(str(x) for x in sfg.get_used_graph_ids()),
        "usedtn": [str(x) for x in sfg.get_used_type_names()],
        "usedcls": [k.__name__ for k in sfg.get_used_operation_types()],
        "keys": keys,
    }


def signals(ops):
    return [s for o in ops for p in o.inputs for s in p.signals]


def construct(ops, comps, reqs, off, by_signal):
    """A graph whose components ask for identifiers; records requests and results."""
    import b_asic as B

    for i, (c, r) in enumerate(zip(comps, reqs)):
        c.name = f"u{i}"
        if r:
            c.graph_id = r
    ins = [o for o in ops if isinstance(o, B.Input)]
    outs = [o for o in ops if isinstance(o, B.Output)]
    known = comps
    if by_signal:
        sfg = B.SFG(input_signals=[s for o in ins for s in o.output(0).signals],
                    outputs=outs, id_number_offset=off)
        known = [c for c in comps if c not in ins]
    else:
        sfg = B.SFG(ins, outs, id_number_offset=off)
    by = {}
    for c in universe(sfg):
        by.setdefault(str(c.name), []).append(c)
    cs, ids = [], []
    for c in known:
        i = comps.index(c)
        got = by.pop(f"u{i}", [])
        if len(got) != 1:
            raise AssertionError(f"component u{i} occurs {len(got)} times in the graph")
        cs.append({"t": str(c.type_name()), "req": str(reqs[i])})
        ids.append(str(got[0].graph_id))
    for rest in by.values():  # inputs made for signals
        for c in rest:
            cs.append({"t": str(c.type_name()), "req": ""})
            ids.append(str(c.graph_id))
    return sfg, {"kind": "new", "cs": cs, "ids": ids, "off": off,
                 "rep": int(sfg.id_number_offset)}


def replay(arg):
    """Component sets of the design model as chains or in parallel."""
    import b_asic as B

    out = []
    for c in arg["cs"]:
        rng = random.Random(f"{arg['seed']}/{json.dumps(c)}")
        steps = []
        for way in ("chain", "par"):
            first = B.Input()
            ops, last = [first], []
            cur = first
            mid = []
            for x in c["cs"]:
                o = {"neg": B.Negation, "abs": B.Absolute}[x["t"]]()
                if way == "chain":
                    o.input(0).connect(cur)
                    cur = o
                else:
                    o.input(0).connect(first)
                    last.append(B.Output(o))
                ops.append(o)
                mid.append(o)
            if way == "chain":
                last.append(B.Output(cur))
            ops += last
            sig = signals(ops)
            comps = mid + [o for o in ops if o not in mid] + sig
            reqs = [x["req"] for x in c["cs"]] + [""] * (len(comps) - len(mid))
            sfg, s = construct(ops, comps, reqs, c["off"],
                               way == "chain" and rng.random() < 0.3)
            steps.append(s)
            if rng.random() < 0.2:
                steps.append(look(sfg))
        out.append({"steps": steps})
    return out


def case(arg):
    import b_asic as B

    from checks import c14

    rng = random.Random(arg["seed"])
    kw = c14.kinds_kw("real")
    d = gen.random_graph(rng, n_ops=rng.randint(1, 7), n_in=rng.randint(1, 2),
                         n_out=rng.randint(1, 2), n_del=rng.randint(0, 2),
                         n_const=rng.choice([0, 1]), **kw)
    c14.names(d)
    steps = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ops = []
        gen.build(d, ops=ops)
        if any(not o.output(0).signals for o in ops if isinstance(o, B.Input)):
            return None
        comps = ops + signals(ops)
        types = sorted({str(o.type_name()) for o in ops}) + ["s", "x", "add1_"]
        dens = rng.choice([0, 0.2, 0.5])
        reqs = [rng.choice(types) + rng.choice(["0", "1", "2", "7", "", "a"])
                if rng.random() < dens else "" for _ in comps]
        off = rng.choice([0, 0, 1, 3, 10])
        sfg, s = construct(ops, comps, reqs, off, rng.random() < 0.2)
        steps.append(s)
        pool = rng.choice([["", "a", "b", "add0"], [""], ["n%d" % i for i in range(40)]])
        for c in comps:
            c.name = rng.choice(pool)
        sfg = B.SFG([o for o in ops if isinstance(o, B.Input)],
                    [o for o in ops if isinstance(o, B.Output)], id_number_offset=off,
                    name="g")
        steps.append(look(sfg))
        counter = [0]
        for _ in range(arg["len"]):
            if rng.random() < 0.4:
                how = rng.choice(["call", "copy", "call"])
                new = sfg() if how == "call" else sfg.copy()
                steps.append({"kind": "same", "a": table(sfg), "b": table(new),
                              "what": how})
                steps.append({"kind": "same", "a": [str(sfg.id_number_offset)],
                              "b": [str(new.id_number_offset)], "what": "offset"})
            else:
                got = c14.choose(rng, sfg, kw, counter)
                if got is None or got[0]["op"] == "dup":
                    continue
                try:
                    new = got[2]()
                except (ValueError, TypeError, KeyError):
                    continue
                if not isinstance(new, B.SFG):
                    continue
            if any(not o.output(0).signals for o in new.input_operations):
                break
            steps.append(look(new))
            sfg = new
            if len(sfg.operations) > 40:
                break
    return {"steps": steps}


def gens(arg):
    """Histories of identifier generators."""
    from b_asic.sfg import GraphIDGenerator

    rng = random.Random(arg["seed"])
    G = []
    for _ in range(rng.randint(1, 3)):
        off = rng.choice([0, 0, 1, 5])
        used = set(rng.sample(["a0", "a1", "b0", "b2", "a5", "x"], rng.randint(0, 4))
                   ) if rng.random() < 0.6 else None
        g = GraphIDGenerator(off) if off or rng.random() < 0.5 else GraphIDGenerator()
        G.append((g, off, used, sorted(used or [])))
    calls = []
    for _ in range(rng.randint(1, 10)):
        i = rng.randrange(len(G))
        g, off, used, first = G[i]
        t = rng.choice(["a", "b", "ab", ""])
        r = g.next_id(t) if used is None else g.next_id(t, used)
        calls.append({"g": i, "t": t, "ret": str(r), "off": off, "used": first,
                      "rep": int(g.id_number_offset)})
    return {"steps": [{"kind": "gen", "calls": calls}]}


MODEL = "SPECIFICATION Spec\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    ctx.assumptions += ["graphs whose inputs all feed something"]
    r = ctx.model("IdModel", MODEL, files={"model.json": {
        "types": ["neg", "abs"], "reqs": ["", "neg0", "neg1", "abs0", "x"],
        "n": ctx.scale([1, 2, 3], [1, 2, 3, 4]), "offs": [0, 1]}})
    cs = sorted({x[3:] for x in r.lines if x.startswith("TR|")})
    cs = [json.loads(x) for x in cs]
    ctx.count("model_component_sets", len(cs))
    recs = ctx.drive(replay, [{"cs": cs[i:i + 20], "seed": ctx.seed}
                              for i in range(0, len(cs), 20)])
    ctx.validate("IdTrace", recs, name="model_sets")
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}", "len": 3 + i % 4}
                            for i in range(ctx.scale(500, 10000))])
    for t in recs:
        for s in t["steps"]:
            ctx.count("step_" + s["kind"])
    ctx.validate("IdTrace", recs, name="graphs")
    recs = ctx.drive(gens, [{"seed": f"{ctx.seed}/{i}"}
                            for i in range(ctx.scale(300, 5000))])
    ctx.validate("IdTrace", recs, name="generators")
