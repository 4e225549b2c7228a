"""C20: saving and loading designs; specs Dataflow, PersistTrace."""
import os
import pickle
import random
import tempfile
import warnings

from checks import c13, c14
from vlib import flow, gen, num, schedlib

M = num.P


def par(x):
    """A parameter value as a string that does not depend on its representation."""
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(map(par, x)) + ")"
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return repr(x)
    if isinstance(x, (int, float)) and x == int(x) and abs(x) < 1e15:
        return str(int(x))
    if isinstance(x, complex):
        return repr(complex(x.real + 0.0, x.imag + 0.0))
    return repr(x)


def nodes_of(sfg, ops=None):
    from b_asic import SFG

    out = []
    if ops is None:
        ops = list(sfg.operations)
        ops += [o for o in sfg.input_operations if o not in ops]
    for o in ops:
        src = []
        for p in o.inputs:
            s = p.signals[0] if p.signals else None
            so = s.source if s else None
            src.append([str(so.operation.graph_id) if so else "",
                        so.index if so else -1, str(s.graph_id) if s else "",
                        str(s.name) if s else "", par(s.param("bits")) if s else ""])
        nested = isinstance(o, SFG)
        pars = "" if nested else ";".join(
            f"{k}={par(v)}" for k, v in sorted(o.params.items()))
        if str(o.type_name()) == "t":
            pars += ";init=" + par(o.initial_value)
        out.append({
            "id": str(o.graph_id), "name": str(o.name), "k": str(o.type_name()),
            "par": pars, "src": src,
            "lat": [[a, par(b)] for a, b in sorted(o.latency_offsets.items())],
            "ex": par(o.execution_time),
            "sub": [] if not nested else [{
                "nodes": sorted(nodes_of(o), key=lambda n: n["id"]),
                "ins": [str(i.graph_id) for i in o.input_operations],
                "outs": [str(i.graph_id) for i in o.output_operations]}],
        })
    return sorted(out, key=lambda n: n["id"])


def design(sfg, sch=None, pos=None, m=M):
    d = {
        "name": str(sfg.name), "nodes": nodes_of(sfg),
        "ins": [str(i.graph_id) for i in sfg.input_operations],
        "outs": [str(i.graph_id) for i in sfg.output_operations],
        "T": 0, "cyc": False, "S": [], "L": [], "slack": [],
        "pos": [[str(k), *map(par, v)] for k, v in sorted((pos or {}).items())],
    }
    if m is not None:
        d["g"] = flow.of_sfg(sfg, m)
    if sch is not None:
        ids, ops, edges = schedlib.struct(sch)
        laps = sch.laps
        d["T"], d["cyc"] = int(sch.schedule_time), bool(sch.cyclic)
        d["S"] = [[str(k), int(v)] for k, v in sorted(sch.start_times.items())]
        d["L"] = sorted([ids[v - 1], q, int(laps.get(s, 0))] for s, _, _, v, q in edges)
        d["slack"] = [[i, schedlib.fin(sch.forward_slack(i)),
                       schedlib.fin(sch.backward_slack(i))] for i in ids]
        # the delay-free graph; the identifiers of its signals are not saved, nor are
        # those of the delays of the reconstructed graph
        d["nodes"] = nodes_of(None, list(ops.values()))
        for n in d["nodes"]:
            for s in n["src"]:
                s[2] = ""
    return d


NAMES = ["", "x", "my filter", "a-b", "it's", 'say "hi"', "back\\slash", "lambda", "2nd",
         "Input", "in0", "sfg0", "out 1", "näme", "{x}", "%s", "#", "a\tb"]
VALUES = [0, 1, -1, 0.1, 1 / 3, -2.5e-17, 1e22, 3 + 4j, -0.5j, 0.25, 7]


def weird_values(rng, d):
    import numpy as np

    for n in d["nodes"]:
        if n["k"] == "sfg":
            weird_values(rng, n["sub"])
        elif n["k"] in ("cmul", "c", "t", "r2difbfly", "r2ditbfly") and rng.random() < 0.6:
            v = rng.choice(VALUES)
            n["v"] = v if rng.random() < 0.7 else (
                np.complex128(v) if isinstance(v, complex) else np.float64(v))
        elif n["k"] == "ser3p" and rng.random() < 0.5:
            n["v"], n["w"] = np.float64(0.1), np.float64(0.7)


def weird_names(rng, d):
    for n in d["nodes"]:
        if n["k"] == "sfg":
            weird_names(rng, n["sub"])
        if rng.random() < 0.6:
            n["name"] = rng.choice([x for x in NAMES if x not in ("in0", "sfg0")])


def edit(rng, sfg):
    """An edit that gives identifiers another order."""
    from b_asic import Delay, Negation

    ops = [o for o in sfg.operations if o.output_count == 1 and str(o.type_name()) != "sfg"]
    o = rng.choice(ops)
    return str(o.graph_id), rng.choice([Negation, Delay]), rng.choice(["", "new", "a'b"])


def apply_edit(sfg, e):
    return sfg.insert_operation_after(e[0], e[1](name=e[2]))


def save_load_sfg(sfg, path, pos):
    from b_asic.save_load_structure import sfg_to_python

    kw = {}
    if pos is not None:
        kw["suffix"] = f"positions = {pos}"
    with open(path, "w") as f:
        f.write(sfg_to_python(sfg, **kw))


def case_sfg(arg):
    from b_asic.save_load_structure import python_to_sfg

    rng = random.Random(arg["seed"])
    mode = arg["mode"]
    kw = c14.kinds_kw("cplx" if mode % 2 else "real")
    d = gen.random_graph(rng, n_ops=rng.randint(3, 8), n_in=rng.randint(1, 3),
                         n_del=rng.randint(0, 3), n_const=rng.choice([0, 1, 2]),
                         n_out=rng.randint(1, 3), **kw)
    if mode >= 2:
        for _ in range(rng.randint(1, 3)):
            c13.nest(rng, d, kw, rng.randint(1, 2))
    exact = rng.random() < 0.6
    if not exact:
        weird_values(rng, d)
    c13.names(d)
    if rng.random() < 0.5:
        weird_names(rng, d)
    gen.default_latencies(rng, d, in_off=True, per_node=True, lats=(0, 1, 2, 5),
                          execs=(0, 1, 3))
    for n in d["nodes"]:
        if n["k"] == "sfg":
            n["lat"] = None
            n.pop("exec", None)
        elif rng.random() < 0.2 and n.get("lat") and n["k"] != "c":
            n["exec"] = None
            n["lat"] = {} if rng.random() < 0.5 else n["lat"]
    m = M if exact else None
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sfg = gen.build(d, rng.choice(NAMES))
        for n in nested(sfg):
            if rng.random() < 0.5:
                n.set_latency_offsets({f"in{i}": 0 for i in range(n.input_count)} |
                                      {f"out{i}": 2 for i in range(n.output_count)})
                n.execution_time = 1
        if rng.random() < 0.4:
            for s in (p.signals[0] for o in sfg.operations for p in o.inputs):
                if rng.random() < 0.5:
                    s.name = rng.choice(["", "sig 1", "it's"])
        for _ in range(rng.choice([0, 0, 1, 2])):
            sfg = apply_edit(sfg, edit(rng, sfg))
        pos = None
        if rng.random() < 0.5:
            pos = {str(o.graph_id): (rng.randint(-99, 99), rng.randint(0, 99),
                                     rng.random() < 0.5) for o in sfg.operations}
        t = {"d": fix(design(sfg, pos=pos, m=m)), "steps": [], "_desc": d,
             "_seed": arg["seed"]}
        n_files = 0
        for k in range(arg["len"]):
            if n_files == 0 or rng.random() < 0.35:
                f = rng.randint(0, 1) if n_files else 0
                path = os.path.join(tmp, f"f{f}.py")
                save_load_sfg(sfg, path, pos)
                n_files = max(n_files, f + 1)
                t["steps"].append({"op": "save", "f": f, "X": [], "y": [],
                                   "d": fix(design(sfg, pos=pos, m=m))})
            elif rng.random() < 0.3:
                e = edit(rng, sfg)
                sfg = apply_edit(sfg, e)
                t["steps"].append({"op": "edit", "f": 0, "X": [], "y": [],
                                   "d": fix(design(sfg, pos=pos, m=m))})
            elif rng.random() < 0.3:
                path = os.path.join(tmp, "lock.py")
                save_load_sfg(sfg, path, pos)
                other, p2 = python_to_sfg(path)
                e = edit(rng, sfg)
                sfg, other = apply_edit(sfg, e), apply_edit(other, e)
                t["steps"].append({"op": "lockstep", "f": 0,
                                   "d0": fix(design(sfg, pos=pos, m=m)),
                                   "d": fix(design(other, pos=p2, m=m)),
                                   **response(rng, other, m)})
                sfg, pos = other, p2 or None
            else:
                f = rng.randrange(n_files)
                path = os.path.join(tmp, f"f{f}.py")
                sfg, p = python_to_sfg(path if rng.random() < 0.7 else
                                       __import__("pathlib").Path(path))
                pos = p or None
                t["steps"].append(dict(op="load", f=f, d=fix(design(sfg, pos=pos, m=m)),
                                       **response(rng, sfg, m)))
        return t


def nested(sfg):
    from b_asic import SFG

    return [o for o in sfg.operations if isinstance(o, SFG)]


def response(rng, sfg, m):
    """Simulated input/output sequences, if they are exact."""
    if m is None:
        return {"X": [], "y": []}
    ops = []
    g = flow.of_sfg(sfg, m, ops)
    raws = [dict(zip("vw", flow.params(o)[:2])) for o in ops]
    ln = min(4, flow.safe_length(g, raws, 4))
    if not ln:
        return {"X": [], "y": []}
    xs = flow.random_x(rng, len(sfg.input_operations), ln, m, True)
    return {"X": [[num.field(v) for v in r] for r in xs], "y": c14.real_outputs(sfg, xs)}


G0 = {"nodes": [], "order": [], "ins": [], "outs": [], "m": 0}


def fix(d):
    d.setdefault("g", G0)
    return d


# ------------------------------------------------------------------ schedules
def load_schedule(path):
    if path.endswith(".bsc"):
        with open(path, "rb") as f:
            return pickle.load(f)
    ns = {}
    with open(path) as f:
        exec(compile(f.read(), path, "exec"), ns)
    from b_asic import Schedule

    return next(v for v in ns.values() if isinstance(v, Schedule))


def save_schedule(sch, path):
    from b_asic.save_load_structure import schedule_to_python

    if path.endswith(".bsc"):
        with open(path, "wb") as f:
            pickle.dump(sch, f)
    else:
        with open(path, "w") as f:
            f.write(schedule_to_python(sch))


def sched_edit(rng, sch):
    ids = sorted(str(k) for k in sch.start_times)
    z = rng.random()
    gid = rng.choice(ids)
    if z < 0.45:
        b, f = sch.slacks(gid)
        lo, hi = max(-3, -schedlib.fin(b)), min(3, schedlib.fin(f))
        return "move", gid, rng.randint(min(lo, 0), max(hi, 0))
    if z < 0.6:
        return "rotate", "", rng.randint(-2, 2)
    if z < 0.75:
        return "time", "", sch.get_max_end_time() + rng.randint(0, 2)
    if z < 0.85:
        return "res", "", rng.randint(2, 3)
    if z < 0.93:
        return "asap", gid, 0
    return "alap", gid, 0


def apply_sched(sch, e):
    k, gid, n = e
    try:
        if k == "move":
            sch.move_operation(gid, n)
        elif k == "rotate":
            if sch.cyclic:
                sch.rotate_forward() if n > 0 else sch.rotate_backward()
        elif k == "time":
            sch.set_schedule_time(n)
        elif k == "res":
            sch.increase_time_resolution(n)
        elif k == "asap":
            sch.move_operation_asap(gid)
        else:
            sch.move_operation_alap(gid)
    except ValueError:
        return False
    return True


def case_sched(arg):
    rng = random.Random(arg["seed"])
    d = schedlib.random_sched_desc(rng, kinds=gen.FIELD_LINEAR[:8], big=rng.random() < 0.5)
    c13.names(d)
    if rng.random() < 0.4:
        weird_names(rng, d)
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sfg = gen.build(d, rng.choice(NAMES))
        cyc = rng.random() < 0.6
        sch = schedlib.schedule_of(sfg, rng.choice(schedlib.SCHEDS), cyclic=cyc)
        if rng.random() < 0.5:
            apply_sched(sch, ("time", "", sch.schedule_time + rng.randint(0, 3)))
        for _ in range(rng.randint(0, 5)):
            apply_sched(sch, sched_edit(rng, sch))

        def des(s):
            return fix(design(s.sfg, s))
        t = {"d": des(sch), "steps": [], "_desc": d, "_seed": arg["seed"]}
        saved = []
        for _ in range(arg["len"]):
            z = rng.random()
            if not saved or z < 0.35:
                f = rng.randint(0, 1)
                path = os.path.join(tmp, f"f{f}" + rng.choice([".py", ".py", ".bsc"]))
                save_schedule(sch, path)
                saved = [x for x in saved if x[0] != f] + [(f, path)]
                t["steps"].append({"op": "save", "f": f, "X": [], "y": [], "d": des(sch)})
            elif z < 0.55:
                apply_sched(sch, sched_edit(rng, sch))
                t["steps"].append({"op": "edit", "f": 0, "X": [], "y": [], "d": des(sch)})
            elif z < 0.75:
                path = os.path.join(tmp, "lock" + rng.choice([".py", ".py", ".bsc"]))
                save_schedule(sch, path)
                other = load_schedule(path)
                for _ in range(rng.randint(1, 4)):
                    e = sched_edit(rng, sch)
                    if apply_sched(sch, e) != apply_sched(other, e):
                        raise RuntimeError(f"the loaded schedule does not act alike: {e}")
                t["steps"].append({"op": "lockstep", "f": 0, "d0": des(sch),
                                   "d": des(other), **response(rng, other.sfg, M)})
                sch = other
            else:
                f, path = rng.choice(saved)
                sch = load_schedule(path)
                t["steps"].append(dict(op="load", f=f, d=des(sch),
                                       **response(rng, sch.sfg, M)))
        return t


def check(ctx):
    ctx.assumptions += [
        "operations are those exported by b_asic; parameters are Python or NumPy numbers",
        "functions are compared for exactly representable parameters; structure always",
    ]
    n = ctx.scale(700, 8000)
    recs = ctx.drive(case_sfg, [{"seed": f"{ctx.seed}/{i}", "mode": i % 4, "len": 5}
                                for i in range(n)])
    for t in recs:
        for s in t["steps"]:
            ctx.count("sfg_" + s["op"])
    ctx.validate("PersistTrace", recs, name="graphs")
    recs = ctx.drive(case_sched, [{"seed": f"{ctx.seed}/s{i}", "len": 6}
                                  for i in range(n)])
    for t in recs:
        for s in t["steps"]:
            ctx.count("schedule_" + s["op"])
    ctx.validate("PersistTrace", recs, name="schedules")
