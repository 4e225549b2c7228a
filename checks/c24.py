"""C24: signal generators; specs Gen, GenModel, GenTrace."""
import json
import os
import random
import tempfile

from vlib import num

MODEL = """SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
"""
NODE = {"k": "", "a": 0, "b": 0, "vs": [], "x": 0, "y": 0}


def node(k, **kw):
    return {**NODE, "k": k, **kw}


def leaves(rng=None):
    """Leaves with their values (dyadic, given as numbers)."""
    if rng is None:
        return [node("impulse"), node("impulse", a=-1), node("step", a=1),
                node("const", vs=[-0.5]), node("const", vs=[2]),
                node("pad", vs=[3, -1, 0.25]), node("sin", a=1, b=0)]
    k = rng.choice(["impulse", "step", "const", "pad", "sin", "file", "pad"])
    if k in ("impulse", "step"):
        return node(k, a=rng.choice([0, 0, 1, 3, -2]))
    if k == "sin":
        return node(k, a=rng.choice([0, 1, 1, 2, 3, -1, 5]), b=rng.randint(-1, 3))
    n = 1 if k == "const" else rng.randint(0 if k == "pad" else 1, 5)
    return node(k, vs=[rng.choice([0, 1, -1, 2, 0.5, -0.75, 1.25, 3, 4, 1j, 1 - 0.5j, -2])
                       for _ in range(n)])


def unary(rng=None):
    if rng is None:
        return [node("delay", a=1), node("delay", a=-2), node("up", a=2, b=0),
                node("up", a=3, b=2), node("down", a=2, b=1), node("down", a=3, b=0)]
    k = rng.choice(["delay", "up", "down"])
    if k == "delay":
        return node(k, a=rng.randint(-3, 4))
    return node(k, a=rng.randint(1, 4), b=rng.randint(0, 4))


def build(rng, e, tmp):
    """The generator e in the code; operands of operators may be plain numbers."""
    import b_asic.signal_generator as S

    made = []
    for i, n in enumerate(e):
        k = n["k"]
        if k in ("impulse", "step"):
            cls = S.Impulse if k == "impulse" else S.Step
            g = cls(n["a"]) if n["a"] or rng.random() < 0.5 else cls()
        elif k == "const":
            g = S.Constant(n["vs"][0])
            if n["vs"][0] == 1 and rng.random() < 0.5:
                g = S.Constant()
        elif k == "pad":
            g = S.ZeroPad(list(n["vs"]))
        elif k == "file":
            path = os.path.join(tmp, f"f{i}.txt")
            with open(path, "w") as f:
                f.writelines(str(complex(v)).strip("()") + "\n" for v in n["vs"])
            g = S.FromFile(path)
        elif k == "sin":
            g = S.Sinusoid(n["a"] / 2, n["b"] / 2)
        elif k == "delay":
            a = made[n["x"] - 1]
            g = S.Delay(a) if n["a"] == 1 and rng.random() < 0.5 else S.Delay(a, n["a"])
        elif k in ("up", "down"):
            c = e[n["x"] - 1]
            a = made[n["x"] - 1]
            if c["k"] == "pad" and rng.random() < 0.5:
                a = list(c["vs"])  # sequences are padded
            cls = S.Upsample if k == "up" else S.Downsample
            g = cls(a, n["a"]) if not n["b"] and rng.random() < 0.5 else cls(a, n["a"], n["b"])
        else:
            a, b = made[n["x"] - 1], made[n["y"] - 1]
            ca, cb = e[n["x"] - 1], e[n["y"] - 1]
            if ca["k"] == "const" and rng.random() < 0.5:
                a = ca["vs"][0]
            elif cb["k"] == "const" and rng.random() < 0.5:
                b = cb["vs"][0]
            g = (a + b if k == "add" else a - b if k == "sub" else
                 a * b if k == "mul" else a / b)
        made.append(g)
    return made[-1]


def snap(v):
    """Sines of quarters are exact up to rounding of pi."""
    v = complex(v)
    r = [round(x * 2**24) / 2**24 for x in (v.real, v.imag)]
    if abs(r[0] - v.real) > 1e-6 or abs(r[1] - v.imag) > 1e-6:
        raise ValueError(f"inexact value {v}")
    return num.field(complex(*r))


def ask(g, t):
    try:
        return snap(g(t))
    except ZeroDivisionError:
        return -1


def traced(e):
    return [{**n, "k": "pad" if n["k"] == "file" else n["k"],
             "vs": [num.field(v) for v in n["vs"]]} for n in e]


def numbers(e):
    """Are numbers only combined somewhere (and so printed as an expression of numbers)?"""
    num = []
    for n in e:
        num.append(n["k"] == "const" or (n["y"] and num[n["x"] - 1] and num[n["y"] - 1]))
        if n["y"] and num[-1]:
            return True
    return False


def queries(rng, e, g, n, sim):
    import b_asic as B
    import b_asic.signal_generator as S

    steps = []
    ts = [rng.randint(-8, 14) for _ in range(n)]
    ts += rng.sample(ts, min(3, len(ts)))
    for t in ts:
        steps.append({"kind": "at", "t": t, "v": ask(g, t)})
    if not any(x["k"] == "file" for x in e) and not numbers(e):
        try:
            h = eval(str(g), {**vars(S)})  # noqa: S307
        except ZeroDivisionError:  # two numbers, divided at once
            h = None
        except Exception as x:
            raise RuntimeError(f"printed form {g} is no expression") from x
        if h is not None:
            vals = [(ask(h, t) if callable(h) else snap(h)) for t in range(-5, 10)]
            steps.append({"kind": "shown", "t": -5, "vs": vals})
    if sim and all(s["v"] >= 0 for s in steps if s["kind"] == "at"):
        i = B.Input()
        s = B.Simulation(B.SFG([i], [B.Output(i)]), [g])
        try:
            s.run_for(rng.randint(1, 9))
            s.run_for(3)
            steps.append({"kind": "sum", "t": 0, "vs": [snap(v) for v in s.results["out0"]]})
        except ZeroDivisionError:
            pass
    return steps


def dyadic(e):
    """Division only by values with a power of two as absolute value, times a unit."""
    ok = True
    for n in e:
        if n["k"] == "div":
            c = e[n["y"] - 1]
            ok &= c["k"] in ("impulse", "step") or (
                c["k"] in ("const", "pad", "file")
                and all(v in (0, 1, -1, 2, -2, 0.5, -0.5, 0.25, 4, 1j) for v in c["vs"]))
    return ok


def small(arg):
    out = []
    for e in arg["es"]:
        rng = random.Random(f"{arg['seed']}/{e}")
        e = [{**n, "vs": [arg["vals"][str(v)] for v in n["vs"]]} for n in e]
        if not dyadic(e):
            continue
        g = build(rng, e, None)
        out.append({"e": traced(e), "steps": queries(rng, e, g, 5, rng.random() < 0.1)})
    return out


def case(arg):
    rng = random.Random(arg["seed"])
    with tempfile.TemporaryDirectory() as tmp:
        for _ in range(20):
            e = [leaves(rng) for _ in range(rng.randint(1, 4))]
            for _ in range(rng.randint(0, 5)):
                x, y = rng.randint(1, len(e)), rng.randint(1, len(e))
                e.append({**unary(rng), "x": x} if rng.random() < 0.5 else
                         node(rng.choice(["add", "sub", "mul", "div"]), x=x, y=y))
            if dyadic(e):
                break
        else:
            return None
        g = build(rng, e, tmp)
        return {"e": traced(e), "steps": queries(rng, e, g, rng.randint(4, 14),
                                                 rng.random() < 0.4)}


def tones(arg):
    """Sinusoids at multiples of a twelfth and reproducible noise."""
    import b_asic.signal_generator as S

    rng = random.Random(arg["seed"])
    steps = []
    for _ in range(10):
        a, b, t = rng.randint(-13, 30), rng.randint(-30, 30), rng.randint(-20, 50)
        g = S.Sinusoid(a / 12, b / 12) if b or rng.random() < 0.5 else S.Sinusoid(a / 12)
        d = rng.randint(-3, 3)
        if rng.random() < 0.3:
            g, t2 = S.Delay(g, d), t + d
        else:
            t2 = t
        steps.append({"kind": "sine", "a": a, "b": b, "t": t,
                      "v": round(float(g(t2)) * 1000000)})
    seed = rng.randint(0, 99)
    if rng.random() < 0.5:
        mk, lo, hi = (lambda: S.Uniform(seed, -2.0, 3.0)), -2000000, 3000000
    else:
        mk, lo, hi = (lambda: S.Gaussian(seed, 1.0, 0.5)), -9000000, 11000000
    g, h = mk(), mk()
    ts = [rng.randint(0, 9) for _ in range(8)]
    steps.append({"kind": "noise", "lo": lo, "hi": hi,
                  "a": [round(float(g(t)) * 1000000) for t in ts],
                  "b": [round(float(h(t)) * 1000000) for t in ts]})
    return {"e": [], "steps": steps}


def check(ctx):
    ctx.assumptions += ["noise generators draw a new value at each query: only the seed's "
                        "reproducibility and the range are required of them"]
    ls = leaves()
    vals = {str(num.field(v)): v for n in ls for v in n["vs"]}
    r = ctx.model("GenModel", MODEL, files={"model.json": {
        "leaves": traced(ls), "unary": unary(), "binary": ["add", "sub", "mul", "div"],
        "size": ctx.scale(3, 4)}})
    es = sorted({x[3:] for x in r.lines if x.startswith("TR|")})
    ctx.count("model_expressions", len(es))
    rng = ctx.rng("pick")
    es = [json.loads(x)["e"] for x in rng.sample(es, min(len(es), ctx.scale(4000, 40000)))]
    recs = ctx.drive(small, [{"es": es[i:i + 50], "vals": vals, "seed": ctx.seed}
                             for i in range(0, len(es), 50)])
    ctx.validate("GenTrace", recs, name="model")
    recs = ctx.drive(case, [{"seed": f"{ctx.seed}/{i}"}
                            for i in range(ctx.scale(2500, 40000))])
    recs += ctx.drive(tones, [{"seed": f"{ctx.seed}/t{i}"}
                              for i in range(ctx.scale(200, 3000))])
    for t in recs:
        for s in t["steps"]:
            ctx.count("step_" + s["kind"])
    ctx.validate("GenTrace", recs, name="random")

