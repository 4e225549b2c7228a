"""C22: generated structures; specs Struct, StructModel, StructTrace."""
import json
import math
import random

from vlib import flow, num

P = num.P
MODEL = """SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
"""
F = {"k": "", "a": [], "b": [], "n": 0, "m": 0, "p": 0, "r": 0}
# a root of unity of order 8192 with RHO^2048 = -j
RHO = next(r for r in range(2, P) if pow(r, 2048, P) == P - num.J)


def root(n):
    return pow(RHO, 8192 // n, P)


def coefs(rng, n, cplx=False):
    """Dyadic coefficients with a bias to special values."""
    def one():
        if rng.random() < 0.4:
            return rng.choice([0, 1, -1, 0.5, -0.5, 1, 0])
        if cplx:
            return complex(rng.randint(-16, 16) / 8, rng.randint(-16, 16) / 8)
        return rng.randint(-64, 64) / 32
    return [one() for _ in range(n)]


def container(rng, c):
    import numpy as np

    k = rng.randrange(4)
    return c if k < 2 else tuple(c) if k == 2 else np.array(c)


def timing(rng):
    """Properties to request, and (latency offsets of a two-input operation, time) expected."""
    lat, ex = rng.choice([None, rng.randint(0, 7)]), rng.choice([None, rng.randint(1, 5)])
    props = {}
    if lat is not None:
        props["latency"] = lat
    if ex is not None:
        props["execution_time"] = ex
    return props, lat, ex


def timed(op, lat, ex):
    """What the operation says about its latency: offsets of inputs and outputs."""
    off = [0 if v is None else v for v in op.latency_offsets.values()]
    got = [-1 if lat is None else max(off), 0 if lat is None else min(off),
           -1 if ex is None else (op.execution_time if op.execution_time is not None else -2)]
    if lat is not None:
        n = op.input_count
        got[1] = max(off[:n]) + (0 if min(off[n:]) == lat else 100)
    return got


def want(lat, ex):
    return [-1 if lat is None else lat, 0, -1 if ex is None else ex]


def fieldx(x):
    return [[num.field(v) for v in row] for row in x]


def simulate(sfg, x):
    """Outputs by time from the simulation."""
    import b_asic as B

    s = B.Simulation(sfg, [[row[i] for row in x] for i in range(sfg.input_count)])
    s.run_for(len(x))
    return [[num.field(complex(s.results[f"out{k}"][t])) for k in range(sfg.output_count)]
            for t in range(len(x))]


def record(rng, sfg, f, xs, sim=False, fix=None):
    """A trace: the graph of the structure and its responses."""
    ops = []
    g = flow.of_sfg(sfg, P, ops)
    if fix:
        for nd, o in zip(g["nodes"], ops):
            fix(nd, o)
    steps = [{"kind": "respond", "X": fieldx(x)} for x in xs]
    if sim:  # as long as floating point is exact
        raws = [dict(zip("vw", flow.params(o))) for o in ops]
        n = flow.safe_length(g, raws, max(len(x) for x in xs))
        for x in xs[:2]:
            if n:
                steps.append({"kind": "simulated", "X": fieldx(x[:n]),
                              "Y": simulate(sfg, x[:n])})
    return {"f": {**F, **f}, "g": g, "steps": steps}


def of_type(sfg, *kinds):
    return [o for o in sfg.operations if str(o.type_name()) in kinds]


def check_timing(steps, ops, lat, ex):
    if ops:
        steps.append({"kind": "timing", "got": [timed(o, lat, ex) for o in ops],
                      "want": want(lat, ex)})


def inputs(rng, n, length, cplx=False):
    return flow.random_x(rng, n, length, 1, cplx)


NONE = {"nodes": [], "order": [], "ins": [], "outs": [], "m": P}


def refused(f, **what):
    return {"f": {**F, **f}, "g": NONE, "steps": [{"kind": "refused"}], "_what": str(what)}


def make_filter(rng, k, b, a, props):
    from b_asic import sfg_generators as G

    if k in ("df1", "df2"):
        fn = G.direct_form_1_iir if k == "df1" else G.direct_form_2_iir
        return fn(container(rng, b), container(rng, a), **props)
    return G.fir(container(rng, b), symmetric="symm" in k, transposed="trans" in k, **props)


def model_case(arg):
    """Structures and input sequences of the model."""
    from b_asic import sfg_generators as G

    out = []
    back = {int(k): v for k, v in arg["vals"].items()}
    for (k, b, a), xs in arg["cases"]:
        rng = random.Random(f"{k}{b}{a}")
        bn, an = [back[v] for v in b], [back[v] for v in a]
        xs = [[[back[v]] for v in x] for x in xs]
        if k == "ladder":
            f = {"k": "allpass", "b": b}
            sfg = G.wdf_allpass(bn)
        else:
            f = {"k": "filter", "b": b, "a": a}
            sfg = make_filter(rng, k, bn, an, {})
        out.append({**record(rng, sfg, f, xs), "_what": f"{k} {bn} {an}"})
    return out


def filters(arg):
    rng = random.Random(arg["seed"])
    k = rng.choice(["fir", "transposed", "symmetric", "symmetric transposed", "df1", "df2"])
    n = rng.randint(2 if k in ("df1", "df2") else 1, rng.choice([3, 5, 9]))
    cplx = rng.random() < 0.25
    b = coefs(rng, n, cplx)
    a = [1]
    if "symm" in k:
        b = b[:(n + 1) // 2] + b[:n // 2][::-1]
    if k in ("df1", "df2"):
        a = [1, *coefs(rng, n - 1, cplx)]
    pm, lm, em = timing(rng)
    pa, la, ea = timing(rng)
    props = {}
    if pm or rng.random() < 0.5:
        props["mult_properties"] = pm
    if pa or rng.random() < 0.5:
        props["add_properties"] = pa
    if rng.random() < 0.3:
        props["name"] = "my filter"
    f = {"k": "filter", "b": [num.field(v) for v in b], "a": [num.field(v) for v in a]}
    sfg = make_filter(rng, k, b, a, props)
    xs = [inputs(rng, 1, n + rng.randint(1, 6), rng.random() < 0.3) for _ in range(2)]
    t = record(rng, sfg, f, xs, sim=True)
    check_timing(t["steps"], of_type(sfg, "cmul"), lm, em)
    check_timing(t["steps"], of_type(sfg, "add"), la, ea)
    return {**t, "_what": f"{k} b={b} a={a} {props}"}


def wdf(arg):
    """Allpass sections and lattices."""
    from b_asic import sfg_generators as G

    rng = random.Random(arg["seed"])
    n = rng.randint(1, 7)
    c = [0 if rng.random() < 0.25 else rng.randint(-32, 32) / 32 for _ in range(n)]
    lat = ex = None
    kw = {}
    lattice = rng.random() < 0.5
    if lattice:
        kw["only_adaptors"] = rng.random() < 0.5
    else:
        lat, ex = rng.choice([None, rng.randint(0, 7)]), rng.choice([None, rng.randint(1, 5)])
        if lat is not None:
            kw["latency"] = lat
        if ex is not None:
            kw["execution_time"] = ex
    names = [f"a{i}" for i in range(n)]
    r = rng.random()
    if r < 0.3:
        names = [f"q{i}" for i in rng.sample(range(30), n)]
        kw["adaptor_names"] = names
    elif r < 0.5:
        kw["adaptor_names"] = "wd"
        names = [f"wd{i}" for i in range(n)]
    f = {"k": "lattice" if lattice else "allpass", "b": [num.field(v) for v in c]}
    sfg = (G.lattice_wdf if lattice else G.wdf_allpass)(container(rng, c), **kw)
    xs = [inputs(rng, 1, n + rng.randint(1, 5), rng.random() < 0.3) for _ in range(2)]
    t = record(rng, sfg, f, xs, sim=True)
    ad = of_type(sfg, "sym2p")
    got = {str(o.name): num.field(float(o.value)) for o in ad}
    t["steps"].append({
        "kind": "names", "got": [got.get(m, -1) if c[i] else 0 for i, m in enumerate(names)],
        "want": [num.field(v) for v in c]})
    if not lattice:
        check_timing(t["steps"], ad, lat, ex)
    return {**t, "_what": f"{f['k']} {c} {kw}"}


def fft(arg):
    from b_asic import sfg_generators as G

    rng = random.Random(arg["seed"])
    n = arg["n"]
    sfg = G.radix_2_dif_fft(n)

    def fix(nd, o):
        if nd["k"] != "cmul":
            return
        v = complex(o.value)
        k = round(-math.atan2(v.imag, v.real) / (2 * math.pi) * n)
        w = complex(math.cos(2 * math.pi * k / n), -math.sin(2 * math.pi * k / n))
        if abs(w - v) > 1e-9:
            raise RuntimeError(f"coefficient {v} is no root of unity of order {n}")
        nd["v"] = pow(root(n), k % n, P)

    xs = [inputs(rng, n, 2, True)]
    k = rng.randrange(n)
    xs.append([[int(i == k) for i in range(n)]])
    return {**record(rng, sfg, {"k": "dft", "n": n, "r": root(n)}, xs, fix=fix),
            "_what": f"fft {n}"}


def invertible(rng, n):
    """The lower triangle of L L^T in the field, L invertible."""
    lo = [[rng.randrange(1, P) if j <= i else 0 for j in range(n)] for i in range(n)]
    return [sum(lo[i][k] * lo[j][k] for k in range(n)) % P
            for i in range(n) for j in range(i + 1)]


def inverse(arg):
    from b_asic import sfg_generators as G

    rng = random.Random(arg["seed"])
    n, kw = arg["n"], {k: v for k, v in arg["kw"].items() if v is not None}
    sfg = getattr(G, arg["fn"])(n, **kw)
    ops = []
    g = flow.of_sfg(sfg, P, ops)
    xs = [[invertible(rng, n)] for _ in range(2)]
    names = [[i, j] for i in range(n) for j in range(i + 1)]
    steps = [{"kind": "respond", "X": x} for x in xs]
    steps.append({"kind": "names",
                  "got": [str(o.name) for o in sfg.input_operations]
                  + [str(o.name) for o in sfg.output_operations],
                  "want": [f"A[{i},{j}]" for i, j in names]
                  + [f"res[{i},{j}]" for i, j in names]})
    return {"f": {**F, "k": "inverse", "n": n}, "g": g, "steps": steps,
            "_what": f"{arg['fn']} {n} {kw}"}


def product(arg):
    from b_asic import sfg_generators as G

    rng = random.Random(arg["seed"])
    m, n, p = (rng.randint(1, 4) for _ in range(3))
    props, lat, ex = timing(rng)
    sfg = G.matrix_multiplication(m, n, p, **({"mad_properties": props} if props else {}))
    xs = [inputs(rng, m * n + n * p, 1, rng.random() < 0.5) for _ in range(2)]
    t = record(rng, sfg, {"k": "matmul", "m": m, "n": n, "p": p}, xs)
    steps = t["steps"]
    steps.append({"kind": "names",
                  "got": [str(o.name) for o in sfg.input_operations]
                  + [str(o.name) for o in sfg.output_operations],
                  "want": [f"{c}[{i},{j}]" for c, a, b in (("A", m, n), ("B", n, p), ("C", m, p))
                           for i in range(a) for j in range(b)]})
    check_timing(steps, of_type(sfg, "mad"), lat, ex)
    return {**t, "_what": f"matmul {m}x{n} {n}x{p} {props}"}


ADAPTORS = {"sym2p": ("SymmetricTwoportAdaptor", 2, -1, 1),
            "ser2p": ("SeriesTwoportAdaptor", 2, 0, 2),
            "par2p": ("ParallelTwoportAdaptor", 2, 0, 2),
            "ser3p": ("SeriesThreeportAdaptor", 3, 0, 2),
            "rfs3p": ("ReflectionFreeSeriesThreeportAdaptor", 3, 0, 1)}
KERNELS = {2: "R2Butterfly", 3: "R3Winograd", 4: "R4Butterfly", 5: "R5Winograd", 7: "R7Winograd"}


def adaptors(arg):
    """Scattering of single adaptors, also with exchanged ports; transform kernels."""
    import b_asic.wdf_operations as W
    import b_asic.fft_operations as K

    rng = random.Random(arg["seed"])
    steps = []

    def add(k, op, v, x, strict=False):
        y = [op.evaluate_output(i, x) for i in range(len(x))]
        steps.append({"kind": "adaptor", "k": k, "v": [num.field(u) for u in v],
                      "a": [num.field(u) for u in x], "b": [num.field(u) for u in y],
                      "strict": strict})

    if arg["what"] == "series":
        add("ser2p", W.SeriesTwoportAdaptor(0.5), [0.5], [2, 3], True)
        return {"f": F, "g": NONE, "steps": steps,
                "_key": "SeriesTwoportAdaptor(0.5) evaluated for 2 and 3"}
    if arg["what"] in ADAPTORS:
        k = arg["what"]
        cls, n, lo, hi = ADAPTORS[k]
        for _ in range(6):
            v = [rng.randint(16 * lo, 16 * hi) / 16]
            if k == "ser3p":
                v.append(rng.randint(0, int(16 * (2 - v[0]))) / 16)
            x = [complex(rng.randint(-9, 9), rng.choice([0, rng.randint(-9, 9)]))
                 if rng.random() < 0.3 else rng.randint(-20, 20) / 2 for _ in range(n)]
            op = getattr(W, cls)(v[0] if len(v) == 1 else tuple(v))
            add(k, op, v, x)
            if n == 2:
                op.swap_io()
                w = {"sym2p": [-v[0]]}.get(k, [2 - v[0]])
                add(k, op, w, x[::-1])
    else:
        n = int(arg["what"])
        op = getattr(K, KERNELS[n])()
        xs = [[[0, 0] if i != j else [rng.choice([1, -1]), 0] for j in range(n)] for i in range(n)]
        xs += [[[rng.randint(-5, 5), rng.choice([0, rng.randint(-5, 5)])] for _ in range(n)]
               for _ in range(6)]
        for x in xs:
            y = [complex(op.evaluate_output(i, [complex(*u) for u in x])) for i in range(n)]
            steps.append({"kind": "kernel", "x": x,
                          "y": [[round(v.real * 10**7), round(v.imag * 10**7)] for v in y]})
    return {"f": F, "g": NONE, "steps": steps, "_what": arg["what"]}


def inverse_cases(ctx):
    out = []
    top = ctx.scale(6, 12)
    for n in range(1, top + 1):
        for pe in (None, "addsub", "mads"):
            for mode in ("mult", "eqs"):
                fns = ["ldlt_matrix_inverse", "cholesky_matrix_inverse"]
                if n % 2 == 0:
                    fns += ["block_ldlt_matrix_inverse", "block_cholesky_matrix_inverse",
                            "tile_ldlt_matrix_inverse"]
                out += [(fn, n, {"mode": mode, "pe": pe}) for fn in fns]
            out += [("analytical_block_matrix_inverse", n, {"mode": m, "pe": pe})
                    for m in ("top", "mid", "bot")]
    return [{"fn": fn, "n": n, "kw": kw, "seed": f"{ctx.seed}/{fn}{n}{kw}"} for fn, n, kw in out]


def check(ctx):
    ctx.assumptions += [
        "coefficients are dyadic numbers, mapped exactly into a prime field; twiddle factors "
        "are recognised as roots of unity (1e-9) and mapped to roots of unity of the field",
        "matrices to invert are L L^T in the field; reciprocal square roots take either root",
        "symmetric filters are asked for with symmetric coefficients"]
    cs = [0, 1, -1, 0.5]
    vals = {str(num.field(v)): v for v in (*cs, 2)}
    r = ctx.model("StructModel", MODEL, files={"model.json": {
        "coefs": [num.field(v) for v in cs], "inputs": [1, 0, 2][:ctx.scale(2, 3)],
        "taps": 3, "length": ctx.scale(4, 5)}})
    groups = {}
    for x in {x[3:] for x in r.lines if x.startswith("TR|")}:
        d = json.loads(x)
        groups.setdefault((d["k"], tuple(d["b"]), tuple(d["a"])), []).append(d["x"])
    ctx.count("model_structures", len(groups))
    cases = [((k, list(b), list(a)), sorted(xs, reverse=True)[:ctx.scale(4, 30)])
             for (k, b, a), xs in sorted(groups.items())]
    recs = ctx.drive(model_case, [{"cases": cases[i:i + 40], "vals": vals}
                                  for i in range(0, len(cases), 40)])
    ctx.validate("StructTrace", recs, name="model")
    recs = ctx.drive(filters, [{"seed": f"{ctx.seed}/f{i}"} for i in range(ctx.scale(500, 8000))])
    recs += ctx.drive(wdf, [{"seed": f"{ctx.seed}/w{i}"} for i in range(ctx.scale(400, 6000))])
    recs += ctx.drive(fft, [{"seed": f"{ctx.seed}/{i}", "n": 2**k} for i in range(ctx.scale(1, 4))
                            for k in range(ctx.scale(7, 9))])
    recs += ctx.drive(inverse, inverse_cases(ctx))
    recs += ctx.drive(product, [{"seed": f"{ctx.seed}/p{i}"} for i in range(ctx.scale(60, 600))])
    recs += ctx.drive(adaptors, [{"seed": f"{ctx.seed}/a{i}", "what": w}
                                 for i in range(ctx.scale(15, 200))
                                 for w in (*ADAPTORS, *map(str, KERNELS))])
    recs += ctx.drive(adaptors, [{"seed": "", "what": "series"}])
    for t in recs:
        for s in t["steps"]:
            ctx.count("step_" + s["kind"])
    ctx.validate("StructTrace", recs, name="random")
