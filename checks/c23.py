"""C23: quantization, data types in simulation, recoding, sequences; spec Quant."""
import json
import random
import warnings
from fractions import Fraction

from vlib import flow, gen

MODEL = """SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
"""


def modes(mode, ovf):
    from b_asic.quantization import OverflowMode, QuantizationMode

    return QuantizationMode[mode], OverflowMode[ovf]


def lsbs(v, fb):
    f = Fraction(*float(v).as_integer_ratio()) * Fraction(2) ** fb
    if f.denominator != 1:
        raise ValueError(f"{v} is not on the grid of {fb} fractional bits")
    return int(f)


def quantized(rng, mode, ovf, ib, fb, e, ns, cplx=False):
    """Steps for quantizing n * 2^-e for n in ns."""
    from b_asic.quantization import quantize

    q, o = modes(mode, ovf)
    got, got2, ms = [], [], []
    for n in ns:
        v = float(Fraction(n) / Fraction(2) ** e)
        kw = {"quantization_mode": q, "overflow_mode": o}
        if mode == "TRUNCATION" and rng.random() < 0.5:
            del kw["quantization_mode"]
        if ovf == "WRAPPING" and rng.random() < 0.5:
            del kw["overflow_mode"]
        args = (fb,) if ib == 1 and rng.random() < 0.5 else (fb, ib)
        if cplx:
            m = rng.choice(ns)
            r = quantize(complex(v, float(Fraction(m) / Fraction(2) ** e)), *args, **kw)
            r = complex(r)
            got.append(lsbs(r.real, fb))
            got2.append(lsbs(r.imag, fb))
            ms.append(m)
        else:
            if v == int(v) and rng.random() < 0.3:
                v = int(v)
            r = quantize(v, *args, **kw)
            if r.int_bits != ib or r.frac_bits != fb:
                raise ValueError(f"result has {r.int_bits}.{r.frac_bits} bits")
            got.append(lsbs(float(r), fb))
    base = {"kind": "quant", "mode": mode, "ovf": ovf, "ib": ib, "fb": fb, "e": e}
    steps = [{**base, "ns": list(ns), "got": got}]
    if cplx:
        steps.append({**base, "ns": ms, "got": got2})
    return steps


def exhaustive(arg):
    """All arguments in three times the range, for one mode and word length."""
    rng = random.Random(json.dumps(arg))
    w, k = arg["w"], arg["k"]
    steps = []
    for fb in range(-2, w + 2):
        ns = range(-3 * 2 ** (w + k - 1), 3 * 2 ** (w + k - 1) + 1)
        if len(ns) > 120:
            ns = sorted(rng.sample(ns, 120))
        steps += quantized(rng, arg["mode"], arg["ovf"], w - fb, fb, fb + k, list(ns),
                           rng.random() < 0.3)
    return {"steps": steps}


KINDS = ["add", "sub", "addsub", "neg", "mul", "cmul", "mad", "lshift", "rshift", "shift",
         "r2bfly"]
MODES = ["TRUNCATION", "ROUNDING", "MAGNITUDE_TRUNCATION", "JAMMING", "UNBIASED_ROUNDING",
         "UNBIASED_JAMMING", "UNBIASED_MAGNITUDE_TRUNCATION"]


def simulated(arg):
    import b_asic as B
    from b_asic.data_type import DataType

    rng = random.Random(arg["seed"])
    cplx = rng.random() < 0.4
    ib, fb = rng.randint(1, 4), rng.randint(0, 5)
    if ib + fb < 2:
        fb += 1
    w = ib + fb
    mode, ovf = rng.choice(MODES), rng.choice(["WRAPPING", "SATURATION"])
    q, o = modes(mode, ovf)

    def number(top=2 ** (w - 1)):
        n = rng.choice([rng.randint(-top, top - 1), -top, top - 1, 0, 1, -1])
        return Fraction(n) / 2**fb

    def value():
        return complex(float(number()), float(number())) if cplx else float(number())

    d = gen.random_graph(rng, n_ops=rng.randint(1, 7), n_in=rng.randint(1, 2), n_out=1,
                         n_del=rng.randint(0, 2), n_const=rng.choice([0, 0, 1]),
                         kinds=KINDS + (["imul"] if cplx else ["min", "max", "abs"]),
                         coef=[value() for _ in range(4)],
                         inits=[value() for _ in range(2)], mods="c" if cplx else "r")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sfg = gen.build(d)
        kw = {}
        if mode != "TRUNCATION" or rng.random() < 0.5:
            kw["quantization_mode"] = q
        if ovf != "WRAPPING" or rng.random() < 0.5:
            kw["overflow_mode"] = o
        dt = DataType(w if ib == 1 and rng.random() < 0.5 else (ib, fb), is_complex=cplx, **kw)
        n = rng.randint(1, 6)
        xs = [[value() for _ in range(n)] for _ in range(sfg.input_count)]
        sim = B.Simulation(sfg, xs, data_type=dt)
        sim.run_for(n)
        res = {k: [complex(v) for v in r.to_numpy()] for k, r in sim.results.items()}
        ops = []
        g = flow.of_sfg(sfg, flow_m(), ops)
    nodes = []
    for nd, op in zip(g["nodes"], ops):
        v = flow.params(op)[0]
        k = nd["k"]
        nodes.append({"k": k, "j": nd["j"], "so": nd["so"], "src": nd["src"], "n": 0,
                      "v": [0, 0]})
        if k == "in":
            nodes[-1]["n"] = [id(o) for o in sfg.input_operations].index(id(op)) + 1
        elif k in ("lshift", "rshift", "shift", "mad"):
            nodes[-1]["n"] = int(v)
        elif k in ("cmul", "c", "t", "addsub"):
            v = complex(v)
            nodes[-1]["v"] = [lsbs(v.real, fb), lsbs(v.imag, fb)]
    steps, was = [], []
    for t in range(n):
        vals = []
        for op in ops:
            row = []
            ks = ([str(op.graph_id)] if op.output_count < 2 else
                  [f"{op.graph_id}.{i}" for i in range(op.output_count)])
            for key in ks:
                z = res[key][t]
                row.append([lsbs(z.real, fb), lsbs(z.imag, fb)])
            vals.append(row)
        x = [complex(r[t]) for r in xs]
        steps.append({"kind": "sim", "vals": vals, "was": was,
                      "x": [[lsbs(z.real, fb), lsbs(z.imag, fb)] for z in x]})
        was = vals
    return {"dt": {"q": mode, "o": ovf, "w": w, "fb": fb}, "nodes": nodes, "steps": steps,
            "_desc": d}


def flow_m():
    return 40961


def recode(arg):
    from b_asic.utils import decompose, downsample, float_to_csd, int_to_csd, interleave, upsample

    rng = random.Random(str(arg))
    steps = []
    for n in range(arg["lo"], arg["hi"]):
        steps.append({"kind": "csd", "n": n, "d": int_to_csd(n)})
        e = rng.randint(0, 6)
        v = n / 2**e
        if v == int(v) and rng.random() < 0.5:
            v = int(v)
        ds, f = float_to_csd(v)
        steps.append({"kind": "fcsd", "n": n, "e": e, "d": list(ds), "f": f})
    for _ in range(arg["seqs"]):
        k, m = rng.randint(1, 4), rng.randint(0, 6)
        xs = [[rng.randint(-9, 9) for _ in range(m)] for _ in range(k)]
        steps.append({"kind": "interleave", "x": xs, "y": interleave(*xs)})
        if k > 1:
            try:
                interleave(*xs[1:], xs[0] + [1])
                exc = ""
            except ValueError:
                exc = "ValueError"
            steps.append({"kind": "uneven", "exc": exc})
        s = [rng.randint(-9, 9) for _ in range(rng.randint(1, 12))]
        f = rng.randint(1, 5)
        p = rng.randrange(min(f, len(s)))
        a = (s, f) if not p and rng.random() < 0.5 else (s, f, p)
        steps.append({"kind": "down", "x": s, "f": f, "p": p, "y": list(downsample(*a))})
        steps.append({"kind": "up", "x": s, "f": f, "p": p, "y": list(upsample(*a))})
        f = rng.randint(1, len(s))
        steps.append({"kind": "decompose", "x": s, "f": f,
                      "y": [list(r) for r in decompose(s, f)]})
    return {"steps": steps}


def check(ctx):
    ctx.assumptions += ["inputs, coefficients and initial values are on the data type's grid",
                        "for data types, magnitude truncation may be the hardware form "
                        "(adding the sign bit)"]
    r = ctx.model("QuantModel", MODEL, files={"model.json": {
        "w": ctx.scale([1, 2, 3, 4], [1, 2, 3, 4, 5, 6]), "k": [0, 1, 2, 3]}})
    cs = [json.loads(x) for x in sorted({x[3:] for x in r.lines if x.startswith("TR|")})]
    ctx.count("model_word_lengths", len(cs))
    recs = ctx.drive(exhaustive, [{**c, "seed": ctx.seed} for c in cs])
    ctx.validate("QuantTrace", recs, name="quantize")
    recs = ctx.drive(simulated, [{"seed": f"{ctx.seed}/{i}"}
                                 for i in range(ctx.scale(1200, 20000))])
    for t in recs:
        ctx.count("mode_" + t["dt"]["q"])
        for n in t["nodes"]:
            ctx.count("op_" + n["k"])
    ctx.validate("QuantTrace", recs, name="data_types")
    top = ctx.scale(1200, 20000)
    recs = ctx.drive(recode, [{"lo": a, "hi": a + 50, "seqs": 12, "seed": ctx.seed}
                              for a in range(-top, top, 50)])
    ctx.validate("QuantTrace", recs, name="recoding")
