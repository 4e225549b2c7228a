"""C12: processing elements, their control tables and their printed control; specs Pe*."""
import json
import random
import warnings
from fractions import Fraction

from vlib import pesim, vhdl

REAL = ["add", "addsub", "addsub", "shadd", "shadd", "cmul", "cmul", "mads", "sym2p"]
CPLX = ["addsub", "shadd", "cmul", "cmul", "cmul"]
OTHER = ["const", "series2", "par2", "anymul", "ref3", "mad", "shift", "rshift", "lshift",
         "r2tf", "dif", "dit", "neg", "min", "sub"]


def num(x):
    """A real number as the specification takes it, exactly."""
    f = Fraction(float(x)) if not isinstance(x, (bool, int)) else Fraction(int(x))
    e = f.denominator.bit_length() - 1
    fl = f.numerator // f.denominator
    small = abs(f.numerator) < 2 ** 28 and e < 28
    return {"n": f.numerator if small else 0, "e": e, "big": not small,
            "ib": (fl if fl >= 0 else ~fl).bit_length() + 1, "s": str(f)}


def par(v):
    import apytypes as apy
    import numpy as np

    if isinstance(v, bool):
        return {"cx": 0, "re": num(v), "im": num(0)}
    cx = isinstance(v, (complex, np.complexfloating, apy.APyCFixed))
    return {"cx": int(cx), "re": num(v.real), "im": num(v.imag if cx else 0)}


def number(rng, lo, hi, cb, kind):
    """A number with cb fractional bits in a type of the user's choosing."""
    import apytypes as apy
    import numpy as np

    n = rng.randint(lo * 2 ** cb, hi * 2 ** cb)
    f = n / 2 ** cb
    if kind == "int":
        return int(f), int(f) * 2 ** cb
    if kind == "npint":
        return np.int64(f), int(f) * 2 ** cb
    if kind == "np":
        return rng.choice([np.float64, np.float32])(f), n
    if kind == "apy":
        return apy.fx(f, max(abs(lo), abs(hi)).bit_length() + 1 + rng.randint(0, 2),
                      cb + rng.randint(0, 2)), n
    return f, n


def operation(rng, k, cx, cb, lat, style):
    """An operation object of kind k with random parameters, and its description."""
    import apytypes as apy
    import b_asic as B
    import numpy as np

    o = {"k": k, "j": 0, "so": 0, "sh": 0, "add": 1, "do": 1, "v": [0, 0]}
    few = style["few"]
    one = rng.random() < 0.5 if not few else False
    if k in ("addsub", "shadd", "mads"):
        o["add"] = int(rng.random() < 0.5)
    if k in ("add", "addsub", "shadd"):
        o["so"] = rng.choice([0, 0, 1, 2, 3]) if not one else 0
        if cx:
            o["j"] = int(rng.random() < 0.5)
    if k == "shadd":
        o["sh"] = rng.choice([0, 1, 2, 3]) if not one else 2
    if k == "mads":
        o["do"] = int(rng.random() < 0.6)
    if k in ("cmul", "sym2p"):
        lo, hi = (-1, 1) if k == "sym2p" else (-4, 4)
        kind = style["num"]
        if cx:
            re, a = number(rng, lo, hi, cb, "float")
            im, b = number(rng, lo, hi, cb, "float")
            y = style["axis"]
            if y == "real" or (y == "mixed" and rng.random() < 0.4):
                im, b = 0.0, 0
            if y == "imag" or (y == "axes" and rng.random() < 0.5):
                re, a = 0.0, 0
            elif y == "axes":
                im, b = 0.0, 0
            v = re if y == "real" and rng.random() < 0.5 else complex(re, im)
            if kind == "np":
                v = np.complex128(v)
            if kind == "apy" and isinstance(v, complex):
                v = apy.fx(v, 4 + rng.randint(0, 1), cb + rng.randint(0, 1))
            o["v"] = [a, b]
        else:
            v, a = number(rng, lo, hi, cb, kind)
            o["v"] = [a, 0]
    add, do = bool(o["add"]), bool(o["do"])
    kw = {"shift_output": o["so"]}
    if cx:
        kw["mul_j"] = bool(o["j"])
    if k == "add":
        op = B.Addition(**kw)
    elif k == "addsub":
        op = B.AddSub(is_add=add, **kw)
    elif k == "shadd":
        op = B.ShiftAddSub(is_add=add, shift=o["sh"], **kw)
    elif k == "cmul":
        op = B.ConstantMultiplication(v)
    elif k == "mads":
        op = B.MADS(is_add=add, do_addsub=do)
    elif k == "sym2p":
        op = B.SymmetricTwoportAdaptor(v)
    else:
        op = other(rng, k)
    op.set_latency(lat)
    return op, o


def any_number(rng):
    import numpy as np

    x = rng.random()
    if x < 0.3:
        return rng.choice([0, 1, -1, 5, -8, 2 ** 20, -3 * 2 ** 31, 7, -7])
    if x < 0.6:
        return rng.randint(-2 ** 12, 2 ** 12) / 2 ** rng.randint(0, 14)
    if x < 0.75:
        return complex(rng.randint(-9, 9) / 4, rng.randint(-9, 9) / 8)
    if x < 0.9:
        return np.float64(rng.randint(-2 ** 40, 2 ** 40) / 2 ** rng.randint(0, 53))
    return -(2.0 ** -rng.randint(1, 53))


def other(rng, k):
    import b_asic as B
    import b_asic.fft_operations as F
    import b_asic.wdf_operations as W

    u = rng.randint(0, 16) / 16
    if k == "const":
        return B.Constant(any_number(rng))
    if k == "series2":
        return W.SeriesTwoportAdaptor(2 * u)
    if k == "par2":
        return W.ParallelTwoportAdaptor(2 * u)
    if k == "anymul":
        return B.ConstantMultiplication(any_number(rng))
    if k == "ref3":
        return W.ReflectionFreeSeriesThreeportAdaptor(u)
    if k == "mad":
        return B.MAD(do_add=rng.random() < 0.5)
    if k == "shift":
        return B.Shift(rng.randint(-5, 5))
    if k == "rshift":
        return B.RightShift(rng.randint(0, 5))
    if k == "lshift":
        return B.LeftShift(rng.randint(0, 5))
    w = rng.choice([1, -1, 1j, complex(rng.randint(-8, 8) / 8, rng.randint(-8, 8) / 8)])
    if k == "r2tf":
        return F.R2TFButterfly(w, rng.choice([1, -1j, 0.5 + 0.25j]))
    if k == "dif":
        return F.R2DIFButterfly(w)
    if k == "dit":
        return F.R2DITButterfly(w)
    return {"neg": B.Negation, "min": B.Min, "sub": B.Subtraction}[k]()


def table(pe):
    import apytypes as apy

    def s(v):
        return num(v.real)["s"] if isinstance(v, apy.APyFixed) or not isinstance(v, bool) \
            else num(v)["s"]

    out = []
    for name, e in pe.control_table.items():
        cplx = any(isinstance(v, (complex, apy.APyCFixed)) for v in e.values.values())
        assert name == e.name and e.bits == e.int_bits + e.frac_bits
        static = bool(e.is_static)
        out.append({"name": name, "ib": e.int_bits if e.is_signed else e.int_bits + 1,
                    "fb": e.frac_bits,
                    "bool": all(isinstance(v, bool) for v in e.values.values()),
                    "vals": [{"t": t, "v": "complex" if cplx else s(v)}
                             for t, v in e.values.items()],
                    "static": static, "nd": e.number_of_different_values,
                    "sval": ("complex" if cplx else s(e.get_static_value())) if static else ""})
    return out


def element(arg):
    """A trace, and the design to simulate (or None)."""
    from b_asic.architecture import ProcessingElement
    from b_asic.process import OperatorProcess
    from b_asic.resources import ProcessCollection

    rng = random.Random(arg["seed"])
    case = arg.get("case")
    cx = rng.random() < 0.35
    style = {"num": rng.choice(["float", "float", "int", "npint", "np", "apy"]),
             "axis": rng.choice(["real", "imag", "axes", "mixed", "any"]),
             "few": rng.random() < 0.6}
    k = rng.choice(CPLX if cx else REAL)
    if case is None and rng.random() < 0.35:
        k, cx = rng.choice(OTHER), False
    wild = case is None and rng.random() < 0.4
    T = case["T"] if case else rng.randint(1, 9)
    lat = case["nin"] + case["nout"] if case else rng.randint(0, 5)
    cb = rng.randint(0, 3)
    if case:
        starts = [(s, 1) for s in case["S"]]
    else:
        starts, free = [], list(range(T))
        for _ in range(rng.randint(1, min(T, 6))):
            x = rng.choice([1, 1, 1, 2, 3]) if not wild or rng.random() < 0.8 else T + 1
            s = rng.randrange(T)
            if wild or all((s + q) % T in free for q in range(x)):
                starts.append((s, x))
                free = [f for f in free if f not in [(s + q) % T for q in range(x)]]
        if not starts:
            starts = [(0, 1)]
    procs, ops = [], []
    # in some sets, one operation is of another latency
    odd = -1
    if case is None and not wild and len(starts) > 1 and rng.random() < 0.1:
        odd = rng.randrange(len(starts))
    for s, x in starts:
        kk, ll = k, lat
        if wild and rng.random() < 0.1:
            kk = rng.choice(CPLX if cx else REAL + OTHER)
        if len(procs) == odd:
            ll = lat + 1
        if kk == "const":
            ll = 0  # whatever is asked for
        op, o = operation(rng, kk, cx, cb, ll, style)
        op.execution_time = x
        procs.append(OperatorProcess(s, op))
        ops.append(o | {"ty": op.type_name(), "lat": ll, "start": s, "exec": x,
                        "par": {n: par(v) for n, v in op.params.items()}})
    late = len(procs) > 1 and not case and rng.random() < 0.3
    first = procs[:-1] if late else procs
    order = list(first)
    rng.shuffle(order)
    tr = {"T": T, "ops": ops, "steps": [], "_seed": arg["seed"], "_k": k, "_cx": cx,
          "_style": style}

    def look(e, pe):
        e |= {"has": [procs.index(p) + 1 for p in pe.collection] if pe else [], "tab": []}
        if e["has"]:
            try:
                e["tab"] = table(pe)
            except (TypeError, ValueError, AttributeError, NotImplementedError) as x:
                e["tab"] = [{"name": f"{type(x).__name__}"}]
        tr["steps"].append(e)

    e = {"act": "build", "set": list(range(1, len(first) + 1))}
    name = f"pe{arg['n']}"
    try:
        pe = ProcessingElement(ProcessCollection(order, T, True), entity_name=name)
    except (ValueError, TypeError):
        look(e | {"ok": False}, None)
        return tr, None
    look(e | {"ok": True}, pe)
    if late:
        e = {"act": "add", "i": len(procs)}
        try:
            pe.add_process(procs[-1], assign=True)
        except (ValueError, TypeError, KeyError):
            e["ok"] = False
        else:
            e["ok"] = True
        look(e, pe)
    return tr, simulated(rng, tr, pe, k, cx, cb, lat, T, case, name)


def simulated(rng, tr, pe, k, cx, cb, lat, T, case, name):
    from b_asic.code_printer import VhdlPrinter
    from b_asic.data_type import DataType
    from b_asic.quantization import OverflowMode, QuantizationMode

    if any(o["k"] not in (CPLX if cx else REAL) for o in tr["ops"]):
        return None
    lat = tr["ops"][0]["lat"]
    fb = rng.randint(0, 3)
    dt = DataType(wl=(rng.randint(4, 7), fb), is_complex=cx,
                  quantization_mode=rng.choice([QuantizationMode.TRUNCATION,
                                                QuantizationMode.TRUNCATION,
                                                QuantizationMode.MAGNITUDE_TRUNCATION,
                                                QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION]),
                  overflow_mode=rng.choice([OverflowMode.WRAPPING, OverflowMode.SATURATION]))
    # shifted results are exact
    shifts = [o["so"] + o["sh"] for o in tr["ops"]]
    dt.wl = (max(dt.wl[0], max(shifts) + 4 - fb), fb)
    h = 2 ** (dt.bits - 1)
    unit = 2 ** max(shifts)
    p = VhdlPrinter(dt)
    n_in = rng.randint(0, lat)
    kw = {}
    if case:
        n_in = case["nin"]
    if case or rng.random() < 0.5:
        key = rng.choice([name, pe._type_name])
        kw["pe_registers"] = {key: (n_in, lat - n_in)}
    kw["pipeline_pe_control"] = bool(case["pipe"]) if case else rng.random() < 0.4
    kw |= {"fp_backend": rng.choice(["", {}])}
    e = {"act": "run", "lat": lat, "fb": fb, "cb": cb, "cx": int(cx),
         "dt": {"q": dt.quantization_mode.name, "o": dt.overflow_mode.name, "w": dt.bits},
         "_kw": str(kw)}
    tr["steps"].append(e)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            text = p.print_ProcessingElement(pe, **kw)
    except (ValueError, TypeError, NotImplementedError, KeyError, AttributeError) as x:
        e |= {"kind": "refused", "_why": f"{type(x).__name__} {x}"[:200]}
        return None
    # whatever a don't care is taken to be, except for an amount to shift by
    dc = rng.choice(["-", "0"] if "to_integer(" in text else ["-", "0", "1"])
    cols = pe._input_count * (2 if cx else 1)
    cyc = 3 * T + lat
    ins = [[rng.randrange(-h // unit, h // unit) * unit for _ in range(cols)]
           for _ in range(cyc)]
    e["ins"] = ins
    return {"name": name, "text": text.replace("'-'", f"'{dc}'"), "type": p._dt.type_str,
            "bits": dt.bits, "T": T, "ins": ins, "nout": pe._output_count,
            "types": p.print_types() if cx else None}


def batch(arg):
    recs, designs = [], []
    for n, a in enumerate(arg["jobs"]):
        tr, d = element(a | {"n": n})
        if d:
            designs.append((tr["steps"][-1], d))
        recs.append(tr)
    cyc = max([len(d["ins"]) for _, d in designs], default=0)
    for e, d in designs:
        d["ins"] = d["ins"] + [[0] * len(d["ins"][0])] * (cyc - len(d["ins"]))
    res = pesim.simulate([d for _, d in designs], cyc) if designs else []
    for (e, d), r in zip(designs, res, strict=True):
        if "error" in r:
            e |= {"kind": "illegal", "_why": r["error"]}
        else:
            e |= {"kind": "run", "out": [[-999999 if v is None else v for v in row]
                                         for row in r["out"][:len(e["ins"])]]}
    return recs


MODEL = """SPECIFICATION Spec
CONSTANTS
  MaxT = {T}
  MaxL = {L}
INVARIANT Follows
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    ctx.assumptions += [
        "parameters with at most 53 bits after the point",
        "start times within the period",
        "simulated: the operations the VHDL printer knows for signed fixed point data; shifted "
        "results exact; enabled throughout; the first period is not judged",
        "GHDL gives the meaning of the hardware description",
    ]
    if not vhdl.have():
        raise RuntimeError("ghdl is not installed")
    r = ctx.model("PeModel", MODEL.format(T=ctx.scale(4, 6), L=ctx.scale(4, 5)))
    seen = {}
    for line in r.lines:
        if line.startswith("TR|"):
            seen[line[3:]] = json.loads(line[3:])
    cs = [seen[k] for k in sorted(seen)]
    rng = random.Random(f"{ctx.seed}/m")
    rng.shuffle(cs)
    jobs = [{"seed": f"{ctx.seed}/m{i}", "case": c}
            for i, c in enumerate(cs[:ctx.scale(800, 20000)])]
    jobs += [{"seed": f"{ctx.seed}/{i}"} for i in range(ctx.scale(3200, 40000))]
    n = 50
    recs = ctx.drive(batch, [{"jobs": jobs[i:i + n]} for i in range(0, len(jobs), n)])
    for t in recs:
        ctx.count("accepted" if t["steps"][0]["ok"] else "refused")
        if t["steps"][-1]["act"] == "run":
            ctx.count(f"run {t['_k']} {'complex' if t['_cx'] else 'real'}")
    ctx.validate("PeTrace", recs, name="elements",
                 weight=lambda t: sum(len(e.get("ins", [1])) for e in t["steps"]) * len(t["ops"]))
