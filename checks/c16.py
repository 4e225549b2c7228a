"""C16: connections; specs Conn, ConnModel, ConnTrace."""
import json
import random

from vlib import gen


class World:
    """Operations, ports and signals, with numbers as in the specification."""

    def __init__(self, rng, st=None, ops=("add", "cmul")):
        import b_asic as B

        self.B = B
        self.rng = rng
        self.ops, self.sigs = [], []
        self.outs, self.ins = [], []  # (operation, index)
        for o in ops:
            self.add(self.make(o))
        self.bad = B.R2Butterfly()
        self.badins = B.Addition()
        if st:
            for p, q in zip(st["src"], st["dst"]):
                s = B.Signal()
                self.sigs.append(s)
                if rng.random() < 0.5:
                    p and s.set_source(self.outp(p))
                    q and s.set_destination(self.inp(q))
                else:
                    q and self.inp(q).add_signal(s)
                    p and self.outp(p).add_signal(s)

    def make(self, k):
        B = self.B
        return {"add": B.Addition, "cmul": lambda: B.ConstantMultiplication(2),
                "bfly": B.R2Butterfly, "in": B.Input, "out": B.Output, "t": B.Delay,
                "ser": lambda: B.SymmetricTwoportAdaptor(0.5), "mad": B.MAD}[k]()

    def add(self, o):
        self.ops.append(o)
        self.outs += [(o, i) for i in range(o.output_count)]
        self.ins += [(o, i) for i in range(o.input_count)]

    def outp(self, p):
        o, i = self.outs[p - 1]
        return o.output(i)

    def inp(self, q):
        o, i = self.ins[q - 1]
        return o.input(i)

    def out_via(self, p):
        """The port, or its operation when it has no other output."""
        o, i = self.outs[p - 1]
        return o if o.output_count == 1 and self.rng.random() < 0.4 else o.output(i)

    def in_via(self, q):
        o, i = self.ins[q - 1]
        return o if o.input_count == 1 and self.rng.random() < 0.4 else o.input(i)

    def sync(self, new=()):
        for s in new:
            if s is not None and not any(s is x for x in self.sigs):
                self.sigs.append(s)

    def number(self, ports, port):
        if port is None:
            return 0
        for k, (o, i) in enumerate(ports, 1):
            if (o.outputs if ports is self.outs else o.inputs)[i] is port:
                return k
        return -1

    def observe(self):
        num = {id(s): i for i, s in enumerate(self.sigs, 1)}
        listed = [s for o in self.ops for p in [*o.inputs, *o.outputs] for s in p.signals]
        extra = {id(s) for s in listed if id(s) not in num}
        onum = {id(o): i for i, o in enumerate(self.ops, 1)}
        ops, a, b = [], 0, 0
        for o in self.ops:
            ni, no = o.input_count, o.output_count
            ops.append({"i": list(range(a + 1, a + ni + 1)),
                        "o": list(range(b + 1, b + no + 1)),
                        "prec": [onum.get(id(x), -1) for x in o.preceding_operations],
                        "succ": [onum.get(id(x), -1) for x in o.subsequent_operations]})
            a, b = a + ni, b + no
        bad = any(p.signal_count for o in (self.bad, self.badins)
                  for p in [*o.inputs, *o.outputs])
        return {"src": [self.number(self.outs, s.source) for s in self.sigs],
                "dst": [self.number(self.ins, s.destination) for s in self.sigs],
                "outs": [[num.get(id(s), -1) for s in self.outp(p).signals]
                         for p in range(1, len(self.outs) + 1)],
                "ins": [[num.get(id(s), -1) for s in self.inp(q).signals]
                        for q in range(1, len(self.ins) + 1)],
                "fed": [self.number(self.outs, self.inp(q).connected_source)
                        for q in range(1, len(self.ins) + 1)],
                "extra": len(extra) + bad, "ops": ops}

    # ------------------------------------------------------------ calls
    def perform(self, e):
        r = {"exc": False, "ret": 0}
        try:
            r["ret"] = self.call(e) or 0
        except (ValueError, TypeError, AttributeError) as x:
            if isinstance(x, AttributeError) and e["a"] not in ("setsrcbad", "setdstbad",
                                                               "connbad", "newbad"):
                raise
            r["exc"] = True
        r["obs"] = self.observe()
        return {**e, **r}

    def call(self, e):
        B, rng, a = self.B, self.rng, e["a"]
        sig = self.sigs[e["s"] - 1] if e["s"] else None
        if a == "setsrc":
            sig.set_source(self.out_via(e["p"]))
        elif a == "setdst":
            sig.set_destination(self.in_via(e["q"]))
        elif a == "setsrcsig":
            sig.set_source(self.sigs[e["t"] - 1])
        elif a == "setdstsig":
            sig.set_destination(self.sigs[e["t"] - 1])
        elif a == "setsrcbad":
            sig.set_source(self.bad)
        elif a == "setdstbad":
            sig.set_destination(self.badins)
        elif a == "rmsrc":
            sig.remove_source()
        elif a == "rmdst":
            sig.remove_destination()
        elif a == "outadd":
            self.outp(e["p"]).add_signal(sig)
        elif a == "inadd":
            self.inp(e["q"]).add_signal(sig)
        elif a == "outrm":
            self.outp(e["p"]).remove_signal(sig)
        elif a == "inrm":
            self.inp(e["q"]).remove_signal(sig)
        elif a == "outclr":
            self.outp(e["p"]).clear()
        elif a == "inclr":
            self.inp(e["q"]).clear()
        elif a in ("connect", "connsig", "connbad"):
            src = (self.out_via(e["p"]) if a == "connect" else
                   sig if a == "connsig" else self.bad)
            dst = self.in_via(e["q"])
            q = self.inp(e["q"])
            if isinstance(dst, B.port.InputPort) and rng.random() < 0.6:
                got = dst.connect(src)
            else:
                before = dst
                dst <<= src
                if dst is not before:
                    return -1
                got = q.signals[0]
            self.sync([got])
            return 1 + next(i for i, s in enumerate(self.sigs) if s is got)
        elif a == "new":
            s = B.Signal(self.out_via(e["p"]) if e["p"] else None,
                         self.in_via(e["q"]) if e["q"] else None)
            self.sync([s])
            return len(self.sigs)
        elif a == "newbad":
            B.Signal(self.bad, self.inp(e["q"]))
        elif a == "swap":
            self.ops[0].swap_io()
        elif a == "delay":
            got = self.inp(e["q"]).delay(e["t"])
            cur = self.inp(e["q"])
            for _ in range(e["t"]):
                s = cur.signals[0] if cur.signals else None
                self.sync([s])
                if s is None or s.source is None:
                    break
                d = s.source.operation
                if not isinstance(d, B.Delay) or any(d is o for o in self.ops):
                    break
                self.add(d)
                cur = d.input(0)
            return self.number(self.ins, got)
        elif a == "newop":
            xs = [None if x["k"] == "none" else self.sigs[x["i"] - 1] if x["k"] == "sig"
                  else self.bad if x["k"] == "bad" else self.out_via(x["i"])
                  for x in e["xs"]]
            ks = [x["k"] for x in e["xs"]]
            if ks == ["out", "out"] and rng.random() < 0.5:
                o = xs[0] + xs[1] if rng.random() < 0.5 else xs[0] * xs[1]
            elif ks == ["out"] and rng.random() < 0.5:
                o = rng.choice([lambda: -xs[0], lambda: xs[0] * 3, lambda: 2 * xs[0],
                                lambda: xs[0] >> 1])()
            elif len(xs) == 1:
                o = rng.choice([B.Negation, B.Absolute, B.SquareRoot,
                                lambda s: B.ConstantMultiplication(3, s)])(xs[0])
            else:
                o = rng.choice([B.Addition, B.Subtraction, B.Multiplication])(*xs)
            self.add(o)
            for p in o.inputs:
                self.sync(p.signals)
        else:
            raise AssertionError(a)
        return 0


E0 = {"a": "", "s": 0, "t": 0, "p": 0, "q": 0, "xs": []}


def replay(arg):
    """All calls in one state of the design model."""
    out = []
    for c in arg["cs"]:
        rng = random.Random(f"{arg['seed']}/{json.dumps(c['st'])}")
        steps = []
        for e in c["calls"]:
            w = World(rng, c["st"])
            steps.append(w.perform({**E0, **e}))
        out.append({"kind": "each", "st": c["st"], "steps": steps})
    return out


def history(arg):
    """A random history of calls."""
    rng = random.Random(arg["seed"])
    ops = ["add"] + [rng.choice(["cmul", "bfly", "in", "out", "t", "ser", "mad", "add"])
                     for _ in range(rng.randint(1, 3))]
    w = World(rng, None, ops)
    st = {"src": [], "dst": [], "nout": len(w.outs), "nin": len(w.ins)}
    steps = []
    acts = ["setsrc", "setdst", "setsrcsig", "setdstsig", "rmsrc", "rmdst", "outadd",
            "inadd", "outrm", "inrm", "outclr", "inclr", "connect", "connect", "connsig",
            "new", "new", "swap", "delay", "newop", "newop", "setsrcbad", "setdstbad",
            "connbad", "newbad"]
    for _ in range(arg["n"]):
        a = rng.choice(acts)
        ns, no, ni = len(w.sigs), len(w.outs), len(w.ins)
        e = {**E0, "a": a}
        if a in ("setsrc", "setdst", "setsrcsig", "setdstsig", "rmsrc", "rmdst", "outadd",
                 "inadd", "outrm", "inrm", "connsig", "setsrcbad", "setdstbad"):
            if not ns:
                continue
            e["s"] = rng.randint(1, ns)
        if a in ("setsrcsig", "setdstsig"):
            e["t"] = rng.randint(1, ns)
        if a in ("setsrc", "outadd", "outrm", "outclr", "connect"):
            e["p"] = rng.randint(1, no)
        if a in ("setdst", "inadd", "inrm", "inclr", "connect", "connsig", "connbad",
                 "newbad", "delay"):
            e["q"] = rng.randint(1, ni)
        if a in ("outrm", "inrm") and rng.random() < 0.6:  # mostly an existing link
            s = w.sigs[e["s"] - 1]
            x = w.number(w.outs, s.source) if a == "outrm" else w.number(w.ins,
                                                                       s.destination)
            if x > 0:
                e["p" if a == "outrm" else "q"] = x
        if a == "new":
            e["p"], e["q"] = rng.randint(0, no), rng.randint(0, ni)
        if a == "swap":
            e["p"], e["q"] = 1, 2
        if a == "delay":
            e["t"] = rng.randint(0, 2)
        if a == "newop":
            e["xs"] = []
            for _ in range(rng.randint(1, 2)):
                z = rng.random()
                e["xs"].append({"k": "sig", "i": rng.randint(1, ns)} if ns and z < 0.4
                               else {"k": "none", "i": 0} if z < 0.5
                               else {"k": "bad", "i": 0} if z < 0.55
                               else {"k": "out", "i": rng.randint(1, no)})
        r = w.perform(e)
        steps.append(r)
    return {"kind": "hist", "st": st, "steps": steps} if steps else None


def look(ops, before=None):
    """Ports and signals of a set of operations."""
    sigs, num = [], {}
    outs = [p for o in ops for p in o.outputs]
    ins = [p for o in ops for p in o.inputs]
    for p in [*outs, *ins]:
        for s in p.signals:
            if id(s) not in num:
                sigs.append(s)
                num[id(s)] = len(sigs)
    po = {id(p): i for i, p in enumerate(outs, 1)}
    pi = {id(p): i for i, p in enumerate(ins, 1)}
    return {"src": [po.get(id(s.source), -1) for s in sigs],
            "dst": [pi.get(id(s.destination), -1) for s in sigs],
            "outs": [[num[id(s)] for s in p.signals] for p in outs],
            "ins": [[num[id(s)] for s in p.signals] for p in ins], "orig": True}


def parts(sfg):
    """All operations of a graph, inputs and outputs included."""
    ops = list(sfg.operations)
    ops += [o for o in [*sfg.input_operations, *sfg.output_operations]
            if not any(o is x for x in ops)]
    return ops


def graphs(arg):
    """Graphs built and transformed: both ends agree inside every one of them."""
    import b_asic as B

    from checks import c14

    rng = random.Random(arg["seed"])
    kw = c14.kinds_kw("real")
    d = gen.random_graph(rng, n_ops=rng.randint(2, 6), n_in=rng.randint(1, 2),
                         n_out=rng.randint(1, 2), n_del=rng.randint(0, 2), **kw)
    c14.names(d)
    ops = []
    sfg = gen.build(d, ops=ops)
    first = look(ops)
    steps = [first, look(parts(sfg))]
    counter = [0]
    for _ in range(5):
        got = c14.choose(rng, sfg, kw, counter)
        if got is None or got[0]["op"] == "dup":
            continue
        old = look(parts(sfg))
        try:
            new = got[2]()
        except (ValueError, TypeError, KeyError):
            continue
        if isinstance(new, B.SFG):
            steps.append({**look(parts(new)),
                          "orig": new is sfg or old == look(parts(sfg))})
            sfg = new
    steps.append({**look(ops), "orig": look(ops) == first})
    return {"kind": "graph", "st": {"src": [], "dst": [], "nout": 0, "nin": 0},
            "steps": steps}


MODEL = """SPECIFICATION Spec
INVARIANT Agree
INVARIANT NoEffect
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    ctx.assumptions += ["any ValueError or TypeError counts as a rejection"]
    r = ctx.model("ConnModel", MODEL, files={"model.json": {
        "nout": 2, "nin": 3, "nsig": ctx.scale(2, 3)}})
    cs = {}
    for x in r.lines:
        if x.startswith("TR|"):
            c = json.loads(x[3:])
            cs[json.dumps(c["st"])] = c
    cs = [cs[k] for k in sorted(cs)]
    ctx.count("model_calls", sum(len(c["calls"]) for c in cs))
    recs = ctx.drive(replay, [{"cs": cs[i:i + 10], "seed": ctx.seed}
                              for i in range(0, len(cs), 10)])
    ctx.validate("ConnTrace", recs, name="model_calls")
    recs = ctx.drive(history, [{"seed": f"{ctx.seed}/h{i}", "n": 5 + i % 20}
                               for i in range(ctx.scale(1000, 20000))])
    for t in recs:
        for s in t["steps"]:
            ctx.count("call_" + s["a"])
    ctx.validate("ConnTrace", recs, name="histories")
    recs = ctx.drive(graphs, [{"seed": f"{ctx.seed}/g{i}"}
                              for i in range(ctx.scale(300, 5000))])
    ctx.validate("ConnTrace", recs, name="graphs")
