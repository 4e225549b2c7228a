"""C10: generated storage hardware, simulated with GHDL; specs Storage*."""
import json
import os
import random
import tempfile

from checks.c09 import fits
from vlib import procs as pr
from vlib import vhdl

def real_memory(P, T, kind, mtype, strategy, name, late=False, early=False):
    from b_asic.architecture import Memory
    from b_asic.resources import ProcessCollection

    V = pr.processes(P, kind)
    mem = Memory(ProcessCollection(V[:-1] if late else V, T, True), memory_type=mtype,
                 entity_name=name, read_ports=1, write_ports=1, total_ports=2)
    if late:  # the last one comes when the others have their places
        mem.add_process(V[-1])
        if not early:
            mem.assign(*([strategy] if mtype == "RAM" else []))
        return mem
    if mtype == "RAM":
        mem.assign(strategy)
    else:
        mem.assign()
    return mem


def printed(o, P, T, name):
    """A design of the code printer."""
    from b_asic.code_printer import VhdlPrinter
    from b_asic.data_type import DataType

    dt = DataType(wl=tuple(o["wl"]), is_signed=o["signed"], is_complex=o["complex"])
    p = VhdlPrinter(dt, vhdl_2008=o["v2008"])
    late = o.get("late", False) and len(P) > 1
    mem = real_memory(P, T, o["proc"], o["mem"], o["strategy"], name, late, late)
    kw = {"std_logic_vector": o["slv"]}
    if o["mem"] == "RAM":
        kw |= {"output_sync": o["sync"], "external_schedule_counter": o["ext"],
               "pipeline_mem_control": o["pipe"]}
    else:
        kw |= {"pipeline_output_mux": o["pipe"], "pipeline_back_edge_mux": o["pipeb"]}
    try:
        text = p.print_Memory(mem, **kw)
    except ValueError:
        if not late:
            raise
        mem = real_memory(P, T, o["proc"], o["mem"], o["strategy"], name, late)
        text = p.print_Memory(mem, **kw)
    bits = sum(o["wl"])
    ty = f"std_logic_vector({bits - 1} downto 0)" if o["slv"] else p._dt.type_str
    return {"name": mem.entity_name, "text": text, "type": ty, "bits": bits, "T": T,
            "rst": o["mem"] == "RAM" and not o["ext"], "cnt": o["mem"] != "RAM" or o["ext"],
            "types": p.print_types() if o["complex"] else None, "lat": 0, "sh": 0}


def interleaver(o, P, T, name):
    """A design of ProcessCollection.generate_*_storage_vhdl."""
    from b_asic.resources import ProcessCollection

    pc = ProcessCollection(pr.processes(P, "plain"), T, True)
    fd, fn = tempfile.mkstemp(suffix=".vhdl")
    os.close(fd)
    try:
        if o["mem"] == "RAM":
            kw = {}
            if o["mux"]:
                kw = {"adr_mux_size": o["mux"], "adr_pipe_depth": o["depth"]}
            pc.generate_memory_based_storage_vhdl(
                fn, name, o["wl"][0], pc.split_on_execution_time(o["strategy"]),
                input_sync=o["sync"], **kw)
        else:
            pc.generate_register_based_storage_vhdl(
                filename=fn, entity_name=name, word_length=o["wl"][0])
        text = open(fn).read()
    finally:
        os.remove(fn)
    sh = o["depth"] if o["mem"] == "RAM" and o["mux"] else 0
    lat = 1 if o["mem"] != "RAM" or not o["sync"] else 2
    b = o["wl"][0]
    return {"name": name, "text": text, "type": f"std_logic_vector({b - 1} downto 0)",
            "bits": b, "T": T, "rst": True, "cnt": False, "types": None,
            "lat": lat, "sh": sh}


def options(rng, T, gen=None):
    gen = gen or rng.choice(["printer", "printer", "interleaver"])
    o = {"gen": gen, "mem": rng.choice(["RAM", "RAM", "register"]),
         "strategy": rng.choice(["left_edge", "greedy_graph_color"]),
         "wl": [rng.choice([2, 5, 9]), rng.choice([0, 3, 4])], "proc": rng.choice(["plain", "var"])}
    if gen == "printer":
        o |= {"complex": rng.random() < 0.15, "signed": rng.random() < 0.8,
              "slv": False, "v2008": False, "sync": rng.random() < 0.75,
              "ext": rng.random() < 0.75, "pipe": rng.random() < 0.5,
              "pipeb": rng.random() < 0.5, "late": rng.random() < 0.2}
        if o["complex"]:
            o["signed"], o["wl"] = True, [6, 4]
        else:
            o["slv"] = rng.random() < 0.3
            o["v2008"] = not o["slv"] and rng.random() < 0.2
    else:
        o |= {"sync": rng.random() < 0.7, "mux": 0, "depth": 0, "proc": "plain"}
        o["wl"] = [rng.choice([3, 8, 12]), 0]
        if o["sync"] and rng.random() < 0.6:
            c = [(m, d) for m in (1, 2, 4) for d in (0, 1, 2, 3) if m ** d <= T]
            o["mux"], o["depth"] = rng.choice(c)
    return o


def random_vars(rng, zero, multi):
    for _ in range(300):
        T = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17])
        P = pr.random_procs(rng, T, rng.randint(1, T), multi=multi, zero=zero, one_write=True)
        P = [p for p in P if p["ex"] <= T]
        if P and fits(P, T):
            return T, P
    return 2, [{"s": 0, "ex": 1, "rd": [1]}]


def stored(P, T):
    """Something is stored, each value is used."""
    return any(p["ex"] > 0 for p in P)


def batch(arg):
    rng = random.Random(arg["seed"])
    todo = arg.get("cases")
    if todo is None:
        todo = []
        for _ in range(arg["n"]):
            o = options(rng, 1)
            zero = o["gen"] == "interleaver" or o["mem"] == "register"
            T, P = random_vars(rng, zero and rng.random() < 0.7,
                               o["gen"] == "printer" and rng.random() < 0.3)
            if o["gen"] == "interleaver":
                o = options(rng, T, "interleaver") | {"mem": o["mem"]}
            todo.append((o, P, T))
    designs, recs = [], []
    for k, (o, P, T) in enumerate(todo):
        name = f"ent{k}"
        tr = {"T": T, "P": [{"s": p["s"], "rd": p["rd"]} for p in P], "_opts": o,
              "may": o["mem"] == "register"}
        try:
            d = (printed if o["gen"] == "printer" else interleaver)(o, P, T, name)
        except (ValueError, AssertionError) as e:
            recs.append(tr | {"kind": "refused", "_why": str(e)[:200]})
            continue
        # whatever a don't care value is taken to be
        dc = rng.choice(["-", "0", "1"])
        d["text"] = d["text"].replace("'-'", f"'{dc}'")
        designs.append(d)
        recs.append(tr | {"k": len(designs) - 1, "lat": d["lat"], "sh": d["sh"],
                          "M": 2 ** min(d["bits"], 16)})
    cyc = max([4 * r["T"] + 2 * r["sh"] + 4 for r in recs if "k" in r], default=0)
    res = vhdl.simulate(designs, cyc) if designs else []
    for r in recs:
        if "k" in r:
            x = res[r.pop("k")]
            if "error" in x:
                r |= {"kind": "illegal", "_why": x["error"]}
            else:
                n = 4 * r["T"] + 2 * r["sh"] + 4
                r |= {"kind": "run",
                      "out": [-1 if v is None else v % r["M"] for v in x["out"][:n]]}
    return recs


def model_options(rng, c):
    o = options(rng, 1, "printer" if c["name"][0] in "as" else "interleaver")
    o["mem"] = "RAM"
    if o["gen"] == "printer":
        o |= {"sync": c["name"].startswith("sync"), "pipe": c["name"].endswith("pipe")}
    else:
        o |= {"sync": c["name"] == "piped", "mux": 0, "depth": 0}
        if c["name"] == "piped" and c["depth"]:
            o |= {"mux": rng.choice([1, 2]) if 2 ** c["depth"] <= c["T"] else 1,
                  "depth": c["depth"]}
    return o


def infeasible(rng):
    """Variables that need two writes or two reads in a cycle."""
    T = rng.randint(2, 6)
    while True:
        P = pr.random_procs(rng, T, rng.randint(2, T), multi=False, zero=False)
        P = [p for p in P if p["ex"] <= T]
        if P and not fits(P, T):
            return T, P


MODEL = """SPECIFICATION Spec
CONSTANTS
  MaxT = {T}
  N = 3
  Depths = {D}
INVARIANTS Present Conflicts
"""


def check(ctx):
    ctx.assumptions += [
        "one write port and one read port; starts within the period, life times of at most "
        "a period, at least one cycle for code-printed memories",
        "reset for a cycle, then enabled throughout; the first period is not judged",
        "interleaver generator: plain memory variables read once; retimed by its registers",
        "GHDL gives the meaning of the hardware description",
    ]
    if not vhdl.have():
        raise RuntimeError("ghdl is not installed")
    r = ctx.model("StorageModel", MODEL.format(T=4, D="{0, 1, 2}"))
    seen = {}
    for line in r.lines:
        if line.startswith("TR|"):
            c = json.loads(line[3:])
            seen[json.dumps(c, sort_keys=True)] = c
    rng = random.Random(f"{ctx.seed}/replay")
    cs = list(seen.values())
    rng.shuffle(cs)
    cases = []
    for c in cs[:ctx.scale(1500, 20000)]:
        P = [{"s": p["s"], "ex": max(p["rd"]), "rd": p["rd"]} for p in c["P"]]
        o = model_options(rng, c)
        cases.append((o, P, c["T"]))
        if o["gen"] == "printer" or all(len(p["rd"]) == 1 for p in P):
            cases.append((o | {"mem": "register"}, P, c["T"]))
    for _ in range(ctx.scale(300, 3000)):
        T, P = infeasible(rng)
        o = options(rng, T)
        cases.append((o, P, T))
    n = 40
    args = [{"seed": f"{ctx.seed}/m{i}", "cases": cases[i:i + n]}
            for i in range(0, len(cases), n)]
    args += [{"seed": f"{ctx.seed}/{i}", "n": n} for i in range(ctx.scale(120, 1500))]
    recs = ctx.drive(batch, args)
    for t in recs:
        ctx.count(t["kind"])
        ctx.count(f"{t['_opts']['gen']} {t['_opts']['mem']}")
    refused = sum(t["kind"] == "refused" and t["may"] for t in recs)
    ctx.count("register_allocation_refused", refused)
    ctx.validate("StorageTrace", recs, name="hardware",
                 weight=lambda t: len(t.get("out", [1])) * len(t["P"]))
