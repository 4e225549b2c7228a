"""Process collections: random collections and what the real code says about them."""
import random
import warnings


def ports(n_src, n_dst):
    """Output and input ports to hang memory variables on."""
    from b_asic import Input, Output

    src = [Input(name=f"s{i}") for i in range(n_src)]
    dst = [Output(name=f"d{i}") for i in range(n_dst)]
    return src, dst


def random_procs(rng, T, n, multi=True, zero=True, long=False, one_write=False):
    """Records [s, ex, rd] with starts within the period."""
    out = []
    starts = list(range(T))
    for _ in range(n):
        if one_write:
            if not starts:
                break
            s = starts.pop(rng.randrange(len(starts)))
        else:
            s = rng.randrange(T)
        lo = 0 if zero else 1
        hi = rng.choice([T, T, max(1, T // 2), min(T, 3)])
        if long and rng.random() < 0.3:
            hi = 2 * T + 1
        k = rng.choice([1, 1, 1, 2, 3]) if multi else 1
        rd = sorted({rng.randint(lo, max(lo, hi)) for _ in range(k)})
        out.append({"s": s, "ex": rd[-1], "rd": rd})
    return out


def processes(P, kind):
    """Real processes: 'process', 'plain' or 'var' (memory variables with ports)."""
    from b_asic.process import MemoryVariable, PlainMemoryVariable, Process

    res = []
    # the reads of a variable may be given in any order
    rng = random.Random(str([(p["s"], p["rd"]) for p in P]))
    if kind == "var":
        src, dst = ports(len(P), sum(len(p["rd"]) for p in P))
        k = 0
    for i, p in enumerate(P):
        name = f"p{i + 1}"
        rd = rng.sample(p["rd"], len(p["rd"]))
        if kind == "process":
            res.append(Process(p["s"], p["ex"], name))
        elif kind == "plain":
            res.append(PlainMemoryVariable(
                p["s"], i, {j: x for j, x in enumerate(rd)}, name))
        else:
            reads = {}
            for x in rd:
                reads[dst[k].input(0)] = x
                k += 1
            res.append(MemoryVariable(p["s"], src[i].output(0), reads, name))
    return res


def collection(procs, T, cyc):
    from b_asic.resources import ProcessCollection

    return ProcessCollection(procs, T, cyc)


def is_cyclic(pc):
    """The cyclic nature of a collection, as it is printed."""
    return repr(pc).rstrip(")").rsplit(",", 1)[1].strip() == "True"


def edges(graph, idx):
    return sorted({tuple(sorted((idx[id(a)], idx[id(b)]))) for a, b in graph.edges()})


def parts_of(parts, idx):
    return {
        "parts": [[idx[id(p)] for p in pc.collection] for pc in parts],
        "T": [int(pc.schedule_time) for pc in parts],
        "cyc": [is_cyclic(pc) for pc in parts],
    }


def table(d, T):
    if any(t not in range(T) for t in d):
        return [-1] * T
    return [int(d.get(t, 0)) for t in range(T)]


def quiet():
    warnings.simplefilter("ignore")


def solver():
    from pulp import PULP_CBC_CMD

    return PULP_CBC_CMD(msg=False, threads=1)
