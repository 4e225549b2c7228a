"""Simulate generated storage entities with GHDL, many in one design."""
import os
import re
import shutil
import subprocess
import tempfile

STD = ["--std=08", "-frelaxed"]


def have():
    return shutil.which("ghdl") is not None


class Bad(Exception):
    """The generated text is not legal VHDL or its simulation fails."""


def run(args, cwd, timeout=200):
    p = subprocess.run(args, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


def legal(cwd, text, k):
    open(f"{cwd}/e{k}.vhdl", "w").write(text)
    rc, out, err = run(["ghdl", "-a", *STD, f"e{k}.vhdl"], cwd)
    return None if rc == 0 else (err or out).strip()[:400]


def bench(items, cycles, bits):
    """items: [(entity, ports)], ports a dict of clock, reset, schedule... options."""
    d, ps, st = [], [], []
    pr = []
    for k, (name, o) in enumerate(items):
        ty = o["type"]
        d.append(f"  signal i{k}, o{k} : {ty};")
        ports = ["clk => clk"]
        if o["rst"]:
            ports.append("rst => rst")
        ports.append("en => en")
        if o["cnt"]:
            b = max(1, (o["T"] - 1).bit_length())
            d.append(f"  signal c{k} : unsigned({b - 1} downto 0) := (others => '0');")
            ports.append(f"schedule_cnt => c{k}")
            st.append(f"      c{k} <= to_unsigned(n mod {o['T']}, {b});")
        ports += [f"p_0_in => i{k}", f"p_0_out => o{k}"]
        ps.append(f"  u{k} : entity work.{name} port map({', '.join(ports)});")
        if ty == "complex":
            b = o["bits"]
            st.append(f"      i{k}.re <= to_signed(n, {b}); i{k}.im <= to_signed(-n, {b});")
            pr.append(f"      put(l, std_logic_vector(o{k}.re)); put(l, std_logic_vector(o{k}.im));")
        else:
            kind = ty.split("(")[0]
            w = o["bits"]
            if kind == "signed":
                st.append(f"      i{k} <= to_signed(n, {w});")
            elif kind in ("sfixed", "ufixed"):
                st.append(f"      i{k} <= to_{kind}(std_logic_vector(to_signed(n, {w})), "
                          f"i{k}'high, i{k}'low);")
                pr.append(f"      put(l, to_slv(o{k}));")
                continue
            elif kind == "unsigned":
                st.append(f"      i{k} <= to_unsigned(n, {w});")
            else:
                st.append(f"      i{k} <= std_logic_vector(to_signed(n, {w}));")
            pr.append(f"      put(l, std_logic_vector(o{k}));")
    cplx = any(o["type"] == "complex" for _, o in items)
    head = "library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;\n"
    head += "use ieee.fixed_pkg.all;\n"
    head += "use std.textio.all;\n" + ("use work.types.all;\n" if cplx else "")
    nl = "\n"
    return f"""{head}
entity tb is end entity;
architecture sim of tb is
  signal clk : std_logic := '0';
  signal rst : std_logic := '1';
  signal en : std_logic := '0';
{nl.join(d)}
  procedure put(variable l : inout line; v : std_logic_vector) is
  begin
    if is_x(v) then write(l, string'(" X")); else
      write(l, string'(" ") & integer'image(to_integer(signed(v)))); end if;
  end procedure;
begin
{nl.join(ps)}
  process
    variable l : line;
    variable n : integer := 0;
  begin
    wait for 4 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 1 ns;
    rst <= '0'; en <= '1';
    for k in 0 to {cycles - 1} loop
      n := k;
{nl.join(st)}
      wait for 4 ns;
      write(l, string'("@"));
{nl.join(pr)}
      writeline(output, l);
      clk <= '1'; wait for 5 ns; clk <= '0'; wait for 1 ns;
    end loop;
    wait;
  end process;
end architecture;
"""


def simulate(designs, cycles):
    """designs: dicts with name, text, type, bits, T, rst, cnt (and types: package text).

    Returns per design either {"error": text} or {"out": [value or None per cycle]}."""
    res = [None] * len(designs)
    cwd = tempfile.mkdtemp(prefix="ghdl")
    try:
        pk = next((d["types"] for d in designs if d.get("types")), None)
        if pk:
            e = legal(cwd, pk, "pkg")
            if e:
                return [{"error": e} for _ in designs]
        good = []
        open(f"{cwd}/all.vhdl", "w").write("\n".join(d["text"] for d in designs))
        fine = run(["ghdl", "-a", *STD, "all.vhdl"], cwd)[0] == 0
        for k, d in enumerate(designs):
            e = None if fine else legal(cwd, d["text"], k)
            if e:
                res[k] = {"error": e}
            else:
                good.append(k)
        todo = [good]
        while todo:
            g = todo.pop()
            if not g:
                continue
            items = [(designs[k]["name"], designs[k]) for k in g]
            open(f"{cwd}/tb.vhdl", "w").write(bench(items, cycles, 0))
            rc, out, err = run(["ghdl", "-a", *STD, "tb.vhdl"], cwd)
            if rc == 0:
                rc, out, err = run(["ghdl", "--elab-run", *STD, "tb",
                                    "--ieee-asserts=disable"], cwd)
            if rc != 0:
                if len(g) == 1:
                    res[g[0]] = {"error": (err + out).strip()[-400:]}
                else:
                    h = len(g) // 2
                    todo += [g[:h], g[h:]]
                continue
            rows = [ln.split()[1:] for ln in out.splitlines() if ln.startswith("@")]
            col = 0
            for k in g:
                n = 2 if designs[k]["type"] == "complex" else 1
                vals = []
                for r in rows:
                    v = [None if x == "X" else int(x) for x in r[col:col + n]]
                    if n == 2:
                        v = v[:1] if None not in v and v[0] == -v[1] else [None]
                    vals.append(v[0])
                col += n
                res[k] = {"out": vals}
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    return res


def entity_name(text):
    return re.search(r"entity (\w+) is", text).group(1)
