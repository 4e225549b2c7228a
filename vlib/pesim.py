"""Simulate generated processing elements with GHDL: rows of inputs in, rows of outputs out."""
import shutil
import tempfile

from . import vhdl


def parts(d):
    return 2 if d["type"] == "complex" else 1


def bench(items, cycles):
    """items: designs with name, type, bits, T, ins (rows: a tuple per cycle) and nout."""
    decl, insts, drive, show = [], [], [], []
    for k, d in enumerate(items):
        b = max(1, (d["T"] - 1).bit_length())
        w = d["bits"]
        decl.append(f"  signal c{k} : unsigned({b - 1} downto 0) := (others => '0');")
        drive.append(f"      c{k} <= to_unsigned(n mod {d['T']}, {b});")
        ports = ["clk => clk", "en => en", f"schedule_cnt => c{k}"]
        for p in range(len(d["ins"][0]) // parts(d)):
            decl.append(f"  signal i{k}_{p} : {d['type']};")
            ports.append(f"p_{p}_in => i{k}_{p}")
            for x, part in enumerate(("re", "im") if parts(d) == 2 else ("",)):
                col = [r[parts(d) * p + x] for r in d["ins"]]
                decl.append(f"  constant d{k}_{p}{part} : ia := ({', '.join(map(str, col))});")
                to = "to_unsigned" if d["type"].startswith("unsigned") else "to_signed"
                drive.append(f"      i{k}_{p}{'.' + part if part else ''} <= "
                             f"{to}(d{k}_{p}{part}(n), {w});")
        for p in range(d["nout"]):
            decl.append(f"  signal o{k}_{p} : {d['type']};")
            ports.append(f"p_{p}_out => o{k}_{p}")
            for part in (".re", ".im") if parts(d) == 2 else ("",):
                show.append(f"      put(l, std_logic_vector(o{k}_{p}{part}));")
        insts.append(f"  u{k} : entity work.{d['name']} port map({', '.join(ports)});")
    cplx = any(parts(d) == 2 for d in items)
    nl = "\n"
    return f"""library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;
use std.textio.all;
{"use work.types.all;" if cplx else ""}
entity tb is end entity;
architecture sim of tb is
  type ia is array(natural range <>) of integer;
  signal clk : std_logic := '0';
  signal en : std_logic := '0';
{nl.join(decl)}
  procedure put(variable l : inout line; v : std_logic_vector) is
  begin
    if is_x(v) then write(l, string'(" X")); else
      write(l, string'(" ") & integer'image(to_integer(signed(v)))); end if;
  end procedure;
begin
{nl.join(insts)}
  process
    variable l : line;
    variable n : integer := 0;
  begin
    wait for 4 ns; clk <= '1'; wait for 5 ns; clk <= '0'; wait for 1 ns;
    en <= '1';
    for k in 0 to {cycles - 1} loop
      n := k;
{nl.join(drive)}
      wait for 4 ns;
      write(l, string'("@"));
{nl.join(show)}
      writeline(output, l);
      clk <= '1'; wait for 5 ns; clk <= '0'; wait for 1 ns;
    end loop;
    wait;
  end process;
end architecture;
"""


def simulate(designs, cycles):
    """Per design {"error": text} or {"out": rows of integers, None when not defined}."""
    res = [None] * len(designs)
    cwd = tempfile.mkdtemp(prefix="ghdl")
    try:
        groups = {}
        for k, d in enumerate(designs):
            groups.setdefault((d.get("types") or ""), []).append(k)
        for pk, ks in groups.items():
            if pk:
                e = vhdl.legal(cwd, pk, "pkg")
                if e:
                    for k in ks:
                        res[k] = {"error": e}
                    continue
            open(f"{cwd}/all.vhdl", "w").write("\n".join(designs[k]["text"] for k in ks))
            fine = vhdl.run(["ghdl", "-a", *vhdl.STD, "all.vhdl"], cwd)[0] == 0
            good = []
            for k in ks:
                e = None if fine else vhdl.legal(cwd, designs[k]["text"], k)
                if e:
                    res[k] = {"error": e}
                else:
                    good.append(k)
            todo = [good]
            while todo:
                g = todo.pop()
                if not g:
                    continue
                open(f"{cwd}/tb.vhdl", "w").write(bench([designs[k] for k in g], cycles))
                rc, out, err = vhdl.run(["ghdl", "-a", *vhdl.STD, "tb.vhdl"], cwd)
                if rc == 0:
                    rc, out, err = vhdl.run(["ghdl", "--elab-run", *vhdl.STD, "tb",
                                             "--ieee-asserts=disable"], cwd)
                if rc != 0:
                    if len(g) == 1:
                        res[g[0]] = {"error": (err + out).strip()[-400:]}
                    else:
                        h = len(g) // 2
                        todo += [g[:h], g[h:]]
                    continue
                rows = [ln.split()[1:] for ln in out.splitlines() if ln.startswith("@")]
                col = 0
                for k in g:
                    n = designs[k]["nout"] * parts(designs[k])
                    res[k] = {"out": [[None if x == "X" else int(x) for x in r[col:col + n]]
                                      for r in rows]}
                    col += n
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    return res
