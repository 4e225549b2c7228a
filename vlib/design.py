"""Generated architectures in GHDL: many designs in one bench, driven sample by sample.

A design is a dict: name, texts (its entities), types (package text), cplx, bits,
in_bits, out_bits, T, ins {port entity: rows}, outs [port entity], enpin, gaps
(one boolean per clock: is the design enabled?)."""
import re
import shutil
import tempfile

from . import vhdl


def bench(designs, clocks):
    decl, insts, drive, show = [], [], [], []
    for k, d in enumerate(designs):
        ports = ["clk => clk", "rst => rst"]
        if d["enpin"]:
            decl.append(f"  signal en{k} : std_logic := '0';")
            decl.append(f"  constant g{k} : string := \"{''.join('01'[x] for x in d['gaps'])}\";")
            drive.append(f"      if g{k}(n + 1) = '1' then en{k} <= '1'; else en{k} <= '0'; end if;")
            ports.append(f"en => en{k}")
        suffix = ("_re", "_im") if d["cplx"] else ("",)
        for i, (pe, rows) in enumerate(d["ins"].items()):
            for j, s in enumerate(suffix):
                x = f"i{k}_{i}{s}"
                decl.append(f"  signal {x} : std_logic_vector({d['in_bits'] - 1} downto 0)"
                            " := (others => '0');")
                decl.append(f"  constant d{x} : ia := ({', '.join(str(r[j]) for r in rows)});")
                drive.append(f"      {x} <= std_logic_vector(to_signed(d{x}(n), {d['in_bits']}));")
                ports.append(f"{pe}_0_in{s} => {x}")
        for i, pe in enumerate(d["outs"]):
            for s in suffix:
                x = f"o{k}_{i}{s}"
                decl.append(f"  signal {x} : std_logic_vector({d['out_bits'] - 1} downto 0);")
                show.append(f"      put(l, {x});")
                ports.append(f"{pe}_0_out{s} => {x}")
        insts.append(f"  u{k} : entity work.{d['name']} port map({', '.join(ports)});")
    nl = "\n"
    return f"""library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;
use std.textio.all;
entity tb is end entity;
architecture sim of tb is
  type ia is array(natural range <>) of integer;
  signal clk : std_logic := '0';
  signal rst : std_logic := '1';
{nl.join(decl)}
  procedure put(variable l : inout line; v : std_logic_vector) is
  begin
    if is_x(v) then write(l, string'(" X")); else
      write(l, string'(" ") & integer'image(to_integer(signed(v)))); end if;
  end procedure;
begin
{nl.join(insts)}
  process
    variable l : line;
    variable n : integer := 0;
  begin
    for k in 0 to {clocks - 1} loop
      n := k;
      if k > 0 then rst <= '0'; end if;
{nl.join(drive)}
      wait for 4 ns;
      write(l, string'("@"));
{nl.join(show)}
      writeline(output, l);
      clk <= '1'; wait for 5 ns; clk <= '0'; wait for 1 ns;
    end loop;
    wait;
  end process;
end architecture;
"""


def simulate(designs, clocks):
    """Per design {"error": text} or {"out": rows (a value per output part), None undefined}."""
    res = [None] * len(designs)
    cwd = tempfile.mkdtemp(prefix="ghdl")
    try:
        groups = {}
        for k, d in enumerate(designs):
            groups.setdefault(d.get("types") or "", []).append(k)
        for pk, ks in groups.items():
            if pk:
                e = vhdl.legal(cwd, pk, "pkg")
                if e:
                    for k in ks:
                        res[k] = {"error": e}
                    continue
            text = {k: "\n".join(designs[k]["texts"]) for k in ks}
            open(f"{cwd}/all.vhdl", "w").write("\n".join(text[k] for k in ks))
            fine = vhdl.run(["ghdl", "-a", *vhdl.STD, "all.vhdl"], cwd)[0] == 0
            good = []
            for k in ks:
                e = None if fine else vhdl.legal(cwd, text[k], k)
                if e:
                    res[k] = {"error": e}
                else:
                    good.append(k)
            todo = [good]
            while todo:
                g = todo.pop()
                if not g:
                    continue
                open(f"{cwd}/tb.vhdl", "w").write(bench([designs[k] for k in g], clocks))
                rc, out, err = vhdl.run(["ghdl", "-a", *vhdl.STD, "tb.vhdl"], cwd)
                if rc == 0:
                    rc, out, err = vhdl.run(["ghdl", "--elab-run", *vhdl.STD, "tb",
                                             "--ieee-asserts=disable"], cwd)
                if rc != 0:
                    if len(g) == 1:
                        res[g[0]] = {"error": (err + out).strip()[-400:]}
                    else:
                        h = len(g) // 2
                        todo += [g[:h], g[h:]]
                    continue
                rows = [ln.split()[1:] for ln in out.splitlines() if ln.startswith("@")]
                col = 0
                for k in g:
                    n = len(designs[k]["outs"]) * (2 if designs[k]["cplx"] else 1)
                    res[k] = {"out": [[None if x == "X" else int(x) for x in r[col:col + n]]
                                      for r in rows]}
                    col += n
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    return res


def unscratch(text, dc):
    """Don't cares in the text taken to be dc ('-', '0' or '1')."""
    return re.sub(r'"(-+)"', lambda m: f'"{dc * len(m.group(1))}"', text).replace("'-'", f"'{dc}'")
