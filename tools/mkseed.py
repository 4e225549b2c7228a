"""mkseed.py <spec.json|py>: build seeded/<id>/ from (file, old, new, demo) descriptions."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(id, prop, needs, breaks, edits, demo):
    w = tempfile.mkdtemp(prefix="/tmp/mk.")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, old, new in edits:
            p = f"{w}/r/lib/b_asic/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        d = f"{HERE}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(
            "#!/bin/bash\nexport PATH=/opt/venv/bin:$PATH PYTHONPATH=/repo/lib MPLBACKEND=Agg"
            " PYTHONDONTWRITEBYTECODE=1\nexec python \"$(dirname \"$0\")/demo.py\"\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(d + "/meta.json", "w"), indent=1)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
