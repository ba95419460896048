"""Create seeded/<id> from an edit list (development aid).

mkbug(id, prop, [(file, old, new)...], demo, needs, breaks) makes the patch in a
scratch copy of /repo and writes patch.diff, demo.sh, demo.py, meta.json.
"""
import json, os, subprocess, shutil
SC = "/tmp/w/scratch"


def mkbug(id, prop, edits, demo, needs, breaks):
    if not os.path.exists(SC):
        subprocess.check_call(["git", "clone", "-q", "/repo", SC])
    subprocess.check_call("git fetch -q && git reset -q --hard origin/HEAD", shell=True, cwd=SC)
    for f, old, new in edits:
        p = os.path.join(SC, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=SC, text=True))
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=SC)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
