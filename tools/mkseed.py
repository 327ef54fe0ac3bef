"""tools/mkseed.py FILE.py: FILE defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS and DEMO (python source)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
for f in sys.argv[1:]:
    m = runpy.run_path(f)
    d = f"/verif/seeded/{m['ID']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["cp", "-a", "/repo/.git", "/repo/asyncz", w], check=True)
    for path, old, new in m["EDITS"]:
        s = open(f"{w}/{path}").read()
        assert s.count(old) == 1, (m["ID"], path, s.count(old), old)
        open(f"{w}/{path}", "w").write(s.replace(old, new))
    p = subprocess.run(["git", "-C", w, "diff", "--", "asyncz"], capture_output=True, text=True, check=True).stdout
    assert p
    open(f"{d}/patch.diff", "w").write(p)
    shutil.rmtree(w)
    open(f"{d}/demo.py", "w").write(m["DEMO"].lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\ncd "$(pwd)"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("made", m["ID"])
