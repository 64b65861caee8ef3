#!/usr/bin/env python3
"""mkbug.py SPEC.py: write seeded/<id>/ from a spec (id, edits [(file, old, new)], property, needs, breaks, demo, files) and try it in a scratch copy."""
import sys, os, json, subprocess, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = f"/verif/seeded/{spec['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
R = f"/tmp/scratch_{spec['id']}"
shutil.rmtree(R, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", R], check=True)
for f, old, new in spec["edits"]:
    t = open(f"{R}/{f}").read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(f"{R}/{f}", "w").write(t.replace(old, new))
open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout)
json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
open(f"{d}/demo.sh", "w").write(spec["demo"]); os.chmod(f"{d}/demo.sh", 0o755)
for n, t in spec.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
env = dict(os.environ)
print("unchanged:", subprocess.run(["bash", f"{d}/demo.sh"], cwd="/repo").returncode)
b = subprocess.run(["bash", "-c", f"cd {R} && PATH=/opt/vp/shims/scons:$PATH CCACHE_DIR={R}/_build/ccache HOME=/root scons -j8 imfit makeimage imfit-mcmc makemultimages multimfit"], capture_output=True, text=True)
print("build:", b.returncode, b.stdout[-200:] if b.returncode else "")
print("patched:", subprocess.run(["bash", f"{d}/demo.sh"], cwd=R).returncode)
shutil.rmtree(R)
