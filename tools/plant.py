#!/usr/bin/env python3
# Development aid: plant.py FILE.py [id...]   FILE defines PLANTS = [dict(id,prop,edits=[(file,old,new)...],demo,needs,breaks)].
# Builds each change in a scratch clone (/tmp/scr/repo), runs the stable tests, the demonstration with and without it, and the
# property's quick check; keeps the change under seeded/ when it counts.
import sys, os, subprocess, json, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/scr/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
spec = importlib.util.spec_from_file_location("p", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
ids = sys.argv[2:]
sh("git -C %s checkout -q -- . && git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD" % (S, S, S))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def build(): return sh("ninja -C _build unittest qrack qrack_pinvoke", cwd=S)
for p in mod.PLANTS:
    if ids and p["id"] not in ids: continue
    d = f"{V}/seeded/{p['id']}"
    sh("git checkout -q -- .", cwd=S)
    ok = True
    for f, a, b in p["edits"]:
        t = open(f"{S}/{f}").read()
        if t.count(a) != p.get("count", 1): print(p["id"], "EDIT: text occurs", t.count(a), "times in", f); ok = False; break
        open(f"{S}/{f}", "w").write(t.replace(a, b))
    if not ok: continue
    patch = sh("git diff", cwd=S).stdout
    blame = ""
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(p["demo"])
    for f in ("demo.sh", "q.hpp"): shutil.copy(f"{V}/tools/demo/{f}", d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = build()
    if r.returncode: print(p["id"], "BUILD FAILS", r.stdout[-1500:]); continue
    sh("mkdir -p _build/test-results && python3 /opt/vp/run_tests.py %s/_build/unittest %s/_build/test-results/lines.txt" % (S, S), cwd=S)
    sh("python3 /opt/vp/results.py /tmp/scr/o.json lines:%s/_build/test-results/lines.txt" % S)
    miss = sorted(set(base) - set(json.load(open("/tmp/scr/o.json"))["passed"]))
    dm = sh(d + "/demo.sh", cwd=S)
    chk = sh(f"REPO={S} VQ_BUILD=/tmp/scr/vb VERIF_SEED=1 {V}/check.sh {p['prop']} quick", cwd=V)
    sh("git checkout -q -- .", cwd=S)
    build()
    dm0 = sh(d + "/demo.sh", cwd=S)
    good = not miss and dm.returncode and not dm0.returncode
    print(f"== {p['id']} [{p['prop']}] counts={bool(good)} missing_tests={len(miss)} {miss[:3]} demo_with={dm.returncode} demo_without={dm0.returncode} check={chk.returncode} {'CAUGHT' if chk.returncode==1 and 'VIOLATION property='+p['prop'] in chk.stdout else 'missed'}", flush=True)
    if not good: print("   demo with:", dm.stdout[-400:], "\n   demo without:", dm0.stdout[-400:])
    print("   ", "\n    ".join(chk.stdout.strip().splitlines()[-12:]), flush=True)
