#!/usr/bin/env python3
"""run.py PROP FILE FUNCS N [SEED]: small changes to the functions (regular
expression) of FILE, in scratch copies of /repo, against the functions under
contract of PROP. Prints the changes that build, pass the stable tests of their
package and are not noticed (SURVIVED), or only by the proof (caught), not by a
failing input (shown)."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
prop, file, funcs, n = sys.argv[1:5]
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
workers = int(os.environ.get("JOBS", "3"))
only = os.environ.get("ONLY", "")
govc = os.environ.get("GOVC", "/verif/bin/govc")
repo = os.environ.get("REPO", "/repo")
names = []
for l in subprocess.run([govc, "list"], cwd="/verif", text=True, capture_output=True).stdout.splitlines():
    f = l.split()
    if prop in f[2:3] + f[3:4] and re.search(only, f[0]):
        names.append("./" + f[0])
src = open(repo + "/" + file, "rb").read()
ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate", repo + "/" + file], text=True, capture_output=True).stdout.splitlines()]
ms = [m for m in ms if re.fullmatch(funcs, m["func"])]
random.Random(seed).shuffle(ms)
ms = ms[:int(n)]
pkg = "./" + os.path.dirname(file)
dirs = []
def one(m):
    d = dirs.pop()
    try:
        p = os.path.join(d, file)
        new = src[:m["off"]] + m["new"].encode() + src[m["end"]:]
        open(p, "wb").write(new)
        try:
            b = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s; go build %s ./render/main" % (d, pkg)], text=True, capture_output=True)
            if b.returncode: return m, "nobuild", ""
            if pkg in ("./math/sort", "./math/interpolate"):
                try:
                    t = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s; go test -vet=off -timeout 20s %s" % (d, pkg)], text=True, capture_output=True, timeout=60)
                    if t.returncode: return m, "tests", ""
                except subprocess.TimeoutExpired:
                    return m, "tests", ""
            f = subprocess.run([govc, "fuzz", "-n", "4000", "-repo", d] + names, cwd="/verif", text=True, capture_output=True)
            if "    input:" in f.stdout: return m, "shown", f.stdout
            try:
                r = subprocess.run([govc, "func", "-repo", d] + names, cwd="/verif", text=True, capture_output=True, timeout=400)
            except subprocess.TimeoutExpired:
                return m, "timeout", ""
            if "FAILED" in r.stdout or r.returncode: return m, "caught", r.stdout
            return m, "SURVIVED", ""
        finally:
            open(p, "wb").write(src)
    finally:
        dirs.append(d)
for i in range(workers):
    d = tempfile.mkdtemp(prefix="mut")
    shutil.rmtree(d)
    shutil.copytree(repo, d, ignore=shutil.ignore_patterns(".git"))
    dirs.append(d)
all_dirs = list(dirs)
count = {}
try:
    with ThreadPoolExecutor(workers) as ex:
        for m, res, out in ex.map(one, ms):
            count[res] = count.get(res, 0) + 1
            if res in ("SURVIVED", "timeout", "caught"):
                line = src[:m["off"]].rfind(b"\n") + 1
                text = src[line:src.find(b"\n", m["off"])].decode().strip()
                print(f"{res} {file}:{m['line']} {m['func']}: {m['what']} | {text[:110]} | col {m['off']-line}", flush=True)
finally:
    for d in all_dirs: shutil.rmtree(d, ignore_errors=True)
print(prop, file, funcs, count, flush=True)
