#!/usr/bin/env python3
"""Development aid: run.py MUTANTS.jsonl RESULTS.jsonl JOBS PROP[:seconds][:fam] ...
Applies each mutant to a private copy of /repo (bind-mounted over /repo in its own mount
namespace), builds, runs the repository's tests and then one worker per property until one
reports a failure. {type} in fam is replaced by the message type of the mutated file."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SEQ = set("C01 C02 C03 C04 C05 C06 C07 C08 C09 C16 C18s C18f C23 C24 C27s".split())
def one(m, n, props):
    d = tempfile.mkdtemp(prefix="verif-mut-", dir="/dev/shm")
    try:
        r = os.path.join(d, "repo")
        subprocess.run("mkdir %s && git -C /repo archive HEAD | tar x -C %s" % (r, r), shell=True, check=True)
        p = os.path.join(r, m["File"]); b = open(p, "rb").read()
        open(p, "wb").write(b[:m["Start"]] + m["Repl"].encode() + b[m["End"]:])
        s = subprocess.run(["unshare", "-m", "python3", os.path.abspath(__file__), "--inside", d] + props, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = s.stdout.strip().splitlines()
        res = out[-1] if out else "?"
        return dict(m, n=n, result=res, detail="\n".join(out[:-1])[:2500])
    finally:
        shutil.rmtree(d, ignore_errors=True)
def inside(d, props):
    subprocess.run(["mount", "--bind", d + "/repo", "/repo"], check=True)
    check = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py")
    sys.argv = ["x", "lib"]
    sys.path.insert(0, os.path.dirname(check))
    src = open(check).read().replace("\nmain()\n", "\n")
    g = {"__file__": check}; exec(compile(src, "check", "exec"), g)
    e = g["env"](d); e["GOMAXPROCS"] = "2"
    t = subprocess.run("go build ./... && mkdir -p %s/tt && TMPDIR=%s/tt go test -vet=off -count=1 ./... 2>&1 | grep '^--- FAIL\\|^FAIL\\|panic:'" % (d, d), shell=True, cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if t.returncode == 0 or "FAIL" in t.stdout:
        print("tests"); return
    if t.returncode != 1 or t.stdout.strip():
        print("nobuild"); return
    bins = {}
    for q in props:
        a = q.split(":"); pr = a[0]; sec = a[1] if len(a) > 1 else "30"; fam = a[2] if len(a) > 2 else ""
        h = "seqf" if pr in SEQ else "concf"
        if h not in bins:
            try:
                bins[h] = g["BUILD"][h](d)
            except SystemExit:
                print("nobuild-" + h); return
        w = os.path.join(d, "w-" + pr); os.makedirs(w)
        we = dict(e, TMPDIR=w, VERIF_SCRATCH=w, VERIF_FIRST="1", VERIF_FAM=fam, GOMAXPROCS="1",
                  GORACE="halt_on_error=0 report_bugs=1 history_size=2 exitcode=0 atexit_sleep_ms=0 log_path=" + d + "/race")
        try:
            s = subprocess.run([bins[h], "-prop", pr, "-out", w + "/out.json", "-deadline", sec], cwd=w, env=we, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=float(sec) + 200)
            rc, o = s.returncode, s.stdout
        except subprocess.TimeoutExpired:
            rc, o = "timeout", ""
        if rc != 0:
            print(o[:3000]); print("killed %s %s" % (pr, rc)); return
        shutil.rmtree(w, ignore_errors=True)
    print("SURVIVED")
if sys.argv[1] == "--inside":
    inside(sys.argv[2], sys.argv[3:])
else:
    ms = [json.loads(l) for l in open(sys.argv[1])]
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)["n"] for l in open(sys.argv[2])}
    out = open(sys.argv[2], "a")
    def job(x):
        n, m = x
        t = re.search(r"0x([0-9a-f]{4})", m["File"]); t = t.group(1) if t else ""
        r = one(m, n, [p.replace("{type}", t) for p in sys.argv[4:]])
        out.write(json.dumps(r) + "\n"); out.flush()
    with ThreadPoolExecutor(int(sys.argv[3])) as ex:
        list(ex.map(job, [(i, m) for i, m in enumerate(ms) if i not in done]))
