#!/usr/bin/env python3
"""Driver: builds the harness from /repo's working tree, runs the workers that partition the
bounded space, merges their reports into evidence/<id>.json and reports violations."""
import sys
sys.dont_write_bytecode = True
import sysov
import fnmatch, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MC = os.path.join(VERIF, "mc")
NW = 8
DEADLINE = {"quick": 480, "thorough": 3000}

# property -> [(harness, worker property)]
PLAN = {p: [("seq", p)] for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C16 C23 C24".split()}
PLAN.update({p: [("conc", p)] for p in "C10 C11 C12 C13 C14 C15 C17 C19 C20 C21 C22 C26".split()})
PLAN["C08"] = [("seq", "C08"), ("conc", "C08")]
PLAN["C18"] = [("seqf", "C18s"), ("seqf", "C18f"), ("concf", "C18")]
PLAN["C27"] = [("seqf", "C27s"), ("concf", "C27")]
for p in "C17 C21 C26".split(): # file operations are scheduling points there
    PLAN[p] = [("concf", p)]
PLAN["C25"] = [("seq", "C25"), ("conc", "C25")]

ASSUME = {
    "seq": ["single-threaded use of the message codecs, as in the code under test",
            "the reference model (mc/seq) states the intended wire format and storage behaviour",
            "bounds as listed under coverage.families; values outside the enumerated domains are not covered"],
    "conc": ["sequentially consistent interleavings at synchronization, atomic, channel, timer and network operations; races are looked for separately by the race detector in each explored schedule",
             "schedules are explored up to the stated number of deviations from the default schedule",
             "the network, the clock and the Go scheduler are replaced by controlled models (mc/rt)"],
}

def env(scratch):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GO111MODULE="on",
             GOWORK="off", VERIF_SCRATCH=scratch, TMPDIR=scratch, HOME=e.get("HOME", "/root"))
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GODEBUG", None)
    e.pop("VERIF_FAM", None)
    return e

def fail(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)

def run(cmd, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        fail("%s failed in %s:\n%s" % (" ".join(cmd), cwd, r.stdout[-6000:]))
    return r.stdout

FAULTS = ["faults and crashes are injected at the system calls of the Go library (open, read, write, rename, unlink, mkdir, stat, getdents, copy_file_range ...); a crash is the process ending, not the machine losing its caches"]

def modfile(scratch):
    m = os.path.join(scratch, "go.mod")
    if not os.path.exists(m):
        shutil.copy(os.path.join(MC, "go.mod"), m)
        shutil.copy(os.path.join(MC, "go.sum"), os.path.join(scratch, "go.sum"))
    return "-modfile=" + m

def build_seq(scratch, faults=False):
    e = env(scratch)
    out = os.path.join(scratch, "seqf" if faults else "seq")
    if os.path.exists(out):
        return out
    opt = []
    if faults:
        ov = os.path.join(scratch, "sys.json")
        with open(ov, "w") as f:
            json.dump(dict(Replace=sysov.write(scratch, e)), f)
        opt = ["-tags", "verifsys", "-overlay", ov]
    run(["go", "build", modfile(scratch)] + opt + ["-o", out, "./seq"], MC, e)
    return out

def build_conc(scratch, faults=False):
    e = env(scratch)
    # packages built without -race under a race runtime must still tell it about allocations
    e["GOEXPERIMENT"] = "nosizespecializedmalloc"
    mf = modfile(scratch)
    instr = os.path.join(scratch, "instr")
    run(["go", "build", mf, "-o", instr, "./cmd/instr"], MC, e)
    gen = os.path.join(scratch, "gen")
    os.makedirs(gen, exist_ok=True)
    run([instr, "-mc", MC, "-modfile", mf.split("=", 1)[1], "-out", gen], MC, e)
    out = os.path.join(scratch, "concf" if faults else "conc")
    ov = os.path.join(gen, "overlay.json")
    if faults:
        o = json.load(open(ov))
        o["Replace"].update(sysov.write(scratch, e))
        with open(ov, "w") as f:
            json.dump(o, f)
    run(["go", "build", mf, "-race", "-tags", "verifrt" + (",verifsys" if faults else ""), "-overlay", ov,
         "-gcflags=verifmc/rt/...=-race=false -l", "-gcflags=verifmc/conc=-race=false", "-gcflags=verifmc/flt=-race=false", "-o", out, "./conc"], MC, e)
    return out

# seqf, concf: with fault injection at system calls
BUILD = {"seq": build_seq, "conc": build_conc,
         "seqf": lambda s: build_seq(s, True), "concf": lambda s: build_conc(s, True)}

def progress(path):
    try:
        b = open(path, "rb").read()
        fam, idx = struct.unpack("<QQ", b[:16])
        sched = b[64:].rstrip(b"\0").decode("utf8", "replace") if len(b) > 64 else None
        return b[16:64].rstrip(b"\0").decode("utf8", "replace"), idx, sched
    except Exception:
        return "", -1, None

def limits_seq():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

def limits_conc():  # the race detector's shadow memory rules out an address-space limit
    os.setsid()

def attempt(harness, binary, wprop, tier, scratch, deadline, e, which, reports, failures, errors, first):
    """Runs some workers; returns those whose death their last case does not explain."""
    procs = []
    for i in which:
        d = os.path.join(scratch, "w-%s-%s-%d%s" % (harness, wprop, i, "" if first else "-again"))
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o755)
        we = dict(e, TMPDIR=d, VERIF_SCRATCH=d)
        out, prog, log = [os.path.join(d, n) for n in ("out.json", "progress", "log")]
        p = subprocess.Popen([binary, "-prop", wprop, "-tier", tier, "-shard", str(i), "-n", str(NW),
                              "-out", out, "-progress", prog, "-deadline", str(deadline)],
                             cwd=d, env=we, stdout=open(log, "wb"), stderr=subprocess.STDOUT, preexec_fn=limits_seq if harness.startswith("seq") else limits_conc)
        procs.append((i, p, out, prog, log))
    end = time.time() + deadline + 200
    again = []
    for i, p, out, prog, log in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rep = None
        try:
            rep = json.load(open(out))
        except Exception:
            pass
        if rep and rep.get("done") and rc == 0:
            reports.append(rep)
            failures += rep.get("failures") or []
            continue
        fam, idx, sched = progress(prog)
        tail = open(log, "rb").read()
        tail = tail[:6000].decode("utf8", "replace")
        if not fam or rc == 3:
            errors.append("worker %d of %s ended with %s before its first case:\n%s" % (i, wprop, rc, tail))
            continue
        what = "the process died (%s)" % rc
        if rc == 77:
            what = "the implementation does not return (no progress)"
        elif rc == "timeout":
            what = "the implementation does not return"
        elif rc == -9:
            # out of memory or killed: a single input must not exhaust the memory
            what = "the process was killed (memory exhausted?)"
        fl = dict(property=wprop, family=fam, index=idx, case="see replay", what=what + "\n" + tail)
        if sched is not None:
            fl["schedule"] = sched
            fl["case"] = "%s schedule [%s]" % (fam, sched)
        if first and not failures and not confirmed(harness, binary, tier, scratch, e, fl):
            again.append(i)
            continue
        failures.append(fl)
    return again

def confirmed(harness, binary, tier, scratch, e, fl):
    """Whether the case at which a worker died fails when it is run alone."""
    d = tempfile.mkdtemp(prefix="verif-", dir=scratch)
    os.chmod(d, 0o755)
    cmd = [binary, "-prop", fl["property"], "-tier", tier, "-family", fl["family"], "-index", str(fl["index"])]
    if fl.get("schedule") is not None:
        cmd += ["-schedule", fl["schedule"]]
    p = subprocess.Popen(cmd, cwd=d, env=dict(e, TMPDIR=d, VERIF_SCRATCH=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         preexec_fn=limits_seq if harness.startswith("seq") else limits_conc)
    try:
        rc = p.wait(120)
    except subprocess.TimeoutExpired:
        rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    return rc != 0

def workers(harness, binary, wprop, tier, scratch, deadline):
    """Runs the workers of one harness; returns (reports, failures)."""
    e = env(scratch)
    e["GOMAXPROCS"] = "2" if harness.startswith("seq") else "1"
    if harness.startswith("conc"):
        e["GORACE"] = "halt_on_error=0 report_bugs=1 history_size=2 exitcode=0 atexit_sleep_ms=0 log_path=" + os.path.join(scratch, "race")
    t0, reports, failures, errors = time.time(), [], [], []
    again = attempt(harness, binary, wprop, tier, scratch, deadline, e, range(NW), reports, failures, errors, True)
    if again and not failures:
        # a death that its last case alone does not repeat (a machine short of memory or time): once more, and then it counts
        print("note: workers %s of %s ended early, and not because of their last case; running them again" % (again, wprop), flush=True)
        left = max(60, min(deadline, 830 - (time.time() - t0)) if tier == "quick" else deadline)
        attempt(harness, binary, wprop, tier, scratch, left, e, again, reports, failures, errors, False)
    if errors:
        fail("\n".join(errors))
    return reports, failures

def known():
    fn = os.path.join(VERIF, "known_findings.json")
    return json.load(open(fn)) if os.path.exists(fn) else {"known": [], "fixed": []}

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["setup"]:
        return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough") or prop not in PLAN:
        fail("usage: check.sh <property> [quick|thorough]")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(scratch, 0o755)
    try:
        reports, failures = [], []
        deadline = float(os.environ.get("VERIF_DEADLINE", DEADLINE[tier]))
        plan = PLAN[prop]
        for h, wp in plan:
            b = BUILD[h](scratch)
            r, f = workers(h, b, wp, tier, scratch, deadline / len(plan))
            reports += [(h, x) for x in r]
            failures += [dict(x, harness=h, worker=wp) for x in f]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    kn = [k for k in known()["known"] if k["property"] == prop]
    fresh, seen_known = [], []
    for f in failures:
        k = next((k for k in kn if fnmatch.fnmatchcase(f["family"], k["family"]) and k["match"] in (f["case"] + "\n" + f["what"])), None)
        if k:
            if k not in seen_known:
                seen_known.append(k)
        else:
            fresh.append(f)

    fams, samples = {}, []
    tot = dict(states=0, transitions=0, traces=0)
    exhaustive = True
    extra = {}
    for h, r in reports:
        exhaustive = exhaustive and r["exhaustive"]
        for k in tot:
            tot[k] += r[k]
        for f in r["families"] or []:
            g = fams.setdefault(f["name"], dict(name=f["name"], cases=0))
            g["cases"] += f["cases"]
            for k, v in f.items():
                if k not in ("name", "cases", "samples"):
                    g[k] = max(g.get(k, v), v) if isinstance(v, (int, float)) and not isinstance(v, bool) and k.startswith("max") else (
                        g.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v)
            for s in f.get("samples") or []:
                if sum(1 for x in samples if x.startswith(f["name"] + ": ")) < 2 and len(samples) < 60:
                    samples.append(f["name"] + ": " + s[:400])
    if len(reports) < NW * len(plan):
        exhaustive = False
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"], exhaustive=exhaustive,
                            workers=len(reports), families=list(fams.values()), samples=samples),
              assumptions=[a for h in dict.fromkeys(h.rstrip("f") for h, _ in plan) for a in ASSUME[h]] + (FAULTS if any(h.endswith("f") for h, _ in plan) else []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fn = os.path.join(VERIF, "evidence", prop + ".json")
    with open(fn + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    os.replace(fn + ".tmp", fn)

    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for k in kn:
        if k not in seen_known:
            print("note: listed finding did not occur in this run: %s" % k["what"])
    print("%s %s: %d states, %d transitions, %d executions, exhaustive=%s, %.1f s" % (
        prop, tier, tot["states"], tot["transitions"], tot["traces"], exhaustive, time.time() - t0))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = {}
        for f in fresh:
            key = f["family"]
            if shown.get(key, 0) >= 1 or len(shown) >= 10:
                continue
            shown[key] = 1
            h = hashlib.sha1(("%s %s %s" % (prop, f["family"], f["index"])).encode()).hexdigest()[:10]
            rp = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
            with open(rp, "w") as fh:
                json.dump(dict(f, id=prop, tier=tier), fh, indent=1, ensure_ascii=False)
            print("%s[%s]\n  case: %s\n  what: %s" % (f["family"], f["index"], f["case"][:1500], f["what"][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("%d violating executions" % len(fresh))
        sys.exit(1)
    sys.exit(0)

def setup():
    """Builds the harnesses once, which fills the Go build cache; keeps nothing else."""
    scratch = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        for h in sorted({h for pl in PLAN.values() for h, _ in pl}):
            BUILD[h](scratch)
            print("built", h)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay(fn):
    f = json.load(open(fn))
    scratch = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(scratch, 0o755)
    try:
        b = BUILD[f["harness"]](scratch)
        e = env(scratch)
        if f["harness"].startswith("conc"):
            e["GORACE"] = "halt_on_error=0 history_size=2 exitcode=0 atexit_sleep_ms=0 log_path=" + os.path.join(scratch, "race")
            e["GOMAXPROCS"] = "1"
        e["TMPDIR"] = e["VERIF_SCRATCH"] = scratch
        cmd = [b, "-prop", f["worker"], "-tier", f["tier"], "-family", f["family"], "-index", str(f["index"])]
        if f.get("schedule") is not None:
            cmd += ["-schedule", f["schedule"]]
        r = subprocess.run(cmd, cwd=scratch, env=e)
        rc = r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

main()
