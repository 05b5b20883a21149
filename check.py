#!/usr/bin/env python3
"""check.py PROPERTY: generates behaviours of the specification with TLC, replays
them into the code and compares.  Exit 0: held; 1: VIOLATION lines; 2: no answer."""
import fnmatch, json, os, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import profiles, tlcgen

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BIN = os.path.join(HERE, "harness", "target", "release", "conform")
LOCK = threading.Lock()
OUT = os.path.join(HERE, "work", "replays")


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "1.88.0"), CARGO_NET_OFFLINE="true")
    for _ in range(2):
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"), env=env,
                           capture_output=True, text=True)
        if r.returncode == 0:
            return
    print(r.stdout[-3000:], r.stderr[-6000:])
    print("check.py: the harness does not build against /repo")
    sys.exit(2)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known(pid):
    r = []
    p = os.path.join(HERE, "known-findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k["property"] == pid and k.get("status") == "open":
                r.append(dict(**{"class": k["class"]}, contains=k["contains"], what=k["what"]))
    return r


def start(pl, seed, work, pid, only=(), threads=1, hang=0):
    name = "M" + pid + pl.name
    if pl.c["MODE"] == "sim":
        cfg = ["INVARIANT SpecStateOK", "PROPERTY SpecStepOK", "ACTION_CONSTRAINT EmitSim"]
        args = ["-simulate", "num=%d" % pl.num, "-depth", str(pl.depth + 1), "-seed", str(seed)]
    else:
        cfg = ["INVARIANT SpecStateOK", "PROPERTY SpecStepOK"] + (["ACTION_CONSTRAINT EmitFull"] if pl.histories else ["ACTION_CONSTRAINT EmitAll", "VIEW view"])
        args = []
    tlcgen.model("FSGen", name, pl.c, work, extra_cfg=cfg)
    conf = dict(shape=pl.shape(), variants=pl.variants, per_trace=pl.per, classes=pl.classes, focus=pl.focus, seed=seed,
                threads=threads, only=list(only), sample=pl.sample, replay_dir=OUT, name=pid + "-" + pl.name, budget_s=0,
                hang_s=hang, known=known(pid), differential=pl.differential)
    cf = os.path.join(work, name + ".json")
    json.dump(conf, open(cf, "w"))
    tlc = subprocess.Popen(tlcgen.tlc_cmd(work, name, heap="3g", args=args), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, start_new_session=True, cwd=work)
    h = subprocess.Popen([BIN, "replay", cf], stdin=tlc.stdout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=limits, text=True)
    tlc.stdout.close()
    return tlc, h


def finish(tlc, h):
    out, _ = h.communicate()
    try:
        rc = tlc.wait(timeout=20)
    except subprocess.TimeoutExpired:
        os.killpg(tlc.pid, signal.SIGKILL)
        rc = tlc.wait()
    return rc, h.returncode, out


class Result:
    def __init__(self, pl):
        self.pl, self.sum, self.err, self.states, self.hangs, self.secs = pl, None, None, (0, 0), [], 0


def matches(label, pats):
    return any(fnmatch.fnmatchcase(label, p) for p in pats)


def golden(work, family):
    """images written by the version the repository began with"""
    d = os.path.join(work, "golden")
    with LOCK:
        if not os.path.exists(d):
            os.makedirs(d)
            subprocess.run(["tar", "xJf", os.path.join(HERE, "golden", "images.txz"), "-C", d], check=True)
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith(family)]


def run_trace(tr, i, work, pid, res):
    """records runs of the code and lets TLC decide whether spec/Trace.tla allows them"""
    w = os.path.join(work, "%d-%s" % (i, tr.name))
    os.makedirs(w)
    out = os.path.join(w, "trace.ndjson")
    conf = dict(tr.conf, seed=SEED * 1000 + i, runs=tr.runs, steps=tr.steps, variants=tr.variants, out=out, paired=tr.differential or bool(tr.golden))
    if tr.golden:
        fs = golden(work, tr.golden)
        k = (SEED * 7919 + i * tr.runs) % len(fs)
        conf["images"] = fs[k:] + fs[:k]
    cf = os.path.join(w, "record.json")
    json.dump(conf, open(cf, "w"))
    h = subprocess.run([BIN, "record", cf], capture_output=True, text=True, preexec_fn=limits)
    keep = os.path.join(OUT, "%s-%s-%d.record.json" % (pid, tr.name, i))
    s = dict(traces=0, replays=0, steps=0, nontrivial=0, violations=[], other={}, other_example={}, ops={}, known={}, samples=[], variants={}, truncated=False)
    res.sum = s

    def found(cls, failed, up, detail, replay):
        ls = [cls] + (["failed/" + cls] if failed and not cls.startswith(("accept", "error")) else []) + (["upgraded/" + cls] if up else [])
        hit = [l for l in ls if matches(l, tr.classes)]
        kf = [k for k in known(pid) if any(fnmatch.fnmatchcase(l, k["class"]) for l in ls) and k["contains"] in detail]
        if kf:
            s["known"][kf[0]["what"]] = s["known"].get(kf[0]["what"], 0) + 1
        elif hit:
            f = replay()
            s["violations"].append((hit[0], detail, f))
        else:
            s["other"][cls] = s["other"].get(cls, 0) + 1
            s["other_example"].setdefault(cls, detail[:300])

    if h.returncode != 0:
        json.dump(conf, open(keep, "w"))
        if tr.golden:
            # not the image when the same calls end so without it
            json.dump(dict(conf, variants=tr.variants[:1]), open(cf, "w"))
            g = subprocess.run([BIN, "record", cf], capture_output=True, text=True, preexec_fn=limits)
            if g.returncode != 0:
                res.err = "%s: recorder: %s" % (tr.name, (g.stdout + g.stderr)[-2000:])
                return
        if h.returncode == 97:
            found("hang:" + json.loads(h.stdout.strip().splitlines()[-1])["hang"], False, False, "recording does not end", lambda: keep)
        elif h.returncode < 0 or h.returncode == 134:
            found("crash:record", False, False, "recording ended with %d %s" % (h.returncode, h.stderr[-300:]), lambda: keep)
        else:
            res.err = "%s: recorder: %s" % (tr.name, (h.stdout + h.stderr)[-2000:])
        return
    lines = open(out).read().splitlines()
    starts = [k for k, l in enumerate(lines) if '"o":"start"' in l] + [len(lines)]
    for k in range(len(starts) - 1):
        foc = False
        for l in lines[starts[k] + 1:starts[k + 1]]:
            d = json.loads(l)
            key = d["op"]["o"] + ":" + d["r"]["e"]
            s["ops"][key] = s["ops"].get(key, 0) + 1
            foc = foc or key in tr.focus or not tr.focus
        d = json.loads(json.loads(lines[starts[k]])["r"]["e"])["variant"]
        key = "%s/%d" % (d["backend"], d["cs"])
        s["variants"][key] = s["variants"].get(key, 0) + 1
        s["nontrivial"] += foc
    s["traces"] = s["replays"] = len(starts) - 1
    s["steps"] = len(lines) - s["traces"]

    def save(a, b, exp):
        def f():
            p = os.path.join(OUT, "%s-%s-%d-%d.trace" % (pid, tr.name, i, a))
            with open(p, "w") as fo:
                fo.write(json.dumps(conf) + "\n")
                fo.write("\n".join(lines[a:b]) + "\n")
                fo.write("expected: %s\n" % exp)
            return p
        return f

    if tr.differential:
        n = len(tr.variants)
        for k in range(0, len(starts) - 1, n):
            ref = lines[starts[k] + 1:starts[k + 1]]
            for j in range(1, n):
                got = lines[starts[k + j] + 1:starts[k + j + 1]]
                if got != ref:
                    q = next((q for q in range(min(len(got), len(ref))) if got[q] != ref[q]), min(len(got), len(ref)) - 1)
                    o = json.loads(ref[q])["op"]["o"]
                    found("differs/" + o, False, False, "%s: %s | %s: %s" % (lines[starts[k]][:0] + json.dumps(tr.variants[0]), ref[q][:400], json.dumps(tr.variants[j]), got[q][:400]),
                          save(starts[k + j], starts[k + j] + q + 2, ref[q]))
                    break
        # the specification decides about one run of each group
        if not tr.judge:
            res.states = (0, 0)
            return
        sel = [k for k in range(0, len(starts) - 1, n)]
        with open(out, "w") as fo:
            for k in sel:
                fo.write("\n".join(lines[starts[k]:starts[k + 1]]) + "\n")
        lines = [l for k in sel for l in lines[starts[k]:starts[k + 1]]]
    name = "T" + pid + tr.name
    tlcgen.model("Trace", name, dict(tr.c, TraceFile=out), w, spec="TSpec",
                 extra_cfg=["INVARIANT TraceStateOK", "PROPERTY TraceStepOK"] if tr.inv else [])
    t = subprocess.run(tlcgen.tlc_cmd(w, name, heap="3g"), capture_output=True, text=True, cwd=w)
    done = False
    rejected = {}
    for l in t.stdout.splitlines():
        if l.startswith('"REJECT '):
            d = json.loads(json.loads(l)[7:])
            a = max(k for k in range(d["line"]) if '"o":"start"' in lines[k])
            if tr.golden:
                # runs of the same calls, first without and then with the image
                n = starts.index(a)
                rejected[n] = d["line"] - a
                if n % 2 == 0 or rejected.get(n - 1, 1 << 60) <= d["line"] - a:
                    continue
                d["class"] = "image/" + d["class"]
            found(d["class"].split(" ")[0], d["failed"], d["up"], "%s: call %d of a recorded run: %s; the specification says %s" % (
                d["class"], d["line"] - 1 - a, lines[d["line"] - 1][:500], d["exp"]), save(a, d["line"], d["exp"]))
        elif l.startswith('"DONE '):
            done = int(json.loads(l)[5:]) == len(lines)
        elif "distinct states found" in l and "states generated," in l:
            f = l.replace(",", "").split()
            res.states = (int(f[f.index("distinct") - 1]), int(f[0]))
    if t.returncode != 0 or not done:
        res.err = "%s: TLC (%s): %s" % (tr.name, t.returncode, t.stdout[-2500:])


def run_laws(pl, i, work, pid, res):
    """TLC alone: what the episodes of the harness do, for a few repetitions, is what the specification says"""
    w = os.path.join(work, "%d-%s" % (i, pl.name))
    tlcgen.model("Bulk", "L" + pid, pl.c, w, extra_cfg=["INVARIANT BulkLaws", "VIEW view"])
    t = subprocess.run(tlcgen.tlc_cmd(w, "L" + pid, heap="3g", workers=2), capture_output=True, text=True, cwd=w)
    res.sum = dict(traces=0, replays=0, steps=0, nontrivial=0, violations=[], other={}, other_example={}, ops={}, known={}, samples=[], variants={}, truncated=False)
    for l in t.stdout.splitlines():
        if "distinct states found" in l and "states generated," in l:
            f = l.replace(",", "").split()
            res.states = (int(f[f.index("distinct") - 1]), int(f[0]))
    if t.returncode != 0 or "No error has been found" not in t.stdout:
        res.err = "laws: TLC (%s): %s" % (t.returncode, t.stdout[-2500:])


def run_one(pl, i, work, pid, res):
    seed = SEED * 1000 + i
    w = os.path.join(work, "%d-%s" % (i, pl.name))
    trc, hrc, out = finish(*start(pl, seed, w, pid))
    if hrc != 0:
        # the process ended: find the behaviour that did it by running candidates alone
        at = os.path.join(OUT, "%s-%s.at" % (pid, pl.name))
        cand = sorted({int(x) for x in open(at).read().split()}) if os.path.exists(at) else []
        for c in cand:
            w2 = os.path.join(work, pl.name + "only")
            _, rc2, out2 = finish(*start(pl, seed, w2, pid, only=[c], hang=20))
            if rc2 == hrc or rc2 < 0 or rc2 == 97:
                kind = "hang" if rc2 == 97 else "crash"
                f = os.path.join(OUT, "%s-%s-%d-%s.txt" % (pid, pl.name, c, kind))
                with open(f, "w") as fo:
                    fo.write("behaviour %d of seed %d: %s (code %s)\n%s\n" % (c, seed, kind, rc2, out2[-3000:]))
                res.hangs.append((kind, f, "behaviour %d: %s %s" % (c, kind, out2.strip()[-200:])))
                return
        res.err = "%s: harness ended with %s: %s" % (pl.name, hrc, out[-2000:])
        return
    try:
        d = json.loads(out.strip().splitlines()[-1])
    except Exception as e:
        res.err = "%s: no summary: %r %s" % (pl.name, e, out[-2000:])
        return
    res.sum = d["summary"]
    tail = "\n".join(d["tlc"])
    for l in d["tlc"]:
        f = l.replace(",", "").split()
        if "states generated" in l and f and f[0].isdigit():
            g = int(f[0])
            dist = next((int(f[j - 2]) for j in range(len(f)) if f[j].startswith("distinct") and f[j - 1] != "states"), 0) if False else 0
            res.states = (g, g)
            if "distinct" in f:
                res.states = (int(f[f.index("distinct") - 1]), g)
        if l.startswith("The number of states generated:"):
            res.states = (int(f[-1]), int(f[-1]))
    if trc != 0 and not d["summary"]["truncated"]:
        if "is violated" in tail or "Error:" in tail:
            res.err = "%s: TLC: %s" % (pl.name, tail[-3000:])
    if "BADLINE" in tail:
        res.err = "%s: %s" % (pl.name, tail[tail.index("BADLINE"):][:500])


def main():
    pid = sys.argv[1]
    t0 = time.time()
    shutil.rmtree(OUT, ignore_errors=True) if False else None
    os.makedirs(OUT, exist_ok=True)
    build()
    tb = time.time() - t0
    pls = profiles.pipelines(pid, TIER)
    only = sys.argv[2:] 
    if only:
        pls = [p for p in pls if p.name in only]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    # split over the cores, in proportion to the work
    jobs = [p for p in pls if not p.parts(1)]
    rest = [p for p in pls if p.parts(1)]
    total = sum(p.weight() for p in rest)
    for p in rest:
        jobs += p.parts(max(1, round(16 * p.weight() / total)))
    jobs.sort(key=lambda p: -getattr(p, "share", 1.0))
    results = []
    sem = threading.Semaphore(8)

    def go(p, i, r):
        with sem:
            b = time.time()
            try:
                (run_laws if isinstance(p, profiles.Laws) else run_trace if isinstance(p, profiles.Tr) else run_one)(p, i, work, pid, r)
                r.secs = round(time.time() - b, 1)
            except Exception as e:
                r.err = "%s: %r" % (p.name, e)

    ths = []
    for i, p in enumerate(jobs):
        r = Result(p)
        results.append(r)
        t = threading.Thread(target=go, args=(p, i, r))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    shutil.rmtree(work, ignore_errors=True)
    viol, other, ops, knownf, samples, variants = [], {}, {}, {}, [], {}
    states = trans = traces = replays = steps = nontriv = 0
    for r in results:
        for kind, f, what in r.hangs:
            viol.append((kind, what, f))
        if r.sum is None:
            continue
        s = r.sum
        viol += s["violations"]
        for a, b in ((s["other"], other), (s["ops"], ops), (s["known"], knownf), (s["variants"], variants)):
            for k, v in a.items():
                b[k] = b.get(k, 0) + v
        for k, v in s["other_example"].items():
            print("note: other divergence %s: %s" % (k, v))
        samples += s["samples"][:1]
        states += r.states[0]
        trans += r.states[1]
        traces += s["traces"]
        replays += s["replays"]
        steps += s["steps"]
        nontriv += s["nontrivial"]
    errs = [r.err for r in results if r.err]
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=replays, behaviours=traces,
                            distinct_nontrivial=nontriv, steps_compared=steps,
                            recorded_runs=sum(r.sum["replays"] for r in results if r.sum and isinstance(r.pl, profiles.Tr)),
                            rule="behaviours of spec/FSGen.tla by TLC (simulation with the seed, and complete enumeration where the pipeline is exhaustive); replayed into the code; and runs recorded from the code judged by spec/Trace.tla; non-trivial: contains one of the outcomes the property is about",
                            outcomes=ops, replays_per_configuration=variants, other_divergences=other,
                            pipelines=[dict(name=r.pl.name, mode=r.pl.c.get("MODE", "trace"), s=r.secs, states=r.states[0], replays=r.sum["replays"] if r.sum else 0) for r in results],
                            samples=samples[:6]),
              assumptions=["the specification in spec/FS.tla is what the property means", "VectorMemory behaves as stable memory"],
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d behaviours, %d replays, %d steps, %d states; build %.0f s, total %.0f s" % (pid, TIER, traces, replays, steps, states, tb, time.time() - t0))
    if other:
        print("other divergences (not this property):", other)
    for k, n in knownf.items():
        print("KNOWN-FINDING: property=%s %s (%d times)" % (pid, k, n))
    for c, d, f in viol[:5]:
        print("  %s: %s" % (c, d[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    if viol:
        sys.exit(1)
    for e in errs:
        print("ERROR", e)
    if errs or replays == 0:
        sys.exit(2)


if __name__ == "__main__":
    main()
