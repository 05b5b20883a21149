#!/usr/bin/env python3
"""Measures what the checks notice: small changes of the code, one at a time, in scratch copies.

  mutate.py corpus DIR [DIV]        behaviours and settings of all checks (1/DIV of the quick tier)
  mutate.py list FILE               all candidate changes of /repo's sources (JSON lines)
  mutate.py run LIST CORPUS OUT [N [SEED [WORKERS]]]   N of them: tests, then the checks' replays
"""
import gzip, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
SRC = "stable-fs/src"
FILES = ["fs.rs", "filename_cache.rs", "runtime/dir.rs", "runtime/fd.rs", "runtime/file.rs", "runtime/structure_helpers.rs",
         "runtime/types.rs", "storage/allocator.rs", "storage/chunk_iterator.rs", "storage/metadata_provider.rs",
         "storage/ptr_cache.rs", "storage/stable.rs", "storage/transient.rs", "storage/types.rs", "storage/journal.rs"]
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0", CARGO_BUILD_JOBS="1")
MAYFAIL = {"test_file_content_upgrade_from_stable_fs_v0_4", "test_generate_structure_v4_with_current_version"}

OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![-=<>])<=(?!=)", "<"), (r"(?<![-=<>])>=", ">"), (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="),
       (r"&&", "||"), (r"\|\|(?= )", "&&"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ (?!1\b)", " - "), (r" - (?!1\b)", " + "),
       (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif (?!let)", "if !"),
       (r"\.\.(?=[a-z(])", "..="), (r"div_ceil\(", "div_euclid("), (r" / ", " % "), (r" % ", " / "), (r" \* ", " / "),
       (r" = (?=[a-z0-9_.]+;)", " = 1 + "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
       (r"\.is_empty\(\)", ".len() == 1"), (r"saturating_sub", "wrapping_sub"), (r"\bSome\((?=[a-z])", "None.or("), (r"\b0\b", "1"), (r"\bbreak;", "continue;"),
       (r"checked_add", "checked_sub"), (r" \+= ", " -= "), (r" -= ", " += "), (r"\|(?= FdFlags| OpenFlags| Rights)", "&"), (r"&(?= FdFlags)", "|"),
       (r"CHUNK_SIZE_V1", "CHUNK_SIZE_V1 as usize * 2 / 2 + 1"), (r"start_index", "start_index + 1"), (r"\boffset\b", "(offset + 1)"), (r"\bold_node\b", "new_node"), (r"\bdst_", "src_"), (r"\bsrc_", "dst_")]


def candidates(repo="/repo"):
    for f in FILES:
        p = os.path.join(repo, SRC, f)
        lines = open(p).read().split("\n")
        n = next((i for i, l in enumerate(lines) if l.strip() == "#[cfg(test)]" and i + 1 < len(lines) and lines[i + 1].strip().startswith("mod ")), len(lines))
        infn = False
        for i in range(n):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("assert") or s.startswith("debug_assert"):
                continue
            code = l.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if "=>" in code and a.startswith("(?<= )>"):
                        continue
                    new = code[:m.start()] + b + code[m.end():]
                    yield dict(file=f, line=i + 1, old=l, new=new, op=a + " -> " + b)
            # drop a statement
            if s.endswith(";") and not s.startswith(("let ", "return", "use ", "pub ", "const ", "type ", "mod ", "}", "break", "continue", ")", "]", ".")):
                if s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                    yield dict(file=f, line=i + 1, old=l, new="", op="drop")
            # drop a multi line statement or block
            if s.endswith(("(", "{")) and not s.startswith(("fn ", "pub ", "impl", "let ", "match", "struct", "enum", "mod", "}", "else", "const", "static", "for k in", "return", "Ok", "Err", "Some", ".", "|", "(")) and l.startswith("        "):
                ind = len(l) - len(l.lstrip())
                j = i + 1
                while j < n and not (lines[j].strip() and len(lines[j]) - len(lines[j].lstrip()) <= ind):
                    j += 1
                if j < n and lines[j].strip() in ("}", ");", ")?;", "});", "};"):
                    yield dict(file=f, line=i + 1, to=j + 1, old=l, new="", op="drop block")


def corpus(d, div):
    import profiles, tlcgen
    os.makedirs(d, exist_ok=True)
    jobs = []
    for k in range(1, 22):
        pid = "C%02d" % k
        for i, p in enumerate(profiles.pipelines(pid, "quick")):
            if p.c["MODE"] == "sim":
                p.num = max(1, p.num // div)
            jobs.append((pid, i, p))
    sem = threading.Semaphore(7)

    def go(pid, i, p):
        with sem:
            w = tempfile.mkdtemp(prefix="corp-")
            name = "M" + pid + p.name
            if p.c["MODE"] == "sim":
                cfg = ["ACTION_CONSTRAINT EmitSim"]
                args = ["-simulate", "num=%d" % p.num, "-depth", str(p.depth + 1), "-seed", str(1000 + i)]
            else:
                cfg = ["ACTION_CONSTRAINT EmitAll", "VIEW view"]
                args = []
            tlcgen.model("FSGen", name, p.c, w, extra_cfg=cfg)
            out = os.path.join(d, "%s-%s" % (pid, p.name))
            with open(out + ".gz", "wb") as g:
                t = subprocess.Popen(tlcgen.tlc_cmd(w, name, heap="3g", args=args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=w)
                z = subprocess.Popen(["gzip", "-1"], stdin=t.stdout, stdout=g)
                z.wait()
                t.wait()
            json.dump(dict(shape=p.shape(), variants=p.variants, per_trace=p.per, classes=p.classes, focus=p.focus, seed=1000 + i,
                           threads=1, only=[], sample=(p.sample or 1) * (4 if p.c["MODE"] != "sim" else 1), name=pid + "-" + p.name, budget_s=0, hang_s=30, known=[], differential=p.differential),
                      open(out + ".json", "w"))
            shutil.rmtree(w)
    ts = [threading.Thread(target=go, args=j) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]


def sh(cmd, cwd, timeout, env=ENV, **k):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, **k)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, ""


ORDER = ["C15-all", "C06", "C01", "C21-all", "C05", "C07", "C08", "C11", "C13", "C14", "C03", "C18", "C12", "C10", "C09", "C04", "C02", "C16", "C19", "C20", "C17", "C15", "C21"]


def order(corp):
    c = sorted(x[:-5] for x in os.listdir(corp) if x.endswith(".json"))
    return sorted(c, key=lambda x: (min([i for i, o in enumerate(ORDER) if x.startswith(o)] or [99]), x))


def replay(w, corp, x, wild, timeout=600):
    conf = json.load(open(os.path.join(corp, x + ".json")))
    if wild:
        conf["classes"] = ["*"]
        if conf["differential"]:
            conf["per_trace"] = 1
            conf["differential"] = False
    conf["replay_dir"] = os.path.join(w, "replays")
    os.makedirs(conf["replay_dir"], exist_ok=True)
    cf = os.path.join(w, "conf.json")
    json.dump(conf, open(cf, "w"))
    rc, o = sh("gzip -dc %s | (ulimit -v 8000000; exec %s replay %s)" % (os.path.join(corp, x + ".gz"), os.path.join(w, "harness/target/release/conform"), cf), w, timeout, shell=True)
    if rc != 0:
        return "crash/hang rc %s" % rc
    try:
        s = json.loads(o.strip().splitlines()[-1])["summary"]
    except Exception:
        return "nosummary"
    return s["violations"][0][:2] if s["violations"] else None


def setup(k):
    w = "/tmp/mut/w%d" % k
    if not os.path.exists(w):
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        subprocess.run(["cp", "-a", H + "/harness", w + "/harness"], check=True)
        t = open(w + "/harness/Cargo.toml").read()
        open(w + "/harness/Cargo.toml", "w").write(t.replace('"/repo/stable-fs"', '"%s/repo/stable-fs"' % w))
    else:
        subprocess.run("git -C %s/repo checkout -q -- . && rsync -a --delete --exclude target --exclude Cargo.toml %s/harness/ %s/harness/ 2>/dev/null || cp %s/harness/src/* %s/harness/src/" % (w, H, w, H, w), shell=True)
        subprocess.run("cp /repo/stable-fs/src/*.rs %s/repo/stable-fs/src/; cp /repo/stable-fs/src/runtime/*.rs %s/repo/stable-fs/src/runtime/; cp /repo/stable-fs/src/storage/*.rs %s/repo/stable-fs/src/storage/" % (w, w, w), shell=True)
    return w


def one(w, m, corp, skiptests=False):
    p = os.path.join(w, "repo", SRC, m["file"])
    orig = open(os.path.join("/repo", SRC, m["file"])).read()
    lines = orig.split("\n")
    assert lines[m["line"] - 1] == m["old"]
    lines[m["line"] - 1: m.get("to", m["line"])] = [m["new"]]
    open(p, "w").write("\n".join(lines))
    try:
        if not skiptests:
            rc, o = sh("cargo test -p stable-fs --lib --offline --locked --no-run", w + "/repo", 300, shell=True)
            if rc:
                return dict(r="nobuild")
            rc, o = sh("ulimit -v 6000000; cargo test -p stable-fs --lib --offline --locked -- --test-threads 2", w + "/repo", 150, shell=True)
            failed = set(x.split("::")[-1] for x in re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M))
            if (failed - MAYFAIL) or "test result" not in o:
                return dict(r="tests", n=len(failed))
        rc, o = sh("cargo build --release --offline", w + "/harness", 400, env=dict(ENV, CARGO_INCREMENTAL="0"), shell=True)
        if rc:
            return dict(r="noharness", o=o[-500:])
        for x in order(corp):
            v = replay(w, corp, x, True)
            if v:
                return dict(r="caught", by=x, v=v)
        return dict(r="MISSED")
    finally:
        open(p, "w").write(orig)


def run(lst, corp, out, n, seed, workers):
    ms = [json.loads(l) for l in open(lst)]
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"], d["op"]))
    ms = [m for m in ms[:n] if (m["file"], m["line"], m["new"], m["op"]) not in done]
    lock = threading.Lock()

    def work(k):
        w = setup(k)
        while True:
            with lock:
                if not ms:
                    return
                m = ms.pop()
            t = time.time()
            try:
                r = one(w, m, corp)
            except Exception as e:
                r = dict(r="error", e=repr(e))
            with lock:
                open(out, "a").write(json.dumps(dict(m, **r, s=round(time.time() - t))) + "\n")
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "corpus":
        corpus(a[2], int(a[3]) if len(a) > 3 else 10)
    elif a[1] == "list":
        with open(a[2], "w") as f:
            for m in candidates():
                f.write(json.dumps(m) + "\n")
    elif a[1] == "run":
        run(a[2], a[3], a[4], int(a[5]), int(a[6]) if len(a) > 6 else 1, int(a[7]) if len(a) > 7 else 8)
    elif a[1] == "one":   # LIST-line-json CORPUS
        print(one(setup(9), json.loads(a[2]), a[3], True))
