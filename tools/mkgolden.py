#!/usr/bin/env python3
"""Made golden/images.txz: what the version the repository began with leaves in memory.

  mkgolden.py make BIN DIR     BIN: this harness built against that version (commit d809e95 of /repo; its
                               path in Cargo.toml changed); recorded runs, the image at the end of each
  mkgolden.py pick DIR OUT     the images in which the attributes are as the specification has them
                               (that version had defects which leave wrong ones), packed
"""
import collections, glob, json, os, subprocess, sys
CMD, A, B = sys.argv[1:4]
HEAD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/target/release/conform")


def make(bin, d):
    def mk(tag, shape, variants, jobs, seed, names):
        c = dict(shape=shape, variants=variants, seed=seed, runs=6, steps=120, max_nodes=24, max_fds=8, names=names, jobs=jobs,
                 second=False, out=d + "/t.nd", image_out="%s/%s-%%.json" % (d, tag))
        json.dump(c, open(d + "/c", "w"))
        subprocess.run([bin, "record", d + "/c"])
    s = 1
    for b, cs in (("v2", 4), ("v2", 16), ("v2", 64), ("v1", 0), ("mix", 4), ("mix", 16)):
        for lg in (False, True):
            s += 1
            n = "%s%d%s" % (b, cs, "-old" if lg else "")
            mk("plain-" + n, dict(ng=8, max_idx=7, wide=[], mem0=[]), [dict(backend=b, cs=cs, grids=["tiny", "near"], legacy=lg)],
               ["save", "log", "db", "tree", "tree", "backup", "attr", "upgrade"], s, 8)
            mk("mount-" + n, dict(ng=9, max_idx=8, wide=[], mem0=[0, 2]), [dict(backend=b, cs=cs, grids=["page"], legacy=lg)],
               ["mount", "mount", "attr", "save", "upgrade"], s, 5)


def pick(d, out):
    sel = []
    for fam in ("plain", "mount"):
        fs = sorted(glob.glob("%s/%s-*.json" % (d, fam)))
        ok = set(fs)
        ng = 8 if fam == "plain" else 9
        for seed in (5, 6, 7):
            c = dict(shape=dict(ng=ng, max_idx=ng - 1, wide=[], mem0=[0, 2] if fam == "mount" else []),
                     variants=[dict(backend="v2", image="make"), dict(backend="v2", image="load")], seed=seed, runs=len(fs), steps=100,
                     max_nodes=40, max_fds=8, names=8 if fam == "plain" else 5, second=False, paired=True, images=fs, out=d + "/o",
                     jobs=["mount", "attr", "save", "upgrade"] if fam == "mount" else ["save", "log", "db", "tree", "backup", "attr", "upgrade"])
            json.dump(c, open(d + "/c", "w"))
            subprocess.run([HEAD, "record", d + "/c"], check=True)
            L = [json.loads(l) for l in open(d + "/o")]
            st = [i for i, l in enumerate(L) if l["op"]["o"] == "start"] + [len(L)]
            for k in range(0, len(st) - 1, 2):
                a, b = L[st[k] + 1:st[k + 1]], L[st[k + 1] + 1:st[k + 2]]
                if a != b or a[0]["n"] or a[0]["f"] or a[0]["m"] or any(x["op"]["o"] == "panic" for x in a + b):
                    ok.discard(fs[k // 2])
        good = collections.defaultdict(list)
        for f in sorted(ok):
            good[f.rsplit("-", 1)[0]].append((-len(json.load(open(f))["nodes"]), os.path.basename(f)))
        for v in good.values():
            sel += [x[1] for x in sorted(v)[:3 if fam == "plain" else 2]]
    subprocess.run(["tar", "cJf", os.path.abspath(out)] + sel, cwd=d, check=True)


make(A, B) if CMD == "make" else pick(A, B)
