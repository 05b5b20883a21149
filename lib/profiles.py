"""Which behaviours of the specification are generated for a property, and how
they are replayed.  A profile gives the constants of spec/FSGen.tla and the
configuration of the replay harness."""
from tlcgen import Set


def bag(**w):
    r = []
    for k, n in w.items():
        r += [k] * n
    return r


def consts(**kw):
    ng = kw.pop("NG", 6)
    page = kw.pop("page", False)
    if page:
        pu = [i if i % 2 == 0 else i + 1 for i in range(ng)]
    else:
        pu = list(range(ng))
    c = dict(MaxNodes=8, MaxFds=6, NMem=0, Names=Set("abc"), LongName="LONG", NG=ng, MaxIdx=ng - 1,
             PageUp=pu, Mem0=[], MODE="sim", MaxLen=1, OPS=Set([]), BAG=["open"],
             PATHS=Set([["a"]]), FLS=Set([0, 1]), STS=Set([3]), TAGS=Set([1, 2]), TIMES=Set([1, 7, 11]),
             POLS=Set(["zero"]), WIDE=Set([]), SEEKMAX=ng - 1, BUFS=1, CLS=Set(["freed"]), DEPTH=2, ODD=4)
    c.update(kw)
    return c


FLS = list(range(16))
STS = [3, 3, 3, 7, 1, 2, 0, 15, 5, 6]
RARE = [19, 51, 67, 111, 127, 128, 129, 130, 131, 135, 143, 259, 263, 384, 512, 513, 514, 515, 643, 899]  # flags and rights without a meaning of their own
V = dict


def v2(cs, **k):
    return V(backend="v2", cs=cs, **k)


def backends(**k):
    return [V(backend="v2", cs=4, weight=2, **k), V(backend="v2", cs=8, weight=1, **k), V(backend="v2", cs=16, weight=2, **k),
            V(backend="v2", cs=32, weight=1, **k), V(backend="v2", cs=64, weight=1, **k), V(backend="v1", cs=0, weight=2, **k),
            V(backend="mix", cs=4, weight=1, **k), V(backend="mix", cs=16, weight=1, **k), V(backend="transient", weight=2, **k)]


def stable(**k):
    return [v for v in backends(**k) if v["backend"] != "transient"]


class P:
    """one pipeline: TLC | conform"""

    def __init__(self, name, c, variants, classes, focus, num=0, depth=40, per=1, differential=False, sample=0,
                 share=1.0, histories=False):
        self.histories = histories
        self.name, self.c, self.variants, self.classes, self.focus = name, c, variants, classes, focus
        self.num, self.depth, self.per, self.differential, self.sample, self.share = num, depth, per, differential, sample, share

    def weight(self):
        """of the work to do"""
        return self.num * max(1, self.per * 2 if not self.differential else len(self.variants)) * self.share

    def parts(self, n):
        """n pieces of it; none: it cannot be divided"""
        if self.c["MODE"] != "sim":
            return []
        n = min(n, self.num)
        return [P(self.name + "_%d" % k, self.c, self.variants, self.classes, self.focus, num=self.num * (k + 1) // n - self.num * k // n,
                  depth=self.depth, per=self.per, differential=self.differential, sample=self.sample, share=self.share) for k in range(n)]

    def shape(self):
        return dict(ng=self.c["NG"], max_idx=self.c["MaxIdx"], wide=sorted(self.c["WIDE"]), mem0=list(self.c["Mem0"]))


class Tr:
    """runs recorded from the code and judged by spec/Trace.tla; differential:
    every run is made with all variants and they are compared as well"""

    def __init__(self, name, conf, variants, classes, focus, runs, steps, differential=False, judge=True, inv=True, golden=None):
        self.golden = golden
        self.name, self.conf, self.variants, self.classes, self.focus, self.runs, self.steps = name, conf, variants, classes, focus, runs, steps
        self.differential, self.judge, self.inv = differential, judge, inv
        sh, k = conf["shape"], conf["names"]
        self.c = dict(MaxNodes=conf["max_nodes"], MaxFds=conf["max_fds"], NMem=len(sh["mem0"]), NG=sh["ng"], MaxIdx=sh["max_idx"],
                      Names=Set(["abcde"[i] if i < 5 else "n%d" % i for i in range(k)]), LongName="LONG", Mem0=sh["mem0"],
                      PageUp=[i if i % 2 == 0 or not sh["mem0"] else i + 1 for i in range(sh["ng"])])

    def weight(self):
        return self.runs * self.steps / 30

    def parts(self, n):
        n = min(n, self.runs)
        return [Tr(self.name + "_%d" % k, self.conf, self.variants, self.classes, self.focus, self.runs * (k + 1) // n - self.runs * k // n,
                   self.steps, self.differential, self.judge, self.inv, self.golden) for k in range(n)]


class Laws:
    """the laws of the episodes (spec/Bulk.tla), checked by TLC for every state up to a depth"""

    def __init__(self, depth):
        self.name, self.depth, self.share = "laws", depth, 100
        self.c = consts(MODE="all", MaxLen=depth, NG=4, MaxFds=7, MaxNodes=8, OPS=Set(["open", "mkdir", "close", "link", "unlink", "rename", "mkdiro", "setsize"]),
                        PATHS=Set([["a"], ["b", "a"]]), FLS=Set([0, 1]), TIMES=Set([1]), Names=Set("ab"), BULKN=3, NMem=3, Mem0=[1, 0, 2])

    def parts(self, n):
        return []


# which episodes (spec/Bulk.tla) a property is about
EPISODES = dict(C01=["appends", "sizes"], C02=["sizes", "sizes"], C03=["wide", "links", "appends"], C04=["wide", "churn", "moves"], C05=["links", "moves"], C06=["moves", "deep"],
                C08=["opens", "renums"], C09=["opens", "links"], C10=["appends"], C13=["mounts"], C14=["churn", "wide", "sizes", "links", "mounts"], C16=["deep"],
                C18=["churn", "wide", "links"], C19=["deep", "wide"], C21=["links", "opens", "deep", "wide", "churn", "moves", "appends", "renums", "sizes", "mounts"])


def tconf(jobs=(), ng=8, mems=False, **k):
    d = dict(shape=dict(ng=ng, max_idx=ng - 1, wide=[], mem0=[0, 2] if mems else []), max_nodes=40, max_fds=10, names=10, jobs=list(jobs),
             second=not mems)
    d.update(k)
    return d


NSOPS = ["open", "mkdir", "mkdiro", "unlink", "rmdir", "rmrec", "link", "rename"]


def res(*ops):
    """classes of a wrong result"""
    r = []
    for o in ops:
        r += ["accept:" + o, "reject:" + o, "error:" + o, "panic:" + o, "hang:" + o, "crash:" + o, "value:" + o]
    return r


BASE_NS = dict(create=6, mkdir=4, mkdiro=2, openx=3, open=2, close=4, write=2, unlink=3, rmdir=3, rmrec=1, link=3, rename=7)
BASE_DATA = dict(create=2, openx=2, write=6, writeoff=5, read=3, readoff=3, seek=3, setsize=3, setmeta=1, setlim=1, setall=1,
                 close=1, link=1, rename=1, unlink=1, settime=1)


def data_consts(**k):
    d = dict(Names=Set("ab"), MaxNodes=5, MaxFds=5, DEPTH=1, BUFS=3, FLS=Set(FLS), STS=Set(STS), NG=7, SEEKMAX=6)
    d.update(k)
    return consts(**d)


def ns_consts(**k):
    d = dict(MaxNodes=9, MaxFds=6, DEPTH=3, FLS=Set(FLS), STS=Set([3, 1]), NG=4, SEEKMAX=3, CLS=Set(["freed", "next", "next2", "far", "std"]))
    d.update(k)
    return consts(**d)


def mount_consts(**k):
    d = dict(page=True, NG=7, MaxIdx=6, SEEKMAX=6, NMem=2, Mem0=[0, 2], Names=Set("ab"), MaxNodes=5, MaxFds=4, DEPTH=1, BUFS=2,
             FLS=Set(FLS), STS=Set([3, 3, 7]), POLS=Set(["zero", "prevpages", "explicit", "pages"]))
    d.update(k)
    return consts(**d)


# sizes beyond the maximum are tried as well
OVER = dict(NG=8, WIDE=Set([7]))


def ext_consts(**k):
    # 0..2 near 0, 3..5 up to the maximum, 6..7 just above, 8..11 up to the end of 64 bits
    d = dict(NG=12, MaxIdx=5, WIDE=Set([3, 8, 9, 10]), SEEKMAX=10, Names=Set("ab"), MaxNodes=4, MaxFds=4, DEPTH=1, BUFS=2,
             FLS=Set([0, 1, 8]), STS=Set([3, 3, 7]))
    d.update(k)
    return consts(**d)


MIX = dict(create=4, openx=3, open=1, mkdir=2, mkdiro=2, close=3, renum=2, write=5, writeoff=3, read=2, readoff=2, seek=2, tell=1, flush=1,
           advise=1, setsize=2, setmeta=1, setlim=1, settime=1, setall=1, setstat=1, unlink=2, rmdir=1, rmrec=1, link=2, rename=3, upgrade=1)
MOUNTMIX = dict(create=3, openx=3, close=2, write=6, writeoff=3, read=3, readoff=3, seek=1, setsize=2, setlim=1, settime=1, setall=1,
                mount=6, unmount=4, initm=3, storem=4, unlink=2, rename=2, link=1, upgrade=1)

DATAG = ["tiny", "near", "near", "near", "span"]


def traces(pid, cl, foc, T):
    """recorded runs of small applications"""
    R = []
    m = 20 if T else 1
    stg = stable(grids=DATAG)
    bs = backends(grids=DATAG)

    def tr(name, conf, variants, runs, steps=250, classes=None, **k):
        R.append(Tr(name, conf, variants, classes or cl, foc, runs * m, steps, **k))

    data = ["save", "log", "db", "db", "fds", "attr", "upgrade"]
    names = ["tree", "tree", "tree", "save", "backup", "junk", "fds", "upgrade"]
    if pid == "C01":
        tr("app", tconf(data, ng=10), bs, 32)
        tr("huge", tconf(["db", "save", "log", "fds"], ng=9), [v2(4, grids=["huge"]), v2(4, grids=["huge"]), v2(8, grids=["huge"]), V(backend="v1", cs=0, grids=["huge"])], 8, 60)
    elif pid == "C02":
        tr("app", tconf(["db", "db", "attr", "log", "save"], ng=10), bs, 32)
        tr("huge", tconf(["db", "attr", "save"], ng=9), [v2(4, grids=["huge"]), v2(4, grids=["huge"]), v2(8, grids=["huge"]), V(backend="v1", cs=0, grids=["huge"])], 8, 60)
    elif pid == "C03":
        tr("app", tconf(["save", "log", "db", "tree", "tree", "backup", "fds", "attr", "upgrade", "upgrade"]), stg, 32, classes=["*:upgrade", "upgraded/*"])
        tr("mounts", tconf(["mount", "mount", "attr", "save", "upgrade"], ng=9, mems=True), stable(grids=["page"]), 16, classes=["*:upgrade"])
    elif pid == "C04":
        tr("app", tconf(names, ng=4, names=16, lists=40), backends(grids=["tiny"]), 32)
        tr("crowd", tconf(["tree", "save", "backup", "tree"], ng=3, names=150, max_nodes=300, max_fds=30), backends(grids=["tiny"]), 4, 1200, inv=False)
        tr("big", tconf(["big", "tree"], ng=3, max_nodes=500, names=3000, lists=10), backends(grids=["tiny"]), 3, 1500, inv=False)
        tr("wide", tconf(["wide"], ng=3, max_nodes=40, names=1400, lists=2), [v2(16, grids=["tiny"]), V(backend="transient", grids=["tiny"])], 2, 3600, inv=False)
    elif pid == "C05":
        tr("app", tconf(["backup", "backup", "save", "tree", "fds", "junk", "upgrade"], ng=5), bs, 32)
        tr("big", tconf(["big", "backup", "save"], ng=3, max_nodes=500, names=2000), backends(grids=["tiny"]), 3, 1500, inv=False)
        tr("wide", tconf(["wide"], ng=3, max_nodes=40, names=1200), [v2(16, grids=["tiny"]), V(backend="v1", cs=16, grids=["tiny"])], 1, 3000, inv=False)
    elif pid == "C06":
        tr("app", tconf(["tree", "tree", "save", "backup", "junk", "upgrade"], ng=4), backends(grids=["tiny"]), 32)
        tr("deep", tconf(["deep", "deep", "deep", "tree"], ng=3, max_nodes=250, names=6, max_fds=12), backends(grids=["tiny"]), 4, 700, inv=False)
    elif pid == "C07":
        tr("app", tconf(["junk", "junk", "junk", "tree", "save", "backup", "fds", "attr", "log", "upgrade"], ng=6), bs, 32)
    elif pid == "C08":
        tr("app", tconf(["fds", "fds", "fds", "log", "tree", "backup", "junk", "upgrade"], ng=4), backends(grids=["tiny"]), 32)
        tr("crowd", tconf(["fds", "fds", "fds", "tree"], ng=3, max_fds=60, names=20), backends(grids=["tiny"]), 4, 800, inv=False)
        tr("manyfds", tconf(["manyfds"], ng=3, max_fds=400, names=20), backends(grids=["tiny"]), 2, 1500, inv=False)
    elif pid == "C09":
        tr("app", tconf(["fds", "fds", "tree", "save", "backup", "junk", "upgrade"], ng=4), backends(grids=["tiny"]), 32)
        tr("big", tconf(["big", "fds"], ng=3, max_nodes=300, names=500, max_fds=30), backends(grids=["tiny"]), 3, 1500, inv=False)
    elif pid == "C10":
        tr("app", tconf(["log", "log", "db", "fds"], ng=10), bs, 32)
    elif pid == "C11":
        tr("app", tconf(["fds", "fds", "log", "save", "junk"], ng=6), bs, 32)
    elif pid == "C12":
        tr("app", tconf(["attr", "attr", "db", "log", "save", "fds", "upgrade"], ng=8), bs, 32)
    elif pid == "C13":
        tr("app", tconf(["mount", "mount", "mount", "attr", "save", "fds", "upgrade"], ng=9, mems=True), backends(grids=["page"]), 24)
    elif pid == "C14":
        tr("layout", tconf(["save", "log", "db", "tree", "backup", "fds", "attr", "junk", "upgrade"], space=1), stg, 24)
        tr("laymounts", tconf(["mount", "mount", "attr", "save", "upgrade"], ng=9, mems=True, space=1), stable(grids=["page"]), 16)
        tr("laybig", tconf(["big", "backup", "save"], ng=3, max_nodes=300, names=1000, space=1), stable(grids=["tiny"]), 2, 1000, inv=False)
        tr("layhuge", tconf(["db", "save", "log", "attr", "attr", "unlink"], ng=9, space=3), [v2(4, grids=["huge"])], 8, 50)
    elif pid == "C15":
        k = dict(grids=DATAG, gcs=1)
        vs = [v2(4, **k), v2(64, **k), V(backend="v1", cs=16, **k), V(backend="mix", cs=16, **k), V(backend="transient", **k)]
        tr("app", tconf(ng=9), vs, 16, classes=["differs/*"], differential=True, judge=False)
        k = dict(grids=["huge"], gcs=4)
        tr("huge", tconf(["db", "db", "save", "log", "attr", "fds"], ng=9), [v2(4, **k), v2(32, **k), V(backend="v1", cs=4, **k), V(backend="transient", **k)], 6, 60,
           classes=["differs/*"], differential=True, judge=False)
        k = dict(grids=["tiny"], gcs=4)
        tr("wide", tconf(["wide", "save"], ng=3, max_nodes=60, names=1200), [v2(16, **k), V(backend="transient", **k)], 1, 3500,
           classes=["differs/*"], differential=True, judge=False)
        tr("deep", tconf(["deep", "deep", "tree", "attr"], ng=3, max_nodes=250, names=6, max_fds=12), [v2(16, **k), V(backend="transient", **k)], 3, 700,
           classes=["differs/*"], differential=True, judge=False)
    elif pid == "C16":
        tr("app", tconf(["junk", "junk", "tree", "tree", "save", "backup"], ng=3), backends(grids=["tiny"], names="any"), 32)
        tr("deep", tconf(["deep", "deep", "deep", "tree"], ng=3, max_nodes=250, names=6, max_fds=12), backends(grids=["tiny"]), 4, 700, inv=False)
    elif pid == "C17":
        k = dict(grids=DATAG, gcs=4)
        vs = [v2(4, **k), v2(4, cold=100, **k), v2(4, noise=15, cold=5, **k)]
        tr("app", tconf(ng=9), vs, 16, classes=["differs/*"], differential=True, judge=False)
        k = dict(grids=["tiny"], gcs=4)
        tr("crowd", tconf(["tree", "tree", "tree", "save", "backup", "log"], ng=3, names=300, max_nodes=1600, max_fds=60), [v2(16, **k), v2(16, cold=20, **k)], 1, 3000,
           classes=["differs/*"], differential=True, judge=False)
        tr("big", tconf(["big", "big", "tree", "save"], ng=3, names=3000, max_nodes=1600, max_fds=60), [v2(16, **k), v2(16, cold=20, **k)], 1, 5000,
           classes=["differs/*"], differential=True, judge=False)
        tr("wide", tconf(["wide", "save"], ng=3, max_nodes=60, names=1400), [v2(16, **k), v2(16, cold=20, **k)], 1, 4500,
           classes=["differs/*"], differential=True, judge=False)
        k = dict(grids=["huge"], gcs=4)
        tr("huge", tconf(["db", "db", "save", "log", "attr", "fds", "upgrade"], ng=9), [v2(4, **k), v2(4, cold=30, **k), v2(4, noise=10, **k)], 6, 60,
           classes=["differs/*"], differential=True, judge=False)
    elif pid == "C18":
        tr("app", tconf(["attr", "attr", "save", "tree", "backup", "upgrade"], ng=4), backends(grids=["tiny"]), 32)
    elif pid == "C19":
        tr("app", tconf(["tree", "tree", "tree", "backup", "fds", "upgrade"], ng=3, max_nodes=60, names=12), backends(grids=["tiny"]), 32)
        tr("deep", tconf(["deep", "deep", "deep", "tree"], ng=3, max_nodes=250, names=6, max_fds=12), backends(grids=["tiny"]), 4, 700, inv=False)
        tr("big", tconf(["big"], ng=3, max_nodes=400, names=2000), backends(grids=["tiny"]), 5, 1500, inv=False)
    elif pid == "C20":
        k = dict(grids=DATAG, gcs=4, cs=4)
        tr("app", tconf(["save", "log", "db", "tree", "backup", "attr", "upgrade", "upgrade"], ng=8), [dict(backend="mix", **k), dict(backend="mix", legacy=True, **k)],
           16, classes=["differs/*"], differential=True, judge=False)
        im = [dict(backend="v2", image="make"), dict(backend="v2", image="load")]
        cl = ["image/*", "panic:upgrade", "crash:*", "hang:*"]
        tr("golden", tconf(["save", "log", "db", "tree", "backup", "attr", "upgrade"], second=False, max_fds=8, names=8), im, 40, classes=cl, golden="plain")
        tr("goldenmt", tconf(["mount", "attr", "save", "upgrade"], ng=9, mems=True, max_fds=8, names=5), im, 24, classes=cl, golden="mount")
    elif pid == "C21":
        tr("app", tconf(["junk", "junk", "fds", "tree", "save", "db", "attr", "upgrade"], ng=6), bs, 32)
    return R


def pipelines(pid, tier):
    """the pipelines of a property; num is the number of simulated behaviours"""
    T = tier == "thorough"
    full = dict(grids=DATAG, each=1, second=4)
    R = []
    cl = []

    def sim(name, c, variants, classes, focus, num, **k):
        R.append(P(name, c, variants, classes, focus, num=num, **k))

    if pid == "C01":
        cl = ["content:*", "value:read", "value:write", "size:write", "reject:read", "reject:write", "error:write", "panic:read", "panic:write", "mem:write", "mem:read", "persist-content:*", "persist-size:write", "hang:*", "crash:*"]
        foc = ["write:ok", "read:ok"]
        sim("data", data_consts(BAG=bag(**BASE_DATA)), backends(**full), cl, foc, 400)
        sim("far", data_consts(BAG=bag(**BASE_DATA), WIDE=Set([4])), backends(grids=["far"], each=2, second=8), cl, foc, 200)
        sim("noise", data_consts(BAG=bag(**dict(BASE_DATA, upgrade=1))), backends(grids=DATAG, each=0, noise=10), cl, foc, 300)
        sim("links", ns_consts(BAG=bag(**dict(BASE_NS, write=8, writeoff=4, readoff=4, setsize=2, link=5)), NG=5, SEEKMAX=4), backends(**full), cl, foc, 200)
    elif pid == "C02":
        cl = ["content:*", "value:read", "size:*", "persist-content:*", "persist-size:*"] + res("setsize", "setmeta", "setall") + ["reject:open", "panic:open"]
        foc = ["setsize:ok", "setmeta:ok"]
        b = dict(create=2, openx=3, write=5, writeoff=4, readoff=2, setsize=7, setmeta=3, setall=1, close=1, link=1, rename=1, unlink=1, seek=1)
        sim("resize", data_consts(BAG=bag(**b), FLS=Set([0, 1, 8, 8, 9])), backends(**full), cl, foc, 500)
        sim("far", data_consts(BAG=bag(**b), WIDE=Set([4]), FLS=Set([0, 8])), backends(grids=["far"], each=2, second=8), cl, foc, 250)
        sim("resizeup", data_consts(BAG=bag(**dict(b, upgrade=2))), backends(grids=DATAG, each=1, noise=5), cl, foc, 300)
    elif pid == "C03":
        cl = ["persist-*", "upgraded/*"] + res("upgrade")
        foc = ["upgrade:ok"]
        st = stable(grids=DATAG, each=0, second=1)
        sim("all", ns_consts(BAG=bag(**dict(MIX, upgrade=3)), BUFS=2), st, ["persist-*"] + res("upgrade"), foc, 250)
        sim("mounts", mount_consts(BAG=bag(**dict(MOUNTMIX, upgrade=3))), stable(grids=["page"], each=0, second=1), ["persist-*"] + res("upgrade"), foc, 150)
        k = dict(grids=DATAG, each=2, gcs=4)
        sim("compare", ns_consts(BAG=bag(**dict(MIX, upgrade=3)), BUFS=2),
            [v2(16, soft=True, **k), v2(16, **k)], ["upgraded/panic:*"], foc, 200, per=0, differential=True)
        k = dict(grids=["page"], each=2, gcs=4)
        sim("comparem", mount_consts(BAG=bag(**dict(MOUNTMIX, upgrade=3))),
            [v2(4, soft=True, **k), v2(4, **k)], ["upgraded/panic:*"], foc, 150, per=0, differential=True)
    elif pid == "C04":
        cl = ["tree:*", "order:*", "lookup:*", "listing:*", "dirsize:*", "lost:*", "nodeid:*", "persist-tree:*", "persist-dirsize:*"] + res(*NSOPS)
        foc = ["rename:ok", "unlink:ok", "link:ok", "rmdir:ok"]
        k = dict(grids=["tiny"], each=1, lookup=1, second=6)
        sim("names", ns_consts(BAG=bag(**BASE_NS)), backends(**k) + backends(names="long", **k) + backends(names="prefix", **k) + backends(names="any", **k), cl, foc, 600)
        sim("wide", ns_consts(BAG=bag(**BASE_NS), Names=Set("abcde"), MaxNodes=10, DEPTH=2), backends(**k) + backends(names="any", **k), cl, foc, 300)
        R.append(P("exh", ns_consts(MODE="all", MaxLen=4 if T else 3, NG=2, SEEKMAX=1, MaxNodes=6, MaxFds=4, Names=Set("ab"), OPS=Set(["open", "mkdir", "unlink", "rmdir", "rmrec", "link", "rename"]),
                                    PATHS=Set([["a"], ["b"], ["a", "b"], ["a", "a"]]), FLS=Set([1]), STS=Set([3]), TIMES=Set([1])),
                   [v2(16, grids=["tiny"], lookup=1, each=0)], cl, foc))
    elif pid == "C05":
        cl = ["lc:*", "lost:*", "zombie:*", "tree:link", "tree:unlink", "content:link", "content:unlink", "content:rename", "content:rmrec", "tree:rename", "lookup:*", "persist-lc:*"] + res("link", "unlink", "rmrec") + ["reject:rename", "panic:rename"]
        foc = ["link:ok"]
        b = dict(create=5, mkdir=2, openx=3, close=4, write=5, writeoff=2, readoff=2, setsize=1, unlink=6, rmrec=2, link=8, rename=5, upgrade=1)
        sim("links", ns_consts(BAG=bag(**b)), backends(grids=["tiny", "near"], each=1, second=3, lookup=4, space=5), cl + ["space:leak"], foc, 600)
        R.append(P("exh", ns_consts(MODE="all", MaxLen=5 if T else 4, NG=2, SEEKMAX=1, MaxNodes=6, MaxFds=4, Names=Set("ab"), OPS=Set(["open", "close", "unlink", "link", "rename", "writeoff"]), TAGS=Set([1]),
                                    PATHS=Set([["a"], ["b"]]), FLS=Set([1]), STS=Set([3]), TIMES=Set([1])),
                   [v2(4, grids=["tiny"], each=1, second=1)], cl, foc, sample=1))
        sim("mountlinks", mount_consts(BAG=bag(**dict(MOUNTMIX, link=5, unlink=3))), backends(grids=["page"], each=1, second=3), cl, foc, 150)
    elif pid == "C06":
        cl = ["*:rename"]
        foc = ["rename:ok"]
        b = dict(create=6, mkdir=5, mkdiro=2, openx=2, close=5, write=4, unlink=1, rmdir=1, link=2, rename=14, upgrade=1)
        sim("rename", ns_consts(BAG=bag(**b)), backends(grids=["tiny"], each=1, second=3, lookup=1, space=3), cl, foc, 700)
        R.append(P("exh", ns_consts(MODE="all", MaxLen=4 if T else 3, NG=2, SEEKMAX=1, MaxNodes=7, MaxFds=4, Names=Set("ab"), OPS=Set(["open", "mkdir", "link", "rename", "mkdiro"]),
                                    PATHS=Set([["a"], ["b"], ["a", "b"], ["a", "a"], ["b", "a"]]), FLS=Set([1]), STS=Set([3]), TIMES=Set([1])),
                   [v2(16, grids=["tiny"], each=1, second=1, lookup=1)], cl, foc))
        sim("mounted", mount_consts(BAG=bag(**dict(MOUNTMIX, rename=10))), backends(grids=["page"], each=1, second=3), cl, foc, 150)
    elif pid == "C07":
        cl = ["failed/*"]
        foc = ["open:FileExists", "write:FileTooLarge", "rename:InvalidArgument", "link:OperationNotPermitted", "setsize:FileTooLarge", "rename:DirectoryNotEmpty", "unlink:TextFileBusy", "rename:TextFileBusy"]
        k = dict(each=1, second=1, space=1)
        sim("names", ns_consts(BAG=bag(**dict(MIX, **{x: 3 for x in ("link", "rename", "unlink", "mkdir", "open")})), ODD=20, NG=5, SEEKMAX=4), backends(grids=["tiny", "near"], lookup=3, **k), cl, foc, 400)
        sim("limits", data_consts(BAG=bag(**dict(BASE_DATA, setlim=5, upgrade=1)), ODD=10), backends(grids=DATAG, **k), cl, foc, 250)
        sim("ext", ext_consts(BAG=bag(**dict(BASE_DATA, setlim=3))), backends(grids=["ext"], each=1, second=2), cl, foc, 200)
        sim("mounts", mount_consts(BAG=bag(**MOUNTMIX), ODD=15, **OVER), backends(grids=["page"], each=1, second=1), cl, foc, 150)
    elif pid == "C08":
        cl = ["fdnum:*", "fdstate:*", "fdstat:*", "cursor:*"] + res("close", "renum", "setstat", "tell") + ["panic:open", "panic:mkdiro"]
        foc = ["renum:ok", "close:ok"]
        b = dict(create=4, openx=6, mkdiro=2, mkdir=1, close=8, renum=9, write=3, writeoff=1, read=2, seek=3, tell=2, setstat=2, unlink=2, rename=2, link=1, setsize=1, upgrade=1)
        sim("fds", ns_consts(BAG=bag(**b), MaxFds=8, MaxNodes=6, DEPTH=1, STS=Set(STS + RARE), ODD=12), backends(grids=["tiny"], each=1, lookup=4), cl, foc, 700)
        R.append(P("exh", ns_consts(MODE="all", MaxLen=6 if T else 5, NG=2, SEEKMAX=0, MaxNodes=5, MaxFds=5, Names=Set("a"), OPS=Set(["open", "close", "renum"]),
                                    PATHS=Set([["a"], ["."]]), FLS=Set([1]), STS=Set([3]), TIMES=Set([1]), CLS=Set(["freed", "next", "next2"])),
                   [v2(16, grids=["tiny"], each=1)], cl, foc))
    elif pid == "C09":
        cl = ["lost:*", "zombie:*", "fdstate:*"] + [x + ":" + o for x in ("accept", "reject", "error", "panic", "tree") for o in ("unlink", "rmdir", "rmrec", "rename", "link")]
        foc = ["unlink:TextFileBusy", "rmdir:TextFileBusy", "rename:TextFileBusy", "rmdir:DirectoryNotEmpty"]
        b = dict(create=5, mkdir=3, mkdiro=3, openx=6, close=4, renum=1, write=1, unlink=7, rmdir=7, rmrec=3, link=3, rename=6, upgrade=1)
        sim("busy", ns_consts(BAG=bag(**b)), backends(grids=["tiny"], each=1, second=6), cl, foc, 600)
        sim("mounted", mount_consts(BAG=bag(**dict(MOUNTMIX, unlink=6, rename=5, link=3, rmrec=2))), backends(grids=["page"], each=1), cl, foc, 200)
    elif pid == "C10":
        cl = ["cursor:*", "value:*", "content:seek", "size:seek", "content:write", "size:write", "mem:write"] + res("seek", "tell")
        foc = ["seek:ok"]
        b = dict(create=2, openx=3, write=7, writeoff=3, read=6, readoff=2, seek=10, tell=3, setsize=2, setstat=2, close=1, setlim=1)
        sim("cursor", data_consts(BAG=bag(**b), STS=Set([3, 7, 1, 2, 19, 131, 519])), backends(grids=DATAG, each=1), cl, foc, 700)
        sim("ext", ext_consts(BAG=bag(**b)), backends(grids=["ext"], each=1), cl, foc, 200)
        sim("mounted", mount_consts(BAG=bag(**dict(MOUNTMIX, seek=6, write=8, read=6))), backends(grids=["page"], each=1), cl, foc, 150)
    elif pid == "C11":
        ops = ("open", "mkdiro", "read", "write", "setsize", "setmeta", "setstat")
        cl = ["fdstat:*", "size:open", "content:open", "tree:open", "failed/*:write", "failed/*:open", "failed/*:setsize"] + [x + ":" + o for x in ("accept", "reject", "error", "panic") for o in ops]
        foc = ["write:OperationNotPermitted", "read:OperationNotPermitted", "open:FileExists"]
        b = dict(create=4, openx=8, open=6, mkdir=2, mkdiro=2, close=4, write=6, read=6, writeoff=3, readoff=3, setsize=3, setmeta=1, setstat=5, unlink=1)
        sim("rights", data_consts(BAG=bag(**b), STS=Set(list(range(16)) + RARE), FLS=Set(range(16)), DEPTH=2, MaxNodes=7, NG=5, SEEKMAX=4), backends(grids=["tiny", "near"], each=1), cl, foc, 700)
        R.append(P("exh", data_consts(MODE="all", MaxLen=3 if T else 2, NG=3, SEEKMAX=2, BUFS=1, MaxNodes=6, MaxFds=4, OPS=Set(["open", "writeoff", "readoff", "setsize", "setstat", "mkdir"]), TAGS=Set([1]),
                                      PATHS=Set([["a"], ["b"]]), FLS=Set(range(16)), STS=Set(range(8)), TIMES=Set([1])),
                   [v2(4, grids=["tiny"], each=1)], cl, foc, sample=1))
    elif pid == "C12":
        cl = ["limit:*", "persist-limit:*", "upgraded/limit:*"] + [x + ":" + o for x in ("accept", "reject", "error", "panic") for o in ("write", "setsize", "setmeta", "setall", "setlim", "mount", "initm", "storem")] + ["size:write", "size:setsize", "size:setmeta", "size:setall", "size:setlim"]
        foc = ["write:FileTooLarge", "setsize:FileTooLarge", "setmeta:FileTooLarge", "setlim:FileTooLarge", "mount:FileTooLarge"]
        b = dict(create=2, openx=2, write=5, writeoff=5, setsize=5, setmeta=3, setall=2, setlim=5, close=1, seek=2, rename=1, link=1, settime=1, upgrade=1)
        sim("limits", data_consts(BAG=bag(**b), STS=Set([3, 7])), backends(**full), cl, foc, 500)
        sim("max", ext_consts(BAG=bag(**b), STS=Set([3, 7])), backends(grids=["ext"], each=1, second=4), cl, foc, 300)
        sim("mounts", mount_consts(BAG=bag(**dict(MOUNTMIX, setlim=5, setsize=3)), **OVER), backends(grids=["page"], each=1, second=3), cl, foc, 200)
    elif pid == "C13":
        cl = ["mount:*", "mem:*", "mempages:*", "content:*", "size:*", "value:read", "value:write", "limit:*", "persist-mount:*", "persist-content:*", "persist-size:*"] + res("mount", "unmount", "initm", "storem") + ["reject:read", "reject:write", "panic:read", "panic:write", "*:setsize"]
        foc = ["mount:ok", "storem:ok", "initm:ok"]
        sim("mounts", mount_consts(BAG=bag(**MOUNTMIX)), backends(grids=["page"], each=1, second=3), cl, foc, 400)
        sim("mounts3", mount_consts(BAG=bag(**dict(MOUNTMIX, upgrade=2)), NG=9, MaxIdx=8, SEEKMAX=8, Mem0=[0, 4], Names=Set("abc"), MaxNodes=7), backends(grids=["page"], each=2, second=5, noise=3), cl, foc, 200)
    elif pid == "C14":
        cl = ["space:*"]
        foc = ["unlink:ok", "rmrec:ok", "setsize:ok", "rename:ok"]
        b = dict(create=4, openx=2, write=6, writeoff=4, setsize=5, setmeta=1, close=5, unlink=5, rename=4, link=2, mkdir=2, rmdir=2, rmrec=2, upgrade=1)
        sim("space", ns_consts(BAG=bag(**b), NG=6, SEEKMAX=5, DEPTH=2), stable(grids=DATAG, space=1), cl, foc, 400)
        sim("far", data_consts(BAG=bag(**b), WIDE=Set([4])), stable(grids=["far"], space=1), cl, foc, 200)
        sim("mounts", mount_consts(BAG=bag(**dict(MOUNTMIX, unlink=4))), stable(grids=["page"], space=1), cl, foc, 150)
        sim("legacy", ns_consts(BAG=bag(**dict(b, upgrade=3)), NG=6, SEEKMAX=5, DEPTH=2), stable(grids=DATAG, space=2, legacy=True), cl, foc, 150)
    elif pid == "C15":
        k = dict(grids=DATAG, cadence=True, gcs=1)
        foc = ["write:ok"]
        vs = [v2(4, **k), v2(8, **k), v2(16, **k), v2(32, **k), v2(64, **k), V(backend="v1", cs=16, **k), V(backend="mix", cs=4, **k), V(backend="mix", cs=16, **k), V(backend="transient", **k)]
        sim("all", ns_consts(BAG=bag(**dict(MIX, write=8, setsize=4)), NG=6, SEEKMAX=5, BUFS=2), vs, [], foc, 100, per=0, differential=True)
        sim("data", data_consts(BAG=bag(**BASE_DATA)), vs, [], foc, 120, per=0, differential=True)
        ke = dict(grids=["ext"], cadence=True, gcs=1)
        ves = [dict(v, grids=["ext"]) for v in vs]
        sim("ext", ext_consts(BAG=bag(**dict(BASE_DATA, setlim=3))), ves, [], foc, 60, per=0, differential=True)
        vm = [dict(v, grids=["page"]) for v in vs]
        sim("mounts", mount_consts(BAG=bag(**MOUNTMIX)), vm, [], foc, 50, per=0, differential=True)
        # choosing chunk size and chunk type
        cc = ["conf:*", "persist-conf:*", "content:*", "persist-content:*", "value:read", "size:*"] + res("setcs", "setct")
        kc = dict(grids=DATAG, each=1, second=3, conf=True)
        vc = [v2(4, **kc), v2(16, **kc), v2(64, **kc), v2(8, cold=10, **kc)]
        b = dict(setcs=8, setct=6, create=3, openx=2, mkdir=1, close=1, write=6, writeoff=4, readoff=2, setsize=3, setall=1, settime=1, unlink=2, rename=1, upgrade=2)
        sim("conf", data_consts(BAG=bag(**b)), vc, cc, foc, 250)
        sim("fresh", data_consts(BAG=bag(**dict(setcs=6, setct=3, create=1, openx=1, mkdir=1, settime=1, unlink=2, writeoff=1, readoff=1, upgrade=2, setstat=1, close=1, tell=1))), vc, cc, foc, 400, depth=12)
        R.append(P("confexh", data_consts(MODE="all", MaxLen=5 if T else 4, NG=3, SEEKMAX=2, BUFS=1, MaxNodes=5, MaxFds=3, Names=Set("a"), OPS=Set(["setcs", "setct", "open", "writeoff", "unlink", "upgrade", "close"]), TAGS=Set([1]),
                                          PATHS=Set([["a"]]), FLS=Set([1]), STS=Set([3]), TIMES=Set([1])),
                   [v2(4, grids=["tiny", "near"], each=1, second=1, conf=True), v2(16, grids=["tiny", "near"], each=1, second=1, conf=True)], cc, foc, sample=1))
    elif pid == "C16":
        cl = ["tree:*", "lookup:*"] + res(*NSOPS) + res("mount", "unmount")
        foc = ["open:OperationNotPermitted", "open:FilenameTooLong", "rename:OperationNotPermitted"]
        k = dict(grids=["tiny"], each=1, lookup=2)
        sim("paths", ns_consts(BAG=bag(**dict(BASE_NS, mkdir=5, open=6)), ODD=45, DEPTH=3), backends(**k) + backends(names="long", **k) + backends(names="prefix", **k) + backends(names="any", **k), cl, foc, 700)
        R.append(P("exh", ns_consts(MODE="all", MaxLen=2, NG=2, SEEKMAX=0, MaxNodes=8, MaxFds=4, Names=Set("ab"), OPS=Set(["open", "mkdir", "rename"]),
                                    PATHS=Set([["a"], ["b", ".."], ["a", "b"], ["a", ""], ["", "a"], [".."], ["."], [""], ["a", "..", "b"], ["a", ".", "b", ""], ["a", "..", "..", "a"], ["LONG"], ["a", "LONG"], ["LONG", "..", "a"], ["", "", "a"]]),
                                    FLS=Set([1, 0]), STS=Set([3]), TIMES=Set([1])),
                   [v2(16, grids=["tiny"], each=1, lookup=1), v2(16, grids=["tiny"], each=1, lookup=1, names="long")], cl, foc, sample=1 if T else 5))
    elif pid == "C17":
        k = dict(grids=DATAG, cadence=True, gcs=4)
        foc = ["write:ok", "rename:ok"]
        vs = [v2(4, **k), v2(4, cold=100, **k), v2(4, noise=25, **k), v2(4, ballast=5, noise=40, cold=5, **k)]
        sim("caches", ns_consts(BAG=bag(**dict(MIX, write=8, setsize=4)), NG=6, SEEKMAX=5, BUFS=2), vs, [], foc, 150, per=0, differential=True)
        sim("data", data_consts(BAG=bag(**dict(BASE_DATA, setsize=5, upgrade=1))), vs, [], foc, 150, per=0, differential=True)
        vf = [dict(v, grids=["far", "span"]) for v in vs]
        sim("far", data_consts(BAG=bag(**dict(BASE_DATA, setsize=5, upgrade=1)), WIDE=Set([4])), vf[:3] if False else [dict(v, grids=["far"]) for v in vs], [], foc, 80, per=0, differential=True)
        vb = [v2(16, ballast=1100, noise=4, **k), v2(16, **k), v2(16, ballast=1002, brim=12, **k)]
        sim("scale", ns_consts(BAG=bag(**dict(MIX, write=8, setsize=4)), NG=6, SEEKMAX=5, BUFS=2), vb, [], foc, 4, per=0, differential=True, share=40)
        vv = [V(backend="v1", cs=16, cold=c, noise=n, **k) for c, n in ((0, 0), (100, 0), (5, 25))]
        sim("v1", data_consts(BAG=bag(**dict(BASE_DATA, setsize=5, upgrade=1))), vv, [], foc, 100, per=0, differential=True)
    elif pid == "C18":
        cl = ["nodeid:*", "times:*", "asked:*", "zombie:*", "persist-nodeid:*", "persist-times:*", "value:settime", "lookup:*", "persist-mount:settime"] + res("settime", "setall")
        foc = ["settime:ok"]
        b = dict(MIX, settime=8, setall=4, create=6, unlink=5, mkdir=3, rmrec=2, write=4, upgrade=2)
        sim("attrs", ns_consts(BAG=bag(**b), TIMES=Set([0, 1, 7, 2**31 - 1])), backends(grids=["tiny"], each=1, second=3, lookup=3), cl, foc, 500)
        sim("mounts", mount_consts(BAG=bag(**dict(MOUNTMIX, settime=6)), TIMES=Set([1, 7, 99])), backends(grids=["page"], each=1, second=3), cl, foc, 150)
    elif pid == "C19":
        cl = ["*:rmrec", "space:leak", "space:lost"]
        foc = ["rmrec:ok"]
        b = dict(create=8, mkdir=7, mkdiro=2, openx=3, close=6, write=3, rmrec=7, link=4, rename=3, upgrade=1)
        sim("rmrec", ns_consts(BAG=bag(**b), MaxNodes=11), backends(grids=["tiny"], each=1, second=3, lookup=3, space=1), cl, foc, 600)
        sim("mounted", mount_consts(BAG=bag(**dict(MOUNTMIX, rmrec=6, mkdir=3)), DEPTH=2, MaxNodes=7), backends(grids=["page"], each=1, second=3), cl, foc, 150)
    elif pid == "C20":
        foc = ["upgrade:ok"]
        b = dict(MIX, upgrade=4, write=8, writeoff=5, setsize=6, readoff=4)
        for nm, be in (("v2", v2), ("v1", None), ("mix", None)):
            k = dict(grids=DATAG, cadence=True, gcs=4, cs=4 if nm == "v1" else 16 if nm == "mix" else 4)
            vs = [dict(backend=nm, **k), dict(backend=nm, legacy=True, **k)]
            sim("legacy" + nm, ns_consts(BAG=bag(**b), NG=6, SEEKMAX=5, BUFS=2, DEPTH=2), vs, [], foc, 150, per=0, differential=True)
        k = dict(grids=["page"], cadence=True, gcs=4, cs=4)
        sim("mounts", mount_consts(BAG=bag(**dict(MOUNTMIX, upgrade=3))), [dict(backend="mix", **k), dict(backend="mix", legacy=True, **k)], [], foc, 100, per=0, differential=True)
    elif pid == "C21":
        cl = ["panic:*", "hang:*", "crash:*"]
        foc = []
        sim("ext", ext_consts(BAG=bag(**dict(BASE_DATA, setlim=3, seek=6, setsize=5, advise=1, renum=2)), ODD=15), backends(grids=["ext"], each=1), cl + ["accept:*", "failed/*", "value:*"], foc, 400)
        sim("all", ns_consts(BAG=bag(**dict(MIX, renum=4)), ODD=25, NG=5, SEEKMAX=4), backends(grids=["tiny", "near"], each=3, lookup=5), cl, foc, 400)
        sim("mounts", mount_consts(BAG=bag(**MOUNTMIX), ODD=20, **OVER), backends(grids=["page"], each=3), cl, foc, 150)
    else:
        raise KeyError(pid)
    def exh(name, n, ops, variants, paths=(["a"],), c=ns_consts, p={}, **k):
        """every call of these kinds in every state that up to n of them reach (histories: every sequence of n calls)"""
        d = dict(MODE="all", MaxLen=n, NG=2, SEEKMAX=1, BUFS=1, MaxNodes=6, MaxFds=3, Names=Set("ab"), OPS=Set(ops), TAGS=Set([1]), PATHS=Set(list(paths)),
                 FLS=Set([1]), STS=Set([3]), TIMES=Set([1]))
        d.update(k)
        R.append(P(name, c(**d), variants, cl, foc, sample=1, **p))

    T1 = 1 if T else 0
    one = dict(each=1, second=1)
    if pid in ("C01", "C02"):
        g = dict(grids=["near", "tiny"], **one)
        exh("exh", 6 + T1, ["open", "writeoff", "setsize"], [v2(4, **g), v2(16, **g)], c=data_consts, NG=5, SEEKMAX=4, MaxNodes=5, MaxFds=3, TAGS=Set([0, 1, 2]))
        exh("exhother", 6 + T1, ["open", "writeoff", "setsize", "setct"], [V(backend="v1", cs=0, **g), V(backend="mix", cs=4, **g), V(backend="transient", grids=["near"], each=1)], c=data_consts, NG=4, SEEKMAX=3, MaxNodes=5, MaxFds=3, TAGS=Set([0, 1]))
    elif pid == "C03":
        exh("exh", 5 + T1, ["open", "writeoff", "setsize", "unlink", "rename", "close", "upgrade", "settime", "setlim"], [v2(4, grids=["near"], each=0, second=1)], paths=(["a"], ["b"]))
    elif pid == "C07":
        exh("exh", 3 + T1, ["open", "mkdir", "unlink", "rmdir", "rmrec", "link", "rename", "mkdiro"], [v2(4, grids=["tiny"], space=1, lookup=1, **one)], paths=(["a"], ["b"], ["a", "b"]), FLS=Set([1, 5, 8]))
    elif pid == "C09":
        exh("exh", 5 + T1, ["open", "close", "unlink", "rename", "link", "rmdir", "mkdiro"], [v2(4, grids=["tiny"], **one)], paths=(["a"], ["b"]))
    elif pid == "C10":
        exh("exh", 5 + T1, ["open", "write", "read", "seek", "setsize", "setstat"], [v2(4, grids=["near"], each=1)], c=data_consts, NG=4, SEEKMAX=3, MaxNodes=5, STS=Set([3, 7]))
    elif pid == "C12":
        exh("exh", 6 + T1, ["open", "writeoff", "setsize", "setlim", "setall", "upgrade"], [v2(4, grids=["near"], **one), V(backend="v1", cs=0, grids=["near"], **one)], c=data_consts, NG=4, SEEKMAX=3, MaxNodes=5)
    elif pid == "C13":
        exh("exh", 5 + T1, ["open", "writeoff", "setsize", "mount", "unmount", "initm", "storem"], [v2(4, grids=["page"], **one)], c=mount_consts, NG=5, MaxIdx=4, SEEKMAX=4, NMem=1, Mem0=[2], MaxNodes=6, MaxFds=3)
    elif pid == "C14":
        exh("exh", 5 + T1, ["open", "writeoff", "setsize", "unlink", "rename", "close", "link"], [v2(4, grids=["near"], each=1, space=1)], paths=(["a"], ["b"]), NG=3, SEEKMAX=2)
    elif pid == "C17":
        g = dict(grids=["near"], each=1, gcs=4)
        exh("exh", 4 + T1, ["open", "writeoff", "setsize"], [v2(4, **g), v2(4, cold=100, **g)], paths=(["a"], ["b"]), c=data_consts, NG=3, SEEKMAX=2, MaxNodes=6,
            p=dict(differential=True, per=0, histories=True))
    elif pid == "C18":
        exh("exh", 4 + T1, ["open", "settime", "setall", "mkdir", "unlink", "rename", "close", "upgrade"], [v2(4, grids=["tiny"], lookup=1, **one)], TIMES=Set([1, 7]))
    elif pid == "C19":
        exh("exh", 5 + T1, ["open", "close", "mkdir", "link", "rmrec"], [v2(4, grids=["tiny"], lookup=1, space=1, **one)], paths=(["a"], ["b"], ["a", "b"]))
    if pid in EPISODES:
        ks = EPISODES[pid]
        mix = dict(MIX, **{x: 9 // len(ks) + 1 for x in ks})
        ecl = ["panic:bulk", "hang:*", "crash:*"] + ([] if pid == "C21" else ["bulk:" + x for x in ks] + cl)
        if pid == "C03":
            mix["upgrade"] = 6
            ecl = ["persist-*"]
        g = dict(grids=["tiny"], each=2, second=2 if pid == "C03" else 12, lookup=7)
        if pid in ("C14", "C19"):
            g["space"] = 1
        vs = stable(**g) if pid in ("C03", "C14") else backends(**g)
        sim("episodes", ns_consts(BAG=bag(**mix)), vs, ecl, ["bulk:ok"], 8, share=3)
    for p in R:
        p.num *= 100 if T else 10
    if pid in EPISODES:
        R.append(Laws(5 if T else 3))
    R += traces(pid, cl, foc, T)
    return R
