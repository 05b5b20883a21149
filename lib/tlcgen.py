"""Turns a profile (a dict of constants) into a TLC model of spec/FSGen.tla."""
import os, shutil

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class Set(list):
    """rendered as a TLA+ set; plain lists/tuples are sequences"""


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, Set):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def model(base, name, consts, dir, spec="Spec", mode="sim", extra_cfg=(), extra_tla=""):
    """Writes dir/name.tla and dir/name.cfg extending spec module `base`."""
    os.makedirs(dir, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), dir)
    with open(os.path.join(dir, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, base))
        for k, v in consts.items():
            f.write("c_%s == %s\n" % (k, tla(v)))
        f.write(extra_tla)
        f.write("====\n")
    with open(os.path.join(dir, name + ".cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        for k in consts:
            f.write("CONSTANT %s <- c_%s\n" % (k, k))
        for l in extra_cfg:
            f.write(l + "\n")
        f.write("CHECK_DEADLOCK FALSE\n")


def tlc_cmd(dir, name, heap="2g", workers=1, args=()):
    return ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
            "-Xss64m", "-Xmx" + heap,
            "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
            "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(dir, "meta_" + name),
            "-noGenerateSpecTE", "-config", os.path.join(dir, name + ".cfg"),
            *args, os.path.join(dir, name + ".tla")]
