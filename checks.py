"""The pipelines of every property."""
from vlib import build_harness

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def pair_cases(c, n, mode="bool", label=None):
    return c.generate("GenPair", label=label, constants={"N": n, "Seed": c.seed, "Mode": '"%s"' % mode},
                      invariants=["CellsAreInterior", "ShapesAreSimple"])


@check
def C01(c):
    h = build_harness()
    cases = pair_cases(c, 20000 if c.thorough else 4000)
    c.run("pairs", cases, h, "TrBool", constants={"Prop": '"C01"'})
    return c.finish()


@check
def C02(c):
    h = build_harness()
    cases = pair_cases(c, 8000 if c.thorough else 2000)
    c.run("pairs", cases, h, "TrBool", constants={"Prop": '"C02"'})
    cases = pair_cases(c, 600 if c.thorough else 150, mode="invalid", label="invalid")
    c.run("invalid input", cases, h, "TrBool", constants={"Prop": '"C02"'})
    return c.finish()


@check
def C03(c):
    h = build_harness()
    cases = pair_cases(c, 3000 if c.thorough else 500, mode="vary")
    c.run("presentations", cases, h, "TrBool", constants={"Prop": '"C03"'})
    return c.finish()


def off_cases(c, mode, n, label=None):
    return c.generate("GenOff", label=label or mode, constants={"N": n, "Seed": c.seed, "Mode": '"%s"' % mode},
                      invariants=["MeasuresAgree"])


@check
def C04(c):
    h = build_harness()
    for mode, n in (("closed", 1000), ("open", 500), ("closedtie", 400), ("opentie", 400)):
        c.run(mode, off_cases(c, mode, n * (6 if c.thorough else 1)), h, "TrOff", constants={"Prop": '"C04"'})
    return c.finish()


@check
def C05(c):
    h = build_harness()
    for mode, n in (("closed", 1300), ("closedtie", 600)):
        c.run(mode, off_cases(c, mode, n * (8 if c.thorough else 1)), h, "TrOff", constants={"Prop": '"C05"'})
    return c.finish()


@check
def C06(c):
    h = build_harness()
    for mode, n in (("vary", 400), ("varytie", 200)):
        c.run(mode, off_cases(c, mode, n * (8 if c.thorough else 1)), h, "TrOff", constants={"Prop": '"C06"'})
    return c.finish()


@check
def C07(c):
    h = build_harness()
    for mode, n in (("open", 600), ("selfx", 600), ("opentie", 400)):
        c.run(mode, off_cases(c, mode, n * (6 if c.thorough else 1)), h, "TrOff", constants={"Prop": '"C07"'})
    return c.finish()


@check
def C08(c):
    h = build_harness()
    for mode, n in (("any", 6000 if c.thorough else 600), ("grid", 4000 if c.thorough else 300),
                    ("touch", 3000 if c.thorough else 300)):
        cases = c.generate("GenShape", label=mode, constants={"N": n, "Seed": c.seed, "Mode": '"%s"' % mode}, invariants=["Nested"])
        c.run({"any": "shapes", "grid": "lattice", "touch": "touching"}[mode], cases, h, "TrShape")
    return c.finish()


def one_cases(c, mode, n, classes):
    return c.generate("GenOne", label=mode + "-" + classes, invariants=["Consistent"],
                      constants={"N": n, "Seed": c.seed, "Mode": '"%s"' % mode, "Classes": '"%s"' % classes})


@check
def C09(c):
    h = build_harness()
    k = 6 if c.thorough else 1
    c.run("shapes", one_cases(c, "isect", 1800 * k, "shapes"), h, "TrIsect", constants={"Prop": '"C09"'})
    c.run("walks", one_cases(c, "isect", 1500 * k, "walks"), h, "TrIsect", constants={"Prop": '"C09"'})
    c.run("rings", one_cases(c, "isect", 1500 * k, "rings"), h, "TrIsect", constants={"Prop": '"C09"'})
    c.run("long", one_cases(c, "isect", 200 * k, "long"), h, "TrIsect", constants={"Prop": '"C09"'})
    c.run("hubs", one_cases(c, "isect", 300 * k, "hubs"), h, "TrIsect", constants={"Prop": '"C09"'})
    c.run("shallow", one_cases(c, "isect", 300 * k, "shallow"), h, "TrIsect", constants={"Prop": '"C09"'})
    return c.finish()


@check
def C10(c):
    h = build_harness()
    k = 6 if c.thorough else 1
    c.run("walks", one_cases(c, "self", 3000 * k, "walks"), h, "TrIsect", constants={"Prop": '"C10"'})
    c.run("rings", one_cases(c, "self", 800 * k, "rings"), h, "TrIsect", constants={"Prop": '"C10"'})
    c.run("long", one_cases(c, "self", 300 * k, "long"), h, "TrIsect", constants={"Prop": '"C10"'})
    c.run("hubs", one_cases(c, "self", 1000 * k, "hubs"), h, "TrIsect", constants={"Prop": '"C10"'})
    c.run("shallow", one_cases(c, "self", 300 * k, "shallow"), h, "TrIsect", constants={"Prop": '"C10"'})
    return c.finish()


def one_check(prop, mode, runs):
    def f(c):
        h = build_harness()
        for classes, n in runs:
            c.run(mode + "-" + classes, one_cases(c, mode, n * (6 if c.thorough else 1), classes), h, "TrOne",
                  constants={"Prop": '"%s"' % prop})
        return c.finish()
    f.__name__ = prop
    return check(f)


one_check("C11", "wind", [("walks", 2500), ("rings", 400), ("fine", 200), ("long", 150), ("shallow", 250)])
one_check("C12", "near", [("walks", 2500), ("rings", 400), ("fine", 400), ("long", 150), ("shallow", 250)])
one_check("C13", "measure", [("walks", 2500), ("fine", 300), ("shallow", 250)])
one_check("C15", "clean", [("walks", 3000), ("rings", 800), ("tiny", 4)])
one_check("C16", "slice", [("regular", 2500), ("long", 150), ("shallow", 250)])
one_check("C17", "length", [("walks", 2500), ("fine", 300), ("long", 60), ("shallow", 250)])
one_check("C20", "index", [("walks", 2000), ("long", 200), ("shallow", 300)])


def cont_cases(c, label, mode, n=1, depth=0, maxp=0, maxq=0):
    return c.generate("GenCont", label=label, view="View", invariants=["Laws"],
                      constants={"N": n, "Seed": c.seed, "Mode": '"%s"' % mode, "Depth": depth, "MaxP": maxp, "MaxQ": maxq})


@check
def C14(c):
    h = build_harness()
    c.run("transitions", cont_cases(c, "transitions", "all", maxp=2, maxq=1), h, "TrCont")
    if c.thorough:
        c.run("transitions3", cont_cases(c, "transitions3", "all", maxp=3, maxq=0), h, "TrCont")
    c.run("histories", cont_cases(c, "histories", "long", n=4000 if c.thorough else 400, depth=40 if c.thorough else 30), h, "TrCont")
    return c.finish()


def prim(c, h, fam, n, label=None):
    cases = c.generate("GenPrim", label=fam, invariants=["SegLaws"],
                       constants={"N": n, "Seed": c.seed, "Family": '"%s"' % fam})
    c.run(fam, cases, h, "TrPrim")


@check
def C21(c):
    h = build_harness()
    t = c.thorough
    prim(c, h, "seg", 24 * 19 * 4)
    prim(c, h, "segr", 12000 if t else 1500)
    prim(c, h, "void", 19 * 24 * 19 if t else 2000)
    prim(c, h, "help", 24 ** 3 if t else 3000)
    return c.finish()


@check
def C22(c):
    h = build_harness()
    t = c.thorough
    prim(c, h, "ll", 4096 * 3 if t else 4096)
    prim(c, h, "llr", 6000 if t else 600)
    prim(c, h, "lc", 16 * 16 * 9 * 6 if t else 3000)
    prim(c, h, "lcr", 6000 if t else 600)
    prim(c, h, "cc", 25 * 36 * 5 if t else 1500)
    prim(c, h, "ccr", 6000 if t else 600)
    prim(c, h, "ss", 20000 if t else 2500)
    prim(c, h, "ssr", 10000 if t else 1200)
    prim(c, h, "chord", 12000 if t else 1200)
    prim(c, h, "ring", 12 ** 4 if t else 2000)
    return c.finish()


def ffi_cases(c, label, mode, n=1, depth=0, maxobjs=0, np=4, nl=2, nx=1):
    return c.generate("GenFfi", label=label, view="View", invariants=["Inv"],
                      constants={"N": n, "Seed": c.seed, "Mode": '"%s"' % mode, "Depth": depth, "MaxObjs": maxobjs,
                                 "NP": np, "NL": nl, "NX": nx, "Reuse": "TRUE"})


def ffi(c, h, cases, label):
    c.run(label, cases, h, "TrFfi", constants={"Prop": '"%s"' % c.prop, "Reuse": "FALSE"})


@check
def C18(c):
    h = build_harness(binary="cavf")
    t = c.thorough
    ffi(c, h, ffi_cases(c, "calls", "calls"), "calls")
    ffi(c, h, ffi_cases(c, "opts", "opts", n=6000 if t else 600), "opts")
    ffi(c, h, ffi_cases(c, "histories", "long", n=3000 if t else 300, depth=40 if t else 30), "histories")
    return c.finish()


@check
def C19(c):
    h = build_harness(binary="cavf")
    t = c.thorough
    ffi(c, h, ffi_cases(c, "graph", "graph", depth=5 if t else 4, maxobjs=6, np=2, nl=2), "graph")
    if t:
        ffi(c, h, ffi_cases(c, "graph3", "graph", depth=4, maxobjs=7, np=3, nl=2), "graph3")
    ffi(c, h, ffi_cases(c, "histories", "long", n=1500 if t else 400, depth=60 if t else 40), "histories")
    return c.finish()


@check
def C25(c):
    h = build_harness("harness_serde", "cavs")
    cases = c.generate("GenWire", invariants=["Laws"], constants={"N": 40000 if c.thorough else 3000, "Seed": c.seed})
    c.run("values", cases, h, "TrWire")
    return c.finish()


def total(c, h, label, mode, maxn, grid, curves, n=1):
    cases = c.generate("GenTotal", label=label, constants={"Mode": '"%s"' % mode, "MaxN": maxn, "N": n, "Seed": c.seed,
                                                           "Grid": '"%s"' % grid, "Curves": '"%s"' % curves})
    for i, k in enumerate(cases):
        k["id"] = i + 1
    c.run(label, cases, h, "TrTotal")


@check
def C23(c):
    h = build_harness()
    big = c.thorough
    total(c, h, "query-corner", "query", 3, "corner", "half")
    total(c, h, "query-line", "query", 3, "line", "arcs")
    total(c, h, "query-near", "rquery", 8, "near", "some", 2000 if big else 300)
    total(c, h, "query-big", "rquery", 9, "big", "some", 2000 if big else 300)
    total(c, h, "offset-square", "offset", 3, "square", "arcs")
    total(c, h, "offset-near", "roffset", 8, "near", "arcs", 2000 if big else 200)
    total(c, h, "offset-big", "roffset", 9, "big", "shallow", 2000 if big else 200)
    total(c, h, "pairs-corner", "pairs", 3, "corner", "half")
    total(c, h, "pairs-big", "rpairs", 8, "big", "shallow", 1000 if big else 100)
    if big:
        total(c, h, "query-square", "query", 3, "square", "some")
        total(c, h, "query-line4", "query", 4, "line", "half")
        total(c, h, "offset-corner4", "offset", 4, "corner", "half")
        total(c, h, "offset-near3", "offset", 3, "near", "shallow")
        total(c, h, "pairs-near", "pairs", 3, "near", "lines")
        total(c, h, "pairs-square", "pairs", 3, "square", "half")
    return c.finish()


@check
def C24(c):
    h = build_harness()
    cases = c.generate("GenChain", invariants=["StartSimple"],
                       constants={"N": 1500 if c.thorough else 200, "Seed": c.seed, "Depth": 14 if c.thorough else 10})
    c.run("histories", cases, h, "TrChain")
    return c.finish()
