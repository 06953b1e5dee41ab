"""For each property: the jobs that decide it."""
import lib

LEVELS = {"C20": "fault_enumeration"}

VEC = ["b9", "b8", "b5q", "b5", "b1", "b2", "b3", "b6", "b7", "b16", "b63"]
ALL = ["list", "stack", "queue", "vector", "hmap", "tmap", "hset", "tset"]


def api(ctx, binary, name, kinds, focus, rounds, steps, files):
    """`files` traces of each kind, with different seeds, validated against ApiTrace."""
    jobs = []
    for k in kinds:
        for i in range(files):
            seed = ctx.seed * 1000 + i * 17 + sum(map(ord, name + k)) * 131
            args = ["api", "kinds=" + k, "rounds=%d" % rounds, "steps=%d" % steps,
                    "seed=%d" % seed, "focus=" + focus]
            jobs.append(lib.trace_job(ctx, "%s-%s-%d" % (name, k, i), binary, args))
    return jobs


def cases(ctx, binary, what, kinds, n, files=2):
    """Independent cases validated against CaseTrace."""
    jobs = []
    for k in kinds:
        for i in range(files):
            seed = ctx.seed * 1000 + i * 17 + sum(map(ord, what + k)) * 137
            args = ["cases", "what=" + what, "kinds=" + k, "n=%d" % n, "seed=%d" % seed]
            jobs.append(lib.trace_job(ctx, "%s-%s-%d" % (what, k, i), binary, args, spec="CaseTrace"))
    return jobs


def bigs(ctx, binary, kinds, n, files=2, size=140000, name="big"):
    """Large structures (contents as runs), validated against CaseTrace with RunOps."""
    jobs = []
    for k in kinds:
        for i in range(files):
            seed = ctx.seed * 1000 + i * 17 + sum(map(ord, name + k)) * 151
            args = ["cases", "what=big", "kinds=" + k, "n=%d" % n, "seed=%d" % seed, "size=%d" % size]
            jobs.append(lib.trace_job(ctx, "%s-%s-%d" % (name, k, i), binary, args, spec="CaseTrace"))
    return jobs


def runcheck(ctx, kinds):
    """Runs do what the abstract specification does to the contents they stand for."""
    return [lib.mc_job(ctx, "RunCheck-" + k, "RunCheck.tla",
                       "RunCheck_%s%s.cfg" % (k, "" if ctx.quick else "_t"), workers=1, heap="3g")
            for k in kinds]


def explore(ctx, binary, spec, cfg, kind, modes=("graph", "fresh"), ptr=None, cost=0, heap="3g"):
    """All transitions TLC finds in an implementation-level specification, taken in the code."""
    ptrs = ["rc", "arc", "arct", "count"]
    ptr = ptr or ptrs[(ctx.seed + sum(map(ord, spec + cfg))) % 4]
    return lib.replay_job(ctx, "%s-%s-%s" % (spec, cfg, ptr), binary, spec + ".tla",
                          "%s_%s.cfg" % (spec, cfg), ["kind=" + kind, "ptr=" + ptr, "cost=%d" % cost],
                          modes, heap)


def explores(ctx, binary, spec, kind, quick, thorough, **kw):
    return [explore(ctx, binary, spec, c, kind, **kw) for c in (quick if ctx.quick else thorough)]


def cursors(ctx, binary, cfg, kinds, shapes, deep=5):
    """All paths through the transitions of Cursor, taken with real iterators."""
    ptrs = ["rc", "arc", "arct", "count"]
    jobs = []
    for k in kinds:
        ptr = ptrs[(ctx.seed + sum(map(ord, k + cfg))) % 4]
        args = ["kind=" + k, "ptr=" + ptr, "shapes=%d" % shapes, "deep=%d" % deep,
                "ranges=%d" % cfg.startswith("range"), "seed=%d" % ctx.seed]
        jobs.append(lib.replay_job(ctx, "Cursor-%s-%s" % (cfg, k), binary, "Cursor.tla",
                                   "Cursor_%s.cfg" % cfg, args, ("cursor",)))
    return jobs


def c01(ctx):
    b = lib.both_builds()
    return dict(jobs=explores(ctx, b, "VectorImpl", "vector", VEC, VEC + ["b5t", "b10", "b1t"])
                + api(ctx, b, "api", ["vector"], "q:60,ext:6,all:5,make:3", ctx.n(24, 200), 300, 8)
                + bigs(ctx, b, ["vector"], ctx.n(100, 1500), ctx.n(2, 4)) + runcheck(ctx, ["vector"]))


def c02(ctx):
    b = lib.both_builds()
    g = ("group",)
    return dict(jobs=explores(ctx, b, "ListHeap", "list", ["q", "q3"], ["t", "q", "q3"], modes=g)
                + explores(ctx, b, "ListHeap", "stack", ["st"], ["st"], modes=g)
                + api(ctx, b, "api", ["list", "stack"], "q:60,all:5,make:3", ctx.n(24, 200), 300, 4)
                + bigs(ctx, b, ["list", "stack"], ctx.n(120, 1500)) + runcheck(ctx, ["list", "stack"]))


def c03(ctx):
    b = lib.both_builds()
    return dict(jobs=explores(ctx, b, "QueueImpl", "queue", ["q", "i"], ["q", "i", "t"])
                + explores(ctx, b, "Versions", "queue", ["queue"], ["queue_t"], modes=("group",))
                + api(ctx, b, "api", ["queue"], "q:60,all:5,make:3,it:5", ctx.n(24, 200), 300, 8)
                + bigs(ctx, b, ["queue"], ctx.n(150, 1500), ctx.n(2, 3)) + runcheck(ctx, ["queue"]))


def c04(ctx):
    b = lib.both_builds()
    cs = ["same", "two", "deep", "deepv", "wide", "eight"]
    return dict(jobs=explores(ctx, b, "HashTrieImpl", "hmap", cs, cs + ["same5", "two8", "deepw"])
                + api(ctx, b, "api", ["hmap"], "q:80,all:5,make:2", ctx.n(28, 200), 300, 8)
                + bigs(ctx, b, ["hmap"], ctx.n(60, 600), ctx.n(2, 4)) + runcheck(ctx, ["hmap"]))


def c05(ctx):
    b = lib.both_builds()
    return dict(jobs=explores(ctx, b, "RedBlackImpl", "tmap", ["q", "v"], ["tt", "t", "v"])
                + api(ctx, b, "api", ["tmap"], "q:80,all:5,make:2", ctx.n(28, 200), 300, 8)
                + bigs(ctx, b, ["tmap"], ctx.n(80, 800), ctx.n(2, 4)) + runcheck(ctx, ["tmap"]))


def c06(ctx):
    b = lib.both_builds()
    return dict(jobs=explores(ctx, b, "RedBlackImpl", "tset", ["s", "sv"], ["st", "s", "sv"])
                + explores(ctx, b, "HashTrieImpl", "hset", ["sdeep"], ["sdeep", "ssame"])
                + api(ctx, b, "api", ["hset", "tset"], "q:60,rel:60,all:5,make:6",
                         ctx.n(20, 200), 300, 4)
                + cases(ctx, b, "rel", ["hset", "tset"], ctx.n(6000, 60000), 2)
                + bigs(ctx, b, ["hset", "tset"], ctx.n(60, 600), ctx.n(2, 3)) + runcheck(ctx, ["hset", "tset"]))


WIDE = [("vw1", "vector"), ("vw2", "vector"), ("vw3", "vector"), ("hw", "hmap"), ("tw", "tmap"),
        ("hsw", "hset"), ("tsw", "tset")]
WIDER = [("vw1t", "vector"), ("vw2t", "vector"), ("hwt", "hmap"), ("twt", "tmap")]


def wide(ctx, binary, cfgs):
    """Edits in place at many places of two handles that share a structure of some depth."""
    return [explore(ctx, binary, "Versions", c, k, ("group",)) for c, k in cfgs]


def c07(ctx):
    b = lib.both_builds()
    return dict(jobs=[explore(ctx, b, "Versions", k + ("" if ctx.quick else "_t"), k, ("group",))
                      for k in ALL]
                + wide(ctx, b, WIDE + ([] if ctx.quick else WIDER))
                + explores(ctx, b, "ListHeap", "list", ["q3"], ["t", "q3"], modes=("group",))
                + api(ctx, b, "api", ALL, "q:10,all:60,clone:20,make:3,ext:4,solo:1",
                         ctx.n(14, 160), 200, 2)
                + bigs(ctx, b, ALL, ctx.n(20, 300)))


def c08(ctx):
    b = lib.both_builds()
    return dict(jobs=explores(ctx, b, "RedBlackImpl", "tmap", ["v"], ["v", "t"])
                + explores(ctx, b, "HashTrieImpl", "hmap", ["deepv"], ["deepv", "same"])
                + explores(ctx, b, "VectorImpl", "vector", ["b2"], ["b2", "b1t"])
                + [explore(ctx, b, "Versions", k + ("" if ctx.quick else "_t"), k, ("group",))
                   for k in ["list", "vector", "hmap", "tmap"]]
                + wide(ctx, b, [w for w in WIDE if w[0] in ("vw2", "hw", "tw")])
                + api(ctx, b, "api", ALL, "q:10,all:10,clone:15,peq:10,ext:0", ctx.n(24, 240), 300, 2))


def c09(ctx):
    b = lib.both_builds()
    return dict(jobs=api(ctx, b, "api", ALL, "q:0,all:2,it:60,make:8", ctx.n(14, 140), 200, 2)
                + cursors(ctx, b, ctx.n("it", "itt"), ALL, ctx.n(12, 60))
                + bigs(ctx, b, ALL, ctx.n(25, 300)))


def c10(ctx):
    b = lib.both_builds()
    return dict(jobs=api(ctx, b, "api", ["tmap", "tset"], "q:0,all:2,range:100,make:5",
                         ctx.n(20, 200), 400, 4)
                + cursors(ctx, b, ctx.n("range", "ranget"), ["tmap", "tset"], ctx.n(16, 80))
                + bigs(ctx, b, ["tmap", "tset"], ctx.n(60, 600), ctx.n(2, 4)))


def c11(ctx):
    b = lib.both_builds()
    return dict(jobs=cases(ctx, b, "pair", ALL, ctx.n(6000, 60000), 2)
                + bigs(ctx, b, ALL, ctx.n(40, 400)))


def c12(ctx):
    b = lib.both_builds()
    return dict(jobs=api(ctx, b, "api", ["hmap", "tmap", "hset", "tset"],
                         "q:0,all:5,peq:150,clone:25,make:2,inplace:35", ctx.n(20, 200), 300, 2))


def c13(ctx):
    b = lib.both_builds()
    return dict(jobs=cases(ctx, b, "serde", ALL, ctx.n(6000, 60000), 2)
                + bigs(ctx, b, ALL, ctx.n(40, 400)))


def c14(ctx):
    b = lib.both_builds()
    return dict(jobs=cases(ctx, b, "par", ["hmap"], ctx.n(4000, 60000), 4)
                + bigs(ctx, b, ["hmap"], ctx.n(100, 800), ctx.n(2, 3)))


def c15(ctx):
    b = lib.both_builds()
    return dict(jobs=api(ctx, b, "api", ALL, "track:1,live:60,q:5,all:5,make:4,ext:4,clone:15",
                         ctx.n(14, 140), 200, 2))


def costs(ctx, binary, kinds, n, rounds, files=2):
    """What operations cost, along expensive histories, against Costs."""
    jobs = []
    for k in kinds:
        for i in range(files):
            seed = ctx.seed * 1000 + i * 17 + sum(map(ord, k)) * 139
            args = ["cost", "kinds=" + k, "n=%d" % n, "rounds=%d" % rounds, "seed=%d" % seed]
            jobs.append(lib.trace_job(ctx, "cost%d-%s-%d" % (n, k, i), binary, args, spec="CaseTrace"))
    return jobs


def c16(ctx):
    b = lib.both_builds()
    return dict(jobs=[explore(ctx, b, "RedBlackImpl", c, "tmap" if c in ("q", "t", "tt") else "tset",
                              ("graph",), ptr="count", cost=1)
                      for c in (["q", "s"] if ctx.quick else ["tt", "t", "st"])]
                + costs(ctx, b, ALL, ctx.n(1500, 6000), ctx.n(12, 36), ctx.n(2, 6))
                + costs(ctx, b, ["tmap", "tset", "hmap", "queue"], ctx.n(400, 1500), 18, ctx.n(2, 6)))


def c17(ctx):
    b = lib.both_builds()
    return dict(jobs=costs(ctx, b, ALL, ctx.n(1000, 5000), ctx.n(12, 36), ctx.n(2, 6))
                + api(ctx, b, "api", ALL, "cost:1,q:10,all:10,clone:25,make:3,ext:4,live:0",
                      ctx.n(16, 160), 250, 2))


def c18(ctx):
    b = lib.both_builds()
    jobs = []
    plain = lib.cargo_build("plain")   # not optimized: no recursion is turned into a loop
    for k in ALL:
        h = k[0] == "h"
        for name, bb in [("deep", plain)] + ([] if ctx.quick else [("deepo", b)]):
            n = ctx.n(2000 if h else 20000, 6000 if h else 300000)
            args = ["deep", "kind=" + k, "n=%d" % n, "rounds=%d" % (2 if h and ctx.quick else 4),
                    "seed=%d" % ctx.seed]
            jobs.append(lib.trace_job(ctx, name + "-" + k, bb, args, spec="CaseTrace", timeout=2400))
        n = 3000 if h else 200000
        jobs.append(lib.trace_job(ctx, "debug-" + k, plain, ["deep", "kind=" + k, "n=%d" % n, "rounds=1",
                                                         "debug=1"],
                                  spec="CaseTrace", key="debug-%s-%d" % (k, n)))
    chains = ["list", "stack", "queue"]
    jobs += threads(ctx, b, chains, ctx.n(40, 400), ctx.n(150, 1000), drops=1)
    jobs += threads(ctx, b, chains, ctx.n(20, 200), ctx.n(40, 200), drops=1, what="stress")
    jobs.append(lib.paths_job(ctx, "Race-d", b, "Race.tla", "Race_d.cfg", []))
    jobs.append(lib.trace_job(ctx, "lockstep", b, ["threads", "what=lockstep", "n=2000"], spec="CaseTrace",
                              key="lockstep-drop-2000"))
    return dict(jobs=jobs)


def threads(ctx, binary, kinds, n, runs, drops=0, what="explore", files=2):
    """Programs of several threads under many schedules; what they see, against CaseTrace."""
    jobs = []
    for k in kinds:
        for i in range(files):
            seed = ctx.seed * 1000 + i * 17 + sum(map(ord, k + what)) * 149
            args = ["threads", "what=" + what, "kind=" + k, "n=%d" % n, "runs=%d" % runs,
                    "drops=%d" % drops, "seed=%d" % seed]
            jobs.append(lib.trace_job(ctx, "%s-%s-%d" % (what, k, i), binary, args, spec="CaseTrace"))
    return jobs


def c19(ctx):
    b = lib.both_builds()
    jobs = [lib.paths_job(ctx, "Race-" + c, b, "Race.tla", "Race_%s.cfg" % c, [])
            for c in (["q", "d"] if ctx.quick else ["q", "d", "r"])]
    jobs += threads(ctx, b, ALL, ctx.n(60, 600), ctx.n(250, 1500), files=ctx.n(2, 3))
    jobs += threads(ctx, b, ALL, ctx.n(40, 400), ctx.n(60, 400), what="stress")
    if not ctx.quick:
        jobs += [lib.mc_job(ctx, "Race-" + c, "Race.tla", "Race_%s.cfg" % c, workers=4, heap="8g")
                 for c in ["t", "t3"]]
    return dict(jobs=jobs)


def c20(ctx):
    b = lib.both_builds()
    return dict(jobs=api(ctx, b, "api", ALL, "fault:50,track:1,live:15,q:15,all:25,make:9,ext:8",
                         ctx.n(20, 200), 250, 2))


def c21(ctx):
    b = lib.both_builds()
    return dict(jobs=cases(ctx, b, "coll", ALL, ctx.n(3000, 30000), 2))


def c22(ctx):
    b = lib.both_builds()
    nostd = lib.cargo_build("nostd")
    jobs = cases(ctx, b, "ctor", ["any"], 1, 2)
    jobs += bigs(ctx, b, ["vector"], ctx.n(150, 1500), ctx.n(2, 4))
    jobs += bigs(ctx, b, ["hmap", "hset"], ctx.n(40, 400), ctx.n(2, 3))
    # The same specification for every pointer kind ...
    for p in ["rc", "arc", "arct", "count"]:
        jobs += [explore(ctx, b, "Versions", k, k, ("group",), ptr=p) for k in ["hmap", "tmap", "queue"]]
        jobs += [explore(ctx, b, "VectorImpl", c, "vector", ("graph",), ptr=p) for c in ["b1", "b63"]]
    # ... and without the features.
    for k in ALL:
        args = ["api", "kinds=" + k, "rounds=%d" % ctx.n(14, 140), "steps=250",
                "seed=%d" % (ctx.seed * 1000 + sum(map(ord, k))), "focus=q:20,all:10,make:5,it:5,range:5"]
        jobs.append(lib.trace_job(ctx, "nostd-" + k, nostd, args))
    jobs += bigs(ctx, nostd, ALL, ctx.n(12, 150), name="nostd-big")
    jobs += cases(ctx, nostd, "pair", ALL, ctx.n(800, 8000))
    return dict(jobs=jobs)


PLANS = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}

NOT_APPLICABLE = {}
