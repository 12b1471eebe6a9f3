"""What each property's check runs."""
import os
from vlib import par, TIER, SEED, CheckError, Violation, died_in_call

Q = TIER == "quick"


def pick(quick, thorough):
    return quick if Q else thorough


def component(run, harness, spec, models, traces, flags=(), trace_consts=None, extra=(), long=()):
    """The common shape: model check + replay the graphs, record + validate.
    models: (tag, consts, [(variant, secs)...]); traces: (variant, runs, len, files)"""
    import threading
    from concurrent.futures import ThreadPoolExecutor, Future
    tc = dict(trace_consts if trace_consts is not None else models[0][1])
    with ThreadPoolExecutor(1) as ex:
        exe = ex.submit(run.build, harness, flags)

        def mpart(tag, consts, variants):
            def f():
                g = run.model(spec, consts, tag)
                e = exe.result()
                for k, (v, secs) in enumerate(variants):
                    run.replay_graph(e, v, g, secs, k)
            return f

        def tpart(variant, runs, length, k, tcv):
            def f():
                run.trace(exe.result(), variant, spec, tcv, runs, length, "%s_%d" % (variant, k), seed_off=17 * k + 3)
            return f

        def lpart(variant, tcv, length, k):
            def f():
                run.trace(exe.result(), variant, spec, tcv, 0, 0, "%s_long%d" % (variant, k), seed_off=511 + k,
                          args=["long", "@", str(SEED * 7919 + 511 + k), str(pick(1, 6)), str(pick(length, 3 * length))])
            return f
        fns = [mpart(*m) for m in models]
        for t in traces:
            variant, runs, length, files = t[:4]
            tcv = dict(tc, **(t[4] if len(t) > 4 else {}))
            fns += [tpart(variant, runs, length, k, tcv) for k in range(files)]
        fns += [lpart(v, dict(tc, **c), n, k) for k, (v, c, n) in enumerate(long)]
        par(*fns, *extra)


def movable(run, harness, spec, consts, flags=(), variant="M"):
    """Values that can only be moved, a driver of their own."""
    def f():
        exe = run.build_also(harness, ["-DMOVE_ONLY", *flags], "values that can only be moved", out=harness + "_m")
        run.trace(exe, variant, spec, consts, pick(40, 400), 120, "moveonly", seed_off=71)
    return f


def wide(run, harness, spec, consts, flags=(), variants=("W",), out=None):
    """Wide, over-aligned, bitwise copyable values whose equality is not bitwise."""
    def f():
        exe = run.build(harness, ["-DWIDE", *flags], out=(out or harness) + "_w")
        for k, v in enumerate(variants):
            run.trace(exe, v, spec, consts, pick(30, 400), 120, "wide%d" % k, seed_off=73 + k)
    return f


BULK = {   # number of the driver, operations
    "vector": (1, {"back", "popb", "clear", "make", "reserve", "set", "at", "erase", "copy", "assign", "swap", "eq", "walk", "il", "gone"}),
    "deque": (2, {"back", "front", "popb", "popf", "clear", "make", "set", "at", "copy", "assign", "walk", "il", "gone"}),
    "list": (3, {"back", "front", "popb", "popf", "clear", "make", "set", "at", "ins", "erase", "copy", "assign", "walk", "gone"}),
    "flist": (4, {"front", "popf", "clear", "make", "set", "at", "ins", "erase", "copy", "assign", "swap", "walk", "gone"}),
    "queue": (5, {"back", "popf", "make", "copy", "assign", "walk", "gone"}),
    "str": (6, {"il", "back", "popb", "clear", "make", "reserve", "set", "at", "join", "find", "findr", "cmp", "cmpz", "copy", "assign", "eq", "walk", "gone"}),
    "set": (7, None), "map": (8, None)}


def bulk_spec(kind, acct=9):
    part, ops = BULK[kind]
    if ops:
        return part, "Bulk", dict(St=int(kind != "str"), Ops=ops, Acct=acct, K=1, MaxN=pick(3, 4))
    return part, "BulkOrd", dict(Map=kind == "map", Acct=acct, K=1, MaxKey=pick(3, 4))


def bulk(run, kind):
    """The same type with up to 2^13 .. 2^17 elements, many at a time."""
    part, spec, con = bulk_spec(kind)

    def f():
        exe = run.build("bulk", ["-DPART=%d" % part], out="bulk_" + kind)
        g = run.model(spec, con, "bulk")
        run.replay_graph(exe, "g", g, pick(1, 10), 5)
        for v, k in (("int", 3), ("E", 2)):
            if (kind, v) != ("str", "E"):
                run.trace(exe, v, spec, dict(con, K=k), pick(4, 40) * (5 if kind == "str" else 1), pick(50, 80), "bulk_" + v, seed_off=60 + k)
        # more than 2^16 elements, and than 2^8 blocks
        run.trace(exe, "H", spec, dict(con, K=2), pick(3, 12) * (4 if kind == "str" else 1), pick(12, 20), "bulk_H", seed_off=77)
    return f


def bulk_stream(run):
    """Streams and memory files with texts of up to 2^17 characters."""
    exe = run.build("bulk", ["-DPART=9"], out="bulk_stream")
    g = run.model("StreamBig", dict(K=1, MaxN=pick(4, 6)), "big", key=True)
    run.replay_graph(exe, "g", g, pick(1, 10), 5)
    run.trace(exe, "int", "StreamBig", dict(K=3, MaxN=1), pick(10, 100), pick(80, 120), "big", seed_off=90)
    run.trace(exe, "H", "StreamBig", dict(K=2, MaxN=1), pick(4, 30), pick(30, 40), "huge", seed_off=91)


def bulk_held(run, kind):
    """... with everything alive and allocated counted, and calls that fail."""
    part, spec, con = bulk_spec(kind, {"map": 2, "str": 0}.get(kind, 1))

    def f():
        exe = run.build("bulk", ["-DPART=%d" % part], out="bulk_" + kind)
        for v in ("L", "X"):
            if (kind, v) != ("str", "X"):
                run.trace(exe, v, spec, dict(con, K=2), pick(5, 50), pick(60, 80), "%s_%s" % (kind, v), seed_off=80 + part)
    return f


def c01(run):
    V2 = {1, 2}
    component(run, "vector", "Vector",
              [("content", dict(K=1, Vals=V2, MaxLen=pick(4, 6), Group="content"), [("E1", pick(3, 40))]),
               ("objects", dict(K=2, Vals=V2, MaxLen=pick(2, 3), Group="all"), [("E", pick(2, 40)), ("int", pick(1, 20))])],
              [("E", pick(60, 600), 120, pick(2, 6)), ("int", pick(60, 600), 120, pick(1, 4))], trace_consts=dict(K=2, Vals=V2, MaxLen=1, Group=""),
              long=[("E", {}, 1500), ("int", {}, 3000)],
              extra=[bulk(run, "vector"), movable(run, "vector", "Vector", dict(K=2, Vals=V2, MaxLen=1, Group="")),
                     wide(run, "vector", "Vector", dict(K=2, Vals=V2, MaxLen=1, Group=""))])


def c02(run):
    component(run, "vectorcap", "VectorCap",
              [("one", dict(K=1, MaxLen=pick(4, 6), Slack=8), [("E1", pick(3, 30)), ("int1", pick(2, 20))])],
              [("E", pick(40, 400), 150, pick(2, 6), dict(K=3, Slack=32)), ("int", pick(40, 400), 150, 2, dict(K=2, Slack=32))],
              extra=[lambda: run.model("VectorCap", dict(K=2, MaxLen=2, Slack=1), "two", emit=False),
                     wide(run, "vectorcap", "VectorCap", dict(K=2, MaxLen=1, Slack=32))],
              long=[("E", dict(K=3, Slack=32), 2500)])


def deque_parts(run, chunks, group, maxlen, variants, secs, traces):
    """Per block size: its own driver, the block-level state graph, histories."""
    V2 = {1, 2}
    fns = []

    def one(cs):
        def f():
            exe = run.build("deque", ["-DCEST_VERIF_CHUNK_SIZE=%d" % cs], out="deque%d" % cs)
            if group != "none":
                g = run.model("DequeImpl", dict(CS=cs, Vals={1, 2} if cs == 2 else {1}, MaxLen=pick(2 * cs + 1, 3 * cs), MaxBlocks=4 if cs == 2 else 3), "cs%d" % cs, key=True, workers=1)
                run.replay_graph(exe, "E1", g, secs, cs)
            for v, runs, length in traces:
                run.trace(exe, v, "Deque", dict(K=2, Vals=V2, MaxLen=1, Group=""), runs, length, "%s_cs%d" % (v, cs), seed_off=cs)
            return exe
        return f

    def abstract():
        cs = chunks[0]
        exe = run.build("deque", ["-DCEST_VERIF_CHUNK_SIZE=%d" % cs], out="deque%dg" % cs)
        for tag, consts, vs in variants:
            g = run.model("Deque", consts, tag)
            for v, s in vs:
                run.replay_graph(exe, v, g, s, 7)
    par(abstract, *[one(cs) for cs in chunks])


def c03(run):
    V2 = {1, 2}
    deque_parts(run, pick([2, 3, 4], [2, 3, 4, 5, 8]), "impl", 5,
                [("content", dict(K=1, Vals=V2, MaxLen=pick(4, 5), Group="content"), [("E1", pick(3, 60))]),
                 ("objects", dict(K=2, Vals=V2, MaxLen=pick(2, 3), Group="objects"), [("E", pick(2, 60)), ("int", pick(1, 20))])],
                pick(2, 40), [("E", pick(30, 300), 150), ("int", pick(20, 200), 150)])
    par(bulk(run, "deque"), lambda: big(run, 1), movable(run, "deque", "Deque", dict(K=2, Vals=V2, MaxLen=1, Group=""), ["-DCEST_VERIF_CHUNK_SIZE=3"]),
        wide(run, "deque", "Deque", dict(K=2, Vals=V2, MaxLen=1, Group=""), ["-DCEST_VERIF_CHUNK_SIZE=3"]))


def big(run, k):
    """The real block size, histories of thousands of steps."""
    exe = run.build("deque", [], out="deque1024")
    run.trace(exe, "big", "DequeBig", dict(K=1, Vals={1, 2}, MaxLen=1, Group=""), pick(2, 10), pick(4000, 12000), "big%d" % k, seed_off=900 + k)


def c04(run):
    deque_parts(run, pick([2, 3, 4], [2, 3, 4, 5, 8]), "none", 5,
                [("iter", dict(K=1, Vals={1, 2}, MaxLen=pick(5, 7), Group="iter"), [("E1", pick(3, 60))])],
                0, [("E", pick(30, 400), 200), ("int", pick(20, 200), 150)])
    par(lambda: big(run, 2), wide(run, "deque", "Deque", dict(K=2, Vals={1, 2}, MaxLen=1, Group=""), ["-DCEST_VERIF_CHUNK_SIZE=4"]))


def c05(run):
    V2 = {1, 2}
    component(run, "list", "List",
              [("content", dict(K=1, H=0, Vals=V2, MaxLen=pick(3, 4), Group="content"), [("E10", pick(2, 30))]),
               ("held", dict(K=1, H=1, Vals=V2, MaxLen=pick(3, 4), Group="held"), [("E1", pick(3, 40))]),
               ("objects", dict(K=2, H=0, Vals=V2, MaxLen=pick(2, 3), Group="objects"), [("E20", pick(2, 30))]),
               ("objheld", dict(K=2, H=1, Vals={1}, MaxLen=2, Group="all"), [("E2", pick(2, 30))])],
              [("E3", pick(60, 600), 120, pick(2, 6), dict(K=3, H=3)), ("int", pick(60, 600), 120, pick(1, 3), dict(K=2, H=2))],
              long=[("E3", dict(K=3, H=3), 1500), ("int", dict(K=2, H=2), 2500)],
              extra=[bulk(run, "list"), wide(run, "list", "List", dict(K=2, H=2, Vals=V2, MaxLen=1, Group=""))])


def c06(run):
    V2 = {1, 2}
    component(run, "flist", "FList",
              [("content", dict(K=1, H=0, Vals=V2, MaxLen=pick(3, 5), Group="content"), [("E10", pick(2, 30))]),
               ("held", dict(K=1, H=1, Vals=V2, MaxLen=pick(3, 4), Group="held"), [("E1", pick(3, 40))]),
               ("objects", dict(K=2, H=1, Vals={1}, MaxLen=pick(2, 3), Group="all"), [("E2", pick(3, 30))])],
              [("E3", pick(60, 600), 120, pick(2, 6), dict(K=3, H=3)), ("int", pick(60, 600), 120, pick(1, 3), dict(K=2, H=2))],
              long=[("E3", dict(K=3, H=3), 1500), ("int", dict(K=2, H=2), 2500)],
              extra=[bulk(run, "flist"), wide(run, "flist", "FList", dict(K=2, H=2, Vals=V2, MaxLen=1, Group=""))])


def tree(run, harness, spec, m):
    """set and map: the ordered specification, and every reachable tree."""
    A = dict(Vals={1, 2}, Keys={1, 2, 3}) if m else dict(Vals={1, 2, 3, 4})
    T = dict(Vals={1, 2}, Keys={1, 2, 3, 4, 5}) if m else dict(Vals={1, 2, 3, 4, 5, 6, 7})

    def shapes():
        g = run.model("RBTree", dict(N=pick(7, 9), Map=m), "shapes", key=True, workers=1)
        e = run.build(harness, out=harness + "_s")
        run.replay_graph(e, "E10", g, pick(3, 40), 3)
        run.replay_graph(e, "int10", g, pick(2, 40), 4)
    X = dict(Vals={1}, Keys={1}) if m else dict(Vals={1})
    component(run, harness, spec,
              [("content", dict(A, K=1, H=0, Div=1, Desc=False, Group="content"), [("E10", pick(2, 30))]),
               ("tag", dict(T, K=1, H=0, Div=2, Desc=False, Group="content"), [("tag10", pick(2, 30))]),
               ("held", dict(A, K=1, H=1, Div=1, Desc=False, Group="held"), [("E1", pick(2, 30))]),
               ("objects", dict(A, **(dict(Vals={1}) if m else dict(Vals={1, 2, 3})), K=2, H=0, Div=1, Desc=False, Group="objects"), [("E20", pick(2, 30))])]
              if not m else
              [("content", dict(A, K=1, H=0, Div=1, Desc=False, Group="content"), [("E10", pick(2, 30))]),
               ("tag", dict(T, Vals={1}, K=1, H=0, Div=2, Desc=False, Group="content"), [("tag10", pick(2, 30))]),
               ("held", dict(A, K=1, H=1, Div=1, Desc=False, Group="held"), [("E1", pick(2, 30))]),
               ("objects", dict(Keys={1, 2}, Vals={1, 2}, K=2, H=0, Div=1, Desc=False, Group="objects"), [("E20", pick(2, 30))])],
              [("E3", pick(40, 400), 150, pick(1, 4), dict(X, K=3, H=3, Div=1, Desc=False)),
               ("tag", pick(40, 400), 150, pick(1, 3), dict(X, K=2, H=2, Div=3, Desc=False)),
               ("desc", pick(40, 400), 150, 1, dict(X, K=2, H=2, Div=1, Desc=True))], extra=[shapes, bulk(run, harness), wide(run, harness, spec, dict(X, K=2, H=2, Div=1, Desc=False, Group=""))],
              long=[("E3", dict(X, K=3, H=3, Div=1, Desc=False), 1200), ("desc", dict(X, K=2, H=2, Div=1, Desc=True), 1200)])


def c07(run):
    tree(run, "set", "OrdSet", False)


def c08(run):
    tree(run, "map", "OrdMap", True)


def c09(run):
    exe = run.build("cmpcount", [], opt="-O1", san=False)

    def t(v, k):
        return lambda: run.trace(exe, v, "CmpBound", dict(MaxN=1), pick(12, 36), pick(700, 3000), "%s_%d" % (v, k), seed_off=k)
    par(lambda: run.model("CmpBound", dict(MaxN=20), "bound", emit=False),
        lambda: run.model("RBTree", dict(N=pick(7, 9), Map=False), "height", emit=False, workers=4),
        *[t(v, k) for v in ("set", "map") for k in range(pick(2, 4))])


def c10(run):
    V2 = {1, 2}
    fns = []
    for k, cs in enumerate(pick([2, 3], [2, 3, 5])):
        def part(cs=cs, k=k):
            exe = run.build("queue", ["-DCEST_VERIF_CHUNK_SIZE=%d" % cs], out="queue%d" % cs)
            if k == 0:
                g = run.model("Fifo", dict(K=1, Vals=V2, MaxLen=pick(5, 7), Group="content"), "one", key=True)
                run.replay_graph(exe, "deque1", g, pick(2, 30), 1)
                run.replay_graph(exe, "list1", g, pick(1, 30), 2)
                for i, v in enumerate(("list2", "listi")):
                    run.trace(exe, v, "Fifo", dict(K=2, Vals=V2, MaxLen=1, Group=""), pick(40, 300), 150, "%s_%d" % (v, cs), seed_off=i)
            else:
                g = run.model("Fifo", dict(K=2, Vals={1}, MaxLen=2, Group="all"), "two", key=True)
                run.replay_graph(exe, "deque2", g, pick(2, 30), 1)
                run.replay_graph(exe, "list2", g, pick(1, 30), 2)
            for i, v in enumerate(("deque2", "dequei")):
                run.trace(exe, v, "Fifo", dict(K=2, Vals=V2, MaxLen=1, Group=""), pick(40, 300), 150, "%s_%d" % (v, cs), seed_off=10 + i)
        fns.append(part)

    def long():
        exe = run.build("queue", [], out="queue1024")
        run.trace(exe, "dequel", "Fifo", dict(K=1, Vals=V2, MaxLen=1, Group=""), 1, pick(9000, 30000), "dequel", seed_off=31)
        run.trace(exe, "listl", "Fifo", dict(K=1, Vals=V2, MaxLen=1, Group=""), 1, pick(1500, 10000), "listl", seed_off=32)

    def client():
        exe = run.build_also("queue", ["-DCLIENT"], "containers of the client's own", out="queue_client")
        for k, v in enumerate(("sd", "sl", "ring")):
            run.trace(exe, v, "Fifo", dict(K=2, Vals=V2, MaxLen=1, Group=""), pick(40, 400), 150, v, seed_off=40 + k)
    par(long, client, bulk(run, "queue"), movable(run, "queue", "Fifo", dict(K=2, Vals=V2, MaxLen=1, Group=""), ["-DCEST_VERIF_CHUNK_SIZE=2"]),
        wide(run, "queue", "Fifo", dict(K=2, Vals=V2, MaxLen=1, Group=""), ["-DCEST_VERIF_CHUNK_SIZE=2"], ("W", "Wl")), *fns)


def c11(run):
    T = dict(K=2, Chars={0}, MaxLen=1, Group="")
    component(run, "str", "Str",
              [("content", dict(K=1, Chars={0, 97, 200}, MaxLen=pick(3, 4), Group="content"), [("c1", pick(3, 30))]),
               ("objects", dict(K=2, Chars={0, 97}, MaxLen=pick(2, 3), Group="objects"), [("c2", pick(2, 30)), ("w2", pick(1, 20))])],
              [("c3", pick(60, 600), 120, pick(2, 6), dict(T, K=3)), ("w2", pick(40, 300), 120, 1, T), ("u16", pick(30, 300), 120, 1, T), ("ci2", pick(20, 300), 120, 1, dict(T, Group="ci"))],
              long=[("c3", dict(T, K=3), 1500)],
              extra=[bulk(run, "str")])


def c12(run):
    T = dict(K=2, Chars={0}, MaxLen=1, Group="")
    component(run, "str", "Str",
              [("search", dict(K=1, Chars={0, 97}, MaxLen=pick(5, 6), Group="search"), [("c1", pick(2, 30))]),
               ("search3", dict(K=1, Chars={0, 97, 255}, MaxLen=3, Group="search"), [("c1", pick(2, 30))]),
               ("compare", dict(K=2, Chars={0, 97, 200}, MaxLen=pick(2, 2), Group="compare"), [("c2", pick(2, 30))]),
               ("cisearch", dict(K=1, Chars={65, 97}, MaxLen=pick(3, 4), Group="cisearch"), [("ci1", pick(2, 30))]),
               ("cicompare", dict(K=2, Chars={65, 97, 91}, MaxLen=pick(1, 2), Group="cicompare"), [("ci2", pick(2, 30))])],
              [("s2", pick(60, 600), 150, pick(2, 6), T), ("ws2", pick(30, 300), 150, 1, T), ("us2", pick(30, 300), 150, 1, T), ("u82", pick(30, 300), 150, 1, T),
               ("cis2", pick(30, 300), 150, 1, dict(T, Group="ci")), ("wcis2", pick(20, 300), 150, 1, dict(T, Group="ci"))], long=[("s2", T, 1500)],
              extra=[bulk(run, "str")])


# container, spec, number of the adapter, constants common to graph and trace,
# and the constants of the two-object graph
OBJ = [
    ("Vector", 1, {}, dict(Vals={1, 2}, MaxLen=pick(2, 3), Group="objects")),
    ("Deque", 2, {}, dict(Vals={1, 2}, MaxLen=pick(2, 3), Group="objects")),
    ("List", 3, dict(H=0), dict(Vals={1, 2}, MaxLen=2, Group="objects")),
    ("FList", 4, dict(H=0), dict(Vals={1}, MaxLen=pick(2, 3), Group="objects")),
    ("OrdSet", 5, dict(H=0, Div=1, Desc=False), dict(Vals={1, 2, 3}, Group="objects")),
    ("OrdMap", 6, dict(H=0, Div=1, Desc=False), dict(Keys={1, 2}, Vals={1, 2}, Group="objects")),
    ("Str", 7, {}, dict(Chars={0, 97}, MaxLen=2, Group="objects")),
    ("Fifo", 8, {}, dict(Vals={1}, MaxLen=2, Group="all")),
]


def c13(run):
    def one(spec, what, common, gc):
        def f():
            exe = run.build("objects", ["-DWHAT=%d" % what, "-DCEST_VERIF_CHUNK_SIZE=3"], out="obj%d" % what)
            g = run.model(spec, dict(common, K=2, **gc), "obj", key=spec == "Fifo")
            run.replay_graph(exe, "g", g, pick(2, 40), what)
            for v, k in (("E", 4), ("int", 3)):
                run.trace(exe, v, spec, dict(dict(gc, Group=""), K=k, **common), pick(40, 400), 100, v, seed_off=what)
            run.trace(exe, "E", spec, dict(dict(gc, Group=""), K=4, **common), 0, 0, "long", seed_off=900 + what,
                      args=["long", "@", str(SEED * 7919 + what), str(pick(2, 12)), str(pick(700, 2000))])
        return f
    par(*[one(*o) for o in OBJ], *[wide(run, "objects", spec, dict(dict(gc, Group=""), K=3, **common), ["-DWHAT=%d" % what, "-DCEST_VERIF_CHUNK_SIZE=3"], out="obj%d" % what)
                                   for spec, what, common, gc in OBJ if spec != "Str"], *[bulk_held(run, k) for k in BULK])


def life(run, faults):
    """Histories of every container kind over recording elements and storage."""
    mode = "fault" if faults else "life"

    def one(spec, what, common, gc):
        def f():
            exe = run.build("life", ["-DWHAT=%d" % what, "-DCEST_VERIF_CHUNK_SIZE=3", "-fsized-deallocation"], out="life%d" % what)
            for v in ("nx", "mx"):
                k = what * 10 + (v == "mx")
                lo = os.path.join(run.dir, "life%d%s.life" % (what, v))
                out, p = run.record(exe, v, 0, 0, k, args=[mode, "@", lo, str(SEED * 7919 + k), str(pick(10, 60) if faults else pick(20, 100)), str(pick(40, 100) if faults else pick(80, 120))])
                if p.returncode and not os.path.exists(lo):
                    raise CheckError("driver failed: " + p.stderr[-2000:])
                if p.returncode and not died_in_call(out):
                    raise Violation("the real code died while the history was recorded", {"driver": os.path.basename(exe), "variant": v, "stderr": p.stderr[-6000:]})
                if faults:
                    run.validate("Fault" + spec, dict(dict(gc, Group=""), K=3, **common), out, "c%d%s" % (what, v), do="XDo", died=p.stderr)
                run.validate("Life", dict(Bytes={1}, Offs={0}, MaxIds=0), lo, "l%d%s" % (what, v), died=p.stderr)
                os.remove(out)
                os.remove(lo)
        return f
    par(lambda: run.model("Life", dict(Bytes={2}, Offs={0, 1}, MaxIds=2), "user", emit=False, workers=2),
        *[one(*o) for o in OBJ], *[bulk_held(run, k) for k in BULK])


def c14(run):
    life(run, False)


def c15(run):
    life(run, True)


def c16(run):
    T = dict(MaxObjs=12, MaxId=12, Group="all")
    component(run, "uptr", "UPtr",
              [("kinds", dict(K=2, MaxObjs=2, MaxId=3, Group="all"), [("2", pick(3, 30))]),
               ("lists", dict(K=2, MaxObjs=pick(3, 4), MaxId=5, Group="plain"), [("2", pick(3, 60))]),
               ("three", dict(K=3, MaxObjs=pick(2, 3), MaxId=4, Group="plain"), [("3", pick(2, 60))])],
              [("3", pick(60, 600), 150, pick(2, 6), dict(T, K=3)), ("5", pick(60, 600), 150, pick(1, 4), dict(T, K=5))],
              extra=[movable(run, "uptr", "UPtr", dict(T, K=3), variant="3")])


def c17(run):
    T = dict(MaxObjs=12, MaxId=12, Group="")

    def m(tag, K, M, n, group, variant, secs):
        def f():
            g = run.model("SPtr", dict(K=K, M=M, MaxObjs=n, MaxId=n + 1, Group=group), tag, key=True)
            run.replay_graph(exe(), variant, g, secs, K * 10 + M)
        return f
    ready = []

    def exe():
        return ready[0].result()

    def t(v, K, M, k):
        return lambda: run.trace(exe(), v, "SPtr", dict(T, K=K, M=M), pick(50, 500), 150, "%s_%d" % (v, k), seed_off=k)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        ready.append(ex.submit(run.build, "sptr", ()))
        par(m("kinds", 2, 0, pick(1, 2), "kinds", "20", pick(2, 20)),
            m("links", 2, 0, 2, "links", "20", pick(3, 60)),
            m("owners", 3, 0, pick(1, 2), "own", "30", pick(2, 30)),
            m("alias", 2, 1, pick(1, 2), "alias", "21", pick(2, 30)),
            m("array", 1, 1, pick(1, 2), "array", "a11", pick(1, 20)),
            t("42", 4, 2, 0), t("42", 4, 2, 1), t("20", 2, 0, 2), t("a32", 3, 2, 3), *[t("42", 4, 2, 10 + i) for i in range(pick(0, 4))])


def graphs(run, harness, spec, models, traces, flags=(), also=None, out=None, key=True):
    """Graphs with keys of their own, several drivers' variants, histories."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        exe = ex.submit(lambda: run.build_also(harness, flags, also, out) if also else run.build(harness, flags, out=out))

        def m(tag, consts, variants):
            def f():
                g = run.model(spec, consts, tag, key=key)
                for k, (v, secs) in enumerate(variants):
                    run.replay_graph(exe.result(), v, g, secs, k)
            return f

        def t(v, consts, runs, length, k):
            return lambda: run.trace(exe.result(), v, spec, consts, runs, length, "%s_%d" % (v, k), seed_off=k)
        par(*[m(*x) for x in models], *[t(*x[:4], k + 10 * j) for k, x in enumerate(traces) for j in range(x[4] if len(x) > 4 else 1)])


def c18(run):
    C = dict(Caps={1}, Xs={0, 1, 13}, Depth=1)
    T = dict(Caps={1}, Xs={0}, Depth=3, Group="")
    two = dict(C, K=2, Xs={1, 13}, Group="objects")
    par(lambda: graphs(run, "func", "Func",
                       [("one", dict(C, K=1, Caps={1, 2}, Depth=pick(1, 2), Group="all"), [("int1", pick(2, 20)), ("void1", pick(2, 20))]),
                        ("two", two, [("int2", pick(2, 20))])],
                       [("int4", dict(T, K=4), pick(50, 500), 150, pick(1, 3)), ("void3", dict(T, K=3), pick(40, 500), 150),
                        ("ref3", dict(T, K=3), pick(40, 500), 150)]),
        lambda: graphs(run, "func", "Func", [("twomove", two, [("move2", pick(2, 20))])], [("move3", dict(T, K=3), pick(30, 400), 150), ("vmove3", dict(T, K=3), pick(30, 400), 150)],
                       flags=["-DMOVE_ONLY"], also="arguments that can only be moved", out="funcm"))


def c19(run):
    T = dict(Chars={0}, MaxLen=1, Group="")
    W = (("flags", dict(T=0, W=15)), ("modes", dict(T=1, W=6)), ("states", dict(T=2, W=3)))
    par(lambda: bulk_stream(run), lambda: graphs(run, "iosbits", "IosBits", [(v, c, [(v, pick(1, 5))]) for v, c in W],
           [(v, c, pick(5, 50), 200) for v, c in W], key=False),
        lambda: graphs(run, "istream", "IStream",
           [("plain", dict(K=1, Chars={65, 255}, MaxLen=pick(2, 3), Group="plain"), [("c1", pick(3, 30)), ("w1", pick(1, 10)), ("t1", pick(1, 10))]),
            ("exc", dict(K=1, Chars={0}, MaxLen=pick(1, 2), Group="exc"), [("c1", pick(3, 30))])],
           [("c3", dict(T, K=3), pick(40, 400), 200, pick(2, 5)), ("w2", dict(T, K=2), pick(30, 300), 200), ("t2", dict(T, K=2), pick(20, 300), 200)]))


def c20(run):
    T = dict(Chars={0}, MaxLen=1, Group="")
    par(lambda: bulk_stream(run), lambda: graphs(run, "stdio", "Stdio",
           [("one", dict(K=1, Chars={0, 65}, MaxLen=pick(4, 6), Group=""), [("1", pick(3, 30))]),
            ("two", dict(K=2, Chars={65, 200}, MaxLen=pick(2, 3), Group=""), [("2", pick(3, 30))])],
           [("4", dict(T, K=4), pick(60, 600), 150, pick(2, 5))]))


def c21(run):
    exe = run.build("output", ())

    def m():
        g = run.model("Output", dict(MaxPend=pick(1, 2)), "sinks", key=True)
        run.replay_graph(exe, "all", g, pick(3, 30), 1)

    def t(k):
        return lambda: run.trace(exe, "all", "Output", dict(MaxPend=1), pick(40, 400), 150, "all_%d" % k, seed_off=k)
    par(m, t(0), t(1), *[t(2 + k) for k in range(pick(0, 4))],
        lambda: run.trace(exe, "exit", "Output", dict(MaxPend=1), 0, 0, "exit", args=["trace", "@", str(SEED), str(pick(25, 250)), "60"]))


GROWING = ["map", "set", "list", "flist", "deque", "vector", "string", "queue", "search", "intvector", "intdeque", "listqueue", "keyset"]
CT = {
    "vector": (1, "Vector", dict(K=2, Vals={1}, MaxLen=1, Group="")),
    "deque": (2, "Deque", dict(K=2, Vals={1}, MaxLen=1, Group="")),
    "list": (3, "List", dict(K=2, H=2, Vals={1}, MaxLen=1, Group="")),
    "flist": (4, "FList", dict(K=2, H=2, Vals={1}, MaxLen=1, Group="")),
    "set": (5, "OrdSet", dict(K=2, H=2, Vals={1}, Div=1, Desc=False, Group="")),
    "map": (6, "OrdMap", dict(K=2, H=2, Keys={1}, Vals={1}, Div=1, Desc=False, Group="")),
    "string": (7, "Str", dict(K=3, Chars={0}, MaxLen=1, Group="")),
    "queue": (8, "Fifo", dict(K=2, Vals={1}, MaxLen=1, Group="")),
    "unique_ptr": (9, "UPtr", dict(K=3, MaxObjs=12, MaxId=12, Group="all")),
    "shared_ptr": (10, "SPtr", dict(K=4, M=2, MaxObjs=12, MaxId=12, Group="")),
    "shared_array": (11, "SPtr", dict(K=3, M=2, MaxObjs=12, MaxId=12, Group="")),
    "function": (12, "Func", dict(K=3, Caps={1}, Xs={0}, Depth=3, Group="")),
    "istream": (13, "IStream", dict(K=2, Chars={0}, MaxLen=1, Group="")),
    "search": (14, "Str", dict(K=2, Chars={0}, MaxLen=1, Group="")),
    "listqueue": (15, "Fifo", dict(K=2, Vals={1}, MaxLen=1, Group="")),
    "wstring": (16, "Str", dict(K=2, Chars={0}, MaxLen=1, Group="")),
    "procedure": (17, "Func", dict(K=3, Caps={1}, Xs={0}, Depth=3, Group="")),
    "intvector": (18, "Vector", dict(K=2, Vals={1}, MaxLen=1, Group="")),
    "keyset": (19, "OrdSet", dict(K=2, H=2, Vals={1}, Div=3, Desc=False, Group="")),
    "source": (21, "Source", dict(K=2, Chars={0}, MaxLen=1, Group="")),
    "intdeque": (20, "Deque", dict(K=2, Vals={1}, MaxLen=1, Group="")),
}


def c22(run):
    def f(name, what, spec, consts, k):
        fl = ["-DCEST_VERIF_CHUNK_SIZE=3"] if what in (2, 8, 20) else []
        return lambda: run.both_ways(what, name + ("_%d" % k if k else ""), spec, consts, pick(8, 25), pick(50, 120), fl + (["-DCT_OFF=%d" % k] if k else []))
    def big(name, what, spec, consts):
        fl = ["-DCEST_VERIF_CHUNK_SIZE=3"] if what in (2, 8, 20) else []
        return lambda: run.both_ways(what, name + "_big", spec, consts, pick(1, 3), pick(150, 300), fl + ["-DCT_OFF=50", "-DCT_BIG=%d" % pick(40, 70)])
    par(*[big(n, *CT[n]) for n in GROWING], *[f(n, *v, k) for n, v in CT.items() for k in range(pick(1, 4))])


NUM = {
    "stdio": (31, "Stdio", dict(K=2, Chars={0}, MaxLen=1, Group="")),
    "swap": (32, "NSwap", dict(N=20, MaxArity=18)),
    "swapE": (33, "NSwap", dict(N=5, MaxArity=5)),
    "swapM": (34, "NSwap", dict(N=20, MaxArity=18)),
    "cmath": (35, "CMath", dict(P=1, Qs={0}, Bases=1, Exps=1)),
    "trans": (36, "Trans", dict(Grid=20)),
    "ctype": (37, "CType", {}),
    "complex": (38, "Complex", dict(K=2, M=1, Group="")),
    "intcomplex": (39, "Complex", dict(K=2, M=1, Group="")),
    "output": (47, "Mute", {}),
    "flags": (48, "IosBits", dict(T=0, W=15)),
    "modes": (49, "IosBits", dict(T=1, W=6)),
    "states": (50, "IosBits", dict(T=2, W=3)),
}
ALG_CT = {"vec": 40, "str": 41, "listE": 42, "flist": 43, "dequeS": 44, "set": 45, "vecE": 46}


def c31(run):
    def f(name, what, spec, consts, k):
        fl = ["-w"] + (["-DCEST_VERIF_CHUNK_SIZE=3"] if 40 <= what < 47 else []) + (["-DCT_OFF=%d" % k] if k else [])
        return lambda: run.both_ways(what, name + ("_%d" % k if k else ""), spec, consts, pick(8, 25), pick(50, 120), fl)
    num = dict(NUM)
    for v, w in ALG_CT.items():
        num["alg_" + v] = (w, "Alg", alg_consts(v, Vals={1}, MaxLen=1, Group=""))
    par(*[f(n, *v, k) for n, v in num.items() for k in range(pick(1, 4))])


def c24(run):
    T = dict(K=3, M=1, Group="")
    component(run, "complex", "Complex",
              [("one", dict(K=1, M=pick(4, 6), Group=""), [("d1", pick(2, 20))]),
               ("two", dict(K=2, M=1, Group=""), [("d2", pick(3, 20)), ("f2", pick(2, 20))]),
               ("int", dict(K=2, M=1, Group="int"), [("i2", pick(2, 20))])],
              [("d3", pick(60, 600), 150, pick(2, 6), T), ("f3", pick(60, 600), 150, 1, T), ("l3", pick(30, 300), 150, 1, T), ("i3", pick(30, 300), 150, 1, T)],
              flags=["-w"])


def c25(run):
    exe = run.build("nswap", ["-w"])
    mov = run.build_also("nswap", ["-w", "-DMOVE_ONLY"], "move-only types", "nswapm")

    def m(tag, n, vs):
        def f():
            g = run.model("NSwap", dict(N=n, MaxArity=n), tag)
            par(*[lambda v=v, e=e, s=s: run.replay_graph(e, v, g, s, n) for e, v, s in vs])
        return f
    par(m("four", 4, [(exe, "int4", pick(1, 5)), (exe, "E4", pick(2, 10)), (mov, "U4", pick(2, 10)), (mov, "T4", pick(2, 5))]),
        m("five", 5, [(exe, "E5", pick(3, 20)), (mov, "U5", pick(3, 20))]),
        *[lambda e=e, v=v: run.trace(e, v, "NSwap", dict(N=20, MaxArity=18), pick(30, 300), 150, v) for e, v in ((exe, "int20"), (exe, "B20"), (exe, "V20"), (exe, "S20"), (mov, "U20"))])


def c26(run):
    component(run, "cmath", "CMath",
              [("small", dict(P=pick(40, 200), Qs={0, 1, 2, 5}, Bases=pick(12, 20), Exps=12), [("rt", pick(2, 10))])],
              [("rt", pick(100, 1000), 200, pick(3, 6), dict(P=1, Qs={0}, Bases=1, Exps=1))])


def c30(run):
    def f(harness, spec, traces):
        def g():
            exe = run.build(harness, ())
            for k, (v, con) in enumerate(traces):
                run.trace(exe, v, "Fault" + spec, con, pick(60, 600), 150, v, seed_off=k, do="XDo")
        return g
    P = dict(MaxObjs=12, MaxId=12, Group="")
    F = dict(Caps={1}, Xs={0}, Depth=3, Group="")
    par(f("sptr", "SPtr", [("x42", dict(P, K=4, M=2)), ("xa32", dict(P, K=3, M=2))]),
        f("func", "Func", [("xint4", dict(F, K=4)), ("xvoid3", dict(F, K=3))]))


def c28(run):
    component(run, "trans", "Trans",
              [("grid", dict(Grid=pick(60, 400)), [("d", pick(2, 5)), ("f", pick(2, 5))])],
              [("d", pick(40, 600), 200, pick(3, 8), dict(Grid=20)), ("f", pick(20, 300), 200, pick(1, 4), dict(Grid=20))], flags=["-w"])


def c29(run):
    T = dict(Chars={0}, MaxLen=1, Group="")
    graphs(run, "source", "Source",
           [("plain", dict(K=1, Chars={65, 255}, MaxLen=pick(3, 5), Group="plain"), [("c1", pick(4, 40)), ("t1", pick(1, 10))]),
            ("exc", dict(K=1, Chars={0}, MaxLen=pick(2, 3), Group="exc"), [("c1", pick(4, 40))])],
           [("c3", dict(T, K=3), pick(60, 600), 200, pick(2, 6)), ("w2", dict(T, K=2), pick(40, 400), 200), ("t2", dict(T, K=2), pick(30, 300), 200)])


def c27(run):
    component(run, "ctype", "CType", [("all", {}, [("rt", pick(3, 10))])], [("rt", pick(10, 50), 200, 1, {})])


# variant -> (driver, level, steps by n, a is a set, output is a set)
ALG_KIND = {"vec": (1, 3, True, False, False), "vecE": (1, 3, True, False, False), "str": (2, 3, True, False, False),
            "list": (2, 2, True, False, True), "listE": (3, 2, True, False, False), "flist": (3, 1, True, False, False),
            "deque": (3, 1, False, False, False), "dequeE": (4, 1, False, False, True), "dequeS": (0, 1, False, False, True),
            "set": (4, 1, False, True, True), "setE": (4, 1, False, True, False)}


def alg_consts(v, **kw):
    _, lvl, adv, sa, so = ALG_KIND[v]
    return dict(Lvl=lvl, Adv=adv, SetA=sa, SetO=so, **kw)


def c23(run):
    exes = {}

    def kinds(part):
        return lambda: exes.setdefault(part, run.build("alg", ["-w", "-DCEST_VERIF_CHUNK_SIZE=%d" % (2 + part), "-DPART=%d" % part], out="alg%d" % part))
    par(*[kinds(p) for p in (1, 2, 3, 4)])
    KIND = ALG_KIND

    def con(v, **kw):
        return alg_consts(v, **kw)

    def m(group, lens, vs):
        def f():
            g = run.model("Alg", con(vs[0], Vals={3, 4, 5} if group == "mutate" or (group == "read" and not Q) else {3, 5}, MaxLen=lens, Group=group), "%s_%s" % (group, vs[0]))
            for k, v in enumerate(vs):
                run.replay_graph(exes[KIND[v][0]], v, g, pick(1, 20), k)
        return f
    par(*[m("mutate", pick(3, 4), vs) for vs in (["vec", "vecE", "str"], ["listE"], ["flist"], ["deque"])],
        *[m("read", pick(3, 4), vs) for vs in (["vec", "vecE", "str"], ["list"], ["flist"], ["deque"], ["dequeE"], ["set"], ["setE"])],
        *[m("pair", pick(2, 3), vs) for vs in (["vecE", "str"], ["list"], ["listE"], ["flist"], ["deque"], ["set"])],
        *[lambda v=v, k=k: run.trace(exes[KIND[v][0]], v, "Alg", con(v, Vals={1}, MaxLen=1, Group=""), pick(8, 100), 120, "%s_%d" % (v, k), seed_off=31 * k)
          for v in KIND if KIND[v][0] for k in range(pick(1, 4))])


MC = "model_checking"
CHECKS = {
    "C01": (c01, MC, []),
    "C02": (c02, MC, []),
    "C03": (c03, MC, []),
    "C04": (c04, MC, []),
    "C05": (c05, MC, []),
    "C06": (c06, MC, []),
    "C07": (c07, MC, []),
    "C08": (c08, MC, []),
    "C09": (c09, MC, []),
    "C10": (c10, MC, []),
    "C11": (c11, MC, []),
    "C12": (c12, MC, []),
    "C13": (c13, MC, []),
    "C14": (c14, MC, []),
    "C15": (c15, MC, []),
    "C16": (c16, MC, []),
    "C17": (c17, MC, []),
    "C18": (c18, MC, []),
    "C19": (c19, MC, []),
    "C20": (c20, MC, []),
    "C21": (c21, MC, []),
    "C22": (c22, MC, []),
    "C23": (c23, MC, []),
    "C24": (c24, MC, []),
    "C25": (c25, MC, []),
    "C26": (c26, MC, []),
    "C28": (c28, MC, []),
    "C27": (c27, MC, []),
    "C29": (c29, MC, []),
    "C30": (c30, MC, []),
    "C31": (c31, MC, []),
}

HOOK_COMMITS = ["98488bc"]
T_ST = "TLA+ specification, TLC; replay of TLC's state graph in the code; TLC trace validation of recorded histories"
NOTES = {   # property -> (technique, level note)
    "C01": (T_ST, "every transition of the bounded state graph executed in the real code (up to 6 elements, 2 values, 2 objects), random histories of 3 objects' worth of growth validated against the unbounded specification; constants bound the model, seeds bound the histories"),
    "C02": (T_ST, "capacity/reallocation specification with the growth policy left open; graph up to 4 (6) elements, random histories up to 70 elements"),
    "C03": (T_ST + "; block-table design model checked to refine the sequence specification", "every reachable cursor position of the block table with 2, 3, 4 (thorough: 5, 8) elements per block visited in the code, real block size by histories of thousands of operations"),
    "C04": (T_ST, "all views and all iterator pairs of all contents up to 5 (7) elements, random histories over several block sizes and the real one"),
    "C05": (T_ST, "every transition of the bounded graph (contents up to 3 (4) elements, with one held iterator; two objects) executed in the real code; random histories of three objects with three held iterators; constants bound the model, seeds bound the histories"),
    "C06": (T_ST, "as C05, with held iterators that include before_begin and follow a swap"),
    "C07": (T_ST + "; red-black design model checked to refine the ordered sequence", "every reachable red-black tree of up to 7 (9) keys with every insertion and find executed in the real code; ordered-set graphs with equivalent keys, held iterators and two objects; random histories with comparators in both directions"),
    "C08": (T_ST + "; red-black design model checked to refine the ordered sequence", "as C07, with values and writes through iterators"),
    "C09": ("TLA+ red-black design model (balance, height and cost invariants for every reachable tree, TLC); TLC trace validation of comparator counts recorded from the real code", "the cost bound is an invariant of every tree reachable with 7 (9) keys in the design model; the real code's counts are validated on insertion orders up to thousands of elements, including adaptive ones that always insert where a search is longest"),
    "C10": (T_ST, "graphs of one queue up to 5 (7) values and of two queues with two source containers, over deque (small block sizes) and list; std::deque, std::list and a minimal client container as well; random histories, and histories of thousands of operations over the real block size"),
    "C11": (T_ST, "graph of all contents up to 3 (4) characters over NUL, an ASCII and a high character, two-string graphs, random histories up to 70 characters over all codes, for char, wchar_t and char16_t"),
    "C12": (T_ST, "all strings up to 5 (6) over two and up to 3 over three characters, with all patterns up to 3 and all positions; all pairs of short strings compared in every form; random strings searched for their own pieces, spoiled or in place, for all character types, wide characters over their whole range, and with character traits that ignore case"),
    "C13": (T_ST, "two-object graphs (with self-assignment, copies, moves, swaps, destruction) of all eight container kinds executed in the real code, and random histories over four objects of each kind in which every third call is a whole-object call"),
    "C14": ("TLA+ specification of object lifetime and storage, TLC; TLC trace validation of histories recorded from the real code with recording elements and allocators", "random histories of all eight container kinds, over elements whose moves cannot or can fail, three objects each; every construction, assignment, destruction, allocation and release in them is checked, and which allocator storage came from"),
    "C15": ("TLA+ container specifications extended by failing calls, and the lifetime specification, TLC; TLC trace validation of histories recorded from the real code with injected failures", "in random histories, each call is made to fail at its first, second, ... throwing point until it succeeds; both the content and the lifetime events are validated"),
    "C16": ("TLA+ specification of owning lists behind unique_ptr, TLC; replay of its state graphs and TLC trace validation on the real code", "every operation between two or three pointers owning lists of up to 3 objects (plain and derived, deleted through the virtual base), in every reachable state; random histories over up to 12 objects and five pointers, with the order of destruction and the heap blocks held after everything ended"),
    "C17": ("TLA+ specification of ownership graphs of shared_ptr, TLC; replay of its state graphs and TLC trace validation on the real code", "use counts of every pointer (also those inside objects), order of destruction through the right deleter, chains and cycles, aliases of the same and another type, arrays: every operation in every reachable state of 1-3 pointers and 1-2 objects, random histories over 6 pointers and 12 objects"),
    "C18": ("TLA+ specification of function objects and the callables they hold, TLC; replay of its state graphs and TLC trace validation on the real code", "eight kinds of callables (function, stateless, capturing, counting, owning memory, by reference, large, another function object), nested up to three deep, raising or not, over four signatures (values, output references and void, move-only, returned references): every operation in every state of one or two objects within the bounds, random histories over four"),
    "C19": ("TLA+ specification of the stream state machine, TLC; replay of its state graphs and TLC trace validation on the real code", "every call in every state (text, position, state bits, exception mask, gcount) of a stream over texts of up to 2 (3) characters; random histories over three streams, all byte values, all construction modes, exception masks, also for wchar_t and for traits of the client's own with other character numbers and another end of file"),
    "C20": ("TLA+ specification of memory files, TLC; replay of its state graphs and TLC trace validation on the real code", "every sequence of reads of every text of up to 4 (6) characters, two files at once; random histories over four files of up to 700 arbitrary bytes whose buffers are overwritten and freed while open, with the heap blocks held after closing"),
    "C21": ("TLA+ specification of the streams, their number bases and the two sinks, TLC; replay of its state graph and TLC trace validation on the real code with the process's descriptors 1 and 2 captured", "every insertion, base change and print in every state of bases and up to one (two) pending outputs; random histories over the three streams and printf/fprintf, looked at now and then or only after the process has exited; numbers of 32 and 64 bits in three bases, strings with arbitrary bytes"),
    "C22": ("TLA+ component specifications, TLC trace validation of histories evaluated in constant expressions by the compiler and again by the program", "random histories of 20 instances of all types (containers, strings, queues, smart pointers, functions, streams), each evaluated both ways and explained by the specification step by step; the compiler also rejects undefined behaviour and leaks in them"),
    "C24": (T_ST, "all pairs of Gaussian integers with components up to 1 and single ones up to 4 (6) with every operator, in every aliasing; random operator sequences over three variables with components up to 20000, for double, float, long double, int, and mixed component types"),
    "C25": (T_ST, "every choice of up to 5 different variables out of 5, in every order, in every arrangement of their values; random ones of up to 18 out of 20; copyable, move-only, owning, large and throwing-move types, vectors and shared pointers"),
    "C26": ("TLA+ specification of the exact results in integer arithmetic, TLC; replay of its state graph and TLC trace validation on the real code", "all p/2^q with |p| up to 40 (200) and the floating-point neighbours of all those integers, all integer bases up to 12 (20) with exponents up to 12; random arguments over the whole int range and its neighbours, powers up to 2^53 and of two up to 2^1000"),
    "C28": ("TLA+ specification that computes the functions by its own methods in integer fixed-point and floating arithmetic (identities between them checked by TLC), with the set of results within tolerance; replay of its state graph and TLC trace validation on the real code", "a grid of arguments for every function (all quadrants, axes, magnitudes 2^-60 to 2^45), random arguments over the whole stated ranges, for double and complex<double> and complex<float>; the reference is accurate to about 2^-16"),
    "C27": ("TLA+ specification over the whole domain, TLC; replay of its state graph on the real code", "the whole domain, exhaustively"),
    "C29": ("TLA+ specification of input streams over a client's stream buffer, TLC; replay of its state graphs and TLC trace validation on the real code", "every call in every state (position in the text and in the block, state bits, exception mask, what the buffer does next) of a stream over a text of 3 (5) characters in blocks of 1 to 3 or without a get area, with the buffer throwing over texts of 2 (3); random histories over three streams, all byte values, blocks of up to 12, also for wchar_t and traits of the client's own, streams without a buffer and copies of buffers"),
    "C30": ("TLA+ specification, TLC; TLC trace validation of histories recorded with injected allocation failures", "random histories over 4 owning and 2 aliasing pointers, over array pointers and over 4 function objects, two calls in five with their first to fourth allocation failing"),
    "C31": ("TLA+ component specifications, TLC trace validation of histories evaluated in constant expressions by the compiler and again by the program", "random histories of 17 instances (swaps of int, owning and move-only values, cmath exact and transcendental, ctype, complex of double and int, C stdio, output, algorithms over seven combinations of containers), each evaluated both ways and explained by the specification step by step; the compiler also rejects undefined behaviour and leaks in them"),
    "C23": ("TLA+ specification of the algorithms on sequences (spec/Alg.tla): TLC explores it, its state graph is replayed on every container kind, and recorded histories are checked against it",
            "exhaustive: all sequences up to the bound, all ranges and arguments; sampled: longer sequences; algorithms with a free choice are judged by the relation they promise"),
}
