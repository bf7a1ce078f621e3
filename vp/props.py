"""One function per property: which specifications TLC explores, what is replayed, what is validated."""
import itertools, math, random, struct
from . import core, iobin, iolong, ioraw, iotext

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def framed(rng, cases, off=1 << 18, kmax=240, share=0.5, fits=lambda c: True):
    """plays some cases in another frame: moved by whole numbers, scaled by a power of two (harness/src/util.rs)"""
    for c in cases:
        if rng.random() < share and fits(c):
            k = rng.choice([0, rng.randint(-8, 8), -rng.randint(min(20, kmax), kmax), rng.randint(-kmax, kmax)])
            o = [rng.choice([0, 1, -1]) * rng.randint(0, rng.choice([9, 1000, off])) if off and rng.random() < 0.6 else 0 for _ in range(3)]
            c["frame"] = [k] + o
    return cases


@check("C01")
def c01(run):
    cs = run.model("IndexVec", {"Kinds": {"dyn", "u32", "usize"}, "MaxOps": run.pick(2, 3), "MaxLen": 4,
                                "Rich": False}, invariants=["Inv"], properties=["Stable"])
    run.replay(cs, "ivec-exhaustive")
    cs = run.model("IndexVec", {"Kinds": {"dyn", "u32", "usize"}, "MaxOps": run.pick(25, 60), "MaxLen": 12,
                                "Rich": True}, simulate=(run.pick(300, 4000), run.pick(28, 63)))
    run.replay(cs, "ivec-long")
    cs = run.model("IndexVec", {"Kinds": {"dyn", "u32", "usize"}, "MaxOps": 300, "MaxLen": 280,
                                "Rich": True}, simulate=(run.pick(4, 60), 303))
    run.replay(cs, "ivec-large")


@check("C02")
def c02(run):
    allc = {"pc/usize", "pc/dyn", "pc/u32", "vec/usize", "vec/dyn", "deque/u32", "f32/dyn", "f32/usize"}
    cs = run.model("Mesh", {"Cfgs": {"pc/usize", "vec/dyn", "f32/dyn", "deque/u32"}, "MaxOps": 2, "MaxV": 8, "MaxF": 4,
                            "Bulk": 0}, properties=["Stable"])
    run.replay(cs, "mesh-exhaustive")
    cs = run.model("Mesh", {"Cfgs": allc, "MaxOps": run.pick(12, 25), "MaxV": 40, "MaxF": 20, "Bulk": 0},
                   simulate=(run.pick(300, 4000), run.pick(15, 28)))
    run.replay(cs, "mesh-long")
    # more vertices than one byte can number
    cs = run.model("Mesh", {"Cfgs": allc, "MaxOps": 8, "MaxV": 700, "MaxF": 20, "Bulk": 253},
                   simulate=(run.pick(20, 200), 11))
    run.replay(cs, "mesh-wide")
    cs = run.model("Mesh", {"Cfgs": {"pc/dyn", "deque/u32", "f32/dyn"}, "MaxOps": 5, "MaxV": 131000, "MaxF": 20, "Bulk": 65532},
                   simulate=(run.pick(2, 12), 8))
    run.replay(cs, "mesh-huge")


def he_cases(run):
    cs = run.model("HalfEdgeMC", {"NV": 4, "MaxF": 2, "OnlyManifold": False, "Ics": {"usize", "dyn"}})
    cs += run.model("HalfEdgeMC", {"NV": 5, "MaxF": run.pick(3, 4), "OnlyManifold": True, "Ics": {"u32"}})
    return cs


def rnd_meshes(rng, n, manifold, big=0):
    """random larger meshes: grids / fans / closed strips with holes and shuffled faces and corner rotations"""
    res = []
    for _ in range(n):
        w, h = (rng.randint(big // 2, big), rng.randint(big // 2, big)) if big else (rng.randint(1, 5), rng.randint(1, 5))
        wrap = rng.random() < 0.4 and w >= 3
        cols = w if wrap else w + 1

        def vid(x, y):
            return (x % cols) + y * cols
        F = []
        for y in range(h):
            for x in range(w):
                a, b, c, d = vid(x, y), vid(x + 1, y), vid(x + 1, y + 1), vid(x, y + 1)
                F += [[a, b, c], [a, c, d]]
        F = [f for f in F if rng.random() < 0.85]
        perm = list(range(cols * (h + 1)))
        rng.shuffle(perm)
        F = [[perm[v] for v in f] for f in F]
        F = [f[k:] + f[:k] for f in F for k in [rng.randint(0, 2)]]
        rng.shuffle(F)
        if not manifold and F and rng.random() < 0.6:
            for _ in range(rng.randint(1, 3)):
                f = list(rng.choice(F))
                f.reverse()
                F.append(f)
        res.append({"fam": "he", "ic": rng.choice(["usize", "dyn", "u32"]), "parts": rng.random() < 0.5,
                    "nv": cols * (h + 1) + rng.choice([0, 0, 1, 3]), "F": F})
    return res


def rnd_fans(rng, n, spokes):
    """vertices that many faces share: closed and open fans, both sides of a disc, several fans touching in a vertex"""
    res = []
    for _ in range(n):
        F, nv = [], 0
        for _ in range(rng.randint(1, 3)):
            k = rng.randint(3, spokes)
            mid = rng.randrange(nv) if nv and rng.random() < 0.4 else nv
            o = max(nv, mid + 1) if mid == nv else nv
            ring = list(range(o, o + k))
            nv = o + k
            disc = [[mid, ring[i], ring[(i + 1) % k]] for i in range(k)]
            F += [f for f in disc if rng.random() < 0.97] if rng.random() < 0.5 else disc
            if rng.random() < 0.4:
                F += [[nv, f[2], f[1]] for f in disc]
                nv += 1
        perm = list(range(nv))
        rng.shuffle(perm)
        F = [[perm[v] for v in f] for f in F]
        F = [f[k:] + f[:k] for f in F for k in [rng.randint(0, 2)]]
        rng.shuffle(F)
        res.append({"fam": "he", "ic": rng.choice(["usize", "dyn", "u32"]), "parts": rng.random() < 0.5, "nv": nv, "F": F})
    return res


def sparse_ids(rng, nv):
    """some vertex ids around the borders of the integer widths"""
    ids = {0, 1, 2, 3, 127, 128, 255, 256, 257, 511, 512, 1024, 32767, 32768, 65535, 65536, 65537, 65792, nv - 1, nv - 2}
    return sorted(i for i in ids | {rng.randrange(nv) for _ in range(6)} if i < nv)


def rnd_sparse(rng, n):
    """meshes of very many vertices of which few are used"""
    res = []
    for _ in range(n):
        nv = rng.choice([300, 66000, 70000, 131073])
        ids = sparse_ids(rng, nv)
        F = [rng.sample(ids, 3) for _ in range(rng.randint(5, 30))]
        F += [[f[0], f[2], f[1]] for f in F if rng.random() < 0.5]
        res.append({"fam": "he", "ic": rng.choice(["usize", "dyn", "u32"]), "parts": rng.random() < 0.5, "nv": nv, "F": F,
                    "vq": ids + [nv, nv + 1, nv - 3]})
    return res


def held(rng, cases):
    """what the result lists hold before the query"""
    for c in cases:
        c["sent"] = rng.choice([999999, 999999, 0, 1, 2])
        c["vnpre"] = rng.choice([0, 0, 1, 2])
    return cases


def he_check(run, what):
    cs = held(random.Random(run.seed), he_cases(run))
    run.validate("HalfEdgeTrace", cs, "halfedge-small", {"What": what})
    rng = random.Random(run.seed)
    run.validate("HalfEdgeTrace", held(rng, rnd_sparse(rng, run.pick(12, 200))), "halfedge-sparse", {"What": what})
    run.validate("HalfEdgeTrace", held(rng, rnd_meshes(rng, run.pick(120, 1200), True) + rnd_meshes(rng, run.pick(60, 600), False)),
                 "halfedge-grids", {"What": what})
    run.validate("HalfEdgeTrace", held(rng, rnd_fans(rng, run.pick(40, 600), 14) + rnd_fans(rng, run.pick(3, 12), run.pick(40, 150))),
                 "halfedge-fans", {"What": what})
    run.validate("HalfEdgeTrace", held(rng, rnd_meshes(rng, run.pick(8, 60), True, 11) + rnd_meshes(rng, run.pick(4, 30), False, 11)),
                 "halfedge-large", {"What": what})


@check("C03")
def c03(run):
    he_check(run, "topology")


@check("C04")
def c04(run):
    he_check(run, "incidence")


def no_neg0(c):
    return not c.get("neg0")


def rnd_heal(rng, n, fam, large=False):
    res = []
    for _ in range(n):
        npos = rng.choice([20, 150]) if large else rng.randint(3, 10)
        big = rng.choice([4, 12, 40])
        pos = [[rng.randint(0, big) * 2 for _ in range(3)] for _ in range(npos)]
        nv = rng.randint(100, 400) if large else rng.randint(3, 24)
        V = [list(rng.choice(pos)) for _ in range(nv)]
        F = []
        for _ in range(rng.randint(100, 350) if large else rng.randint(0, 25)):
            F.append(rng.sample(range(nv), 3))
        for _ in range(rng.randint(0, 40 if large else 4)):
            if F:
                f = list(rng.choice(F))
                k = rng.randint(0, 2)
                f = f[k:] + f[:k]
                if rng.random() < 0.3:
                    f.reverse()
                F.insert(rng.randint(0, len(F)), f)
        c = {"fam": fam, "V": V, "F": F, "size": rng.choice([1, 2, 3, 5, 9, 30]), "base": F}
        if rng.random() < 0.5 and fam in ("heal", "clusterv"):
            c["neg0"] = [[i, d] for i in range(nv) for d in range(3) if V[i][d] == 0 and rng.random() < 0.5]
        res.append(c)
    return res


def rnd_fine(rng, n):
    """cells whose numbers differ by powers of two"""
    res = []
    for _ in range(n):
        size = rng.choice([1, 1, 2, 3])
        ax = [[a * 2 ** rng.choice([4, 5, 7, 8, 10, 11, 15, 16, 20]) + rng.randint(0, 1) for a in (0, 0, 1, 1, 2)] + [0, 1] for _ in range(3)]
        nv = rng.randint(8, 30)
        V = [[rng.choice(ax[d]) * size + rng.randint(0, size - 1) for d in range(3)] for _ in range(nv)]
        F = [rng.sample(range(nv), 3) for _ in range(rng.randint(4, 25))]
        res.append({"fam": "clusterv", "V": V, "F": F, "size": size, "base": F})
    return res


def rnd_wide(rng, n, fam):
    """very many vertices of which few are used"""
    res = []
    for _ in range(n):
        nv = [67000, 700, 66000][len(res) % 3]
        ids = sparse_ids(rng, nv)
        V = [[2 * (i % 97), 2 * (i // 97 % 89), 2 * (i // 8633)] for i in range(nv)]
        for _ in range(4):
            a, b = rng.sample(ids, 2)
            V[a] = V[b]
        F = [rng.sample(ids, 3) for _ in range(rng.randint(5, 30))]
        for _ in range(3):
            f = rng.choice(F)
            F.append(f[1:] + f[:1])
        res.append({"fam": fam, "V": V, "F": F, "size": 1, "base": F})
    return res


@check("C05")
def c05(run):
    rng = random.Random(run.seed)
    for fam in ("heal", "clusterv"):
        cs = run.model("MeshOpsMC", {"Algo": fam, "NPos": 4, "NV": 4, "MaxF": 2})
        if not run.thorough:
            cs = [c for i, c in enumerate(cs) if len(c["F"]) < 2 or i % 2 == run.seed % 2 or fam == "heal"]
        run.validate("MeshOpsTrace", framed(random.Random(run.seed), cs, fits=no_neg0), fam + "-small")
        run.validate("MeshOpsTrace", framed(random.Random(run.seed), rnd_heal(rng, run.pick(400, 6000), fam), fits=no_neg0), fam + "-random")
        run.validate("MeshOpsTrace", framed(rng, rnd_heal(rng, run.pick(6, 60), fam, True), fits=no_neg0), fam + "-large")
    run.validate("MeshOpsTrace", rnd_fine(rng, run.pick(150, 3000)), "clusterv-fine")
    run.validate("MeshOpsTrace", rnd_wide(rng, run.pick(2, 20), "heal"), "heal-wide")


def rnd_unify(rng, n, big=0):
    """height fields (all faces look up), components, with random flips; some arbitrary (not orientable) face soups"""
    res = []
    for _ in range(n):
        V, F = [], []
        for _ in range(rng.randint(1, 3)):
            w, h = (rng.randint(big // 2, big), rng.randint(big // 2, big)) if big else (rng.randint(1, 4), rng.randint(1, 3))
            off = len(V)
            rough = rng.choice([0, 0, 1, 3])
            ox = 50 * rng.randint(-3, 3)
            axis = rng.randint(0, 2)
            for y in range(h + 1):
                for x in range(w + 1):
                    p = [ox + 4 * x, 4 * y, rng.randint(0, rough) if rough else 0]
                    p = p[axis:] + p[:axis]
                    V.append(p)
            for y in range(h):
                for x in range(w):
                    a = off + x + y * (w + 1)
                    b, c, d = a + 1, a + w + 2, a + w + 1
                    F += [[a, b, c], [a, c, d]]
        if not big and rng.random() < 0.3:
            # a flat cone: one vertex that many faces share
            k = rng.randint(5, 20)
            off = len(V)
            ring = []
            for i in range(k):
                p = (round(20 * math.cos(2 * math.pi * i / k)), round(20 * math.sin(2 * math.pi * i / k)))
                if p not in ring:
                    ring.append(p)
            k = len(ring)
            V.append([500, 0, rng.randint(-2, 2)])
            V += [[500 + x, y, 0] for x, y in ring]
            F += [[off, off + 1 + i, off + 1 + (i + 1) % k] for i in range(k)]
        if rng.random() < (0.5 if big else 0.1):
            # faces that share nothing but one vertex
            off, k = len(V), rng.randint(110, 160) if big else rng.randint(2, 20)
            V.append([0, 900, 0])
            for i in range(k):
                x = 2 * (i - k // 2)
                V += [[x, 901, 0], [x + 1, 901, 0]]
                F.append([off, off + 2 * i + 2, off + 2 * i + 1])
        F = [f for f in F if rng.random() < 0.9]
        rng.shuffle(F)
        base = [f[k:] + f[:k] for f in F for k in [rng.randint(0, 2)]]
        F = [f if rng.random() < 0.5 else [f[0], f[2], f[1]] for f in base]
        if rng.random() < 0.15 and len(V) > 4:
            for _ in range(2):
                f = rng.sample(range(len(V)), 3)
                F.append(f)
                base.append(f)
        res.append({"fam": "unify", "V": V, "F": F, "base": base})
    return res


@check("C06")
def c06(run):
    cs = run.model("MeshOpsMC", {"Algo": "unify", "NPos": 4, "NV": 4, "MaxF": 2})
    cs = [c for i, c in enumerate(cs) if i % run.pick(3, 1) == run.seed % run.pick(3, 1)]
    run.validate("MeshOpsTrace", framed(random.Random(run.seed), cs), "unify-small")
    run.validate("MeshOpsTrace", framed(random.Random(run.seed), rnd_unify(random.Random(run.seed), run.pick(400, 5000))), "unify-patches")
    run.validate("MeshOpsTrace", framed(random.Random(run.seed), rnd_unify(random.Random(run.seed + 1), run.pick(8, 80), 9)), "unify-large")
    run.validate("MeshOpsTrace", rnd_wide(random.Random(run.seed), run.pick(2, 20), "unify"), "unify-wide")


@check("C07")
def c07(run):
    cs = run.model("MeshOpsMC", {"Algo": "subdiv", "NPos": 4, "NV": 4, "MaxF": 2})
    cs = [c for i, c in enumerate(cs) if i % run.pick(3, 1) == run.seed % run.pick(3, 1)]
    run.validate("MeshOpsTrace", framed(random.Random(run.seed), cs), "subdiv-small")
    run.validate("MeshOpsTrace", framed(random.Random(run.seed), rnd_heal(random.Random(run.seed), run.pick(300, 4000), "subdiv")), "subdiv-random")
    run.validate("MeshOpsTrace", framed(random.Random(run.seed), rnd_heal(random.Random(run.seed + 1), run.pick(6, 60), "subdiv", True)), "subdiv-large")
    run.validate("MeshOpsTrace", rnd_wide(random.Random(run.seed), run.pick(2, 20), "subdiv"), "subdiv-wide")


@check("C08")
def c08(run):
    run.replay(framed(random.Random(run.seed), run.model("Polygon", {"MaxOps": run.pick(4, 5), "MaxV": 6}, properties=["Stable"]), off=0), "polygon-exhaustive")
    run.replay(framed(random.Random(run.seed), run.model("Polygon", {"MaxOps": 30, "MaxV": 20}, simulate=(run.pick(50, 1000), 33)), off=0), "polygon-long")
    run.replay(framed(random.Random(run.seed), run.model("Polygon", {"MaxOps": 200, "MaxV": 150}, simulate=(run.pick(1, 20), 203)), off=0), "polygon-large")


def spread(cases, key, values):
    """gives every behaviour one of the values in turn"""
    values = list(values)
    for i, c in enumerate(cases):
        c[key] = values[(i + i // len(values)) % len(values)]
    return cases


@check("C09")
def c09(run):
    kinds = ["vec", "deque", "list", "pc2", "pc3"]
    cs = run.model("Views", {"MaxOps": 3, "MaxLen": 4, "MaxIdx": 2, "MaxStart": 3}, properties=["Stable"])
    if run.thorough:
        cs = [dict(c, kind=k) for k in kinds for c in cs]
    else:
        cs = spread(cs, "kind", kinds)
    run.replay(cs, "views-exhaustive")
    cs = run.model("Views", {"MaxOps": run.pick(15, 30), "MaxLen": 12, "MaxIdx": 6, "MaxStart": 7},
                   simulate=(run.pick(250, 2500), 33))
    run.replay(spread(cs, "kind", kinds), "views-long")
    cs = run.model("Views", {"MaxOps": 12, "MaxLen": 90, "MaxIdx": 70, "MaxStart": 70}, simulate=(run.pick(6, 200), 14))
    cs += run.model("Views", {"MaxOps": 8, "MaxLen": 320, "MaxIdx": 300, "MaxStart": 301}, simulate=(run.pick(8, 100), 10))
    run.replay(spread(cs, "kind", kinds), "views-large")


@check("C10")
def c10(run):
    run.replay(run.model("FilterLogic", {"MaxOps": run.pick(4, 5), "MaxArity": 3, "Wide": False}), "filterlogic-exhaustive")
    run.replay(run.model("FilterLogic", {"MaxOps": 25, "MaxArity": 5, "Wide": False}, simulate=(run.pick(500, 10000), 27)), "filterlogic-deep")
    run.replay(run.model("FilterLogic", {"MaxOps": run.pick(34, 71), "MaxArity": run.pick(33, 70), "Wide": True}), "filterlogic-wide")


@check("C11")
def c11(run):
    kinds = ["vec", "deque", "pc3"]
    cs = run.model("RaFilters", {"MaxOps": 4, "MaxArity": 2, "Sizes": {0, 1, 4}, "Wide": False}, properties=["Narrow"])
    run.replay(spread(cs, "kind", kinds), "collection-filters-exhaustive")
    cs = run.model("RaFilters", {"MaxOps": run.pick(16, 30), "MaxArity": 4, "Sizes": {1, 3, 6}, "Wide": False}, simulate=(run.pick(500, 8000), 33))
    run.replay(spread(cs, "kind", kinds), "collection-filters-long")
    cs = run.model("RaFilters", {"MaxOps": run.pick(21, 36), "MaxArity": run.pick(18, 33), "Sizes": {70, 300}, "Wide": True})
    run.replay(spread(cs, "kind", kinds), "collection-filters-large")


def rnd_pts(rng, n, lo, hi, dim=3, dup=0.2):
    P = []
    for _ in range(n):
        if P and rng.random() < dup:
            p = list(rng.choice(P))
            if rng.random() < 0.5:
                d = rng.randrange(dim)
                p[d] = rng.randint(lo, hi)
        else:
            p = [rng.randint(lo, hi) for _ in range(dim)]
        P.append(p)
    return P


def resizable(c):
    """a region built from a position alone has a size of its own"""
    return all(op["op"] != "new" for op in c["ops"])


@check("C12")
def c12(run):
    kinds = {"box2", "box3", "circle", "sphere"}
    run.replay(framed(random.Random(run.seed), run.model("Regions", {"MaxOps": 1, "Kinds": kinds, "Deep": True}), fits=resizable), "regions-exhaustive")
    run.replay(framed(random.Random(run.seed), run.model("Regions", {"MaxOps": 8, "Kinds": kinds, "Deep": True}, simulate=(run.pick(20, 400), 11)), fits=resizable), "regions-long")
    rng = random.Random(run.seed)
    cs = []
    for _ in range(run.pick(300, 4000)):
        s = rng.choice([3, 6, 15])
        P = rnd_pts(rng, rng.randint(1, 12) if rng.random() < 0.9 else rng.randint(40, 150), -s, s)
        Q = rnd_pts(rng, 6, -s, s) + [list(rng.choice(P)) for _ in range(4)]
        cs.append({"fam": "outlier", "P": P, "Q": Q, "r": rng.choice([1, 2, 3, 5, 7, 9]), "m": rng.randint(0, 5) if len(P) < 20 else rng.randint(0, 40)})
    run.validate("OutlierTrace", framed(random.Random(run.seed), cs), "outlier-random")


@check("C13")
def c13(run):
    run.replay(framed(random.Random(run.seed), run.model("BBox", {"MaxOps": 1, "Dims": {2}, "Coords": {1, 6, 9, 14}, "Mode": "one"}), kmax=100), "box-construction-2d")
    run.replay(framed(random.Random(run.seed), run.model("BBox", {"MaxOps": 1, "Dims": {3}, "Coords": {1, 9, 14}, "Mode": "one"}), kmax=100), "box-construction-3d")
    run.replay(framed(random.Random(run.seed), run.model("BBox", {"MaxOps": 3, "Dims": {2}, "Coords": {1, 6, 9, 14}, "Mode": "pairs"}), kmax=100), "box-pairs-2d")
    run.replay(framed(random.Random(run.seed), run.model("BBox", {"MaxOps": 3, "Dims": {3}, "Coords": {1, 9, 14}, "Mode": "pairs"}), kmax=100), "box-pairs-3d")
    run.replay(framed(random.Random(run.seed), run.model("BBox", {"MaxOps": 12, "Dims": {2, 3}, "Coords": {0, 5, 9, 12, 13, 16}, "Mode": "walk"}, simulate=(run.pick(30, 600), 15)), kmax=100), "box-histories")
    for dim in (2, 3):
        run.replay(framed(random.Random(run.seed + dim), run.model("BBox", {"MaxOps": 3, "Dims": {dim}, "Coords": {0, 5, 8, 9, 10, 12, 13, 16}, "Mode": "points"},
                   simulate=(run.pick(50, 1000), 6)), kmax=100, share=0.8), "box-points-%dd" % dim)


@check("C14")
def c14(run):
    kinds = {"pc2", "pc3", "f32", "vec", "deque"}
    cs = run.model("ContainersMC", {"MaxOps": run.pick(2, 3), "MaxLen": 6, "Kinds": kinds, "Rich": False})
    run.validate("ContainersTrace", cs, "containers-exhaustive")
    cs = run.model("ContainersMC", {"MaxOps": 30, "MaxLen": 20, "Kinds": kinds, "Rich": True}, simulate=(run.pick(60, 800), 33))
    run.validate("ContainersTrace", cs, "containers-long")
    cs = run.model("ContainersMC", {"MaxOps": 200, "MaxLen": 150, "Kinds": kinds, "Rich": True}, simulate=(run.pick(3, 40), 203))
    cs += run.model("ContainersMC", {"MaxOps": 14, "MaxLen": 600, "Kinds": kinds, "Rich": True}, simulate=(run.pick(12, 120), 17))
    run.validate("ContainersTrace", cs, "containers-large")


def kd_cases(run):
    cs = run.model("KdSearchMC", {"Size": 3, "NP": 3, "KMax": 3, "Rest": run.pick(11, 1)})
    cs += run.model("KdSearchMC", {"Size": 2, "NP": 4, "KMax": 3, "Rest": run.pick(5, 1)})
    seen = {}
    for c in cs:
        seen[repr(c)] = c
    return list(seen.values())


def rnd_kd(rng, n, large=False):
    res = []
    for _ in range(n):
        s = rng.choice([1, 2, 4, 8, 30])
        m = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40])
        if large:
            s, m = rng.choice([4, 30, 500]), rng.randint(70, 500)
        P = rnd_pts(rng, m, -s, s, 3, rng.choice([0, 0.2, 0.5]))
        if rng.random() < 0.2 and P:
            d = rng.randint(0, 2)
            for p in P:
                p[d] = P[0][d]
        if rng.random() < 0.2:
            P.sort(reverse=rng.random() < 0.5)
        Q = rnd_pts(rng, 3, -s - 2, s + 2) + [list(p) for p in P[:2]]
        res.append({"fam": "kd", "P": P, "K": [{"q": q, "k": rng.choice([0, 1, 2, 3, 5, 9, 16, 40, m, m + 2])} for q in Q],
                    "S": [{"q": q, "r": rng.choice([1, 2, 3, 5, s + 1])} for q in Q],
                    "B": [{"q": q, "h": [rng.randint(1, s + 2) for _ in range(3)]} for q in Q],
                    "pre": rng.choice([0, 0, 2]), "rebuild": rng.choice([0, 0, 0, 1, 3])})
    return res


@check("C15")
def c15(run):
    run.validate("KdTrace", framed(random.Random(run.seed), kd_cases(run)), "kd-small", {"What": "nearest"})
    run.validate("KdTrace", framed(random.Random(run.seed), rnd_kd(random.Random(run.seed), run.pick(600, 8000))), "kd-random", {"What": "nearest"})
    run.validate("KdTrace", framed(random.Random(run.seed), rnd_kd(random.Random(run.seed + 1), run.pick(40, 400), True)), "kd-large", {"What": "nearest"})


@check("C16")
def c16(run):
    run.validate("KdTrace", framed(random.Random(run.seed), kd_cases(run)), "kd-small", {"What": "range"})
    run.validate("KdTrace", framed(random.Random(run.seed), rnd_kd(random.Random(run.seed + 100), run.pick(600, 8000))), "kd-random", {"What": "range"})
    run.validate("KdTrace", framed(random.Random(run.seed), rnd_kd(random.Random(run.seed + 101), run.pick(40, 400), True)), "kd-large", {"What": "range"})


def rnd_oct(rng, n, large=False):
    res = []
    for _ in range(n):
        s = rng.choice([1, 2, 3, 4, 7, 8, 16, 33])
        m = rng.choice([1, 2, 3, 5, 8, 13, 30])
        if large:
            s, m = rng.choice([4, 33, 500]), rng.randint(60, 300)
        P = rnd_pts(rng, m, -s, s, 3, rng.choice([0, 0.2, 0.5]))
        U = []
        if rng.random() < 0.15 and len(P) > 1:
            # neighbours that differ in the last bits only
            P = P + [list(p) for p in P[:3]]
            U = [[rng.randint(0, 2) for _ in range(3)] for _ in P]
            P = [[abs(x) + 1 for x in p] for p in P]
            lo = [min(p[d] for p in P) for d in range(3)]
        res.append({"fam": "oct", "P": P, "U": U, "S": [], "scale": rng.choice([1, 1, 2, 4]), "D": [0, 1, 2, 4],
                    "rebuild": rng.choice([0, 0, 1])})
    return res


def deep_oct(rng, n):
    """Points whose distances differ by many powers of two: trees far deeper than 127 levels."""
    res = []
    for _ in range(n):
        top = rng.choice([10, 40, 120, 126, 127, 128, 129, 130, 200, 260, 600, 1000])
        P, S = [[1, 1, 1]], [0]
        for _ in range(rng.choice([2, 3, 5, 8])):
            v = [rng.choice([0, 1, 3, 5]) for _ in range(3)]
            if any(v):
                P.append(v)
                S.append(top - rng.choice([0, 0, 1, 3, rng.randint(0, top - 4)]))
        P.append(list(P[-1]))
        S.append(S[-1])
        res.append({"fam": "oct", "P": P, "U": [], "S": S, "scale": 1,
                    "D": [0, 1, 2, 40, 126, 127], "rebuild": rng.choice([0, 1])})
    return res


@check("C17")
def c17(run):
    cs = run.model("OcTreeMC", {"Size": 2, "Coords": {0, 1, 2}, "NP": 2, "Rest": 1})
    cs += run.model("OcTreeMC", {"Size": 2, "Coords": {0, 1, 2}, "NP": 3, "Rest": run.pick(7, 1)})
    cs += run.model("OcTreeMC", {"Size": 4, "Coords": {0, 1, 3, 4}, "NP": run.pick(1, 2), "Rest": 1})
    run.validate("OcTreeTrace", framed(random.Random(run.seed), cs), "octree-small")
    run.validate("OcTreeTrace", framed(random.Random(run.seed), rnd_oct(random.Random(run.seed), run.pick(500, 8000)), fits=lambda c: not c["U"]), "octree-random")
    run.validate("OcTreeTrace", framed(random.Random(run.seed), rnd_oct(random.Random(run.seed + 2), run.pick(16, 300), True), fits=lambda c: not c["U"]), "octree-large")
    run.validate("OcTreeTrace", deep_oct(random.Random(run.seed + 1), run.pick(300, 4000)), "octree-deep")


def rnd_box(rng, s, dim, kinds=("",)):
    lo, hi = [], []
    for d in range(3):
        a = rng.randint(-s, s)
        lo.append(a)
        hi.append(a + rng.choice([1, 1, 2, 3, s + 1]))
    return {"lo": lo, "hi": hi, "kind": rng.choice(kinds)}


def rnd_trees(rng, n, fam, large=False):
    res = []
    kinds = ["", "", "box", "two", "rot", "r345"] if fam == "tree3" else [""]
    for _ in range(n):
        s = rng.choice([1, 2, 4, 8, 20])
        m = rng.choice([0, 1, 2, 3, 5, 8, 13, 24])
        if large:
            s, m = rng.choice([4, 20, 100]), rng.randint(60, 300)
        ks = kinds if rng.random() < 0.5 else [""]
        E = [rnd_box(rng, s, 3, ks) for _ in range(m)]
        small = large and rng.random() < 0.5    # few of many touch each other
        if small:
            for e in E:
                e["hi"] = [x + rng.choice([1, 1, 2]) for x in e["lo"]]
        for _ in range(rng.choice([0, 0, 2])):
            if E:
                E.append(dict(rng.choice(E)))
        Q = [rnd_box(rng, s + 1, 3, ks) for _ in range(5)]
        if small:
            Q = [dict(rng.choice(E[len(E) // 2:]), kind=rng.choice(ks)) for _ in range(4)] + [dict(E[-1])]
        L = []
        for _ in range(4):
            d = [rng.randint(-3, 3) for _ in range(3)]
            if rng.random() < 0.4:
                d = [0, 0, 0]
                d[rng.randint(0, 2)] = rng.choice([-1, 1, 2])
            if d == [0, 0, 0]:
                d = [1, 0, 0]
            L.append({"a": [rng.randint(-2 * s, 2 * s) for _ in range(3)], "d": d})
        c = {"fam": fam, "E": E, "depth": rng.choice([0, 1, 2, 3, 5, 9]), "bucket": rng.choice([0, 1, 2, 3, 6])}
        if fam == "cluster":
            for e in E:
                e["kind"] = ""
            c.update(nx=rng.choice([0, 1, 2, 3, 5, 7, 40]), ny=rng.choice([1, 1, 2, 3, 6, 11]))
            Q = [[rng.randint(-4 * s - 3, 4 * s + 20) for _ in range(2)] for _ in range(6)]
            for e in E[:6]:
                Q.append([4 * rng.choice([e["lo"][d], e["hi"][d]]) for d in range(2)])
                Q.append([rng.randint(4 * e["lo"][d], 4 * e["hi"][d]) for d in range(2)])
            c["Q"] = Q
        else:
            c.update(Q=Q, X=[rng.randint(-s - 1, s + 3) for _ in range(4)], L=L)
        res.append(c)
    return res


@check("C18")
def c18(run):
    cs = run.model("BoxTreeMC", {"Dim": 2, "NE": 2, "Top1": 3, "Zs": {1}, "Rest": run.pick(29, 3)})
    cs += run.model("BoxTreeMC", {"Dim": 2, "NE": 3, "Top1": 2, "Zs": {1}, "Rest": run.pick(7, 1)})
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), cs), "tree2-small")
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), rnd_trees(random.Random(run.seed), run.pick(500, 8000), "tree2")), "tree2-random")
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), rnd_trees(random.Random(run.seed + 1), run.pick(25, 250), "tree2", True)), "tree2-large")


@check("C19")
def c19(run):
    cs = run.model("BoxTreeMC", {"Dim": 3, "NE": 2, "Top1": 2, "Zs": {1, 2}, "Rest": run.pick(11, 1)})
    cs += run.model("BoxTreeMC", {"Dim": 3, "NE": 3, "Top1": 2, "Zs": {1}, "Rest": run.pick(173, 13)})
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), cs), "tree3-small")
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), rnd_trees(random.Random(run.seed), run.pick(500, 8000), "tree3")), "tree3-random")
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), rnd_trees(random.Random(run.seed + 1), run.pick(25, 250), "tree3", True)), "tree3-large")


@check("C20")
def c20(run):
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), rnd_trees(random.Random(run.seed), run.pick(1500, 20000), "cluster")), "cluster-random")
    run.validate("BoxTreeTrace", framed(random.Random(run.seed), rnd_trees(random.Random(run.seed + 1), run.pick(60, 600), "cluster", True)), "cluster-large")


def rnd_bodies(rng, n):
    res = []
    for _ in range(n):
        s = rng.choice([1, 2, 3, 6])
        kinds = rng.choice([["aabb"], ["aabb", "box"], ["aabb", "box", "rot", "r345", "moved"], ["r345"]])

        def body():
            if rng.random() < 0.35:
                while True:
                    p = [[rng.randint(-s, s + 2) for _ in range(3)] for _ in range(3)]
                    if all(len({q[d] for q in p}) > 1 for d in range(3)):
                        return {"kind": "face", "p": p}
            return rnd_box(rng, s, 3, kinds)
        A = [body() for _ in range(rng.choice([1, 1, 2, 3]))]
        B = [body() for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.1:
            B = [dict(A[0])]
        res.append({"fam": "sat", "A": A, "B": B})
    return res


def many_bodies(rng, n):
    """long lists of bodies of which few are near the other"""
    res = []
    for _ in range(n):
        m = rng.choice([70, 130, 300])
        far = rng.random() < 0.3
        A = []
        for i in range(m):
            lo = [30 + 3 * (i % 9), 3 * (i // 9 % 9), 3 * (i // 81)]
            A.append({"lo": lo, "hi": [x + rng.choice([1, 2]) for x in lo], "kind": rng.choice(["aabb", "aabb", "box"])})
        for b in () if far else (0,):
            k = rng.choice([m - 1, m - 2, m // 2, rng.randrange(m), 0])
            A[k] = rnd_box(rng, 2, 3, ["aabb", "box", "rot"])
        B = [rnd_box(rng, 2, 3, ["aabb", "box"]) for _ in range(rng.choice([1, 1, 3]))]
        if rng.random() < 0.3:
            A, B = B, A
        res.append({"fam": "sat", "A": A, "B": B})
    return res


@check("C23")
def c23(run):
    cs = run.model("BodiesMC", {"Top1": 3, "Rest": run.pick(41, 3)})
    run.validate("BodiesTrace", framed(random.Random(run.seed), cs), "bodies-small")
    run.validate("BodiesTrace", framed(random.Random(run.seed), rnd_bodies(random.Random(run.seed), run.pick(1200, 20000))), "bodies-random")
    run.validate("BodiesTrace", framed(random.Random(run.seed), many_bodies(random.Random(run.seed), run.pick(12, 150))), "bodies-many")


@check("C21")
def c21(run):
    cs = run.model("HullMC", {"Size": 2, "NP": 4, "Rest": run.pick(3, 1)})
    cs += run.model("HullMC", {"Size": 1, "NP": 5, "Rest": 1})
    for n in (1, 2, 3):
        cs += run.model("HullMC", {"Size": 2, "NP": n, "Rest": 1})
    run.validate("AlgoTrace", framed(random.Random(run.seed), cs), "hull-small")
    rng = random.Random(run.seed)
    cs = []
    for _ in range(run.pick(600, 10000)):
        s = rng.choice([1, 2, 3, 6, 20, 150])
        m = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])
        P = rnd_pts(rng, m, -s, s, 2, rng.choice([0, 0.2, 0.5]))
        k = rng.random()
        if k < 0.15:
            P.sort(reverse=rng.random() < 0.5)
        elif k < 0.25:
            P = [[x, 2 * x - 1] for x, _ in P]
        elif k < 0.35:
            P = [[0, y] for _, y in P]
        cs.append({"fam": "hull", "P": P, "scale": rng.choice([1, 1, 4])})
    run.validate("AlgoTrace", framed(random.Random(run.seed), cs), "hull-random")
    cs = []
    for _ in range(run.pick(30, 400)):
        s = rng.choice([5, 100, 15000])
        P = rnd_pts(rng, rng.randint(100, 600), -s, s, 2, rng.choice([0, 0.3]))
        if rng.random() < 0.4:   # many corners
            a = rng.randint(20, 80)
            P = [[x, x * x - 2000] for x in range(-a, a)] + [p for p in rnd_pts(rng, 60, -a, a, 2) if p[1] > p[0] * p[0] - 2000]
            rng.shuffle(P)
        cs.append({"fam": "hull", "P": P, "scale": 1})
    run.validate("AlgoTrace", framed(random.Random(run.seed), cs), "hull-large")


@check("C22")
def c22(run):
    cs = run.model("PolylineMC", {"Size": 2, "NP": 4, "Eps": {0, 1, 2}, "Rest": run.pick(7, 1)})
    cs += run.model("PolylineMC", {"Size": 2, "NP": 3, "Eps": {0, 1}, "Rest": 1})
    for n in (1, 2):
        cs += run.model("PolylineMC", {"Size": 1, "NP": n, "Eps": {0, 1}, "Rest": 1})
    run.validate("AlgoTrace", framed(random.Random(run.seed), cs, off=0), "polyline-small")
    rng = random.Random(run.seed)
    cs = []
    for _ in range(run.pick(600, 10000)):
        s = rng.choice([1, 2, 4, 8, 15])
        m = rng.choice([0, 1, 2, 3, 5, 8, 13, 25])
        P = rnd_pts(rng, m, -s, s, 2, 0.2)
        k = rng.random()
        if k < 0.3:     # smooth walk
            x, y, P = 0, 0, []
            for _ in range(m):
                P.append([x, y])
                x += rng.randint(0, 2)
                y += rng.randint(-1, 1)
        elif k < 0.4:
            P = [[x, 0] for x, _ in P]
        elif k < 0.5:
            P = [[0, y] for _, y in P]
        if rng.random() < 0.2 and P:
            P[-1] = list(P[0])
        cs.append({"fam": "dp", "P": P, "eps": rng.choice([0, 1, 1, 2, 3, 5])})
    run.validate("AlgoTrace", framed(random.Random(run.seed), cs, off=0), "polyline-random")
    cs = []
    for _ in range(run.pick(20, 300)):
        s = rng.choice([3, 8, 15])
        x = y = 0
        P = []
        for _ in range(rng.randint(60, 300)):
            x = max(-s, min(s, x + rng.randint(-1, 1)))
            y = max(-s, min(s, y + rng.randint(-1, 1)))
            P.append([x, y])
        if rng.random() < 0.5:     # few corners, far from each other
            n, k = len(P), rng.randint(1, 4)
            corners = sorted(rng.sample(range(1, n - 1), k)) if rng.random() < 0.6 else [n - 2 - rng.randint(0, n // 3)]
            at, ends = 0, [0] + corners + [n - 1]
            y, P = rng.randint(-s, s), []
            for a, b in zip(ends, ends[1:]):
                d = rng.choice([-1, 0, 1]) if b - a < 2 * s else 0
                P += [[i % 2 if d == 0 and rng.random() < 0.2 else 0, y] for i in range(a, b)]
                y = max(-s, min(s, y + rng.choice([-9, -4, 5, 8])))
            P.append([0, y])
            P = [[i // 16 + p[0], p[1]] for i, p in enumerate(P)]
        cs.append({"fam": "dp", "P": P, "eps": rng.choice([0, 1, 2, 4])})
    run.validate("AlgoTrace", framed(random.Random(run.seed), cs, off=0), "polyline-large")


@check("C24")
def c24(run):
    rng = random.Random(run.seed)
    tys = ["u8", "u16", "u32", "u64", "usize"]
    cs = run.model("CloudMC", {"Size": 2, "NP": 2})
    cs = spread(cs, "t", tys)
    for _ in range(run.pick(800, 12000)):
        s = rng.choice([1, 2, 5, 50, 700])
        P = rnd_pts(rng, rng.choice([0, 1, 2, 3, 5, 9, 20, 60] + [400] * (rng.random() < 0.1)), -s, s, 3, rng.choice([0, 0.3]))
        cs.append({"fam": "comp", "P": P, "t": rng.choice(tys)})
    run.validate("AlgoTrace", framed(random.Random(run.seed), cs), "compressed")


# ------------------------------------------------------------------ file readers

LINES = {"C25": [("xy", 4, 5), ("xyz", 4, 5)], "C26": [("pts", 4, 5)], "C27": [("ptx", 3, 5)], "C29": [("gcode", 4, 4)],
         "C30": [("obj", 4, 4)], "C31": [("off", 4, 4)], "C33": [("stl", 3, 4)]}


def long_check(run, fmt, binary=False, big=66000, salt=7):
    """files with many items, checked step by step"""
    rng = random.Random(run.seed + salt)
    cs = [iolong.case(fmt, binary, n, rng, k % 4 == 1) for _ in range(run.pick(1, 3)) for k, n in enumerate(iolong.sizes(run, rng, big))]
    run.validate("LongTrace", cs, fmt + ("-bin" if binary else "") + "-long", heap="12g")


def line_check(run, fmts, n=500, spoiled=0.5):
    rng = random.Random(run.seed)
    for fmt, q, t in fmts:
        cs = run.model("ReaderMC", {"Fmt": fmt, "MaxLines": run.pick(q, t)}, properties=["Grows"])
        if run.tier == "quick" and len(cs) > 5000:
            cs = rng.sample(cs, 5000)
        run.validate("ReaderTrace", [iotext.case(fmt, c["lines"], rng, plain=rng.random() < 0.5) for c in cs], fmt + "-small")
        cs = []
        for _ in range(run.pick(n, 20 * n)):
            L = iotext.good_file(fmt, rng)
            if rng.random() < spoiled:
                L = iotext.spoil(fmt, L, rng)
            cs.append(iotext.case(fmt, L, rng))
        run.validate("ReaderTrace", cs, fmt + "-random")
        long_check(run, fmt, big=run.pick(8000, 66000) if fmt == "stl" else 66000)


@check("C25")
def c25(run):
    line_check(run, LINES["C25"])


@check("C26")
def c26(run):
    line_check(run, LINES["C26"])


@check("C27")
def c27(run):
    line_check(run, LINES["C27"])


@check("C29")
def c29(run):
    line_check(run, LINES["C29"], spoiled=0.3)


@check("C30")
def c30(run):
    line_check(run, LINES["C30"], spoiled=0.4)


@check("C31")
def c31(run):
    line_check(run, LINES["C31"], n=1500)


def bin_check(run, fmt, units_q, units_t, n=600):
    rng = random.Random(run.seed)
    cs = run.model("BinMC", {"Fmt": fmt, "MaxUnits": run.pick(units_q, units_t)})
    if run.tier == "quick" and len(cs) > 5000:
        cs = rng.sample(cs, 5000)
    run.validate("BinTrace", [iobin.case(c, rng) for c in cs], fmt + "-small")
    run.validate("BinTrace", [iobin.case(iobin.rand_bin(fmt, rng), rng) for _ in range(run.pick(n, 20 * n))], fmt + "-random")
    long_check(run, fmt, True)


@check("C28")
def c28(run):
    bin_check(run, "psl", 8, 11)


@check("C33")
def c33(run):
    line_check(run, LINES["C33"])
    bin_check(run, "stl", 5, 7)


@check("C34")
def c34(run):
    bin_check(run, "las", 5, 6)


@check("C32")
def c32(run):
    rng = random.Random(run.seed)
    cs = run.model("PlyMC", {"Wide": run.pick(False, True)})
    if run.tier == "quick" and len(cs) > 6000:
        cs = rng.sample(cs, 6000)
    run.validate("BinTrace", [iobin.case(c, rng) for c in cs], "ply-layouts")
    cs = [iobin.case(iobin.rand_ply(rng, rng.random() < 0.5), rng) for _ in range(run.pick(1500, 30000))]
    run.validate("BinTrace", cs, "ply-random")
    for salt in (7, 8, 9):
        long_check(run, "ply", big=run.pick(20000, 132000), salt=salt)


# ---------------------------------------------------------------- properties of all readers

TEXT = ["xy", "xyz", "pts", "ptx", "gcode", "obj", "off", "stl"]
BIN = ["stl", "psl", "las"]


def text_file(fmt, rng, bad):
    L = iotext.good_file(fmt, rng)
    return iotext.spoil(fmt, L, rng) if bad else L


def any_cases(rng, n, bad):
    """n structured files of every format, as (spec module, case)"""
    for fmt in TEXT:
        for _ in range(n):
            yield "ReaderTrace", iotext.case(fmt, text_file(fmt, rng, rng.random() < bad), rng)
    for fmt in BIN:
        for _ in range(n):
            yield "BinTrace", iobin.case(iobin.rand_bin(fmt, rng), rng)
    for _ in range(3 * n):
        yield "BinTrace", iobin.case(iobin.rand_ply(rng, rng.random() < bad), rng)


def n_bytes(c):
    return len(c["hex"]) // 2 if "hex" in c else len(c["text"].encode())


def by_module(run, pairs, name):
    for m in ("ReaderTrace", "BinTrace"):
        run.validate(m, [c for k, c in pairs if k == m], name + "-" + m[:-5].lower())


@check("C36")
def c36(run):
    rng = random.Random(run.seed)
    run.model("ProtocolMC", {"MaxCalls": 6}, dump=False)
    # every reader on every small file of the models, then on damaged, cut and failing ones; the traces hold four
    # further answers after the end or the error
    for fmt, q, t in [x for v in LINES.values() for x in v]:
        cs = run.model("ReaderMC", {"Fmt": fmt, "MaxLines": run.pick(min(q, 3), t)}, properties=["Grows"])
        cs = rng.sample(cs, min(len(cs), run.pick(600, 20000)))
        run.validate("ReaderTrace", [iotext.case(fmt, c["lines"], rng) for c in cs], fmt + "-small")
    pairs = list(any_cases(rng, run.pick(120, 2500), 0.8))
    for _, c in pairs:
        if rng.random() < 0.3:
            c["fail"] = rng.randint(0, n_bytes(c))
    by_module(run, pairs, "damaged")
    run.validate("RawTrace", [ioraw.mutated(c, rng) for _, c in any_cases(rng, run.pick(60, 1000), 0.3)], "raw")


@check("C37")
def c37(run):
    rng = random.Random(run.seed)
    run.model("ProtocolMC", {"MaxCalls": 6}, dump=False)
    cs = []
    for _ in range(run.pick(5, 120)):
        cs += [ioraw.mutated(c, rng) for _, c in any_cases(rng, 40, 0.2)]
    run.validate("RawTrace", cs, "mutated")
    run.validate("RawTrace", list(ioraw.counts(rng)), "huge-counts")
    run.validate("RawTrace", list(ioraw.words(rng, run.pick(0.3, 1.0))), "short-words")
    run.validate("RawTrace", [ioraw.noise(rng) for _ in range(run.pick(1500, 40000))], "noise")
    # damage with a known meaning: what is reported is what the file says
    by_module(run, list(any_cases(rng, run.pick(60, 1500), 1.0)), "damaged")


@check("C38")
def c38(run):
    rng = random.Random(run.seed)
    sched = run.model("Source", {"N": run.pick(6, 8), "MaxChunk": 4, "MaxIntr": 1}, properties=["Settles"])
    def scheduled(c):
        s = rng.choice(sched)
        c.update(kind=rng.randrange(8), chunks=[x * rng.choice([1, 1, 1, 3, 17]) for x in s["script"]], intr=rng.choice([0, 2, 3, 7]) if s["intr"] else 0)
        return c
    by_module(run, [(m, scheduled(c)) for m, c in any_cases(rng, run.pick(150, 4000), 0.4)], "chunks")
    # the source fails at every byte of some files of every format
    pairs = []
    left = {}
    for m, c in any_cases(rng, run.pick(60, 400), 0.15):
        k = c["fmt"] + m
        b = n_bytes(c)
        if b and left.setdefault(k, run.pick(1300, 12000)) >= b:
            left[k] -= b + 1
            pairs += [(m, scheduled(dict(c, fail=p))) for p in range(b + 1)]
    by_module(run, pairs, "faults")


# ---------------------------------------------------------------- savers

HOWS = ["xy", "xyz", "ply-a", "ply-ac", "ply-b32", "ply-b64", "ply-bc32", "ply-bc64", "stl"]


def bits(x):
    return struct.pack(">d", x).hex()


def bits32(x):
    return bits(struct.unpack(">f", struct.pack(">f", x))[0])


def some_double(rng, how):
    k = rng.random()
    sign = rng.choice([1, -1])
    if k < 0.3:
        return float(rng.randint(-1000, 1000))
    if k < 0.5:
        return sign * rng.randint(1, 10 ** 6) / 1000
    if k < 0.6:
        return sign * rng.choice([1 / 3, 0.1, 1e-7, 123456789.123, 2 ** 53 + 2.0, 0.30000000000000004, 1e15, 1e16, 1e21, 5e-5])
    if k < 0.7:
        return 0.0
    x = sign * rng.random() * 10.0 ** rng.randint(-30, 30)
    if k > 0.95 and how in ("xy", "xyz", "ply-a", "ply-ac", "ply-b64", "ply-bc64"):
        return sign * rng.choice([5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e300, -0.0])
    return x


def save_case(how, ids, F, nc, rng, **kw):
    """ids: points by number; equal numbers stand for equal points"""
    d = 2 if how == "xy" else 3
    table, used = {}, set()
    for i in sorted(set(ids)):
        while True:
            p = tuple(some_double(rng, how) + 0.0 * d for _ in range(d))
            if p not in used:
                break
        used.add(p)
        table[i] = p
    P = [table[i] for i in ids]
    C = [[rng.choice([0, 255, 10, 13, 32, rng.randrange(256)]) for _ in range(3)] for _ in range(nc)] if how.split("-")[-1][:2] in ("ac", "bc") else []
    c = {"fam": "save", "how": how, "P": [[bits(x) for x in p] for p in P], "P32": [[bits32(x) for x in p] for p in P] if "32" in how else [],
         "F": F if how not in ("xy", "xyz") else [], "C": C, "dc": rng.choice([" ", " ", ";", ",", "\t"]), "dp": rng.choice(["\n", "\n", "\r\n"]),
         "accept": [], "fail": -1, "intr": 0, "zero": False}
    c.update(kw)
    return c


def large_saves(run, rng, how):
    """clouds and meshes beyond any buffer a saver might use"""
    for n in run.pick([300, 1100, 5000], [129, 257, 300, 1025, 4097, 20000, 66000]):
        if how == "stl":
            yield rand_save(rng, how, n=rng.choice([12, 40]), nf=min(n, 2500))
        else:
            yield rand_save(rng, how, n=n, nf=rng.choice([1, n // 2, n]))
    if "ply" in how:
        yield rand_save(rng, how, n=8, nf=run.pick(3000, 70000))


def rand_save(rng, how=None, n=None, nf=None, **kw):
    how = how or rng.choice(HOWS)
    n = rng.choice([0, 1, 2, 3, 4, 9, 40]) if n is None else n
    k = n if rng.random() < 0.5 else max(1, n // 2)
    ids = [rng.randrange(k) for _ in range(n)] if rng.random() < 0.5 else list(range(n))
    F = [rng.sample(range(n), 3) for _ in range(rng.choice([0, 1, 2, 6, 30]) if nf is None else nf)] if n >= 3 else []
    nc = n if nf is not None or rng.random() < 0.85 else max(0, n + rng.choice([-1, 1, 5]))
    return save_case(how, ids, F, nc, rng, **kw)


@check("C35")
def c35(run):
    rng = random.Random(run.seed)
    ms = run.model("SaverMC", {"MaxP": run.pick(3, 4), "MaxF": 2})
    cs = []
    for m in ms if len(ms) < 3000 else rng.sample(ms, run.pick(3000, min(len(ms), 40000))):
        ids = [{(0, 0, 0): 0, (1, 0, -2): 1, (3, 1, 0): 2}[tuple(p)] for p in m["P"]]
        for how in HOWS if run.thorough else rng.sample(HOWS, 3):
            cs.append(save_case(how, ids, m["F"], m["nc"], rng))
    run.validate("SaveTrace", cs, "small")
    run.validate("SaveTrace", [rand_save(rng) for _ in range(run.pick(2500, 60000))], "random")
    run.validate("SaveTrace", [c for how in HOWS for c in large_saves(run, rng, how)], "large")


@check("C39")
def c39(run):
    rng = random.Random(run.seed)
    sched = run.model("Sink", {"MaxPieces": 2, "MaxLen": run.pick(3, 4), "MaxAccept": 3}, properties=["Settles"])

    def into(c, **kw):
        s = rng.choice(sched)
        return dict(c, accept=[x * rng.choice([1, 1, 2, 9]) for x in s["accept"]], kind=rng.randrange(7), intr=rng.choice([2, 3, 5]) if s["intr"] else 0, zero=s["zero"], **kw)
    run.validate("SaveTrace", [into(rand_save(rng)) for _ in range(run.pick(1500, 30000))], "short-writes")
    # the destination fails at every byte
    cs = []
    for how in HOWS:
        for _ in range(run.pick(2, 12)):
            c = rand_save(rng, how)
            while not 2 <= len(c["P"]) <= 9:
                c = rand_save(rng, how)
            total = 200 * (1 + len(c["P"]) + len(c["F"])) if how == "stl" else 450 + 60 * len(c["P"]) + 20 * len(c["F"]) if "ply" in how else 60 * len(c["P"])
            cs += [into(c, fail=p) for p in range(0, total, 1 if run.thorough else rng.choice([1, 2, 3]))]
    run.validate("SaveTrace", cs, "faults")
    cs = []
    for how in HOWS:
        for c in large_saves(run, rng, how):
            if len(c["P"]) <= 5000:
                cs += [into(c)] + [into(c, fail=rng.randrange(20 * (len(c["P"]) + len(c["F"])))) for _ in range(run.pick(1, 4))]
    run.validate("SaveTrace", cs, "large")


@check("C41")
def c41(run):
    k = {"pt", "pc", "poly", "mesh", "seg", "vec", "deque", "list", "f32", "bb", "box", "ball", "ubox", "line", "ray"}
    run.replay(run.model("Transforms", {"MaxOps": 1, "Dims": {2, 3}, "Kinds": k, "Random": False, "Large": False, "PipeOnly": False}), "transforms-each")
    run.replay(run.model("Transforms", {"MaxOps": 12, "Dims": {2, 3}, "Kinds": k, "Random": True, "Large": False, "PipeOnly": False}, simulate=(run.pick(150, 2000), 16)), "transforms-histories")
    run.replay(run.model("Transforms", {"MaxOps": 9, "Dims": {2, 3}, "Kinds": {"pt"}, "Random": True, "Large": False, "PipeOnly": True}, simulate=(run.pick(300, 3000), 13)), "transforms-pipes")
    big = {"pc", "poly", "mesh", "vec", "deque", "list", "f32"}
    run.replay(run.model("Transforms", {"MaxOps": 5, "Dims": {2, 3}, "Kinds": big, "Random": True, "Large": True, "PipeOnly": False}, simulate=(run.pick(20, 300), 9)), "transforms-large")


def vec_cases(rng, n):
    """points, paths, triangles, planes, fields, numbers and texts for VectorTrace"""
    res = []
    small = lambda d, s=6: [rng.randint(-s, s) for _ in range(d)]
    for d in (2, 3):
        tiny = list(itertools.product([-1, 0, 2], repeat=d))
        for a in tiny:
            for b in tiny:
                res.append({"kind": "pair", "a": list(a), "b": list(b), "k": rng.choice([-2, 0, 1, 3]), "nz": rng.randint(0, 1)})
        for _ in range(n):
            a = small(d)
            k = rng.random()
            b = small(d) if k < 0.5 else [rng.choice([1, -1]) * x * rng.choice([1, 1, 0]) for x in a] if k < 0.7 else \
                [max(-6, min(6, rng.choice([1, -1, 2]) * x)) for x in a] if k < 0.8 else rng.sample(a, d) if k < 0.9 else [x * (-1 if k < 0.95 else 1) for x in a]
            res.append({"kind": "pair", "a": a, "b": b, "k": rng.choice([-3, -1, 0, 1, 2, 4, 8]), "nz": rng.randint(0, 1)})
        for _ in range(n // 4):
            s = rng.choice([1, 4, 30])
            m = rng.choice([0, 1, 2, 2, 3, 5, 9, 40, 150])
            res.append({"kind": "path", "dim": d, "P": [small(d, s) for _ in range(m)]})
        for _ in range(n // 2):
            u = small(d, 4)
            if not any(u):
                continue
            V = [small(d, 4) for _ in range(8)] + [[-x for x in u], u, [2 * x for x in u], u[1:] + u[:1], u[::-1]]
            res.append({"kind": "field", "u": u, "V": [v for v in V if any(v)],
                        "z": rng.choice([[1, 0, 1], [4, 3, 5], [3, 4, 5], [0, 1, 1], [-3, 4, 5], [-4, 3, 5], [24, 7, 25], [12, 5, 13]])})
    for _ in range(n):
        P = [small(3, 3) for _ in range(3)]
        if rng.random() < 0.2:
            P[2] = [2 * y - x for x, y in zip(P[0], P[1])]
        if rng.random() < 0.1:
            P[rng.randint(1, 2)] = list(P[0])
        res.append({"kind": "normal", "P": P})
    frames = [([1, 0, 0], [0, 1, 0], 1), ([0, 0, -1], [0, 1, 0], 1), ([2, 1, 2], [1, 2, -2], 3), ([2, -2, 1], [1, 2, 2], 3), ([3, 4, 0], [0, 0, 5], 5), ([2, 3, 6], [3, -6, 2], 7)]
    for _ in range(n // 2):
        u, v, h = rng.choice(frames)
        res.append({"kind": "plane", "u": u, "v": v, "h": h, "o": small(3, 9), "p": small(3, 30)})
    for a in list(range(-3, 12)) + [100]:
        for b in (-1, 0, 1, 2, 3, 7):
            res.append({"kind": "num", "a": a, "b": b})
    good = [["1", 1000], ["-2.5", -2500], ["0", 0], ["1e2", 100000], ["+3", 3000], [".5", 500], ["7.", 7000], ["-0.125", -125], ["12345.678", 12345678]]
    bad = ["", "a", "1,5", "1.2.3", "--1", "0x10", "1e", "1\t", ";"]
    for _ in range(n):
        d = rng.choice([2, 3])
        W = []
        for _ in range(rng.choice([d, d, d, d, d - 1, d + 1, 0, 6])):
            w = rng.choice(good)
            b = rng.choice(bad) if rng.random() < 0.06 else None
            if b == "":
                b = None
            W.append((b, 0, 0) if b else (w[0], 1, w[1]))
        sep = lambda: " " * rng.choice([1, 1, 1, 2, 5])
        t = (sep() if rng.random() < 0.2 else "") + "".join(w[0] + sep() for w in W)
        res.append({"kind": "text", "dim": d, "text": t if rng.random() < 0.3 else t.rstrip(" "), "words": [[w[1], w[2]] for w in W]})
    spec = [0.0, -0.0, 0.1, 1 / 3, 1e300, -1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 123456789.123456789, 1e21, 1e-7, 2.0 ** 53 + 2]
    bits = lambda x: str(struct.unpack("<Q", struct.pack("<d", x))[0])
    for _ in range(n):
        vs = []
        while len(vs) < 3:
            x = rng.choice(spec) if rng.random() < 0.3 else struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
            if x == x and abs(x) != float("inf"):
                vs.append(x)
        res.append({"kind": "round", "bits": [bits(x) for x in vs]})
    for _ in range(n // 4):
        d, m = rng.choice([2, 3]), rng.choice([1, 2, 3, 8, 30, 90])
        r = rng.choice([1, 5, 1000])
        res.append({"kind": "sort", "P": [small(d, r) for _ in range(m)]})
        res.append({"kind": "extrude", "P": [small(2, r) for _ in range(rng.choice([0, 1, 4, 40]))], "u": small(3, r)})
        res.append({"kind": "pack", "P": [small(3, rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 1, 5, 30, 90]))]})
    for c in res:
        c["fam"] = "vec"
        if c["kind"] in ("pair", "path", "normal", "plane") and rng.random() < 0.4:
            c["scale"] = rng.choice([-30, -20, -8, 4, 20])
    return res


@check("C42")
def c42(run):
    run.validate("VectorTrace", vec_cases(random.Random(run.seed), run.pick(400, 8000)), "vectors")


def ray_cases(rng, n):
    """rays against collections of boxes and against meshes"""
    res = []
    ints = lambda s: [rng.randint(-s, s) for _ in range(3)]

    def direction(s):
        while True:
            d = [rng.choice([0, 0, 1, -1]) for _ in range(3)] if rng.random() < 0.3 else ints(s)
            if any(d):
                return d

    def box(s, m):
        lo = ints(s)
        return [lo, [x + rng.randint(1, m) for x in lo]]

    for i in range(n):
        a, d = ints(9), direction(6)
        m = rng.choice([0, 1, 1, 1, 2, 3, 5, 9, 20])
        items, how = [], []
        aim = lambda s: [x + k * y for x, y, k in zip(a, d, [rng.choice([1, 1, 1, 2, -1])] * 3)]
        for _ in range(m):
            k = rng.random()
            if k < 0.1:
                items.append([]), how.append(rng.choice(["empty", "flat"]))
                continue
            if k < 0.5:      # around a point of the line
                p = aim(1)
                b = [[x - rng.randint(0, 3) for x in p], [x + rng.randint(1, 3) for x in p]]
            else:
                b = box(12, rng.choice([1, 3, 8, 16]))
            h = rng.choice(["box", "cloud", "seg", "box3"])
            if rng.random() < 0.15:
                w = 2 * rng.randint(1, 4)
                b, h = [b[0], [x + w for x in b[0]]], "ball"
            items.append(b), how.append(h)
        f = rng.random()
        frame = [0, 0, 0, 0] if f < 0.4 else [rng.choice([-33, -20, -8, 5, 20]), 0, 0, 0] if f < 0.7 else \
            [rng.choice([-6, 0, 6]), rng.choice([-4096, 1000, 65536]), rng.choice([0, 4096]), rng.choice([0, -65536])]
        res.append({"kind": "cast", "a": a, "d": d, "len": rng.choice([1, 1, 0.001, 1000]), "items": items, "how": how, "frame": frame})
    for i in range(n):
        P = [ints(9) for _ in range(rng.choice([3, 4, 6, 12]))]
        nf = rng.choice([0, 1, 2, 5, 12, 40])
        F = [rng.sample(range(len(P)), 3) for _ in range(nf)]
        a, d = ints(9), direction(6)
        if F and rng.random() < 0.6:   # aim into (or along an edge of) a face
            T = [P[v] for v in F[0]]
            w = rng.choice([[1, 1, 1], [2, 1, 1], [1, 1, 0], [1, 0, 0], [3, 2, 1], [4, -1, 1]])
            s = sum(w)
            tgt = [sum(wi * p[j] for wi, p in zip(w, T)) for j in range(3)]
            d = [tgt[j] - s * a[j] for j in range(3)]
            while any(abs(x) > 12 for x in d):
                a = [x + (1 if tgt[j] > s * x else -1 if tgt[j] < s * x else 0) for j, x in enumerate(a)]
                d = [tgt[j] - s * a[j] for j in range(3)]
            if not any(d):
                d = [0, 1, 2]
            if rng.random() < 0.2:
                d = [-x for x in d]
        f = rng.random()
        frame = [0, 0, 0, 0] if f < 0.4 else [rng.choice([-33, -20, -8, 5, 20]), 0, 0, 0] if f < 0.7 else [rng.choice([-6, 0, 6]), rng.choice([-512, 1024]), 0, rng.choice([0, -2048])]
        res.append({"kind": "mesh", "a": a, "d": d, "len": rng.choice([1, 1, 0.001, 1000]), "P": P, "F": F, "frame": frame})
    for c in res:
        c["fam"] = "ray"
    return res


@check("C40")
def c40(run):
    run.validate("RayTrace", ray_cases(random.Random(run.seed), run.pick(3000, 40000)), "rays")


def curve_cases(rng, n):
    """paths of whole lengths, control polygons, circles for CurveTrace"""
    res = []
    steps = [[1, 0], [0, 1], [-1, 0], [0, -1], [2, 0], [0, -3], [3, 4], [-4, 3], [3, -4], [-3, -4], [6, 8], [5, 12], [-8, 6], [0, 0]]
    for _ in range(n):
        p = [rng.randint(-5, 5), rng.randint(-5, 5)]
        m = rng.choice([0, 1, 2, 2, 2, 3, 4, 5, 8, 13])
        P = [list(p)] if m else []
        for _ in range(m - 1):
            s = rng.choice(steps)
            p = [p[0] + s[0], p[1] + s[1]]
            P.append(list(p))
        c = {"kind": "path", "P": P, "n": rng.choice([0, 1, 2, 3, 4, 5, 7, 9, 13, 25, 49, 50, 73, 100])}
        f = rng.random()
        c["frame"] = [0, 0, 0, 0] if f < 0.5 else [rng.choice([-20, 20, 4]), 0, 0, 0] if f < 0.75 else [rng.choice([0, 4, -4]), 1024, -512, 0]
        res.append(c)
    for _ in range(n // 60):   # long walks around the origin
        p, P = [rng.randint(-5, 5), rng.randint(-5, 5)], []
        for _ in range(rng.randint(105, 260)):
            P.append(list(p))
            s = rng.choice(steps)
            p = [p[i] + s[i] if abs(p[i] + s[i]) <= 40 else p[i] - s[i] for i in (0, 1)]
        res.append({"kind": "path", "P": P, "n": rng.choice([2, 5, 13, 24]), "frame": [0, 0, 0, 0]})
    top = {1: 100, 2: 100, 3: 50, 4: 20, 5: 11, 6: 7, 7: 5, 8: 4, 9: 3}
    for _ in range(n):
        m = rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9])
        c = {"kind": "bezier", "P": [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(m)], "n": rng.choice([0, 1, 2, 3, rng.randint(1, 100)])}
        c["n"] = min(c["n"], top.get(m - 1, 5))
        res.append(c)
    for _ in range(n // 4):
        g = rng.choice([1, 2, 5, 9, 15, 20, 21, 24, 30, 33, 40, 60])
        res.append({"kind": "even", "A": [rng.randint(-9, 9), rng.randint(-9, 9)], "D": [rng.randint(-3, 3), rng.randint(-3, 3)], "g": g, "n": rng.choice([1, 2, 3, 7, 10, 31])})
    for _ in range(n):
        a, b = rng.choice([0, 0, 30, -90, 45, 360, rng.randint(-400, 400)]), rng.choice([0, 90, 180, 360, 270, -45, 720, rng.randint(-400, 400)])
        c = {"kind": "round", "z": [rng.randint(-9, 9), rng.randint(-9, 9)], "r": rng.randint(1, 20), "s": rng.randint(1, 20), "a": a, "b": b,
             "n": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 19, 37, 50, 91])}
        f = rng.random()
        c["frame"] = [0, 0, 0, 0] if f < 0.5 else [rng.choice([-20, 20, 4]), 0, 0, 0] if f < 0.75 else [rng.choice([0, 4, -4]), 1024, -512, 0]
        res.append(c)
    for c in res:
        c["fam"] = "curve"
    return res


@check("C43")
def c43(run):
    run.validate("CurveTrace", curve_cases(random.Random(run.seed), run.pick(600, 12000)), "curves")


def text_cases(rng, n):
    """shapes, numbers, errors and clouds as text for TextTrace"""
    res = [{"kind": "errs"}]
    co = lambda: rng.choice([0, 0, 1, -1, -2, rng.randint(-9, 9), rng.randint(-2000000, 2000000)])
    for _ in range(n):
        m = rng.choice([0, 1, 1, 2, 2, 3, 5, 12])
        res.append({"kind": "shape", "P": [[co(), co(), co()] for _ in range(m)], "axis": rng.randint(1, 3), "sign": rng.choice([1, -1])})
        res.append({"kind": "nums", "ids": rng.sample(range(rng.choice([4, 10, 100000])), 3), "a": co(), "b": co()})
        word = lambda: "".join(rng.choice("abcXYZ 019.#-'") for _ in range(rng.randint(0, 8)))
        res.append({"kind": "info", "i": rng.choice([0, 1, 7, 10, 12345]), "e": word(), "w": word()})
    good = [["1", 1000], ["-2.5", -2500], ["0", 0], ["1e2", 100000], ["+3", 3000], [".5", 500], ["7.", 7000], ["-0.125", -125], ["12345.678", 12345678]]
    bad = ["a", "1,5", "1.2.3", "--1", "0x10", "1e", ";"]
    for _ in range(n):
        d, m = rng.choice([2, 3]), rng.choice([0, 1, 1, 2, 3, 5, 9])
        q = rng.choice([0, 0, 0.05, 0.2])
        L, T = [], []
        for _ in range(m):
            if rng.random() < 0.15:
                L.append([]), T.append("")
                continue
            W = []
            for _ in range(d + (rng.choice([-1, 1]) if rng.random() < q else 0)):
                w = rng.choice(good)
                W.append((rng.choice(bad), 0, 0) if rng.random() < q / 3 else (w[0], 1, w[1]))
            T.append(" " * rng.choice([0, 0, 1]) + (" " * rng.choice([1, 1, 3])).join(w[0] for w in W) + " " * rng.choice([0, 0, 2]))
            L.append([[w[1], w[2]] for w in W])
        res.append({"kind": "cloud", "dim": d, "lines": L, "text": "\n".join(T) + rng.choice(["", "\n", "\n\n"])})
    for c in res:
        c["fam"] = "text"
    return res


@check("C44")
def c44(run):
    run.validate("TextTrace", text_cases(random.Random(run.seed), run.pick(1500, 40000)), "texts")


VALUE_KINDS = ["p2", "p3", "n2", "n3", "box2", "box3", "circle", "sphere", "fbox2", "fbox3", "fcircle", "fsphere", "bb2", "bb3",
               "seg2", "seg3", "line2", "line3", "ray2", "ray3", "plane", "pc2", "pc3", "poly2", "poly3", "face", "vid", "fid",
               "eid", "sid", "rgb", "kd", "oct", "mesh", "he", "pos", "non", "f32", "m3", "m4", "view", "comp"]


def value_lists(rng, n):
    """longer lists of random values of one kind, with many equal ones among them"""
    def pt(d, lo=-4, hi=4):
        return [rng.choice([99, 0, rng.randint(lo, hi), rng.randint(lo, hi)]) for _ in range(d)]

    def dr(d):
        return rng.choice([[1, 0], [0, -1], [3, 4], [-4, 3], [99, 1]] if d == 2 else [[1, 0, 0], [0, 99, -1], [1, 2, 2], [-2, 2, 1], [0, 3, 4]])

    def some(d, lo=0):
        return [pt(d, -2, 2) for _ in range(rng.randint(lo, 5))]

    def one(k):
        d = 2 if (k.endswith("2") and k != "f32") or k.endswith("circle") else 3
        if k in ("p2", "p3"):
            return [pt(d)]
        if k in ("n2", "n3"):
            return [dr(d)]
        if k in ("box2", "box3", "fbox2", "fbox3"):
            return [pt(d), [rng.randint(1, 3) for _ in range(d)]]
        if k in ("circle", "sphere", "fcircle", "fsphere"):
            return [pt(d), [rng.randint(1, 3)]]
        if k in ("bb2", "bb3"):
            return [pt(d), [rng.randint(5, 7) for _ in range(d)]]
        if k in ("seg2", "seg3"):
            return [pt(d), pt(d)]
        if k in ("line2", "line3", "ray2", "ray3"):
            return [pt(d), dr(d)]
        if k == "plane":
            return [pt(3), dr(3), dr(3)]
        if k in ("pc2", "poly2", "pc3", "poly3", "f32"):
            return some(d)
        if k == "kd":
            return some(3, 1)
        if k == "oct":
            return [[-9, -9, -9], [9, 9, 9]] + some(3)
        if k in ("vid", "fid", "eid", "sid"):
            return [[rng.choice([0, 1, 255, 256, 65536, 2 ** 31 - 1])]]
        if k in ("face", "rgb"):
            return [[rng.choice([0, 1, 2, 255])] for _ in range(3)]
        if k == "pos":
            return [[rng.choice([1, 2, 3, 100, 10 ** 9])]]
        if k == "non":
            return [[rng.choice([0, 99, 1, 2, 10 ** 9])]]
        if k == "m3":
            return [[rng.choice([0, 99, 1]) for _ in range(9)]]
        if k == "m4":
            return [[rng.choice([0, 99, 1]) for _ in range(16)]]
        if k == "view":
            return [] if rng.random() < 0.2 else [sorted({rng.choice([0, 1, 2, 70000]) for _ in range(rng.randint(0, 3))})]
        if k == "comp":
            return [[-4, -4, -4], [4, 4, 4]] + some(3)
        f = [rng.choice([[0, 1, 2], [1, 2, 0], [2, 1, 0], [3, 1, 0]]) for _ in range(rng.randint(0, 3))]
        return [[4]] + f if k == "he" else [[4]] + [[0, 0, 0], [0, 0, rng.choice([1, -1])], [0, 1, 0], [5, rng.choice([0, 99]), 5]] + f
    res = []
    for _ in range(n):
        k = rng.choice(VALUE_KINDS)
        m = rng.randint(2, 12)
        vals = [one(k) for _ in range(m)]
        for i in range(m):
            if rng.random() < 0.4:
                v = [[x for x in c] for c in vals[rng.randrange(m)]]
                if k not in ("he", "view", "vid", "fid", "eid", "sid", "face", "rgb", "mesh"):
                    v = [[rng.choice([0, 99]) if x in (0, 99) else x for x in c] for c in v]
                elif k not in ("he", "view", "mesh") and rng.random() < 0.5:
                    v[rng.randrange(len(v))][0] += 1
                vals[i] = v
        if k == "rgb":
            vals = [[[x[0] % 256] for x in v] for v in vals]
        if k in ("vid", "fid", "eid", "sid"):
            vals = [[[min(x[0], 2 ** 31 - 1)] for x in v] for v in vals]
        res.append({"fam": "values", "kind": k, "vals": vals})
    return res


@check("C45")
def c45(run):
    cs = run.model("ValuesMC", {"Kinds": set(VALUE_KINDS)})
    rng = random.Random(run.seed)
    if len(cs) > run.pick(9000, 10 ** 9):
        cs = rng.sample(cs, 9000)
    run.validate("ValuesTrace", [c for c in cs if not (c["kind"] == "oct" and any(len({tuple(0 if x == 99 else x for x in p) for p in v}) < 2 for v in c["vals"]))], "value-triples")
    run.validate("ValuesTrace", value_lists(rng, run.pick(1500, 40000)), "value-lists")
