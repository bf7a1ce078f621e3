"""Long files for spec/LongTrace.tla: many lines, records, items."""
from . import iobin, iotext
from .iobin import TYPES, milli
from .iotext import I, D, S, C, rnum


def lines(fmt, n, rng):
    """an abstract file of a line format with about n items"""
    p3 = lambda: [rnum(rng, True) for _ in range(3)]
    L = []
    if fmt in ("xy", "xyz"):
        L = [[rnum(rng, True) for _ in range(2 if fmt == "xy" else 3)] for _ in range(n)]
        for i in rng.sample(range(n), min(n, 3)):
            L[i] += [rnum(rng) for _ in range(rng.choice([1, 7, 300]))]
    elif fmt == "pts":
        left = n
        while left > 0:
            k = min(left, rng.choice([n, n // 2 + 1, 0, 7]))
            L.append([I(k)])
            L += [p3() for _ in range(k)]
            left -= k
    elif fmt == "ptx":
        a, b = rng.choice([(1, n), (n, 1), (7, n // 7 + 1)])
        for a, b in [(a, b), (1, 2)]:
            L += [[I(a)], [I(b)]] + [[I(0), I(0), I(1)]] * 4
            L += [[I(rng.randint(-3, 3)) for _ in range(4)] for _ in range(4)]
            L += [[I(2 * rng.randint(-8, 8)) for _ in range(3)] for _ in range(a * b)]
    elif fmt == "gcode":
        if rng.random() < 0.5:
            L.append([S("G91")])
        for _ in range(n):
            L.append([S(rng.choice(["G1", "G1", "G2", "G3"]))] + [[a, rng.choice([0, 10, -10, 500]), ""] for a in rng.sample("XYZ", rng.randint(1, 3))])
            if rng.random() < 0.02:
                L.append([S(rng.choice(["M104", "G90", "G91", "G4"]))])
    elif fmt == "obj":
        nv = max(3, n // 2)
        L = [[S("v")] + p3() for _ in range(nv)]
        L += [[S("f")] + [I(x + 1) for x in rng.sample(range(nv), 3)] for _ in range(n - nv)]
        for _ in range(3):
            L.insert(rng.randint(0, len(L)), rng.choice([[C], [], [S("o"), S("n" * rng.choice([10, 9000]))]]))
    elif fmt == "off":
        nv = max(3, n // 2)
        nf = max(0, n - nv)
        L = [[S("OFF")], [I(nv), I(nf), I(0)]] + [p3() for _ in range(nv)]
        L += [[I(3)] + [I(x) for x in rng.sample(range(nv), 3)] for _ in range(nf)]
        for _ in range(3):
            L.insert(rng.randint(1, len(L)), rng.choice([[C], []]))
    elif fmt == "stl":
        pool = [[I(rng.randint(-50, 50)) for _ in range(3)] for _ in range(rng.choice([4, 20, 60]))]
        L.append([S("solid"), S("m" * rng.choice([1, 300]))])
        for _ in range(n):
            L += [[S("facet"), S("normal")] + p3(), [S("outer"), S("loop")]]
            L += [[S("vertex")] + rng.choice(pool) for _ in range(3)]
            L += [[S("endloop")], [S("endfacet")]]
        L.append([S("endsolid")])
    return L


def units(fmt, n, rng):
    us = []
    if fmt == "stl":
        pool = [[milli(rng) for _ in range(3)] for _ in range(rng.choice([4, 20, 60]))]
        us = [[80], [4, n]] + [[50] + [milli(rng) for _ in range(3)] + rng.choice(pool) + rng.choice(pool) + rng.choice(pool) for _ in range(n)]
    elif fmt == "psl":
        how = rng.choice(["points", "lines", "passes", "mixed"])
        shape = {"points": [[n]], "lines": [[1] * n], "passes": [[1]] * n,
                 "mixed": [[max(1, n // 9)] * 3, [0, n // 9], [], [max(1, n // 9)] * 4]}[how]
        us.append([512, len(shape)])
        for p in shape:
            us.append([64, len(p)])
            for k in p:
                us.append([64, k])
                us += [[12] + [milli(rng) for _ in range(3)] for _ in range(k)]
    else:
        minor, rl = rng.choice([0, 1, 2, 3, 4]), rng.choice([20, 28, 34, 63, 300])
        a, b = (n, 0) if minor < 4 else rng.choice([(n, n), (0, n)])
        us = [[{3: 235, 4: 375}.get(minor, 227), 1, minor, rng.randint(0, 10), rl, a, b, 1, 10, 1000, 0, -500, 1000],
              [rng.choice([0, 54, 70000])]]
        us += [[rl] + [rng.randint(-3000, 3000) for _ in range(3)] for _ in range(n)]
    return {"fam": "io", "fmt": fmt, "units": us, "len": sum(u[0] for u in us)}


def ply(n, rng):
    enc = rng.choice(["ascii", "binary_little_endian", "binary_big_endian"])
    vp = [(rng.choice(["float", "double"]), c) for c in "xyz"]
    for _ in range(rng.choice([0, 0, 1, 2])):
        vp.insert(rng.randint(0, len(vp)), (rng.choice(["uchar", "float", "int"]), "q"))
    nv = max(3, n // 2)
    nf = max(0, n - nv)
    ct, it = rng.choice(["uchar", "int", "ushort"]), rng.choice(["int", "uint"] + (["ushort"] if nv < 65536 else []))
    fp = [("list", ct, it, rng.choice(["vertex_index", "vertex_indices"]))]
    if rng.random() < 0.3:
        fp.append(("uchar", "flags"))
    head = [[S("ply")], [S("format"), S(enc), ["d", 1000, "1.0"]], [S("comment"), S("c" * rng.choice([3, 9000]))],
            [S("element"), S("vertex"), I(nv)]] + [[S("property"), S(t), S(m)] for t, m in vp]
    head += [[S("element"), S("face"), I(nf)]] + [[S("property")] + [S(x) for x in p] for p in fp] + [[S("end_header")]]
    asc, body = enc == "ascii", []
    for _ in range(nv):
        row = []
        for t, m in vp:
            x = milli(rng) if m in "xyz" else (1000 if TYPES[t] in "fd" else rng.randint(0, 99))
            row.append((D(x) if m in "xyz" else I(7)) if asc else [t, x])
        body += [row] if asc else row
    for _ in range(nf):
        f = rng.sample(range(nv), 3)
        row = [I(3)] + [I(x) for x in f] if asc else [[ct, 3]] + [[it, x] for x in f]
        row += [I(5) if asc else ["uchar", 5] for _ in fp[1:]]
        body += [row] if asc else row
    total = len(body) if asc else sum(iobin.SIZES[t] for t, _ in body)
    return {"fam": "io", "fmt": "ply", "enc": enc, "lines": head, "headk": len(head), "body": body, "len": total}


def case(fmt, binary, n, rng, spoiled=False):
    if fmt == "ply":
        c = ply(n, rng)
        if spoiled:
            c["len"] = rng.randint(0, c["len"])
        return iobin.case(c, rng)
    if binary:
        c = units(fmt, n, rng)
        if spoiled:
            c["len"] = rng.randint(0, c["len"])
        return iobin.case(c, rng)
    L = lines(fmt, n, rng)
    if spoiled:
        L = iotext.spoil(fmt, L, rng)
    return iotext.case(fmt, L, rng)


def sizes(run, rng, one):
    """sizes of the long files: around the powers of two, and one large one"""
    s = run.pick([130, 257, 300, 515, 1030, 1500, 4100], [127, 128, 129, 255, 256, 257, 258, 511, 513, 1023, 1025, 2049, 4095, 4097, 8193, 16385, 20000, 32769])
    return s + [one]
