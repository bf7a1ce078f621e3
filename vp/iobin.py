"""Concrete bytes for the abstract binary and PLY files of spec/BinReaders.tla and spec/Ply.tla, and random such files."""
import struct

from . import iotext
from .iotext import I, D, S

TYPES = {"char": "b", "int8": "b", "uchar": "B", "uint8": "B", "short": "h", "int16": "h", "ushort": "H", "uint16": "H",
         "int": "i", "int32": "i", "uint": "I", "uint32": "I", "float": "f", "float32": "f", "double": "d", "float64": "d"}
SIZES = {t: struct.calcsize("<" + c) for t, c in TYPES.items()}


def junk(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def stl_unit(rng, k, u, told):
    if k == 0:
        h = junk(rng, 80)
        if told == "binary" and rng.random() < 0.6:
            h = b"solid " + h[6:]
        elif h[:5] == b"solid":
            h = b"S" + h[1:]
        return h
    if k == 1:
        return struct.pack("<I", u[1])
    return struct.pack("<12f", *[x / 1000 for x in u[1:]]) + junk(rng, 2)


def psl_unit(rng, k, u):
    if u[0] == 512:
        return b"PSL " + struct.pack("<i", 2) + junk(rng, 128) + struct.pack("<ii", u[1], 0) + junk(rng, 368)
    if u[0] == 64:
        return struct.pack("<i", u[1]) + junk(rng, 60)
    return struct.pack("<3f", *[x / 1000 for x in u[1:]])


def las_unit(rng, k, u, gap):
    if k == 0:
        size, major, minor, fmt, rl, a, b = u[:7]
        h = bytearray(375)
        h[0:4] = b"LASF"
        h[24], h[25] = major, minor
        struct.pack_into("<HI", h, 94, size, size + gap)
        struct.pack_into("<BHI", h, 104, fmt, rl, a)
        struct.pack_into("<6d", h, 131, *[x / 1000 for x in u[7:13]])
        struct.pack_into("<Q", h, 247, b)
        return bytes(h[:size])
    if k == 1:
        return junk(rng, u[0])
    return struct.pack("<3i", *u[1:])[:u[0]] + junk(rng, max(0, u[0] - 12))


def case(c, rng):
    """renders an abstract file; adds hex (and told for STL)"""
    c = dict(c)
    fmt = c["fmt"]
    if fmt == "ply":
        return ply_case(c, rng)
    us, out = c["units"], []
    if fmt == "stl":
        c["told"] = c.get("told") or rng.choice(["auto", "binary"])
    for k, u in enumerate(us):
        if fmt == "stl":
            out.append(stl_unit(rng, k, u, c["told"]))
        elif fmt == "psl":
            out.append(psl_unit(rng, k, u))
        else:
            out.append(las_unit(rng, k, u, us[1][0] if len(us) > 1 else 0))
    out = b"".join(out)
    out = (out + junk(rng, 64))[:c["len"]] if c["len"] > len(out) else out[:c["len"]]
    c.update(hex=out.hex(), fail=-1)
    return c


def ply_case(c, rng):
    eol = "\n" if rng.random() < 0.7 else "\r\n"
    head = "".join(" ".join("1.0" if w[2] == "1.0" else iotext.word(rng, w, "ply") for w in line) + eol
                   for line in c["lines"][:c["headk"]])
    out, ends = head.encode(), []
    pos = 0
    for line in c["lines"][:c["headk"]]:
        pos += len((" ".join("1.0" if w[2] == "1.0" else iotext.word(rng, w, "ply") for w in line) + eol).encode())
        ends.append(pos)
    if c["enc"] == "ascii":
        text = ""
        lines = c["body"][:c["len"]]
        for k, line in enumerate(lines):
            s = ""
            for j, w in enumerate(line):
                s += ("" if j == 0 else rng.choice([" ", " ", " ", "  "])) + iotext.word(rng, w, "ply")
            text += s + (eol if k < len(lines) - 1 or rng.random() < 0.6 else "")
            ends.append(len(out) + len(text.encode()) + (0 if text.endswith(eol) else 1))
        out += text.encode()
    else:
        e = "<" if c["enc"] == "binary_little_endian" else ">"
        data = b"".join(struct.pack(e + TYPES[t], v / 1000 if TYPES[t] in "fd" else v) for t, v in c["body"])
        out += data[:c["len"]]
    return dict(c, hex=out.hex(), ends=ends, fail=-1)


# ------------------------------------------------------------------ random files

def milli(rng):
    """exactly representable as f32"""
    return rng.choice([rng.randint(-9, 9) * 1000, rng.randint(-800, 800) * 125, 0])


def rand_bin(fmt, rng):
    if fmt == "stl":
        n = rng.choice([0, 1, 2, 5, 9])
        pool = [[milli(rng) for _ in range(3)] for _ in range(rng.choice([2, 3, 4, 6]))]
        fac = [[50] + [milli(rng) for _ in range(3)] + sum((rng.choice(pool) for _ in range(3)), []) for _ in range(n)]
        ann = n if rng.random() < 0.8 else max(0, n + rng.choice([-2, -1, 1, 2]))
        us = [[80], [4, ann]] + fac
    elif fmt == "psl":
        us, np = [], rng.choice([0, 1, 2, 3])
        us.append([512, np if np or rng.random() < 0.5 else rng.choice([-1, -7])])
        for _ in range(np):
            nl = rng.choice([0, 1, 2, 4, -3])
            us.append([64, nl])
            for _ in range(max(0, nl)):
                k = rng.choice([0, 1, 2, 5, -1])
                us.append([64, k])
                us += [[12] + [milli(rng) for _ in range(3)] for _ in range(max(0, k))]
    else:
        minor = rng.choice([0, 1, 2, 2, 3, 4, 4])
        n = rng.choice([0, 1, 2, 5, 9])
        rl = rng.choice([20, 26, 28, 34, 57, 63, 30, 36, 38, 59, 67, 40])
        a, b = (n, rng.choice([0, 3])) if minor < 4 else rng.choice([(n, n), (0, n)])
        bad = rng.random()
        us = [[{3: 235, 4: 375}.get(minor, 227), 1, minor, rng.randint(0, 10), rl, a, b]
              + [rng.choice([1, 10, 1000, 125, 500, 2000, 10000, -10, -1000]) for _ in range(3)] + [rng.choice([0, 1000, -500, 123456, -99999]) for _ in range(3)]]
        if bad < 0.05:
            us[0][2] = rng.choice([5, 9])
            us[0][0] = 375
        elif bad < 0.08:
            us[0][1] = rng.choice([2, 3, 4, 10, 200])
        elif bad < 0.1:
            us[0][3] = rng.choice([11, 127, 128, 131])
        elif bad < 0.15:
            us[0][4] = rng.choice([0, 3, 8, 11])
        us.append([rng.choice([0, 0, 2, 54, 300])])
        m = n if rng.random() < 0.85 else max(0, n - rng.randint(1, 3))
        us += [[rl] + [rng.randint(-3000, 3000) for _ in range(3)] for _ in range(m)]
    tot = sum(u[0] for u in us)
    ln = tot if rng.random() < 0.6 else (tot + rng.randint(1, 11) if rng.random() < 0.3 else rng.randint(0, max(0, tot)))
    return {"fam": "io", "fmt": fmt, "units": us, "len": ln}


def ftypes(rng):
    return rng.choice(["float", "float", "double", "float32", "float64"])


INTS = ["char", "uchar", "short", "ushort", "int", "uint", "int8", "uint8", "int16", "uint16", "int32", "uint32"]


def rand_ply(rng, spoil):
    enc = rng.choice(["ascii", "ascii", "binary_little_endian", "binary_big_endian"])
    vp = [(ftypes(rng), n) for n in rng.sample("xyz", 3)]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        vp.insert(rng.randint(0, len(vp)), (rng.choice(list(TYPES)), rng.choice(["nx", "red", "alpha", "confidence", "xx", "y2"])))
    nv = rng.choice([0, 1, 3, 4, 8])
    faces = rng.random() < 0.75
    nf = rng.choice([0, 1, 2, 5]) if nv >= 3 else 0
    fp = []
    if faces:
        fp = [("list", rng.choice(INTS), rng.choice(INTS), rng.choice(["vertex_index", "vertex_indices"]))]
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            x = (rng.choice(list(TYPES)), rng.choice(["flags", "red", "quality"])) if rng.random() < 0.8 else ("list", "uchar", "float", "texcoord")
            fp.insert(rng.randint(0, len(fp)), x)
    V = [[milli(rng) for _ in range(3)] for _ in range(nv)]
    F = [rng.sample(range(nv), 3) for _ in range(nf)]
    if F and rng.random() < 0.15:
        F[rng.randrange(nf)][rng.randrange(3)] = rng.choice([nv, nv + 5, 0, 100])
    head = [[S("ply")], [S("format"), S(enc), ["d", 1000, "1.0"]]]
    cm = lambda: [S("comment"), S("made"), S("by")] if rng.random() < 0.7 else [S("obj_info"), S("x")]
    head.append([S("element"), S("vertex"), I(nv)])
    head += [[S("property"), S(t), S(n)] for t, n in vp]
    if faces:
        head.append([S("element"), S("face"), I(nf)])
        head += [[S("property")] + [S(x) for x in p] for p in fp]
    for _ in range(rng.choice([0, 0, 1, 2])):
        head.insert(rng.randint(2, len(head)), cm())
    head.append([S("end_header")])
    asc, body = enc == "ascii", []
    for v in V:
        row = []
        for t, n in vp:
            m = v["xyz".index(n)] if n in "xyz" and len(n) == 1 else None
            if asc:
                row.append((D(m) if m % 1000 or rng.random() < 0.5 else I(m // 1000)) if m is not None else I(rng.randint(0, 99)))
            else:
                row.append([t, m if m is not None else (1000 if TYPES[t] in "fd" else rng.randint(0, 99))])
        body += [row] if asc else row
    for f in F if faces else []:
        row = []
        for p in fp:
            if p[0] == "list" and p[3].startswith("vertex"):
                row += [I(3)] + [I(x) for x in f] if asc else [[p[1], 3]] + [[p[2], x] for x in f]
            elif p[0] == "list":
                row += [I(2), D(500), D(250)] if asc else [[p[1], 2], [p[2], 500], [p[2], 250]]
            else:
                row.append(I(rng.randint(0, 99)) if asc else [p[0], 1000 if TYPES[p[0]] in "fd" else rng.randint(0, 99)])
        body += [row] if asc else row
    total = len(body) if asc else sum(SIZES[t] for t, _ in body)
    c = {"fam": "io", "fmt": "ply", "enc": enc, "lines": head, "headk": len(head), "body": body, "len": total}
    if spoil:
        k = rng.random()
        hl = [list(x) for x in head]
        if k < 0.3:
            c["len"] = rng.randint(0, total)
        elif k < 0.4:
            c["headk"] = rng.randint(0, len(head) - 1)
            c["len"] = 0
        elif k < 0.75:
            i = rng.randrange(len(hl))
            j = rng.random()
            if j < 0.35:
                del hl[i]
            elif j < 0.6:
                hl.insert(i, list(hl[rng.randrange(len(hl))]))
            elif j < 0.8:
                m = rng.randrange(len(hl))
                hl[i], hl[m] = hl[m], hl[i]
            else:
                w = rng.randrange(len(hl[i]))
                hl[i][w] = S(rng.choice(["list", "float", "x", "z", "int", "vertex", "edge", "half", "face"]))
            if [S("end_header")] in hl[:-1]:
                return c  # the header would end early and its other lines become data
            # what follows the header has no meaning any more unless the header is rejected
            c.update(lines=hl, headk=len(hl), body=[], len=0)
        elif body and asc:
            i = rng.randrange(len(body))
            row = list(body[i])
            row[rng.randrange(len(row))] = rng.choice([S("x"), S("1x"), I(-1), I(4)])
            c["body"] = body[:i] + [row] + body[i + 1:]
        elif body:
            nvf = nv * len(vp)
            per = (len(body) - nvf) // nf if nf and faces else 0
            if per:
                i = rng.randrange(nf)
                off = nvf + i * per + [x[0] == "list" and x[3].startswith("vertex") for x in fp].index(True)
                if not any(x[0] == "list" and not x[3].startswith("vertex") for x in fp):
                    t = body[off]
                    c["body"] = [list(x) for x in body]
                    if rng.random() < 0.5:
                        c["body"][off][1] = rng.choice([0, 1, 2, 4, 5])
                    elif TYPES[body[off + 1][0]] in "bhi":
                        c["body"][off + rng.randint(1, 3)][1] = -1
    return c
