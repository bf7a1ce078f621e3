"""Arbitrary bytes for the readers: damaged files, huge announced counts, noise.  Cases for spec/RawTrace.tla."""
import itertools
import re
import struct

BIG = [b"18446744073709551615", b"9223372036854775807", b"4294967296", b"4294967295", b"2147483648", b"1000000000000",
       b"6148914691236517206", b"99999999999999999999999999", b"65536"]
TOKENS = BIG + [b"nan", b"inf", b"-inf", b"1e999", b"-1e999", b"1e-999", b"-0", b"+3", b"-1", b"0", b"3", b"4", b"1.5", b"x", b"\xff\xfe",
                b"\x00", b"\xc3\xa9", b"v", b"f", b"f 1 2", b"f 1/ 2/ 3/", b"f /1 /2 /3", b"OFF", b"G1", b"G1 X", b"G92", b"G91", b"solid", b"facet", b"endsolid",
                b"vertex", b"vertex 1 2 3", b"property", b"property list uchar int vertex_indices", b"element", b"element vertex 3", b"element face 2",
                b"end_header", b"comment", b"ply", b"#", b";", b"\n", b"\n\n", b"\r", b"\r\n", b" ", b"\t", b"  ", b"3 0 1 2", b"1 2 3", b"0 0 0", b"NaN NaN NaN"]


def bytes_of(c):
    return bytes.fromhex(c["hex"]) if "hex" in c else c["text"].encode()


def mutate(b, rng, other=b""):
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.random()
        i = rng.randint(0, len(b))
        j = min(len(b), i + rng.choice([1, 1, 2, 4, 12, 50]))
        if k < 0.2:
            b = b[:i] + bytes([rng.choice([0, 255, 10, 13, 32, 45, 46, 48, 57, 128, rng.randrange(256)])]) + b[i + 1:]
        elif k < 0.3:
            b = b[:i] + b[j:]
        elif k < 0.4:
            b = b[:i] + b[i:j] * 2 + b[j:]
        elif k < 0.6:
            b = b[:i] + rng.choice(TOKENS) + b[i:]
        elif k < 0.66:
            # a word keeps its beginning
            w = [m.span() for m in re.finditer(rb"[^ \t\r\n]+", b[:4000])]
            if w:
                a, e = rng.choice(w)
                b = b[:min(e, a + rng.choice([0, 1, 1, 2, 3]))] + bytes(rng.choice(b"aX19/.-+e;#\0\x80\xff") for _ in range(rng.randint(0, 4))) + b[e:]
        elif k < 0.8:
            w = [m.span() for m in re.finditer(rb"[^ \t\r\n]+", b[:4000])]
            if w:
                a, e = rng.choice(w)
                b = b[:a] + rng.choice(TOKENS) + b[e:]
        elif k < 0.87:
            b = b[:i]
        elif k < 0.93 and len(b) >= 8:
            # a 32 bit field
            i = rng.randint(0, len(b) - 4)
            b = b[:i] + struct.pack(rng.choice("<>") + "I", rng.choice([0, 1, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x3b9aca00])) + b[i + 4:]
        elif k < 0.97:
            ls = b.split(b"\n")
            x, y = rng.randrange(len(ls)), rng.randrange(len(ls))
            ls[x], ls[y] = ls[y], ls[x]
            b = b"\n".join(ls)
        else:
            b = b[:i] + other
    return b[:20000]


def faces_in(fmt, b):
    """triples of numbers, in this order, within one line; None: too many to list"""
    res = set()
    for line in re.split(rb"[\n]", b):
        ns = [int(x) for x in re.findall(rb"\d+", line)]
        if len(ns) < 3:
            continue
        if len(ns) > 14:
            return None
        res |= set(itertools.combinations(ns, 3))
    if len(res) > 1500:
        return None
    d = 1 if fmt == "obj" else 0
    return sorted([x - d if x - d <= 2000000000 else 2000000001 for x in t] for t in res if min(t) - d >= 0)


def raw(fmt, b, told="auto", **kw):
    lines = b.count(b"\n") + 1
    most = lines if fmt not in ("stl", "psl", "las", "ply") else lines + len(b) // 4
    most = {"psl": len(b) // 12, "las": len(b) // 12, "stl": max(lines // 7, len(b) // 50)}.get(fmt, most)
    fs = faces_in(fmt, b) if fmt in ("obj", "off") or (fmt == "ply" and b"ascii" in b and b"binary" not in b) else None
    return dict({"fam": "io", "fmt": fmt, "hex": b.hex(), "told": told, "fail": -1, "most": most, "known": fs is not None,
                 "faces": fs or [], "lines": 0 if fmt in ("stl", "psl", "las", "ply") else lines + 1}, **kw)


def mutated(c, rng):
    kw = {}
    if rng.random() < 0.2:
        kw = {"chunks": [rng.choice([1, 2, 5, 64])], "intr": rng.choice([0, 3])}
    return raw(c["fmt"], mutate(bytes_of(c), rng, bytes_of(c)), c.get("told", "auto") if rng.random() < 0.6 else rng.choice(["auto", "ascii", "binary"]), **kw)


FMTS = ["xy", "xyz", "pts", "ptx", "psl", "gcode", "las", "obj", "off", "ply", "stl"]


def noise(rng):
    fmt = rng.choice(FMTS)
    k = rng.random()
    if k < 0.3:
        b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 5, 80, 84, 200, 227, 400, 700])))
    elif k < 0.8:
        b = b"".join(rng.choice(TOKENS) + rng.choice([b" ", b" ", b"\n", b"\n", b""]) for _ in range(rng.randint(0, 40)))
    else:
        b = bytes([rng.choice(b"0123456789 .-+e\n\r\t/#vfGXYZ;")]) * rng.choice([1, 3, 700])
        b = b"".join(bytes([x]) if rng.random() < 0.9 else rng.choice(TOKENS) for x in b)
    head = {"off": b"OFF\n", "ply": b"ply\nformat ascii 1.0\n", "stl": b"solid\n", "las": b"LASF", "obj": b"v 1 2 3\nv 1 2 4\nv 1 2 5\n"}.get(fmt, b"")
    return raw(fmt, (head if rng.random() < 0.5 else b"") + b, rng.choice(["auto", "ascii", "binary"]))


def counts(rng):
    """files which announce far more than they hold"""
    for n in BIG:
        s = n.decode()
        yield_ = []
        yield_.append(raw("off", b"OFF\n" + n + b" 0 0\n0 0 0\n"))
        yield_.append(raw("off", b"OFF\n1 " + n + b" 0\n0 0 0\n3 0 0 0\n"))
        yield_.append(raw("off", b"OFF\n" + n + b" " + n + b" 0\n"))
        yield_.append(raw("pts", n + b"\n1 2 3\n4 5 6\n"))
        head = b"0 0 0\n1 0 0\n0 1 0\n0 0 1\n" + b"1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n"
        for a, b in [(n, b"1"), (b"1", n), (n, n), (n, b"0"), (b"3", n)]:
            yield_.append(raw("ptx", a + b"\n" + b + b"\n" + head + b"1 2 3\n"))
        for enc in ("ascii", "binary_little_endian", "binary_big_endian"):
            for nv, nf in ((s, "0"), ("1", s), (s, s)):
                h = "ply\nformat %s 1.0\nelement vertex %s\nproperty float x\nproperty float y\nproperty float z\n" % (enc, nv)
                f = "element face %s\nproperty list uchar int vertex_indices\n" % nf
                yield_.append(raw("ply", (h + f + "end_header\n").encode() + b"1 2 3\n3 0 1 2\n"))
                yield_.append(raw("ply", (h + "end_header\n").encode() + b"1 2 3\n" * 3))
        if int(n) < 2 ** 32:
            yield_.append(raw("stl", b"\0" * 80 + struct.pack("<I", int(n)) + b"\0" * 60))
            yield_.append(raw("psl", b"\0" * 136 + struct.pack("<i", int(n) - 2 ** 32 if int(n) > 2 ** 31 - 1 else int(n)) + b"\0" * 900))
        for minor in (2, 4):
            h = bytearray(375)
            h[0:4], h[24], h[25] = b"LASF", 1, minor
            struct.pack_into("<HI", h, 94, 375, 375)
            struct.pack_into("<BHI", h, 104, 0, 20, min(int(n), 2 ** 32 - 1) if minor == 2 else 0)
            struct.pack_into("<Q", h, 247, min(int(n), 2 ** 64 - 1))
            yield_.append(raw("las", bytes(h) + b"\1" * 50))
        yield from yield_


# all short words at the places where the readers take words apart
PLACES = [("gcode", b"G1 ", b" Y2\nG1 X3\n", b"XZ1.-;a\xff", 4), ("gcode", b"G", b" X1\n", b"0129 X.;a\xff", 4), ("gcode", b"", b"\n", b"G1 X;\xff", 5),
          ("obj", b"v 1 2 3\nv 1 2 4\nv 1 2 5\nf ", b"\n", b"123/ -a\xff", 5), ("obj", b"v 1 2 3\nv 1 2 4\nv 1 2 5\nf 1 2 ", b"\n", b"013/-+ \xff", 5),
          ("obj", b"", b"1 2 3\n", b"vf #n\xff", 4), ("off", b"OFF\n", b"\n1 2 3\n1 2 4\n1 2 5\n3 0 1 2\n", b"013 -#O\xff", 5),
          ("off", b"OFF\n3 1 0\n1 2 3\n1 2 4\n1 2 5\n", b"\n", b"0123 -#\xff", 5), ("pts", b"", b"\n1 2 3\n", b"012 -.\xff", 5), ("pts", b"2\n1 2 3\n", b"\n", b"01 -.e\xff", 5),
          ("ptx", b"", b"\n", b"01 -\n\xff", 5), ("xyz", b"", b"\n1 2 3\n", b"1 -.e\n\xff", 5), ("xy", b"", b"\n1 2\n", b"1 -.e\n\xff", 5),
          ("stl", b"solid", b"\n", b" f\nevx\xff", 5), ("stl", b"solid a\nfacet normal ", b"\n", b"01 -.\xff", 4), ("stl", b"", b"\n\0\0", b"solid \xff\0", 5),
          ("ply", b"ply\nformat ascii 1.0\nelement vertex ", b"\nproperty float x\nproperty float y\nproperty float z\nend_header\n1 2 3\n", b"01 -a\xff", 4),
          ("ply", b"ply\nformat ascii 1.0\nelement vertex 1\nproperty ", b"\nend_header\n1 2 3\n", b"float xyz\xff", 4),
          ("ply", b"ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_index\nend_header\n1 2 3\n1 2 4\n1 2 5\n",
           b"\n", b"0123 -\xff", 5)]


def words(rng, share):
    for fmt, before, after, alphabet, n in PLACES:
        for k in range(n + 1):
            if len(alphabet) ** k * share > 700:    # too many: some
                it = (tuple(rng.choice(alphabet) for _ in range(k)) for _ in range(700))
            else:
                it = (w for w in itertools.product(alphabet, repeat=k) if k < 3 or rng.random() < share)
            for w in it:
                yield raw(fmt, before + bytes(w) + after)
