"""Concrete text for the abstract files of spec/Readers.tla (words -> bytes) and random abstract files."""

I = lambda n: ["i", n, ""]
D = lambda n: ["d", n, ""]
S = lambda s: ["s", 0, s]
C = ["c", 0, ""]


def num_text(rng, milli):
    k = rng.random()
    sign = "-" if milli < 0 else ("+" if rng.random() < 0.1 else "")
    a = abs(milli)
    if rng.random() < 0.02:  # the same number, written at length
        w = rng.choice([20, 63, 64, 65, 130, 300])
        k = rng.randrange(4)
        if k == 0:
            return "%s%d.%03d%s" % (sign, a // 1000, a % 1000, "0" * w)
        if k == 1:
            return "%s%s%d.%03d" % (sign, "0" * w, a // 1000, a % 1000)
        if k == 2:
            return "%s0.%s%dE%d" % (sign, "0" * w, a, w + len(str(a)) - 3)
        return "%s%d%se-%d" % (sign, a, "0" * w, w + 3)
    if k < 0.15:
        return "%s%de-3" % (sign, a)
    if k < 0.25:
        return "%s%d.%03dE0" % (sign, a // 1000, a % 1000)
    if k < 0.4 and a % 1000 and a < 1000:
        return "%s.%s" % (sign, ("%03d" % a).rstrip("0"))
    if k < 0.5 and a % 1000 == 0:
        return "%s%d." % (sign, a // 1000)
    s = "%s%d.%03d" % (sign, a // 1000, a % 1000)
    return s if k < 0.6 else (s.rstrip("0") if a % 1000 else s[:-2])


def word(rng, w, fmt):
    t, n, s = w
    if t == "i":
        return str(n)
    if t == "d":
        return num_text(rng, n)
    if t == "r":
        return "%d%s" % (n, s)
    if t == "c":
        return {"gcode": rng.choice([";note", ";", ";X9 Y9"]), "obj": rng.choice(["#", "# v 1 2 3", "#f 1 2 3"])}.get(
            fmt, rng.choice(["#", "# 3 1 0", "#1 2 3"]))
    if t in ("X", "Y", "Z"):
        return t + (num_text(rng, n) if n % 1000 or rng.random() < 0.5 else str(n // 1000))
    if s in ("X?", "Y?", "Z?"):
        return s[0] + rng.choice(["a", "1x", "--2", "1,5"])
    return s


def render(fmt, lines, rng, delim=None, eol=None, final=None, plain=False):
    """-> (text, ends): ends[i] = bytes up to and including line i"""
    delim = delim or rng.choice([" ", "\t", ";", ","] if fmt in ("xy", "xyz") else [" "])
    eol = eol or rng.choice(["\n", "\n", "\r\n"])
    final = (rng.random() < 0.6) if final is None else final
    text, ends = "", []
    for k, line in enumerate(lines):
        ws = [word(rng, w, fmt) for w in line]
        keyword = bool(line) and line[0][0] == "s"
        s = ""
        for j, w in enumerate(ws):
            if j:
                sep = delim
                if not plain and rng.random() < 0.15:
                    sep = sep * rng.randint(2, 3)
                if not plain and fmt not in ("xy", "xyz", "gcode") and rng.random() < 0.1:
                    sep = "\t"
                if (fmt == "obj" and j == 1) or (fmt == "stl" and w == "loop"):
                    sep = " "
                s += sep
            s += w
        if not plain and ws:
            lead = {"pts": True, "ptx": len(ws) >= 3, "stl": k > 0, "off": not keyword and line[0][0] != "c"}.get(fmt, False)
            if lead and rng.random() < 0.2:
                s = rng.choice([" ", "\t", "   "]) + s
        if not plain and rng.random() < 0.15:
            s += rng.choice([" ", "\t", "  "])
        last = k == len(lines) - 1
        if last and s == "":
            final = True
        s += eol if not last or final else ""
        text += s
        ends.append(len(text.encode()) + (1 if last and not final else 0))
    return text, ends


def case(fmt, lines, rng, **kw):
    text, ends = render(fmt, lines, rng, **{k: kw.pop(k) for k in list(kw) if k in ("delim", "eol", "final", "plain")})
    if fmt == "stl":
        kw.setdefault("told", rng.choice(["auto", "ascii"]))
    return dict({"fam": "io", "fmt": fmt, "lines": lines, "text": text, "ends": ends, "fail": -1}, **kw)


BAD = ["x", "1x", "--1", "1.2.3", "1,5;", "é", "0x10", "1e", "-", "+", "NaNa"]


def rnum(rng, big=False):
    k = rng.random()
    if k < 0.4:
        return I(rng.randint(-9, 9))
    if k < 0.5 and big:
        return I(rng.choice([-100000, 99999, 123456]))
    return D(rng.choice([500, -250, 1500, 1, -1, 999, 125, 62500, -7125]) if rng.random() < 0.6 else rng.randint(-99999, 99999))


def good_file(fmt, rng):
    L = []
    p3 = lambda big=True: [rnum(rng, big) for _ in range(3)]
    if fmt in ("xy", "xyz"):
        d = 2 if fmt == "xy" else 3
        for _ in range(rng.randint(0, 12)):
            L.append([rnum(rng, True) for _ in range(d)] + [rnum(rng) for _ in range(rng.choice([0, 0, 0, 1, 3]))])
    elif fmt == "pts":
        for _ in range(rng.randint(0, 4)):
            n = rng.choice([0, 1, 2, 3, 7, 12])
            L.append([I(n)])
            L += [p3() + [I(0)] * rng.choice([0, 0, 4]) for _ in range(n)]
        for _ in range(rng.choice([0, 0, 2])):
            L.insert(rng.randint(0, len(L)), [])
    elif fmt == "ptx":
        for _ in range(rng.randint(0, 3)):
            a, b = rng.choice([(0, 3), (1, 1), (2, 1), (2, 3), (3, 4), (1, 0)])
            # every number a multiple of 1/2: products stay exact in thousandths wherever a spoiled file puts them
            L += [[I(a)], [I(b)]] + [[rng.choice([I(rng.randint(-9, 9)), D(500), D(-2500)]) for _ in range(3)] for _ in range(4)]
            ident = rng.random() < 0.5
            half = rng.random() < 0.4
            M = [[I(1 if r == c else 0) if ident else (D(500) if half and rng.random() < 0.3 else I(rng.randint(-3, 3)))
                  for c in range(4)] for r in range(4)]
            if ident and rng.random() < 0.8:     # identity in all but a few entries: one entry, a column, a row, the block
                for r, c in rng.choice([[(rng.randrange(4), rng.randrange(4))], [(rng.randrange(4), rng.randrange(4)) for _ in range(2)],
                                        [(r, 3) for r in range(3)], [(3, c) for c in range(4)],
                                        [(r, r) for r in range(3)], [(r, c) for r in range(3) for c in range(3)]]):
                    M[r][c] = I(rng.choice([-3, -2, -1, 0, 1, 2, 3]))
            L += M
            L += [[I(2 * rng.randint(-8, 8)) if rng.random() < 0.7 else D(rng.choice([1500, -2500, 2000]) * 2) for _ in range(3)]
                  + [I(1)] * rng.choice([0, 0, 1, 4]) for _ in range(a * b)]
    elif fmt == "gcode":
        for _ in range(rng.randint(0, 25)):
            k = rng.random()
            ax = [[a, rng.choice([1, -1]) * rng.choice([0, 500, 1000, 2500, 10000, 20, 33000]), ""]
                  for a in rng.sample("XYZ", rng.randint(0, 3))]
            if rng.random() < 0.3:
                ax.insert(rng.randint(0, len(ax)), S(rng.choice(["F1500", "E0.25", "S3"])))
            tail = [C] + ([["X", 99000, ""]] if rng.random() < 0.5 else []) if rng.random() < 0.2 else []
            if k < 0.5:
                L.append([S(rng.choice(["G1", "G1", "G2", "G3"]))] + ax + tail)
            elif k < 0.72:
                L.append([S(rng.choice(["G90", "G91"]))] + tail)
            elif k < 0.82:
                L.append([S("G92")] + ax + tail)
            elif k < 0.92:
                L.append([S(rng.choice(["M104", "T0", "G28", "G4", "G21", "M82", "g1", "N5", "G10", "G99"]))] + ax + tail)
            else:
                L.append([C] if rng.random() < 0.5 else [])
    elif fmt == "obj":
        nv = 0
        for _ in range(rng.randint(0, 20)):
            k = rng.random()
            if nv < 3 and k < 0.6 or k < 0.45:
                L.append([S("v")] + p3() + [I(1)] * rng.choice([0, 0, 1, 3]))
                nv += 1
            elif nv >= 3 and k < 0.8:
                st = rng.choice(["", "/%d", "/%d/%d", "//%d"])
                L.append([S("f")] + [I(v) if not st else ["r", v, st.replace("%d", str(rng.randint(1, 9)))]
                                     for v in rng.sample(range(1, nv + 1), 3)])
            else:
                L.append(rng.choice([[C], [], [S("vn"), I(0), I(0), I(1)], [S("vt"), I(0), I(0)], [S("o"), S("name")],
                                     [S("usemtl"), S("v")], [S("s"), S("off")], [S("g"), S("f")], [S("fo"), I(1), I(2), I(3)]]))
    elif fmt == "off":
        if rng.random() < 0.8:
            L.append([S("OFF")])
        nv, nf = rng.choice([0, 1, 3, 4, 9]), rng.choice([0, 1, 2, 6])
        nf = nf if nv >= 3 else 0
        L.append([I(nv), I(nf)] + [I(0)] * rng.choice([1, 1, 0]))
        L += [p3() for _ in range(nv)]
        L += [[I(3)] + [I(v) for v in rng.sample(range(nv), 3)] + [I(255)] * rng.choice([0, 0, 3]) for _ in range(nf)]
        for _ in range(rng.choice([0, 0, 1, 3])):
            L.insert(rng.randint(0, len(L)), rng.choice([[C], []]))
        if rng.random() < 0.2:
            L.append([I(3), I(0), I(1), I(2)])
    elif fmt == "stl":
        L.append([S("solid")] + ([S("name")] if rng.random() < 0.7 else []))
        pool = [[I(x), I(y), I(z)] for x in (0, 1) for y in (0, 1) for z in (0, 2)]
        for _ in range(rng.randint(0, 8)):
            n = [S("normal")] + p3() if rng.random() < 0.85 else rng.choice([[], [S("normal")], [S("normal"), S("x"), I(1), I(1)]])
            L += [[S("facet")] + n, [S("outer"), S("loop")]]
            L += [[S("vertex")] + (rng.choice(pool) if rng.random() < 0.8 else p3()) for _ in range(3)]
            L += [[S("endloop")], [S("endfacet")]]
        if rng.random() < 0.8:
            L.append([S("endsolid")] + ([S("name")] if rng.random() < 0.5 else []))
    return L


def spoil(fmt, L, rng):
    """a structural mistake which the statement covers (not: a bare `v`/`f`, an OFF line after the counts)"""
    while True:
        M = _spoil(fmt, L, rng)
        if fmt == "obj" and any(len(x) == 1 and x[0][2] in ("v", "f") for x in M):
            continue
        if fmt == "off" and any(x and x[0] == S("OFF") and k != next(j for j, y in enumerate(M) if y and y[0][0] != "c") for k, x in enumerate(M)):
            continue
        return M


def _spoil(fmt, L, rng):
    """a structural mistake somewhere in the file"""
    L = [list(x) for x in L]
    if fmt == "stl" and len(L) == 1:
        return L
    if not L:
        return [[S(rng.choice(BAD))]] if fmt not in ("gcode", "obj") else L
    faces = [x for x in L if fmt == "off" and len(x) >= 4 and x[0] == I(3)]
    if faces and rng.random() < 0.3:
        rng.choice(faces)[0] = rng.choice([I(30), I(33), I(31), I(300), I(4), I(2), I(0), I(13), I(-3), D(3500), S("3x"), S("x3")])
        return L
    k = rng.random()
    i = rng.randrange(1 if fmt == "stl" and len(L) > 1 else 0, len(L))
    if k < 0.35 and L[i]:
        j = rng.randrange(len(L[i]))
        w = L[i][j]
        if w[0] in "XYZ":
            L[i][j] = S(w[0] + "?")
        elif w[0] in ("i", "d", "r"):
            L[i][j] = rng.choice([S(rng.choice(BAD)), I(-1), I(0), D(1500), I(7), I(30), I(33), I(3), I(4)]) if fmt != "off" or j else rng.choice(
                [S("x"), I(30), I(33), I(31), I(3), I(4), I(2), I(0), I(13)])
        elif fmt == "stl":
            L[i][j] = S("enx")
    elif k < 0.55 and L[i]:
        L[i] = L[i][:rng.randrange(len(L[i]))]
    elif k < 0.75:
        del L[i]
    elif k < 0.85:
        L.insert(i, list(rng.choice(L)))
    else:
        L = L[:max(1 if fmt == "stl" else 0, i)]
    return L
