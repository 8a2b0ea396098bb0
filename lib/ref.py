"""Python view of the frozen reference data (spec/ref), used only to *generate* inputs that reach
the interesting parts of each encoding.  No verdict depends on it: verdicts come from TLC."""
import functools, json, os, random

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "spec", "ref")


@functools.lru_cache(None)
def catalog():
    with open(os.path.join(REF, "catalog.json")) as f:
        return json.load(f)


def kind(e):
    return catalog()["enc"][e]["kind"]


def unit(e):
    return catalog()["enc"][e]["unit"]


NENC = 198
ALL = list(range(NENC))
TABLE = {"table", "compose", "pend", "gb18030"}
COMPONENTS = {"jp": (107, 108), "jp1": (107, 108, 109), "jp2": (107, 108, 109, 111, 113, 49, 55),
              "jp3": (107, 108, 191), "jpms": (107, 1000, 1001), "cn": (111, 36), "cnext": (111, 36, 112),
              "kr": (113,), "hz": (111,)}
SHIFT = [24, 25, 26, 27, 33, 34, 46, 193, 35]
COMPOSE = [72, 75, 105]
PEND = [39, 40, 41, 42, 191, 192]
UNICODE = list(range(1, 21))


@functools.lru_cache(None)
def tab(t):
    with open(os.path.join(REF, f"t{t}.json")) as f:
        return json.load(f)


def unpack(v):
    if v < 0:
        v = -v
        return bytes([(v >> 24) + 128, v >> 16 & 255, v >> 8 & 255, v & 255])
    n = 1 if v < 256 else 2 if v < 65536 else 3
    return v.to_bytes(n, "big")


@functools.lru_cache(None)
def codes(t):
    """[(char, bytes)] of a table, two-way or one-way"""
    d, out = tab(t), []
    for pg, k in enumerate(d["pg"]):
        if not k:
            continue
        row = d["pages"][k - 1]["row"]
        if len(row) == 1:
            row = row * 256
        x = {y[0]: y for y in d["pages"][k - 1]["x"]}
        for b, v in enumerate(row):
            if v in (-1, -4):
                continue
            if v == -3:
                out.append((pg * 256 + b, bytes(x[b][5])))
            else:
                out.append((pg * 256 + b, unpack(v)))
    return out


@functools.lru_cache(None)
def decodable(t):
    """[bytes] of all complete codes of a table (by decode trie)"""
    d, out = tab(t), []

    def go(n, pre):
        nd = d["nodes"][n - 1]
        row = nd["row"] if len(nd["row"]) == 256 else nd["row"] * 256
        kid = nd["kid"] if len(nd["kid"]) == 256 else (nd["kid"] * 256 if nd["kid"] else [0] * 256)
        for b in range(256):
            if row[b] >= 0 or (row[b] == -3 and not kid[b]):
                out.append(pre + bytes([b]))
            elif kid[b]:
                go(kid[b], pre + bytes([b]))
    go(d["root"], b"")
    return out


def scalar(rng):
    r = rng.random()
    if r < .25:
        return rng.randrange(0x20, 0x7f)
    if r < .35:
        return rng.choice([0, 9, 10, 13, 14, 15, 27, 0x7f, 0x80, 0x85, 0xa0, 0xa5, 0xff, 0x100, 0x7ff, 0x800, 0x203e,
                           0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0xe0001,
                           0xe007f, 0xe0080, 0x10ffff, 0x5c, 0x7e, 0x2b, 0x2d])
    if r < .6:
        return rng.randrange(0xa0, 0x3000)
    if r < .9:
        c = rng.randrange(0x3000, 0x10000)
        return c if not 0xd800 <= c < 0xe000 else c - 0x2000
    return rng.randrange(0x10000, 0x110000)


TAGS = {"ja": [0xe0001, 0xe006a, 0xe0061], "ko": [0xe0001, 0xe006b, 0xe006f], "zh": [0xe0001, 0xe007a, 0xe0068],
        "off": [0xe007f], "JA": [0xe0001, 0xe004a, 0xe0041]}


def char(e, rng):
    """a character for target encoding e: mostly encodable, sometimes not"""
    k = kind(e)
    r = rng.random()
    if r < .12:
        return scalar(rng)
    if k in TABLE:
        if k == "gb18030" and r < .3:
            return scalar(rng)
        if k == "pend" and r < .5:
            return rng.choice(rng.choice(tab(e)["pairs"])[:2])
        if k == "compose" and r < .5:
            return rng.choice(rng.choice(tab(e)["comp"])[:3])
        return rng.choice(codes(e))[0]
    if k in COMPONENTS:
        if r < .3:
            return rng.choice([10, 13, 65, 92, 126, 0xa5, 0x203e, 0xff71, 0x3042])
        if k == "jp2" and r < .4:
            return rng.choice([0xe0001, 0xe006a, 0xe0061, 0xe006b, 0xe006f, 0xe007a, 0xe0068, 0xe007f, 0xe0041,
                               0x4e00, 0x4e01, 0xac00, 0x3b1])
        if k == "jp3" and r < .55:
            return rng.choice(rng.choice(tab(191)["pairs"])[:2])
        return rng.choice(codes(rng.choice(COMPONENTS[k])))[0]
    return scalar(rng)


@functools.lru_cache(None)
def classes(k):
    """characters of a shift family grouped by which component sets contain them"""
    m = {}
    for t in COMPONENTS[k]:
        for c, _ in codes(t):
            m.setdefault(c, set()).add(t)
    out = {}
    for c, ts in m.items():
        out.setdefault(frozenset(ts), []).append(c)
    return [v for _, v in sorted((sorted(k), v) for k, v in out.items())]


def chars(e, rng, n):
    """n or more characters for target e, with the sequences that matter to it: complete language tags in front
    of characters that several of its sets share, pairs that combine, and a last character that is held back"""
    k, out = kind(e), []
    while len(out) < n:
        r = rng.random()
        if k == "jp2" and r < .3:
            out += rng.choice(list(TAGS.values()))
            out += [rng.choice(rng.choice(classes(k))) for _ in range(rng.randrange(1, 3))]
        elif k in COMPONENTS and r < .45:
            out.append(rng.choice(rng.choice(classes(k))))
        else:
            out.append(char(e, rng))
    x = 191 if k == "jp3" else e
    if (k == "pend" or k == "jp3") and rng.random() < .35:
        out.append(rng.choice(tab(x)["pairs"])[0])
    return out


def u32(chars):
    return b"".join((c & 0xffffffff).to_bytes(4, "big") for c in chars)


B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def piece(e, rng):
    """a fragment of input in encoding e: mostly valid, sometimes broken"""
    k = kind(e)
    r = rng.random()
    u = unit(e)
    if k == "utf8":
        if r < .6:
            return chr(scalar(rng)).encode("utf-8", "surrogatepass")
        if r < .8:
            b = bytearray(chr(scalar(rng)).encode("utf-8", "surrogatepass"))
            j = rng.randrange(len(b))
            b[j] = rng.choice([0x80, 0xbf, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xf8, 0xff, 0x9f, 0xa0, 0x8f, 0x90])
            return bytes(b)
        return rng.choice([b"\xc0\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf4\x90\x80\x80",
                           b"\xf0\x8f\xbf\xbf", b"\xf7\xbf\xbf\xbf", b"\xef\xbf\xbd", b"\xf4\x8f\xbf\xbf"])
    if u == 2:
        end = rng.choice(["big", "little"])
        if r < .5:
            c = scalar(rng)
            return chr(c).encode("utf-16-be" if end == "big" else "utf-16-le", "surrogatepass")
        if r < .7:
            return rng.choice([0xfeff, 0xfffe, 0xfffd, 0xffff]).to_bytes(2, end)
        if r < .9:
            return rng.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d]).to_bytes(2, end)
        return bytes(rng.randrange(256) for _ in range(2))
    if u == 4:
        end = rng.choice(["big", "little"])
        if r < .5:
            return scalar(rng).to_bytes(4, end)
        if r < .75:
            return rng.choice([0xfeff, 0xfffe0000]).to_bytes(4, end)
        return rng.choice([0xd800, 0xdfff, 0x110000, 0x10ffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffe]).to_bytes(4, end)
    if k == "utf7":
        if r < .3:
            return chr(scalar(rng)).encode("utf-7", "surrogatepass")
        if r < .5:
            return bytes([rng.choice(b"+-/ A~\\@!z\n")])
        if r < .6:
            return b"+" + bytes(rng.choice(B64) for _ in range(rng.randrange(1, 9))) + rng.choice([b"-", b"", b"!"])
        if r < .8:
            import base64
            u16 = b"".join(rng.choice([0xd83d, 0xde00, 0x41, 0x3042, 0xe9]).to_bytes(2, "big")
                           for _ in range(rng.randrange(1, 4)))
            return b"+" + base64.b64encode(u16).rstrip(b"=") + rng.choice([b"-", b"", b" ", b"\x80"])
        return bytes([rng.randrange(256)])
    if k in ("c99", "java"):
        if r < .2:
            return bytes([rng.randrange(0x20, 0x7f)])
        if r < .3:
            return bytes([rng.randrange(256)])
        if r < .4:
            return rng.choice([b"\\", b"\\u", b"\\U", b"\\u12", b"\\U000", b"\\ug123", b"\\u00g0", b"\\n"])
        c = rng.choice([0x24, 0x40, 0x60, 0x41, 0x9f, 0xa0, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x20ac,
                        scalar(rng)])
        if k == "java":
            if c > 0xffff:
                c -= 0x10000
                return b"\\u%04x\\u%04x" % (0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff))
            return (b"\\u%04x" if r < .8 else b"\\u%04X") % c
        return rng.choice([b"\\u%04x" % (c & 0xffff), b"\\U%08x" % c, b"\\U%08X" % (c + rng.choice([0, 0x110000, 0x80000000]))])
    if k in COMPONENTS:
        return shift_piece(k, rng)
    if k == "compose":
        if r < .6:
            d = tab(e)
            inv = {c: b for b, c in enumerate(d["raw"]) if c >= 0}
            m = rng.choice(d["comp"])
            return bytes([inv[c] for c in m[:2] if c in inv]) or b"a"
        return bytes([rng.randrange(256)])
    if k == "pend" and r < .4:
        return bytes(rng.choice(tab(e)["pairs"])[2])
    if k == "gb18030" and r < .5:
        b = bytes([rng.choice([0x81, 0x82, 0x83, 0x84, 0x90, 0xe3, 0x95, 0x85, 0x8f, 0xe4]), 48 + rng.randrange(10),
                   rng.randrange(129, 255), 48 + rng.randrange(10)])
        if r < .1:
            b = bytearray(b)
            b[rng.randrange(4)] = rng.choice([0x2f, 0x3a, 0x80, 0xff, 0x41, 0x30])
            b = bytes(b)
        return b
    ds = decodable(e)
    if r < .75:
        return rng.choice(ds)
    if r < .85:
        b = bytearray(rng.choice(ds))
        b[rng.randrange(len(b))] = rng.randrange(256)
        return bytes(b)
    if r < .95:
        return rng.choice(ds)[:-1] or b"A"
    return bytes([rng.randrange(256)])


ESC = {
    "jp": [b"\x1b(B", b"\x1b(J", b"\x1b$@", b"\x1b$B"],
    "kr": [b"\x1b$)C", b"\x0e", b"\x0f", b"\x0e", b"\x0f"],
    "hz": [b"~{", b"~}", b"~~", b"~\n"],
}
ESC["jp1"] = ESC["jp"] + [b"\x1b$(D"]
ESC["jp2"] = ESC["jp1"] + [b"\x1b$A", b"\x1b$(C", b"\x1b.A", b"\x1b.F", b"\x1bN\x41", b"\x1b(I"]
ESC["jp3"] = ESC["jp"] + [b"\x1b$(O", b"\x1b$(P", b"\x1b$(Q", b"\x1b(I"]
ESC["jpms"] = ESC["jp1"] + [b"\x1b(I", b"\x0e", b"\x0f"]
ESC["cn"] = [b"\x1b$)A", b"\x1b$)G", b"\x1b$*H", b"\x0e", b"\x0f", b"\x1bN!!", b"\x1bN\x21\x7e"]
ESC["cnext"] = ESC["cn"] + [b"\x1b$)E"] + [b"\x1b$+" + bytes([c]) for c in b"IJKLM"] + [b"\x1bO!!", b"\x1bO\x30\x30"]
WRONG = [b"\x1b", b"\x1b$", b"\x1b(", b"\x1b(A", b"\x1b$C", b"\x1b$(A", b"\x1b$(B", b"\x1b$)B", b"\x1b$)H", b"\x1b$*A", b"\x1b$+H",
         b"\x1b$+N", b"\x1b.B", b"\x1bP", b"\x1bN", b"\x1bO!", b"\x80", b"\xff", b"~", b"~A", b"\x1b\x1b", b"\x1b$)C", b"\x1b$)A",
         b"\x0e", b"\x0f", b"\x1b(I", b"\x1b$A"]


def shift_piece(k, rng):
    r = rng.random()
    if r < .35:
        return rng.choice(ESC[k])
    if r < .42:
        return rng.choice(WRONG)
    if r < .5:
        return rng.choice([b"\n", b"\r", b"A", b"\\", b"~", b"0", b"!", b"\x7f"])
    if r < .6:
        return bytes([rng.randrange(0x21, 0x7f)])
    t = rng.choice(COMPONENTS[k])
    b = rng.choice(codes(t))[1]
    if len(b) >= 2:
        return bytes(c & 0x7f for c in b[-2:])
    return bytes([b[0] & 0x7f])


def text(e, rng, n):
    return b"".join(piece(e, rng) for _ in range(n))
