"""What each check explores: inputs and API scripts (generation only; every verdict is TLC's)."""
import json, os
import ref
from engine import Case, HERE

ASSUME = ["the reference tables in spec/ref are the published mappings (frozen, cross-checked with tools/xref.py)",
          "the driver records what the public API returned",
          "bounds: inputs, texts and call sequences are finite and sampled or enumerated as described in DESIGN.md"]
NOBOM_UNI = [1, 3, 4, 6, 7, 9, 10, 12, 13]
PIVOTS = [6, 1, 9, 10, 12, 13, 7]
STATEFUL = ref.SHIFT + ref.COMPOSE + ref.PEND + [2, 5, 8, 11, 14]


def hx(b):
    return bytes(b).hex() or "-"


def tables():
    return [e for e in ref.ALL if ref.kind(e) in ("table", "compose", "pend")]


def enc_chars(e, rng, n):
    return ref.chars(e, rng, n)


def source(e, rng, n):
    """input in encoding e, and the same as hex"""
    return ref.text(e, rng, n)


def good_text(e, rng, n):
    """characters that encoding e can represent (as far as the generator knows)"""
    k = ref.kind(e)
    out = []
    while len(out) < n:
        r = rng.random()
        if r < .15:
            c = rng.choice([0x20, 0x30, 0x41, 0x61, 0x7a, 0xa, 0xd, 0x7e, 0x5c, 0x2b, 0x2d])
        elif k in ref.TABLE and not (k == "gb18030" and r < .4):
            if k == "pend" and r < .5:
                p = rng.choice(ref.tab(e)["pairs"])[:2]
                out += rng.choice([p, p, p[:1], p[:1] * 2, p[1:]])
                continue
            c = rng.choice(ref.codes(e))[0]
        elif k in ref.COMPONENTS:
            if k == "jp3" and r < .4:
                p = rng.choice(ref.tab(191)["pairs"])[:2]
                out += rng.choice([p, p, p[:1], p[:1] * 2, p[1:]])
                continue
            c = rng.choice(ref.codes(rng.choice(ref.COMPONENTS[k])))[0]
        else:
            c = ref.scalar(rng)
        out.append(c)
    return out[:n]


def pivot_bytes(pv, chars):
    name = {6: "utf-32-be", 12: "utf-32-be", 13: "utf-32-le", 7: "utf-32-le", 1: "utf-8", 9: "utf-16-be", 10: "utf-16-le"}[pv]
    return "".join(chr(c) for c in chars if not 0xd800 <= c < 0xe000).encode(name)


# a pool of (from, to, flag) with stateful encodings on either side well represented
def pair(rng, e=None):
    a = e if e is not None else rng.choice(ref.ALL)
    if rng.random() < .5:
        b = rng.choice([6, 1, 1, 9, 8, 14, rng.choice(STATEFUL), rng.choice(ref.ALL)])
        return a, b
    b = rng.choice([6, 1, 9, 10, rng.choice(STATEFUL), rng.choice(ref.ALL)])
    return b, a


def text_for(f, t, rng, n):
    """input in encoding f aimed at target t"""
    if ref.kind(f) in ("utf8", "utf16be", "utf16le", "utf32be", "utf32le", "ucs4be", "ucs4le") and rng.random() < .75:
        pv = {"utf8": 1, "utf16be": 9, "utf16le": 10, "utf32be": 12, "utf32le": 13, "ucs4be": 6, "ucs4le": 7}[ref.kind(f)]
        return pivot_bytes(pv, ref.chars(t, rng, n) if n else [])
    return ref.text(f, rng, n)


# ---------------------------------------------------------------------------------------------
def model_pieces(f, t, rng, n):
    """a small alphabet of input pieces for the handle model: whole characters, both halves of one, something
    invalid, and what the family is about (shift sequences, marks, bases and combining characters)"""
    k, u = ref.kind(f), ref.unit(f)
    out = []
    w = text_for(f, t, rng, 1)
    while len(w) < 2 and k not in ("compose",) and rng.random() < .9:
        w = text_for(f, t, rng, 1)
    w = w[:8]
    if len(w) >= 2:
        c = rng.randrange(1, len(w))
        out += [w[:c], w[c:]]
    elif w:
        out.append(w)
    if k in ref.COMPONENTS:
        e = rng.choice(ref.ESC[k])
        out += [e, rng.choice(ref.ESC[k]), rng.choice([b"!!", b"0!", b"A", b"\n"])]
        if len(e) > 1 and rng.random() < .5:
            out += [e[:-1], e[-1:]]
    elif k == "utf7":
        out += [b"+", b"-", b"AGE", b"A"]
    elif k in ("utf16", "ucs2", "utf32", "ucs4"):
        m = rng.choice([b"\xfe\xff", b"\xff\xfe"]) if u == 2 else rng.choice([b"\0\0\xfe\xff", b"\xff\xfe\0\0"])
        out += [m, rng.choice([b"\0A", b"A\0"]) if u == 2 else rng.choice([b"\0\0\0A", b"A\0\0\0"]), m[:1]]
    elif k == "compose":
        out += [ref.piece(f, rng), bytes([rng.choice(b"AaEe")]), bytes([rng.choice([0xcc, 0xd2, 0xde, 0xec, 0xf2, 0xb0, 0xb1, 0xb2, 0xb3, 0xb4, 0xc8, 0xd1])])]
    elif k == "pend":
        x = bytes(rng.choice(ref.tab(f)["pairs"])[2])
        out += [x, x[:1], rng.choice([b"A", x[-1:]])]
    if ref.kind(t) == "pend" or t == 193:
        ps = rng.choice(ref.tab(191 if t == 193 else t)["pairs"])[:2]
        if f in PIVOTS:
            out += [pivot_bytes(f, [ps[0]]), pivot_bytes(f, [ps[1]])]
    if f in PIVOTS and len(out) < n - 1:
        out.append(pivot_bytes(f, [rng.choice([c for c in (ref.char(t, rng), 0x41, 10) if c < 0x110000 and not 0xd800 <= c < 0xe000] or [65])]))
    out.append(ref.piece(f, rng)[:8] if rng.random() < .5 else b"\xff" * u)
    return [list(x) for x in dict.fromkeys(bytes(x) for x in out if x)][:n]


def model_configs(pairs, rng, depth=3, npieces=5, ncaps=3, nr=3, disc=None):
    out = []
    for f, t in pairs:
        caps = sorted({1000} | set(rng.sample([0, 1, 2, 3, 4, 5, 6, 7, 8, 9], ncaps - 1)))
        rcaps = sorted({100} | set(rng.sample([-1, -1, 0, 1, 2, 3, 4, 6, 8], nr - 1)))
        out.append({"from": f, "to": t, "disc": int(rng.random() < .3) if disc is None else disc, "pieces": model_pieces(f, t, rng, npieces),
                    "caps": caps, "rcaps": rcaps, "depth": depth, "emit": 1})
    return out


def both_ways(es, rng):
    """each encoding as the source and as the target of a conversion"""
    out = []
    for e in es:
        out += [(e, rng.choice([6, 1, 1, 9, 14])), (rng.choice([1, 1, 9, 6]), e)]
    return out


PLAIN = [e for e in ref.ALL if ref.kind(e) in ("table", "gb18030")]
FAMILIES = STATEFUL + [19, 20, 31, 32, 3, 7, 9, 13]


def model_check(E, tier, rng, pairs, disc=None, limit=None, **kw):
    if tier == "quick":
        E.handle_model(model_configs(pairs, rng, disc=disc, **kw), limit or 12000, rng)
    else:
        for r in range(4):
            E.handle_model(model_configs(pairs, rng, disc=disc, depth=3, npieces=6, ncaps=4, nr=4), 80000, rng)
        E.handle_model(model_configs(rng.sample(pairs, min(8, len(pairs))), rng, disc=disc, depth=4, npieces=4, ncaps=3, nr=2), 80000, rng)


# ---------------------------------------------------------------------------------------------
def decorated(a, rng):
    """the name a spelled with other letter case and with '-' and '_' in between, sometimes very many of them"""
    out, dash = bytearray(), rng.choice([.3, .3, .3, 0, .9])
    for c in a:
        if rng.random() < dash:
            out += rng.choice([b"-", b"_", b"--", b"_-"]) * (1 if dash < .9 else rng.choice([1, 2, 5, 40]))
        out.append(c + 32 if 65 <= c <= 90 and rng.random() < .5 else c)
    if rng.random() < .3:
        out += rng.choice([b"-", b"_"])
    return bytes(out)


def c01(E, tier, rng):
    al = [bytes(a[0]) for a in ref.catalog()["alias"]]
    known = [bytes(k["match"]["name"]) for k in E.kf]
    pres = {b""}
    for a in al + known:
        for k in range(len(a) + 1):
            pres.add(a[:k])
    groups = [(1, [], ["N " + hx(p)]) for p in sorted(pres)]
    groups.append((50, [], ["D -70000 140000", "D -2147483648 -2147470000", "D 2147470000 2147483646"]))
    E.sweeps(groups, "asan")
    cases = []

    ops = []
    for a in al + known:
        ops += ["L " + hx(a), "L " + hx(decorated(a, rng)), "L " + hx(a.lower())]
        for _ in range(3 if tier == "quick" else 20):
            b = bytearray(a)
            k = rng.randrange(len(b))
            r = rng.random()
            if r < .3:
                del b[k]
            elif r < .6:
                b[k] = rng.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:()+/ \x80\xff\x01")
            elif r < .8:
                b.insert(k, rng.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:()+/ \xe9"))
            else:
                b = bytearray(a + rng.choice(al))
            ops.append("L " + hx(b))
    for n in (0, 1, 38, 39, 40, 41, 42, 45, 46, 64, 100, 255, 1000, 5000, 70000):
        for fill in (b"A", b"-", b"a_", b"\xff", b"U", b"I"):
            ops.append("L " + hx((fill * n)[:n]))
        ops.append("L " + hx(b"-" * n + b"utf" + b"_" * n + b"8" + b"-" * n))
        ops.append("L " + hx(b"utf-8" + b"\x80" * n))
        ops.append("L " + hx(rng.choice(al) + b"X" * n))
    for _ in range(500 if tier == "quick" else 5000):
        n = rng.randrange(0, 45)
        ops.append("L " + hx(bytes(rng.choice(b"ABCEIKLMNOSTUacdfisx0123456789-_:.") for _ in range(n))))
    for _ in range(300):
        ops.append("L " + hx(bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 60)))))
    cps = [c for c, _ in ref.catalog()["cp"]]
    for c in cps:
        for d in (-1, 0, 1, 65536, -65536):
            ops.append("l %d" % (c + d))
    for c in (-1, 0, -2147483648, 2147483647, 65535, 65536, 65537, 131072):
        ops.append("l %d" % c)
    for k in range(0, len(ops), 25):
        cases.append(Case("n%d" % k, ops[k:k + 25], []))
    E.scripts("Script", cases)


def c02(E, tier, rng):
    E.sweeps(tries(rng, tier) + [g for e in ref.SHIFT for g in shift_rows(e, range(0x21, 0x7f))], "asan")


def tries(rng, tier):
    """the whole decode trie of every table"""
    groups = []
    for e in tables():
        w = 60 if e in (36, 112, 34) or ref.kind(e) != "table" else len(ref.tab(e)["nodes"])
        groups.append((w, [e], ["T %d %d" % (e, 2 if ref.kind(e) == "compose" else 4)]))
    for e in (31, 32):
        groups.append((300, [e], ["T %d 2" % e]))
        step = 1587600 // 16
        for k in range(16):
            groups.append((200, [e], ["G %d %d %d" % (e, k * step, (k + 1) * step - 1)]))
        pre = []
        for _ in range(30 if tier == "quick" else 600):
            b1 = rng.choice([0x81, 0x82, 0x83, 0x84, 0x90, 0xe3, 0x95, 0x85, 0x8f, 0xe4, 0xfe])
            pre.append("W %d - %02x%02x 1" % (e, b1, 0x30 + rng.randrange(10)))
            pre.append("W %d - %02x%02x%02x 1" % (e, b1, 0x30 + rng.randrange(10), rng.randrange(0x81, 0xff)))
        groups.append((200, [e], pre))
    return groups


def c03(E, tier, rng):
    groups = []
    high = ["4352 4608 16", "65535 65536 1", "8388600 8388620 5", "16777200 16777215 5"]
    for e in tables():
        groups.append((40, [e], ["E %d 0 4351 1 0" % e] + ["E %d %s 0" % (e, h) for h in high]))
    for e in (31, 32):
        for k in range(0, 4352, 256):
            groups.append((250, [e], ["E %d %d %d 1 0" % (e, k, k + 255)]))
        groups.append((10, [e], ["E %d %s 0" % (e, h) for h in high]))
    for e in ref.SHIFT:     # from the initial state
        for k in range(0, 256, 16):
            groups.append((60, [e, 6], ["E %d %d %d 1 0" % (e, k, k + 15)]))
        if e in (33, 34, 193):
            for k in range(512, 768, 32):
                groups.append((60, [e, 6], ["E %d %d %d 1 0" % (e, k, k + 31)]))
        groups.append((20, [e, 6], ["E %d %d %d 1 0" % (e, p, p) for p in [3584, 4351, 4352, 65536, 16777215] + rng.sample(range(256, 4352), 8 if tier == "quick" else 300)]))
    E.sweeps(groups, "asan")
    # the same characters with other text around them (no state may leak), and with tight windows
    cases = []
    n = 4 if tier == "quick" else 60
    for e in tables() + [31, 32] + ref.SHIFT:
        for j in range(n * (4 if e in ref.SHIFT else 1)):
            cs = enc_chars(e, rng, rng.randrange(2, 10))
            fl = rng.randrange(2)
            ops = ["O 0 6 %d %d" % (e, fl), "C 0 %s 1000" % hx(ref.u32(cs)), "R 0 50"]
            for cap in (0, 1, 2, 3, 4, 5):
                ops += ["R 0 -1", "C 0 %s %d" % (hx(ref.u32(cs)), cap)]
            cases.append(Case("e%d.%d" % (e, j), ops, [6, e]))
    E.scripts("Script", cases)


UNI_PREF = {
    1: [b"", b"\xe0", b"\xe1", b"\xed", b"\xef", b"\xf0", b"\xf1", b"\xf4", b"\xf5", b"\xf7", b"\xe0\x9f", b"\xe0\xa0", b"\xe0\xbf",
        b"\xed\x9f", b"\xed\xa0", b"\xed\xaf", b"\xed\xb0", b"\xed\xbf", b"\xef\xbf", b"\xef\xbb", b"\xee\x80", b"\xf0\x8f", b"\xf0\x90", b"\xf4\x8f", b"\xf4\x90", b"\xf0\x8f\xbf",
        b"\xf0\x90\x80", b"\xf0\xbf\xbf", b"\xf4\x8f\xbf", b"\xf4\x90\x80", b"\xf1\x80\x80", b"\xf5\x80\x80", b"\xf1\x80\xc0", b"\xf1\x41\x80",
        b"\xf1\xc0\x80", b"\xe1\x41", b"\xe1\xc0", b"\xf3\xa0\x80", b"\xf0\x9f\x98", b"\xc3", b"\xdf", b"\xc2", b"\xc1", b"\xc0"],
}


def uni_prefixes(e, rng, n):
    k, u = ref.kind(e), ref.unit(e)
    out = []
    if e == 1:
        out = list(UNI_PREF[1])
        for _ in range(n):
            out.append(bytes([rng.randrange(0xc2, 0xf8)]))
            out.append(bytes([rng.randrange(0xe0, 0xf8), rng.randrange(0x80, 0xc0)]))
            out.append(bytes([rng.randrange(0xf0, 0xf8), rng.randrange(0x80, 0xc0), rng.randrange(0x80, 0xc0)]))
            out.append(bytes([rng.randrange(0xe0, 0xf8), rng.randrange(256)]))
    elif u == 2:
        hi = [0, 1, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xfe, 0xff, 0x20, 0x80] + [rng.randrange(256) for _ in range(n)]
        for a in hi:
            out.append(bytes([a]))
            for lead in (b"\xd8\x00", b"\xdb\xff", b"\x00\xd8", b"\xff\xdb", b"\xd8\x3d", b"\x3d\xd8", b"\xfe\xff", b"\xff\xfe"):
                out.append(lead + bytes([a]))
    elif u == 4:
        vals = [0, 0x41, 0x20ac, 0xd700, 0xd800, 0xdb00, 0xdf00, 0xe000, 0xfe00, 0xff00, 0x10000, 0xe0000, 0x10ff00, 0x110000,
                0x7fffff00, 0x80000000, 0xffffff00, 0xfffe0000, 0x1000000] + [rng.randrange(0x1100) << 8 for _ in range(n)]
        for v in vals:
            be = v.to_bytes(4, "big")
            le = v.to_bytes(4, "little")
            out += [be[:3], le[:3], bytes(reversed((v | 0xfd).to_bytes(4, "big")))[:3]]
            out += [b"\x00\x00\xfe\xff" + be[:3], b"\xff\xfe\x00\x00" + le[:3], b"\xff\xfe\x00\x00" + le[1:]]
        for b in range(0, 256, 17):
            out.append(b"\x00\x00" + bytes([b]))
    elif k == "utf7":
        alpha = b"AZaz09+/-! \\~2D"
        out = [b"", b"+", b"+A", b"+AA", b"+AAA", b"+AAAA", b"+AGE", b"+AGEA", b"+2D0", b"+2D3", b"+2D3e", b"+2D3eA", b"+2D3eAA", b"+2AA", b"+3AA", b"+39//",
               b"+//8", b"+/v8", b"+AD", b"+AP8", b"+A-", b"+AGE-", b"+-", b"++"]
        for _ in range(3 * n):
            out.append(b"+" + bytes(rng.choice(alpha) for _ in range(rng.randrange(0, 8))))
    else:
        out = [b"", b"\\", b"\\u", b"\\U", b"\\u0", b"\\u00", b"\\u00a", b"\\ud8", b"\\ud80", b"\\udc0", b"\\ud800", b"\\ud800\\", b"\\ud800\\u",
               b"\\ud800\\udc0", b"\\ud83d\\ude0", b"\\udbff\\udff", b"\\ud800\\u004", b"\\U0000000", b"\\U0010fff", b"\\U0011000", b"\\U0000d80",
               b"\\U8000000", b"\\Uffffff", b"\\Ufffffff", b"\\u002", b"\\u004", b"\\u006", b"\\u009", b"\\uD7F", b"\\uDFF", b"\\uE00", b"\\U0000002",
               b"\\u20A", b"\\u20a", b"\\ufff", b"\\U0000fff"]
        hexd = b"0123456789abcdefABCDEFgG"
        for _ in range(2 * n):
            out.append(rng.choice([b"\\u", b"\\U", b"\\ud8"]) + bytes(rng.choice(hexd) for _ in range(rng.randrange(0, 7))))
    return [p for p in dict.fromkeys(out)]


def unicode_digests(E, tier, rng):
    """every page of every Unicode format's encoder, and rows behind whole families of prefixes, as digests"""
    quick = tier == "quick"
    groups = []

    def rows(e, ps):
        ps = list(dict.fromkeys(ps))
        for k in range(0, len(ps), 128):
            groups.append((len(ps[k:k + 128]) * 6, [e, 6], ["u %d 0 - %s" % (e, " ".join(hx(p) for p in ps[k:k + 128]))]))
    for e in ref.UNICODE:
        text = e in (14, 19, 20)
        for lo in range(0, 4352, 128):
            step = 1
            if text and quick and 512 <= lo < 3584:
                step = 4
            groups.append((500 if text else 200, [e, 6], ["U %d 0 %d %d %d -" % (e, lo + rng.randrange(step), lo + 127, step)]))
        groups.append((100, [e, 6], ["U %d 0 %d %d 1 -" % (e, p, p + 1) for p in (4352, 8191, 65535, 8388606, 8388608, 16777214) + tuple(rng.randrange(4352, 8388607) for _ in range(8))]))
        if e == 1:
            ps = [bytes([a]) for a in range(256)] + [bytes([a, b]) for a in range(0xc0, 256) for b in range(0x80, 0xc0)]
            ps += [bytes([a, b]) for a in range(0xc2, 0xf6) for b in rng.sample(list(range(0x80)) + list(range(0xc0, 256)), 3 if quick else 60)]
            for a in range(0xf0, 0xf5):
                for b in range(0x80, 0xc0):
                    ps += [bytes([a, b, c]) for c in ([0x7f, 0x80, 0xbf, 0xc0] + rng.sample(range(0x80, 0xc0), 3) if quick else range(0x7f, 0xc1))]
            for a in range(0xe0, 0x100):        # longer than any character: a character, then the start of the next
                ps.append(bytes([a, 0x90, 0x80, rng.randrange(0x80, 0xc0)]))
                ps.append(bytes([a, 0xa0, 0x80, rng.randrange(0x80, 0xc0), 0x80]))
            rows(e, ps)
        elif ref.unit(e) == 2:
            ps = [bytes([a]) for a in range(256)]
            for hs in range(0xd800, 0xdc00, 1 if not quick else 3):
                hs = min(hs + rng.randrange(3), 0xdbff) if quick else hs
                for t in ([rng.choice([0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, rng.randrange(256)])] if quick else [0xd7, 0xd8, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, rng.randrange(256)]):
                    be, le = hs.to_bytes(2, "big"), hs.to_bytes(2, "little")
                    ps += [be + bytes([t]), le + bytes([rng.randrange(256)])]
            if ref.kind(e) in ("utf16", "ucs2"):
                ps += [m + p for m in (b"\xfe\xff", b"\xff\xfe") for p in rng.sample(ps, 60)]
            rows(e, ps)
        elif ref.unit(e) == 4:
            ps = []
            for k in range(rng.randrange(8) if quick else 0, 0x1108, 8 if quick else 1):
                v = k << 8
                ps += [v.to_bytes(4, "big")[:3], (v | rng.randrange(256)).to_bytes(4, "little")[:3]]
            for k in (0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0x10ff, 0x1100, 0x1101, 0x7fffff, 0x800000, 0xffffff):
                ps.append((k << 8).to_bytes(4, "big")[:3])
            if ref.kind(e) in ("utf32", "ucs4"):
                ps += [m + p for m in (b"\0\0\xfe\xff", b"\xff\xfe\0\0") for p in rng.sample(ps, 60)]
            rows(e, ps)
        else:
            rows(e, escape_words(e, rng, quick))
        # encoder pages behind a text that leaves it in each of its states
        for b in ([], [0x41], [0x3b1], [0x1f600], [0xfeff], [0x2b], [0x2d], [0x41, 0xe9, 0x4e00], [0xe9, 0x21], [0xe9, 0xac00], [0xe9, 0x41, 0x1f600]):
            if b and (text or ref.kind(e) in ("utf16", "utf32", "ucs2", "ucs4")):
                ps = [0, 0x20, 0x30, 0xd8, 0xdb, 0xdc, 0xfe, 0xff, 0x1f6, 0x10ff] + rng.sample(range(4352), 4 if quick else 40)
                groups.append((len(ps) * 4, [e, 6], ["U %d 0 %d %d 1 %s" % (e, p, p, hx(ref.u32(b))) for p in ps]))
    E.sweeps(groups, "opt")


def escape_words(e, rng, quick):
    """prefixes of UTF-7 and escape text: all short words over the classes of bytes, escapes with boundary values, cut anywhere"""
    out = []
    if e == 14:
        al = [b"+", b"-", b"A", b"7", b"/", b"!", b" ", b"\\", b"\x80"]
        for a in al:
            for b in al:
                out += [a + b + c for c in al]
        for v in (0, 0x41, 0x2b, 0x2d, 0xe9, 0x7ff, 0x4e00, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff):
            w = b"+" + base64(v) + base64(rng.choice([0x41, 0xe9, 0x10ffff]))
            out += [w[:k] for k in range(2, len(w))]
        for hi, lo in ((0xd800, 0xd800), (0xdc00, 0xdc00), (0xd800, 0x41), (0xdbff, 0xe000), (0xdbff, 0xdbff), (0xd83d, 0xdfff)):
            w = b"+" + base64(hi, lo)
            out += [w[:k] for k in range(3, len(w))]
        for _ in range(200 if quick else 5000):
            out.append(b"+" + bytes(rng.choice(b"AAZz09/+23D-!") for _ in range(rng.randrange(3, 12))))
    else:
        for v in (0, 0x24, 0x40, 0x41, 0x5c, 0x60, 0x7f, 0x80, 0x9f, 0xa0, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff):
            for w in ((b"\\u%04x" % v)[:6], b"\\U%08x" % v, b"\\u%04x\\u%04x" % (0xd800 + (v >> 10) % 1024, 0xdc00 + v % 1024)):
                w = rng.choice([w, w[:2] + w[2:].upper().replace(b"U", b"u"), w])
                out += [w[:k] for k in range(1, len(w))] + [b"A" + w, w + w[:1]]
        for a in (0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xe000):
            for b in (0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000):
                w = b"\\u%04x\\u%04x" % (a, b)
                out += [w[:k] for k in (7, 8, 11, 12)]
        for _ in range(100 if quick else 3000):
            out.append(bytes(rng.choice(b"\\\\\\uuuU0019aAdDfFgG") for _ in range(rng.randrange(2, 9))))
    return out


def base64(*units):
    import base64 as b
    raw = b"".join(u.to_bytes(2, "big") if u < 0x10000 else chr(u).encode("utf-16-be") for u in units)
    return b.b64encode(raw).rstrip(b"=")


def c04(E, tier, rng):
    n = 6 if tier == "quick" else 120
    groups = []
    for e in ref.UNICODE:
        ps = uni_prefixes(e, rng, n)
        for k in range(0, len(ps), 24):
            groups.append((24 * (3 if e > 1 else 2), [e, 6], ["W %d - %s 1" % (e, hx(p)) for p in ps[k:k + 24]]))
        pages = {0, 1, 2, 7, 8, 0x20, 0x2b, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xfe, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x3d8, 0xdff, 0xe00, 0xe01,
                 0xfff, 0x1000, 0x10ff, 0x1100, 0x1101, 0x1fff, 0x10000, 0x7fffff, 0x800000, 0xfffe00, 0xffffff}
        for _ in range(8 if tier == "quick" else 400):
            pages.add(rng.randrange(0x1100))
        ps = sorted(pages)
        for k in range(0, len(ps), 10):
            groups.append((60, [e, 6], ["E %d %d %d 1 0" % (e, p, p) for p in ps[k:k + 10]]))
    E.sweeps(groups, "asan")
    unicode_digests(E, tier, rng)
    cases = []
    per = 120 if tier == "quick" else 2500
    for e in ref.UNICODE:
        for j in range(per):
            fl = int(rng.random() < .2)
            to = rng.choice([6, 6, 12, 1, 17])
            ops = ["O 0 %d %d %d" % (e, to, fl)]
            for _ in range(rng.randrange(1, 4)):
                ops.append("C 0 %s 2000" % hx(ref.text(e, rng, rng.randrange(1, 7))))
                if rng.random() < .3:
                    ops.append("R 0 %d" % rng.choice([-1, 50]))
            ops.append("R 0 50")
            cases.append(Case("d%d.%d" % (e, j), ops, [e, to]))
            ops = ["O 0 6 %d %d" % (e, fl)]
            for _ in range(rng.randrange(1, 4)):
                cs = [ref.scalar(rng) for _ in range(rng.randrange(1, 7))]
                if rng.random() < .1:
                    cs.insert(rng.randrange(len(cs) + 1), rng.choice([0xd800, 0xdfff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff]))
                ops.append("C 0 %s 2000" % hx(ref.u32(cs)))
                if rng.random() < .3:
                    ops.append("R 0 %d" % rng.choice([-1, 50]))
            ops.append("R 0 50")
            cases.append(Case("e%d.%d" % (e, j), ops, [e, 6]))
    E.scripts("Script", cases)


def state_alphabet(e, rng):
    """one character of each kind that the state of e's encoder or decoder tells apart"""
    k = ref.kind(e)
    if k == "pend":
        ps = ref.tab(e)["pairs"]
        return sorted({p[0] for p in ps} | {p[1] for p in ps} | {0x41, 10, rng.choice(ref.codes(e))[0]})
    if e in ref.SHIFT:
        al = {rng.choice(c) for c in ref.classes(k)} | {0x41, 10, 0x7e}
        if k == "jp3":
            al |= set(rng.choice(ref.tab(191)["pairs"])[:2])
        return sorted(c for c in al if not 0xd800 <= c < 0xe000 and c < 0x110000)
    if k == "compose":
        return sorted({c for p in rng.sample(ref.tab(e)["comp"], 4) for c in p[:3]} | {0x41})
    if e == 14:
        return [0x41, 0x21, 0x2b, 0x2d, 0x2f, 0x5c, 0x20, 10, 0xe9, 0x391, 0x1f600]
    if e in (19, 20):
        return [0x41, 0x5c, 0x75, 0x55, 0x30, 0x24, 0xe9, 0x4e00, 0x1f600]
    if k in ("utf16", "utf32", "ucs2", "ucs4", "gb18030"):
        return [0x41, 0x80, 0xe9, 0x4e00, 0xfffd, 0x1f600, 0x10ffff]
    return []


def c05(E, tier, rng):
    groups = []
    for e in ref.ALL:
        if ref.kind(e) in ("table", "compose", "pend"):
            groups.append((30, [e, 6], ["B %d 0 4351 1" % e]))
        else:
            groups.append((120, [e, 6], ["B %d 0 4351 1" % e]))
    E.sweeps(groups, "opt")
    cases = []
    per = 30 if tier == "quick" else 600
    for e in ref.ALL:
        heavy = e in STATEFUL or ref.kind(e) not in ("table",)
        for j in range(per * (4 if heavy else 1) // 2):
            ops = []
            for _ in range(4):
                pv = rng.choice(PIVOTS)
                ops.append("B %d %d %s" % (pv, e, hx(pivot_bytes(pv, good_text(e, rng, rng.choice([1, 2, 2, 3, 5, 8, 13]))))))
            cases.append(Case("b%d.%d" % (e, j), ops, [e] + PIVOTS))
    # every short word over one character of each kind that the encoder's state tells apart
    for e in ref.ALL:
        al = state_alphabet(e, rng)
        if not al:
            continue
        words = [[a] for a in al] + [[a, b] for a in al for b in al] + [[a, b, c] for a in al for b in al for c in al]
        cap = 900 if tier == "quick" else 20000
        if len(words) > cap:
            words = words[:len(al) + len(al) ** 2][:cap] + rng.sample(words, cap // 2)
        for k in range(0, len(words), 20):
            cases.append(Case("w%d.%d" % (e, k), ["B %d %d %s" % (1, e, hx(pivot_bytes(1, w))) for w in words[k:k + 20]], [e, 1]))
    E.scripts("Relate", cases, hdr={"mode": "total", "windows": 0})


def row_digests(tier, rng, mode, encs=None):
    """rows of every decoder under a mode of delivery (1: byte by byte, 2: windows growing from nothing), as digests"""
    quick = tier == "quick"
    groups = []

    def rows(e, base, ps):
        ps = list(dict.fromkeys(ps))
        for k in range(0, len(ps), 100):
            groups.append((len(ps[k:k + 100]) * 6, [e, 6], ["u %d %d %s %s" % (e, mode, hx(base), " ".join(hx(p) for p in ps[k:k + 100]))]))
    for e in encs or ref.ALL:
        k = ref.kind(e)
        if k in ("table", "compose", "pend", "gb18030"):
            one, more = {b""}, set()
            for _, b in ref.codes(e):
                one.add(b[:1] if len(b) > 1 else b"")
                more |= {b[:j] for j in range(2, len(b))}
            if k == "gb18030":
                more |= {ref.piece(e, rng)[:j] for _ in range(40) for j in (2, 3)}
            more = sorted(more)
            cap = 60 if quick else 2000
            one = sorted(one)
            lone = [bytes([b]) for b in range(128, 256) if bytes([b]) not in one]
            one = [p for p in one if p == b"" or rng.random() < (.6 if quick else 1)] + rng.sample(lone, min(len(lone), 3 if quick else 40))
            rows(e, b"", one + (rng.sample(more, min(cap, len(more)))))
            if k in ("compose", "pend"):
                held = {bytes([b]) for b in range(0x41, 0x5b)} | {ref.piece(e, rng) for _ in range(30)}
                if k == "pend":
                    held |= {bytes(b) for _, b in ref.codes(e) if rng.random() < .002}
                    held |= {bytes(x[2]) for x in ref.tab(e)["pairs"]}
                for b in rng.sample(sorted(held), 10 if quick else len(held)):
                    rows(e, b, [b""] + rng.sample(one, min(3, len(one))))
        elif e in ref.SHIFT:
            for b in shift_bases(e):
                rows(e, b, [b"", b"\x1b", b"\x1b$", b"\x1b(", b"\x1b$(", b"\x1b$)", b"\x1b$*", b"\x1b$+", b"\x1b.", b"\x1bN", b"\x1bO", b"~"] +
                     [p + bytes([c]) for p in (b"", b"\x1bN", b"\x1bO", b"\x0e", b"\n") for c in rng.sample(range(0x21, 0x7f), 12 if quick else 94)])
        else:
            rows(e, b"", uni_prefixes(e, rng, 6 if quick else 60))
    return groups


def page_digests(tier, rng, mode):
    """pages of every encoder under a mode of delivery, as digests"""
    groups = []
    for e in ref.ALL:
        k = ref.kind(e)
        if k in ("table", "compose", "pend"):
            pages = [p for p, x in enumerate(ref.tab(e)["pg"]) if x]
        elif e in ref.SHIFT:
            pages = sorted({c >> 8 for v in ref.classes(k) for c in v})
        else:
            pages = [0, 1, 3, 0x20, 0x4e, 0xd7, 0xd8, 0xdf, 0xff, 0x100, 0x1f6, 0x200, 0xe00, 0x10ff]
        cap = 24 if tier == "quick" else 400
        if len(pages) > cap:
            pages = rng.sample(pages, cap)
        before = ["-"]
        if e in ref.SHIFT:
            before += [hx(ref.u32([rng.choice(c)])) for c in ref.classes(k)]
        elif k == "pend":
            before += [hx(ref.u32([rng.choice(ref.tab(e)["pairs"])[0]])) for _ in range(2)]
        elif k in ("utf7", "utf16", "utf32"):
            before += [hx(ref.u32([c])) for c in (0x41, 0xe9, 0x1f600)]
        cmds = ["U %d %d %d %d 1 %s" % (e, mode, p, p, b) for p in pages for b in (before if tier != "quick" else [rng.choice(before)] + (["-"] if p < 3 else []))]
        groups.append((len(cmds) * 5, [e, 6], cmds))
    return groups


def c06(E, tier, rng):
    model_check(E, tier, rng, both_ways(rng.sample(FAMILIES, 5 if tier == "quick" else len(FAMILIES)) + rng.sample(PLAIN, 1), rng))
    E.sweeps(row_digests(tier, rng, 1), "opt")
    cases = []
    per = 9 if tier == "quick" else 160
    for e in ref.ALL:
        heavy = ref.kind(e) != "table"
        for j in range(per * (4 if heavy else 1)):
            f, t = pair(rng, e) if j % 3 else (e, rng.choice([6, 1, e]))
            fl = int(rng.random() < .3)
            data = text_for(f, t, rng, rng.choice([1, 2, 3, 4, 6, 9]))
            if not data:
                continue
            data = data[:60]
            ops = ["O 0 %d %d %d" % (f, t, fl), "C 0 %s 20000" % hx(data), "R 0 200", "X 0"]
            cuts = ["1", "2", "3", "%d,0" % rng.randrange(1, len(data) + 1), "%d,%d,0" % (rng.randrange(1, 9), rng.randrange(1, 9)),
                    ",".join(str(rng.randrange(1, 6)) for _ in range(6))]
            if len(data) <= 14:
                cuts += ["%d,0" % k for k in range(1, len(data))]
            for n, c in enumerate(dict.fromkeys(cuts)):
                h = 10 * (n % 9 + 1)
                ops += ["O %d %d %d %d" % (h, f, t, fl), "F %d %s %s 20000" % (h, hx(data), c), "G %d 200" % h, "X %d" % h]
            cases.append(Case("c%d.%d" % (e, j), ops, [f, t]))
    # every lead byte of the multi-byte sets, byte by byte and cut anywhere
    for e in tables() + [31, 32]:
        lead = {}
        for _, b in ref.codes(e):
            if len(b) > 1:
                lead.setdefault(b[:1] if len(b) == 2 else b[:2] if len(b) == 3 or b[0] != 0x8e else b[:3], []).append(b)
        codes = [rng.choice(v) for v in lead.values()]
        if e in (31, 32):
            codes += [ref.piece(e, rng) for _ in range(20)]
        rng.shuffle(codes)
        for c in range(0, len(codes), 7):
            data = b"".join(codes[c:c + 7])
            ops = ["O 0 %d 6 0" % e, "C 0 %s 2000" % hx(data), "R 0 200", "X 0"]
            for n, cut in enumerate(["1", "%d,0" % rng.randrange(1, len(data)), "2", "3,1"]):
                h = 10 * (n + 1)
                ops += ["O %d %d 6 0" % (h, e), "F %d %s %s 2000" % (h, hx(data), cut), "G %d 200" % h, "X %d" % h]
            cases.append(Case("l%d.%d" % (e, c), ops, [e, 6]))
    # every cut of short streams of shift sequences: the state after the first chunk is all the second one has
    for e in ref.SHIFT:
        k = ref.kind(e)
        ws = shift_words(k, 1) + shift_words(k, 2)
        ws = rng.sample(ws, min(len(ws), 130)) if tier == "quick" else ws + rng.sample(shift_words(k, 3), 1500)
        for c in range(0, len(ws), 3):
            ops = []
            for n, w in enumerate(ws[c:c + 3]):
                w += rng.choice([b"!!", b"0!", b"0!A", b"!!\n", b"\x0e0!", b"\x0f!", b"\x1bN0!", b"\x1b$B0!"])
                t = rng.choice([6, 1])
                ops += ["O %d %d %d 0" % (n, e, t), "C %d %s 2000" % (n, hx(w)), "R %d 200" % n, "X %d" % n]
                for m in range(1, len(w)):
                    h = 10 * (m % 9 + 1) + n
                    ops += ["O %d %d %d 0" % (h, e, t), "F %d %s %s 2000" % (h, hx(w), "%d,0" % m), "G %d 200" % h, "X %d" % h]
            cases.append(Case("k%d.%d" % (e, c), ops, [e, 6, 1]))
    E.scripts("Relate", cases, hdr={"mode": "total", "windows": 0})


def c07(E, tier, rng):
    model_check(E, tier, rng, both_ways(rng.sample(FAMILIES, 5 if tier == "quick" else len(FAMILIES)) + rng.sample(PLAIN, 1), rng), ncaps=4, npieces=4)
    E.sweeps(row_digests(tier, rng, 2, rng.sample(ref.ALL, 90) if tier == "quick" else None) + page_digests(tier, rng, 2), "asan")
    cases = []
    per = 7 if tier == "quick" else 120
    for e in ref.ALL:
        heavy = ref.kind(e) != "table"
        for j in range(per * (4 if heavy else 1)):
            if j % 3 == 0:
                f, t = rng.choice([6, 1]), e
            elif j % 3 == 1:
                f, t = e, rng.choice([6, 1, 14, 34])
            else:
                f, t = pair(rng, e)
            fl = int(rng.random() < .3)
            data = text_for(f, t, rng, rng.choice([1, 2, 3, 4, 5]))[:40]
            if not data:
                continue
            ops = ["O 0 %d %d %d" % (f, t, fl), "C 0 %s 20000" % hx(data), "R 0 200", "X 0"]
            wins = ["~-%d,20000" % k for k in range(0, 26)] + ["%d" % k for k in (32, 33, 40)]
            wins += [",".join([str(rng.randrange(0, 10)) for _ in range(5)] + ["40"]) for _ in range(2)] + ["0,1,2,3,4,5,6,7,8,9,10,11,12,40"]
            for n, w in enumerate(wins):
                h = 10 * (n % 9 + 1)
                fw = rng.choice(["0,1,2,3,4,5,6,7,8,9,10,200", "200", "3,200", "4,200", "1,5,200", "2,7,200"])
                ops += ["O %d %d %d %d" % (h, f, t, fl), "F %d %s 0 %s" % (h, hx(data), w), "G %d %s" % (h, fw), "X %d" % h]
            cases.append(Case("w%d.%d" % (e, j), ops, [f, t]))
    # the closing sequence in every window, from every kind of state at the end of the text
    for e in ref.SHIFT + ref.PEND + ref.COMPOSE + [14]:
        for j in range(20 if tier == "quick" else 300):
            cs = ref.chars(e, rng, rng.choice([1, 1, 2, 3]))
            if e in ref.COMPOSE:
                f, t, data = e, rng.choice([6, 1, 14, 8]), ref.text(e, rng, 2)
            else:
                f, t, data = 6, e, ref.u32(cs)
            ops = ["O 0 %d %d 0" % (f, t), "C 0 %s 2000" % hx(data), "R 0 200", "X 0"]
            for n in range(0, 13):
                h = 10 * (n % 9 + 1)
                ops += ["O %d %d %d 0" % (h, f, t), "F %d %s 0 2000" % (h, hx(data)), "G %d %d,200" % (h, n), "X %d" % h]
            cases.append(Case("f%d.%d" % (e, j), ops, [f, t]))
    E.scripts("Relate", cases, hdr={"mode": "total", "windows": 1})


def history(f, t, rng, fl, steps, window=None, resets=.35, h=0, tlen=(1, 2, 3, 5, 8)):
    ops = []
    for _ in range(steps):
        data = text_for(f, t, rng, rng.choice(tlen))
        if rng.random() < .1:
            data = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6)))
        w = window(rng) if window else rng.choice([2000, 2000, 2000, 7, 3])
        ops.append("C %d %s %d" % (h, hx(data), w))
        if rng.random() < .2:
            ops.append(ops[-1])
        if rng.random() < resets:
            ops.append("R %d %d" % (h, rng.choice([-1, -2, -3, 0, 1, 2, 3, 4, 5, 8, 100, 100])))
    return ops


def script_check(E, tier, rng, encs, per, flag, mk):
    cases = []
    for e in encs:
        for j in range(per):
            f, t = mk(e, j)
            fl = flag(j)
            ops = ["O 0 %d %d %d" % (f, t, fl)] + history(f, t, rng, fl, rng.randrange(1, 5)) + ["R 0 100"]
            cases.append(Case("s%d.%d" % (e, j), ops, [f, t]))
    E.scripts("Script", cases)


def c08(E, tier, rng):
    cases = []
    per = 14 if tier == "quick" else 250
    for e in ref.ALL:
        heavy = ref.kind(e) != "table"
        for j in range(per * (3 if heavy else 1)):
            f, t = (e, rng.choice([6, 1, 0, 21])) if j % 2 else pair(rng, e)
            ops = ["O 0 %d %d %d" % (f, t, j % 4 == 3)]
            for _ in range(rng.randrange(1, 4)):
                data = text_for(f, t, rng, rng.choice([1, 2, 3, 5, 8]))
                w = rng.choice([2000, 2000, 2000, 6, 3, 1, 0])
                ops.append("C 0 %s %d" % (hx(data), w))
                if rng.random() < .5:
                    ops.append("A 0 %d" % rng.choice([2000, 2000, 0, 2]))   # the unconsumed rest again
                    ops.append("A 0 2000")
                if rng.random() < .3:
                    ops.append("R 0 %d" % rng.choice([-1, 100, rng.randrange(9)]))
            ops += ["R 0 %d" % r for r in rng.choice([[], [0], range(8), range(7, -1, -1), [rng.randrange(1, 8)]])] + ["R 0 100"]
            cases.append(Case("s%d.%d" % (e, j), ops, [f, t]))
    E.scripts("Script", cases)
    # the kind and place of the error for every byte behind every prefix
    E.sweeps(tries(rng, tier) + [g for e in ref.SHIFT for g in shift_rows(e, rng.sample(range(0x21, 0x7f), 3))], "asan")
    E.sweeps([(10, [e, 6], ["K %d" % e]) for e in ref.ALL], "asan")


def c09(E, tier, rng):
    model_check(E, tier, rng, both_ways(rng.sample(FAMILIES, 5 if tier == "quick" else len(FAMILIES)) + rng.sample(PLAIN, 1), rng), disc=1)
    cases = []
    per = 14 if tier == "quick" else 250
    for e in ref.ALL:
        heavy = ref.kind(e) != "table"
        for j in range(per * (3 if heavy else 1)):
            f, t = (e, rng.choice([6, 1, 0, 21, e])) if j % 2 else (rng.choice([6, 1, 9, 10, 14, 20, e]), e)
            ops = []
            for fl in (1, 0):
                ops.append("O %d %d %d %d" % (fl, f, t, fl))
            for _ in range(rng.randrange(1, 4)):
                data = text_for(f, t, rng, rng.choice([1, 2, 3, 5, 8]))
                if rng.random() < .4:
                    k = rng.randrange(len(data) + 1) // ref.unit(f) * ref.unit(f)
                    bad = bytes(rng.choice([0xff, 0x80, 0xd8, 0xdc, 0, 0x1b, 0x7f, 0xc0]) for _ in range(ref.unit(f)))
                    data = data[:k] + bad + data[k:]
                for fl in (1, 0):
                    ops.append("C %d %s %d" % (fl, hx(data), rng.choice([2000, 2000, 5])))
                if rng.random() < .3:
                    ops += ["R %d 100" % k for k in (1, 0)]
            ops += ["R %d 100" % k for k in (1, 0)]
            cases.append(Case("s%d.%d" % (e, j), ops, [f, t]))
    E.scripts("Script", cases)
    # every byte behind some prefixes of every encoding, with text behind it
    groups = []
    for e in ref.ALL:
        u, k = ref.unit(e), ref.kind(e)
        post = [b"A", b"AB"] if u == 1 else [b"\0A", b"A\0"] if u == 2 else [b"\0\0\0A", b"A\0\0\0"]
        if k in ref.COMPONENTS:
            pre = [(b, x) for b in rng.sample(shift_bases(e), 1 if k == "kr" else 2) for x in (b"", rng.choice([b"\x1b", b"\x1b$", b"\x1b(", b"0", b"\x1b$)", b"~", b"\x1bN", b"!"]))]
        elif u > 1:
            pre = [(b"", bytes(x)) for x in ([0], [0xd8], [0xdc], [0xd8, 0], [0, 0xd8], [0xfe, 0xff, 0xd8], [0, 0, 0], [0, 0x11, 0], [0, 0])]
        elif e == 1:
            pre = [(b"", bytes(x)) for x in ([], [0xc3], [0xe1], [0xed], [0xf0], [0xf4, 0x8f], [0xe1, 0x80], [0xf1, 0x80, 0x80], [0xf8])]
        elif k == "utf7":
            pre = [(b"", x) for x in (b"", b"+", b"+A", b"+AG", b"+AGE", b"+2D3", b"+2D3eA", b"a+")]
        elif k in ("c99", "java"):
            pre = [(b"", x) for x in (b"", b"\\", b"\\u", b"\\u00", b"\\ud83d", b"\\ud83d\\u", b"\\U0001")]
        elif k == "compose":
            pre = [(b"", b"")] + [(b"", bytes([c])) for c in rng.sample(range(0x80, 0x100), 3)]
        else:
            inner = sorted({c[:j] for c in ref.decodable(e) for j in range(1, len(c))}) if k != "gb18030" else [bytes([0x81]), bytes([0xfe]), b"\x81\x30", b"\x84\x31\xa4", b"\xe3\x32\x9a", b"\x90\x30"]
            pre = [(b"", b"")] + [(b"", x) for x in rng.sample(inner, min(len(inner), 5 if tier == "quick" else 60))]
        cmds = ["Y %d %s %s %s" % (e, hx(b), hx(x), hx(q)) for b, x in pre for q in (post[:1] if tier == "quick" and u == 1 else post)]
        groups.append((len(cmds), [e, 6], cmds))
    E.sweeps(groups, "asan")


def c10(E, tier, rng):
    model_check(E, tier, rng, both_ways(rng.sample(STATEFUL, 6 if tier == "quick" else len(STATEFUL)), rng), nr=5, ncaps=2, npieces=4)
    cases = []
    per = 10 if tier == "quick" else 180
    for e in ref.ALL:
        heavy = ref.kind(e) not in ("table", "utf8", "c99", "java")
        for j in range(per * (5 if heavy else 1)):
            f, t = [(e, rng.choice([6, 1, 0] + STATEFUL)), (rng.choice([6, 1]), e), (rng.choice(STATEFUL), e)][j % 3]
            fl = int(rng.random() < .25)
            ops = ["O 0 %d %d %d" % (f, t, fl)]
            for _ in range(rng.randrange(1, 4)):
                ops += history(f, t, rng, fl, rng.randrange(1, 3), resets=0)
                r = rng.random()
                if r < .5:
                    for c in sorted(rng.sample(range(0, 9), 3)):
                        ops.append("R 0 %d" % c)
                    ops += ["R 0 100", "R 0 100"]
                elif r < .8:
                    ops += ["R 0 %d" % rng.choice([-1, -2, -3])]
                else:
                    ops += ["R 0 100"]
            # a fresh handle next to it runs the same text
            data = text_for(f, t, rng, 4)
            ops += ["O 1 %d %d %d" % (f, t, fl), "R 0 100", "C 0 %s 2000" % hx(data), "C 1 %s 2000" % hx(data), "R 0 100", "R 1 100"]
            cases.append(Case("r%d.%d" % (e, j), ops, [f, t]))
    E.scripts("Script", cases)


BOMS = [2, 5, 8, 11]


def c11(E, tier, rng):
    cases = []
    per = 8 if tier == "quick" else 130
    for e in ref.ALL:
        heavy = ref.kind(e) != "table"
        for j in range(per * (3 if heavy else 1)):
            f, t = [(e, rng.choice([6, 1, 0])), (rng.choice([6, 1]), e), pair(rng, e)][j % 3]
            fl = int(rng.random() < .3)
            data = text_for(f, t, rng, rng.choice([0, 1, 2, 3, 5, 9]))
            if rng.random() < .3:
                data = pivot_bytes(1, good_text(t, rng, 3)) if f == 1 else data[:len(data) // 2]
            cases.append(Case("o%d.%d" % (e, j), oneshot_ops(f, t, fl, data, rng), [f, t]))
    # beyond the internal buffer of 4096 bytes: every offset of a character around the boundary
    big = [(6, 1), (1, 9), (1, 6), (6, 24), (6, 14), (6, 193), (1, 20), (9, 31), (8, 11), (6, 35), (6, 8), (6, 39), (75, 6)]
    for f, t in big:
        for j in range(2 if tier == "quick" else 40):
            fl = rng.randrange(2)
            if f == 75:
                data = ref.text(f, rng, rng.randrange(500, 1300))
            else:
                n = rng.choice([1020, 1024, 1366, 1500, 2048, 2060, 4096]) + rng.randrange(-6, 7)
                data = pivot_bytes(f if f in PIVOTS else 9, (good_text(t, rng, 40) * (n // 40 + 1))[:n])
            cases.append(Case("big%d.%d.%d" % (f, t, j), oneshot_ops(f, t, fl, data, rng), [f, t]))
    # a result that fills the buffer exactly before the closing sequence is written
    for t in ref.SHIFT + ref.PEND + [14, 8]:
        tails = [ref.chars(t, rng, 2)[-3:] for _ in range(1 if tier == "quick" else 6)]
        for tail in {tuple(x): x for x in tails}.values():
            tail = pivot_bytes(1, [c for c in tail if c < 0x110000])
            for n in sorted({n // 2 if t == 8 else n for n in range(4083, 4097)}):
                data = b"A" * n + tail
                d = hx(data)
                ops = ["O 0 1 %d 1" % t, "C 0 %s 200000" % d, "R 0 200", "X 0", "P 1 %d 1 %s" % (t, d),
                       "O 10 1 %d 1" % t, "Z 10 %s" % d, "V 10 %s 0" % d, "S 10 %s =0" % d, "S 10 %s =-1" % d, "X 10"]
                cases.append(Case("x%d.%d.%s" % (t, n, tail.hex()), ops, [1, t]))
    E.scripts("Relate", cases, hdr={"mode": "total", "windows": 0})
    # the same against the specification itself: what was learned from a byte order mark counts here
    exact = []
    for e in ref.ALL:
        for j in range((12 if e in BOMS else 2) * (1 if tier == "quick" else 12)):
            f, t = [(e, rng.choice([6, 1, 0])), (rng.choice([6, 1] + BOMS), e), pair(rng, e)][j % 3]
            ops = ["O 0 %d %d %d" % (f, t, rng.randrange(2))]
            for _ in range(rng.randrange(2, 6)):
                d = hx(text_for(f, t, rng, rng.choice([0, 1, 2, 3, 5, 9])))
                ops.append(rng.choice(["Z 0 " + d, "V 0 %s 0" % d, "S 0 %s %d" % (d, rng.choice([0, 1, 5, 2000])), "S 0 %s 2000" % d]))
            ops.append("X 0")
            exact.append(Case("e%d.%d" % (e, j), ops, [f, t]))
        # characters no format has: nothing comes out, nothing is left in the buffer
        ops = []
        for c in (0x110000, 0x7fffffff, 0xfffe, 0xd800, 0xe0041):
            d = hx(c.to_bytes(4, "big") * rng.choice([1, 2]))
            ops += ["O 0 6 %d %d" % (e, c % 2 if c == 0xe0041 else 1), "S 0 %s 60" % d, "Z 0 " + d, "V 0 %s 0" % d, "X 0"]
        exact.append(Case("u%d" % e, ops, [6, e]))
    E.scripts("Script", exact)
    E.sweeps(long_texts(tier, rng))


def long_texts(tier, rng):
    """texts of 70 kB and more for every encoding, as source and as target"""
    groups = []
    for e in ref.ALL:
        cmds, encs = [], {e}
        for j in range(2 if tier == "quick" else 12):
            k = 0
            while k < 50:
                k += 1
                p = rng.choice([6, 1, 9])
                f, t = (e, p) if j % 2 == 0 else (p, e)
                cs = good_text(e, rng, rng.choice([1, 2, 3, 7, 16]))
                if rng.random() < .4:
                    cs = cs + [rng.choice([0x391, 0x4e00, 0x10ffff, 0xfffd, 0xe0041])]
                unit = ref.text(e, rng, rng.choice([1, 2, 5])) if f == e else pivot_bytes(p, [c for c in cs if c < 0x110000])
                if unit:
                    break
            if not unit:
                continue
            encs |= {f, t}
            n = rng.choice([66000, 70000, 140000]) if tier == "quick" or rng.random() < .9 else 5000000
            cmds.append("H %d %d %d %s %d" % (f, t, int(rng.random() < .5 or f == e), hx(unit), n // len(unit) + 1))
        groups.append((1, encs, cmds))
    return groups


def oneshot_ops(f, t, fl, data, rng):
    d = hx(data)
    ops = ["O 0 %d %d %d" % (f, t, fl), "C 0 %s 200000" % d, "R 0 200", "X 0", "P %d %d %d %s" % (f, t, fl, d)]
    # one handle: size, then the text streamed
    ops += ["O 10 %d %d %d" % (f, t, fl), "Z 10 %s" % d, "Z 10 %s" % d, "F 10 %s 0 200000" % d, "G 10 200", "X 10"]
    # one handle: convert, static size around the exact size, convert again, then the text streamed
    ops += ["O 20 %d %d %d" % (f, t, fl), "V 20 %s %d" % (d, rng.randrange(2)), "S 20 %s =0" % d, "S 20 %s =-1" % d,
            "S 20 %s =%d" % (d, rng.choice([1, 2, 7])), "S 20 %s =-%d" % (d, rng.choice([2, 3, 4, 5, 6])),
            "V 20 %s %d" % (d, rng.randrange(4)), "S 20 %s 0" % d, "Z 20 %s" % d, "S 20 %s =0" % d, "F 20 %s 0 200000" % d, "G 20 200", "X 20"]
    return ops


def c12(E, tier, rng):
    # interleavings in one thread
    cases = []
    n = 500 if tier == "quick" else 8000
    for j in range(n):
        k = rng.choice([2, 2, 3])
        hs = []
        for r in range(k):
            e = rng.choice(STATEFUL) if rng.random() < .7 else rng.choice(ref.ALL)
            if r and rng.random() < .4:
                f, t = hs[0][0], hs[0][1]
            else:
                f, t = pair(rng, e)
            fl = int(rng.random() < .3)
            hs.append((f, t, history(f, t, rng, fl, 4), fl))
        ops = []
        for r, (f, t, hist, fl) in enumerate(hs):     # each alone
            ops += ["O %d %d %d %d" % (r, f, t, fl)] + [re_h(o, r) for o in hist] + ["R %d 100" % r, "X %d" % r]
        todo = {r: ["O %d %d %d %d" % (r + 10, hs[r][0], hs[r][1], hs[r][3])] + [re_h(o, r + 10) for o in hs[r][2]]
                   + ["R %d 100" % (r + 10)] for r in range(k)}
        while any(todo.values()):                     # interleaved, with lookups and other handles in between
            r = rng.choice([r for r in todo if todo[r]])
            ops.append(todo[r].pop(0))
            x = rng.random()
            if x < .1:
                ops.append("L " + hx(rng.choice([b"UTF-8", b"nonsense", b"EUC-JP"])))
            elif x < .2:
                e = rng.choice(STATEFUL)
                ops += ["O 9 %d 6 0" % e, "C 9 %s 100" % hx(ref.text(e, rng, 3)), "X 9"]
        ops += ["X %d" % (r + 10) for r in range(k)]
        encs = {6} | {x for f, t, _, _ in hs for x in (f, t)}
        encs |= {int(o.split()[2]) for o in ops if o.startswith("O 9")}
        cases.append(Case("i%d" % j, ops, encs))
    # every encoding once more: two handles with different texts, turn and turn about
    for e in ref.ALL:
        for d in (0, 1):
            f, t = (e, 6) if d else (6, e)
            hs = [history(f, t, rng, 0, 3, tlen=(3, 5)) + ["R 0 100"] for _ in range(2)]
            ops = []
            for r in (0, 1):
                ops += ["O %d %d %d 0" % (r, f, t)] + [re_h(o, r) for o in hs[r]] + ["X %d" % r]
            ops += ["O 10 %d %d 0" % (f, t), "O 11 %d %d 0" % (f, t)]
            for k in range(max(map(len, hs))):
                ops += [re_h(hs[r][k], 10 + r) for r in (0, 1) if k < len(hs[r])]
            cases.append(Case("e%d.%d" % (e, d), ops + ["X 10", "X 11"], [6, e]))
    E.scripts("Relate", cases, hdr={"mode": "exact", "windows": 0})
    # concurrent threads, each with its own handles
    par = []
    for e in ref.ALL:
        ops = ["O 0 %d 6 0" % e, "C 0 %s 2000" % hx(text_for(e, 6, rng, 5)), "R 0 100", "X 0"]
        ops += ["O 0 6 %d 1" % e, "C 0 %s 2000" % hx(ref.u32(ref.chars(e, rng, 5))), "R 0 100", "X 0"]
        par.append(Case("a%d" % e, ops, [e, 6]))
    for j in range(120 if tier == "quick" else 800):
        e = rng.choice(STATEFUL) if rng.random() < .7 else rng.choice(ref.ALL)
        f, t = pair(rng, e)
        fl = int(rng.random() < .3)
        data = text_for(f, t, rng, 4)
        ops = ["O 0 %d %d %d" % (f, t, fl)] + history(f, t, rng, fl, 3) + ["R 0 100", "Z 0 %s" % hx(data), "S 0 %s 64" % hx(data), "X 0"]
        ops += ["P %d %d %d %s" % (f, t, fl, hx(data)), "L " + hx(rng.choice([b"UTF-8", b"nonsense", b"EUC-JP", b"iso-2022-kr"]))]
        ops += ["o 1 i %s %s 0" % (hx(b"UTF-8"), hx(rng.choice([b"EUC-KR//IGNORE", b"BIG5", b"none"])))]
        par.append(Case("t%d" % j, ops, [f, t]))
    E.threads(par, rounds=3 if tier == "quick" else 20)


def re_h(op, h):
    p = op.split(" ")
    p[1] = str(h)
    return " ".join(p)


def c13(E, tier, rng):
    groups = []
    for e in ref.ALL:
        if ref.kind(e) in ("table", "compose", "pend"):
            groups.append((30, [e], ["Q %d 0 4351" % e]))
        else:
            for k in range(0, 256, 16):
                groups.append((60, [e], ["Q %d %d %d" % (e, k, k + 15)]))
            groups.append((60, [e], ["Q %d %d %d" % (e, a, b) for a, b in ((0, 2), (0x20, 0x21), (0x30, 0x31), (0x4e, 0x4f), (0xac, 0xac), (0xd7, 0xd8), (0xdf, 0xe0),
                                                                        (0xfe, 0x101), (0xdff, 0xe01), (0x10ff, 0x1100))]
                           + ["Q %d %d %d" % (e, p, p) for p in rng.sample(range(0x1100), 6 if tier == "quick" else 300)]))
    E.sweeps(groups, "asan")
    cases = []
    per = 14 if tier == "quick" else 200
    odd = [0xe0000, 0xe0001, 0xe0020, 0xe0061, 0xe006a, 0xe007f, 0xe0080, 0xdffff, 0xfffd, 0x10ffff, 0x20ac, 0x3042, 0x1f600, 0xe9, 0x5d0, 0x110000]
    for e in ref.ALL:
        heavy = ref.kind(e) != "table"
        for j in range(per * (2 if heavy else 1)):
            fl = int(rng.random() < .2)
            ops = ["O 0 6 %d %d" % (e, fl)]
            for _ in range(rng.randrange(1, 4)):
                cs = [rng.choice(odd) if rng.random() < .4 else ref.char(e, rng) for _ in range(rng.randrange(1, 7))]
                ops.append("C 0 %s %d" % (hx(ref.u32(cs)), rng.choice([2000, 2000, 2000, 4, 2])))
                if rng.random() < .3:
                    ops.append("R 0 100")
            ops.append("R 0 100")
            cases.append(Case("u%d.%d" % (e, j), ops, [6, e]))
            if j % 4 == 0:
                # a buffered character flushed into a target that may not have it
                f = rng.choice(ref.COMPOSE + ref.PEND + [193])
                ops = ["O 0 %d %d %d" % (f, e, fl), "C 0 %s 2000" % hx(ref.text(f, rng, 3)), "R 0 %d" % rng.choice([0, 1, 2, 100]), "R 0 100"]
                cases.append(Case("f%d.%d" % (e, j), ops, [f, e]))
    E.scripts("Script", cases)


def c14(E, tier, rng):
    cat = ref.catalog()
    skip = {bytes(k["match"]["name"]) for k in E.all_known()}
    al = [(bytes(a[0]), a[1]) for a in cat["alias"] if bytes(a[0]) not in skip]
    byenc = {}
    for a, e in al:
        byenc.setdefault(e, []).append(a)
    cpo = {}
    for c, e in cat["cp"]:
        cpo.setdefault(e, []).append(c)
    cases = []

    encs = sorted(byenc)
    n = 4 if tier == "quick" else 60
    for e in encs:
        for j in range(n):
            o = rng.choice([6, 1, 0, 8, rng.choice(encs)])
            f, t = (e, o) if j % 2 else (o, e)
            fl = rng.randrange(2)
            hist = history(f, t, rng, fl, 3) + ["R 0 100"]
            fn, tn = decorated(rng.choice(byenc[f]), rng), decorated(rng.choice(byenc[t]), rng)
            ops = ["L " + hx(fn), "L " + hx(tn)]
            ops += ["O 0 %d %d %d" % (f, t, fl)] + hist + ["X 0"]
            ops += ["o 10 n %s %s %d" % (hx(fn), hx(tn), fl)] + [re_h(x, 10) for x in hist] + ["X 10"]
            ign = rng.choice([b"//IGNORE", b"//ignore", b"//Ignore", b"//TRANSLIT//IGNORE", b"/x//IGNORE", b"//IG-NORE", b"//NON_IDENTICAL//ignore"])
            non = rng.choice([b"", b"", b"//TRANSLIT", b"/", b"//", b"//IGNOR", b"/IGNORE", b"//X", b"//NOIGNORE", b"/TRANSLIT/", b"//TRANSLITIGNORE"])
            non2 = rng.choice([b"", b"//TRANSLIT", b"/", b"//IGNOR", b"//ignor/e"])
            if fl:
                fs, ts = (ign, non2) if rng.random() < .35 else (non2, ign)
            else:
                fs, ts = non2, non
            ops += ["o 20 i %s %s 0" % (hx(fn + fs), hx(tn + ts))] + [re_h(x, 20) for x in hist] + ["X 20"]
            if f in cpo and t in cpo:
                fc, tc = rng.choice(cpo[f]), rng.choice(cpo[t])
                ops += ["l %d" % fc, "l %d" % tc, "o 30 c %s %s %d" % (hx(str(fc).encode()), hx(str(tc).encode()), fl)]
                ops += [re_h(x, 30) for x in hist] + ["X 30"]
            cases.append(Case("p%d.%d" % (e, j), ops, [f, t]))
    # failures: unknown on either side, of any length and content
    for j in range(60 if tier == "quick" else 1000):
        ops = ["L " + hx(b"UTF-8"), "L " + hx(b"EUC-KR"), "l 65001", "l 949"]
        for _ in range(12):
            m = rng.choice([0, 1, 5, 38, 39, 40, 41, 60, 128, 129, 500, 5000])
            bad = rng.choice([b"X" * m, b"-" * m, b"\xff" * m, bytes(rng.randrange(1, 256) for _ in range(m % 300)), b"UTF-8X", b"/UTF-8", b" UTF-8", b"//IGNORE",
                              b"UTF8" + b"\x80" * m, b"A" * m + b"//IGNORE"])
            if rng.random() < .2:
                bad = b"-" * m + b"utf8" + b"_" * m + rng.choice([b"", b"//" + b"x" * m, b"//IGNORE"])
            ok = rng.choice([b"UTF-8", b"utf8//IGNORE", b"euc-kr", b"EUC-KR//" + b"y" * m])
            a, b = rng.choice([(bad, ok), (ok, bad), (bad, bad)])
            kd = rng.choice(["n", "i", "i"])
            ops.append("L " + hx(bad if kd == "n" else bad.split(b"/")[0]))
            ops.append("L " + hx(ok if kd == "n" else ok.split(b"/")[0]))
            ops.append("o 1 %s %s %s %d" % (kd, hx(a), hx(b), rng.randrange(2)))
            c = rng.choice([-1, 0, 7, 65536, 99999, -65001, 2147483647, -2147483648, 1, 65002])
            ops.append("l %d" % c)
            x, y = rng.choice([(c, 65001), (949, c), (c, c)])
            ops.append("o 1 c %s %s 0" % (hx(str(x).encode()), hx(str(y).encode())))
        cases.append(Case("x%d" % j, ops, []))
    E.scripts("Relate", cases, hdr={"mode": "exact", "windows": 0})
    # exactly what look-up finds can be opened, on either side: names with every byte behind every prefix, every code page
    pres = sorted({bytes(a)[:k] for a, _ in cat["alias"] for k in range(len(a) + 1)} - {p for k in skip for p in (k, k[:-1])})
    if tier == "quick":
        pres = rng.sample(pres, 900)
    pres += [decorated(p, rng) for p in rng.sample(pres, len(pres) // 8)]
    E.sweeps([(1, [], ["M " + hx(p)]) for p in pres] + [(50, [], ["m -70000 140000", "m -2147483648 -2147480000", "m 2147480000 2147483646"])])


def shift_words(k, depth):
    """all words over the family's shift sequences and a few data bytes, up to a length"""
    data = [b"!!", b"A", b"\n"]
    al = list(dict.fromkeys(ref.ESC[k])) + data + ([b"\x1b$)B", b"\x80"] if k != "hz" else [b"~x", b"\x80"])
    words = [[a] for a in al]
    allw = list(words)
    for _ in range(depth - 1):
        words = [w + [a] for w in words for a in al]
        allw += words
    return [b"".join(w) for w in allw]


def shift_bases(e):
    """prefixes that select each character set of a shift encoding"""
    k = ref.kind(e)
    bases = [b""] + sorted({x for x in ref.ESC[k] if x[:1] in b"\x1b~" and len(x) <= 4 and x[1:2] not in b"NO~\n"})
    if k in ("cn", "cnext", "kr"):
        bases = [b""] + [x + b"\x0e" for x in bases if x[1:3] == b"$)"] + [b"\x1b$*H"] + ([b"\x1b$+" + bytes([c]) for c in b"IJKLM"] if k == "cnext" else [])
    return bases


def shift_rows(e, lead):
    """decode rows behind each lead byte in each character set of a shift encoding, and behind its escape prefixes"""
    k = ref.kind(e)
    out = []
    for b in shift_bases(e):
        cmds = ["W %d %s %s 1" % (e, hx(b), x) for x in ("-", "1b", "1b24", "1b28", "1b2428", "1b2429", "7e", "1b2e", "1b4e", "1b242a", "1b242b")]
        for c in lead:
            cmds.append("W %d %s %02x 1" % (e, hx(b), c))
            if k in ("cn", "cnext") and b[1:3] in (b"$*", b"$+"):
                cmds.append("W %d %s %s 1" % (e, hx(b), (b"\x1bN" if b[2:3] == b"*" else b"\x1bO").hex() + "%02x" % c))
        out.append((len(cmds), [e, 6], cmds))
    return out


def c15(E, tier, rng):
    model_check(E, tier, rng, both_ways(rng.sample(ref.SHIFT, 5 if tier == "quick" else 9), rng), ncaps=2, npieces=6)
    cases = []
    for e in ref.SHIFT:
        k = ref.kind(e)
        ws = shift_words(k, 3)
        cap = 1200 if tier == "quick" else 10 ** 9
        if len(ws) > cap:
            ws = rng.sample(ws, cap)
        for c in range(0, len(ws), 6):
            ops = []
            for w in ws[c:c + 6]:
                ops += ["O 0 %d 6 0" % e, "C 0 %s 500" % hx(w + rng.choice([b"", b"!!A", b"0!", b"\x1b"])), "R 0 50"]
            cases.append(Case("w%d.%d" % (e, c), ops, [e, 6]))
        per = 350 if tier == "quick" else 6000
        for j in range(per):
            fl = int(rng.random() < .2)
            if j % 2:
                ops = ["O 0 %d 6 %d" % (e, fl)]
                for _ in range(rng.randrange(1, 4)):
                    ops.append("C 0 %s 2000" % hx(ref.text(e, rng, rng.randrange(2, 10))))
                    if rng.random() < .3:
                        ops += ["R 0 %d" % r for r in rng.choice([[100], [100], [0, 100], [1, 100], [2, 3, 100], [0, 4], [-1], [3]])]
            else:
                ops = ["O 0 6 %d %d" % (e, fl)]
                for _ in range(rng.randrange(1, 4)):
                    ops.append("C 0 %s %d" % (hx(ref.u32(enc_chars(e, rng, rng.randrange(2, 10)))), rng.choice([2000, 2000, 9])))
                    if rng.random() < .3:
                        ops += ["R 0 %d" % r for r in rng.choice([[100], [100], [0, 100], [1, 100], [2, 3, 100], [0, 4], [-1], [3]])]
            ops += ["R 0 %d" % r for r in rng.choice([[100], [0, 100], [1, 100], [2, 100], [3, 100], [4, 100]])] + ["R 0 100"]
            cases.append(Case("s%d.%d" % (e, j), ops, [e, 6]))
        # language tags and every ordered pair of component sets
        if k == "jp2":
            for j in range(150 if tier == "quick" else 3000):
                cs = []
                for _ in range(rng.randrange(2, 6)):
                    r = rng.random()
                    if r < .4:
                        tg = list(rng.choice(list(ref.TAGS.values())))
                        cs += tg[:rng.choice([1, 2, 3, 3, 3])]
                    if r < .7:
                        cs.append(rng.choice(rng.choice(ref.classes(k))))
                    cs += rng.choice([[0x4e00], [0x4e9c], [0xac00], [0x3b1], [0xe9], [0x41], [10], [0x9fa5], [0xff71], [0x5159]])
                cases.append(Case("t%d" % j, ["O 0 6 %d 0" % e, "C 0 %s 2000" % hx(ref.u32(cs)), "R 0 50"], [e, 6]))
    E.scripts("Script", cases)
    # every two-byte code of every set, selected by its escape sequence (rows of the decode trie)
    groups = []
    for e in ref.SHIFT:
        k = ref.kind(e)
        groups += shift_rows(e, range(0x21, 0x7f) if tier == "thorough" else sorted({0x21, 0x22, 0x7e, 0x74} | set(rng.sample(range(0x21, 0x7f), 3))))
        pages = [0, 3, 4, 0x20, 0x21, 0x22, 0x25, 0x30, 0x4e, 0x9f, 0xac, 0xd7, 0xff, 0x1f6, 0xe00] + rng.sample(range(0x100), 10 if tier == "quick" else 200)
        if k in ("cn", "cnext", "jp3"):
            pages += rng.sample(range(0x200, 0x300), 4 if tier == "quick" else 200)
        groups.append((3 * len(pages), [e, 6], ["E %d %d %d 1 0" % (e, p, p) for p in sorted(set(pages))]))
    E.sweeps(groups, "asan")
    # the same in every shift state, as digests: all rows of the decoder, all pages of the encoder behind a character of each set
    groups = []
    for e in ref.SHIFT:
        k = ref.kind(e)
        for b in shift_bases(e):
            ps = ["%02x" % c for c in range(0x20, 0x80)] + ["80", "8e", "a1", "fe", "ff"]
            if k in ("cn", "cnext") and b[1:3] in (b"$*", b"$+"):
                ps += [(b"\x1bN" if b[2:3] == b"*" else b"\x1bO").hex() + "%02x" % c for c in range(0x21, 0x7f)]
            for j in range(0, len(ps), 50):
                groups.append((300, [e, 6], ["u %d 0 %s %s" % (e, hx(b), " ".join(ps[j:j + 50]))]))
        before = [[rng.choice(c)] for c in ref.classes(k)] + [[0x41]]
        before += [x + y for x in rng.sample(before, min(len(before), 4)) for y in ([10], [0x41, 13], rng.choice(before))]
        if k == "jp2":
            before += [list(t) for t in ref.TAGS.values()]
        full = set(rng.sample(range(len(before)), 2 if tier == "quick" else len(before)))
        for j, x in enumerate(before):
            step = 1 if j in full else 8
            for lo in (range(0, 256, 64) if step == 1 else [rng.randrange(step)]):
                groups.append((400, [e, 6], ["U %d 0 %d %d %d %s" % (e, lo, lo + 63 if step == 1 else 255, step, hx(ref.u32(x)))]))
            if k in ("cn", "cnext", "jp3"):
                groups.append((200, [e, 6], ["U %d 0 %d %d 16 %s" % (e, 0x200 + rng.randrange(16), 0x2ff, hx(ref.u32(x)))]))
    E.sweeps(groups, "opt")


# the combining marks of CP1255, CP1258 and TCVN as bytes
COMB = {72: list(range(0xc0, 0xd4)), 75: [0xcc, 0xd2, 0xde, 0xec, 0xf2], 105: [0xb0, 0xb1, 0xb2, 0xb3, 0xb4]}


def c16(E, tier, rng):
    es = ref.COMPOSE + ref.PEND + [193]
    model_check(E, tier, rng, both_ways(rng.sample(es, 6 if tier == "quick" else 10), rng), ncaps=3, npieces=5)
    cases = []
    per = 260 if tier == "quick" else 4000
    for e in ref.COMPOSE + ref.PEND + [193]:
        for j in range(per):
            fl = int(rng.random() < .2)
            w = lambda r: r.choice([2000, 2000, 0, 1, 2, 3, 4, 5, 6])
            if j % 2:
                t = rng.choice([6, 1, 0, e, 14])
                ops = ["O 0 %d %d %d" % (e, t, fl)]
                for _ in range(rng.randrange(1, 5)):
                    ops.append("C 0 %s %d" % (hx(ref.text(e, rng, rng.randrange(1, 6))), w(rng)))
                    if rng.random() < .5:
                        ops += ["A 0 %d" % w(rng), "A 0 2000"]
                    if rng.random() < .3:
                        ops.append("R 0 %d" % rng.choice([-1, 0, 1, 2, 3, 100]))
            else:
                t = e
                ops = ["O 0 6 %d %d" % (e, fl)]
                for _ in range(rng.randrange(1, 5)):
                    cs = []
                    for _ in range(rng.randrange(1, 5)):
                        x = ref.tab(191 if e == 193 else e)
                        if "pairs" in x and rng.random() < .6:
                            p = rng.choice(x["pairs"])[:2]
                            cs += p[:rng.choice([1, 2, 2])]
                        elif "comp" in x and rng.random() < .6:
                            p = rng.choice(x["comp"])
                            cs += rng.choice([p[:2], [p[2]], p[:1]])
                        else:
                            cs.append(ref.char(e, rng))
                    ops.append("C 0 %s %d" % (hx(ref.u32(cs)), w(rng)))
                    if rng.random() < .5:
                        ops += ["A 0 %d" % w(rng), "A 0 2000"]
                    if rng.random() < .3:
                        ops.append("R 0 %d" % rng.choice([-1, 0, 1, 2, 3, 100]))
            ops += ["R 0 %d" % rng.choice([0, 1, 2, 3]), "R 0 100"]
            cases.append(Case("s%d.%d" % (e, j), ops, [e, 6, t]))
        # every pair, alone and with a neighbour, in both directions
        x = ref.tab(191 if e == 193 else e)
        if "pairs" in x:
            for n, p in enumerate(x["pairs"]):
                a, b = p[:2]
                ops = []
                for cs in ([a, b], [a], [a, a, b], [a, 0x41], [b], [a, 0x1f600, b], [a, b, b]):
                    ops += ["O 0 6 %d 1" % e, "C 0 %s 100" % hx(ref.u32(cs)), "R 0 100", "X 0"]
                if e != 193:
                    ops += ["O 0 %d 6 0" % e, "C 0 %s 100" % hx(p[2]), "C 0 %s 4" % hx(p[2]), "C 0 %s 4" % hx(b"A"), "R 0 100"]
                cases.append(Case("p%d.%d" % (e, n), ops, [e, 6]))
    groups = []
    for e in ref.COMPOSE:
        groups += [(16, [e, 6], ["W %d %02x - 1" % (e, a) for a in range(b, b + 16)]) for b in range(0, 256, 16)]
        # all pairs of bytes, flush at the end
        for a in range(0, 256):
            ops = []
            bs = range(256) if tier == "thorough" else sorted(set(rng.sample(range(128, 256), 14)) | {0x41, 0x61, 0xcc, 0xd2, 0xde, 0xec, 0xf2, 0xb0, 0xb1, 0xb2, 0xb3, 0xb4, 0xc8, 0xd1})
            for b in bs:
                ops += ["R 0 -1", "C 0 %02x%02x 100" % (a, b), "R 0 100"]
            cases.append(Case("y%d.%d" % (e, a), ["O 0 %d 6 0" % e] + ops, [e, 6]))
    E.scripts("Script", cases)
    E.sweeps(groups, "asan")
    # a third byte or character, every one, behind what holds a character back; in one call, byte by byte, in growing windows
    groups = []
    quick = tier == "quick"
    for e in ref.COMPOSE + ref.PEND + [193]:
        x = ref.tab(191 if e == 193 else e)
        if e in ref.COMPOSE:
            comp = x["comp"]
            ps = [bytes([rng.randrange(256), rng.randrange(128, 256)]) for _ in range(150)] if quick else [bytes([a, b]) for a in range(256) for b in range(256)]
            ps += [bytes([a, b]) for a in rng.sample(range(0xc0, 0x100), 12) + rng.sample(range(0x41, 0x7b), 6) for b in COMB[e]]
            bases = [c[:k] for c in rng.sample(comp, 6 if quick else len(comp)) for k in (1, 2)]
        else:
            bases = [y for p in x["pairs"] for y in ([p[0]], [p[0], p[0]], [p[0], p[1]], [p[1]], [p[0], 0x41])]
            bases = [list(y) for y in sorted({tuple(y) for y in bases})]
            ps = []
            if e != 193:
                for p in x["pairs"]:
                    c = bytes(p[2])
                    ps += [c, c + b"A", c + c, c + c[:1], b"A" + c, c + b"\xa4"]
            else:
                for p in x["pairs"]:
                    c = bytes(y & 0x7f for y in p[2])
                    esc = b"\x1b$(O"
                    if len(c) == 2:
                        ps += [esc + c, esc + c + c, esc + c + c[:1], esc + c + b"\x1b(B"]
            ps = list(dict.fromkeys(ps))
        for m in (0, 1, 2):
            sub = ps if m == 0 or not quick else rng.sample(ps, min(len(ps), 40))
            for k in range(0, len(sub), 40):
                groups.append((200, [e, 6], ["u %d %d - %s" % (e, m, " ".join(hx(p) for p in sub[k:k + 40]))]))
        for b in bases:
            for m in (0, 2):
                pages = sorted({0, 1, 2, 3, 0x1e, 0x30, 0x31} | set(rng.sample(range(0x100), 3 if quick else 60)))
                groups.append((60, [e, 6], ["U %d %d %d %d 1 %s" % (e, m, p, p, hx(ref.u32(b))) for p in pages]))
    E.sweeps(groups)


def c17(E, tier, rng):
    al = {}
    for a, e in ref.catalog()["alias"]:
        al.setdefault(e, []).append(bytes(a))
    skip = {bytes(k["match"]["name"]) for k in E.all_known()}
    one = E.histories("Memory", {"depth": 3, "slots": 1, "names": [0, 1, 2, 3], "texts": [0, 1, 2]}, 8)
    two = E.histories("Memory", {"depth": 3 if tier == "quick" else 4, "slots": 2, "names": [0], "texts": [0, 2] if tier == "quick" else [0]}, 8)
    E.notes["model_histories"] = len(one) + len(two)
    n = 9000 if tier == "quick" else 60000
    hists = rng.sample(one, min(n, len(one))) + rng.sample(two, min(n // 2, len(two)))
    E.notes["model_histories_replayed"] = len(hists)
    cases = []
    for k in range(0, len(hists), 25):
        e = rng.choice(STATEFUL) if rng.random() < .5 else rng.choice(ref.ALL)
        f, t = pair(rng, e)
        fl = int(rng.random() < .3)
        fn = [x for x in al[f] if x not in skip][0]
        tn = [x for x in al[t] if x not in skip][0]
        good = text_for(f, t, rng, 3)
        texts = [good, good + text_for(f, t, rng, 2)[:-1] + b"\xff", b"" if rng.random() < .5 else text_for(f, t, rng, 200)]
        ops = []
        for h in hists[k:k + 25]:
            used = set()
            for o, sl, fault, arg in h:
                if fault:
                    ops.append("J %d" % fault)
                if o in ("open", "iconv"):
                    used.add(sl)
                if o == "open":
                    ops.append(rng.choice(["O %d %d %d %d" % (sl, f, t, fl), "o %d n %s %s %d" % (sl, hx(fn), hx(tn), fl)]))
                elif o == "iconv":
                    a, b = [(fn, tn), (fn, tn + b"//IGNORE"), (fn, b"NONE-SUCH//IGNORE"), (b"X" * 300, tn)][arg]
                    ops.append("o %d i %s %s 0" % (sl, hx(a), hx(b)))
                elif o == "convert":
                    ops.append("V %d %s %d" % (sl, hx(texts[arg]), rng.choice([0, 0, 1, 1, 3])))
                elif o == "use":
                    ops += ["C %d %s %d" % (sl, hx(texts[arg]), rng.choice([2000, 4])), "R %d -1" % sl] + (["Z %d %s" % (sl, hx(texts[arg]))] if rng.random() < .3 else [])
                elif o == "cpp":
                    ops.append("P %d %d %d %s" % (f, t, fl, hx(texts[arg])))
                else:
                    ops.append("X %d" % sl)
                    used.discard(sl)
            # whatever happened, the handle still works, and in the end nothing is left
            for sl in sorted(used):
                ops += ["V %d %s 0" % (sl, hx(good)), "X %d" % sl]
        cases.append(Case("m%d" % k, ops, [f, t]))
    # the names, in and out of the catalogue, with every allocation failing in turn
    for j in range(120 if tier == "quick" else 2000):
        e = rng.choice(ref.ALL)
        a = rng.choice(al[e])
        if a in skip:
            continue
        ops = []
        for k in range(0, 6):
            o = rng.choice([b"UTF-8", b"UTF-16//IGNORE", b"none", a])
            ops += (["J %d" % k] if k else []) + ["o 1 %s %s %s 0" % (rng.choice("nii"), hx(a), hx(o)), "X 1"] + ["L " + hx(a)]
        cases.append(Case("n%d" % j, ops, [e, 1, 8]))
    E.scripts("Script", cases, variant="mem")


def c18(E, tier, rng):
    E.consts()
    # the Encoding class on every code page and on the names of the catalogue and around them
    pres = {bytes(a)[:k] for a, _ in ref.catalog()["alias"] for k in range(len(a) + 1)}
    odd = [bytes(k["match"]["name"]) for k in E.all_known()]      # reported by C01
    pres = {p for p in pres if not any(p in (k, k[:-1]) for k in odd)}
    pres = sorted(pres) if tier != "quick" else rng.sample(sorted(pres), 1200)
    pres += [decorated(p, rng) for p in rng.sample(pres, 150 if tier == "quick" else 1500)]
    E.sweeps([(1, [], ["n " + hx(p)]) for p in pres] + [(50, [], ["d -70000 140000", "d -2147483648 -2147480000", "d 2147480000 2147483646"])])
    al = {}
    for a, e in ref.catalog()["alias"]:
        al.setdefault(e, []).append(bytes(a))
    skip = {bytes(k["match"]["name"]) for k in E.all_known()}
    cases = []
    # each constant selects its encoding: what the index says is what the handle does, in both directions,
    # through the index functions, the C++ function and an iconv program
    for e in ref.ALL:
        for j in range(2 if tier == "quick" else 12):
            f, t = pair(rng, e)
            fn = rng.choice([x for x in al[f] if x not in skip])
            tn = rng.choice([x for x in al[t] if x not in skip])
            s = text_for(f, t, rng, 6)
            bad = s + text_for(f, t, rng, 3)[:-1] + b"\xff" + s
            ops = []
            for fs, ts in ((b"", b""), (b"", b"//IGNORE"), (b"//IGNORE", b""), (b"", b"//TRANSLIT"), (b"", b"//ignore")):
                a, b = (fn + fs, tn + ts) if rng.random() < .5 else (decorated(fn, rng) + fs, decorated(tn, rng) + ts)
                ops += ["o 0 w %s %s 0" % (hx(a), hx(b))]
                for x in (s, bad):
                    ops += ["C 0 %s 2000" % hx(x), "A 0 2000", "R 0 %d" % rng.choice([-1, 100, 100])]
                ops += ["C 0 %s %d" % (hx(s), rng.choice([0, 1, 3, 5, 9])), "A 0 2000", "R 0 0", "R 0 100", "X 0"]
            ops += ["o 0 w %s %s 0" % (hx(fn + b"\x01"), hx(tn)), "o 0 w %s %s 0" % (hx(fn), hx(b"X-" + tn)), "o 0 w 00 %s 0" % hx(tn)] if j == 0 else []
            for x in (s, bad):
                for fl in (0, 1):
                    ops += ["O 0 %d %d %d" % (f, t, fl), "Z 0 " + hx(x), "V 0 %s 0" % hx(x), "S 0 %s 2000" % hx(x), "X 0", "P %d %d %d %s" % (f, t, fl, hx(x))]
            cases.append(Case("k%d.%d" % (e, j), ops, [f, t]))
    E.scripts("Script", cases)


def c19(E, tier, rng):
    cats = []
    # first: one odd character (letter case or non-ASCII boundary) at each place of a name, in each corner of the catalogue
    place = [(ch, pos) for ch in (0x61, 0x7a, 0x80, 0xff) for pos in (0, 1, 2)]
    corners = [(a, b) for a in (0, -1) for b in (0, -1)]
    fixed = [(ch, pos) + cn for ch, pos in place for cn in (corners if tier != "quick" else [rng.choice(corners)])]
    for n in range(len(fixed) + (12 if tier == "quick" else 160)):
        enc, used, text = [], set(), b"/* catalogue %d */\n" % n
        con = []

        def word(al, lo, hi):
            while True:
                w = bytes(rng.choice(al) for _ in range(rng.randrange(lo, hi)))
                if w.upper() not in used and not w[:1].isdigit():
                    used.add(w.upper())
                    return w
        odd = rng.random() if n >= len(fixed) else 1
        total = rng.choice([1, 1, 2, 3, 7, 30]) if n >= len(fixed) else 3
        for k in range(total):
            names = []
            for _ in range(rng.choice([1, 1, 2, 3, 9]) if n >= len(fixed) else 3):
                nm = bytes(rng.choice(b"ABCXYZ0189:.()+") for _ in range(rng.randrange(1, 9)))
                if odd < .3 and rng.random() < .2:
                    nm += bytes([rng.choice(b"azmq")])
                elif .3 < odd < .45 and rng.random() < .2:
                    nm = nm[:1] + bytes([rng.choice([0x80, 0xe9, 0xff])]) + nm[1:]
                names.append(nm)
            if n < len(fixed) and k == fixed[n][2] % total:
                ch, pos, _, j = fixed[n]
                names[j] = [bytes([ch]) + b"AZ", b"AZ" + bytes([ch]) + b"09", b"A9" + bytes([ch])][pos]
            elif n == len(fixed) and k == 0:
                names.append(bytes(c for c in range(0x21, 0x7f) if c not in b'"\\,%'))
            x = word(b"abcxyz_019", 2, 9)
            c = word(b"ABCXYZ_019", 2, 9)
            con.append(c)
            enc.append({"names": [list(x) for x in names], "id": x.decode(), "con": c.decode()})
            q = lambda b: b'"' + b"".join(b"\\%03o" % y if y >= 128 else bytes([y]) for y in b) + b'"'
            text += b"DEFENCODING((" + (b",\n   " if rng.random() < .5 else b", ").join(q(y) + (b" /* IANA */" if rng.random() < .3 else b"") for y in names) + b"), " + x + b", " + c + b", {a, NULL}, {b, NULL})\n"
            if rng.random() < .4:
                text += b"DEFCODEPAGE(%d, " % rng.randrange(70000) + x + b")\n"
        more = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            a, b = word(b"ABCXYZ_019", 2, 9), rng.choice(con)
            more.append([a.decode(), b.decode()])
            text += b"DEFINDEX(" + a + b", " + b + b")\n"
        cats.append(({"enc": enc, "more": more}, text))
    E.tools(cats)


def c20(E, tier, rng):
    with open(os.path.join(HERE, "spec", "ref", "locale.json")) as f:
        bsd = [bytes(x) for x, _ in json.load(f)["bsd"]]
    q = []
    h = lambda b: "-" if b is None else "x" + b.hex()

    def ask(a, c, g, s="c", info=b"KOI8-R"):
        q.append("L %s %s %s %s %s" % (h(a), h(c), h(g), s, h(info)))

    def variant(n):
        k = rng.randrange(len(n) + 1)
        return rng.choice([n[:k], n + b"x", n + b"@euro", n[:-1] + bytes([n[-1] + 1]), n[:-1] + bytes([n[-1] - 1]), n.swapcase(), n.upper(), n.lower(),
                           n[:k] + bytes([rng.choice(b"._@-aZ0\xe9")]) + n[k:], n.replace(b".", b".."), n.replace(b"_", b"-"), b"x" + n])

    def word():
        r = rng.random()
        if r < .35:
            return rng.choice(bsd)
        if r < .7:
            return variant(rng.choice(bsd)) or b"C"
        if r < .8:
            return rng.choice([b"C", b"POSIX", b"C.UTF-8", b"de_DE", b"de_DE.UTF-8", b"ja_JP.eucJP", b"zh_CN.GB18030", b"sr_RS.UTF-8@latin", b"de_DE@euro", b"a.b.c", b".x", b"x.", b".", b"..", b"@.", b"."])
        return bytes(rng.choice(b"abcXYZ_-.@019\x80\xff/ ") for _ in range(rng.choice([1, 2, 5, 17, 18, 40, 300]))) or b"q"
    # every combination of unset, empty and set, twice: the first that says something counts
    vals = [None, b"", b"da_DK.DIS_8859-15", b"xx_YY.One"]
    for a in vals:
        for c in [None, b"", b"ru_RU.KOI8-R", b"xx_YY.Two"]:
            for g in [None, b"", b"ja_JP.SJIS", b"xx_YY.Three"]:
                for s in "cu":
                    ask(a, c, g, s)
    for n in bsd:
        ask(n, b"C.Wrong1", b"C.Wrong2")
        ask(None, n, b"C.Wrong2", "u")
        ask(b"", b"", n)
        for k in range(1, len(n)):
            ask(n[:k], b"C.Wrong1", None)
    for info in (b"", b"UTF-8", b"ANSI_X3.4-1968", b"ISO-8859-15@euro", b"x" * 200, b"utf8.x", b"\xff"):
        ask(b"de_DE.Wrong", b"C", b"C", "u", info)
    for _ in range(1500 if tier == "quick" else 40000):
        v = [rng.choice([None, b"", word(), word(), word()]) for _ in range(3)]
        ask(*v, rng.choice("cu"), rng.choice([b"KOI8-R", b"UTF-8", word()]))
    pages = ["W 0 70000", "W 4294901760 4294967295"] if tier == "quick" else ["W %d %d" % (k, k + 99999) for k in range(0, 2000000, 100000)] + ["W 4294867296 4294967295"]
    E.locale(q, pages)


CHECKS = {"C%02d" % k: globals()["c%02d" % k] for k in range(1, 21)}
