"""Cross-checks the frozen tables in spec/ref with independent implementations on this machine: glibc's iconv, Python's
codecs and the mapping files of /repo's tests.  Prints, per encoding, how many codes agree and differ (with -v, which).
A development tool, not a check."""
import codecs, ctypes, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ref
libc = ctypes.CDLL(None)
libc.iconv_open.restype = ctypes.c_void_p
libc.iconv_open.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
libc.iconv.restype = ctypes.c_size_t
libc.iconv.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 4
BAD = ctypes.c_void_p(-1).value


class GL:
    def __init__(self, name):
        self.cd = libc.iconv_open(b"UTF-32BE", name.encode())
        self.ce = libc.iconv_open(name.encode(), b"UTF-32BE")
        if self.cd in (None, BAD) or self.ce in (None, BAD):
            raise LookupError(name)

    def run(self, cd, b):
        libc.iconv(cd, None, None, None, None)
        i = ctypes.create_string_buffer(b, len(b) + 1)
        o = ctypes.create_string_buffer(64)
        ip = ctypes.c_void_p(ctypes.addressof(i)); op = ctypes.c_void_p(ctypes.addressof(o))
        il = ctypes.c_size_t(len(b)); ol = ctypes.c_size_t(64)
        r = libc.iconv(cd, ctypes.byref(ip), ctypes.byref(il), ctypes.byref(op), ctypes.byref(ol))
        if r != 0 or il.value:
            return None
        r = libc.iconv(cd, None, None, ctypes.byref(op), ctypes.byref(ol))
        return o.raw[:64 - ol.value]

    def dec(self, b):
        r = self.run(self.cd, b)
        return None if r is None else r.decode("utf-32-be", "surrogatepass")

    def enc(self, c):
        return self.run(self.ce, c.to_bytes(4, "big"))


class PY:
    def __init__(self, name):
        self.n = codecs.lookup(name).name
        if self.n.startswith(("utf", "iso2022", "hz", "punycode", "idna", "unicode", "raw", "charmap", "undefined", "mbcs", "oem")):
            raise LookupError(name)

    def dec(self, b):
        try:
            return b.decode(self.n)
        except (UnicodeError, ValueError):
            return None

    def enc(self, c):
        try:
            return chr(c).encode(self.n)
        except (UnicodeError, ValueError):
            return None


def refdec(e):
    """{bytes: str} of a table"""
    d, out = ref.tab(e), {}

    def go(n, pre):
        nd = d["nodes"][n - 1]
        row = nd["row"] if len(nd["row"]) == 256 else nd["row"] * 256
        kid = nd["kid"] if len(nd["kid"]) == 256 else (nd["kid"] * 256 if nd["kid"] else [0] * 256)
        x = {y[0]: y for y in nd["x"]}
        for b in range(256):
            if kid[b]:
                go(kid[b], pre + bytes([b]))
            elif row[b] >= 0:
                out[pre + bytes([b])] = chr(row[b])
            elif row[b] == -3:
                y = x[b]
                out[pre + bytes([b])] = "".join(chr(c) for c in list(y[4]) + list(y[5]))
            else:
                out[pre + bytes([b])] = None
    go(d["root"], b"")
    return out


def names(e):
    out = []
    for a, i in ref.catalog()["alias"]:
        if i == e:
            out.append(bytes(a).decode())
    return out


def main():
    verbose = "-v" in sys.argv
    want = [int(x) for x in sys.argv[1:] if x.isdigit()]
    for e in want or ref.ALL:
        if ref.kind(e) not in ("table", "compose", "pend"):
            continue
        nm = ref.catalog()["enc"][e]["name"]
        srcs = {}
        cand = names(e) + [nm.replace("_", "-")]
        ext = []
        for n in cand:
            ext += [n, "IBM" + n[6:] if n.startswith("EBCDIC") else n, n.replace("ISO8859", "ISO-8859-"), n.replace("ISO-8859--", "ISO-8859-"), n.replace("MAC", "mac_").lower(), n.replace("EUC", "EUC-"), n.replace("EUC", "euc_").lower(),
                    n.replace("KOI8", "KOI8-"), n.replace("KOI8", "koi8_").lower(), n.replace("BIG5", "BIG5-")]
        if nm.startswith("EBCDIC"):
            ext += ["IBM" + nm[6:], "CP" + nm[6:]]
        for n in ext:
            for cls in (GL, PY):
                if cls not in srcs:
                    try:
                        srcs[cls] = (n, cls(n))
                    except (LookupError, ValueError):
                        pass
        if not srcs:
            print(e, nm, "no independent source")
            continue
        D = refdec(e)
        E = dict(ref.codes(e))
        for cls, (n, s) in srcs.items():
            dd = {b: (w, s.dec(b)) for b, w in D.items()}
            bad = [(b, w, g) for b, (w, g) in dd.items() if w != g and not (w is None and g and len(b) < 4 and s.dec(b) is None)]
            diff = [x for x in bad if x[1] is not None and x[2] is not None]
            more = [x for x in bad if x[1] is not None and x[2] is None]
            less = [x for x in bad if x[1] is None]
            eb = []
            for c in list(range(0xd800)) + list(range(0xe000, 0x10000)) + [c for c in E if c > 0xffff]:
                g = s.enc(c)
                w = E.get(c)
                if g != w:
                    eb.append((c, w, g))
            ed = [x for x in eb if x[1] is not None and x[2] is not None]
            em = [x for x in eb if x[1] is not None and x[2] is None]
            el = [x for x in eb if x[1] is None]
            print(e, nm, cls.__name__, n, "decode: same %d diff %d ours-only %d theirs-only %d | encode: diff %d ours-only %d theirs-only %d" % (len(D) - len(bad), len(diff), len(more), len(less), len(ed), len(em), len(el)), flush=True)
            if verbose:
                f = lambda s: None if s is None else "+".join("%04X" % ord(c) for c in s)
                for b, w, g in (diff[:30] + more[:15] + less[:15]):
                    print("    dec", b.hex(), "ours", f(w), "theirs", f(g))
                for c, w, g in (ed[:30] + em[:15] + el[:15]):
                    print("    enc %04X" % c, "ours", w and w.hex(), "theirs", g and g.hex())


if __name__ == "__main__":
    main()
