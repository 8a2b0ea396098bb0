"""Authoring-time tool (no check runs it): freeze the reference character-set tables of the
specification (/verif/spec/ref) from a sweep, after which they are cross-checked against the
published mapping files with tools/xref.py."""
import sys, json, subprocess, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vbuild
from concurrent.futures import ThreadPoolExecutor
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "ref")
exe = vbuild.build("/tmp/vb", ("opt",))["opt"]
UNI = set(range(1, 21)); GB = {31, 32}; SHIFT = {24, 25, 26, 27, 33, 34, 46, 193, 35}

def sweep(cmds):
    r = subprocess.run([exe, "sweep"], input="\n".join(cmds) + "\n", capture_output=True, text=True).stdout
    return [json.loads(l) for l in r.splitlines()]

def trie(rows, maxlen=None):
    """rows: list of dec events in DFS order -> hash-consed nodes, root last"""
    by = {tuple(r["p"]): r for r in rows}
    nodes, memo = [], {}
    def go(p):
        r = by[p]
        row, x = r["row"], r["x"]
        kid = []
        full = row if len(row) == 256 else row * 256
        det = {d[0]: d for d in x}
        ks = [0] * 256
        for b in range(256):
            inc = full[b] == -2 or (full[b] == -3 and det[b][2] == 2)
            if inc and p + (b,) in by:
                ks[b] = go(p + (b,))
        if any(ks): kid = ks if len(set(ks)) > 1 else [ks[0]]
        key = json.dumps([row, x, kid])
        if key not in memo:
            nodes.append({"row": row, "x": x, "kid": kid}); memo[key] = len(nodes)
        return memo[key]
    root = go(tuple(rows[0]["p"]))
    return nodes, root

def pages(evs, lim=4352):
    pg, out, memo = [], [], {}
    for e in evs:
        if e["op"] != "enc" or e["pg"] >= lim: continue
        assert e["t"] == [], e
        row, x = e["row"], e["x"]
        key = json.dumps([row, x])
        if key not in memo:
            out.append({"row": row, "x": x}); memo[key] = len(out)
        while len(pg) <= e["pg"]: pg.append(0)
        pg[e["pg"]] = memo[key]
    return pg, out

def run(i):
    if i in UNI or i in SHIFT: return
    evs = sweep([f"T {i} {2 if i in GB else 4}", f"E {i} 0 4351 1 0"])
    nodes, root = trie([e for e in evs if e["op"] == "dec"])
    pg, pgs = pages(evs, 256 if i in GB else 4352)
    if i not in GB and len(pg) > 0xe00:
        # page 0xE00 (tags) is always reported: drop when it is only tags
        k = pg[0xe00]
        if set(pgs[k - 1]["row"]) <= {-1, -4}:
            pg[0xe00] = 0
            while pg and pg[-1] == 0: pg.pop()
    ref = {"nodes": nodes, "root": root, "pg": pg, "pages": pgs}
    json.dump(ref, open(f"{OUT}/t{i}.json", "w"), separators=(",", ":"))
    return i, len(nodes), len(pgs), os.path.getsize(f"{OUT}/t{i}.json")
tot = 0
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(run, range(198)):
        if r: tot += r[3]; (r[3] > 300000) and print(r)
print(tot)

# ---- GB18030: two-byte trie + BMP pages + the supplementary pages that deviate from the formula,
#      and the four-byte area of the BMP as runs [first index, last index, first character]
def lin(i):
    return [i // 12600 + 0x90, i // 1260 % 10 + 0x30, i // 10 % 126 + 0x81, i % 10 + 0x30]
def pack4(b):
    return -(((b[0] - 128) << 24) | b[1] << 16 | b[2] << 8 | b[3])
for i in GB:
    ref = json.load(open(f"{OUT}/t{i}.json"))
    sup = {e["pg"]: e for e in sweep([f"E {i} 256 4351 1 0"]) if e["op"] == "enc"}
    for p in range(256, 4352):
        e = sup[p]; row = e["row"]
        want = [pack4(lin(p * 256 + k - 0x10000)) for k in range(256)]
        if row != want or e["x"] or e["t"]:
            while len(ref["pg"]) <= p: ref["pg"].append(0)
            ref["pages"].append({"row": row, "x": e["x"]})
            ref["pg"][p] = len(ref["pages"])
            print("gb18030", i, hex(p), [hex(k) for k in range(256) if row[k] != want[k]], e["x"][:3])
    runs = []
    for l in range(0x81, 0x85):
        for b2 in range(0x30, 0x3a):
            rows = {tuple(e["p"]): e for e in sweep([f"W {i} - {l:02x}{b2:02x} 2"])}
            assert rows[(l, b2)]["row"] == [-1] * 0x81 + [-2] * 126 + [-1], (l, b2)
            for b3 in range(0x81, 0xff):
                r = rows[(l, b2, b3)]["row"]
                r = r if len(r) == 256 else r * 256
                assert rows[(l, b2, b3)]["x"] == []
                for b4 in range(256):
                    if not 0x30 <= b4 <= 0x39: assert r[b4] == -1; continue
                    k = ((l - 0x81) * 10 + b2 - 0x30) * 1260 + (b3 - 0x81) * 10 + b4 - 0x30
                    if r[b4] == -1: continue
                    assert r[b4] >= 0
                    if runs and runs[-1][1] == k - 1 and runs[-1][2] + k - runs[-1][0] == r[b4]: runs[-1][1] = k
                    else: runs.append([k, k, r[b4]])
    ref["r4"] = runs
    print(i, len(runs), runs[-1])
    json.dump(ref, open(f"{OUT}/t{i}.json", "w"), separators=(",", ":"))

# ---- the two Microsoft sets that exist only inside ISO-2022-JP-MS
for idx, base, esc in ((1000, "1b2442", [27, 36, 66]), (1001, "1b242844", [27, 36, 40, 68])):
    rows = [e for e in sweep([f"W 27 {base} - 2"]) if e["op"] == "dec"]
    nodes, root = trie(rows)
    pg, pgs, memo = [], [], {}
    for e in sweep(["E 27 0 4351 1 1"]):
        if e["op"] != "enc": continue
        row = [-1] * 256
        for d in e["x"]:
            if d[4][:len(esc)] == esc and len(d[4]) == len(esc) + 2:
                row[d[0]] = d[4][-2] << 8 | d[4][-1]
        if any(v != -1 for v in row):
            pgs.append({"row": row, "x": []})
            while len(pg) <= e["pg"]: pg.append(0)
            pg[e["pg"]] = len(pgs)
    json.dump({"nodes": nodes, "root": root, "pg": pg, "pages": pgs}, open(f"{OUT}/t{idx}.json", "w"), separators=(",", ":"))
    print(idx, len(nodes), len(pgs))

# ---- pairs (one code, two characters) and compositions (two codes, one character)
def paths(ref):
    """all (bytes, cell, detail) leaves with detail"""
    out = []
    def go(nd, p):
        n = ref["nodes"][nd - 1]
        det = {d[0]: d for d in n["x"]}
        for b in range(256):
            if b in det: out.append((p + [b], det[b]))
            k = n["kid"]
            if k:
                c = k[b] if len(k) == 256 else k[0]
                if c: go(c, p + [b])
    go(ref["root"], [])
    return out
for i in (39, 40, 41, 42, 191, 192):
    ref = json.load(open(f"{OUT}/t{i}.json"))
    ref["pairs"] = [[d[4][0], d[5][0], p] for p, d in paths(ref)]
    # every first character is one the encoder holds back, and vice versa
    held = set()
    for pi, k in enumerate(ref["pg"]):
        if k:
            for d in ref["pages"][k - 1]["x"]: held.add(pi * 256 + d[0])
    assert held == {a for a, _, _ in ref["pairs"]}, i
    json.dump(ref, open(f"{OUT}/t{i}.json", "w"), separators=(",", ":"))
for i in (72, 75, 105):
    ref = json.load(open(f"{OUT}/t{i}.json"))
    root = ref["nodes"][ref["root"] - 1]
    raw = list(root["row"])
    for d in root["x"]: raw[d[0]] = d[5][0]
    comp = []
    def level(base, basech, depth):
        ev = sweep([f"W {i} {bytes(base).hex()} - 1"])[0]
        det = {d[0]: d for d in ev["x"]}
        row = ev["row"] if len(ev["row"]) == 256 else ev["row"] * 256
        for b in range(256):
            c = row[b]
            if c >= 0: comp.append([basech, raw[b], c, 0])
            elif c == -3 and det[b][4] == [] and len(det[b][5]) == 1 and det[b][1] == 0:
                comp.append([basech, raw[b], det[b][5][0], 1])
                level(base + [b], det[b][5][0], depth + 1)
    for d in root["x"]: level([d[0]], d[5][0], 1)
    ref["raw"] = raw
    ref["hold"] = sorted({d[5][0] for d in root["x"]})
    u = {}
    for a, b, c, g in comp: assert u.setdefault((a, b), (c, g)) == (c, g)
    ref["comp"] = [[a, b, c, g] for (a, b), (c, g) in sorted(u.items())]
    import unicodedata
    odd = [(hex(a), hex(b), hex(c)) for a, b, c, g in ref["comp"]
           if unicodedata.normalize("NFD", chr(a) + chr(b)) != unicodedata.normalize("NFD", chr(c))]
    print(i, len(ref["comp"]), "not canonical:", odd)
    json.dump(ref, open(f"{OUT}/t{i}.json", "w"), separators=(",", ":"))
