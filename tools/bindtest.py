"""bindtest.py PROP...: development aid, not a check.  Runs the quick check of a property on the unchanged tree, corrupts one
observed field in a sample of the recorded behaviours, and counts how many of the corrupted behaviours TLC rejects.
This shows that the recorded observations bind: a specification that looked away would accept them."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checks, engine
OBS = {"conv": ["ret", "err", "used", "left", "wrote", "oleft", "out"], "reset": ["ret", "err", "wrote", "out"], "open": ["ok"],
       "openx": ["ok", "err"], "size": ["ret", "err"], "static": ["ret", "err", "buf"], "convert": ["ret", "err", "len", "out"],
       "cpp": ["kind", "err", "out"], "lookup": ["ret", "cidx", "clen", "canon"], "cplookup": ["ret", "cidx"], "close": ["ret"],
       "dec": ["row"], "enc": ["row"], "names": ["row"], "codepages": ["runs"], "four": ["runs"], "sub": ["runs"], "const": ["c", "p", "eq"],
       "long": ["o1", "o2", "runs"], "aliases": ["rc", "lines"], "indexes": ["rc", "lines"], "check": ["rc"]}
tally = {}


def corrupt(ev, rng):
    fs = [f for f in OBS.get(ev["op"], []) if f in ev and ev[f] != []]
    if not fs:
        return None
    f = rng.choice(fs)

    def bump(x):
        if isinstance(x, list) and x:
            k = rng.randrange(len(x))
            y = bump(x[k])
            return None if y is None else x[:k] + [y] + x[k + 1:]
        if isinstance(x, int):
            return x + 1 if f not in ("out", "buf", "o1", "o2") else x ^ 1
        return None
    y = bump(ev[f])
    return None if y is None else (f, dict(ev, **{f: y}))


def main():
    real = engine.Engine._judge

    def judge(self, module, hdr, text, nbeh):
        rej = real(self, module, hdr, text, nbeh)
        lines = text.splitlines()
        whole = any(l.startswith('{"op":"case"') for l in lines[:1])
        starts = [k for k, l in enumerate(lines) if l.startswith('{"op":"case"')] if whole else list(range(len(lines)))
        ends = starts[1:] + [len(lines)]
        todo = rng.sample(range(len(starts)), min(len(starts), 60))
        done = {}
        for b in todo:
            evs = [k for k in range(starts[b], ends[b]) if not lines[k].startswith(('{"op":"case"', '{"op":"par"'))]
            for k in rng.sample(evs, len(evs)):
                c = corrupt(json.loads(lines[k]), rng)
                if c:
                    done[b] = (json.loads(lines[k])["op"], c[0], k)
                    lines[k] = json.dumps(c[1], separators=(",", ":"))
                    break
        bad = real(self, module, hdr, "\n".join(lines) + "\n", nbeh)
        hit = {max(s for s in range(len(starts)) if starts[s] <= d["at"] - 2) for d in bad}
        for b, (op, f, k) in done.items():
            t = tally.setdefault((module, op, f), [0, 0, None])
            t[0] += 1
            t[1] += b in hit
            if b not in hit:
                t[2] = lines[k][:300]
        return rej
    engine.Engine._judge = judge
    for p in sys.argv[1:]:
        rng = random.Random(p)
        E = engine.Engine(p, "quick", 1)
        try:
            checks.CHECKS[p](E, "quick", random.Random("%s/1" % p))
        finally:
            E.close()
    for k, (n, h, miss) in sorted(tally.items()):
        print("%-8s %-10s %-6s %4d corrupted %4d rejected %s" % (*k, n, h, "" if n == h else miss))
    print("total", sum(t[0] for t in tally.values()), "rejected", sum(t[1] for t in tally.values()))


main()
