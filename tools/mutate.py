"""mutate.py N SEED [file-regex]: development aid, not a check.  Applies N random small mutations to a scratch copy of
/repo, keeps those that compile and pass the stable tests, and runs the checks responsible for the file until one reports."""
import os, random, re, shutil, subprocess, sys, json, time
N, SEED = int(sys.argv[1]), int(sys.argv[2])
PAT = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
W = os.environ.get("MUTDIR", "/tmp/mut")
R = W + "/repo"
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rng = random.Random(SEED)
RESP = [(r"loop_unicode|reiconv_defines", ["C08", "C09", "C10", "C13", "C16", "C07", "C06", "C11"]),
        (r"lib/iconv\.c", ["C14", "C11", "C17", "C01", "C18", "C08"]),
        (r"reiconv\.cpp|\.in$", ["C18", "C11", "C17", "C01"]),
        (r"iso2022|hz\.h", ["C15", "C10", "C06", "C08", "C13"]),
        (r"(utf|ucs)[0-9a-z]*\.h|c99|java", ["C04", "C10", "C08", "C06", "C05", "C09"]),
        (r"cp1255|cp1258|tcvn|hkscs|jisx0213", ["C16", "C02", "C03", "C10", "C08", "C15"]),
        (r"generated|aliases|encodings\.h", ["C01", "C18", "C14"]),
        (r".", ["C02", "C03", "C15", "C08", "C05"])]

def sh(c, t=900, **k):
    return subprocess.run(["timeout", str(t), "bash", "-c", c], capture_output=True, text=True, **k)

def setup():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh("cp -a /repo %s && rm -rf %s/_build && cp -a /opt/vp/cmake %s/cmake && sed -i 's|\"/repo\"|\"%s\"|' %s/cmake/CMakeLists.txt" % (R, R, W, R, W))

def tests():
    r = sh("cmake -S %s/cmake -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON && ninja -C %s/_build" % (W, R, R))
    if r.returncode:
        return "nobuild"
    if sh("ctest --test-dir %s/_build -j8 --timeout 60 --output-junit %s/report.xml" % (R, W), t=200).returncode == 124:
        return "killed"
    x = open(W + "/report.xml").read()
    return "ok" if ' failures="0"' in x or len(re.findall(r'status="fail"', x)) <= BASEFAIL else "killed"

SUBS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![<>=!-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="),
        (r"&&", "||"), (r"\|\|", "&&"), (r"RET_ILSEQ\b", "RET_TOOFEW(0)"), (r"RET_TOOFEW\(0\)", "RET_ILSEQ"),
        (r"RET_ILUNI", "RET_TOOSMALL"), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 2"), (r"!\(", "("), (r"\bbreak;", ";"), (r"\+=", "-=")]

def candidates():
    out = []
    fs = sh("git -C %s ls-files lib include" % R).stdout.split()
    for f in fs:
        if not PAT.search(f) or "locale_charset" in f or not re.search(r"\.(c|h|cpp|in|snippet|shippet)$", f):
            continue
        txt = open(R + "/" + f, encoding="utf-8", errors="surrogateescape").read()
        txt2 = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), txt, flags=re.S)
        here = []
        for n, l in enumerate(txt2.split("\n")):
            if not l.strip() or l.lstrip().startswith(("#", "//", "*")) or re.match(r"^\s*(0x[0-9a-fA-F]+,|\{\s*0x|/\*)", l):
                continue
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    here.append((f, n, l[:m.start()] + b + l[m.end():]))
            if re.search(r"[=(]|return|case", l):
                for m in re.finditer(r"\b(0x[0-9a-fA-F]+|[0-9]+)\b", l):
                    v = int(m.group(1), 0)
                    for w in (v + 1, v - 1):
                        if w >= 0:
                            here.append((f, n, l[:m.start()] + (hex(w) if m.group(1).startswith("0x") else str(w)) + l[m.end():]))
            if re.match(r"^\s+[\w>\-\[\]\.\*]+\s*(=|\+=|\|=|-=)[^=].*;\s*$", l):
                here.append((f, n, re.match(r"^\s*", l).group(0) + ";"))
        if here:
            out.append((f, here))
    return out

setup()
BASEFAIL = 10**9
tests()
BASEFAIL = len(re.findall(r'status="fail"', open(W + "/report.xml").read()))
C = candidates()
print("files", len(C), "candidates", sum(len(h) for _, h in C), "basefail", BASEFAIL, flush=True)
done = 0
tally = {}
while done < N:
    # files with more logic are drawn more often
    f, here = rng.choices(C, weights=[min(60, len(h)) for _, h in C])[0]
    f, n, new = rng.choice(here)
    p = R + "/" + f
    orig = open(p, encoding="utf-8", errors="surrogateescape").read()
    ls = orig.split("\n")
    old = ls[n]
    ls[n] = new
    open(p, "w", encoding="utf-8", errors="surrogateescape").write("\n".join(ls))
    try:
        st = tests()
        if st != "ok":
            tally[st] = tally.get(st, 0) + 1
            continue
        done += 1
        t = time.time()
        by = None
        for c in next(cs for a, cs in RESP if re.search(a, f)):
            open(W + ".now", "w").write("%s %s:%d [%s] -> [%s]" % (c, f, n + 1, old.strip(), new.strip()))
            r = sh("cd %s && python3 check.py %s quick" % (VER, c), env=dict(os.environ, VERIF_REPO=R, VERIF_SEED=str(rng.randrange(1000))))
            if r.returncode == 1:
                by = c
                break
            if r.returncode != 0:
                by = c + "-ERROR " + r.stderr[-300:] + r.stdout[-300:]
                break
        print("%s %s:%d [%s] -> [%s] %.0fs" % ("KILL " + by if by else "SURVIVOR", f, n + 1, old.strip(), new.strip(), time.time() - t), flush=True)
        tally["kill" if by else "survivor"] = tally.get("kill" if by else "survivor", 0) + 1
    finally:
        open(p, "w", encoding="utf-8", errors="surrogateescape").write(orig)
print(tally)
shutil.rmtree(W, ignore_errors=True)
