"""Build the library under test from /repo's working tree into a scratch dir.

Everything is taken from /repo (version and source list from its CMakeLists.txt,
public headers from include/*.in); nothing is written under /repo.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")


class BuildError(Exception):
    pass


def _sub(text, vals):
    text = re.sub(r"@([A-Za-z_][A-Za-z0-9_]*)@", lambda m: vals.get(m.group(1), ""), text)
    return re.sub(r"\$\{([A-Za-z_][A-Za-z0-9_]*)\}", lambda m: vals.get(m.group(1), ""), text)


def _read(p):
    with open(p, encoding="utf-8", errors="surrogateescape") as f:
        return f.read()


def _configure(src, dst, vals):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(_sub(_read(src), vals))


def prepare_headers(out):
    top = _read(f"{REPO}/CMakeLists.txt")
    m = re.search(r"project\(cppp-reiconv\s+VERSION\s+([0-9]+)\.([0-9]+)\.([0-9]+)", top)
    if not m:
        raise BuildError("no project version")
    ver = m.groups()
    m = re.search(r"\nset\(SOURCES([^)]*)\)", top)
    if not m:
        raise BuildError("no source list")
    srcs = m.group(1).replace("${CMAKE_CURRENT_SOURCE_DIR}", REPO).split()
    srcs = [s.strip('"') for s in srcs]
    srcs = [s for s in srcs if os.path.normpath(s) != f"{REPO}/lib/locale_charset.c"]
    inc = f"{out}/include"
    v = {"CPPP_API": "", "PROJECT_VERSION": ".".join(ver)}
    _configure(f"{REPO}/include/cppp/reiconv.hpp.in", f"{inc}/cppp/reiconv.hpp", v)
    _configure(f"{REPO}/include/cppp/reiconv.h.in", f"{inc}/cppp/reiconv.h", v)
    vv = dict(v, INDEXES_CODE=_read(f"{REPO}/lib/generated/indexes.hpp.shippet").strip())
    _configure(f"{REPO}/include/cppp/encodings/reiconv.hpp.in", f"{inc}/cppp/encodings/reiconv.hpp", vv)
    vv = dict(v, INDEXES_CODE=_read(f"{REPO}/lib/generated/indexes.h.shippet").strip())
    _configure(f"{REPO}/include/cppp/encodings/reiconv.h.in", f"{inc}/cppp/encodings/reiconv.h", vv)
    _configure(f"{REPO}/include/iconv.h.in", f"{inc}/iconv.h", v)
    # the frozen list of constants, as X-macros; a constant that no longer exists is reported as missing
    with open(os.path.join(os.path.dirname(HARNESS), "spec", "ref", "consts.json")) as f:
        names = [c["n"] for c in json.load(f)]
    have = set(re.findall(r"\bENCODING_(\w+)", _read(f"{inc}/cppp/encodings/reiconv.h")))
    with open(f"{inc}/verif_consts_c.inc", "w") as f:
        f.write("".join("%s(%s)\n" % ("C" if n in have else "MISSING", n) for n in names))
    with open(f"{inc}/verif_consts_p.inc", "w") as f:
        f.write("".join("P(%s)\n" % n for n in names))
    return ver, srcs, inc


def build(out, variants=("opt",), harness="driver.cpp"):
    """Compile library + harness; returns {variant: path-of-executable}."""
    os.makedirs(out, exist_ok=True)
    ver, srcs, inc = prepare_headers(out)
    # NDEBUG as in the project's own build type
    defs = ["-DNDEBUG", f"-DVERSION_MAJOR={ver[0]}", f"-DVERSION_MINOR={ver[1]}", f"-DVERSION_PATCH={ver[2]}"]
    flags = {
        "opt": ["-O2"],
        "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
        "mem": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DVERIF_MEM"],
        "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    }
    link = {"mem": ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]}
    jobs, exes = [], {}
    for var in variants:
        objs = []
        for k, s in enumerate(srcs + [f"{HARNESS}/compat.c", f"{HARNESS}/{harness}"]):
            o = f"{out}/{var}-{k}-{os.path.basename(s)}.o"
            cc = ["gcc", "-std=c17"] if s.endswith(".c") else ["g++", "-std=c++20"]
            jobs.append((cc + flags[var] + ["-w", "-fPIC", f"-I{REPO}/lib", f"-I{inc}"] + defs
                         + ["-c", s, "-o", o]))
            objs.append(o)
        exes[var] = (f"{out}/drv-{var}", objs)

    def run(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stderr[-4000:])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
        # an archive, so that locale_charset.cpp (whose C half cannot be built here) is only
        # linked when referenced -- as in the project's own test build
        list(ex.map(run, [["ar", "rcs", exe + ".a", *objs[:-1]] for exe, objs in exes.values()]))
        list(ex.map(run, [["g++", *flags[v], *link.get(v, []), objs[-1], exe + ".a", "-o", exe, "-lpthread"]
                          for v, (exe, objs) in exes.items()]))
    return {v: e for v, (e, _) in exes.items()}


TOOLS = ("genaliases", "genindexes", "check-encodings")


def build_tools(out, snippet=None):
    """Compile the catalogue tools, against the repository's catalogue or the given one; {tool: executable}."""
    inc = f"{out}/lib"
    os.makedirs(inc, exist_ok=True)
    flags = [f"-I{REPO}/lib"]
    if snippet is not None:
        # a quoted include is searched next to the including file first, so the headers come along
        for h in os.listdir(f"{REPO}/lib"):
            if h.endswith(".h"):
                shutil.copy(f"{REPO}/lib/{h}", f"{inc}/{h}")
        with open(f"{inc}/encodings.h.snippet", "wb") as f:
            f.write(snippet)
        flags = [f"-I{inc}"] + flags
    exes = {}
    for t in TOOLS:
        exes[t] = f"{out}/{t}"
        r = subprocess.run(["g++", "-std=c++20", "-w", "-O0", *flags, f"{REPO}/tools/{t}.cpp", "-o", exes[t]], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
    return exes


# platform -> (kind in the specification, compiler flags)
LOCALES = {
    "linux": ("info", ["-DHAVE_LANGINFO_CODESET=1"]),
    "cygwin": ("info", ["-DHAVE_LANGINFO_CODESET=1", "-D__has_cygwin__=1", "-D__has_windows__=1"]),
    "freebsd": ("info", ["-DHAVE_LANGINFO_CODESET=1", "-D__has_freebsd__=1"]),
    "freebsd-old": ("table", ["-D__has_freebsd__=1"]),
    "unix-old": ("plain", []),
    "haiku": ("utf8", ["-D__has_haiku__=1", "-DHAVE_LANGINFO_CODESET=1"]),
    "beos": ("utf8", ["-D__has_beos__=1"]),
    "android": ("utf8", ["-D__has_android__=1", "-DHAVE_LANGINFO_CODESET=1"]),
    "macos": ("utf8", ["-D__has_macos__=1", "-DHAVE_LANGINFO_CODESET=1", "-D__APPLE__", "-D__MACH__"]),
    "windows": ("win", ["-D__has_windows__=1"]),
    "windows-console": ("win", ["-D__has_windows__=1", "-D_CONSOLE"]),
    "cygwin-old": ("win", ["-D__has_cygwin__=1", "-D__has_windows__=1"]),
}


def build_locale(out):
    """locale_charset() as compiled for each platform, with stand-ins for the platform's headers; {platform: executable}."""
    ver, _, inc = prepare_headers(out)
    defs = ["-DNDEBUG", f"-DVERSION_MAJOR={ver[0]}", f"-DVERSION_MINOR={ver[1]}", f"-DVERSION_PATCH={ver[2]}"]

    def one(item):
        name, (_, flags) = item
        objs = []
        for s in (f"{REPO}/lib/locale_charset.c", f"{REPO}/lib/locale_charset.cpp", f"{HARNESS}/locale.cpp"):
            o = f"{out}/{name}-{os.path.basename(s)}.o"
            cc = ["gcc", "-std=gnu17"] if s.endswith(".c") else ["g++", "-std=c++20"]
            r = subprocess.run(cc + ["-O1", "-g1", "-fsanitize=address", "-w", *flags, f"-I{REPO}/lib", f"-I{inc}", f"-I{HARNESS}/platform", *defs, "-c", s, "-o", o],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError(name + "\n" + r.stderr[-3000:])
            objs.append(o)
        r = subprocess.run(["g++", "-fsanitize=address", "-Wl,--wrap=nl_langinfo", *objs, "-o", f"{out}/{name}"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(name + "\n" + r.stderr[-3000:])
        return name, f"{out}/{name}"
    with ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, LOCALES.items()))
