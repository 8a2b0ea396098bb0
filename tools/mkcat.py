"""Authoring-time: freeze the published names, code pages and index constants from the
declarations in lib/encodings.h.snippet, and classify the encodings into codec families."""
import re, json, subprocess, sys
DUP = set()
src = open("/repo/lib/encodings.h.snippet").read()
src = re.sub(r"/\*.*?\*/", "", src, flags=re.S); src = re.sub(r"//.*", "", src)
encs, aliases, cps = [], {}, {}
for m in re.finditer(r"DEFENCODING\(\((.*?)\)\s*,\s*(\w+)\s*,\s*(\w+)\s*,|DEFCODEPAGE\((\w+)\s*,\s*(\w+)\)", src, flags=re.S):
    if m.group(2):
        encs.append((m.group(2), m.group(3), re.findall(r'"([^"]*)"', m.group(1))))
    else: cps.setdefault(m.group(5), []).append(int(m.group(4), 0))
ids = {e[0]: i for i, e in enumerate(encs)}
UNI = {1:"utf8",2:"ucs2",3:"ucs2be",4:"ucs2le",5:"ucs4",6:"ucs4be",7:"ucs4le",8:"utf16",9:"utf16be",10:"utf16le",11:"utf32",12:"utf32be",13:"utf32le",14:"utf7",15:"ucs2le",16:"ucs2be",17:"ucs4le",18:"ucs4be",19:"c99",20:"java"}
KIND = dict(UNI); KIND.update({31:"gb18030",32:"gb18030",24:"jp",25:"jp1",26:"jp2",27:"jpms",33:"cn",34:"cnext",46:"kr",35:"hz",193:"jp3",72:"compose",75:"compose",105:"compose",39:"pend",40:"pend",41:"pend",42:"pend",191:"pend",192:"pend"})
cat = {"enc": [], "alias": [], "cp": []}
for i, (x, X, al) in enumerate(encs):
    k = KIND.get(i, "table")
    unit = 4 if k.startswith(("ucs4", "utf32")) else 2 if k.startswith(("ucs2", "utf16")) else 1
    cat["enc"].append({"id": x, "name": X, "kind": k, "unit": unit})
    for a in al:
        if a in aliases: print("duplicate", a, aliases[a], i, file=sys.stderr); DUP.add(a)
        aliases[a.replace("-", "").replace("_", "")] = i      # KSC56011987: the later declaration
for a in sorted(aliases): cat["alias"].append([[ord(c) for c in a], aliases[a]])
# first declaration wins? check against library below
for x, l in cps.items():
    for c in l: cat["cp"].append([c, ids[x]])
cat["cp"].sort()
json.dump(cat, open("/verif/spec/ref/catalog.json", "w"), separators=(",", ":"))
print(len(encs), len(aliases), len(cat["cp"]), len({c for c,_ in cat["cp"]}), max(map(len, aliases)))
bad=[a for a in aliases if not re.fullmatch(r"[A-Z0-9.:()+]*", a)]; print(bad)
