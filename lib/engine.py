"""Runs the driver and TLC: shards of recorded events go through a trace specification, every
rejection is confirmed by a second, separate execution before it is reported."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vbuild

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NSHARD = 8


class CheckError(Exception):
    """the check itself could not be carried out"""


class Case:
    def __init__(self, cid, ops, encs):
        self.id, self.ops, self.encs = cid, ops, set(encs)

    def script(self):
        return "K " + self.id + "\n" + "\n".join(self.ops) + "\n"


class Engine:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        self.exes = {}
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.known, self.notes = [], [], {}, {}
        self.kf = self._known()
        self.kf_file = os.path.join(self.tmp, "known.json")
        with open(self.kf_file, "w") as f:
            json.dump([k["match"] for k in self.kf], f)
        self.n = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def _known(self):
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["status"] == "known" and k["property"] == self.prop]

    def all_known(self):
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["status"] == "known"]

    # ------------------------------------------------------------------ building
    def build(self, *variants):
        need = [v for v in variants if v not in self.exes]
        if need:
            try:
                self.exes.update(vbuild.build(os.path.join(self.tmp, "b"), tuple(need)))
            except vbuild.BuildError as e:
                raise CheckError("build failed: " + str(e))

    # ------------------------------------------------------------------ driver
    def drive(self, exe, args, text, timeout=800):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0",
                   TSAN_OPTIONS="exitcode=66:halt_on_error=0:history_size=7")
        try:
            r = subprocess.run([exe, *args], input=text.encode(), capture_output=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out")
        return r

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, trace, heap="3g", workers=1, cfg=None, extra_env=None, timeout=850):
        self.n += 1
        md = os.path.join(self.tmp, "md%d-%d" % (os.getpid(), self.n))
        env = dict(os.environ, VERIF_REF=os.path.join(SPEC, "ref"), VERIF_TRACE=trace or "", VERIF_KNOWN=self.kf_file)
        env.update(extra_env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + self.tmp, "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg or module + ".cfg", module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if "Model checking completed. No error has been found." not in out or not m:
            raise CheckError("TLC failed on %s:\n%s\n%s" % (module, out[-3000:], r.stderr[-500:]))
        self.transitions += int(m.group(1))
        self.states += int(m.group(2))
        rej, acc, known = [], None, []
        for l in out.splitlines():
            if l.startswith('"REJECT '):
                rej.append(json.loads(json.loads(l)[7:]))
            elif l.startswith('"ACCEPTED '):
                acc = int(json.loads(l)[9:])
            elif l.startswith('"KNOWN '):
                known.append(json.loads(json.loads(l)[6:]))
        return rej, acc, known, out

    def _judge(self, module, hdr, text, nbeh):
        """text: recorded ndjson; nbeh: how many behaviours it must contain"""
        self.n += 1
        f = os.path.join(self.tmp, "tr%d.ndjson" % self.n)
        with open(f, "w") as h:
            h.write(json.dumps(hdr) + "\n" + text)
        try:
            rej, acc, known, _ = self.tlc(module, f)
        finally:
            os.unlink(f)
        if acc is None or acc + len(rej) != nbeh:
            raise CheckError("%s: %s accepted + %d rejected of %d behaviours" % (module, acc, len(rej), nbeh))
        for k in known:
            self.known[json.dumps(k, sort_keys=True)] = k
        return rej

    # ------------------------------------------------------------------ scripts
    def scripts(self, module, cases, variant="asan", hdr=None, shards=NSHARD, chunk=None):
        """execute the cases, validate the recorded events, confirm rejections"""
        if self.violations:         # the verdict is known; what the code does may no longer be bounded
            return
        self.build(variant)
        exe = self.exes[variant]
        cases = sorted(cases, key=lambda c: min(c.encs, default=0))
        by = {c.id: c for c in cases}
        if len(by) != len(cases):
            raise CheckError("duplicate case ids")
        size = max(1, (len(cases) + shards - 1) // shards)
        if chunk:
            size = min(size, chunk)
        parts = [cases[k:k + size] for k in range(0, len(cases), size)]
        if not self.samples:
            self.samples = [{"case": c.id, "script": c.ops[:12]} for c in cases[:: max(1, len(cases) // 3)][:3]]

        def work(part):
            r = self.drive(exe, ["script"], "".join(c.script() for c in part))
            text = r.stdout.decode()
            encs = set().union(*[c.encs for c in part])
            lines = text.splitlines()
            ncase = sum(1 for l in lines if l.startswith('{"op":"case"'))
            rej = self._judge(module, dict(hdr or {}, op="hdr", encs=sorted(encs)), text, ncase)
            # a crash reports its case a second time, so compare the sets of ids
            ids = {json.loads(l)["id"] for l in lines if l.startswith('{"op":"case"')}
            crashed = any('"op":"crash"' in l for l in lines)
            if ids != {c.id for c in part} and not crashed:
                raise CheckError("driver did not run all cases: " + r.stderr.decode()[-500:])
            return rej, lines, ncase, r.stderr.decode()

        with ThreadPoolExecutor(NSHARD) as ex:
            for rej, lines, ncase, err in ex.map(work, parts):
                self.events += len(lines)
                self.traces += ncase
                left = []
                for d in rej[:6]:
                    if self._confirm_script(module, by[d["case"]], variant, hdr, d, lines, err) is False:
                        left.append(d["case"])
                if left and not self.violations:
                    # not on its own: after the cases that went before it, then, in a process of their own
                    part = next(p for p in parts if any(c.id == left[0] for c in p))
                    rej, lines, _, err = work(part)
                    for d in [d for d in rej if d["case"] in left][:3]:
                        self.violation({"module": module, "case": d["case"], "script": by[d["case"]].ops, "driver": variant + " script",
                                        "header": hdr or {}, "rejection": d, "event": lines[d["at"] - 2][:2000], "stderr": err[:3000],
                                        "note": "only after %d other cases in the same process" % [c.id for c in part].index(d["case"])})
                if left and not self.violations:
                    self.notes.setdefault("unconfirmed", []).extend(left)

    def _confirm_script(self, module, case, variant, hdr, d, lines, err):
        if len(self.violations) >= 10 or (self.violations and time.time() - self.t0 > 200):
            return None
        r = self.drive(self.exes[variant], ["script"], case.script())
        text = r.stdout.decode()
        n = sum(1 for l in text.splitlines() if l.startswith('{"op":"case"'))
        again = self._judge(module, dict(hdr or {}, op="hdr", encs=sorted(case.encs)), text, n)
        if not again:
            return False
        self.violation({"module": module, "case": case.id, "script": case.ops, "driver": variant + " script",
                        "header": hdr or {}, "rejection": again[0],
                        "event": text.splitlines()[again[0]["at"] - 2][:2000],
                        "stderr": r.stderr.decode()[:3000]})

    # ------------------------------------------------------------------ sweeps
    def sweeps(self, groups, variant="opt", known_ok=True):
        """groups: list of (weight, encs, [sweep commands])"""
        if self.violations:
            return
        self.build(variant)
        exe = self.exes[variant]
        parts = [[0, set(), []] for _ in range(NSHARD)]
        for w, encs, cmds in sorted(groups, key=lambda g: -g[0]):
            p = min(parts, key=lambda p: p[0])
            p[0] += w
            p[1] |= set(encs)
            p[2] += cmds
        parts = [p for p in parts if p[2]]
        self.samples = self.samples or [{"sweep": c} for c in (groups[0][2] + groups[-1][2])[:4]]

        def work(p):
            r = self.drive(exe, ["sweep"], "\n".join(p[2]) + "\n")
            text = r.stdout.decode()
            lines = text.splitlines()
            if len(lines) < len(p[2]) and '"op":"crash"' not in text:
                raise CheckError("sweep incomplete: " + r.stderr.decode()[-500:])
            rej = self._judge("Sweep", {"op": "hdr", "encs": sorted(p[1])}, text, len(lines))
            return rej, lines, r.stderr.decode(), p

        with ThreadPoolExecutor(NSHARD) as ex:
            for rej, lines, err, p in ex.map(work, parts):
                self.events += len(lines)
                self.traces += len(lines)
                for d in rej[:5]:
                    if len(self.violations) >= 10 or (self.violations and time.time() - self.t0 > 200):
                        break
                    ev = lines[d["at"] - 2]
                    # confirm: the same observation from a fresh process
                    r = self.drive(exe, ["sweep"], "\n".join(p[2]) + "\n").stdout.decode().splitlines()
                    if ev not in r:
                        # the observation changes from run to run: is it ever what it should be?
                        bad = self._judge("Sweep", {"op": "hdr", "encs": sorted(p[1])}, "\n".join(r) + "\n", len(r))
                        if not bad:
                            self.notes.setdefault("unconfirmed", []).append(ev[:200])
                            continue
                        ev = r[bad[0]["at"] - 2]
                    again = self._judge("Sweep", {"op": "hdr", "encs": sorted(p[1])}, ev + "\n", 1)
                    if again:
                        self.violation({"module": "Sweep", "driver": variant + " sweep", "event": ev[:6000],
                                        "rejection": {"why": again[0]["why"][:20], "n": again[0]["n"]},
                                        "stderr": err[:2000]})

    def consts(self, variant="opt"):
        """the published constants and the Encoding class"""
        self.build(variant)

        def once():
            r = self.drive(self.exes[variant], ["consts"], "")
            lines = r.stdout.decode().splitlines()
            if r.returncode:
                lines = [l for l in lines if l.endswith("}")] + [json.dumps({"op": "crash", "rc": r.returncode})]
            return self._judge("Sweep", {"op": "hdr", "encs": []}, "\n".join(lines) + "\n", len(lines)), lines
        rej, lines = once()
        self.events += len(lines)
        self.traces += len(lines)
        if rej:
            rej, lines = once()
            for d in rej[:3]:
                self.violation({"module": "Sweep", "driver": variant + " consts", "event": lines[d["at"] - 2], "rejection": d})

    # ------------------------------------------------------------------ catalogue tools
    def tools(self, cats):
        """run the generators on the repository's catalogue and on the given ones (list of (dict, snippet bytes))"""
        def run(cmd, cwd):
            try:
                r = subprocess.run(cmd, capture_output=True, timeout=60, cwd=cwd)
                return r.returncode, r.stdout.decode("latin-1")
            except subprocess.TimeoutExpired:
                return 99, ""

        def aliases(exe, d):
            f = os.path.join(d, "aliases.gperf")
            rc, _ = run([exe, f], d)
            txt = open(f, encoding="latin-1").read() if os.path.exists(f) else ""
            head, _, body = txt.partition("%%\n")
            ok = all(x in head for x in ("struct alias { int name; unsigned int encoding_index; };", "%struct-type", "lookup-function-name aliases_lookup", "%7bit"))
            ls = []
            for l in body.splitlines():
                n, _, x = l.rpartition(", ei_")
                ls.append([list(n.encode("latin-1")), x])
            return rc, int(ok), ls

        def indexes(exe, lang, d):
            rc, txt = run([exe, lang], d)
            pre = "ENCODING_" if lang == "C" else ""
            ls = [list(m) for m in re.findall(r"^\s*%s(\w+) = (?:%s)?(\w+),\s*$" % (pre, pre), txt, flags=re.M)]
            code = [l.strip() for l in txt.splitlines() if "=" not in l]
            want = ["enum", "{", "};"] if lang == "C" else ["namespace reiconv::encoding", "{", "enum class Encodings", "{", "};"]
            return rc, int(code[:len(want)] == want and len(ls) == sum("=" in l for l in txt.splitlines())), ls

        def work(job):
            n, cat, snip = job
            d = os.path.join(self.tmp, "tools%d" % n)
            os.makedirs(d)
            try:
                exe = vbuild.build_tools(d, snip)
            except vbuild.BuildError as e:
                raise CheckError("build failed: " + str(e))
            out = []
            rc, head, ls = aliases(exe["genaliases"], d)
            if cat is None:
                # the ids as the repository's own header numbers them
                with open(d + "/res.cpp", "w") as f:
                    ids = sorted({x for _, x in ls if re.fullmatch(r"\w+", x)})
                    f.write('#include "encoding_indexes.h"\n#include <cstdio>\nint main() {\n' + "".join('std::printf("%s %%d\\n", (int)ei_%s);\n' % (x, x) for x in ids) + "}\n")
                r = subprocess.run(["g++", "-w", "-I" + vbuild.REPO + "/lib", d + "/res.cpp", "-o", d + "/res"], capture_output=True, text=True)
                idx = dict(l.split() for l in run([d + "/res"], d)[1].splitlines()) if r.returncode == 0 else {}
                out.append({"op": "pubaliases", "rc": rc, "head": head, "lines": [[n, int(idx.get(x, -9))] for n, x in ls]})
                for lang in ("C", "C++"):
                    rc, head, ls = indexes(exe["genindexes"], lang, d)
                    out.append({"op": "pubindexes", "lang": lang, "rc": rc, "head": head, "lines": ls})
                out.append({"op": "pubcheck", "rc": run([exe["check-encodings"]], d)[0]})
                for cmd in (["genaliases"], ["genaliases", "a", "b"], ["genaliases", d + "/no/such/dir/x"], ["genindexes"], ["genindexes", "c"], ["genindexes", "C", "C++"],
                            ["genindexes", ""], ["check-encodings", "x"]):
                    out.append({"op": "usage", "cmd": cmd, "rc": run([exe[cmd[0]]] + cmd[1:], d)[0]})
            else:
                out.append({"op": "aliases", "cat": cat, "rc": rc, "head": head, "lines": ls})
                for lang in ("C", "C++"):
                    rc, head, ls = indexes(exe["genindexes"], lang, d)
                    out.append({"op": "indexes", "lang": lang, "cat": cat, "rc": rc, "head": head, "lines": ls})
                out.append({"op": "check", "cat": cat, "rc": run([exe["check-encodings"]], d)[0]})
            shutil.rmtree(d, ignore_errors=True)
            return [(json.dumps(o), snip) for o in out]

        with ThreadPoolExecutor(NSHARD) as ex:
            evs = [x for r in ex.map(work, [(0, None, None)] + [(k + 1, c, s) for k, (c, s) in enumerate(cats)]) for x in r]
        self.events += len(evs)
        self.traces += len(evs)
        self.samples = self.samples or [{"catalogue": cats[0][1].decode("latin-1")[:400]}] if cats else []
        rej = self._judge("Tools", {"op": "hdr", "encs": []}, "".join(e + "\n" for e, _ in evs), len(evs))
        for d in rej[:8]:
            e, snip = evs[d["at"] - 2]
            self.violation({"module": "Tools", "event": e[:6000], "rejection": str(d)[:3000], "catalogue": (snip or b"").decode("latin-1")})

    # ------------------------------------------------------------------ locale
    def locale(self, questions, pages):
        """questions: lines "L ..."; pages: lines "W lo hi" (for the platforms that have code pages)"""
        try:
            exes = vbuild.build_locale(os.path.join(self.tmp, "lc"))
        except vbuild.BuildError as e:
            raise CheckError("build failed: " + str(e))

        def once(name):
            kind = vbuild.LOCALES[name][0]
            cmds = pages if kind == "win" else questions
            r = self.drive(exes[name], [], "\n".join(cmds) + "\n", timeout=300)
            evs = [json.loads(l) for l in r.stdout.decode().splitlines() if l.endswith("}")]
            if r.returncode or len(evs) != len(cmds):
                evs.append({"op": "crash", "rc": r.returncode, "stderr": r.stderr.decode()[:2000]})
            lines = [json.dumps(dict(e, plat=kind)) for e in evs]
            return self._judge("Locale", {"op": "hdr", "encs": []}, "\n".join(lines) + "\n", len(lines)), lines, cmds

        with ThreadPoolExecutor(NSHARD) as ex:
            for name, (rej, lines, cmds) in zip(exes, ex.map(once, exes)):
                self.events += len(lines)
                self.traces += len(lines)
                self.samples = self.samples or [{"platform": name, "questions": cmds[:6]}]
                if rej:
                    rej, lines, cmds = once(name)
                for d in rej[:3]:
                    k = d["at"] - 2
                    self.violation({"module": "Locale", "driver": "locale " + name, "question": cmds[k] if k < len(cmds) else "", "event": lines[k][:4000],
                                    "rejection": str(d)[:3000]})

    # ------------------------------------------------------------------ threads
    def threads(self, cases, nthreads=8, rounds=3):
        if self.violations:
            return
        self.build("opt", "tsan")
        text = "".join(c.script() for c in cases)
        encs = sorted(set().union(*[c.encs for c in cases]))
        hdr = {"op": "hdr", "encs": encs, "mode": "exact", "windows": 0}

        def once(variant, rd):
            try:
                r = self.drive(self.exes[variant], ["threads", str(nthreads), str(rd)], text, timeout=max(150, 30 * rd))
            except CheckError:      # a run takes a few seconds
                ls = [json.dumps({"op": "case", "id": variant + "-threads"}), json.dumps({"op": "crash", "hang": 1})]
                return self._judge("Relate", hdr, "\n".join(ls) + "\n", 1), ls, ""
            out = r.stdout.decode()
            lines = out.splitlines()
            err = r.stderr.decode()
            race = "WARNING: ThreadSanitizer" in err
            if r.returncode not in (0, 66) or len(lines) != rd * len(cases) or race:
                # a crash or a data race is an event of its own that no specification step matches
                lines = [l for l in lines if l.endswith("}")]
                lines += [json.dumps({"op": "case", "id": variant + "-threads"}), json.dumps({"op": "crash", "rc": r.returncode, "race": race})]
            n = sum(1 for l in lines if l.startswith('{"op":"par"') or l.startswith('{"op": "case"'))
            return self._judge("Relate", hdr, "\n".join(lines) + "\n", n), lines, err

        for variant, rd in (("opt", rounds), ("tsan", 2)):
            rej, lines, err = once(variant, rd)
            self.events += len(lines)
            self.traces += len(lines)
            if rej:
                rej2 = []
                for _ in range(2 if "hang" in lines[-1] else 5):    # a race need not show in every run
                    rej2, lines2, err2 = once(variant, rd)
                    if rej2:
                        break
                if rej2:
                    self.violation({"module": "Relate", "driver": variant + " threads %d %d" % (nthreads, rd), "script": text.splitlines()[:400],
                                    "rejection": rej2[0], "event": lines2[rej2[0]["at"] - 2][:3000], "stderr": err2[:4000]})
                else:
                    self.notes.setdefault("unconfirmed", []).append(rej[0])

    # ------------------------------------------------------------------ models
    def model(self, module, cfg=None, workers=NSHARD, env=None, heap="8g"):
        rej, _, _, out = self.tlc(module, None, heap=heap, workers=workers, cfg=cfg, extra_env=env)
        return out

    def histories(self, module, conf, workers=1):
        """model-check a generating specification and return the histories it prints"""
        self.n += 1
        f = os.path.join(self.tmp, "m%d-%d.json" % (self.n, id(conf)))
        with open(f, "w") as h:
            json.dump(conf, h)
        _, _, _, out = self.tlc(module, None, extra_env={"VERIF_MODEL": f}, heap="4g", workers=workers)
        return [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]

    def handle_model(self, configs, limit, rng):
        """check the handle model (spec/Handle.tla) on the configurations, then replay its histories (at most
        `limit`, drawn at random when there are more) into the library and validate what it did"""
        parts = [configs[k::NSHARD] for k in range(NSHARD)]
        parts = [p for p in parts if p]

        def work(part):
            return [(part[c - 1], h) for c, h in self.histories("Handle", part)]
        with ThreadPoolExecutor(NSHARD) as ex:
            hists = [x for r in ex.map(work, parts) for x in r]
        self.notes["model_histories"] = self.notes.get("model_histories", 0) + len(hists)
        if len(hists) > limit:
            hists = rng.sample(hists, limit)
        self.notes["model_histories_replayed"] = self.notes.get("model_histories_replayed", 0) + len(hists)
        by = {}
        for c, h in hists:
            by.setdefault((c["from"], c["to"], c["disc"]), []).append(h)
        cases = []
        for (f, t, d), hs in sorted(by.items()):
            for k in range(0, len(hs), 12):
                ops = []
                for h in hs[k:k + 12]:
                    ops.append("O 0 %d %d %d" % (f, t, d))
                    for o, data, cap in h:
                        ops.append("C 0 %s %d" % (bytes(data).hex() or "-", cap) if o == "C" else "R 0 %d" % cap)
                    ops.append("X 0")
                cases.append(Case("h%d.%d.%d.%d" % (f, t, d, k), ops, [f, t]))
        self.scripts("Script", cases)

    # ------------------------------------------------------------------ verdict
    def violation(self, info):
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(dict(info, property=self.prop), f, indent=1)
        self.violations.append(p)

    def finish(self, level="model_checking", assumptions=()):
        for k in self.kf:
            if json.dumps(k["match"], sort_keys=True) in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events": self.events, "samples": self.samples[:5]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %d traces, %d events, %d states, %.1f s, %d violations" % (
            self.prop, self.tier, self.traces, self.events, self.states, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0
