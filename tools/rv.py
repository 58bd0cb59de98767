"""Common machinery of the checks: building, running TLC and the Go harness,
collecting what they covered, and the verdict."""
import json, os, re, shutil, signal, subprocess, sys, threading, time, itertools

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
IMPORT = "gitlab.cs.fau.de/since/radolan"


class CheckError(Exception):
    """The check could not decide; never a verdict about the code."""


def go_env(race=False):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GO") or k in ("CGO_ENABLED", "CGO_CFLAGS"):
            del env[k]
    env.update(GOPATH=os.path.join(BUILD, "gopath"), GO111MODULE="off", GOENV="off", GOTOOLCHAIN="local",
               GOPROXY="off", GOFLAGS="-buildvcs=false", GOWORK="off", CGO_ENABLED="1" if race else "0",
               GOCACHE=os.path.join(BUILD, "gocache"))
    env.setdefault("HOME", "/root")
    return env


def _link(target, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.islink(path):
        os.unlink(path)
    try:
        os.symlink(target, path)
    except FileExistsError:
        pass


def build(out, pkg="radverif", race=False):
    """Builds from the working tree of the repository."""
    src = os.path.join(BUILD, "gopath", "src")
    _link(REPO, os.path.join(src, IMPORT))
    _link(os.path.join(ROOT, "harness"), os.path.join(src, "radverif"))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, pkg]
    p = subprocess.run(cmd, cwd=os.path.join(src, "radverif"), env=go_env(race), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def falsified(module, judged, lines):
    """Copies of recorded executions with one observation falsified each: the validation must reject them."""
    import copy
    lies = {}
    for text in lines:
        d = json.loads(text)

        def lie(name, change, base=d):
            # several of each, as one may be made of an execution the specification leaves open
            if len(lies.setdefault(name, [])) < 3:
                c = copy.deepcopy(base)
                c["id"] = "falsified-%s-%d" % (name, len(lies[name]))
                change(c)
                lies[name].append(c)

        def enough(n):
            return len(lies) == n and all(len(l) == 3 for l in lies.values())
        if module == "TraceDecoder":
            def ret(change):
                return lambda c: change(c["ev"][-1])
            lie("outcome", ret(lambda r: r.update(outcome="panic")))
            r = d["ev"][-1]
            if r["outcome"] not in ("ok", "unit") or not r["plain"] or not r["plain"][0]:
                continue

            def inc(key, by=1):
                return ret(lambda r: r.update({key: r[key] + by}))

            def cell(r):
                r["plain"][0][0] = r["plain"][0][0] - 1 if r["plain"][0][0] < 99999999 else 0

            def upper(r):
                r["z"][0][0][0] = r["z"][0][0][0] - 1 if r["z"][0][0][0] < 99999999 else 0
            of = {"product": ret(lambda r: r["product"].append(65)), "unit": ret(lambda r: r.update(unit="?")),
                  "times": inc("fc"), "version": inc("fmt"), "dims": inc("dx"), "cells": ret(cell), "layers": ret(upper), "data": ret(upper),
                  "proj": ret(lambda r: r.update(proj=not r["proj"])), "res": inc("res")}
            for a in judged:
                if a in of:
                    lie(a, of[a])
            if enough(1 + len([a for a in judged if a in of])):
                break
        elif module == "TracePoint":
            for i, e in enumerate(d["ev"]):
                if e["r"] == 99999999:
                    lie("nan", lambda c: c["ev"][i].update(r=0))
                else:
                    lie("cell", lambda c: c["ev"][i].update(r=e["r"] - 1))
            if enough(2):
                break
        elif module == "TraceRaster":
            if d["outcome"] == "ok" and d["calls"]:
                lie("call", lambda c: c["calls"].pop())
                lie("bounds", lambda c: c["bounds"].__setitem__(2, c["bounds"][2] + 1))
                lie("pixel", lambda c: c["image"][0].__setitem__(0, c["image"][0][0] + 1))
                if enough(3):
                    break
        elif module == "TraceRows":
            if d["outcome"] == "ok":
                lie("cell", lambda c: c["plain"][0].__setitem__(0, 5))
                lie("height", lambda c: c["plain"].pop())
                lie("refused", lambda c: c.update(outcome="err", plain=[]))
                lie("panic", lambda c: c.update(outcome="panic"))
            if enough(4):
                break
        elif module == "TraceArchive":
            if d["outcome"] == "ok" and d["res"]:
                lie("number", lambda c: c["res"].pop())
                lie("order", lambda c: c["res"][0].update(fc=c["res"][0]["fc"] + 1000000))
                lie("failure", lambda c: c.update(outcome="err", res=[]))
            if d["outcome"] == "err":
                lie("success", lambda c: c.update(outcome="ok"))
            if enough(4):
                break
    return lies


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.start = time.time()
        self.dir = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.RLock()
        self.count = itertools.count(1)
        self.states = self.transitions = self.traces = 0
        self.samples, self.stages, self.violations, self.assumptions = [], [], [], []
        self.errors = []
        # set by checks of properties that speak about the manner of parsing only: what a fresh process
        # answers to the same bytes, delivered at once, is not their business
        self.attribute = None
        self.asked, self.excused = {}, 0

    # -- tools ---------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.dir, name)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self):
        self.bin = self.path("radverif")
        build(self.bin)

    def sample(self, s, what):
        if s is not None:
            with self.lock:
                if len(self.samples) < 12:
                    text = json.dumps(s)
                    self.samples.append({"stage": what, "case": s if len(text) < 3000 else text[:3000] + "..."})

    def violation(self, what, case):
        with self.lock:
            self.violations.append((what, case))

    def tlc(self, module, cfg, env=None, workers=4, timeout=600, what=None, simulate=None, on_line=None, heap="3g", count=True, expect_violation=False):
        """Runs TLC on a module of the specification; cfg is a file of spec/ or a text."""
        n = next(self.count)
        if "\n" in cfg or cfg == "":
            c = self.path("%s-%d.cfg" % (module, n))
            with open(c, "w") as f:
                f.write(cfg)
        else:
            c = os.path.join(SPEC, cfg)
        meta = self.path("tlc-%d" % n)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        tmp = self.path("tmp-%d" % n)
        os.makedirs(tmp, exist_ok=True)
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", meta, "-config", c]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        tail, states, distinct, done = [], 0, 0, False
        try:
            for line in p.stdout:
                line = line.rstrip("\n")
                if on_line and on_line(line):
                    continue
                m = re.match(r"([\d,]+) states generated(?:,| \()\D*([\d,]+)?", line)
                if m:
                    states = int(m.group(1).replace(",", ""))
                    if m.group(2):
                        distinct = int(m.group(2).replace(",", ""))
                m = re.match(r"The number of states generated: ([\d,]+)", line)
                if m:       # random behaviours
                    states = distinct = int(m.group(1).replace(",", ""))
                if "No error has been found" in line or (simulate and line.startswith("Finished in")):
                    done = True
                if line.startswith("Error:"):
                    tail.append("!!" + line)
                if not line.startswith(("Parsing", "Semantic", "Linting")):
                    tail.append(line[:2000])
                    if len(tail) > 120:
                        del tail[20:60]
            rc = p.wait()
        finally:
            killer.cancel()
            if p.poll() is None:
                p.kill()
            shutil.rmtree(meta, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        if rc != 0 or not done:
            raise CheckError("TLC on %s ended with %d after %.0f s:\n%s" % (module, rc, time.time() - t0, "\n".join(tail[-60:])))
        with self.lock:
            if count:
                self.states += distinct
                self.transitions += states
            self.stages.append({"stage": what or module, "module": module, "states": distinct, "transitions": states, "seconds": round(time.time() - t0, 1)})
        return {"states": distinct, "transitions": states}

    def prove(self, module, timeout=600):
        """Theorems about the specification for every size, proved with TLAPS; looked at by the thorough tier only."""
        t0 = time.time()
        d = self.path("proof-" + module)
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(SPEC, "proofs", module + ".tla"), d)
        cmd = ["tlapm", "--stretch", "5", "-I", os.path.join(SPEC, "proofs", "stub", module), "-I", SPEC, "-I", os.path.join(SPEC, "proofs", "stub"), module + ".tla"]
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise CheckError("proof of %s timed out" % module)
        m = re.search(r"All (\d+) obligations? proved", out)
        if p.returncode != 0 or not m:
            raise CheckError("%s is not proved:\n%s" % (module, out[-4000:]))
        with self.lock:
            self.stages.append({"stage": "proof of " + module, "module": module, "obligations": int(m.group(1)), "seconds": round(time.time() - t0, 1)})

    def tables(self, module="GenTables", name="tables.json", env=None):
        out = self.path(name)
        e = {"OUT": out}
        e.update(env or {})
        self.tlc(module, "\n", env=e, workers=1, what="tables of the specification: " + module, count=False)
        if not os.path.exists(out):
            raise CheckError("no tables from " + module)
        return out

    def scenarios(self, module, cfg, name=None, env=None, workers=4, simulate=None, heap="3g", timeout=600):
        """Behaviours printed by the model as lines of JSON."""
        out = self.path((name or module) + ".ndjson")
        n = 0
        with open(out, "w") as f:
            def line(l):
                nonlocal n
                if l.startswith('"SCEN '):
                    f.write(json.loads(l)[5:] + "\n")
                    n += 1
                    return True
                return False
            r = self.tlc(module, cfg, env=env, workers=workers, what="behaviours of " + module, on_line=line, simulate=simulate, heap=heap, timeout=timeout)
        if n == 0:
            raise CheckError("no behaviours from " + module)
        r.update(path=out, n=n)
        return r

    def harness(self, args, what, timeout=700, binary=None, env=None, counts=("replayed",), isolate=True):
        """Runs the harness; mismatches are violations. Returns the STAT records."""
        t0 = time.time()
        p = subprocess.Popen([binary or self.bin] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             env=dict(os.environ, MISMATCHES="250" if self.attribute else "20", MOST_MEMORY="" if binary else str(10 << 30), **(env or {})), cwd=self.dir)
        late = False
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            late = True
            out, err = p.communicate()
        stats, n = [], 0
        for line in out.split("\n"):
            if line.startswith("MISMATCH "):
                d = json.loads(line[9:])
                n += 1
                if self.inherent_case(what, d["case"]):
                    continue
                self.violation(what + ": " + d["what"], d["case"])
            elif line.startswith("STAT "):
                stats.append(json.loads(line[5:]))
        if p.returncode == 1 and n:
            pass
        elif late:
            if not n:
                raise CheckError("harness %s timed out" % (args,))
        elif p.returncode in (2, 66) and IMPORT in err and ("goroutine" in err or "DATA RACE" in err):
            # the Go runtime gave up inside the library
            self.violation(what + ": the program was terminated", {"args": [str(a) for a in args], "stderr": err[:20000]})
        elif p.returncode != 0:
            raise CheckError("harness %s ended with %d:\n%s" % (args, p.returncode, (out[-2000:] + err[-4000:])))
        with self.lock:
            for s in stats:
                sm = s.pop("sample", None)
                self.sample(sm, what)
                for c in counts:
                    self.traces += int(s.get(c, 0))
                self.stages.append(dict({"stage": what, "seconds": round(time.time() - t0, 1)}, **s))
        return stats

    def traces_of(self, module, cfg, path, n, what, workers=4, timeout=700, heap="3g", judged=()):
        """Validates recorded executions against the specification."""
        bad, ends = {}, {}

        def line(l):
            if l.startswith('"REJECT '):
                d = json.loads(json.loads(l)[7:])
                with self.lock:
                    bad[d["id"]] = " ".join(d["why"].split())
                    ends[d["id"]] = d.get("end", 0)
                return True
            if "REJECT" in l:
                raise CheckError("unreadable rejection: " + l)
            return False
        with open(path) as f:
            canaries = falsified(module, judged, f)
        if not canaries:
            raise CheckError("no falsified trace could be made of " + what)
        both = path + ".validated"
        shutil.copyfile(path, both)
        with open(both, "a") as f:
            for d in sum(canaries.values(), []):
                f.write(json.dumps(d) + "\n")
        self.tlc(module, cfg, env={"TRACE": both}, workers=workers, timeout=timeout, what="validation of " + what, on_line=line, heap=heap)
        os.unlink(both)
        missed = [n for n, l in canaries.items() if not any(d["id"] in bad for d in l)]
        with self.lock:
            self.traces += n
            for st in self.stages:
                if st["stage"] == "validation of " + what:
                    st["falsified_traces_rejected"] = sum(b.startswith("falsified-") for b in bad)
        if missed and all(b.startswith("falsified-") for b in bad):
            raise CheckError("falsified traces of %s were accepted: %s" % (what, missed))
        if bad:
            with open(path) as f:
                for l in f:
                    d = json.loads(l)
                    if d["id"] in bad:
                        if self.attribute and "ev" in d and self.inherent(what, d.get("file"), [{"end": 0, "break": -1}.get(e["e"], e["n"]) for e in d["ev"][:-1] if e["e"] != "late" and (e["e"] != "read" or e["n"] > 0)], ends[d["id"]], d.get("scale"), d["ev"][-1]):
                            continue
                        if "file" in d:
                            d["file_text"] = repr(bytes(d["file"]))
                        self.violation("%s: trace %s rejected: %s" % (what, d["id"], bad[d["id"]]), d)
                        if len(self.violations) > 30:
                            break

    def parallel(self, *jobs):
        """Runs the jobs at the same time."""
        def guard(j):
            try:
                j()
            except Exception as ex:
                with self.lock:
                    self.errors.append(ex if isinstance(ex, CheckError) else CheckError("%s: %r" % (j, ex)))
                    if not isinstance(ex, CheckError):
                        import traceback
                        traceback.print_exc()
        ts = [threading.Thread(target=guard, args=(j,)) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.errors and not self.violations:
            raise self.errors[0]

    def ask(self, what):
        with self.lock:
            self.asked[what] = self.asked.get(what, 0) + 1
            return self.asked[what] <= 200

    def inherent(self, what, file, calls, end, scale, got):
        """Whether a fresh process returns the same for these bytes: then it is no matter of the manner of parsing.
        What is compared with: the frame delivered at once ("frame"), or the same calls in a process without history ("input")."""
        if not self.attribute or got is None or file is None:
            return False
        r = None
        if self.ask(what):
            q = {"file": file, "scale": scale}
            if self.attribute == "frame":
                # all there was to read, even if the library gave up before
                there = sum(n for n in calls if n > 0) if 0 in calls or -1 in calls else len(file)
                q["file"] = file[:end or there]
            else:
                q["calls"] = calls
            p = subprocess.run([self.bin, "solo"], input=json.dumps(q), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.dir, timeout=120)
            for l in p.stdout.split("\n"):
                if l.startswith("RESULT "):
                    r = json.loads(l[7:])
            if r != got:
                return False
        with self.lock:
            self.excused += 1
        return True

    def inherent_case(self, what, case):
        if not self.attribute or not isinstance(case, dict):
            return False
        if case.get("alone"):       # a history of calls
            if self.ask(what):
                f = self.path("alone-%d.ndjson" % next(self.count))
                with open(f, "w") as o:
                    for s in case["files"]:
                        o.write(json.dumps(s) + "\n")
                    o.write(json.dumps({"hist": case["alone"]}) + "\n")
                p = subprocess.run([self.bin, "client", f, str(self.seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.dir, timeout=300)
                os.unlink(f)
                if "MISMATCH" not in p.stdout:
                    return False
            with self.lock:
                self.excused += 1
            return True
        f = case.get("scenario") if "file" in (case.get("scenario") or {}) else case.get("file")
        if not isinstance(f, dict) or not isinstance(case.get("got"), dict):
            return False
        calls = case.get("calls") or f["calls"] or [len(f["file"]), 0]
        return self.inherent(what, f["file"], calls, f.get("end", len(f["file"])), f["hdr"]["scale"], case["got"])

    # -- verdict -------------------------------------------------------------
    def finish(self, error=None):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples, "stages": self.stages,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 1),
            "violations": len(self.violations),
        }
        if self.excused:
            ev["coverage"]["mismatches_of_other_properties"] = self.excused
        if error:
            ev["coverage"]["error"] = str(error)[:2000]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            rdir = os.path.join(ROOT, "replays")
            os.makedirs(rdir, exist_ok=True)
            for i, (what, case) in enumerate(self.violations[:5]):
                p = os.path.join(rdir, "%s-%d.json" % (self.pid, i + 1))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "seed": self.seed, "what": what, "case": case}, f)
                print("%s" % what[:400])
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        if error:
            print("ERROR property=%s %s" % (self.pid, error))
            return 2
        print("OK property=%s states=%d transitions=%d traces=%d %.0fs" % (self.pid, self.states, self.transitions, self.traces, time.time() - self.start))
        return 0


def main(plans):
    if len(sys.argv) < 2 or sys.argv[1] not in plans:
        print("usage: check.py PROPERTY   (VERIF_TIER=quick|thorough, VERIF_SEED=n)")
        return 2
    c = Check(sys.argv[1])
    try:
        c.build()
        plans[c.pid](c)
    except CheckError as ex:
        return c.finish(ex)
    except Exception as ex:  # noqa
        import traceback
        traceback.print_exc()
        return c.finish(ex)
    return c.finish()
