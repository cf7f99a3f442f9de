"""Common machinery of the checks: build the harness from /repo, run TLC, run the harness on
generated cases, validate recorded traces, reproduce and attribute rejections, write evidence."""
import collections, json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NCPU = min(8, os.cpu_count() or 4)
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not give an answer."""


class CheckTimeout(CheckError):
    pass


class Run:
    NOFROM = 1000000
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.wd = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.violations = []
        self.level = "model_checking"
        self.assumptions = []
        self.exe = None

    def q(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ build
    def build(self):
        src = os.path.join(self.wd, "harness")
        shutil.copytree(HARNESS, src)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
        self.exe = os.path.join(self.wd, "harness.test")
        p = subprocess.run(["go", "test", "-c", "-vet=off", "-o", self.exe, "."], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("harness does not build against /repo:\n" + p.stdout[-4000:])
        self.log("harness built")

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, args=(), heap="3g", workers=1, timeout=800, cwd=None, out=None):
        """Runs TLC on spec/<module>.tla; returns (rc, output)."""
        md = tempfile.mkdtemp(dir=self.wd)
        e = dict(os.environ)
        e.update(env or {})
        gc = "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JAVA_CP, "tlc2.TLC", "-metadir", md,
               "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        try:
            if out:
                with open(out, "w") as f:
                    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                return p.returncode, out
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            raise CheckTimeout("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)

    def model_check(self, module, cfg, overrides=None, workers=4, heap="6g", timeout=800):
        """Exhaustive check of the design. A failure here is an error of the specification."""
        if self.violations:
            return  # the answer is known
        t = time.time()
        cfgname = self.cfg(cfg, overrides)
        try:
            rc, out = self.tlc(module, cfgname, workers=workers, heap=heap, timeout=timeout)
        except CheckTimeout:
            # the specification does not depend on the code: this says nothing about it
            self.notes.append("%s %s %s: not finished in %d s" % (module, cfg, overrides, timeout))
            self.log(self.notes[-1])
            return
        m = re.search(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
        if rc != 0 or not m:
            raise CheckError("the specification %s does not satisfy its properties:\n%s" % (module, out[-3000:]))
        gen, dist = int(m.group(1)), int(m.group(2))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov.setdefault("models", []).append({"module": module, "cfg": cfg, "overrides": overrides or {},
                                                  "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})
        self.log("TLC %s: %d distinct states, %d transitions" % (module, dist, gen))

    def witness(self, module, cfg, invariant, overrides=None, workers=4):
        """What the invariants speak about happens in the model: TLC must find a state violating `invariant'."""
        if self.violations:
            return
        base = self.cfg(cfg, overrides)
        txt = re.sub(r"(?m)^INVARIANTS.*$", "INVARIANT " + invariant, open(base).read())
        open(base, "w").write(txt)
        try:
            rc, out = self.tlc(module, base, workers=workers, timeout=200)
        except CheckTimeout:
            return
        if "Invariant %s is violated" % invariant not in out:
            raise CheckError("%s: never a state with ~%s\n%s" % (module, invariant, out[-2000:]))
        self.cov.setdefault("witnessed", []).append("%s: ~%s" % (module, invariant))

    def cfg(self, base, overrides):
        """A copy of a cfg with constants replaced (absolute path)."""
        txt = open(os.path.join(SPEC, base)).read()
        for k, v in (overrides or {}).items():
            op, v = v if isinstance(v, tuple) else ("=", v)
            txt, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*(?:=|<-).*$" % re.escape(k), lambda m: "%s%s %s %s" % (m.group(1), k, op, v), txt)
            if n == 0:
                raise CheckError("no constant %s in %s" % (k, base))
        p = os.path.join(self.wd, "cfg-%d-%s" % (time.monotonic_ns(), base))
        open(p, "w").write(txt)
        return p

    def generate(self, module, cfg, num, depth, overrides=None, tag="SCRIPT", seedoff=0, procs=2):
        """Random behaviours of the specification -> list of decoded scripts."""
        def one(k):
            n = num // procs
            rc, out = self.tlc(module, self.cfg(cfg, overrides),
                               args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed",
                                     str(self.seed * 7919 + seedoff * 104729 + k * 15485863 + 17)])
            res = [x for x in self.lines(out, tag)]
            if not res or "Error:" in out:
                raise CheckError("no scripts from %s:\n%s" % (module, out[-3000:]))
            m = re.search(r"(\d+) states checked", self.rest(out))
            return res, int(m.group(1)) if m else 0
        with ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(procs)))
        scripts = [x for r in rs for x in r[0]]
        self.cov["generated_states"] = self.cov.get("generated_states", 0) + sum(r[1] for r in rs)
        self.log("%s: %d scripts" % (module, len(scripts)))
        return scripts

    def enumerate(self, module, cfg, overrides=None, tag="SCRIPT", workers=1):
        """All behaviours / vectors a (deterministic) exporting specification prints."""
        rc, out = self.tlc(module, self.cfg(cfg, overrides), args=["-seed", str(self.seed * 7919 + 17)], heap="4g", workers=workers)
        m = re.search(r"(\d+) states generated (\d+) distinct states found", self.rest(out))
        res = list(self.lines(out, tag))
        if rc != 0 or not m or not res:
            raise CheckError("no vectors from %s:\n%s" % (module, out[-3000:]))
        self.cov["states"] += int(m.group(2))
        self.cov["transitions"] += int(m.group(1))
        self.log("%s: %d vectors" % (module, len(res)))
        return res

    @staticmethod
    def rest(out):
        """What is printed besides scripts, numbers without commas."""
        return "\n".join(x for x in out.splitlines() if not x.startswith('"')).replace(",", "")

    @staticmethod
    def lines(out, tag):
        pre = '"%s ' % tag
        for line in out.splitlines():
            if line.startswith(pre):
                yield json.loads(json.loads(line)[len(tag) + 1:])

    # ------------------------------------------------------------ harness
    def drive(self, mode, cases, shards=NCPU, limit=30, env=None):
        """Runs the cases on the real code. Result per case: {"r":...} or {"crash":...} or {"stuck":...};
        {"skip":1} for those not run because plenty got stuck or crashed before."""
        n = len(cases)
        if n == 0:
            return []
        d = tempfile.mkdtemp(dir=self.wd)
        inp = os.path.join(d, "in")
        with open(inp, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        res = [None] * n
        shards = min(shards, n)

        lost = [0] * shards

        def shard(k):
            start = k
            nbad = 0
            out = os.path.join(d, "out%d" % k)
            while start < n and nbad < 3 and sum(lost) < 20:
                e = dict(os.environ, VH_MODE=mode, VH_IN=inp, VH_OUT=out, VH_FROM=str(start), VH_STEP=str(shards),
                         VH_CASE_LIMIT=str(limit), GOMAXPROCS="2", GOTRACEBACK="all")
                e.update(env or {})
                if os.path.exists(out + ".cur"):
                    os.remove(out + ".cur")
                with open(out + ".err", "wb") as ef:
                    try:
                        rc = subprocess.run([self.exe, "-test.run", "TestDrive$", "-test.timeout", "0"], env=e, cwd=d,
                                            stdout=ef, stderr=ef, timeout=850).returncode
                    except subprocess.TimeoutExpired:
                        raise CheckError("harness timed out in mode " + mode)
                if rc == 0:
                    break
                try:
                    cur = int(open(out + ".cur").read())
                except Exception:
                    raise CheckError("harness failed before its first case (mode %s, rc %d): %s" %
                                     (mode, rc, open(out + ".err", errors="replace").read()[-3000:]))
                if rc != 7:
                    err = open(out + ".err", errors="replace").read()
                    nbad += rc == 3
                    lost[k] += 1
                    if rc == 3:
                        res[cur] = {"stuck": err[:6000]}
                    else:
                        m = re.search(r"(?m)^(panic: .*|fatal error: .*|runtime: .*)", err)
                        res[cur] = {"crash": (m.group(0) if m else "exit status %d" % rc), "stderr": err[:6000], "rc": rc}
                start = cur + shards
            if os.path.exists(out):
                for line in open(out):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue
                    if res[o["i"]] is None:
                        res[o["i"]] = {"r": o["r"]}
            for i in range(k, n, shards):
                if res[i] is None and (nbad >= 3 or sum(lost) >= 20):
                    res[i] = {"skip": 1}
                if res[i] is None:
                    raise CheckError("no result for case %d in mode %s" % (i, mode))
        with ThreadPoolExecutor(shards) as ex:
            list(ex.map(shard, range(shards)))
        shutil.rmtree(d, ignore_errors=True)
        bad = sum(1 for r in res if "crash" in r or "stuck" in r)
        self.log("harness %s: %d cases%s" % (mode, n, ", %d crashed or stuck" % bad if bad else ""))
        return res

    # ------------------------------------------------------------ trace validation
    def validate(self, module, cfg, traces, chunk=None, timeout=100, count=True):
        """Indexes of the traces that are no behaviour of the specification. A chunk that takes too long is
        divided; a single trace that takes too long stays undecided (counted in the evidence)."""
        n = len(traces)
        if n == 0:
            return []
        procs = NCPU - 1
        chunk = chunk or max(1, min(150, (n + procs - 1) // procs))
        jobs = [list(range(i, min(i + chunk, n))) for i in range(0, n, chunk)]
        stat = {"gen": 0, "dist": 0}
        lock = threading.Lock()

        undecided = []

        def one(idx):
            p = os.path.join(self.wd, "tr-%d-%d.ndjson" % (idx[0], time.monotonic_ns()))
            with open(p, "w") as f:
                for i in idx:
                    f.write(json.dumps(traces[i]) + "\n")
            try:
                rc, out = self.tlc(module, cfg, env={"TRACES": p, "VDEBUG": "0"}, heap="2g",
                                   timeout=timeout if len(idx) > 1 else 20)
            except CheckError:
                if len(idx) == 1:
                    with lock:
                        undecided.append(idx[0])
                    return []
                step = (len(idx) + 7) // 8
                return [r for k in range(0, len(idx), step) for r in one(idx[k:k + step])]
            finally:
                os.remove(p)
            m = re.search(r"(\d+) states generated (\d+) distinct states found", out.replace(",", ""))
            if rc != 0 or not m:
                raise CheckError("trace validation failed to run (%s):\n%s" % (module, out[-3000:]))
            with lock:
                stat["gen"] += int(m.group(1))
                stat["dist"] += int(m.group(2))
            done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)}
            return [idx[t - 1] for t in range(1, len(idx) + 1) if t not in done]
        with ThreadPoolExecutor(procs) as ex:
            rej = [i for r in ex.map(one, jobs) for i in r]
        if undecided:
            self.cov["traces_undecided"] = self.cov.get("traces_undecided", 0) + len(undecided)
            self.notes.append("%d traces of %s took too long to decide" % (len(undecided), module))
            if os.environ.get("VERIF_DEBUG"):
                for i in undecided:
                    print("UNDECIDED", json.dumps(traces[i]))
        n -= len(undecided)
        if not count:
            return sorted(rej)
        self.cov["traces_validated_against_impl"] += n
        self.cov["trace_states"] = self.cov.get("trace_states", 0) + stat["dist"]
        self.cov["trace_transitions"] = self.cov.get("trace_transitions", 0) + stat["gen"]
        self.log("%s: %d traces validated (%d states), %d rejected" % (module, n, stat["dist"], len(rej)))
        return sorted(rej)

    def explain(self, module, cfg, trace, timeout=120):
        """Why a trace is rejected: (furthest line, groups that differ there, text)."""
        if trace.get("from", 0) >= self.NOFROM:
            # pruned search for the line, then unpruned from there on
            p = os.path.join(self.wd, "dbg-%d.ndjson" % time.monotonic_ns())
            with open(p, "w") as f:
                f.write(json.dumps(trace) + "\n")
            rc, out = self.tlc(module, cfg, env={"TRACES": p, "VDEBUG": "1"}, heap="3g", timeout=timeout)
            os.remove(p)
            if '<<"DONE", 1>>' in out:
                return None
            at = max([int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)] or [1])
            while at < len(trace["lines"]) and trace["lines"][at - 1]["a"] != "obs":
                at += 1
            try:
                r = self.explain(module, cfg, dict(trace, **{"from": at}), 60)
            except CheckError:
                r = None
            return r or (at, set(), "no state of the specification reaches this observation")
        p = os.path.join(self.wd, "dbg-%d.ndjson" % time.monotonic_ns())
        with open(p, "w") as f:
            f.write(json.dumps(trace) + "\n")
        rc, out = self.tlc(module, cfg, env={"TRACES": p, "VDEBUG": "1"}, heap="3g", timeout=timeout)
        os.remove(p)
        if '<<"DONE", 1>>' in out:
            return None
        at = max([int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)] or [0])
        best = None
        groups = set()
        flat = re.sub(r"\s+", " ", out)
        for m in re.finditer(r'<< ?"MISMATCH", (\d+), \{([^}]*)\}, (.*?)(?=<< ?"(?:MISMATCH|AT|DONE)"|$)', flat):
            if int(m.group(1)) != at:
                continue
            g = frozenset(re.findall(r'"([^"]+)"', m.group(2)))
            if best is None or len(g) < len(best[0]):
                best = (g, m.group(3)[:3000])
                groups = set(g)
            elif len(g) == len(best[0]):
                groups |= g
        return at, groups, (best[1] if best else "no observable state of the specification reaches this line")

    # ------------------------------------------------------------ verdicts
    def replay_file(self, obj):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return os.path.relpath(p, VERIF)

    def violation(self, what, obj):
        rp = self.replay_file(dict(obj, property=self.prop, what=what, seed=self.seed, tier=self.tier))
        self.violations.append(what)
        print("  " + what[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)

    def traces_verdict(self, mode, module, cfg, cases, results, groups, totrace=lambda case, r: r, limit=30, env=None,
                       crash=True, stuck=True, chunk=None, also=lambda trace, at: False):
        """Validates the results as traces, reproduces what is rejected and reports it."""
        traces, idx, bad = [], [], []
        for i, r in enumerate(results):
            if "r" in r:
                traces.append(totrace(cases[i], r["r"]))
                idx.append(i)
            elif "skip" not in r:
                bad.append(i)
        rej = self.validate(module, cfg, traces, chunk=chunk)
        if traces and len(self.cov["samples"]) < 3:
            self.cov["samples"].append({"mode": mode, "trace": shorten(traces[self.seed % len(traces)])})
        # crashed or stuck
        for i in bad[:8]:
            kind = "crash" if "crash" in results[i] else "stuck"
            if not (crash if kind == "crash" else stuck):
                self.foreign(1)
                continue
            again = self.drive(mode, [cases[i]] * 16, shards=4, limit=limit, env=env)
            hit = [r for r in again if "crash" in r or "stuck" in r]
            if not hit and len(bad) < 3:
                self.flaky(1)
                continue
            f = (hit or [results[i]])[0]
            self.violation("the process dies: " + f["crash"] if "crash" in f else "a call or callback makes no progress",
                           {"mode": mode, "case": cases[i], "failure": f, "reproduced": len(hit)})
            return
        # rejected traces: why, then whether it happens again
        with ThreadPoolExecutor(NCPU - 1) as ex:
            why = list(ex.map(lambda i: self.explain_safe(module, cfg, traces[i]), rej[:42]))
        def mine(trace, w):
            return groups is None or not w[1] or bool(set(w[1]) & set(groups)) or also(trace, w[0])
        own = [(i, w) for i, w in zip(rej, why) if w and mine(traces[i], w)]
        other = collections.Counter(g for i, w in zip(rej, why) if w and not mine(traces[i], w) for g in w[1])
        if other:
            self.log("differences that concern other properties: %s" % dict(other))
            self.foreign(len(rej[:42]) - len(own))

        def report(case, trace, w, n):
            self.violation("line %d of the trace is no step of %s (%s)" % (w[0], module, ", ".join(sorted(w[1]))),
                           {"mode": mode, "module": module, "case": case, "reproduced": n,
                            "failure": {"trace": trace, "at": w[0], "groups": sorted(w[1]), "state": w[2]}})
        for i, w in own[:5]:
            case = cases[idx[i]]
            again = self.drive(mode, [case] * 40, env=env, limit=limit)
            hit = [r for r in again if "crash" in r or "stuck" in r]
            if hit:
                self.violation("a call or callback makes no progress, or the process dies", {"mode": mode, "case": case, "failure": hit[0]})
                return
            tr = [totrace(case, r["r"]) for r in again]
            n = self.validate(module, cfg, tr, chunk=chunk, count=False)
            for j in n[:3]:
                w2 = self.explain_safe(module, cfg, tr[j])
                if w2 and mine(tr[j], w2):
                    report(case, tr[j], w2, len(n))
                    return
        if len(own) >= 3:
            report(cases[idx[own[0][0]]], traces[own[0][0]], own[0][1], 0)
        elif own:
            self.flaky(len(own))
            if os.environ.get("VERIF_DEBUG"):
                print("FLAKY", json.dumps(traces[own[0][0]]), own[0][1])

    def vectors_verdict(self, mode, cases, results, limit=30, env=None, shards=NCPU, again=16, crash=True, stuck=True, own=lambda case, r: True):
        """Reports the first case in which the real code did something else than the specification's vector says
        (the driver names the difference in "why")."""
        bad = [i for i, r in enumerate(results) if "skip" not in r and ("r" not in r or r["r"].get("why"))]
        self.cov["traces_validated_against_impl"] += sum(1 for r in results if "skip" not in r)
        if len(self.cov["samples"]) < 3 and cases:
            self.cov["samples"].append({"mode": mode, "vector": shorten(cases[self.seed % len(cases)], 30)})
        self.log("%s: %d vectors, %d fail" % (mode, len(results), len(bad)))
        mine = [i for i in bad if (own(cases[i], results[i]["r"]) if "r" in results[i] else crash if "crash" in results[i] else stuck)]
        if len(mine) < len(bad):
            self.foreign(len(bad) - len(mine))
        for i in mine[:6]:
            res = self.drive(mode, [cases[i]] * again, env=env, limit=limit, shards=shards)
            hit = [r for r in res if "skip" not in r and ("r" not in r or r["r"].get("why"))]
            if hit or len(mine) >= 3:
                f = (hit or [results[i]])[0]
                what = f["r"]["why"] if "r" in f else "the process dies: " + f["crash"] if "crash" in f else "a call or callback makes no progress"
                self.violation(what, {"mode": mode, "case": cases[i], "failure": f, "reproduced": len(hit)})
                return
        if mine:
            self.flaky(len(mine))

    def foreign(self, n):
        print("NOTE: %d failing executions concern other properties only" % n)
        self.notes.append("%d failing executions concern other properties only" % n)

    def flaky(self, n):
        print("NOTE: %d failing executions did not happen again" % n)
        self.notes.append("%d failing executions did not happen again in 40 repetitions" % n)

    def explain_safe(self, module, cfg, trace):
        try:
            return self.explain(module, cfg, trace)
        except CheckError:
            return None

    def finish(self, level_ok=True):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        self.log("%s: %s" % (self.prop, "VIOLATED" if self.violations else "held on everything explored"))
        return 1 if self.violations else 0



def shorten(x, n=60):
    """A sample small enough for the evidence file."""
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + "..."
    return x


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING:") and "property=%s " % prop in line:
                res.append(line.strip())
    return res


def main(table, argv):
    prop = argv[1] if len(argv) > 1 else ""
    if prop not in table:
        print("usage: check <%s> [quick|thorough]" % "|".join(sorted(table)))
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(prop, tier, seed)
    try:
        run.build()
        table[prop](run)
        return run.finish()
    except CheckError as e:
        if run.violations:
            return run.finish()
        print("ERROR:", e)
        return 3
    finally:
        shutil.rmtree(run.wd, ignore_errors=True)
