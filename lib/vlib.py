"""Machinery shared by all checks: building drivers from /repo's working tree,
running TLC on the specifications, replaying TLC's state graph in the real
code, and checking recorded histories of the real code against the
specifications."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CEST_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CXX = ["clang++-18", "-std=c++2a", "-DCONSTEXPR_CEST=1", "-I" + REPO + "/include", "-I" + VERIF + "/harness"]
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:color=never",
           LC_ALL="C.UTF-8")


class CheckError(Exception):
    """The check itself could not be carried out (exit 2, never a violation)."""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def communities():
    d = "/opt/veriftools/tla"
    for n in sorted(os.listdir(d)):
        if n.startswith("CommunityModules") and n.endswith(".jar"):
            return os.path.join(d, n)
    return TLA


class Run:
    """One run of one check: a private work directory, counters, samples."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = os.path.join(BUILD, prop + "-" + TIER)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.impl_steps = self.impl_runs = 0
        self.parts = []
        self.samples = []
        self.known = []
        self.t0 = time.time()

    # ------------------------------------------------------------------ build
    def build(self, name, flags=(), san=True, opt="-O0", out=None):
        src = os.path.join(VERIF, "harness", name + ".cpp")
        exe = os.path.join(self.dir, out or name)
        cmd = CXX + [opt, "-g"] + (["-fsanitize=address"] if san else []) + list(flags) + [src, "-o", exe]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            self.uncompilable(name, p.stderr)
        return exe

    def uncompilable(self, name, stderr):
        """The drivers use nothing but the public interface, and compile against
        the tree the specification was written for: code that rejects them no
        longer offers what the property is about."""
        what = "driver %s does not compile against %s:\n%s" % (name, REPO, stderr[-4000:])
        if ": error:" in stderr or ": fatal error:" in stderr:
            raise Violation("uses of the public interface that the property is about no longer compile", {"driver": name, "stderr": what})
        raise CheckError(what)

    def build_also(self, name, flags, what, out):
        """A driver for a group of uses of its own (say what they are)."""
        try:
            return self.build(name, flags, out=out)
        except Violation as e:
            raise Violation("the code no longer compiles for " + what, e.data)

    # -------------------------------------------------------------------- TLC
    def tlc(self, mod, text, cfg, workers=1, env=None, timeout=800, heap="3g"):
        d = os.path.join(self.dir, mod)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla") and not os.path.exists(os.path.join(d, f)):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        path = os.path.join(d, mod + ".tla")
        if text is not None:
            if os.path.islink(path):
                os.unlink(path)
            open(path, "w").write(text)
        open(os.path.join(d, mod + ".cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", TLA + ":" + communities(),
               "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noTE", "-metadir", os.path.join(d, "meta"),
               "-config", mod + ".cfg", mod + ".tla"]
        log = os.path.join(d, mod + ".out")
        with open(log, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on " + mod)
        return p.returncode, log

    @staticmethod
    def cfg_consts(consts):
        def lit(v):
            if isinstance(v, bool):
                return "TRUE" if v else "FALSE"
            if isinstance(v, int):
                return str(v)
            if isinstance(v, str):
                return json.dumps(v)
            if isinstance(v, (set, frozenset)):
                return "{" + ", ".join(lit(x) for x in sorted(v)) + "}"
            raise TypeError(v)
        return "".join("CONSTANT %s = %s\n" % (k, lit(v)) for k, v in consts.items())

    @staticmethod
    def counts(log):
        s = t = 0
        for l in open(log):
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
            if m:
                t, s = int(m.group(1)), int(m.group(2))
        return s, t

    def model(self, spec, consts, tag, emit=True, key=False, extra_cfg="", workers=1, step=True, timeout=800, heap="3g"):
        """Model check `spec` within the bounds `consts`: its invariants, its
        step properties; with emit, also dump the whole state graph."""
        mod = "MC_%s_%s" % (spec, tag)
        text = "---- MODULE %s ----\nEXTENDS %s\nVARIABLES c, ret, lbl\nINSTANCE ModelKit\n%s====\n" % (mod, spec,
            'EmitK == PrintT("T" \\o ToJson(<<Key(c), lbl\', ret\', Key(c\'), Obs(c), Obs(c\')>>))\n' if key else "")
        cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT StateInv\nINVARIANT Total\n" + ("PROPERTY StepProp\n" if step else "")
               + (("ACTION_CONSTRAINT EmitK\n" if key else "ACTION_CONSTRAINT Emit\n") if emit else "") + extra_cfg + self.cfg_consts(consts))
        rc, log = self.tlc(mod, text, cfg, workers=workers, timeout=timeout, heap=heap)
        if rc != 0:
            raise CheckError("specification %s fails its own properties or cannot be evaluated:\n%s" % (mod, tail(log)))
        s, t = self.counts(log)
        with self.lock:
            self.states += s
            self.transitions += t
            self.parts.append({"part": "model " + mod, "constants": {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in consts.items()},
                               "states": s, "transitions": t})
        if not emit:
            return None
        return self.graph(log, os.path.join(self.dir, mod + ".graph"))

    def design(self, mod, cfg, workers=4, timeout=800, env=None, heap="6g"):
        """Check a stand-alone design model (its cfg names what is checked)."""
        rc, log = self.tlc(mod, None, cfg, workers=workers, timeout=timeout, env=env, heap=heap)
        if rc != 0:
            raise CheckError("design model %s fails:\n%s" % (mod, tail(log)))
        s, t = self.counts(log)
        with self.lock:
            self.states += s
            self.transitions += t
            self.parts.append({"part": "design model " + mod, "states": s, "transitions": t})

    def graph(self, log, path):
        ids, nodes, edges = {}, [], []

        def node(k, o):
            k = tuple(k)
            if k not in ids:
                ids[k] = len(nodes)
                nodes.append(o)
            return ids[k]
        seen = set()
        for l in open(log):
            if l.startswith('"T'):
                t = json.loads(json.loads(l)[1:])
                src, lbl, ret, dst = t[:4]
                so, do = t[4:] if len(t) == 6 else (src, dst)
                e = (node(src, so), node(dst, do), tuple(lbl), tuple(ret))
                if e not in seen:
                    seen.add(e)
                    edges.append(e)
        if not edges:
            raise CheckError("no transitions in " + log)
        with open(path, "w") as f:
            f.write("N %d\n" % len(nodes))
            for o in nodes:
                f.write("S %d %s\n" % (len(o), " ".join(map(str, o))))
            for s, d, l, r in edges:
                f.write("E %d %d %s %d %s %d %s\n" % (s, d, l[0], len(l) - 1, " ".join(map(str, l[1:])), len(r), " ".join(map(str, r))))
        os.remove(log)
        return path

    # --------------------------------------------------------------- spec->code
    def replay_graph(self, exe, variant, graph, secs, seed_off=0, note=""):
        def once(sd):
            p = subprocess.run([exe, variant, "graph", graph, str(sd), str(secs)], capture_output=True, text=True, env=ENV, timeout=secs * 6 + 200, errors="replace")
            return p
        p = once(SEED * 1000 + seed_off)
        if p.returncode == 0 and "STATS" in p.stdout:
            st = json.loads(p.stdout.split("STATS ", 1)[1].splitlines()[0])
            with self.lock:
                self.impl_steps += st["steps"]
                self.impl_runs += st["runs"]
                self.traces += st["runs"]
                self.parts.append({"part": "graph replay %s %s %s" % (os.path.basename(exe), variant, os.path.basename(graph)), **st})
            return
        if p.returncode == 3 or "DIVERGE" not in p.stdout:
            q = once(SEED * 1000 + seed_off)
            if "DIVERGE" not in q.stdout:
                if q.returncode == 0 and p.returncode != 3:
                    raise CheckError("driver run not reproducible: " + p.stderr[-2000:])
                if q.returncode != 3 and q.returncode != 0:
                    raise Violation("the real code died replaying the state graph", {"exe": exe, "variant": variant, "stderr": tail_s(q.stderr, 6000)})
                raise CheckError("driver failed: %d\n%s\n%s" % (q.returncode, q.stdout[-1000:], q.stderr[-3000:]))
            p = q
        else:
            q = once(SEED * 1000 + seed_off)
            if "DIVERGE" not in q.stdout:
                raise CheckError("divergence not reproducible: " + p.stdout[-2000:])
        d = json.loads(p.stdout.split("DIVERGE ", 1)[1].splitlines()[0])
        raise Violation("the real code leaves the behaviour the specification allows (%s)" % d["what"],
                        {"driver": os.path.basename(exe), "variant": variant, "graph": os.path.basename(graph), "divergence": d,
                         "ops": "\n".join(" ".join(map(str, x)) for x in d["path"]), "stderr": tail_s(p.stderr, 4000)})

    # --------------------------------------------------------------- code->spec
    def record(self, exe, variant, runs, length, seed_off=0, args=None, extra_env=None, timeout=300):
        out = os.path.join(self.dir, "%s-%s-%d.ndjson" % (os.path.basename(exe), variant, seed_off))
        cmd = [exe, variant] + (args or ["trace", "@", str(SEED * 7919 + seed_off), str(runs), str(length)])
        cmd = [out if x == "@" else x for x in cmd]
        p = subprocess.run(cmd, capture_output=True, text=True, env=dict(ENV, **(extra_env or {})), timeout=timeout, errors="replace")
        if p.returncode == 3:
            raise CheckError("driver failed: " + p.stderr[-3000:])
        return out, p

    def validate(self, spec, consts, trace, tag, note="", timeout=800, expect_ok=False, died=None, heap="4g", do=None):
        """TLC decides whether the specification explains the recorded history."""
        mod = "TR_%s_%s" % (spec, tag)
        text = "---- MODULE %s ----\nEXTENDS %s, Json, IOUtils\nVARIABLES i, S\nEvents == ndJsonDeserialize(IOEnv.TRACE)\nINSTANCE TraceKit%s\n====\n" % (mod, spec, " WITH Do <- " + do if do else "")
        cfg = "INIT Init\nNEXT Next\nPOSTCONDITION Finished\n" + self.cfg_consts(consts)
        n = sum(1 for l in open(trace, errors="replace"))
        runs = sum(1 for l in open(trace, errors="replace") if l.startswith('{"op":"reset"'))
        rc, log = self.tlc(mod, text, cfg, env={"TRACE": trace}, timeout=timeout, heap=heap)
        txt = open(log, errors="replace").read()
        rej = re.search(r'^"REJECT(.*)"$', txt, re.M)
        done = re.search(r'<<"DONE", (\d+), (\d+)>>', txt)
        if rej:
            r = json.loads(json.loads('"' + rej.group(1) + '"'))
            ev = open(trace, errors="replace").read().splitlines()
            k = r["at"] - 1
            b = k
            while b > 0 and not ev[b].startswith('{"op":"reset"'):
                b -= 1
            raise Violation("the specification rejects what the real code did: %s%s returned %s" % (r["op"], r["a"], r["r"]),
                            {"driver_trace": os.path.basename(trace), "rejected": shorten(r), "history": ev[max(b, k - 400):k + 1],
                             "ops": "\n".join(opsline(e) for e in ev[b + 1:k + 1]), "stderr": tail_s(died, 4000) if died else ""})
        if rc != 0 or not done:
            raise CheckError("TLC could not check the trace %s (%s):\n%s" % (trace, tag, tail(log)))
        if int(done.group(1)) != int(done.group(2)):
            raise CheckError("trace %s not consumed" % trace)
        s, t = self.counts(log)
        with self.lock:
            self.states += s
            self.transitions += t
            self.traces += runs
            self.events += n
            self.parts.append({"part": "trace validation " + mod, "histories": runs, "events": n, **({"note": note} if note else {})})
            if len(self.samples) < 3:
                ev = open(trace).read().splitlines()
                k = max(0, len(ev) // 2)
                self.samples.append({"spec": spec, "events": [json.loads(x) for x in ev[k:k + 4] if len(x) < 1500]})

    def trace(self, exe, variant, spec, consts, runs, length, tag, seed_off=0, args=None, extra_env=None, timeout=300, heap="4g", do=None):
        out, p = self.record(exe, variant, runs, length, seed_off, args, extra_env, timeout)
        if p.returncode != 0 and not died_in_call(out):
            raise Violation("the real code died while the history was recorded", {"driver": os.path.basename(exe), "variant": variant,
                            "stderr": tail_s(p.stderr, 6000), "tail": open(out, errors="replace").read()[-3000:]})
        self.validate(spec, consts, out, tag, died=p.stderr, heap=heap, do=do)
        os.remove(out)

    # ------------------------------------------------- compiler and program
    def both_ways(self, what, name, spec, consts, runs, length, flags=()):
        """The same histories by the compiler and by the program; the
        specification must explain them, and they must be the same."""
        src = os.path.join(VERIF, "harness", "ct.cpp")
        exe = os.path.join(self.dir, "ct_" + name)
        base = CXX + ["-O0", "-g0", "-DWHAT=%d" % what, "-DCT_SEED=%d" % (SEED % 1000000), "-DCT_RUNS=%d" % runs, "-DCT_LEN=%d" % length, *flags]
        big = ["-fconstexpr-steps=2000000000", "-fconstexpr-depth=4000", "-fconstexpr-backtrace-limit=40"]
        rt = subprocess.run(base + ["-DCT=0", "-fsanitize=address", src, "-o", exe + "_rt"], capture_output=True, text=True)
        if rt.returncode:
            self.uncompilable("ct/" + name, rt.stderr)
        now = os.path.join(self.dir, "ct_%s.now.ndjson" % name)
        comp = os.path.join(self.dir, "ct_%s.comp.ndjson" % name)
        p = subprocess.run([exe + "_rt", now], capture_output=True, text=True, env=ENV, timeout=300, errors="replace")
        if p.returncode == 3:
            raise CheckError("driver failed: " + p.stderr[-3000:])
        if p.returncode:
            raise Violation("a history the compiler is to evaluate dies at run time (%s)" % name, {"type": name, "stderr": tail_s(p.stderr, 6000)})
        self.validate(spec, consts, now, "rt_" + name)
        ct = subprocess.run(base + big + [src, "-o", exe], capture_output=True, text=True)
        if ct.returncode:
            if "must be initialized by a constant expression" not in ct.stderr:
                raise CheckError("driver ct/%s does not compile:\n%s" % (name, ct.stderr[-4000:]))
            raise Violation("a history that is fine at run time is not a constant expression (%s)" % name,
                            {"type": name, "stderr": tail_s(ct.stderr, 8000)})
        p = subprocess.run([exe, now + "2", comp], capture_output=True, text=True, env=ENV, timeout=300, errors="replace")
        if p.returncode:
            raise CheckError("driver failed: " + p.stderr[-3000:])
        x, y = open(now).read().splitlines(), open(comp).read().splitlines()
        if x != y:
            # the specification explains the program's; say where the compiler's differs
            k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            raise Violation("the compiler's result differs from the program's (%s)" % name,
                            {"type": name, "divergence": {"event": k, "program": x[k:k + 1], "compiler": y[k:k + 1]}, "history": y[:k + 1][-400:]})
        with self.lock:
            self.traces += runs
            self.parts.append({"part": "constant evaluation " + name, "histories": runs, "events": len(y)})
        for f in (now, now + "2", comp):
            os.remove(f)

    # ---------------------------------------------------------------- evidence
    def evidence(self, level, extra, assumptions, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or [{"note": "no history recorded in this run"}],
               "implementation_steps_replayed": self.impl_steps, "trace_events_validated": self.events, "parts": self.parts}
        cov.update(extra)
        json.dump({"property": self.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
                   "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations},
                  open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)


def died_in_call(trace):
    """The history tells in which call the real code died."""
    return re.search(r'^\{"op":"(crash|hang|terminate):', open(trace, errors="replace").read(), re.M)


def tail(path, n=60):
    return "".join(open(path, errors="replace").readlines()[-n:])


def tail_s(s, n):
    s = s or ""
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


def opsline(e):
    d = json.loads(e)
    return " ".join([d["op"].replace("crash:", "").replace("hang:", "").replace("terminate:", "")] + [str(x) for x in d["a"]])


def shorten(r):
    s = json.dumps(r)
    return r if len(s) < 20000 else json.loads(json.dumps({k: (v if len(json.dumps(v)) < 5000 else json.dumps(v)[:5000]) for k, v in r.items()}))


def par(*fns):
    """Run the parts of a check in parallel; a violation wins over an error."""
    err = None
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        futs = [ex.submit(f) for f in fns]
        res = []
        for f in futs:
            try:
                res.append(f.result())
            except Violation:
                raise
            except Exception as e:          # noqa
                err = err or e
                res.append(None)
    if err:
        raise err
    return res


def main(prop, fn, level="model_checking", assumptions=()):
    run = Run(prop)
    code, nviol = 0, 0
    extra = {}
    try:
        r = fn(run)
        if isinstance(r, dict):
            extra = r
    except Violation as v:
        nviol = 1
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, prop + ".replay.json")
        json.dump({"property": prop, "what": v.what, "seed": SEED, "tier": TIER, **v.data}, open(path, "w"), indent=1)
        print("%s: %s" % (prop, v.what))
        d = v.data.get("divergence") or v.data.get("rejected")
        if d:
            print(json.dumps(d)[:3000])
        if v.data.get("stderr"):
            print(v.data["stderr"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    except CheckError as e:
        print("%s: check could not be carried out: %s" % (prop, e))
        code = 2
    except Exception as e:                  # noqa
        import traceback
        traceback.print_exc()
        code = 2
    for k in run.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    run.evidence(level, extra, list(assumptions), nviol)
    if code == 0:
        print("%s: held; %d states, %d transitions, %d histories on the real code (%d steps replayed, %d events validated), %.1fs" %
              (prop, run.states, run.transitions, run.traces, run.impl_steps, run.events, time.time() - run.t0))
    shutil.rmtree(run.dir, ignore_errors=True)
    sys.exit(code)
