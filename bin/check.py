#!/usr/bin/env python3
"""check.py <property>: decide one property of hash-roll against the specification.

1. build the recording harness against /repo's working tree;
2. record behaviours of the real code for the property (harness/src/scen.rs);
3. let TLC judge every recorded behaviour against the specification (spec/Trace*.tla);
4. let TLC generate behaviours from the specification's machines, run those schedules on
   the real code, and compare (spec/Gen.tla), where the property speaks of histories;
5. model check the specification itself for the property (spec/MC*.tla).

exit 0 held on everything explored, 1 with a VIOLATION line, 2 if the check itself failed.
"""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(WORK, "target")
CONFORM = os.path.join(TARGET, "release", "conform")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import PROPS, CLAUSES  # noqa: E402

T0 = time.time()


def say(*a):
    print(*a, flush=True)


def fail(msg):
    say("CHECK-ERROR:", msg)
    sys.exit(2)


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        # code that asks for memory without end is to fail there, not to use up the machine
        lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))) if cmd[0] == CONFORM else None
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd, preexec_fn=lim)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf8", "replace")


def build():
    rc, out = sh(["cargo", "build", "--release", "--offline", "--quiet"], 600, {"CARGO_TARGET_DIR": TARGET}, HARNESS)
    if rc != 0:
        say(out[-4000:])
        fail("the harness does not build against /repo")


def tlc(name, module, cfg, rundir, env=None, workers=1, timeout=800, extra=(), heap="3g"):
    """run TLC; a dict with output, distinct, generated, ok"""
    cfgfile = os.path.join(rundir, name + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    meta = os.path.join(rundir, "md_" + name)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfgfile, *extra, module + ".tla"]
    t = time.time()
    rc, out = sh(cmd, timeout, env, SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(rundir, name + ".out"), "w") as f:
        f.write(out)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return {"name": name, "rc": rc, "out": out, "generated": g, "distinct": d, "wall": round(time.time() - t, 1),
            "ok": rc == 0 and "No error has been found" in out}


def rejects(out):
    """[(scenario, op number, [clauses])] from the PrintT lines of a Trace module"""
    r = []
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
        r.append((int(m.group(1)), int(m.group(2)), re.findall(r'"(\w+)"', m.group(3))))
    return r


def trace_cfg(judged):
    return ("SPECIFICATION Spec\nCONSTANTS Judged = {%s}\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Complete\n"
            % ", ".join('"%s"' % c for c in judged))


def mc_cfg(m, maxlen):
    return """SPECIFICATION Spec
CONSTANTS Cfgs <- SelCfgs
 Alphabet = {%s}
 MaxLen = %d
 Kinds <- %s
 Acts = {%s}
 Algs = {%s}
INVARIANTS %s
CHECK_DEADLOCK FALSE
""" % (", ".join(str(x) for x in m.get("alphabet", [0, 1, 2])), maxlen, m["kinds"],
       ", ".join('"%s"' % a for a in m["acts"]), ", ".join('"%s"' % a for a in m["algs"]),
       " ".join(m.get("inv", ["Refines", "TypeOK", "Bounded"])))


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.p = PROPS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.k = 1 if self.tier == "quick" else self.p.get("k", 6)
        self.dir = os.path.join(WORK, "run", pid)
        self.replays = os.path.join(VERIF, "evidence", "replay")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(pid + "-"):
                os.remove(os.path.join(self.replays, f))
        self.known = self.load_known()
        self.known_hit = {}
        self.violations = []        # (text, replay path)
        self.errors = []
        self.trace_states = [0, 0]
        self.scenarios = 0
        self.summary = {}
        self.models = []
        self.gen = []
        self.samples = []

    # ---------------------------------------------------------- known findings
    def load_known(self):
        r = []
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) alg=(\S+) clause=(\S+) (.*)", l)
            if m and m.group(1) == self.pid:
                r.append(m.groups())
        return r

    # ------------------------------------------------------------- recording
    def record(self):
        d = os.path.join(self.dir, "rec")
        shards = 8 * max(1, self.k)
        rc, out = sh([CONFORM, "record", self.pid, str(self.seed), str(self.k), d, str(shards)], 700)
        if rc in (3, 5):
            return self.hang(d, rc)
        if rc is None:
            return self.errors.append("recording did not finish in time")
        if rc != 0:
            return self.crash(rc, d, shards, out)
        s = {}
        for l in open(os.path.join(d, "summary.txt")):
            f = l.split()
            if f and f[0] == "alg":
                s.setdefault("by_algorithm", {})[f[1]] = {f[i]: int(f[i + 1]) for i in range(2, len(f) - 1, 2)}
            elif len(f) == 2 and f[1].isdigit():
                s[f[0]] = int(f[1])
        self.summary = s
        self.scenarios = s.get("scenarios", 0)
        self.rec = d
        self.shards = [os.path.join(d, "trace%d.ndjson" % i) for i in range(shards)]
        self.shards = [f for f in self.shards if os.path.exists(f) and os.path.getsize(f) > 0]

    def hang(self, d, rc):
        """the recording ended in a call that does not return (3) or a panic (5)"""
        what = "a call does not return" if rc == 3 else "panic in a constructor, copy or comparison"
        j = json.loads(open(os.path.join(d, "hang.ndjson")).read())
        path = os.path.join(self.replays, "%s-hang.txt" % self.pid)
        with open(path, "w") as f:
            f.write("# %s: %s\n" % (what, json.dumps({"why": j["why"], "cfg": cfgtext(j), "call": j["ops"][-1]})))
            f.write(open(os.path.join(d, "hang.txt")).read())
        self.violations.append(("%s (%s, %s)" % (what, j["why"], cfgtext(j)), path))

    def crash(self, rc, d, shards, out):
        log = os.path.join(self.dir, "log")
        rc2, out2 = sh([CONFORM, "record", self.pid, str(self.seed), str(self.k), d, str(shards)], 800, {"RECORD_LOG": log})
        if rc2 is not None and rc2 in (-6, -11, -4, -7, -8) and rc2 == rc:
            path = os.path.join(self.replays, "%s-crash.txt" % self.pid)
            shutil.copy(log, path)
            self.violations.append(("the process is killed by signal %d during a call" % -rc2, path))
        else:
            self.errors.append("recorder ended with %s: %s" % (rc, out[-800:]))

    # --------------------------------------------------------------- judging
    def judge_shard(self, i):
        judged = self.p["judge"]
        return i, tlc("t%d" % i, self.p["module"], trace_cfg(judged), self.dir, {"TRACE": self.shards[i]})

    def judged(self, i, r):
        self.trace_states[0] += r["distinct"]
        self.trace_states[1] += r["generated"]
        rej = rejects(r["out"])
        if not r["ok"] and not rej:
            self.errors.append("TLC failed on recorded behaviours (shard %d): %s" % (i, tail(r["out"])))
        if rej:
            self.report(self.shards[i], rej, self.p["module"])

    def report(self, shard, rej, module, inputs=None, kind=None):
        by = {}
        for sid, op, cl in rej:
            by.setdefault(sid, []).append((op, cl))
        for line in open(shard):
            m = re.match(r'\{"id":(\d+)', line)
            if not m or int(m.group(1)) not in by:
                continue
            sid = int(m.group(1))
            j = json.loads(line)
            alg = j.get("cfg", {}).get("alg", "range")
            rest = []
            for op, cl in sorted(by[sid]):
                left = []
                for c in cl:
                    for k in self.known:
                        if k[1] in (alg, "*") and k[2] == c:
                            self.known_hit[k] = self.known_hit.get(k, 0) + 1
                            break
                    else:
                        left.append(c)
                if left:
                    rest.append((op, left))
            if rest:
                self.violation(j, line, rest, module, inputs, kind)

    def violation(self, j, line, rest, module, inputs, kind):
        if len(self.violations) >= 5:
            self.violations.append((None, None))
            return
        n = len(self.violations)
        op, cl = rest[0]
        base = os.path.join(self.replays, "%s-%d" % (self.pid, n))
        with open(base + ".ndjson", "w") as f:
            f.write(line)
        what = "; ".join("%s: %s" % (c, CLAUSES[c]) for c in cl)
        with open(base + ".txt", "w") as f:
            f.write("# property %s, seed %d, tier %s, scenario %s: %s\n" % (self.pid, self.seed, self.tier, j["id"], j.get("why", j.get("what"))))
            f.write("# op %d breaks %s\n" % (op, what))
            if module != "TraceRange":
                f.write("# op: %s\n# configuration: %s\n# stream length: %d, mode %s\n" % (json.dumps(j["ops"][op - 1])[:300], cfgtext(j), j["n"], j["mode"]))
            else:
                f.write("# range <<lower kind, lower, upper kind, upper>>: %s\n# step: %s\n" % (j["r"], (j["q"] + j["tups"])[min(op - 1, len(j["q"] + j["tups"]) - 1)]))
            f.write("# recorded behaviour: %s.ndjson\n# judge it again: bin/replay %s\n" % (base, base + ".txt"))
            f.write("M %s\nJ %s.ndjson\nV %s\n" % (module, base, " ".join(self.p["judge"])))
            if module == "Trace":
                f.write(schedule(self.rec_inputs(j["id"], inputs), j, op))
        self.violations.append(("scenario %s (%s, %s) op %d: %s" % (j["id"], j.get("why", j.get("what")), cfgtext(j), op, what), base + ".txt"))

    def rec_inputs(self, sid, path=None):
        out, on = [], False
        for l in open(path or os.path.join(self.rec, "inputs.txt")):
            if l.startswith("S "):
                on = l.split()[1] == str(sid)
            if on:
                out.append(l)
        return out

    # ---------------------------------------------------------- model checks
    def model(self, i):
        m = self.p["mc"][i]
        n = "mc%d" % i
        if "module" in m:
            cfg = m["cfg"] if isinstance(m["cfg"], str) else m["cfg"][0 if self.tier == "quick" else 1]
            r = tlc(n, m["module"], cfg, self.dir, workers=m.get("workers", 2), heap="4g")
            r["what"] = {"module": m["module"]}
        else:
            ml = m["len"][0 if self.tier == "quick" else 1]
            r = tlc(n, "MC", mc_cfg(m, ml), self.dir, workers=2 if self.tier == "quick" else 6, heap="6g")
            r["what"] = {"algorithms": m["algs"], "instances": m["kinds"], "actions": m["acts"], "stream_length": ml,
                         "alphabet": m.get("alphabet", [0, 1, 2]), "invariants": m.get("inv", ["Refines", "TypeOK", "Bounded"])}
        return r

    def modelled(self, r):
        if not r["ok"]:
            self.errors.append("model check %s: %s" % (r["what"], tail(r["out"])))
        self.models.append(dict(r["what"], states=r["distinct"], transitions=r["generated"], wall_s=r["wall"]))

    # --------------------------------------------- spec -> code (Gen.tla)
    def generate(self, kind):
        import gen
        alg, mode = (self.p["galg"], "rule") if self.p.get("galg") else (None, "wit")
        try:
            return gen.one(self, tlc, sh, CONFORM, kind, alg, mode, self.p["judge"], trace_cfg, rejects)
        except RuntimeError as e:
            self.errors.append(str(e))

    # -------------------------------------------------------------- main line
    def main(self):
        build()
        self.record()
        if self.violations or self.errors:
            return self.finish()
        with ThreadPoolExecutor(8) as ex:
            mcs = [ex.submit(self.model, i) for i in range(len(self.p["mc"]))]
            gens = [ex.submit(self.generate, k) for k in self.p["gen"]]
            jobs = [ex.submit(self.judge_shard, i) for i in range(len(self.shards))]
            for f in jobs:
                self.judged(*f.result())
            for f in mcs:
                self.modelled(f.result())
            self.gen = [g for g in (f.result() for f in gens) if g]
        self.finish()

    def take_samples(self):
        try:
            for l in open(self.shards[0]):
                if len(self.samples) >= 3:
                    break
                if len(l) > 3_000_000:
                    continue
                j = json.loads(l)
                if self.p["module"] == "TraceRange":
                    self.samples.append({"range": j["what"], "bounds": j["r"], "value_under_exceeds_contains": j["q"][:7], "converted": j["tups"]})
                elif j["ops"]:
                    self.samples.append({"scenario": j["id"], "why": j["why"], "configuration": cfgtext(j), "stream_bytes": j["n"], "mode": j["mode"],
                                         "calls_recorded": len(j["ops"]), "first_ops": [o if len(o) <= 24 else o[:24] + ["..."] for o in j["ops"][:8]]})
        except (OSError, AttributeError, ValueError):
            pass

    def finish(self):
        self.take_samples()
        for k in self.known:
            n = self.known_hit.get(k, 0)
            if n:
                say("KNOWN-FINDING: property=%s %s (%d observations)" % (self.pid, k[3], n))
        v = [x for x in self.violations]
        cov = {
            "states": self.trace_states[0] + sum(m["states"] for m in self.models) + sum(g["states"] for g in self.gen),
            "transitions": self.trace_states[1] + sum(m["transitions"] for m in self.models) + sum(g["transitions"] for g in self.gen),
            "traces_validated_against_impl": self.scenarios + sum(g["schedules"] for g in self.gen),
            "samples": self.samples or [{"note": "nothing recorded"}],
            "recorded": self.summary,
            "trace_states": self.trace_states[0],
            "clauses_judged": self.p["judge"],
            "specification_model_checked": self.models,
        }
        if self.gen:
            cov["generated_from_specification"] = self.gen
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC, the CommunityModules Java overrides and the recorder report faithfully",
                              "streams and configurations beyond those recorded behave as the model says (sampling by seed)"],
              "wall_s": round(time.time() - T0, 1), "violations": len(v)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for text, path in v:
            if text:
                say("%s: %s" % (self.pid, text))
                say("VIOLATION property=%s replay=%s" % (self.pid, path))
        for e in self.errors:
            say("CHECK-ERROR:", e)
        say("%s %s seed=%d: %d behaviours, %d calls, %d trace states, %d model states, %.1f s: %s" % (
            self.pid, self.tier, self.seed, cov["traces_validated_against_impl"], self.summary.get("calls", 0), self.trace_states[0],
            sum(m["states"] for m in self.models), time.time() - T0,
            "%d violations" % len(v) if v else "error" if self.errors else "held"))
        if not v and not self.errors:
            shutil.rmtree(self.dir, ignore_errors=True)
        sys.exit(1 if v else 2 if self.errors else 0)


def cfgtext(j):
    c = j.get("cfg")
    if not c:
        return "range"
    return "%s%s %s%s" % (c["alg"], "", c["ctor"], tuple(c["a"])) + (" table " + c["tabname"] if "tabname" in c else "")


def tail(out):
    l = [x for x in out.splitlines() if x.strip() and not x.startswith(("Parsing", "Semantic", "Progress", "Warning"))]
    return " | ".join(l[-12:])[:1500]


def schedule(inputs, j, upto):
    """the calls of a recorded behaviour as input for `conform exec`"""
    o = []
    for op in j["ops"][:upto]:
        if op[0] == 0:
            o.append("O 0 %d %d" % (op[1], op[2]))
        elif op[0] in (2, 3):
            o += ["O %d %d %d" % (op[0], op[1], op[3])] * min(op[2], 100000)
        elif op[0] in (4, 5):
            o.append("O %d %d" % (op[0], op[1]))
        elif op[0] == 6:
            o.append("O 6 %d %d %d %d" % (op[1], op[2], op[3], (len(op) - 7) // 2 + (1 if op[4] == 1 else 0)))
        elif op[0] == 20:
            o.append("O 20 %d %d" % (op[1], max(0, op[2])))
    return "".join(inputs) + "\n".join(o) + "\n"


if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        fail("usage: check.py <property>")
    Run(sys.argv[1]).main()
