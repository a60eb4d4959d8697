"""Behaviours generated from the specification (spec/Gen.tla), run on the real code.

For a kind of history (instances and steps) TLC explores the machines over short streams:
once breadth first, one schedule per transition, and once as random walks. The schedules run
on the code (`conform exec`), and what it answers is judged by module Trace.
"""
import os, re, shutil
from concurrent.futures import ThreadPoolExecutor

# kind -> what `conform streams` prepares, instances, steps, length of the random walks
KINDS = {
    "push": ("push", "KindsP", ["push"], 24),
    "find": ("find", "KindsF", ["find"], 24),
    "mix": ("mix", "KindsPF", ["push", "find"], 30),
    "iter": ("iter", "KindsP", ["iter", "push"], 8),
    "restartP": ("restart", "KindsPP", ["push", "restart"], 30),
    "restartF": ("restart", "KindsFF", ["find", "restart"], 30),
    "cloneP": ("clone", "KindsPP", ["push", "clone"], 30),
    "cloneF": ("clone", "KindsFF", ["find", "clone"], 30),
    "allP": ("clone", "KindsPP", ["push", "clone", "restart", "iter"], 30),
}
SLOTS = {"KindsP": [0], "KindsF": [1], "KindsPF": [0, 1], "KindsPP": [0, 0], "KindsFF": [1, 1]}
WALKS_ONLY = ["allP"]
GROUP = 12          # behaviours per scenario


def cfg(kinds, acts, walks, depth):
    return """SPECIFICATION GSpec
CONSTANTS Cfgs = {}
 Alphabet = {0}
 MaxLen = 0
 Kinds <- %s
 Acts = {%s}
 Walks = %d
 Depth = %d
INVARIANTS Refines TypeOK Bounded
VIEW %s
ACTION_CONSTRAINT PrintStep
CHECK_DEADLOCK FALSE
""" % (kinds, ", ".join('"%s"' % a for a in acts), walks, depth, "ViewW" if walks else "View")


def behaviours(out):
    r = []
    for m in re.finditer(r'<<\s*"T",\s*(\d+),\s*(<<.*?>>)\s*>>(?=\s*(?:$|\n))', out, re.S):
        steps = [[int(x) for x in s.split(",")] for s in re.findall(r"<<([-\d,\s]+)>>", m.group(2))]
        r.append((int(m.group(1)), steps))
    return r


def blocks(path):
    r, cur = {}, None
    for l in open(path):
        if l.startswith("S "):
            cur = int(l.split()[1])
            r[cur] = []
        r[cur].append(l)
    return r


def one(run, tlc, sh, conform, kind, alg, mode, judged, trace_cfg, rejects):
    src, kinds, acts, depth = KINDS[kind]
    name = "g_" + kind
    d = os.path.join(run.dir, name)
    os.makedirs(d)
    rc, out = sh([conform, "streams", src, d, str(run.seed), str(run.k)] + ([alg] if alg else []), 300)
    if rc != 0:
        # the code itself fails while streams are prepared: the recorder reports that
        raise RuntimeError("streams: %s %s" % (rc, out[-500:]))
    streams = os.path.join(d, "trace0.ndjson")
    lines = sorted(open(streams).readlines(), key=lambda l: int(re.match(r'\{"id":(\d+)', l).group(1)))
    parts = 1 if alg else 2 if run.tier == "quick" else 4
    jobs = []
    for i in range(parts):
        f = os.path.join(d, "streams%d.ndjson" % i)
        with open(f, "w") as g:
            g.writelines(lines[i::parts])
        if kind not in WALKS_ONLY:
            jobs.append(("c%d" % i, 0, f))
        jobs.append(("w%d" % i, 4 if kind not in WALKS_ONLY else 30, f))
    total = {"kind": kind, "streams": len(lines), "states": 0, "transitions": 0, "schedules": 0, "transition_cover": 0, "walks": 0}
    seen = {}
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(tlc, name + n, "Gen", cfg(kinds, acts, w, depth), run.dir, {"STREAMS": f}, extra=["-seed", str(run.seed)])
              for n, w, f in jobs]
        for (n, w, f), r in zip(jobs, [x.result() for x in fs]):
            if not r["ok"]:
                raise RuntimeError("generation failed: " + r["out"][-1500:])
            total["states"] += r["distinct"]
            total["transitions"] += r["generated"]
            bs = behaviours(r["out"])
            for k, steps in bs:
                seen.setdefault(k, []).append(steps)
            total["walks" if w else "transition_cover"] += len(bs)
            if not bs:
                raise RuntimeError("no behaviours generated: " + r["out"][-500:])
    b = blocks(os.path.join(d, "inputs.txt"))
    inp = os.path.join(d, "schedules.txt")
    start = "O 50 " + " ".join(str(x) for x in SLOTS[kinds])
    with open(inp, "w") as f:
        for k in sorted(seen):
            bs = seen[k]
            head = b[k][0].split()
            head[2] = mode
            for i in range(0, len(bs), GROUP):
                f.write(" ".join(head) + "\n" + "".join(b[k][1:]))
                for steps in bs[i:i + GROUP]:
                    f.write(start + "\n" + "".join("O " + " ".join(str(x) for x in s) + "\n" for s in steps) + "O 60\n")
                    total["schedules"] += 1
    x = os.path.join(d, "x")
    rc, out = sh([conform, "exec", inp, x, "1"], 600)
    if rc in (3, 5):
        run.hang(x, rc)
        return total
    if rc in (-6, -11, -4, -7, -8):
        path = os.path.join(run.replays, "%s-%s-crash.txt" % (run.pid, kind))
        shutil.copy(inp, path)
        run.violations.append(("the process is killed by signal %d during generated histories (%s)" % (-rc, kind), path))
        return total
    if rc != 0:
        raise RuntimeError("exec: %s %s" % (rc, out[-800:]))
    shard = os.path.join(x, "trace0.ndjson")
    r = tlc(name + "t", "Trace", trace_cfg(judged), run.dir, {"TRACE": shard}, heap="4g")
    rej = rejects(r["out"])
    if not r["ok"] and not rej:
        raise RuntimeError("judging generated behaviours: " + r["out"][-1500:])
    total["states"] += r["distinct"]
    total["transitions"] += r["generated"]
    if rej:
        run.report(shard, rej, "Trace", os.path.join(x, "inputs.txt"), total["kind"])
    return total
