"""What decides each property: the judging module and clauses, the model checks."""

CLAUSES = {
    "panic": "a call panics on a valid configuration and history",
    "stall": "no progress: a call does not return, or the history never ends",
    "edge": "an edge is missing, spurious or misplaced",
    "range": "an index or discard count lies outside the slice passed",
    "order": "edge positions do not increase (empty chunk)",
    "keep": "more of the buffer is retained than the algorithm may ask for",
    "lost": "bytes after the edge just found are discarded",
    "concat": "the slices yielded do not concatenate to the buffer",
    "empty": "an empty slice is yielded",
    "end": "iteration ends before the buffer is used up",
    "hint": "size_hint disagrees with the slices yielded",
    "rem": "the remainder is not exactly what was not yielded",
    "tail": "edges in a shared tail differ / no forced edge in an oversized tail",
    "small": "a complete chunk is smaller than the minimum",
    "large": "a chunk is larger than the maximum",
    "far": "an edge after 2^32 bytes without one is missing, spurious or misplaced",
    "agree": "two observations that must be equal differ",
    "side": "the two interfaces put an edge on different sides of the deciding byte",
    "digest": "the rolling digest differs from the windowed sum",
    "split": "the split signal differs from the digest's low bits",
    "under": "under_min disagrees with the lower bound",
    "exceeds": "exceeds_max disagrees with the upper bound",
    "contains": "contains disagrees with the two bounds",
    "bounds": "a converted range has other bounds",
}

ALGS = ["bup", "buz", "gear", "fcdc", "gzip", "pigz", "mii", "ram", "zpaq", "zstd"]
STREAM = ["Refines", "TypeOK", "StreamProps"]
BASE = ["panic", "stall", "edge", "range", "order"]


def mc(kinds, acts, length, algs=ALGS, inv=None, alphabet=None):
    m = {"kinds": kinds, "acts": acts, "len": length, "algs": algs}
    if inv:
        m["inv"] = inv
    if alphabet:
        m["alphabet"] = alphabet
    return m


def prop(judge, mcs, module="Trace", k=6, gen=(), galg=None):
    return {"judge": judge, "mc": mcs, "module": module, "k": k, "gen": gen, "galg": galg}


def one(alg, judge=BASE):
    """a rule property: one algorithm, streams long for their kind"""
    return prop(judge, [mc("KindsP", ["push"], (5, 8), [alg]), mc("KindsF", ["find"], (5, 8), [alg]),
                        mc("KindsP", [], (7, 9), [alg], STREAM)], gen=["push", "find"], galg=alg)


PROPS = {
    "C01": prop(BASE, [mc("KindsP", ["push"], (4, 6))], gen=["push"]),
    "C02": prop(BASE + ["lost"], [mc("KindsF", ["find"], (4, 6))], gen=["find"]),
    "C03": prop(["panic", "stall", "edge", "agree", "side"],
                [mc("KindsP", [], (5, 7), ALGS, STREAM), mc("KindsPF", ["push", "find"], (3, 4))]),
    "C04": prop(["panic", "stall", "range", "order", "lost"], [mc("KindsPF", ["push", "find"], (3, 4))], gen=["mix"]),
    "C05": prop(["panic", "stall", "concat", "empty", "end", "edge", "hint", "agree"], [mc("KindsP", ["iter"], (3, 4))], gen=["iter"]),
    "C06": prop(["panic", "stall", "concat", "empty", "end", "edge", "hint", "rem", "agree"], [mc("KindsP", ["iter", "push"], (3, 4))], gen=["iter"]),
    "C07": prop(BASE + ["tail", "agree"], [mc("KindsPP", ["push", "restart"], (3, 4)), mc("KindsFF", ["find", "restart"], (3, 4))], gen=["restartP", "restartF"]),
    "C08": prop(BASE + ["tail", "agree"], [mc("KindsP", [], (5, 7), [a for a in ALGS if a not in ("fcdc", "ram", "zpaq")], STREAM)]),
    "C09": prop(["panic", "stall", "keep", "lost", "range", "edge"], [mc("KindsF", ["find"], (4, 6))], gen=["find"]),
    "C10": one("fcdc", BASE + ["small", "large", "tail", "far"]),
    "C11": one("zpaq", BASE + ["small", "large", "tail", "far"]),
    "C12": one("buz", BASE + ["small", "large", "tail", "far"]),
    "C13": prop(BASE + ["agree", "concat", "rem", "end", "empty"],
                [mc("KindsPP", ["push", "clone"], (3, 4)), mc("KindsFF", ["find", "clone"], (3, 4))], gen=["cloneP", "cloneF", "allP"]),
    "C14": one("bup", BASE + ["far"]),
    "C15": one("buz", BASE + ["far"]),
    "C16": one("gear", BASE + ["far"]),
    "C17": one("fcdc", BASE + ["far"]),
    "C18": one("gzip", BASE + ["far", "large"]),
    "C19": one("pigz", BASE + ["far"]),
    "C20": one("mii", BASE + ["far"]),
    "C21": one("ram", BASE + ["far", "large"]),
    "C22": one("zpaq", BASE + ["far", "large"]),
    "C23": one("zstd", BASE + ["far"]),
    "C24": prop(BASE + ["small", "large", "tail", "agree", "far"],
                [{"module": "MCParams", "cfg": "SPECIFICATION Spec\nINVARIANTS Documented Limits Tables\nCHECK_DEADLOCK FALSE\n"}], k=3),
    "C25": prop(["panic", "under", "exceeds", "contains", "bounds"],
                [{"module": "MCRange", "cfg": ["SPECIFICATION Spec\nCONSTANT Top = %d\nINVARIANTS ContainsIff Sides Monotone\nCHECK_DEADLOCK FALSE\n" % t for t in (5, 12)]}],
                module="TraceRange", k=30),
    "C26": prop(["panic", "stall", "edge", "digest", "split"],
                [{"module": "MCRoll", "cfg": ["SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Alphabet = {0,1,3}\nINVARIANTS Digest Signal\nCHECK_DEADLOCK FALSE\n" % t for t in (4, 6)]}],
                module="TraceRoll", k=10),
}
