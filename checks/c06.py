"""C06: a reused allocation context carries nothing from one run to the next.

Every part of the context is followed through one run (lib/stale.py), starting from what a run can leave there (a fixpoint over runs, ending
normally or with an error), and no part may be looked at while it still holds what an earlier run left."""
import sys
import mirdb
import stale
from effects import Effects
from query import Q
from stale import Stale, E, F

LEVEL = "other"
TECHNIQUE = "abstract interpretation (freshness of retained state, calls inlined, fixpoint over runs)"
C = ("C",)
ROUNDS = 8


def bumpy(db, ti, seen=()):
    """does a value of this type keep the arena alive"""
    if ti is None or ti in seen:
        return False
    t = db.types[ti]
    if t["k"] == "adt":
        if t["path"].split("::")[-1] == "Bump":
            return True
        a = db.adts.get(t["path"])
        if a is not None and a.get("local") and any(bumpy(db, f[1], seen + (ti,)) for v in a["variants"] for f in v["fields"]):
            return True
        return any(isinstance(x, int) and bumpy(db, x, seen + (ti,)) for x in t.get("args", ()))
    if t["k"] in ("tuple",):
        return any(bumpy(db, x, seen + (ti,)) for x in t.get("ts", ()))
    if t["k"] in ("array", "slice"):
        return bumpy(db, t["t"], seen + (ti,))
    return False


def short(u):
    return u.replace("regalloc2::", "")


def run(R, tier):
    sys.setrecursionlimit(20000)
    R.rule("read", "no part of the context is read, counted, iterated or extended while it may still hold what an earlier run left")
    R.rule("retained", "every part of the context is empty or zero whenever a run ends, or is reset before a run looks at it, or only keeps emptied elements for reuse")
    R.rule("output", "what is handed back holds nothing of an earlier run")
    R.rule("arena", "when the arena is reset nothing in the context still holds memory of it")
    db = mirdb.load("main")
    q = Q(db)
    eff = Effects(db, q)
    root = db.fn("run_with_ctx")
    # the argument that is the context
    ai = [i for i in range(1, root.argc + 1) if db.types[root.lty(i)]["k"] == "ref" and db.types[db.types[root.lty(i)]["t"]].get("path", "").endswith("data_structures::Ctx")]
    R.floor("context arguments of run_with_ctx", len(ai), 1)
    if not ai:
        return
    ci = db.types[root.lty(ai[0])]["t"]
    found = {}
    arena = {}

    def report(b, span, at, what, trail):
        part = ".".join(x for x in at[1]) if at is not None and at[0] == C else "value of %s" % b.lname(at[0][2]) if at is not None and at[0][0] == "L" and at[0][1] == b.u else "retained value"
        found.setdefault((part, short(b.u), what), (span, trail))

    st = Stale(db, q, eff, report)
    lv = st.leaves(ci)
    R.floor("parts of the context", len(lv), 50)
    st.ctypes = dict(lv)

    def onref(S, b, m, span, ti, tg, mut):
        # the results are exposed
        if ti is not None and not mut and db.types[ti].get("path") == "Output":
            w = S.worst(m, [x for x in tg if x[0] == C])
            exposed.append((b, span))
            for s in "SRP":
                if s in w:
                    found.setdefault((".".join(w[s][1]), short(b.u), "handed back"), (span, tuple(S.trail)))

    def unique(S, b, m, span, at):
        if at[0] == C:
            for p, ti in lv:
                v = S.get(m, C, p)
                if p != at[1] and bumpy(db, ti):
                    k = (".".join(p), ":".join(map(str, span[:2])))
                    arena[k] = arena.get(k, True) and v == E

    st.hooks["ref"] = onref
    st.hooks["unique"] = unique
    exposed = []
    # what a new context holds
    new = [b for b in db.local_bodies() if b.name == "default" and b.argc == 0 and b.lty(0) == ci]
    start = {p: "S" for p, _ in lv}
    R.floor("constructors of a context", len(new), 1)
    if new:
        res = st.call1(new[0].u, [], {})
        if res is not None:
            for p, ti in lv:
                ok = st.allE({q[len(p):]: v for q, v in res[0].items() if q[:len(p)] == p} or {(): st.sub(res[0], p)}, ti)
                start[p] = "E" if ok else "S"
    R.floor("parts that are empty in a new context", sum(1 for s in start.values() if s == "E"), 50)
    for p in start:
        if p[0] == "output":
            start[p] = "S"      # may be changed by whoever owns the context
    entry = dict(start)
    rounds = 0
    while True:
        rounds += 1
        found.clear()
        arena.clear()
        del exposed[:]
        st.memo.clear()
        st.funcs.clear()
        args = [{(): F} for _ in range(root.argc)]
        args[ai[0] - 1] = {(): ("ptr", frozenset([(C, ())]), True)}
        res = st.call1(root.u, args, {C: {p: ("st", s) for p, s in entry.items()}})
        if res is None:
            R.violation("the run is not understood", root.where())
            return
        nxt = {}
        for p, _ in lv:
            v = st.get(res[1], C, p)
            s = v[1] if v[0] == "st" else "S"
            s = "E" if s == "E" else "P" if s in "QP" else "S"
            nxt[p] = stale.jst(entry[p], s)
        if nxt == entry or rounds > ROUNDS:
            break
        entry = nxt
    R.count("runs until nothing changes", rounds)
    R.floor("functions followed", len(st.funcs), 150)
    R.count("calls followed", len(st.memo))
    for u in sorted(st.funcs):
        R.sawfn(db.bodies[u])
    bad = {}
    for (part, fn, what), (span, trail) in sorted(found.items()):
        bad.setdefault(part, []).append((fn, what, span))
    for p, _ in lv:
        k = ".".join(p)
        hits = bad.pop(k, [])
        R.ob("retained", k, not hits, hits[0][0] if hits else "", "still holds what an earlier run left (%s at the start of a run)" % {"E": "empty", "P": "emptied elements", "S": "anything"}[entry[p]])
        for fn, what, span in hits:
            at = ":".join(map(str, (span or ["?"])[:2]))
            R.ob("output" if what == "handed back" else "read", "%s in %s: %s" % (k, fn, what), False, at, "%s is %s while it may hold what an earlier run left" % (k, what))
    for part, hits in sorted(bad.items()):
        for fn, what, span in hits:
            at = ":".join(map(str, (span or ["?"])[:2]))
            R.ob("read", "%s in %s: %s" % (part, fn, what), False, at, "a value that may come from an earlier run is %s" % what)
    R.count("parts that may hold anything when a run starts", sum(1 for s in entry.values() if s == "S"))
    R.count("parts that are empty between runs", sum(1 for s in entry.values() if s == "E"))
    R.count("parts that keep emptied elements", sum(1 for s in entry.values() if s == "P"))
    R.floor("places where the results are handed back", len(exposed), 1)
    R.count("parts that could hold memory of the arena when it is reset", len(arena))
    for (p, at), ok in sorted(arena.items()):
        R.ob("arena", "%s at %s" % (p, at.split(":")[0]), ok, at, "%s may still hold memory of the arena when the arena is reset" % p)
