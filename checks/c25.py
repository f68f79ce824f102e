"""C25: logging and annotations do not influence allocation results."""
import mirdb
from query import Q
from effects import Effects, callee, cu
from collections import Counter

TECHNIQUE = ("noninterference: interprocedural taint of the logging flags over MIR, control dependence (post-dominators) of every branch on a flag, "
             "and an interprocedural analysis of what the code under such a branch may change")
LEVEL = "other"

SKIP = ("fuzzing", "serde", "checker::", "serialize::")


class Flags:
    def __init__(self, db, q, R):
        self.db, self.q, self.R = db, q, R
        self.E = Effects(db, q)
        self.bodies = [b for b in q.bodies() if not any(s in b.path for s in SKIP) and not b.derived]
        self.inset = {b.u for b in self.bodies}
        self.E.solve(self.bodies)
        self.tl, self.tf, self.tr = set(), set(), set()  # tainted locals (u, l), fields (adt, name), results (u)
        self.why = {}

    # -- sources
    def log_source(self, f):
        u = cu(f)
        return u.startswith("log::") and f["name"] in ("max_level", "enabled", "logger", "log_enabled")

    def optfield(self):
        return {(a, f[0]) for a, d in self.db.adts.items() if d.get("local") and a.split("::")[-1] == "RegallocOptions" for f in d["variants"][0]["fields"] if f[0] == "verbose_log"}

    def unit(self, ti):
        t = self.db.types[ti]
        return t["k"] == "tuple" and not t.get("ts") or t["k"] == "never"

    def taint(self, k, why):
        s = {"l": self.tl, "f": self.tf, "r": self.tr}[k[0]]
        x = k[1:] if k[0] != "r" else k[1]
        if x not in s:
            s.add(x)
            self.why[k] = why
            self.changed = True

    def tplace(self, b, pl):
        if (b.u, pl[0]) in self.tl:
            # the flag itself, or something holding it in which fields are told apart
            return True
        if len(pl) > 1:
            for a, f in self.q.fields_of_place(b, pl):
                if a and (a, f) in self.tf:
                    return True
            if "{closure" in b.u and pl[0] == 1:
                c = self.E.P.closures().get(b.u)
                fs = [p for p in pl[1:] if p != "*" and p[0] == "f"]
                if c and fs and fs[0][1] < len(c[1]):
                    return self.top(c[0], c[1][fs[0][1]])
            if any(p != "*" and p[0] == "i" and (b.u, p[1]) in self.tl for p in pl[1:]):
                return True
        return False

    def top(self, b, o):
        return o[0] != "k" and self.tplace(b, o[1])

    def rv_ops(self, rv):
        k = rv[0]
        if k in ("use",):
            return [rv[1]]
        if k == "cast":
            return [rv[2]]
        if k == "bin":
            return [rv[2], rv[3]]
        if k == "un":
            return [rv[2]]
        if k == "repeat":
            return [rv[1]]
        if k == "agg":
            return rv[2]
        if k in ("ref", "raw", "discr", "len"):
            return [["cp", rv[1]]]
        return []

    def solve(self):
        self.tf |= self.optfield()
        self.regions = {}
        self.changed = True
        self.rounds = 0
        while self.changed:
            self.changed = False
            self.rounds += 1
            for b in self.bodies:
                self.flow(b)
            for b in self.bodies:
                self.implicit(b)

    def store(self, b, pl, why):
        if self.unit(b.lty(pl[0])) and len(pl) == 1:
            return
        fs = [(a, f) for a, f in self.q.fields_of_place(b, pl) if a]
        adt = fs[-1] if fs else None
        if adt and self.db.adts.get(adt[0], {}).get("local"):
            self.taint(("f",) + adt, why)
        elif len(pl) == 1 or not any(p == "*" or p[0] == "*" for p in pl[1:]):
            self.taint(("l", b.u, pl[0]), why)
        else:
            for r, p in self.E.place(b, pl):
                if r[0] in ("local", "arg"):
                    self.taint(("l", r[1], r[2]), why)

    def flow(self, b):
        for bb in range(len(b.blocks)):
            bl = b.blocks[bb]
            if bl.get("cleanup"):
                continue
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and self.db.adts.get(rv[1][1], {}).get("local"):
                    a = self.db.adts[rv[1][1]]
                    v = a["variants"][rv[1][2] if len(rv[1]) > 2 and isinstance(rv[1][2], int) and rv[1][2] < len(a["variants"]) else 0]
                    for i, o in enumerate(rv[2]):
                        if self.top(b, o):
                            self.taint(("f", rv[1][1], v["fields"][i][0] if i < len(v["fields"]) else str(i)), "stored in %s" % b.path)
                    continue
                if rv[0] == "agg" and rv[1][0] == "closure":
                    continue
                if any(self.top(b, o) for o in self.rv_ops(rv)):
                    self.store(b, s[1], "assigned in %s" % b.path)
            t = bl["t"]
            if t[0] == "call":
                f = callee(t)
                if f is not None and self.log_source(f):
                    self.store(b, t[3], "read in %s" % b.path)
                    continue
                ts = [self.top(b, a) for a in t[2]]
                u = cu(f) if f is not None else None
                cb = self.db.bodies.get(u)
                if cb is not None and u in self.inset:
                    for i, x in enumerate(ts):
                        if x and i + 1 <= cb.argc:
                            self.taint(("l", u, i + 1), "passed by %s" % b.path)
                    if u in self.tr:
                        self.store(b, t[3], "result of %s" % cb.path)
                elif any(ts):
                    self.store(b, t[3], "computed in %s" % b.path)
                    if (b.u, bb) not in self.inregion:
                        for a, x in zip(t[2], ts):
                            if not x and a[0] != "k":
                                ty = self.E.opty(b, a)
                                if ty is not None and self.E.mutty(ty):
                                    self.sink(b, t[5], "is given to %s together with %s" % (f["name"] if f else "a function", b.lname(a[1][0])))
            elif t[0] == "ret" and (b.u, 0) in self.tl:
                self.taint(("r", b.u), "returned by %s" % b.path)

    inregion = frozenset()
    sinks = None

    def sink(self, b, span, msg):
        self.sinks = self.sinks or {}
        self.sinks.setdefault((b.path, msg), ":".join(map(str, (span or ["?"])[:2])))

    def implicit(self, b):
        for bb in range(len(b.blocks)):
            t = b.blocks[bb]["t"]
            if b.blocks[bb].get("cleanup") or t[0] != "switch" or not self.top(b, t[1]):
                continue
            blocks, join = self.E.region(b, bb)
            if self.regions.get((b.u, bb)) != (blocks, join):
                self.regions[(b.u, bb)] = (blocks, join)
                self.inregion = self.inregion | {(b.u, x) for x in blocks}
                self.changed = True
            # what is assigned under the branch and read after it
            for l in self.assigned(b, blocks):
                if not self.unit(b.lty(l)) and self.read_outside(b, l, blocks):
                    self.taint(("l", b.u, l), "chosen by a branch on the flag in %s" % b.path)

    def assigned(self, b, blocks):
        out = set()
        for x in blocks:
            for s in b.blocks[x]["s"]:
                if s[0] == "=" and not any(p == "*" or p[0] == "*" for p in s[1][1:]):
                    out.add(s[1][0])
            t = b.blocks[x]["t"]
            if t[0] == "call" and not any(p == "*" or p[0] == "*" for p in t[3][1:]):
                out.add(t[3][0])
        return out

    def reads(self, b):
        if not hasattr(self, "_rd"):
            self._rd = {}
        if b.u not in self._rd:
            r = {}
            def pl(p, bb, skip=False):
                if not skip:
                    r.setdefault(p[0], set()).add(bb)
                for x in p[1:]:
                    if x != "*" and x[0] == "i":
                        r.setdefault(x[1], set()).add(bb)
            for bb, bl in enumerate(b.blocks):
                if bl.get("cleanup"):
                    continue
                for s in bl["s"]:
                    if s[0] == "=":
                        for o in self.rv_ops(s[2]):
                            if o[0] != "k":
                                pl(o[1], bb)
                        pl(s[1], bb, len(s[1]) == 1 or not any(p == "*" or p[0] == "*" for p in s[1][1:]))
                t = bl["t"]
                if t[0] == "call":
                    for o in [t[1]] + list(t[2]):
                        if o[0] != "k":
                            pl(o[1], bb)
                elif t[0] in ("switch", "assert") and t[1][0] != "k":
                    pl(t[1][1], bb)
                elif t[0] == "ret":
                    r.setdefault(0, set()).add(bb)
            self._rd[b.u] = r
        return self._rd[b.u]

    def read_outside(self, b, l, blocks):
        return bool(self.reads(b).get(l, set()) - blocks)

    def local_to(self, b, l, blocks):
        """the local is not seen outside of code that runs under a flag"""
        return all(x in blocks or (b.u, x) in self.inregion for x in self.reads(b).get(l, ()))


def run(R, tier):
    R.rule("region", "code that runs only when a logging flag is set (or clear) changes nothing but annotation state and values of its own, and both ways meet again")
    R.rule("flag", "a logging flag is only stored in flags, passed on, combined and branched on: no other value is computed from it")
    R.rule("annotation", "what is changed only for logging is read only by code that runs for logging")
    R.rule("config", "compiling the trace logging in adds code under logging flags only")
    db = mirdb.load("trace")
    q = Q(db)
    F = Flags(db, q, R)
    F.solve()
    E = F.E
    # -- regions
    ann = set()
    nreg = 0
    callee_regions = set()
    logonly = {}
    for (u, bb), (blocks, join) in sorted(F.regions.items()):
        b = db.bodies[u]
        R.sawfn(b)
        nreg += 1
        span = b.blocks[bb]["t"][5] if len(b.blocks[bb]["t"]) > 5 else b.span
        where = "%s %s" % (b.path, ":".join(map(str, span[:2])))
        bad = []
        if any(b.blocks[x]["t"][0] == "ret" for x in blocks):
            bad.append("it may return")
        for x in sorted(blocks):
            if b.blocks[x].get("cleanup"):
                continue
            for r, p, sp, w in E.block(b, x):
                at = ":".join(map(str, (sp or ["?"])[:2]))
                if r[0] == "temp":
                    continue
                if r[0] == "local":
                    if r[1] == u and not p and w in ("assignment", "result of a call"):
                        continue  # seen outside: tainted
                    if r[1] == u and F.local_to(b, r[2], blocks):
                        continue
                    if r[1] == u and (u, r[2]) in F.tl and w == "assignment":
                        continue
                    if r[1] != u:
                        bad.append("%s changes a variable of an enclosing function (%s)" % (at, w))
                    else:
                        bad.append("%s changes %s (%s)" % (at, b.lname(r[2]), w))
                    continue
                if r[0] == "arg":
                    ty = db.types[db.bodies[r[1]].lty(r[2])]
                    fs = [x for x in p if x not in ("ctx", "inner", "0")]
                    if ty.get("t") is not None and "Formatter" in db.types[ty["t"]]["s"]:
                        continue
                    if fs:
                        ann.add(fs[0])
                        continue
                    bad.append("%s changes what argument %d leads to (%s)" % (at, r[2], w))
                    continue
                bad.append("%s %s" % (at, w))
        R.ob("region", "code under the flag at block %d of %s" % (bb, b.path), not bad, where, "; ".join(bad[:3]))
    R.floor("branches on logging flags", nreg, 60)
    # -- flags
    for (adt, f) in sorted(F.tf):
        ty = [x[1] for v in db.adts[adt]["variants"] for x in v["fields"] if x[0] == f]
        ok = all(db.types[t]["k"] == "bool" for t in ty) and not output_like(db, adt)
        R.ob("flag", "field %s.%s holds a flag" % (adt, f), ok, adt, F.why.get(("f", adt, f), "") + ": the field is not a plain flag, or is part of the result")
    for u in sorted(F.tr):
        b = db.bodies[u]
        t = db.types[b.lty(0)]
        R.ob("flag", "what %s returns" % b.path, t["k"] == "bool" or log_type(db, b.lty(0)), b.path, "a value other than a flag depends on a logging flag: " + F.why.get(("r", u), ""))
    for (u, l) in sorted(F.tl):
        b = db.bodies[u]
        t = db.types[b.lty(l)]
        while t["k"] == "ref":
            t = db.types[t["t"]]
        ok = t["k"] == "bool" or log_type(db, b.lty(l)) or t["k"] == "closure" or t["k"] == "adt" and t["path"].split("::")[-1] == "RegallocOptions"
        R.ob("flag", "variable %s of %s" % (b.lname(l), b.path), ok, "%s %s" % (b.path, b.lname(l)), "the variable of type %s depends on a logging flag: %s" % (t["s"], F.why.get(("l", u, l), "")))
    for (p, msg), at in sorted((F.sinks or {}).items()):
        R.ob("flag", "use in %s" % p, False, "%s %s" % (p, at), "a value that depends on a logging flag " + msg)
    R.count("flag fields", len(F.tf))
    R.count("flag variables", len(F.tl))
    # -- annotation state
    lo = log_only(F, q)
    inreg = F.inregion
    for f in sorted(ann):
        readers = []
        n = 0
        for b in F.bodies:
            if b.u in lo or b.derived:
                continue
            for bb, bl in enumerate(b.blocks):
                if bl.get("cleanup") or (b.u, bb) in inreg:
                    continue
                for s in bl["s"]:
                    if s[0] != "=":
                        continue
                    for o in F.rv_ops(s[2]):
                        if o[0] != "k" and any(x == f for a, x in q.fields_of_place(b, o[1])):
                            if s[2][0] == "ref" and only_reset(b, bb, s[1][0]):
                                n += 1
                                continue
                            readers.append("%s %s" % (b.path, ":".join(map(str, s[3][:2]))))
                t = bl["t"]
                if t[0] == "call":
                    for o in t[2]:
                        if o[0] != "k" and any(x == f for a, x in q.fields_of_place(b, o[1])):
                            readers.append("%s %s" % (b.path, ":".join(map(str, t[5][:2]))))
        R.ob("annotation", "field %s, changed under a logging flag" % f, not readers, f, "it is read by code that also runs when nothing is logged: " + "; ".join(readers[:3]))
    R.count("fields changed for logging only", len(ann))
    R.count("functions that run for logging only", len(lo))
    # -- the same code without trace logging
    db2 = mirdb.load("main")
    q2 = Q(db2)
    F2 = Flags(db2, q2, R)
    F2.solve()
    lo2 = log_only(F2, q2)
    n = 0
    for b in F.bodies:
        if b.u in lo or b.is_prom:
            continue
        b2 = db2.bodies.get(b.u)
        if b2 is None:
            if "{closure" in b.u:
                continue
            R.ob("config", b.path, False, b.path, "the function exists only when trace logging is compiled in and is used for more than logging")
            continue
        if b.u in lo2:
            continue
        x, y = outline(F, b), outline(F2, b2)
        n += 1
        d = (x - y) + (y - x)
        if d:
            R.ob("config", b.path, False, b.path, "outside of logging the code differs between builds with and without trace logging: %s" % ", ".join(sorted(map(str, d))[:3]))
    R.count("functions compared with and without trace logging", n)
    R.ob("config", "functions compared with and without trace logging", n > 300, "", "only %d" % n)


def log_type(db, ti):
    t = db.types[ti]
    while t["k"] == "ref":
        t = db.types[t["t"]]
    return t["k"] == "adt" and (t["path"].startswith("log::") or "Option" in t["path"] and any(isinstance(a, int) and log_type(db, a) for a in t.get("args", ()))) or t["s"].startswith("core::fmt") \
        or t["s"].startswith("std::fmt") or t["k"] == "tuple" and all(db.types[x]["k"] == "bool" or log_type(db, x) for x in t.get("ts", ()))


def output_like(db, adt):
    n = adt.split("::")[-1]
    return n in ("Output", "Stats", "Edit", "Allocation", "Operand", "RegAllocError", "ProgPoint", "SpillSlot", "PReg", "VReg", "MachineEnv", "PRegSet")


def log_only(F, q):
    """functions that are called under logging flags only"""
    callers = {}
    for b in F.bodies:
        for bb, bl in enumerate(b.blocks):
            if bl.get("cleanup"):
                continue
            refs = set()
            t = bl["t"]
            if t[0] == "call":
                f = callee(t)
                if f is not None:
                    refs.add(cu(f))
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    refs.add(s[2][1][1])
            for r in refs:
                callers.setdefault(r, []).append((b.u, bb))
    # Debug and Display run when something is formatted
    lo = {b.u for b in F.bodies if b.trait and b.trait.split("::")[-1] in ("Debug", "Display")}
    roots = ("run", "run_with_ctx")
    ch = True
    cand = {b.u for b in F.bodies if b.path not in roots and b.u in callers and not b.trait and b.u not in lo}
    # greatest fixpoint
    while ch:
        ch = False
        for u in sorted(cand):
            if not all((c, bb) in F.inregion or c in cand or c in lo for c, bb in callers[u]):
                cand.discard(u)
                ch = True
    # a group that only calls itself is not called for logging: it must be reachable from a region
    keep, st = set(), [u for u in cand if any((c, bb) in F.inregion or c in lo for c, bb in callers[u])]
    while st:
        u = st.pop()
        if u in keep:
            continue
        keep.add(u)
        st += [v for v in cand if any(c == u for c, _ in callers[v])]
    return keep | lo


def only_reset(b, bb, l):
    """the reference is only handed to a call that empties what it refers to, and gives nothing back"""
    uses = 0
    alias = {l}
    for bl in b.blocks:
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] in ("use", "ref", "cast"):
                o = s[2][1] if s[2][0] == "ref" else (s[2][1][1] if s[2][0] == "use" and s[2][1][0] != "k" else s[2][2][1] if s[2][0] == "cast" and s[2][2][0] != "k" else None)
                if o and o[0] in alias and s[1][0] not in alias:
                    alias.add(s[1][0])
        t = bl["t"]
        if t[0] == "call" and any(a[0] != "k" and a[1][0] in alias for a in t[2]):
            f = callee(t)
            if f is None or f["name"] not in ("clear", "drop", "truncate"):
                return False
            uses += 1
    return uses > 0


def live_blocks(F, b):
    """blocks reachable when branches on compile-time constants are taken one way only"""
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = b.blocks[x]["t"]
        v = None
        if t[0] == "switch":
            o = t[1]
            if o[0] != "k" and len(o[1]) == 1:
                ds = F.E.P.defs(b).get(o[1][0], [])
                if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "use":
                    o = ds[0][2][1]
            if o[0] == "k" and isinstance(o[1].get("v"), (int, bool, str)) and o[1].get("c") in ("int", "bool"):
                v = int(o[1]["v"])
        if v is not None:
            st.append(dict((int(a), y) for a, y in t[2]).get(v, t[3]))
        else:
            st += b.succs(x)
    return seen


def outline(F, b):
    """what a body does outside of logging: the calls it makes and the memory it writes"""
    reach = live_blocks(F, b)
    c = Counter()
    for bb in reach:
        bl = b.blocks[bb]
        if bl.get("cleanup") or (b.u, bb) in F.inregion:
            continue
        for s in bl["s"]:
            if s[0] == "=" and any(p == "*" or p[0] == "*" for p in s[1][1:]):
                c[("write",) + tuple(f for a, f in F.q.fields_of_place(b, s[1]))] += 1
            if s[0] == "=" and s[2][0] == "bin":
                c[("bin", s[2][1])] += 1
        t = bl["t"]
        if t[0] == "call":
            f = callee(t)
            if f is None:
                c["call"] += 1
            elif not cu(f).startswith("log::") and f["name"] not in ("le", "lt", "ge", "partial_cmp") and "fmt" not in cu(f):
                c[("call", cu(f))] += 1
    return c
