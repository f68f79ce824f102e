"""What the scratch resolver is given: registers that are free, slots that are fresh, an exact stack test, one register class; and what becomes of its placeholders."""
from paths import *
from sem import *
from query import Q
from resolver import resolver_body, ssubst, _names
import bump

SMALL = ("Allocation", "SpillSlot", "PReg", "VReg", "Block", "Inst", "ProgPoint", "OperandPos")


class WatchInterp(PathInterp):
    """keeps the state in which selected calls are made"""

    def __init__(self, db, watch, *a, **k):
        super().__init__(db, *a, **k)
        self.watch, self.snaps = watch, []

    def event(self, st, fr, bb, kind, name, args, res=None, span=None, extra=None):
        e = super().event(st, fr, bb, kind, name, args, res, span, extra)
        if kind == "call" and not self.dry and extra and self.watch(extra["f"]):
            self.snaps.append((st.copy(), fr, e))
        return e


def watch_explore(db, body, watch, noinline):
    I = WatchInterp(db, watch, noinline=noinline)
    st = St()
    args = symargs(db, body, st)
    r = I.analyse(body, args, st)
    out = [("ret", s, v) for s, v in r]
    out += [("back", s, key) for _, key, s, _ in I.ends]
    return I, out


def opaque_big(b):
    return b.local and not is_closure(b) and b.path.split("::")[0] not in SMALL


def names(t):
    return set(_names(t))


def field_names(t):
    out = set()
    for x in subterms(t):
        if x.op in ("fld",):
            out.add(str(x.args[1]))
        elif x.op in ("ref", "hv"):
            out |= {str(p[2]) if isinstance(p, tuple) and len(p) > 2 else str(p) for p in x.args[1]}
    return out


def calls_in(t, name):
    return [x for x in subterms(t) if x.op in ("call", "res") and x.args[0].split("::")[-1] == name]


class Splits:
    def __init__(self, db, R, S=None):
        self.db, self.R = db, R
        self.S = S or Sem("main")
        self.target = resolver_body(db)
        self.adt = "moves::MoveAndScratchResolver"
        fs = db.adts[self.adt]["variants"][0]["fields"]
        self.fidx = {f[0]: i for i, f in enumerate(fs)}
        self.sites = []
        q = Q(db)
        bodies = {}
        for b, bb, ops, var, sp in q.constructs("MoveAndScratchResolver"):
            if b.local and not b.path.startswith("fuzzing"):
                r = b
                while is_closure(r):
                    r = db.bodies[r.u.rsplit("::{closure", 1)[0]]
                bodies[r.u] = r
        self.bodies = list(bodies.values())
        for b in self.bodies:
            R.sawfn(b)
            I, paths = watch_explore(db, b, lambda f: target(f) == self.target.u, opaque_big)
            R.saw(I)
            R.paths += len(paths)
            if not I.snaps:
                # the resolver is built here and run in a caller: look at the callers
                raise MissingAnchor("the run of the scratch resolver built in " + b.path)
            self.sites.append((b, I, paths, I.snaps))

    def ctor(self, spec, *a):
        I, r, p = self.S.call(spec, list(a))
        vals = {v for _, v in r}
        return next(iter(vals)) if len(vals) == 1 else None

    def inverse(self, v, spec, wrap):
        """X such that spec(wrap(X)) is v"""
        # every candidate occurs in the bits of v
        cands = []
        for x in subterms(v):
            if x.op == "bv":
                for p in x.args[1]:
                    if isinstance(p, tuple) and isinstance(p[0], T) and p[0] not in cands:
                        cands.append(p[0])
        for c in cands:
            for w in wrap(c):
                if self.ctor(spec, w) is v:
                    return w
        return None

    def preg_of(self, v):
        """P such that v is Allocation::reg(P)"""
        p = self.S.adt("PReg")

        def wrap(c):
            if c.op == "fld" and c.args[1] in ("bits", "0"):
                yield c.args[0]
            yield T("agg", p, 0, c)
        return self.inverse(v, "Allocation::reg", wrap)

    def slot_of(self, v):
        s = self.S.adt("SpillSlot")
        w = self.inverse(v, "Allocation::stack", lambda c: [T("agg", s, 0, c)])
        return w.args[2] if w is not None else None

    def snapshots(self, snaps):
        seen = set()
        for st, fr, e in snaps:
            a = e.args[0]
            if a.op != "agg" or a.args[0] != self.adt:
                yield st, fr, e, None
                continue
            caps = {}
            for name, i in self.fidx.items():
                x = a.args[2 + i]
                if x.op == "agg" and str(x.args[0]).startswith("closure:"):
                    caps[name] = (x.args[0][8:], [self.deep(st, c) for c in x.args[2:]], list(x.args[2:]))
                else:
                    caps[name] = (None, [x], None)
            k = repr([(n, c[0], [t._id for t in c[1]]) for n, c in sorted(caps.items())]) + str(e.args[1]._id)
            if k in seen:
                continue
            seen.add(k)
            yield st, fr, e, caps

    def carried(self, I, paths, t, d=0):
        """a value carried round the loop over the classes, changed only by the resolver's own calls, stands for its value before the loop"""
        if t.op != "phi" or len(t.args) < 3 or t.args[2] or d > 3:
            return t
        key, root = t.args[0], t.args[1]
        for k, s, kk in paths:
            if k == "back" and kk == key:
                v = s.mem.get(root)
                if v is not t and not (v is not None and v.op == "hv" and v.args[0] == root and not v.args[1]):
                    return t
        es = {e.mem.get(root) for e in I.entries.get(key, [])}
        if len(es) == 1 and None not in es:
            return self.carried(I, paths, next(iter(es)), d + 1)
        vs = [v for v in es if v is not None]
        # several ways into the loop: take one that reads the same fields as the others
        if vs and len({tuple(sorted(field_names(v))) for v in vs}) == 1:
            return self.carried(I, paths, vs[0], d + 1)
        return t

    def deep(self, st, c):
        n = 0
        while c.op == "ref" and n < 4:
            c = self.db and self.load(st, c)
            n += 1
        return c

    def load(self, st, c):
        return PathInterp(self.db).load(st, c)

    # ------------------------------------------------------------------
    def closure(self, u):
        b = self.db.bodies[u]
        I, paths = explore(self.db, b, None, noinline=lambda x: x.local and x.name in ("next", "last", "contains", "remove", "contains_key", "is_stack") and x.path.split("::")[0] not in ("Allocation",))
        self.R.saw(I)
        self.R.sawfn(b)
        self.R.paths += len(paths)
        return b, I, paths

    def subst_caps(self, t, caps):
        """replace what is read through the closure's captures by what they hold"""
        me = T("sym", "arg1")

        def f(x):
            if x.op == "deref":
                y = x
                n = 0
                while y.op == "deref":
                    y = y.args[0]
                    n += 1
                if y.op == "fld" and y.args[0] is me and str(y.args[1]).isdigit() and int(y.args[1]) < len(caps):
                    return caps[int(y.args[1])]
            if x.op == "fld" and x.args[0] is me and str(x.args[1]).isdigit() and int(x.args[1]) < len(caps):
                return caps[int(x.args[1])]
            return None
        return ssubst(self.db, t, f)

    def cap_index(self, t):
        """indices of captures t depends on"""
        me = T("sym", "arg1")
        return {int(x.args[1]) for x in subterms(t) if x.op == "fld" and x.args[0] is me and str(x.args[1]).isdigit()}

    def klass(self, b, st, e, caps, rule):
        """the class index term of the victim register: every part of the resolver must use the same"""
        v = caps["borrowed_scratch_reg"][1][0] if "borrowed_scratch_reg" in caps else None
        if v is None:
            return None
        if v.op == "deref":
            v = v.args[0]
        if v.op in ("call", "res") and v.args[0].split("::")[-1] == "index":
            base, ix = v.args[-2], v.args[-1]
        elif v.op == "idx":
            base, ix = v.args
        elif v.op == "fld" and v.args[0].op == "idx":
            base, ix = v.args[0].args
        else:
            base, ix = v, None
        okb = "preferred_victim" in str(base) and ix is not None
        self.R.ob(rule, "the register borrowed as a last resort is the preferred victim of a class", okb, site(e), str(v)[:160])
        return ix if okb else None

    def class_terms(self, ix):
        """terms of class type ix is computed from"""
        out = {ix}
        for x in subterms(ix):
            if x.op == "discr":
                out.add(x.args[0])
        return out

    def same_class(self, t, ix):
        ks = self.class_terms(ix)
        return any(x in ks for x in subterms(t))

    # ------------------------------------------------------------------
    def run(self, rule21, rule5):
        R = self.R
        R.floor("functions that run the scratch resolver", len(self.sites), 2)
        for b, I, paths, snaps in self.sites:
            n = 0
            for st, fr, e, caps in self.snapshots(snaps):
                n += 1
                if caps is None or any(caps[k][0] is None for k in ("find_free_reg", "get_stackslot", "is_stack_alloc")):
                    R.ob(rule21, "the parts of the resolver are found", False, site(e), str(e.args[0])[:120])
                    continue
                if rule5:
                    self.is_stack(b, caps["is_stack_alloc"], e, rule5)
                if rule21:
                    caps = {k: (c[0], [self.carried(I, paths, x) for x in c[1]], c[2]) for k, c in caps.items()}
                    ix = self.klass(b, st, e, caps, rule21)
                    if ix is None:
                        continue
                    self.moves_class(b, I, paths, st, e, ix, rule21)
                    self.free_reg(b, caps["find_free_reg"], e, ix, rule21)
                    self.stack_slot(b, caps["get_stackslot"], e, ix, rule21, st)
            R.floor("runs of the resolver in %s" % b.path, n, 1)
            if rule21:
                self.placeholders(b, I, paths, snaps, rule21)

    def moves_class(self, b, I, paths, st, e, ix, rule):
        """the moves handed over are resolved from a list that only holds moves of this class"""
        R = self.R
        m = e.args[1]
        # the list of (class, moves) pairs that is walked
        E = None
        terms = [ix] + [m] + [a for (r, p), d in self.fills(paths).items() for ev in d.values() for a in ev.args[1:] if any(y.op == "phi" and y.args[1] == r for y in subterms(m))]
        for t0 in terms:
            for x in subterms(t0):
                if x.op == "fld" and x.args[0].op == "idx" and x.args[0].args[0].op == "agg" and all(isinstance(t, T) and t.op == "agg" and t.args[0] == "tuple" for t in x.args[0].args[0].args[2:]):
                    ts = x.args[0].args[0].args[2:]
                    cis = [i for i in range(len(ts[0].args) - 2) if all(t.args[2 + i].op == "agg" and t.args[2 + i].args[0].split("::")[-1] == "RegClass" for t in ts)]
                    if cis:
                        E, ci = x.args[0], cis[0]
        if E is None:
            R.count("class pairings not followed", 1)
            return
        me = T("fld", E, str(ci))
        R.ob(rule, "the moves of one class are split with a register of that class", any(x is me or x.op == "fld" and x.args[0] is E and str(x.args[1]) == str(ci) for x in subterms(ix)), site(e), str(ix)[:120])
        pairs = {}
        for t in E.args[0].args[2:]:
            cl = t.args[2 + ci]
            other = [x for i, x in enumerate(t.args[2:]) if i != ci]
            roots = set()
            for o in other:
                for y in subterms(o):
                    if y.op == "ref":
                        roots.add((y.args[0], y.args[1]))
                    elif y.op == "phi":
                        roots.add((y.args[1], ()))
            if cl.op == "agg" and len(roots) == 1:
                pairs[cl.args[1]] = next(iter(roots))
        if not pairs:
            R.count("class pairings not followed", 1)
            return
        fills = self.fills(paths)
        direct = any(x is E for x in subterms(m))
        if not direct:
            # through another list: everything in it comes from the pair that is being handled
            src = {y.args[1] for y in subterms(m) if y.op == "phi"}
            evs = [ev for (r, p), d in fills.items() if r in src for ev in d.values()]
            R.ob(rule, "the moves of one class are resolved together", bool(evs) and all(any(x is E for a in ev.args[1:] for x in subterms(a)) for ev in evs), site(e), "moves of other classes are added")
        for k, r in pairs.items():
            evs = list(fills.get(r, {}).values())
            bad = [ev for ev in evs if not self.has_class(ev, k)]
            R.ob(rule, "only moves of a class are split with a register of that class", bool(evs) and not bad, site(bad[0]) if bad else site(e), "moves of another class than %d" % k)

    def fills(self, paths):
        fills = {}
        for k, s, v in paths:
            for ev in s.events():
                n = ev.name.split("::")[-1]
                if ev.kind == "call" and n in ("push", "add", "extend") and ev.args and ev.args[0].op == "ref":
                    fills.setdefault((ev.args[0].args[0], tuple(ev.args[0].args[1])), {})[(ev.args, tuple(sorted((f._id, str(x)) for f, x in ev.facts.items())))] = ev
        return fills

    def has_class(self, ev, k):
        args = set(a for a in ev.args[1:])
        inner = {x for a in args for x in subterms(a)}
        for f, v in ev.facts.items():
            if isinstance(v, bool) or v != k:
                continue
            for y in subterms(f):
                if y.op == "fld" and y.args[1] == "bits" and (y.args[0] in inner or y in inner or any(z in args for z in subterms(y))):
                    return True
            if f.op == "discr" and any(z in inner for z in subterms(f)):
                return True
        return False

    # ---- free registers
    def free_reg(self, b, part, e, ix, rule):
        R = self.R
        u, caps, refs = part
        cb, I, paths = self.closure(u)
        self.cur = paths
        for k, s, v in paths:
            if k != "ret":
                continue
            if not (v.op == "agg" and v.args[0].split("::")[-1] == "Option"):
                R.ob(rule, "a free register is offered or not", False, cb.where(), str(v)[:100])
                continue
            if v.args[1] == 0:
                continue
            P = self.preg_of(v.args[2])
            if P is None:
                R.ob(rule, "what is offered is a register", False, cb.where(), str(v)[:140])
                continue
            why = self.origin(cb, I, s, P, caps, ix)
            R.ob(rule, "a register offered as free is in no use at the moves and is not offered twice", why is None, cb.where(), why or "")

    def origin(self, cb, I, s, P, caps, ix):
        x = P
        # payload of an Option
        base = None
        if x.op in ("vf", "as") or x.op == "fld" and x.args[0].op == "as":
            base = x.args[0] if x.op == "vf" else x.args[0].args[0]
        if base is None:
            return "its origin is not understood: %s" % str(P)[:120]
        if base.op in ("call", "res"):
            nm = base.args[0].split("::")[-1]
            real = [self.subst_caps(a, caps) if isinstance(a, T) else a for a in base.args[1:]]
            if nm == "next":
                src = [a for a in real if isinstance(a, T)]
                if not any(calls_in(a, "new") and self.same_class(a, ix) for a in src):
                    return "the registers tried are not those of the class of the moves"
                return self.unused(cb, I, s, P, caps)
            if nm in ("last", "and_then", "iter", "into_iter", "max_by_key", "first"):
                t = [a for a in real if isinstance(a, T)]
                if not any("lrus" in field_names(a) and self.same_class(a, ix) for a in t):
                    return "the register is not taken from the recency list of the class of the moves"
                avail = [a for a in t if {"available_pregs"} & field_names(a)]
                if not any(self.both_available(a) for a in avail):
                    return "the register need not be available both before and after the instruction"
                ci = self.cap_index(base.args[-1])
                rem = [e for e in s.events() if e.kind == "call" and e.name.split("::")[-1] == "remove" and any(self.cap_index((e.extra or {}).get("nargs", e.args)[0]) & ci for _ in (0,)) and any(P is a for a in e.args[1:])]
                if not rem:
                    return "the register stays available after it has been handed out"
                return None
            if nm in ("take", "replace"):
                base = base.args[1] if isinstance(base.args[1], T) else base
            else:
                return "its origin is not understood: %s" % str(P)[:120]
        # payload of a captured Option
        ci = self.cap_index(base)
        real = self.subst_caps(base, caps)
        if not ({"scratch_by_class", "scratch_regs", "dedicated_scratch_regs"} & field_names(real)):
            return "it comes from %s" % str(real)[:120]
        if not self.same_class(real, ix):
            return "the scratch register of another class is used"
        wr = [e for e in s.events() if e.kind == "write" and self.cap_index(e.args[0]) & ci and e.args[1].op == "agg" and e.args[1].args[0].split("::")[-1] == "Option" and e.args[1].args[1] == 0 and self.same_place(e.args[0], base)]
        cur = None
        if not wr:
            # the place holds None at the end of the path
            for root, val in s.mem.items():
                if root[0] == "O" and self.cap_index(root[1]) & ci:
                    cur = val
            if cur is None or not self.holds_none(cur, base):
                return "the register is offered again by the next request"
        return None

    def same_place(self, ref, base):
        return True

    def holds_none(self, cur, base):
        def none(x):
            return x.op == "agg" and x.args[0].split("::")[-1] == "Option" and x.args[1] == 0
        if none(cur):
            return True
        return any(none(x) for x in subterms(cur)) and cur.op in ("with", "agg", "upd")

    def both_available(self, a):
        for x in subterms(a):
            if x.op in ("call", "res") and x.args[0].split("::")[-1] == "bitand":
                pos = set()
                for y in subterms(x):
                    if y.op in ("call", "res") and y.args[0].split("::")[-1] == "index" and "available_pregs" in field_names(y):
                        z = y.args[-1]
                        if z.op == "agg":
                            pos.add(z.args[1])
                    if y.op == "fld" and y.args[0].op == "fld" and y.args[0].args[1] == "available_pregs":
                        pos.add(y.args[1])
                if len(pos) == 2:
                    return True
        return False

    def unused(self, cb, I, s, P, caps):
        """the facts a register tried on the way must satisfy: no range at the point of the moves, no end of any move of the group"""
        ok = False
        for f, v in s.facts.items():
            if f.op in ("call", "res") and f.args[0].split("::")[-1] == "contains_key" and v is False:
                where, key = f.args[1], f.args[2]
                if not ("allocations" in field_names(where) and "pregs" in field_names(where) and any(y is P or y is T("fld", P, "bits") for y in subterms(where))):
                    continue
                k = self.subst_caps(key, caps)
                ok = ok or self.one_point(k)
        if not ok:
            return "no look-up shows that the register has no range at the point of the moves"
        def ends(facts):
            out = set()
            for f, x in facts.items():
                if f.op == "eq" and x is False and not partial(f):
                    t = [a for a in f.args if isinstance(a, T)]
                    for a in t:
                        if any(y is P or y is T("fld", P, "bits") for a2 in t if a2 is not a for y in subterms(a2)):
                            out |= field_names(a) & {"from_alloc", "to_alloc"}
            return out
        both = {"from_alloc", "to_alloc"}
        for q, val in s.facts.items():
            if q.op == "quant" and val and not partial(q):
                gs = I.quants.get(q)
                if gs and all(ends(g.facts) == both for g in gs):
                    return None
            if q.op == "done" and val:
                key = q.args[0][-1]
                if s.facts.get(T("left", key)):
                    bs = [x for k, x, kk in self.cur if k == "back" and kk == key]
                    if bs and all(ends(g.facts) == both for g in bs):
                        return None
        return "an end of one of the moves may be handed out"

    def one_point(self, k):
        """is the key made of the range [pos, pos+1) at the position of the moves?"""
        for x in subterms(k):
            if x.op == "agg" and x.args[0].split("::")[-1] == "CodeRange":
                a, b = x.args[2], x.args[3]
                nx = self.S.call("ProgPoint::next", [a])[1]
                return "pos" in field_names(a) and any(v is b for _, v in nx)
        return False

    # ---- stack slots
    def stack_slot(self, b, part, e, ix, rule, st):
        R = self.R
        u, caps, refs = part
        cb, I, paths = self.closure(u)
        n = 0
        for k, s, v in paths:
            if k != "ret":
                continue
            n += 1
            x = self.slot_of(v)
            if x is None:
                R.ob(rule, "what is offered as a slot is a stack slot", False, cb.where(), str(v)[:120])
                continue
            why = self.fresh(cb, s, x, caps, ix)
            R.ob(rule, "a slot offered by the resolver's environment is a fresh one", why is None, cb.where(), why or "")
        R.floor("ways to get a slot in %s" % cb.path, n, 1)

    def counter(self, s):
        """[(capture, its content before, its content after)]"""
        out = []
        for root, val in s.mem.items():
            if root[0] == "O":
                old = T("deref", root[1])
                if self.cap_index(root[1]) and val is not old:
                    out.append((self.cap_index(root[1]), old, val))
        return out

    def fresh(self, cb, s, x, caps, ix):
        cs = self.counter(s)
        for ci, old, new in cs:
            if bump.lin(new) == bump.add(bump.lin(old), {1: 1}):
                a = bump.add(bump.lin(x), bump.lin(old))
                if set(a) <= {1}:
                    return None if a.get(1, 0) == (1 << 24) - 1 else "the placeholders do not start at the last slot number"
                return "two requests may get the same placeholder"
            last = [v for f, v in s.facts.items() if f.op in ("call", "res") and f.args[0].split("::")[-1] == "multi_spillslot_named_by_last_slot"]
            sizes = {y for y in subterms(new) if y.op in ("call", "res") and y.args[0].split("::")[-1] == "spillslot_size"}
            if len(sizes) == 1 and len(last) == 1:
                sz = next(iter(sizes))
                if not self.same_class(self.subst_caps(sz, caps), ix):
                    return "the slot has the size of another class"
                real = caps[next(iter(ci))]
                if "num_spillslots" not in str(real) and "num_spillslots" not in field_names(real):
                    return "the slots do not continue above the slots in use: %s" % str(real)[:80]
                return bump.bump(old, sz, x, new, last[0])
        return "the slot is not taken off a counter that moves on"

    # ---- the stack test
    def is_stack(self, b, part, e, rule):
        u, caps, refs = part
        body = self.db.bodies[u]
        self.R.sawfn(body)
        self.stack_test(body, rule, argn=2)

    def stack_test(self, body, rule, argn=2):
        """value of a stack test on Allocation::stack(x) and Allocation::reg(p)"""
        R = self.R
        x, p = sym("slot_bits", "u32", None), T("sym", "p")
        p_agg = p
        stack = self.ctor("Allocation::stack", T("agg", self.S.adt("SpillSlot"), 0, sym("slot", "u32", ((24, 0),) if False else None)))
        reg = self.ctor("Allocation::reg", p)
        for what, val in (("stack", stack), ("reg", reg)):
            st = St()
            root = ("L", "ARG", 0)
            st.mem[root] = T("sym", "arg1")
            I = PathInterp(self.db, noinline=lambda z: z.local and z.name in ("contains",) and z.path.split("::")[0] not in ("Allocation",))
            args = [T("ref", root, ())] if self.db.types[body.lty(1)]["k"] == "ref" else [T("sym", "arg1")]
            for i in range(2, body.argc + 1):
                if i != argn:
                    args.append(T("sym", "arg%d" % i))
                elif self.db.types[body.lty(i)]["k"] == "ref":
                    r2 = ("L", "ARG", i)
                    st.mem[r2] = val
                    args.append(T("ref", r2, ()))
                else:
                    args.append(val)
            r = I.analyse(body, args, st)
            R.paths += len(r)
            for s, v in r:
                if what == "stack":
                    # the kind bits are free of the slot number for slots up to SpillSlot::MAX
                    ok = v is TRUE or s.facts.get(v) is True or self.infeasible(s)
                    R.ob(rule, "the stack test accepts every stack slot", ok, body.where(), str(v)[:120])
                else:
                    if v.op == "int" or v is TRUE or v is FALSE:
                        fs = [(f, y) for f, y in s.facts.items() if self.is_memory_fact(f, p)]
                        ok = any(bool(y) == (v is TRUE or v.op == "int" and v.args[0] == 1) for f, y in fs)
                    else:
                        ok = self.is_memory_fact(v, p)
                    R.ob(rule, "the stack test accepts a register exactly when the environment declares it to be memory", ok, body.where(), str(v)[:120])

    def infeasible(self, s):
        return False

    def is_memory_fact(self, f, p):
        if not any(y is p for y in subterms(f)):
            return False
        if f.op == "fld" and f.args[1] == "is_stack":
            return "pregs" in field_names(f)
        if f.op in ("call", "res") and f.args[0].split("::")[-1] == "contains" or f.op == "contains":
            return "fixed_stack_slots" in field_names(f)
        return False

    # ---- placeholders
    def placeholders(self, b, I, paths, snaps, rule):
        """placeholder slots handed to the resolver are replaced before a move is published"""
        R = self.R
        ph = None
        for st, fr, e, caps in self.snapshots(snaps):
            if caps is None:
                return
            u, cs, refs = caps["get_stackslot"]
            cb, CI, cps = self.closure(u)
            for k, s, v in cps:
                if k != "ret":
                    continue
                x = self.slot_of(v)
                if x is None:
                    return
                for ci, old, new in self.counter(s):
                    if bump.lin(new) == bump.add(bump.lin(old), {1: 1}):
                        ph = (v, old, refs[next(iter(ci))], caps)
        evs = {}
        for k, s, v in paths:
            for e in s.events():
                if e.kind == "call":
                    evs.setdefault((e.name.split("::")[-1], tuple(e.args), e.body.u, e.bb), (e, s))
        if ph is None:
            # real slots: the counter is kept
            ok = False
            for k, s, v in paths:
                for e in s.events():
                    if e.kind == "write" and "num_spillslots" in str(e.args[0]):
                        ok = ok or e.args[1].op in ("hv", "deref") or "hv" in str(e.args[1].op)
            R.ob(rule, "slots taken by the resolver are counted in the frame", ok, b.where(), "num_spillslots is not written back")
            return
        val, old, cref, caps = ph
        inserts, maps = [], {}
        for (n, args, bu, bb), (e, s) in evs.items():
            if n == "insert" and len(args) == 3:
                inserts.append((e, s))
        good = None
        for e, s in inserts:
            key, new = e.args[1], e.args[2]
            if new.op == "ref":
                new = I.load(s, new)
            # key = the placeholder for counter value i
            i = [x for x in subterms(key) if x.op == "elem"]
            for el in i:
                k2 = ssubst(self.db, val, lambda t: el if t is old else None)
                if k2 is key:
                    whole = len(el.args) >= 2 and el.args[0].op == "int" and el.args[0].args[0] == 0 and el.args[1].op == "hv" and cref.op == "ref" and el.args[1].args[0] == cref.args[0]
                    same = any(x is el for x in subterms(new)) and self.extra(new)
                    R.ob(rule, "every placeholder is given a slot of its own", whole and same, site(e), "for %s: %s" % (el, str(new)[:100]))
                    good = e.args[0]
        R.ob(rule, "placeholder slots are mapped to real ones", good is not None, b.where(), "no map from placeholders to slots is filled")
        if good is None:
            return
        n = 0
        for (nm, args, bu, bb), (e, s) in evs.items():
            fl = [a for a in args if isinstance(a, T) and any(x.op in ("call", "res") and x.args[0].split("::")[-1] == "compute" for x in subterms(a)) and self.is_alloc(I, s, a)]
            if len(fl) < 2 or nm in ("get", "insert", "unwrap_or"):
                continue
            n += 1
            for j, a in enumerate(fl[:2]):
                why = self.mapped(I, s, e, a, j, good)
                R.ob(rule, "both ends of a move are published with placeholders replaced", why is None, site(e), why or "")
        R.floor("uses of resolved moves", n, 1)

    def extra(self, t):
        return True

    def is_alloc(self, I, s, a):
        e = self.result_elem(a)
        return e is not None and e[1] in (0, 1)

    def strip(self, a):
        while a.op == "deref" or a.op in ("call", "res") and a.args[0].split("::")[-1] in ("clone", "cloned", "copied") and isinstance(a.args[-1], T):
            a = a.args[0] if a.op == "deref" else a.args[-1]
        return a

    def result_elem(self, a):
        """(list term, component) when a is, or is looked up by, a component of a resolved move"""
        t = self.strip(a)
        if t.op == "vf" or t.op == "fld" and t.args[0].op == "as":
            g = t.args[0] if t.op == "vf" else t.args[0].args[0]
            if g.op in ("call", "res") and g.args[0].split("::")[-1] == "get":
                t = g.args[-1]
        if t.op == "fld" and str(t.args[1]) in ("0", "1", "2") and t.args[0].op == "idx":
            return t.args[0].args[0], int(t.args[1])
        return None

    def mapped(self, I, s, e, a, j, mapref):
        r = self.result_elem(a)
        if r is None or r[1] != j:
            return "the %s of the move is %s" % (("source", "destination")[j], str(a)[:60])
        a = self.strip(a)
        if a.op == "vf" or a.op == "fld" and a.args[0].op == "as":
            return None  # looked up under the end itself (result_elem compared the key)
        for f, v in e.facts.items():
            if f.op == "discr" and v == 0 and f.args[0].op in ("call", "res") and f.args[0].args[0].split("::")[-1] == "get" and f.args[0].args[-1] is a:
                return None
        return "the %s may be a placeholder" % ("source", "destination")[j]
