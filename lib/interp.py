"""Abstract interpreter over exported MIR.

Disjunctive data-flow analysis over a value-numbering (Herbrand) domain with branch facts:
 * a state maps locations to terms (terms.py) and branch conditions to their known outcome;
 * calls into the crate (and into a few core modules whose MIR is exported) are analysed
   in context; other calls are uninterpreted and havoc what they may write;
 * loops are widened: the fixpoint state at a loop head stands for every iteration;
 * nothing is executed and no path is handed to a solver: a branch is pruned only when its
   condition is a constant or an already known fact."""
import re
from terms import *

MAXSTATES = 400


class Stuck(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "neq", "trace", "tags", "loops")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.neq = {}
        self.trace = None
        self.tags = ()
        self.loops = ()

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.neq = dict(self.neq)
        s.trace = self.trace
        s.tags = self.tags
        s.loops = self.loops
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), frozenset(self.neq.items()), self.trace, self.tags)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t.ev)
            t = t.prev
        out.reverse()
        return out


class Ev:
    """a recorded event: an uninterpreted call, a write through a reference, a panic"""
    __slots__ = ("kind", "name", "args", "res", "body", "bb", "span", "facts", "neq", "frame", "loops", "extra", "st")

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, self.name, ", ".join(map(str, self.args)))


class Frame:
    __slots__ = ("body", "id", "chain", "subst")

    def __init__(self, body, fid, chain, subst=None):
        self.body = body
        self.id = fid
        self.chain = chain
        self.subst = subst or {}


def short(p):
    """last two path components without generics"""
    p = re.sub(r"<[^<>]*>", "", p)
    p = re.sub(r"<[^<>]*>", "", p)
    return p


PREDICATES = ("retain", "retain_mut", "binary_search_by", "binary_search_by_key", "partition_point", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key",
              "sort_by_cached_key")


class Interp:
    clomut = {}  # closure -> captures through which it can write

    def __init__(self, db, oracle=None, opaque=(), transparent=None, record_pure=False, maxdepth=24, maxstates=MAXSTATES,
                 noinline=None, const_fields=(), unroll=0, pregseq=False):
        self.db = db
        self.quants = {}  # negative outcome of a search -> generic states of the elements that did not match
        self.oracle = oracle
        self.opaque = set(opaque)  # names of local functions kept uninterpreted
        self.noinline = noinline  # predicate on Body: keep uninterpreted
        self.record_pure = record_pure
        self.maxdepth = maxdepth
        self.maxstates = maxstates
        self.log = []
        self.dry = 0
        self.analysed = set()
        self.visited_blocks = set()
        self.ncalls = 0
        self.nstates = 0
        self.merges = 0
        self.const_fields = set(const_fields)
        self.hooks = {}
        self.entry_id = "E"  # name of the frame of the analysed function
        self.keep = False  # leave the frames of finished calls in memory: closures that were returned refer to them
        self.pregseq = pregseq  # iterate register sets as sequences of members
        self.unroll = unroll  # >0: loops are unrolled (they must end within this many iterations), sequences of known length are stepped concretely

    # ---------------------------------------------------------------- memory
    def read(self, st, root, projs):
        v = st.mem.get(root)
        if v is None:
            v = T("deref", root[1]) if root[0] == "O" else T("uninit", root[1], root[2])
        for p in projs:
            v = self.getf(v, p)
        return v

    def getf(self, v, p):
        if v.op == "with":
            d = dict(v.args[1])
            if p in d:
                return d[p]
            if p[0] == "i":
                # a write to another, possibly equal, index may be visible
                for k in d:
                    if k[0] == "i" and not (k[1].op == "int" and p[1].op == "int"):
                        return T("idx", v, p[1])
            return self.getf(v.args[0], p)
        if p[0] == "f":
            if v.op == "agg":
                if 2 + p[1] < len(v.args):
                    return v.args[2 + p[1]]
            if v.op == "hv" and p[2] in self.const_fields:
                return self.getf(T("deref", v.args[0][1]), p) if v.args[0][0] == "O" and not v.args[1] else T("fld", v, p[2])
            return T("fld", v, p[2])
        if p[0] == "vf":
            if v.op == "agg" and v.args[1] == p[1]:
                return v.args[2 + p[2]]
            return T("vf", v, p[1], p[2])
        if p[0] == "i":
            if v.op == "agg" and p[1].op == "int" and 2 + p[1].args[0] < len(v.args):
                return v.args[2 + p[1].args[0]]
            if v.op == "fill":
                return v.args[0]
            return T("idx", v, p[1])
        if p[0] == "ci":
            if v.op == "agg" and not p[2]:
                return v.args[2 + p[1]]
            return T("idx", v, mkint(p[1], "usize")) if not p[2] else T("idx", v, T("bin", "Sub", T("len", v), mkint(p[1], "usize"), "usize"))
        if p[0] == "ss":
            return T("subslice", v, p[1], p[2], p[3])
        return T("proj", v, p)

    def setf(self, v, projs, new):
        if not projs:
            return new
        p = projs[0]
        old = self.getf(v, p)
        sub = self.setf(old, projs[1:], new)
        if v.op == "agg":
            if p[0] == "f" and 2 + p[1] < len(v.args):
                a = list(v.args)
                a[2 + p[1]] = sub
                return T("agg", *a)
            if p[0] == "vf" and v.args[1] == p[1]:
                a = list(v.args)
                a[2 + p[2]] = sub
                return T("agg", *a)
            if p[0] == "i" and p[1].op == "int" and 2 + p[1].args[0] < len(v.args):
                a = list(v.args)
                a[2 + p[1].args[0]] = sub
                return T("agg", *a)
        if v.op == "with":
            d = dict(v.args[1])
            base = v.args[0]
            if p[0] == "i":
                d = {k: x for k, x in d.items() if not (k[0] == "i" and not (k[1].op == "int" and p[1].op == "int")) or k == p}
        else:
            d = {}
            base = v
        if sub is self.getf(base, p):
            d.pop(p, None)
        else:
            d[p] = sub
        if not d:
            return base
        return T("with", base, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))

    def write(self, st, root, projs, val):
        if not projs:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = T("deref", root[1]) if root[0] == "O" else T("uninit", root[1], root[2])
        st.mem[root] = self.setf(v, tuple(projs), val)

    def mkref(self, root, projs, mut=False):
        if root[0] == "O" and not projs:
            return root[1]
        return T("ref", root, tuple(projs))

    def target(self, v):
        """location a reference term points to"""
        if v.op == "ref":
            return v.args[0], v.args[1]
        return ("O", v), ()

    def load(self, st, v):
        r, p = self.target(v)
        return self.read(st, r, p)

    def store(self, st, v, new):
        r, p = self.target(v)
        self.write(st, r, p, new)

    # ---------------------------------------------------------------- places
    def place(self, st, fr, pl):
        root, projs = ("L", fr.id, pl[0]), []
        variant = None
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, root, projs)
                root, projs = self.target(v)
                projs = list(projs)
                variant = None
            elif e == "cast" or e == "?":
                pass
            elif e[0] == "f":
                if variant is not None:
                    projs.append(("vf", variant, e[1]))
                    variant = None
                else:
                    projs.append(("f", e[1], e[2]))
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "i":
                projs.append(("i", self.read(st, ("L", fr.id, e[1]), ())))
            elif e[0] == "ci":
                projs.append(("ci", e[1], e[2]) if e[2] else ("i", mkint(e[1], "usize")))
            elif e[0] == "ss":
                projs.append(("ss", e[1], e[2], e[3]))
        return root, tuple(projs)

    def place_ty(self, fr, pl):
        """type index of a place (generic arguments are not substituted)"""
        db = self.db
        t = fr.body.lty(pl[0])
        variant = 0
        for e in pl[1:]:
            ty = db.types[t]
            if e == "*":
                t = ty.get("t", t)
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "f":
                if ty["k"] == "tuple":
                    t = ty["ts"][e[1]]
                elif ty["k"] == "adt":
                    a = db.adts.get(ty["path"])
                    try:
                        t = a["variants"][variant]["fields"][e[1]][1]
                    except (IndexError, TypeError, KeyError):
                        return None
                else:
                    return None
                variant = 0
                if db.types[t]["k"] == "param":
                    return None
            elif e[0] in ("i", "ci"):
                t = ty.get("t")
                if t is None:
                    return None
            else:
                return None
        return t

    def tyname(self, t):
        if t is None:
            return None
        ty = self.db.types[t]
        if ty["k"] in ("int",):
            return ty["n"]
        if ty["k"] in ("bool", "char"):
            return ty["k"]
        return None

    def op_ty(self, fr, o):
        if o[0] == "k":
            return self.tyname(o[1]["t"])
        return self.tyname(self.place_ty(fr, o[1]))

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const(st, fr, o[1])
        root, projs = self.place(st, fr, o[1])
        v = self.read(st, root, projs)
        ty = self.op_ty(fr, o)
        if ty:
            settype(v, ty)
        return v

    def const(self, st, fr, c):
        k = c["c"]
        if k == "int":
            ty = self.db.types[c["t"]]
            return mkint(c["v"], self.tyname(c["t"]) or "u64")
        if k == "agg":
            ty = self.db.types[c["t"]]
            v = c["variant"]
            kind = ty["path"] if ty["k"] == "adt" else ("tuple" if ty["k"] == "tuple" else "array")
            return T("agg", kind, max(v, 0), *[self.const(st, fr, f) for f in c["fields"]])
        if k == "fn":
            return T("fn", _FN.put(c["f"]))
        if k == "zst":
            ty = self.db.types[c["t"]]
            if ty["k"] == "closure":
                return T("agg", "closure:" + ty["path"], 0)
            if ty["k"] == "tuple":
                return T("agg", "tuple", 0)
            return T("agg", ty.get("path", ty["s"]), 0)
        if k == "str":
            return T("str", c["s"])
        if k == "promoted":
            b = self.db.bodies.get(c["of"])
            if b is not None and c["n"] < len(b.promoted):
                pb = b.promoted[c["n"]]
                rs = self.call_body(st, pb, [], "%s/p%d" % (fr.id, c["n"]), fr.chain)
                if len(rs) == 1:
                    st.mem.update({k: v for k, v in rs[0][0].mem.items() if k not in st.mem})
                    return rs[0][1]
            return T("konst", "promoted %s#%d" % (c["of"], c["n"]))
        return T("konst", c.get("name") or c.get("s", "?"))

    # ---------------------------------------------------------------- conditions
    def decide(self, st, t):
        """truth value of boolean term t, or None"""
        if t.op == "int":
            return bool(t.args[0])
        if t.op == "not":
            r = self.decide(st, t.args[0])
            return None if r is None else not r
        if t.op == "and":
            rs = [self.decide(st, x) for x in t.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if t.op == "or":
            rs = [self.decide(st, x) for x in t.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if t in st.facts:
            return bool(st.facts[t])
        if t.op == "eq":
            a, b = t.args
            if b.op == "int":
                v = self.intval(st, a)
                if v is not None:
                    return v == b.args[0]
                if b.args[0] in st.neq.get(a, ()):
                    return False
            elif True:
                x, y = self.intval(st, a), self.intval(st, b)
                if x is not None and y is not None:
                    return x == y
        if t.op == "lt":
            x, y = self.intval(st, t.args[0]), self.intval(st, t.args[1])
            if x is not None and y is not None:
                ty = tw(t.args[0]) or tw(t.args[1]) or "u64"
                return sval(mkint(x, ty)) < sval(mkint(y, ty))
            # bounds known from facts
            r = self.bounds(st, t)
            if r is not None:
                return r
        if self.oracle:
            r = self.oracle(t, st)
            if r is not None:
                return bool(r)
        return None

    def bounds(self, st, t):
        a, b = t.args
        if b.op == "int":
            k = b.args[0]
            for f, v in st.facts.items():
                if f.op == "lt" and f.args[0] is a and f.args[1].op == "int":
                    c = f.args[1].args[0]
                    if v and c <= k:
                        return True
                    if not v and c >= k:
                        return False
        return None

    def intval(self, st, t):
        if t.op == "int":
            return t.args[0]
        v = st.facts.get(t)
        if v is not None and not isinstance(v, bool):
            return v
        if self.oracle:
            r = self.oracle(t, st)
            if r is not None:
                return int(r)
        if t.op == "bin" and t.args[3] in WIDTH:
            x, y = self.intval(st, t.args[1]), self.intval(st, t.args[2])
            if x is not None and y is not None:
                r = mkbin(t.args[0], mkint(x, t.args[3]), mkint(y, t.args[3]), t.args[3])
                if r.op == "int":
                    return r.args[0]
        if t.op == "bv":
            tot = 0
            for i, b in enumerate(t.args[1]):
                if b == 0:
                    continue
                if b == 1:
                    tot |= 1 << i
                    continue
                x = self.intval(st, b[0])
                if x is None:
                    return None
                tot |= ((x >> b[1]) & 1) << i
            return tot
        if t.op == "cast" and t.args[1] == "u1":
            r = self.decide(st, t.args[0])
            return None if r is None else int(r)
        return None

    def assume(self, st, t, val):
        """states in which boolean term t has value val (forks on conjunctions)"""
        d = self.decide(st, t)
        if d is not None:
            return [st] if d == val else []
        if t.op == "not":
            return self.assume(st, t.args[0], not val)
        if t.op in ("and", "or"):
            if (t.op == "and") == val:
                out = [st]
                for x in t.args:
                    out = [s2 for s in out for s2 in self.assume(s, x, val)]
                return out
            out = []
            cur = [st]
            for x in t.args:
                nxt = []
                for s in cur:
                    for s2 in self.assume(s.copy(), x, val):
                        out.append(s2)
                    nxt += self.assume(s.copy(), x, not val)
                cur = nxt
            return out
        s = st.copy()
        if t.op == "eq" and t.args[1].op == "int":
            a, c = t.args[0], t.args[1].args[0]
            if val:
                s.facts[a] = c
            else:
                s.neq[a] = s.neq.get(a, frozenset()) | {c}
            s.facts[t] = val
        else:
            s.facts[t] = val
        return [s]

    def branch_bool(self, st, t):
        """[(state, bool)]"""
        d = self.decide(st, t)
        if d is not None:
            return [(st, d)]
        return [(s, True) for s in self.assume(st.copy(), t, True)] + [(s, False) for s in self.assume(st.copy(), t, False)]

    def discr(self, st, v, ty):
        """discriminant value term of enum value v"""
        if v.op == "agg":
            a = self.db.adts.get(v.args[0])
            if a is not None:
                if a["kind"] == "enum" and v.args[1] < len(a["variants"]):
                    return mkint(a["variants"][v.args[1]]["discr"], "isize")
                return mkint(0, "isize")
        if v.op == "with":
            return self.discr(st, v.args[0], ty)
        t = T("discr", v)
        settype(t, "isize")
        return t

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv, dst_ty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "raw"):
            root, projs = self.place(st, fr, rv[1])
            return self.mkref(root, projs)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            ty = self.op_ty(fr, rv[2]) or tw(a)
            tyb = self.op_ty(fr, rv[3])
            op = rv[1]
            if op.endswith("WithOverflow"):
                r = mkbin(op[:-12], a, b, ty, tyb)
                ov = T("overflow", op[:-12], a, b)
                if a.op == "int" and b.op == "int":
                    x, y = sval(a), sval(b)
                    exact = {"Add": x + y, "Sub": x - y, "Mul": x * y}[op[:-12]]
                    ov = mkbool(exact != sval(r))
                return T("agg", "tuple", 0, r, ov)
            if op == "Cmp":
                return T("cmp", a, b)
            if op == "Offset":
                return T("offset", a, b)
            if ty is None and op in CMPS:
                return mkcmp(op, a, b, None)
            return mkbin(op, a, b, ty, tyb)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            ty = self.op_ty(fr, rv[2]) or tw(a)
            if rv[1] == "Not":
                if ty == "bool":
                    return mknot(a)
                if ty in WIDTH:
                    return mkbin("BitXor", a, mkint(-1, ty), ty)
            if rv[1] == "Neg" and ty in WIDTH:
                return mkbin("Sub", mkint(0, ty), a, ty)
            if rv[1] == "PtrMetadata":
                return self.length(st, self.load(st, a))
            return T("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            src = self.op_ty(fr, rv[2]) or tw(a)
            dst = self.tyname(rv[3])
            if rv[1] == "IntToInt":
                return mkcast(a, src, dst)
            if rv[1].startswith("PointerCoercion") or rv[1].startswith("PtrToPtr") or rv[1] in ("Transmute", "Subtype", "BoxDerefTransmute"):
                return a
            return T("cast", a, dst or "?")
        if k == "discr":
            root, projs = self.place(st, fr, rv[1])
            v = self.read(st, root, projs)
            r = self.discr(st, v, self.place_ty(fr, rv[1]))
            dt = self.tyname(dst_ty)
            if r.op == "int" and dt:
                return mkint(sval(r), dt)
            if dt:
                _tw_force(r, dt)
            return r
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == "adt":
                if kk[4] >= 0:
                    return T("agg", kk[1], 0, *vs)
                return T("agg", kk[1], kk[2], *vs)
            if kk[0] == "closure":
                if kk[1] not in self.clomut:
                    self.clomut[kk[1]] = {i for i, o in enumerate(rv[2]) if self.mutable(o[1]["t"] if o[0] == "k" else self.place_ty(fr, o[1]))}
                return T("agg", "closure:" + kk[1], 0, *vs)
            if kk[0] == "rawptr":
                return vs[0]
            return T("agg", kk[0], 0, *vs)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if 0 <= n <= 16:
                return T("agg", "array", 0, *([v] * n))
            return T("fill", v, n)
        return T("rv", k)

    def length(self, st, v):
        if v.op == "agg" and v.args[0] == "array":
            return mkint(len(v.args) - 2, "usize")
        if v.op == "fill" and v.args[1] >= 0:
            return mkint(v.args[1], "usize")
        if v.op == "with":
            b = v.args[0]
            return self.length(st, b)
        if v.op == "vecnew":
            return mkint(0, "usize")
        if v.op == "push":
            return mkbin("Add", self.length(st, v.args[0]), mkint(1, "usize"), "usize")
        t = T("len", v)
        return settype(t, "usize")

    # ---------------------------------------------------------------- events
    def event(self, st, fr, bb, kind, name, args, res=None, span=None, extra=None):
        e = Ev()
        e.kind, e.name, e.args, e.res = kind, name, tuple(args), res
        e.body, e.bb, e.span = fr.body, bb, span
        e.facts, e.neq = dict(st.facts), dict(st.neq)
        e.frame = fr.chain
        e.loops = st.loops
        e.extra = extra
        e.st = None
        if not self.dry:
            self.log.append(e)
        ek = (kind, name, e.args, res, fr.id, bb, frozenset(e.facts.items()), frozenset(e.neq.items()))
        st.trace = Trace.make(st.trace, ek, e)
        return e

    # ---------------------------------------------------------------- calls
    def call_body(self, st, body, args, fid, chain):
        if len(chain) > self.maxdepth:
            raise Stuck("inlining depth exceeded at " + body.path)
        fr = Frame(body, fid, chain + (body.u,))
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
            ty = self.tyname(body.lty(i + 1)) if i + 1 < len(body.locals) else None
            if ty:
                settype(a, ty)
        self.analysed.add(body.u)
        saved = st.loops
        rets = self.run(fr, [(0, st)], set(range(len(body.blocks))), None)[1]
        out = []
        seen = set()
        for s in rets:
            v = s.mem.get(("L", fid, 0), T("agg", "tuple", 0))
            s.mem = {k: x for k, x in s.mem.items() if not (k[0] == "L" and k[1] == fid)} if not body.is_prom and not self.keep else s.mem
            s.loops = saved
            key = (s.key(), v)
            if key not in seen:
                seen.add(key)
                out.append((s, v))
        return out

    def dispatch(self, st, fr, bb, f, args, span):
        """evaluate a call; returns [(state, value)] (empty if it diverges)"""
        import models
        self.ncalls += 1
        r = f.get("r")
        name = f["name"]
        fid = "%s/%d" % (fr.id, bb)
        # per-check hooks first
        h = self.hooks.get(name)
        if h is not None:
            res = h(self, st, fr, bb, f, args, span)
            if res is not None:
                return res
        tgt = None
        if r is not None:
            tgt = self.db.bodies.get(r["u"])
        elif f["u"] in self.db.bodies and not f.get("trait"):
            tgt = self.db.bodies[f["u"]]
        # default methods of local traits
        if tgt is not None and tgt.local and tgt.in_trait and tgt.in_trait.split("::")[-1] == "Function":
            tgt = None
        if tgt is not None and tgt.derived and name in ("eq", "ne", "partial_cmp", "cmp", "lt", "le", "gt", "ge", "clone", "hash", "fmt", "default"):
            if name == "default":
                pass
            else:
                m = models.derived(self, st, fr, bb, f, args, span)
                if m is not None:
                    return m
        m = models.model(self, st, fr, bb, f, args, span, tgt)
        if m is not None:
            return m
        if tgt is not None and name not in self.opaque and not (self.noinline and self.noinline(tgt)):
            if tgt.u not in fr.chain and len(fr.chain) < self.maxdepth:
                if tgt.kind == "Closure":
                    return self.call_closure_body(st, fr, bb, tgt, args[0], list(args[1].args[2:]) if args[1].op == "agg" else [T("fld", args[1], str(i)) for i in range(tgt.argc - 1)])
                return self.call_body(st, tgt, args, fid, fr.chain)
        return self.opaque_call(st, fr, bb, f, args, span)

    def tyname_adt(self, u, i):
        b = self.db.bodies.get(u)
        return self.db.types[b.lty(i)].get("path") if b is not None and i < len(b.locals) else None

    def call_closure_body(self, st, fr, bb, body, self_ref, args, tag=""):
        if self.noinline and self.noinline(body):
            f = {"path": body.path, "u": body.u, "name": "closure", "local": True, "args": []}
            return self.opaque_call(st, fr, bb, f, [self_ref] + list(args), None)
        fid = "%s/%d%s" % (fr.id, bb, tag)
        if body.u in fr.chain:
            raise Stuck("recursive closure " + body.path)
        return self.call_body(st, body, [self_ref] + args, fid, fr.chain)

    def call_value(self, st, fr, bb, fv, args, span, tag=""):
        """call a function value (closure aggregate or fn item)"""
        if fv.op == "ref" or (fv.op not in ("agg", "fn") and ("O", fv) in st.mem):
            inner = self.load(st, fv)
            if inner.op in ("agg", "fn", "ref"):
                if inner.op == "agg" and isinstance(inner.args[0], str) and inner.args[0].startswith("closure:"):
                    b = self.db.bodies.get(inner.args[0][8:])
                    if b is not None:
                        byref = self.db.types[b.lty(1)]["k"] == "ref"
                        return self.call_closure_body(st, fr, bb, b, fv if byref else inner, args, tag)
                return self.call_value(st, fr, bb, inner, args, span, tag)
        if fv.op == "fn":
            return self.dispatch(st, fr, bb, _FN.get(fv.args[0]), args, span)
        if fv.op == "agg" and isinstance(fv.args[0], str) and fv.args[0].startswith("closure:"):
            b = self.db.bodies.get(fv.args[0][8:])
            if b is not None:
                byref = self.db.types[b.lty(1)]["k"] == "ref"
                sref = fv
                if byref:
                    root = ("L", fr.id, "clo%d%s" % (bb, tag))
                    st = st.copy()
                    st.mem[root] = fv
                    sref = T("ref", root, ())
                return self.call_closure_body(st, fr, bb, b, sref, args, tag)
        f = {"path": "<unknown fn value>", "u": "?", "name": "call_value", "local": False, "args": []}
        return self.opaque_call(st, fr, bb, f, [fv] + list(args), span)

    def loopkey(self, st):
        return st.loops

    def is_pure_name(self, f):
        tr = (f.get("trait") or "").split("::")[-1]
        return tr == "Function"

    def normarg(self, st, a):
        """shared-reference arguments of pure calls are identified by the value they point to"""
        n = 0
        while a.op == "ref" and n < 3:
            a = self.load(st, a)
            n += 1
        return a

    def arg_muts(self, f, fr, bb):
        """which arguments of the call are &mut (by the static types of the operands)"""
        t = fr.body.blocks[bb]["t"]
        out = []
        if t[0] != "call":
            return None
        for o in t[2]:
            ty = None
            if o[0] == "k":
                ty = o[1]["t"]
            else:
                ty = self.place_ty(fr, o[1])
            out.append(ty)
        return out

    def opaque_call(self, st, fr, bb, f, args, span, muts=None):
        st = st.copy()
        name = short(f["path"])
        pure = self.is_pure_name(f)
        tys = self.arg_muts(f, fr, bb) or []
        anymut = False
        mutargs = []
        for i, a in enumerate(args):
            ty = self.db.types[tys[i]] if i < len(tys) and tys[i] is not None else None
            if ty is not None and ty["k"] in ("ref", "ptr"):
                if ty["mut"]:
                    mutargs.append(i)
                elif ty is not None:
                    pass
            elif a.op == "ref" or (ty is not None and ty["k"] in ("closure", "param", "adt", "tuple")):
                # values that may carry mutable references (closures, iterators)
                if self.carries_mut(a, ty):
                    mutargs.append(i)
        if pure or not mutargs:
            nargs = [self.normarg(st, a) for a in args]
            imp = self.impure_result(f)
            if imp:
                res = T("res", name, (fr.id, bb) + st.loops, *nargs)
            else:
                res = T("call", name, *nargs)
        else:
            nargs = [self.normarg(st, a) for a in args]
            res = T("res", name, (fr.id, bb) + st.loops, *nargs)
        dty = fr.body.blocks[bb]["t"]
        if dty[0] == "call":
            n = self.tyname(self.place_ty(fr, dty[3]))
            if n:
                settype(res, n)
        pred = self.predicate(st, fr, bb, args[-1], span) if f["name"] in PREDICATES and len(args) >= 2 else None
        self.event(st, fr, bb, "call", name, args, res, span, extra={"f": f, "nargs": nargs, "mut": mutargs, "pred": pred})
        if pred is not None:
            for s2, _ in pred:
                for r in s2.mem:
                    if r in st.mem and s2.mem[r] is not st.mem[r]:
                        self.write(st, r, (), T("hv", r, (), (fr.id, bb, "pred") + st.loops))
        for i in mutargs:
            self.havoc_arg(st, fr, bb, args[i], i)
        return [(st, res)]

    def predicate(self, st, fr, bb, clo, span):
        """the outcomes of a container predicate for a generic element: [(state, value)]; the element is elem0, elem1"""
        inner = clo
        if clo.op == "ref":
            inner = self.load(st, clo)
        if not (inner.op == "agg" and isinstance(inner.args[0], str) and inner.args[0].startswith("closure:")):
            return None
        b = self.db.bodies.get(inner.args[0][8:])
        if b is None:
            return None
        s = st.copy()
        xs = []
        for i in range(b.argc - 1):
            r = ("L", fr.id, "pred%d.%d" % (bb, i))
            s.mem[r] = T("sym", "elem%d" % i)
            xs.append(T("ref", r, ()))
        return self.call_value(s, fr, bb, clo, xs, span, "p")

    def impure_result(self, f):
        return False

    def mutable(self, ti):
        ty = self.db.types[ti] if ti is not None else None
        return ty is None or not (ty["k"] in ("int", "bool", "char", "float") or ty["k"] == "ref" and not ty["mut"])

    def carries_mut(self, a, ty, d=0):
        if a.op == "agg":
            if isinstance(a.args[0], str) and a.args[0].startswith("closure:"):
                return True
            return d < 4 and any(isinstance(x, T) and self.carries_mut(x, None, d + 1) for x in a.args[2:])
        return False

    def havoc_arg(self, st, fr, bb, a, i):
        if a.op == "agg":
            cm = self.clomut.get(a.args[0][8:]) if isinstance(a.args[0], str) and a.args[0].startswith("closure:") else None
            for j, x in enumerate(a.args[2:]):
                if cm is not None and j not in cm:
                    continue
                if isinstance(x, T) and (x.op == "ref" or x.op == "agg" and self.carries_mut(x, None) or ("O", x) in st.mem):
                    self.havoc_arg(st, fr, bb, x, i)
            return
        root, projs = self.target(a)
        old = self.read(st, root, projs)
        self.write(st, root, projs, T("hv", root, projs, (fr.id, bb, i) + st.loops))
        self.havoc_reach(st, old, (fr.id, bb, i) + st.loops, set(), a)

    def havoc_reach(self, st, old, tag, seen, via):
        """memory reachable through references stored in the havoced value"""
        todo = [old]
        roots = []
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if v.op == "agg":
                todo += [x for x in v.args[2:] if isinstance(x, T)]
            elif v.op == "with":
                todo.append(v.args[0])
                todo += [x for _, x in v.args[1]]
            elif v.op == "ref":
                roots.append(("R", v))
        for kind, v in roots:
            root, projs = self.target(v)
            o2 = self.read(st, root, projs)
            if o2.op != "hv":
                self.write(st, root, projs, T("hv", root, projs, tag))
                self.havoc_reach(st, o2, tag, seen, v)
        # opaque pointers derived from the value
        for k in list(st.mem):
            if k[0] == "O" and k[1] is not via and (old in subterms(k[1]) or (via in subterms(k[1]))):
                st.mem[k] = T("hv", k, (), tag)

    # ---------------------------------------------------------------- control flow
    def rpo(self, body):
        r = getattr(body, "_rpo", None) if False else self._rpo.get(body.u) if hasattr(self, "_rpo") else None
        if r is None:
            if not hasattr(self, "_rpo"):
                self._rpo = {}
                self._nat = {}
            order = []
            seen = set()
            st = [(0, iter(body.succs(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(body.succs(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            r = {b: i for i, b in enumerate(order)}
            self._rpo[body.u] = r
        return r

    def natural(self, body, h):
        self.rpo(body)
        k = (body.u, h)
        r = self._nat.get(k)
        if r is None:
            r = {h}
            preds = body.preds()
            # back edges: predecessors of h that h dominates ~ reachable from h
            reach = {h}
            st = [h]
            while st:
                b = st.pop()
                for s in body.succs(b):
                    if s not in reach:
                        reach.add(s)
                        st.append(s)
            st = [p for p in preds[h] if p in reach and self._rpo[body.u].get(p, -1) >= self._rpo[body.u][h]]
            while st:
                b = st.pop()
                if b in r:
                    continue
                r.add(b)
                st += [p for p in preds[b] if p in reach]
            self._nat[k] = r
        return r

    def run(self, fr, starts, region, head):
        """process states; returns (exits, returns, backs): exits = [(block, state)] outside region"""
        body = fr.body
        rpo = self.rpo(body)
        heads = body.loop_heads()
        pend = {}
        exits, rets, backs = [], [], []
        first = True

        def add(b, s):
            if b == head:
                backs.append(s)
            elif b not in region:
                exits.append((b, s))
            else:
                pend.setdefault(b, {})[s.key()] = s
        for b, s in starts:
            pend.setdefault(b, {})[s.key()] = s
        while pend:
            b = min(pend, key=lambda x: rpo.get(x, 1 << 30))
            states = list(pend.pop(b).values())
            if len(states) > self.maxstates:
                states = [self.join_all(fr, b, states)]
                self.merges += 1
            if b in heads and b != head:
                nat = self.natural(body, b)
                if len(states) > 12:
                    states = [self.join_all(fr, b, states)]
                for s in states:
                    for eb, es in self.loop(fr, b, nat, s, rets):
                        add(eb, es)
                continue
            for s in states:
                self.nstates += 1
                for nb, ns in self.block(fr, b, s, rets):
                    add(nb, ns)
        return exits, rets, backs

    def loop(self, fr, h, nat, s, rets):
        key = "%s@%d" % (fr.id, h)
        entry = s
        if self.unroll:
            return self.loop_unrolled(fr, h, nat, s, rets, key)
        cur = s.copy()
        cur.loops = cur.loops + (key,)
        entry_trace = cur.trace
        entry_facts = dict(cur.facts)
        entry_neq = dict(cur.neq)
        for it in range(12):
            self.dry += 1
            try:
                ex, rt, backs = self.run(fr, [(h, cur.copy())], nat, h)
            finally:
                self.dry -= 1
            new = self.widen(key, cur, backs)
            if new is None:
                break
            cur = new
        else:
            raise Stuck("loop did not stabilise in " + fr.body.path)
        ex, rt, backs = self.run(fr, [(h, cur.copy())], nat, h)
        for s2 in rt:
            s2.loops = entry.loops
            rets.append(s2)
        out = []
        for b, s2 in ex:
            s2.loops = entry.loops
            out.append((b, s2))
        self.on_loop(fr, h, key, entry, cur, backs, ex)
        return out

    def loop_unrolled(self, fr, h, nat, s, rets, key):
        pend, out = [s], []
        for n in range(self.unroll):
            nxt = {}
            for p in pend:
                p = p.copy()
                p.loops = s.loops + ("%s#%d" % (key, n),)
                ex, rt, backs = self.run(fr, [(h, p)], nat, h)
                for s2 in rt:
                    s2.loops = s.loops
                    rets.append(s2)
                for b, s2 in ex:
                    s2.loops = s.loops
                    out.append((b, s2))
                for s2 in backs:
                    s2.loops = s.loops
                    nxt[s2.key()] = s2
            pend = list(nxt.values())
            if not pend:
                return out
            if len(pend) > self.maxstates:
                raise Stuck("too many states in an unrolled loop of " + fr.body.path)
        raise Stuck("loop not exhausted after %d iterations in %s" % (self.unroll, fr.body.path))

    def local_adts(self):
        r = getattr(self.db, "_local_adts", None)
        if r is None:
            r = self.db._local_adts = {self.db.types[i]["path"] for i in range(len(self.db.types)) if self.db.types[i]["k"] == "adt" and self.db.types[i].get("local")}
        return r

    drops = []

    def dropped(self, fr, key, st):
        pass

    def on_loop(self, fr, h, key, entry, headstate, backs, exits):
        pass

    def looplocal(self, t, key):
        """does term t name a value that changes from one iteration to the next?"""
        for x in subterms(t):
            if x.op in ("res", "hv", "any", "phi"):
                for y in x.args:
                    if isinstance(y, tuple) and key in y:
                        return True
                    if y == key:
                        return True
        return False

    def widen(self, key, cur, backs):
        """next head state, or None when backs are covered by cur"""
        if not backs:
            return None
        mem = dict(cur.mem)
        changed = False
        for bs in backs:
            for root, v in bs.mem.items():
                if root[0] == "L" and root not in mem:
                    continue  # first written inside the loop: dead or rewritten at the next iteration
                o = mem.get(root)
                if o is None:
                    o = T("deref", root[1])
                    mem.setdefault(root, o)
                w = self.wid(key, root, (), o, v)
                if w is not o:
                    mem[root] = w
                    changed = True
        facts = dict(cur.facts)
        for k, v in list(facts.items()):
            if any(bs.facts.get(k) != v for bs in backs) or self.looplocal(k, key):
                del facts[k]
                changed = True
        neq = dict(cur.neq)
        for k, v in list(neq.items()):
            if any(not v <= bs.neq.get(k, frozenset()) for bs in backs) or self.looplocal(k, key):
                del neq[k]
                changed = True
        if not changed:
            return None
        n = cur.copy()
        n.mem, n.facts, n.neq = mem, facts, neq
        return n

    def wid(self, key, root, path, o, v):
        if o is v and not (o.op not in ("phi", "agg", "with") and self.looplocal(o, key)):
            return o
        ph = T("phi", key, root, path)
        if o is ph:
            return o
        if o.op == "agg" and v.op == "agg" and o.args[:2] == v.args[:2] and len(o.args) == len(v.args):
            fs = [self.wid(key, root, path + (i,), a, b) for i, (a, b) in enumerate(zip(o.args[2:], v.args[2:]))]
            if all(a is b for a, b in zip(fs, o.args[2:])):
                return o
            return T("agg", *(o.args[:2] + tuple(fs)))
        ob, vb = (o.args[0] if o.op == "with" else o), (v.args[0] if v.op == "with" else v)
        if ob is vb and (o.op == "with" or v.op == "with") and not (self.looplocal(ob, key) and ob.op != "phi"):
            od = dict(o.args[1]) if o.op == "with" else {}
            vd = dict(v.args[1]) if v.op == "with" else {}
            if any(k[0] in ("i", "ci") for k in list(od) + list(vd)):
                base = T("phi", key, root, path)
                return base
            d = {}
            for k in set(od) | set(vd):
                d[k] = self.wid(key, root, path + (k,), od.get(k) or self.getf(ob, k), vd.get(k) or self.getf(vb, k))
            d = {k: x for k, x in d.items() if x is not self.getf(ob, k)}
            r = T("with", ob, tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))) if d else ob
            return r
        if tw(o) and tw(o) == tw(v):
            settype(ph, tw(o))
        return ph

    def join_all(self, fr, b, states):
        """merge many states into one (loses correlations; only used above the state budget)"""
        s = states[0].copy()
        key = "join:%s@%d" % (fr.id, b)
        for o in states[1:]:
            for root in set(s.mem) | set(o.mem):
                a, c = s.mem.get(root), o.mem.get(root)
                if a is None or c is None:
                    if root[0] == "O":
                        a = a or T("deref", root[1])
                        c = c or T("deref", root[1])
                    else:
                        s.mem.pop(root, None)
                        continue
                s.mem[root] = self.wid(key, root, (), a, c)
            s.facts = {k: v for k, v in s.facts.items() if o.facts.get(k) == v}
            s.neq = {k: v & o.neq[k] for k, v in s.neq.items() if k in o.neq}
            if s.trace is not o.trace:
                s.trace = None
        return s

    def block(self, fr, b, st, rets):
        body = fr.body
        if b in getattr(self, "stop_blocks", ()):
            return []
        st = st.copy()
        bl = body.blocks[b]
        self.visited_blocks.add((body.u, b))
        for s in bl["s"]:
            if s[0] == "=":
                dty = self.place_ty(fr, s[1])
                v = self.rvalue(st, fr, s[2], dty)
                n = self.tyname(dty)
                if n:
                    settype(v, n)
                self.assign(st, fr, b, s[1], v, s[3])
            elif s[0] == "dead" and not self.keep:
                st.mem.pop(("L", fr.id, s[1]), None)
            elif s[0] == "sd":
                root, projs = self.place(st, fr, s[1])
                self.write(st, root, projs, T("agg", "?", s[2]))
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "switch":
            return self.switch(fr, b, st, t)
        if k == "assert":
            if t[3] == "bounds":
                return [(t[4], st)]
            c = self.operand(st, fr, t[1])
            out = []
            for s, v in self.branch_bool(st, c):
                if v == t[2]:
                    out.append((t[4], s))
                else:
                    self.event(s, fr, b, "panic", "assert:" + t[3], (), None, t[5])
            return out
        if k == "call":
            return self.do_call(fr, b, st, t)
        return []

    def assign(self, st, fr, bb, pl, v, span):
        root, projs = self.place(st, fr, pl)
        if root[0] == "O" or "*" in pl[1:]:
            self.event(st, fr, bb, "write", rloc(root, projs), (self.mkref(root, projs), v), None, span)
        self.write(st, root, projs, v)

    def switch(self, fr, b, st, t):
        v = self.operand(st, fr, t[1])
        tyn = self.tyname(t[4])
        out = []
        if tyn == "bool":
            tb = {val: x for val, x in t[2]}
            for s, val in self.branch_bool(st, v):
                x = tb.get(int(val), t[3])
                out.append((x, s))
            return [(x, s) for x, s in out if self.blocks_live(fr.body, x)]
        c = self.intval(st, v)
        if c is not None:
            if tyn in WIDTH:
                c &= (1 << WIDTH[tyn]) - 1
            for val, x in t[2]:
                if val == c:
                    return [(x, st)]
            return [(t[3], st)]
        # enumerate
        rest = st
        ok = True
        for val, x in t[2]:
            val_t = mkint(val, tyn or "u64")
            e = mkeq(v, val_t, tyn)
            d = self.decide(rest, e)
            if d is False:
                continue
            if self.blocks_live(fr.body, x):
                for s in self.assume(rest.copy(), e, True):
                    out.append((x, s))
            if d is True:
                ok = False
                break
            r2 = self.assume(rest.copy(), e, False)
            if not r2:
                ok = False
                break
            rest = r2[0]
        if ok and self.blocks_live(fr.body, t[3]):
            # enum values not listed: exactly one left -> fact
            out.append((t[3], self.narrow(fr, rest, v, t)))
        return out

    def narrow(self, fr, st, v, t):
        if v.op == "discr":
            listed = {val for val, _ in t[2]}
            # find enum type through the defining statement
            pt = self._discr_adt(fr, t)
            if pt is not None:
                left = [x["discr"] for x in pt["variants"] if x["discr"] not in listed and x["discr"] not in st.neq.get(v, ())]
                if len(left) == 1:
                    st = st.copy()
                    st.facts[v] = left[0]
        return st

    def _discr_adt(self, fr, t):
        if t[1][0] == "k" or len(t[1][1]) != 1:
            return None
        loc = t[1][1][0]
        for bl in fr.body.blocks:
            for s in bl["s"]:
                if s[0] == "=" and s[1] == [loc] and s[2][0] == "discr":
                    ty = self.place_ty(fr, s[2][1])
                    if ty is not None and self.db.types[ty]["k"] == "adt":
                        return self.db.adts.get(self.db.types[ty]["path"])
        return None

    def blocks_live(self, body, b):
        bl = body.blocks[b]
        return not (bl["t"][0] == "unreachable" and not bl["s"])

    def do_call(self, fr, b, st, t):
        fo = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if fo[0] == "k" and fo[1]["c"] == "fn":
            res = self.dispatch(st, fr, b, fo[1]["f"], args, t[5])
        else:
            fv = self.operand(st, fr, fo)
            res = self.call_value(st, fr, b, fv, args, t[5])
        out = []
        for s, v in res:
            if t[4] < 0:
                continue
            s = s.copy()
            n = self.tyname(self.place_ty(fr, t[3]))
            if n:
                settype(v, n)
            self.assign(s, fr, b, t[3], v, t[5])
            out.append((t[4], s))
        return out

    # ---------------------------------------------------------------- entry
    def analyse(self, body, args=None, st=None):
        """analyse a function from its entry; returns [(state, return value)]"""
        st = st or St()
        if args is None:
            args = [T("sym", body.lname(i)) for i in range(1, body.argc + 1)]
        self.entry = body
        return self.call_body(st, body, args, self.entry_id, ())


class Trace:
    """hash-consed list of the events of a path"""
    __slots__ = ("prev", "k", "ev")
    tab = {}

    @classmethod
    def make(cls, prev, k, ev):
        kk = (id(prev), k)
        t = cls.tab.get(kk)
        if t is None:
            t = cls()
            t.prev, t.k, t.ev = prev, k, ev
            cls.tab[kk] = t
        return t


def _tw_force(t, ty):
    if t.op not in ("int", "bv", "bin"):
        import terms
        terms._tw[t] = ty


class _Fns:
    def __init__(self):
        self.l = []
        self.m = {}

    def put(self, f):
        k = (f["u"], repr(f.get("args")), repr(f.get("r")))
        if k not in self.m:
            self.m[k] = len(self.l)
            self.l.append(f)
        return self.m[k]

    def get(self, i):
        return self.l[i]


_FN = _Fns()
