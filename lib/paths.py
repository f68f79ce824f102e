"""Every way control leaves a function body: returns, and the ends of generic loop iterations."""
from interp import Interp, St, Stuck, short
from terms import *


class PathInterp(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.ends = []  # ("back" | "exit", loop key, state)
        self.entries = {}  # loop key -> states in which the loop is entered

    def on_loop(self, fr, h, key, entry, head, backs, exits):
        for _, s in exits:
            s.facts[T("left", key)] = True
        if self.dry:
            return
        self.entries.setdefault(key, []).append(entry)
        for s in backs:
            self.ends.append(("back", key, s, fr))

    def dropped(self, fr, key, st):
        if not self.dry:
            self.ends.append(("back", key, st, fr))


def explore(db, body, args=None, st=None, **kw):
    """(interp, [(kind, state, value-or-None)]) for a body with symbolic arguments"""
    I = PathInterp(db, **kw)
    st = st.copy() if st is not None else St()
    if args is None:
        args = symargs(db, body, st)
    r = I.analyse(body, args, st)
    out = [("ret", s, v) for s, v in r]
    out += [("back", s, key) for k, key, s, fr in I.ends]
    return I, out


def symargs(db, body, st):
    args = []
    for i in range(body.argc):
        ti = body.lty(i + 1)
        ty = db.types[ti]
        t = T("sym", "arg%d" % (i + 1))
        if ty["k"] == "ref":
            root = ("L", "ARG", i)
            st.mem[root] = T("sym", "arg%d" % (i + 1))
            t = T("ref", root, ())
        else:
            n = ty.get("n") if ty["k"] == "int" else ty["k"] if ty["k"] in ("bool", "char") else None
            if n:
                settype(t, n)
        args.append(t)
    return args


UNK = T("unk")


class SkelInterp(PathInterp):
    """Keeps only what concerns the results of selected calls; every other value is unknown and every branch on it goes both ways."""

    def __init__(self, db, watch, *a, **k):
        super().__init__(db, *a, **k)
        self.watch = watch  # predicate on callee f
        self._rel = {}
        self.panics = []

    def rel(self, t):
        r = self._rel.get(t)
        if r is None:
            r = False
            if t.op == "wres":
                r = True
            else:
                for a in t.args:
                    if isinstance(a, T) and self.rel(a):
                        r = True
                        break
                    if isinstance(a, tuple) and any(isinstance(x, T) and self.rel(x) or isinstance(x, tuple) and any(isinstance(y, T) and self.rel(y) for y in x) for x in a):
                        r = True
                        break
            self._rel[t] = r
        return r

    def ab(self, v, tag=()):
        if v.op == "agg":
            fs = [self.ab(x, tag + (i,)) if isinstance(x, T) else x for i, x in enumerate(v.args[2:])]
            return T("agg", *(tuple(v.args[:2]) + tuple(fs)))
        if v.op in ("ref",) or v.op == "int" or self.rel(v):
            return v
        if v.op == "sym":
            return v
        return T("unk", tag)

    def write(self, st, root, projs, val):
        val = self.ab(val, (root, tuple(projs)))
        if root[0] == "O" and not self.rel(val) and not (st.mem.get(root) is not None and self.rel(st.mem[root])):
            return
        if projs and not self.rel(val) and root in st.mem and not (self.rel(st.mem[root]) or st.mem[root].op == "agg"):
            return
        super().write(st, root, projs, val)

    def event(self, st, fr, bb, kind, name, args, res=None, span=None, extra=None):
        if kind == "panic" and not self.dry:
            self.panics.append((st, fr, bb, name, span))
        if kind == "call" and extra and self.watch(extra["f"]) or any(isinstance(a, T) and self.rel(a) for a in list(args) + list((extra or {}).get("nargs", []))):
            return super().event(st, fr, bb, kind, name, args, res, span, extra)
        return None

    def assume(self, st, t, val):
        if not self.rel(t):
            return [st]
        return super().assume(st, t, val)

    def opaque_call(self, st, fr, bb, f, args, span, muts=None):
        if self.watch(f):
            st = st.copy()
            res = T("wres", short(f["path"]), (fr.id, bb) + st.loops)
            self.event(st, fr, bb, "call", short(f["path"]), args, res, span, extra={"f": f, "nargs": [], "mut": []})
            for i, a in enumerate(args):
                if a.op == "ref":
                    root, projs = self.target(a)
                    self.write(st, root, projs, UNK)
            return [(st, res)]
        out = super().opaque_call(st, fr, bb, f, args, span, muts)
        return [(s, v if self.rel(v) else UNK) for s, v in out]

    def block(self, fr, b, s, rets):
        n0 = len(rets)
        out = super().block(fr, b, s, rets)
        for s2 in [x for _, x in out] + rets[n0:]:
            self.prune(s2)
        return out

    def prune(self, s):
        s.facts = {k: v for k, v in s.facts.items() if self.rel(k)}
        s.neq = {k: v for k, v in s.neq.items() if self.rel(k)}
        s.mem = {k: self.ab(v, (k,)) for k, v in s.mem.items() if k[0] == "L" or self.rel(v)}


def skeleton(db, body, watch, noinline, **kw):
    I = SkelInterp(db, watch, noinline=noinline, **kw)
    st = St()
    r = I.analyse(body, symargs(db, body, st), st)
    out = [("ret", s, v) for s, v in r]
    out += [("back", s, key) for _, key, s, _ in I.ends]
    return I, out


def target(f):
    """the resolved callee of a call event"""
    return (f.get("r") or {}).get("u") or f["u"]


def error_type(db, body):
    """path of E when the body returns Result<_, E>"""
    ty = db.types[body.lty(0)]
    if ty["k"] == "adt" and ty["path"].endswith("result::Result"):
        e = db.types[ty["args"][1]]
        return e.get("path") if e["k"] == "adt" else None
    return None


def partial(t):
    """does the term stand for an element of a sequence that is not visited whole?"""
    return any(x.op == "any" and len(x.args) and isinstance(x.args[0], tuple) and any(k in ("skip", "take", "step_by") for k in x.args[0]) or x.op == "slref" or
               x.op == "seq" and x.args[0] in ("skip", "take", "step_by", "take_while", "skip_while", "filter", "filter_map", "map_while") for x in subterms(t))


def is_closure(b):
    return b.kind.lower() == "closure" or "{closure" in b.path
