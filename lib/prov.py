"""Where a value comes from: backward def-use expansion over MIR, through single-assignment locals, closure captures and try operators."""
from terms import T, subterms

PURE_WRAPPERS = ("clone", "into", "from", "try_into", "unwrap", "expect", "to_owned", "borrow", "borrow_mut", "as_ref", "as_mut", "deref", "deref_mut", "copied", "cloned")


class Prov:
    def __init__(self, db):
        self.db = db
        self._defs = {}
        self._clo = None
        self._memo = {}
        self._callers = None

    def defs(self, b):
        d = self._defs.get(b.u)
        if d is None:
            d = {}
            for bb, bl in enumerate(b.blocks):
                if bl.get("cleanup"):
                    continue
                for s in bl["s"]:
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append((len(s[1]), "rv", s[2], bb))
                t = bl["t"]
                if t[0] == "call":
                    d.setdefault(t[3][0], []).append((len(t[3]), "call", t, bb))
            self._defs[b.u] = d
        return d

    def closures(self):
        if self._clo is None:
            self._clo = {}
            for b in self.db.bodies.values():
                for bl in b.blocks:
                    for s in bl["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                            self._clo[s[2][1][1]] = (b, s[2][2])
        return self._clo

    def operand(self, b, o):
        if o[0] == "k":
            c = o[1]
            if c.get("c") == "int":
                return T("const", c.get("v"))
            if c.get("c") == "fn":
                return T("fn", (c["f"].get("r") or {}).get("u") or c["f"]["u"])
            return T("const", str({k: v for k, v in c.items() if k != "t"}))
        return self.place(b, o[1])

    def place(self, b, pl):
        base = self.local(b, pl[0])
        for p in pl[1:]:
            base = self.proj(b, base, p)
        return base

    def proj(self, b, base, p):
        if p == "*" or p[0] == "*":
            return base.args[0] if base.op == "addr" else T("deref", base)
        if p[0] == "f":
            if base.op == "agg" and base.args[0] in ("tuple", "adt") and isinstance(p[1], int) and p[1] < len(base.args) - 2:
                return base.args[2 + p[1]]
            name = p[2] if len(p) > 2 else str(p[1])
            # x? : the value carried on the continuing side
            if base.op == "as" and base.args[0].op == "app" and base.args[0].args[0] == "branch":
                return base.args[0].args[2]
            if base.op == "upself":
                return self.upvar(base.args[0], p[1])
            return T("f", base, name)
        if p[0] == "i":
            return T("i", base, self.local(b, p[1]))
        if p[0] in ("d", "as", "v"):
            return T("as", base, p[1])
        return T("p", base, str(p))

    def upvar(self, u, i):
        c = self.closures().get(u)
        if c is None:
            return T("upvar", u, i)
        b, ops = c
        return self.operand(b, ops[i]) if i < len(ops) else T("upvar", u, i)

    def local(self, b, l):
        k = (b.u, l)
        if k in self._memo:
            r = self._memo[k]
            return r if r is not None else T("var", b.u, l)
        self._memo[k] = None
        r = self._local(b, l)
        self._memo[k] = r
        return r

    def _local(self, b, l):
        if 1 <= l <= b.argc:
            if self.db.bodies.get(b.u) is not None and ("{closure" in b.u) and l == 1:
                ty = self.db.types[b.lty(1)]
                me = T("upself", b.u)
                return T("addr", me) if ty["k"] == "ref" else me
            return T("arg", b.u, l)
        ds = self.defs(b).get(l, [])
        whole = [d for d in ds if d[0] == 1]
        if len(ds) != 1 or len(whole) != 1:
            return T("var", b.u, l)
        _, kind, x, bb = whole[0]
        if kind == "call":
            f = x[1]
            args = [self.operand(b, a) for a in x[2]]
            if f[0] == "k" and f[1].get("c") == "fn":
                fi = f[1]["f"]
                if fi["name"] in PURE_WRAPPERS and len(args) >= 1:
                    a = args[0]
                    if fi["name"] in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut"):
                        return a
                    return a.args[0] if a.op == "addr" else a
                if fi["name"] in ("into_iter",) and args and args[0].op == "app":
                    return args[0]
                u = (fi.get("r") or {}).get("u") or fi["u"]
                return T("app", fi["name"], (u, b.u, bb), *args)
            return T("app", "?", ("?", b.u, bb), *args)
        return self.rvalue(b, x, bb)

    def rvalue(self, b, rv, bb):
        k = rv[0]
        if k == "use":
            return self.operand(b, rv[1])
        if k in ("ref", "raw"):
            x = self.place(b, rv[1])
            return x.args[0] if x.op == "deref" else T("addr", x)
        if k == "cast":
            return self.operand(b, rv[2])
        if k == "bin":
            return T("bin", rv[1], self.operand(b, rv[2]), self.operand(b, rv[3]))
        if k == "un":
            return T("un", rv[1], self.operand(b, rv[2]))
        if k == "discr":
            return T("discr", self.place(b, rv[1]))
        if k == "agg":
            h = rv[1]
            name = h[1] if h[0] == "adt" else h[0]
            if h[0] == "closure":
                return T("closure", h[1])
            if h[0] == "tuple":
                return T("agg", "tuple", 0, *[self.operand(b, o) for o in rv[2]])
            return T("agg", name, h[2] if len(h) > 2 and isinstance(h[2], int) else 0, *[self.operand(b, o) for o in rv[2]])
        return T("rv", k, (b.u, bb))

    def call_args(self, b, t):
        return [self.operand(b, a) for a in t[2]]

    def callers(self):
        """callee u -> [(body, bb, args (terms), span)]"""
        if self._callers is None:
            self._callers = {}
            for b in self.db.bodies.values():
                if not b.local:
                    continue
                for bb, bl in enumerate(b.blocks):
                    t = bl["t"]
                    if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
                        f = t[1][1]["f"]
                        u = (f.get("r") or {}).get("u") or f["u"]
                        self._callers.setdefault(u, []).append((b, bb, t))
        return self._callers

    def sites(self, u):
        return [(b, bb, self.call_args(b, t), t[5]) for b, bb, t in self.callers().get(u, [])]

    def alts(self, t):
        """the terms of every whole definition of a local assigned more than once"""
        if t.op != "var":
            return [t]
        b = self.db.bodies[t.args[0]]
        out = []
        for n, kind, x, bb in self.defs(b).get(t.args[1], []):
            if n != 1:
                return [t]
            if kind == "rv":
                out.append(self.rvalue(b, x, bb))
            else:
                f = x[1]
                fi = f[1]["f"] if f[0] == "k" and f[1].get("c") == "fn" else None
                out.append(T("app", fi["name"] if fi else "?", (((fi.get("r") or {}).get("u") or fi["u"]) if fi else "?", b.u, bb), *[self.operand(b, a) for a in x[2]]))
        return out


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 10:
        return "..."
    a = t.args
    r = lambda x: show(x, d + 1)
    if t.op == "app":
        return "%s(%s)" % (a[0], ", ".join(map(r, a[2:])))
    if t.op == "f":
        return "%s.%s" % (r(a[0]), a[1])
    if t.op == "as":
        return "%s as %s" % (r(a[0]), a[1])
    if t.op == "addr":
        return "&" + r(a[0])
    if t.op == "deref":
        return "*" + r(a[0])
    if t.op == "arg":
        return "%s#%s" % (a[0].split("::")[-1], a[1])
    if t.op == "var":
        return "v%s" % a[1]
    return "%s(%s)" % (t.op, ", ".join(map(r, a)))
