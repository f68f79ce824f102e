"""Helpers for checks that compose summaries of small functions."""
import mirdb
from terms import *
from interp import Interp, St, Stuck
from mirdb import MissingAnchor


class Sem:
    def __init__(self, config="main", R=None, **kw):
        self.db = mirdb.load(config)
        self.R = R
        self.kw = kw
        self.n = 0
        self.oracle = None
        self.interp = Interp

    def fn(self, spec):
        """'Adt::name', 'name', or 'Adt:Trait:name'"""
        if ":" in spec and "::" not in spec:
            a, t, n = spec.split(":")
            return self.db.fn(n, a or None, t)
        p = spec.split("::")
        return self.db.fn(p[-1], p[-2] if len(p) > 1 else None)

    def adt(self, path):
        a = self.db.adts.get(path)
        if a is None:
            c = [x for x in self.db.adts if x.split("::")[-1] == path]
            if len(c) != 1:
                raise MissingAnchor("type " + path)
            return c[0]
        return path

    def variant(self, adt, name, *fields):
        p = self.adt(adt)
        for i, v in enumerate(self.db.adts[p]["variants"]):
            if v["name"] == name:
                return T("agg", p, i, *fields)
        raise MissingAnchor("variant %s::%s" % (adt, name))

    def variants(self, adt):
        return [v["name"] for v in self.db.adts[self.adt(adt)]["variants"]]

    def const(self, spec):
        raise NotImplementedError

    def call(self, spec, args, st=None, hooks=None, oracle=None, frame=None):
        """[(state, value)], panics: events"""
        b = self.fn(spec) if isinstance(spec, str) else spec
        I = self.interp(self.db, oracle=oracle or self.oracle, **self.kw)
        if frame:
            I.entry_id, I.keep = frame, True
        if hooks:
            I.hooks.update(hooks)
        st = st.copy() if st is not None else St()
        self.n += 1
        a2 = []
        for i, a in enumerate(args):
            ty = self.db.types[b.lty(i + 1)]
            if ty["k"] == "ref" and a.op != "ref":
                root = ("L", "S%d" % self.n, i)
                st.mem[root] = a
                a = T("ref", root, ())
            a2.append(a)
        r = I.analyse(b, a2, st)
        if self.R is not None:
            self.R.saw(I)
            self.R.paths += len(r)
        panics = [e for e in I.log if e.kind == "panic"]
        return I, r, panics


def sym(name, ty, sig=None):
    t = T("sym", name)
    settype(t, ty)
    if sig is not None:
        SIG[t] = sig
    return t


def site(e):
    return "%s %s" % (e.body.path, ":".join(map(str, (e.span or ["?"])[:2])))
