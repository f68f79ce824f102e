"""Queries over the exported MIR: who writes a field, who constructs a type, who calls what."""
from interp import Interp, Frame


class Q:
    def __init__(self, db):
        self.db = db
        self.I = Interp(db)

    def bodies(self):
        """local bodies, closures included"""
        return [b for b in self.db.bodies.values() if b.local]

    def span(self, b, sp):
        return "%s %s" % (b.path, ":".join(map(str, (sp or b.span or ["?"])[:2])))

    def prefix_types(self, b, pl):
        """[(projection, adt path of the value it is applied to)]"""
        fr = Frame(b, "Q", ())
        out = []
        for i in range(1, len(pl)):
            t = self.I.place_ty(fr, pl[:i])
            adt = None
            if t is not None:
                ty = self.db.types[t]
                if ty["k"] == "adt":
                    adt = ty["path"]
            out.append((pl[i], adt))
        return out

    def fields_of_place(self, b, pl):
        """[(adt, field name)] along a place"""
        return [(a, p[2] if len(p) > 2 else str(p[1])) for p, a in self.prefix_types(b, pl) if isinstance(p, (list, tuple)) and p[0] == "f"]

    def stmts(self, b):
        for bb, bl in enumerate(b.blocks):
            for s in bl["s"]:
                if s[0] == "=":
                    yield bb, s
        return

    def field_writes(self, adt, field):
        """assignments whose destination is (inside) adt.field: (body, bb, rvalue or None for call results, span)"""
        out = []
        for b in self.bodies():
            for bb, s in self.stmts(b):
                if any(a and a.split("::")[-1] == adt and f == field for a, f in self.fields_of_place(b, s[1])):
                    out.append((b, bb, s[2], s[3]))
            for bb, bl in enumerate(b.blocks):
                t = bl["t"]
                if t[0] == "call" and any(a and a.split("::")[-1] == adt and f == field for a, f in self.fields_of_place(b, t[3])):
                    out.append((b, bb, None, t[5]))
        return out

    def constructs(self, adt):
        """aggregate constructions of adt: (body, bb, operands, variant, span)"""
        out = []
        for b in self.bodies():
            for bb, s in self.stmts(b):
                rv = s[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] == adt:
                    out.append((b, bb, rv[2], rv[1][2], s[3]))
        return out

    def calls(self, pred):
        """call sites whose callee satisfies pred(f): (body, bb, f, args, span)"""
        out = []
        for b in self.bodies():
            for bb, bl in enumerate(b.blocks):
                t = bl["t"]
                if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
                    f = t[1][1]["f"]
                    if pred(f):
                        out.append((b, bb, f, t[2], t[5]))
        return out

    def callees(self, b):
        """local bodies called or referenced by b (function values and closures included)"""
        out = set()

        def fn(f):
            u = (f.get("r") or {}).get("u") or f["u"]
            if u in self.db.bodies:
                out.add(u)

        def op(o):
            if o and o[0] == "k" and isinstance(o[1], dict):
                if o[1].get("c") == "fn":
                    fn(o[1]["f"])
                elif o[1].get("c") == "zst":
                    ty = self.db.types[o[1]["t"]]
                    if ty["k"] == "closure" and ty["path"] in self.db.bodies:
                        out.add(ty["path"])
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                for x in rv[1:]:
                    if isinstance(x, list):
                        if x and x[0] in ("k",):
                            op(x)
                        for y in x:
                            if isinstance(y, list) and y and y[0] == "k":
                                op(y)
                if rv[0] == "agg" and rv[1][0] == "closure" and rv[1][1] in self.db.bodies:
                    out.add(rv[1][1])
            t = bl["t"]
            if t[0] == "call":
                op(t[1])
                for a in t[2]:
                    op(a)
        return out

    def reach(self, roots):
        seen, st = set(), [r.u for r in roots]
        while st:
            u = st.pop()
            if u in seen or u not in self.db.bodies:
                continue
            seen.add(u)
            st += list(self.callees(self.db.bodies[u]))
        return [self.db.bodies[u] for u in seen]
