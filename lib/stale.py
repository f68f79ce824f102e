"""Freshness of state that outlives a run: an abstract interpreter over MIR, with calls inlined, that follows which parts of a retained object
still hold what an earlier run left there.

State of a part:  E empty or zero (what a new object has)   F determined by this run   Q this run's length, every element empty
                  P length left over, every element empty   R length left over, every element reset to empty   S left over.
Parts without an entry are F."""
from interp import Frame

LE = {"E": "EQFPRS", "Q": "QFPS", "F": "FS", "P": "PS", "R": "RS", "S": "S"}


def jst(a, b):
    if a == b:
        return a
    for c in "QFPRS":
        if c in LE[a] and c in LE[b]:
            return c
    return "S"


# --- values: ("st", s) | ("ptr", frozenset((root, path)), must) | ("clos", u) | ("it", (root, path), ty, acc) | ("pop", (root, path), s) | ("empty", (root, path))
F = ("st", "F")
E = ("st", "E")
S = ("st", "S")


def jval(a, b):
    if a == b:
        return a
    if "var" in (a[0], b[0]):
        return F
    if a[0] == b[0] == "st":
        return ("st", jst(a[1], b[1]))
    if a[0] == b[0] == "ptr":
        return ("ptr", a[1] | b[1], a[1] == b[1] and a[2] and b[2])
    if a[0] == b[0] == "it" and a[1:3] == b[1:3]:
        return ("it", a[1], a[2], a[3] if b[3] is None else b[3] if a[3] is None else a[3] & b[3])
    if a[0] == b[0] == "pop" and a[1] == b[1]:
        return ("pop", a[1], jst(a[2], b[2]))
    for x, y in ((a, b), (b, a)):
        if x[0] in ("ptr", "clos", "it") and y[0] == "st":
            return x if y[1] in "EF" else y
    if "it" in (a[0], b[0]):
        return S
    sa = a[1] if a[0] == "st" else a[2] if a[0] == "pop" else "F"
    sb = b[1] if b[0] == "st" else b[2] if b[0] == "pop" else "F"
    return ("st", jst(sa, sb))


CLEAR = {"clear", "reset"}
KEEP = {"reserve", "reserve_exact", "capacity", "shrink_to_fit", "shrink_to", "try_reserve"}
SAME = {"deref", "deref_mut", "as_mut", "as_ref", "borrow", "borrow_mut", "by_ref", "as_mut_slice", "as_slice", "into_iter", "into", "from", "unwrap_unchecked", "identity"}
OPT = {"unwrap", "expect", "unwrap_or_default", "unwrap_or_else", "unwrap_or"}
POP = {"pop", "pop_front", "pop_back", "pop_first", "pop_last", "next", "next_back"}
PUT = {"push", "push_back", "push_front", "insert"}
NEW = {"new", "default", "with_capacity", "new_in", "with_capacity_and_hasher", "new_const"}


class Stale:
    def __init__(self, db, q, eff, report):
        self.db, self.q, self.eff = db, q, eff
        self.report = report        # report(kind, body, span, path, what)
        self.memo = {}
        self.busy = []
        self.seen_calls = 0
        self.funcs = set()
        self.hooks = {}
        self.ctypes = {}           # parts of the retained object and their types
        self.trail = []

    # -- types
    def leaves(self, ti, path=(), sub=None, depth=0):
        t = self.db.types[ti] if ti is not None else {"k": "?"}
        if t["k"] == "param" and sub is not None:
            return self.leaves(sub, path, None, depth)
        if depth < 8 and t["k"] == "adt":
            a = self.db.adts.get(t["path"])
            if a is not None and a.get("local") and a.get("kind") == "struct":
                args = [x for x in t.get("args", ()) if isinstance(x, int)]
                out = []
                for i, f in enumerate(a["variants"][0]["fields"]):
                    out += self.leaves(f[1], path + (f[0],), args[0] if len(args) == 1 else None, depth + 1)
                return out
        if t["k"] == "tuple" and t.get("ts"):
            return [y for i, x in enumerate(t["ts"]) for y in self.leaves(x, path + (str(i),), None, depth + 1)]
        return [(path, ti)]

    def expand(self, ti, s):
        return {p: ("st", s) for p, _ in self.leaves(ti)}

    def ty(self, b, pl):
        return self.q.I.place_ty(Frame(b, "Q", ()), pl)

    def opty(self, b, o):
        return o[1].get("t") if o[0] == "k" else self.ty(b, o[1])

    # -- memory: root -> {path: value}, the inner dicts never changed in place; a part without entry (and without an entry above it) is F
    def get(self, m, root, path):
        d = m.get(root)
        if d is None:
            return F
        v = d.get(path)
        if v is not None:
            return v
        for k in range(len(path) - 1, -1, -1):
            v = d.get(path[:k])
            if v is not None:
                if v[0] == "st":
                    return v
                if v[0] in ("pop", "it"):
                    return ("st", "S" if v[0] == "it" else v[2])
                return F
        return F

    def has(self, m, root, path):
        d = m.get(root)
        return d is not None and any(path[:i] in d for i in range(len(path) + 1))

    def tree(self, m, root, path):
        d = m.get(root)
        if d is None:
            return {(): F}
        if not path:
            return d if () in d else dict(d)
        n = len(path)
        out = {p[n:]: v for p, v in d.items() if p[:n] == path}
        if () not in out:
            v = self.get(m, root, path)
            if v != F or not out:
                out[()] = v
        return out

    def put(self, m, root, path, tree):
        d = m.get(root, {})
        n = len(path)
        new = {p: v for p, v in d.items() if p[:n] != path}
        for p, v in tree.items():
            new[path + p] = v
        self.seal(m, root, new)

    def w(self, m, root, path, v):
        new = dict(m.get(root, {}))
        new[path] = v
        self.seal(m, root, new)

    def seal(self, m, root, d):
        for p in [p for p, v in d.items() if v == F]:
            if not any(p[:i] in d for i in range(len(p))):
                del d[p]
        if d or root[0] == "L":
            m[root] = d
        else:
            m.pop(root, None)

    def join(self, a, b):
        if a == b:
            return a
        out = {}
        for r in set(a) | set(b):
            da, dc = a.get(r), b.get(r)
            if da is dc or da == dc:
                out[r] = da
                continue
            if r[0] == "L" and (da is None or dc is None):
                out[r] = da if dc is None else dc       # not yet assigned on one side
                continue
            da, dc = da or {}, dc or {}
            d = {}
            for p in set(da) | set(dc):
                d[p] = jval(da[p] if p in da else self.get(a, r, p), dc[p] if p in dc else self.get(b, r, p))
            self.seal(out, r, d)
        return out

    # -- places
    def resolve(self, m, b, fr, pl):
        """([(root, path)], must)"""
        cur, must = [(("L", fr, pl[0]), ())], True
        ti = b.lty(pl[0])
        variant = None
        for e in pl[1:]:
            t = self.db.types[ti] if ti is not None else {"k": "?"}
            if e == "*":
                nxt = []
                for r, p in cur:
                    v = self.get(m, r, p)
                    if v[0] == "ptr":
                        nxt += [x for x in v[1] if x not in nxt]
                        must = must and v[2] and len(v[1]) == 1
                    elif self.has(m, r, p):
                        if t["k"] not in ("ref", "ptr"):
                            nxt.append((r, p))          # a box
                cur = nxt
                ti = t.get("t") if t["k"] in ("ref", "ptr") else None
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "f":
                a = self.db.adts.get(t["path"]) if t["k"] == "adt" else None
                en = a is None or a.get("kind") != "struct"
                if t["k"] == "tuple":
                    nm, ti2 = str(e[1]), t["ts"][e[1]]
                elif t["k"] == "closure":
                    nm, ti2 = str(e[1]), None
                elif a is not None:
                    try:
                        f = a["variants"][variant or 0]["fields"][e[1]]
                        args = [x for x in t.get("args", ()) if isinstance(x, int)]
                        ti2 = f[1]
                        if self.db.types[ti2]["k"] == "param":
                            ti2 = args[0] if len(args) == 1 else None
                        nm = f[0] if not en else "%d.%d" % (variant or 0, e[1])
                    except (IndexError, KeyError):
                        nm, ti2 = "%d.%d" % (variant or 0, e[1]), None
                else:
                    nm, ti2 = (str(e[2]) if len(e) > 2 and variant is None else "%d.%d" % (variant or 0, e[1])), None
                cur = [(r, p + (nm,)) for r, p in cur]
                ti = ti2
                variant = None
            else:
                cur = [(r, p + ("[]",)) if not (p and p[-1] == "[]") else (r, p) for r, p in cur]
                must = False
                ti = t.get("t")
        return cur, must

    def worst(self, m, targets):
        """states of the parts at and below the targets: {state: path}"""
        out = {}
        for r, p in targets:
            if "[]" in p:
                p = p[:p.index("[]")]
            for q, v in self.tree(m, r, p).items():
                s = v[1] if v[0] == "st" else v[2] if v[0] == "pop" else "S" if v[0] == "it" else None
                if s:
                    out.setdefault(s, (r, p + q))
        return out

    def read(self, m, b, span, targets, what, pok=False):
        w = self.worst(m, targets)
        for s in "SRP":
            if s in w and not (s == "P" and pok):
                self.violate(m, b, span, w[s], what)

    def violate(self, m, b, span, at, what):
        self.report(b, span, at, what, tuple(self.trail))
        if at is not None:
            for q, v in self.tree(m, *at).items():
                if v[0] in ("st", "pop", "it"):
                    self.w(m, at[0], at[1] + q, F)

    def control(self, m, r, p, val):
        """a change made as often as an earlier run says"""
        if r[0] == "C" and any(k[0] == "CTL" for k in m):
            v = self.get(m, r, p[:p.index("[]")] if "[]" in p else p)
            if not (v[0] == "st" and v[1] in "SP") and not (val is not None and all(x == E for x in val.values())):
                self.violate(m, self.db.bodies[self.trail[-1]], None, (r, p), "changed as often as an earlier run says")

    def setweak(self, m, targets, must, val, strong=True):
        for r, p in targets:
            self.control(m, r, p, val)
            if "[]" in p:
                self.touch(m, r, p)
                continue
            if must and len(targets) == 1:
                self.put(m, r, p, val)
            else:
                t0 = self.tree(m, r, p)
                keys = set(t0) | set(val)
                new = {}
                for k in keys:
                    a = t0.get(k)
                    a = a if a is not None else self.get(m, r, p + k)
                    c = val.get(k)
                    c = c if c is not None else self.sub(val, k)
                    new[k] = jval(a, c)
                self.put(m, r, p, new)

    def touch(self, m, r, p):
        """an element of a sequence is changed"""
        base = p[:p.index("[]")]
        v = self.get(m, r, base)
        if v[0] == "st" and v[1] in "EQPR":
            self.w(m, r, base, F if v[1] in "EQ" else S)

    @staticmethod
    def sub(tree, k):
        for i in range(len(k) - 1, -1, -1):
            v = tree.get(k[:i])
            if v is not None:
                return v if v[0] == "st" else F
        return F

    @staticmethod
    def at(tree, path):
        """the subtree of a value"""
        n = len(path)
        out = {p[n:]: v for p, v in tree.items() if p[:n] == path}
        if not out:
            for k in range(n - 1, -1, -1):
                v = tree.get(path[:k])
                if v is not None and v[0] in ("st", "pop"):
                    return {(): ("st", v[1] if v[0] == "st" else v[2])}
            return {(): F}
        return out

    def operand(self, m, b, fr, o):
        if o[0] == "k":
            ti = o[1].get("t")
            if ti is not None and self.db.types[ti]["k"] == "closure":
                return {(): ("clos", self.closure_of(ti))}
            if o[1].get("c") == "int" and o[1].get("v") == 0 or o[1].get("c") == "bool" and not o[1].get("v"):
                return {(): E}
            return {(): F}
        tg, must = self.resolve(m, b, fr, o[1])
        if not tg:
            return {(): F}
        out = None
        for r, p in tg:
            if "[]" in p:
                v = self.get(m, r, p[:p.index("[]")])
                if v[0] == "st" and v[1] in "QPR":
                    v = E
                t = {(): v if v[0] == "st" else F} if p not in m.get(r, ()) else self.tree(m, r, p)
            else:
                t = self.tree(m, r, p)
            out = t if out is None else self.jtree(out, t)
        return out

    def jtree(self, a, b):
        out = {}
        for k in set(a) | set(b):
            x = a.get(k)
            x = x if x is not None else self.sub(a, k)
            y = b.get(k)
            y = y if y is not None else self.sub(b, k)
            out[k] = jval(x, y)
        return out

    def closure_of(self, ti):
        t = self.db.types[ti]
        return t.get("u") or t.get("path") or t.get("s")

    # -- one function
    def call(self, u, args, m):
        """args: trees; returns (result tree, memory) or None while unknown"""
        b = self.db.bodies[u]
        self.funcs.add(u)
        # what the callee can see: everything its arguments lead to, its roots renamed in order of discovery
        ren, todo, cm2 = {}, [], {}

        def name(r):
            if r not in ren:
                ren[r] = ("A", len(ren)) if r[0] in "LA" else r
                todo.append(r)
                if r[0] == "C":
                    for e in sorted([k for k in m if k[0] == "EL"], key=repr):
                        name(e)
            return ren[r]

        def lift(v, g):
            if v[0] == "ptr":
                return ("ptr", frozenset((g(r), p) for r, p in sorted(v[1], key=repr)), v[2])
            if v[0] in ("it", "pop", "empty"):
                return (v[0], (g(v[1][0]), v[1][1])) + v[2:]
            return v
        for r in m:
            if r[0] == "CTL":
                name(r)
        cargs = [{p: lift(t[p], name) for p in sorted(t, key=repr)} for t in args]
        while todo:
            r = todo.pop(0)
            if r in m:
                d = m[r]
                cm2[ren[r]] = {p: lift(d[p], name) for p in (sorted(d, key=repr) if any(v[0] in ("ptr", "it", "pop", "empty") for v in d.values()) else d)}
        key = (u, tuple(tuple(sorted(t.items(), key=repr)) for t in cargs), frozenset((r, frozenset(d.items())) for r, d in cm2.items()))
        res = self.memo.get(key)
        if res is None:
            if key in self.busy:
                self.rec = True
                return None
            self.busy.append(key)
            self.trail.append(u)
            prev = None
            self.memo_tmp = getattr(self, "memo_tmp", {})
            while True:
                self.seen_calls += 1
                res = self.flow(b, cargs, cm2)
                if res == self.memo_tmp.get(key) or not getattr(self, "rec", False):
                    break
                self.memo_tmp[key] = res
                break
            self.trail.pop()
            self.busy.pop()
            if res is None:
                return None
            self.memo[key] = res
        inv = {v: k for k, v in ren.items()}
        bk = lambda r: inv.get(r, r) if r[0] == "A" else r
        outs = []
        for ret, om in res:
            out = {r: d for r, d in m.items() if r not in ren}
            for r, d in om.items():
                out[bk(r)] = {p: lift(v, bk) for p, v in d.items()}
            outs.append(({p: lift(v, bk) for p, v in ret.items()}, out))
        return outs

    def call1(self, u, args, m):
        """a call whose outcomes are taken together"""
        res = self.call(u, args, m)
        if not res:
            return None
        ret, out = res[0]
        for r2, o2 in res[1:]:
            ret, out = self.jtree(ret, r2), self.join(out, o2)
        return ret, out

    def flow(self, b, args, m0):
        fr = b.u
        m = dict(m0)
        clos = "{closure" in b.u
        for i, t in enumerate(args):
            self.put(m, ("L", fr, i + 1), (), t)
        ins = {(0, ()): m}
        work = [(0, ())]
        rets = {}
        n = 0
        while work:
            work.sort(reverse=True)
            w = work.pop()
            bb = w[0]
            n += 1
            if n > 8000:
                self.report(b, b.span, None, "the analysis does not settle", tuple(self.trail))
                return None
            for s, om in self.block(b, fr, bb, dict(ins[w])):
                k = self.part(b, fr, om)
                if s == "ret":
                    rets[k] = self.join(rets[k], om) if k in rets else om
                    continue
                k = (s, k)
                old = ins.get(k)
                new = om if old is None else self.join(old, om)
                if old is None or new != old:
                    ins[k] = new
                    if k not in work:
                        work.append(k)
        if not rets:
            return None
        return [(self.tree(r, ("L", fr, 0), ()), {k: d for k, d in r.items() if not (k[0] == "L" and k[1] == fr)}) for _, r in sorted(rets.items())]

    def part(self, b, fr, m):
        """which outcome a result held in a local has: states that differ in it are kept apart"""
        return tuple(sorted((r[2], d[("#v",)][1]) for r, d in m.items() if ("#v",) in d and r[0] == "L" and r[1] == fr and d[("#v",)][0] == "var"))

    def block(self, b, fr, bb, m):
        bl = b.blocks[bb]
        for s in bl["s"]:
            if s[0] == "dead":
                m.pop(("L", fr, s[1]), None)
            elif s[0] == "=":
                self.assign(b, fr, m, s)
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], m)]
        if k == "ret":
            return [("ret", m)]
        if k == "drop":
            return [(t[2], m)]
        if k == "assert":
            self.use(b, fr, m, t[1], t[5] if len(t) > 5 and isinstance(t[5], list) else b.span, "checked")
            return [(t[4], m)]
        if k == "switch":
            return self.switch(b, fr, bb, m, t)
        if k == "call":
            return [(t[4], x) for x in self.docall(b, fr, m, t)] if t[4] >= 0 else []
        return []

    def use(self, b, fr, m, o, span, what):
        """a value is looked at"""
        for p, v in self.operand(m, b, fr, o).items():
            s = v[1] if v[0] == "st" else v[2] if v[0] == "pop" else None
            if s and s in "SRP":
                at = self.resolve(m, b, fr, o[1])[0]
                self.violate(m, b, span, (at[0][0], at[0][1] + p) if at else None, what)
                return

    def switch(self, b, fr, bb, m, t):
        o = t[1]
        v = self.operand(m, b, fr, o).get((), F)
        outs = []
        if v[0] == "disc":
            r = ("L", fr, v[1])
            if r in m:
                m[r] = {p: x for p, x in m[r].items() if p != ("#v",)}
            return [(next((x for val, x in t[2] if val == v[2]), t[3]), m)]
        if v[0] in ("pop", "it", "empty"):
            for val, x in list(t[2]) + [[None, t[3]]]:
                mm = dict(m)
                none = val == 0 or (val is None and all(z != 0 for z, _ in t[2]))
                if v[0] == "empty":
                    none = not none
                if none:
                    r, p = v[1]
                    if v[0] in ("pop", "empty"):
                        if v[0] == "pop" and v[2] == "S":
                            mm.pop(("CTL", r, p), None)
                        elif v[0] == "empty" or v[2] != "P":
                            self.put(mm, r, p, {(): E})
                    elif v[0] == "it":
                        self.finish(mm, v)
                elif v[0] == "pop" and v[2] == "S":
                    mm[("CTL",) + v[1]] = {(): E}
                outs.append((x, mm))
            return outs
        self.use(b, fr, m, o, b.span, "decided on")
        for x in b.succs(bb):
            outs.append((x, m))
        return outs

    def finish(self, m, v):
        """every element of a retained sequence has been gone through"""
        (r, p), ti, acc = v[1], v[2], v[3]
        lv = {q for q, _ in self.leaves(ti)}
        if acc is None or lv <= set(acc):
            cur = self.get(m, r, p)
            if cur == S or acc is not None and cur[0] == "st" and cur[1] in "SRP":
                ct = self.ctypes.get(p) if r[0] == "C" else None
                self.put(m, r, p, {(): F if ct is not None and self.db.types[ct]["k"] == "array" else ("st", "R")})

    def assign(self, b, fr, m, s):
        pl, rv, span = s[1], s[2], s[3]
        k = rv[0]
        for e in pl[1:]:
            if e != "*" and e[0] == "i":
                self.use(b, fr, m, ["cp", [e[1]]], span, "used as an index")
        tg, must = self.resolve(m, b, fr, pl)
        if k == "use":
            val = self.operand(m, b, fr, rv[1])
            if rv[1][0] != "k":
                self.index_read(b, fr, m, rv[1][1], span)
        elif k in ("ref", "raw"):
            t2, mu2 = self.resolve(m, b, fr, rv[1])
            self.index_read(b, fr, m, rv[1], span)
            val = {(): ("ptr", frozenset(t2), mu2 and len(t2) == 1)} if t2 else {(): F}
            h = self.hooks.get("ref")
            if h:
                h(self, b, m, span, self.ty(b, rv[1]), t2, bool(rv[2]))
        elif k == "cast":
            val = self.operand(m, b, fr, rv[2])
        elif k == "discr":
            tr = self.operand(m, b, fr, ["cp", rv[1]])
            v = tr.get((), F)
            if ("#v",) in tr and rv[1] and len(rv[1]) == 1:
                val = {(): ("disc", rv[1][0], tr[("#v",)][1])}
            elif v[0] in ("pop", "it"):
                val = {(): v}
            else:
                if v[0] == "st" and v[1] in "SRP":
                    self.use(b, fr, m, ["cp", rv[1]], span, "decided on")
                val = {(): F}
        elif k == "agg":
            val = {}
            head = rv[1]
            if head[0] == "closure":
                val[()] = ("clos", head[1])
            for i, o in enumerate(rv[2]):
                nm = str(i)
                if head[0] == "adt":
                    a = self.db.adts.get(head[1])
                    if a is not None and a.get("kind") == "struct":
                        nm = a["variants"][0]["fields"][head[4] if len(head) > 4 and head[4] >= 0 else i][0]
                    else:
                        nm = "%d.%d" % (head[2], i)
                if head[0] == "array":
                    nm = "[]"
                for p, v in self.operand(m, b, fr, o).items():
                    q = (nm,) + p
                    val[q] = jval(val[q], v) if q in val else v
            if head[0] == "adt" and head[1].split("::")[-1] in ("Result", "ControlFlow"):
                val[("#v",)] = ("var", head[2])
            if not val:
                val = {(): E if head[0] in ("array", "adt") else F}
            if head[0] == "array" and val.get(("[]",)):
                x = val[("[]",)]
                val = {(): x if x[0] == "st" and x[1] in "SE" else F} if not any(v[0] == "ptr" for v in val.values()) else val
        elif k in ("bin", "un"):
            for o in rv[2:]:
                self.use(b, fr, m, o, span, "computed with")
            val = {(): F}
            if k == "un" and rv[1] == "Not":
                val = {(): F}
        elif k == "repeat":
            v = self.operand(m, b, fr, rv[1]).get((), F)
            val = {(): v if v[0] == "st" else F}
        else:
            val = {(): F}
        self.setweak(m, tg, must, val)

    def index_read(self, b, fr, m, pl, span):
        for i, e in enumerate(pl[1:], 1):
            if e != "*" and e[0] in ("i", "ci"):
                tg, _ = self.resolve(m, b, fr, pl[:i])
                for r, p in tg:
                    v = self.get(m, r, p)
                    if v[0] == "st" and v[1] in "SRP" and self.db.types[self.ty(b, pl[:i]) or 0]["k"] != "array":
                        self.violate(m, b, span, (r, p), "indexed")

    # -- calls
    def docall(self, b, fr, m, t):
        from effects import callee, cu
        f = callee(t)
        span = t[5]
        args = [self.operand(m, b, fr, a) for a in t[2]]
        dt, dmust = self.resolve(m, b, fr, t[3])
        for a in t[2]:
            if a[0] != "k":
                self.index_read(b, fr, m, a[1], span)
        u = cu(f) if f is not None else None
        cb = self.db.bodies.get(u) if u else None
        if cb is not None and cb.local:
            outs = []
            for ret, om in self.call(u, args, m) or []:
                om = dict(om)
                self.setweak(om, dt, dmust, ret)
                outs.append(om)
            return outs
        ret = self.extern(b, fr, m, t, f, args, span)
        if f is not None and f["name"] == "from_residual":
            ret = {p: v for p, v in ret.items() if p[:1] != ("#v",)}
            if "Result" in self.tyname(b, ["cp", t[3]]):
                ret[("#v",)] = ("var", 1)
        self.setweak(m, dt, dmust, ret)
        return [m]

    def pointers(self, m, tree, depth=0, seen=None):
        """everything a value leads to"""
        seen = set() if seen is None else seen
        if self.isclos(tree):
            return seen
        for v in tree.values():
            if v[0] == "ptr":
                for x in v[1]:
                    if x not in seen:
                        seen.add(x)
                        if depth < 4:
                            self.pointers(m, self.tree(m, *x), depth + 1, seen)
            elif v[0] == "it":
                seen.add(v[1])
        return seen

    def closures(self, m, tree, depth=0):
        out = []
        if tree.get((), F)[0] == "clos":
            out.append((tree[()][1], tree, None))
        for p, v in tree.items():
            if v[0] == "clos" and p != ():
                out.append((v[1], self.at(tree, p), None))
            if v[0] == "ptr" and depth < 2:
                for r, q in v[1]:
                    x = self.get(m, r, q)
                    if x[0] == "clos":
                        out.append((x[1], None, (r, q)))
        return out

    def run_closure(self, b, m, c, given, span):
        """one execution of a closure that was handed to code outside the crate; (result, memory)"""
        u, tree, at = c
        cb = self.db.bodies.get(u)
        if cb is None:
            return {(): F}, m
        first = tree if tree is not None else {(): ("ptr", frozenset([at]), True)}
        m = dict(m)
        byref = self.db.types[cb.lty(1)]["k"] == "ref"
        tmp = ("L", "#clos", u)
        if byref and tree is not None:
            self.put(m, tmp, (), tree)
            first = {(): ("ptr", frozenset([(tmp, ())]), True)}
        elif not byref and tree is None:
            first = self.tree(m, *at)
        args = [first]
        for i in range(cb.argc - 1):
            args.append(given[i] if i < len(given) else {(): F})
        res = self.call1(u, args, m)
        if res is None:
            return {(): F}, m
        ret, om = res
        om.pop(tmp, None)
        return ret, om

    def extern(self, b, fr, m, t, f, args, span):
        nm = f["name"] if f is not None else "?"
        path = f["path"] if f is not None else ""
        a0 = args[0].get((), F) if args else F
        tg = list(a0[1]) if a0[0] == "ptr" else []
        one = len(tg) == 1 and a0[0] == "ptr" and a0[2] and "[]" not in tg[0][1]
        dty = self.ty(b, t[3])
        h = self.hooks.get("extern")
        if h:
            h(self, b, m, span, f, tg)
        # -- resets
        if nm in CLEAR and len(args) == 1 and tg or nm == "truncate" and tg and args[1].get((), F) == E:
            for r, p in tg:
                if one:
                    self.put(m, r, p, {q: E for q in self.tree(m, r, p)})
                elif "[]" in p:
                    self.touch(m, r, p)
            return {(): F}
        if nm == "take" and path.endswith("mem::take") and one:
            tr = self.tree(m, *tg[0])
            self.put(m, tg[0][0], tg[0][1], {p: E for p in tr})
            return tr
        if nm == "replace" and path.endswith("mem::replace") and one:
            tr = self.tree(m, *tg[0])
            self.put(m, tg[0][0], tg[0][1], args[1])
            return tr
        if nm == "swap" and path.endswith("mem::swap") and one:
            a1 = args[1].get((), F)
            if a1[0] == "ptr" and a1[2] and len(a1[1]) == 1:
                o = next(iter(a1[1]))
                x, y = self.tree(m, *tg[0]), self.tree(m, *o)
                self.put(m, tg[0][0], tg[0][1], y)
                self.put(m, o[0], o[1], x)
                return {(): F}
        if nm == "clone_from" and one:
            a1 = args[1].get((), F)
            if a1[0] == "ptr":
                self.read(m, b, span, a1[1], "copied from")
            self.put(m, tg[0][0], tg[0][1], {(): F})
            return {(): F}
        if nm == "fill" and one:
            v = args[1].get((), F)
            cur = self.get(m, *tg[0])
            if cur[0] == "st" and cur[1] in "SRP":
                self.put(m, tg[0][0], tg[0][1], {(): ("st", "R") if self.allE(args[1], self.opty(b, t[2][1])) else S})
                return {(): F}
        if nm in KEEP:
            return {(): F}
        # -- giving all elements away
        if nm == "drain" and one and (len(args) == 1 or self.fullrange(b, t[2][1])):
            cur = self.get(m, *tg[0])
            s = cur[1] if cur[0] == "st" else "S"
            self.put(m, tg[0][0], tg[0][1], {(): E})
            return {(): ("st", s), ("[]",): ("st", "E" if s in "EQPR" else s)}
        if nm == "into_iter" and a0[0] == "st" and a0[1] in "SQPR" and "ptr" not in [v[0] for v in args[0].values()] and ("[]",) not in args[0]:
            return {(): a0, ("[]",): ("st", "E" if a0[1] in "QPR" else a0[1])}
        if nm in ("iter_mut", "into_iter") and one and self.get(m, *tg[0])[0] == "st" and self.get(m, *tg[0])[1] in "SRP":
            ti = self.elemty(dty)
            if ti is not None and self.mutref(b, t[2][0]):
                return {(): ("it", tg[0], ti, None)}
        if nm == "for_each" and a0[0] == "it" and len(args) == 2:
            return self.each(b, m, a0, args[1], span)
        if nm == "next" and one and self.get(m, *tg[0])[0] == "it":
            return self.nextof(m, tg[0])
        if nm in ("next", "next_back") and one:
            v = self.get(m, *tg[0])
            if v[0] == "st" and v[1] in "SRP" and dty is not None:
                el = self.get(m, tg[0][0], tg[0][1] + ("[]",))
                x = [y for y in self.db.types[dty].get("args", ()) if isinstance(y, int)]
                out = {(): ("pop", tg[0], "S")}
                for p, z in (self.expand(x[0], el[1]) if x and el[0] == "st" else {(): S}).items():
                    out[("1.0",) + p] = z
                return out
        if nm in ("map", "filter", "enumerate", "rev", "skip", "take", "chain", "zip", "cloned", "copied", "by_ref", "peekable", "inspect") and a0[0] == "st" and ("[]",) in args[0]:
            el = self.at(args[0], ("[]",))
            if nm == "map":
                cs = self.closures(m, args[1])
                if len(cs) == 1:
                    cb = self.db.bodies.get(cs[0][0])
                    given = el
                    if cb is not None and el.get((), F)[0] == "st":
                        given = self.expand(cb.lty(2), el[()][1]) if self.db.types[cb.lty(2)]["k"] not in ("ref",) else el
                    r, om = self.run_closure(b, m, cs[0], [given], span)
                    new = self.join(om, m)
                    m.clear()
                    m.update(new)
                    ws = {v[1] if v[0] == "st" else "F" for v in r.values()}
                    e = "E" if cb is not None and self.allE(r, cb.lty(0)) else "S" if ws & set("SRP") else "F"
                    return {(): a0, ("[]",): ("st", e)}
                return {(): a0, ("[]",): S}
            if nm in ("rev", "by_ref", "peekable", "filter", "skip", "take"):
                return {(): a0, ("[]",): el.get((), S)}
        if nm in ("rev", "by_ref") and a0[0] == "it":
            return args[0]
        if nm == "extend" and one and len(args) == 2 and args[1].get((), F)[0] == "st" and ("[]",) in args[1]:
            ln, el = args[1][()][1], args[1][("[]",)]
            cur = self.get(m, *tg[0])
            cs = cur[1] if cur[0] == "st" else "F"
            if el == E and cs in "EQP":
                self.put(m, tg[0][0], tg[0][1], {(): ("st", "P" if ln in "SRP" or cs == "P" else "Q")})
                return {(): F}
            if ln in "SRP" or el[1] in "SRP":
                self.violate(m, b, span, tg[0], "extended by what an earlier run left")
            if cs == "E":
                self.put(m, tg[0][0], tg[0][1], {(): F})
            return {(): F}
        # -- elements
        if nm in PUT and one and len(args) == 2:
            cur = self.get(m, *tg[0])
            cs = cur[1] if cur[0] == "st" else "F"
            if not (cs in "EQP" and self.allE(args[1], self.opty(b, t[2][1]))):
                self.control(m, tg[0][0], tg[0][1], None)
            elif any(k[0] == "CTL" for k in m):
                self.put(m, tg[0][0], tg[0][1], {(): ("st", "P")})
                return {(): F}
            else:
                if cs == "E" and nm != "insert":
                    self.put(m, tg[0][0], tg[0][1], {(): ("st", "Q")})
                elif cs == "E":
                    self.put(m, tg[0][0], tg[0][1], {(): F})
                return {(): F}
            if cs == "P":
                self.violate(m, b, span, tg[0], "given an element that is not empty while what was left there is kept")
            if cs in "EQ":
                self.put(m, tg[0][0], tg[0][1], {(): F})
                return {(): F}
        if nm in POP and one and len(args) == 1 and nm not in ("next", "next_back"):
            cur = self.get(m, *tg[0])
            cs = cur[1] if cur[0] == "st" else "F"
            if cs in "SR":
                self.violate(m, b, span, tg[0], "taken from")
            return {(): ("pop", tg[0], "P" if cs == "P" else "F"), ("1.0",): E if cs in "EQP" else F}
        if nm == "is_empty" and one and self.get(m, *tg[0])[0] == "st" and self.get(m, *tg[0])[1] in "EQF":
            return {(): ("empty", tg[0])}
        if nm == "resize" and one:
            cur = self.get(m, *tg[0])
            if cur == ("st", "R") and self.allE(args[2], self.opty(b, t[2][2])):
                self.put(m, tg[0][0], tg[0][1], {(): F})
                return {(): F}
        if nm in OPT:
            return self.unopt(b, m, nm, args, span)
        if nm == "branch" and args:
            ok = "0.0" if any(p and p[0] == "0.0" for p in args[0]) or "Result" in self.tyname(b, t[2][0]) else "1.0"
            tr = self.at(args[0], (ok,))
            out = {("0.0",) + p: v for p, v in tr.items()}
            var = args[0].get(("#v",))
            if var is not None:
                out[("#v",)] = ("var", int((var[1] == 0) != (ok == "0.0")))
            return out
        if nm in ("map", "ok_or", "ok_or_else", "copied", "cloned") and args and "Option" in self.tyname(b, t[2][0]) and a0[0] == "st" and a0[1] not in "SRP":
            pass
        if nm in SAME and args:
            # access only: the same part
            if a0[0] in ("ptr", "it", "st", "pop"):
                return args[0]
        if nm == "get_mut" and "Rc" in path and one:
            h = self.hooks.get("unique")
            if h:
                h(self, b, m, span, tg[0])
            return {("1.0",): a0}
        if nm in NEW and not any(self.pointers(m, a) for a in args):
            return {(): E}
        # -- anything else
        return self.other(b, fr, m, t, f, args, span, nm, dty)

    def tyname(self, b, o):
        ti = self.opty(b, o)
        return self.db.types[ti].get("path", "") if ti is not None else ""

    def other(self, b, fr, m, t, f, args, span, nm, dty):
        cls = []
        derived = set()
        for a, tr in zip(t[2], args):
            ty = self.opty(b, a)
            for v in list(tr.values()):
                s = v[1] if v[0] == "st" else v[2] if v[0] == "pop" else "S" if v[0] == "it" else None
                if s and s in "SRP":
                    at = self.resolve(m, b, fr, a[1])[0] if a[0] != "k" else None
                    self.violate(m, b, span, at[0] if at else None, "passed to %s" % nm)
                    break
            cls += self.closures(m, tr)
            cap = {x for u, ct, at in cls for x in ()}
            ptrs = self.pointers(m, {p: v for p, v in tr.items()} if not self.isclos(tr) else {})
            if not ptrs:
                continue
            derived |= ptrs
            arr = all(self.isarray(r, p) for r, p in ptrs)
            self.read(m, b, span, [x for x in ptrs if not self.isclos(self.tree(m, *x)) and not self.isit(m, x)], "given to %s" % nm)
            from effects import VIEW, STEP
            if ty is not None and self.eff.mutty(ty) and nm not in VIEW and nm not in STEP:
                for r, p in ptrs:
                    self.control(m, r, p, None)
                    if "[]" in p:
                        self.touch(m, r, p)
                        continue
                    tr2 = self.tree(m, r, p)
                    for q, v in tr2.items():
                        if v[0] == "st" and v[1] in "EQ":
                            self.putleaf(m, r, p + q, F)
        rets = None
        for c in cls:
            prev = None
            for _ in range(6):
                r, om = self.run_closure(b, m, c, [], span)
                new = self.join(om, m)
                rets = r if rets is None else self.jtree(rets, r)
                if new == m:
                    break
                m.clear()
                m.update(new)
        out = {(): F}
        if dty is not None and self.eff.refty(dty) and derived:
            k = self.db.types[dty]["k"]
            out = {(): ("ptr", frozenset((r, p if p and p[-1] == "[]" else p + ("[]",)) for r, p in derived if r[0] != "L" or self.tree(m, r, p)), False)}
            if not out[()][1]:
                out = {(): F}
        return out

    def putleaf(self, m, r, p, v):
        self.w(m, r, p, v)

    def isarray(self, r, p):
        return False

    def isclos(self, tr):
        return tr.get((), F)[0] == "clos"

    def isit(self, m, x):
        return self.get(m, *x)[0] == "it"

    def allE(self, tr, ti):
        """every part of a value is empty"""
        if ti is None:
            return tr == {(): E}
        for p, _ in self.leaves(ti):
            v = tr.get(p)
            if v is None:
                v = self.sub(tr, p)
            if v != E or any(q[:len(p)] == p and x != E for q, x in tr.items()):
                return False
        return True

    def mutref(self, b, o):
        ti = self.opty(b, o)
        return ti is not None and self.db.types[ti]["k"] == "ref" and bool(self.db.types[ti].get("mut"))

    def fullrange(self, b, o):
        ti = self.opty(b, o)
        return ti is not None and self.db.types[ti].get("path", "").endswith("RangeFull")

    def elemty(self, ti):
        """element type of an IterMut"""
        if ti is None:
            return None
        t = self.db.types[ti]
        if t["k"] == "adt" and "IterMut" in t["path"]:
            for x in t.get("args", ()):
                if isinstance(x, int) and self.db.types[x]["k"] not in ("region", "lifetime"):
                    return x
        return None

    def nextof(self, m, loc):
        v = self.get(m, *loc)
        v = self.settle(m, v)
        self.put(m, loc[0], loc[1], {(): v})
        el = ("EL", v[1])
        self.put(m, el, (), self.expand(v[2], "S"))
        return {(): v, ("1.0",): ("ptr", frozenset([(el, ())]), True)}

    def settle(self, m, v):
        el = ("EL", v[1])
        if el not in m:
            return v
        good = frozenset(p for p, _ in self.leaves(v[2]) if self.get(m, el, p) == E)
        m.pop(el, None)
        return ("it", v[1], v[2], good if v[3] is None else v[3] & good)

    def each(self, b, m, it, clos, span):
        cs = self.closures(m, clos)
        if len(cs) != 1:
            return {(): F}
        el = ("EL", it[1])
        self.put(m, el, (), self.expand(it[2], "S"))
        _, om = self.run_closure(b, m, cs[0], [{(): ("ptr", frozenset([(el, ())]), True)}], span)
        m.clear()
        m.update(om)
        self.finish(m, self.settle(m, it))
        return {(): F}

    def unopt(self, b, m, nm, args, span):
        tr = args[0]
        a0 = tr.get((), F)
        pay = None
        for k in ("1.0", "0.0"):
            if any(p and p[0] == k for p in tr):
                pay = self.at(tr, (k,))
        if pay is None:
            pay = {(): a0 if a0[0] in ("st", "ptr") else F}
        if a0[0] == "pop" and a0[2] == "P" and nm in ("unwrap", "expect"):
            self.violate(m, b, span, a0[1], "unwrapped")
        if nm == "unwrap_or_default":
            pay = self.jtree(pay, {(): E})
        elif nm == "unwrap_or_else":
            for c in self.closures(m, args[1]):
                r, om = self.run_closure(b, m, c, [], span)
                new = self.join(om, m)
                m.clear()
                m.update(new)
                pay = self.jtree(pay, r)
            if not self.closures(m, args[1]):
                pay = self.jtree(pay, {(): E})
        elif nm == "unwrap_or" and len(args) > 1:
            pay = self.jtree(pay, args[1])
        return pay
