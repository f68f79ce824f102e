"""What code may change: writes through references, mutable borrows handed to calls, and where they lead, over MIR with function summaries.

A root is ("arg", u, i) | ("local", u, l) | ("static",) | ("any",); a write is (root, path, span, what) with path the field names that lead from
the root to the written place (names only; derefs, indices and variant projections are passed through)."""
from terms import T
from prov import Prov

KEEP = 4


def callee(t):
    if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
        return t[1][1]["f"]
    return None


def cu(f):
    return (f.get("r") or {}).get("u") or f["u"]


class Effects:
    def __init__(self, db, q):
        self.db, self.q = db, q
        self.P = Prov(db)
        self._mods = {}
        self._run = set()
        self._mut = {}
        self._busy = set()

    # -- types
    def mutty(self, ti, seen=()):
        """can a value of this type be used to change memory it does not own (a mutable reference, possibly inside a structure)"""
        if ti in self._mut:
            return self._mut[ti]
        if ti in seen:
            return False
        t = self.db.types[ti]
        r = False
        if t["k"] == "ref":
            r = bool(t.get("mut")) or self.mutty(t["t"], seen + (ti,))
        elif t["k"] == "ptr":
            r = bool(t.get("mut", True))
        elif t["k"] == "adt":
            nm = t["path"].split("::")[-1]
            r = not t.get("local") and any(x in nm for x in ("IterMut", "Drain", "ChunksMut", "SplitAtMut", "PeekMut", "ValuesMut", "ExtractIf", "Splice")) or \
                not t.get("local") and nm in ("Entry", "OccupiedEntry", "VacantEntry", "Formatter", "RangeMut", "CursorMut", "IterMany") or \
                any(isinstance(x, int) and self.mutty(x, seen + (ti,)) for x in t.get("args", ()))
            a = self.db.adts.get(t["path"])
            if not r and a is not None and a.get("local"):
                r = any(self.mutty(f[1], seen + (ti,)) for v in a["variants"] for f in v["fields"])
        elif t["k"] in ("tuple",):
            r = any(self.mutty(x, seen + (ti,)) for x in t.get("ts", t.get("args", ())) if isinstance(x, int))
        elif t["k"] in ("slice", "array"):
            r = self.mutty(t["t"], seen + (ti,))
        if not seen:
            self._mut[ti] = r
        return r

    def opty(self, b, o):
        if o[0] == "k":
            return o[1].get("t")
        from interp import Frame
        return self.q.I.place_ty(Frame(b, "Q", ()), o[1])

    # -- where references lead
    def fields(self, pl):
        return tuple(str(p[2]) if len(p) > 2 else str(p[1]) for p in pl if p != "*" and p[0] == "f")

    def place(self, b, pl, path=(), depth=0):
        """{(root, path)} of a place"""
        k = max([i for i, p in enumerate(pl[1:], 1) if p == "*" or p[0] == "*"], default=0)
        path = (self.fields(pl[k + 1:]) + path)[:KEEP]
        if k == 0:
            if "{closure" in b.u and pl[0] == 1 and len(pl) > 1:
                return self.capture(b, pl, path, True)
            if 1 <= pl[0] <= b.argc:
                return {(("arg", b.u, pl[0]), path)}
            return {(("local", b.u, pl[0]), path)}
        return self.ptr_place(b, pl[:k], path, depth + 1)

    def capture(self, b, pl, path, by_value):
        """a captured variable: the operand the enclosing function put into the closure"""
        c = self.P.closures().get(b.u)
        fs = [p for p in pl[1:] if p != "*" and p[0] == "f"]
        if c is None or not fs or fs[0][1] >= len(c[1]):
            return {(("any",), ())}
        return self.ptr(c[0], c[1][fs[0][1]], (self.fields(fs[1:]) + path)[:KEEP], 5)

    def ptr_place(self, b, pl, path=(), depth=0):
        """what the reference stored in a place leads to"""
        if depth > 40:
            return {(("any",), ())}
        if len(pl) == 1:
            return self.ptr_local(b, pl[0], path, depth + 1)
        if "{closure" in b.u and pl[0] == 1:
            return self.capture(b, pl, path, False)
        if any(p == "*" or p[0] == "*" for p in pl[1:]):
            return self.place(b, pl, path, depth + 1)
        # a part of a local: if that was put together from parts, the part
        ds = self.P.defs(b).get(pl[0], [])
        if len(ds) == 1 and ds[0][0] == 1 and ds[0][1] == "rv" and ds[0][2][0] == "agg" and pl[1][0] == "f" and ds[0][2][1][0] in ("tuple", "adt"):
            ops = ds[0][2][2]
            if pl[1][1] < len(ops):
                return self.ptr(b, ops[pl[1][1]], path, depth + 1)
        return self.ptr_local(b, pl[0], (self.fields(pl[1:]) + path)[:KEEP], depth + 1)

    def ptr(self, b, o, path=(), depth=0):
        if o[0] == "k":
            ty = o[1].get("t")
            if ty is not None and self.db.types[ty]["k"] == "closure":
                return set()
            if str(o[1].get("c")) in ("static",):
                return {(("static",), path)}
            return {(("temp", "", 0), path)}
        return self.ptr_place(b, o[1], path, depth)

    def ptr_local(self, b, l, path=(), depth=0):
        if 1 <= l <= b.argc:
            if "{closure" in b.u and l == 1:
                c = self.P.closures().get(b.u)
                out = set()
                for o in (c[1] if c else ()):
                    out |= self.ptr(c[0], o, (), depth + 3)
                return out
            return {(("arg", b.u, l), path)}
        k = (b.u, l)
        if depth > 40:
            return {(("any",), ())}
        if k in self._busy:
            return set()
        self._busy.add(k)
        try:
            simple = self.db.types[b.lty(l)]["k"] in ("ref", "ptr")
            out = set()
            for n, kind, x, bb in self.P.defs(b).get(l, []):
                p = path if n == 1 else ()
                if kind == "rv":
                    out |= self.ptr_rv(b, x, p if simple or x[0] in ("use", "cast", "agg") else (), depth + 1)
                else:
                    out.add((("temp", b.u, bb), path))
                    f = callee(x)
                    pr = f is not None and f["name"] in PROJ
                    for a in x[2]:
                        if self.refop(b, a):
                            out |= self.ptr(b, a, p if pr else (), depth + 1)
                        if a[0] == "k" and a[1].get("t") is not None and self.db.types[a[1]["t"]]["k"] == "closure":
                            pass
            return out or {(("local",) + k, path)}
        finally:
            self._busy.discard(k)

    def ptr_rv(self, b, rv, path, depth):
        k = rv[0]
        if k in ("use",):
            return self.ptr(b, rv[1], path, depth)
        if k in ("ref", "raw"):
            return self.place(b, rv[1], path, depth)
        if k == "cast":
            return self.ptr(b, rv[2], path, depth)
        if k == "agg":
            out = set()
            for o in rv[2]:
                if self.refop(b, o):
                    out |= self.ptr(b, o, (), depth)
            return out
        if k in ("bin", "un", "discr", "len"):
            return set()
        return {(("temp", "", 0), path)} if k in ("repeat", "box", "nullary", "other") else {(("any",), ())}

    def refop(self, b, o):
        ty = self.opty(b, o)
        return ty is None or self.refty(ty)

    def refty(self, ti, seen=()):
        if ti in seen:
            return False
        t = self.db.types[ti]
        if t["k"] in ("ref", "ptr", "closure", "dyn", "param", "alias"):
            return True
        if t["k"] == "adt":
            nm = t["path"].split("::")[-1]
            if not t.get("local") and any(x in nm for x in ("Iter", "Drain", "Entry", "Arguments", "Argument", "Chunks", "Windows", "Peek", "Values", "Keys", "Range", "Formatter")) and nm not in ("Range", "RangeInclusive"):
                return True
            if any(isinstance(x, int) and self.refty(x, seen + (ti,)) for x in t.get("args", ())):
                return True
            a = self.db.adts.get(t["path"])
            return a is not None and bool(a.get("local")) and any(self.refty(f[1], seen + (ti,)) for v in a["variants"] for f in v["fields"])
        if t["k"] == "tuple":
            return any(self.refty(x, seen + (ti,)) for x in t.get("ts", t.get("args", ())) if isinstance(x, int))
        if t["k"] in ("slice", "array"):
            return self.refty(t["t"], seen + (ti,))
        return False

    # -- effects of one block
    def block(self, b, bb, stmts=True):
        """[(root, path, span, what, value operands)]"""
        out = []
        bl = b.blocks[bb]
        for s in bl["s"]:
            if s[0] == "=":
                pl = s[1]
                out += [(r, p, s[3], "assignment") for r, p in self.dest(b, pl)]
                if s[2][0] == "agg" and s[2][1][0] == "closure":
                    out += self.closure_mods(b, bb, s[2][1][1])
            elif s[0] == "sd":
                out += [(r, p, s[3], "assignment") for r, p in self.dest(b, s[1])]
            elif s[0] not in ("dead", "assume"):
                out.append((("any",), (), None, s[0]))
        t = bl["t"]
        if t[0] == "call":
            out += [(r, p, t[5], "result of a call") for r, p in self.dest(b, t[3])]
            out += self.call(b, bb, t)
        elif t[0] == "other":
            out.append((("any",), (), None, t[1][:60]))
        return out

    def dest(self, b, pl):
        if len(pl) == 1:
            return {(("local", b.u, pl[0]), ())}
        return self.place(b, pl)

    def call(self, b, bb, t):
        f = callee(t)
        out = []
        if f is None:
            # a function value: whatever it may change through its arguments
            for a in t[2]:
                if self.opty(b, a) is not None and self.mutty(self.opty(b, a)):
                    out += [(r, p, t[5], "a call through a function value") for r, p in self.ptr(b, a)]
            return out
        u = cu(f)
        cb = self.db.bodies.get(u)
        if cb is not None and cb.local and not self.opaque(cb):
            args = t[2]
            for (r, p, w) in self.mods(u):
                if r[0] == "arg" and r[1] == u:
                    i = r[2] - 1
                    if i < len(args):
                        ty = self.opty(b, t[2][i])
                        if ty is not None and self.db.types[ty]["k"] not in ("ref", "ptr") and not self.mutty(ty):
                            continue
                        out += [(r2, (p2 + p)[:KEEP] if r2[0] != "any" else (), t[5], w) for r2, p2 in self.ptr(b, args[i])]
                elif r[0] in ("any", "static"):
                    out.append((r, p, t[5], w))
                elif r[0] == "arg":
                    out.append((r, p, t[5], w))  # of an enclosing function, through a capture
            return out
        for a in t[2]:
            ty = self.opty(b, a)
            if ty is None or not self.mutty(ty) or f["name"] in VIEW:
                continue
            tt = self.db.types[ty]
            out += [(r, p, t[5], f["name"]) for r, p in self.ptr(b, a)]
            if tt["k"] in ("ref", "ptr") and self.mutty(tt["t"]) and f["name"] not in STEP:
                out += [(r, p, t[5], f["name"]) for r, p in self.inner(b, a)]
        return out

    def inner(self, b, o):
        """what the references held in what o refers to lead to"""
        out = set()
        for r, p in self.ptr(b, o):
            if r[0] == "local":
                out |= self.ptr_local(self.db.bodies[r[1]], r[2], (), 3)
            else:
                out.add((r, p))
        return out

    def opaque(self, cb):
        return False

    def closure_mods(self, b, bb, cu_):
        cb = self.db.bodies.get(cu_)
        if cb is None:
            return []
        out = []
        for (r, p, w) in self.mods(cu_):
            if r[0] == "arg" and r[1] == cu_:
                # what the closure is given: whatever the calls that receive it also receive
                for rr in self.given(b, cu_):
                    out.append((rr[0], rr[1], cb.span, w))
            elif r[0] == "local" and r[1] == cu_:
                continue
            else:
                out.append((r, p, cb.span, w))
        return out

    def given(self, b, cu_):
        """what the calls that are handed the closure are handed besides"""
        out = set()
        holds = {s[1][0] for bl in b.blocks for s in bl["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and s[2][1][1] == cu_}
        for bb, bl in enumerate(b.blocks):
            t = bl["t"]
            if t[0] != "call":
                continue
            if any(a[0] != "k" and a[1][0] in holds for a in t[2]):
                for a in t[2]:
                    if a[0] != "k" and a[1][0] not in holds and self.refop(b, a):
                        out |= self.ptr(b, a)
        return out

    # -- summaries
    def mods(self, u):
        """{(root, path, what)} a call of u may change outside its own locals (least fixpoint, started by solve)"""
        return self._mods.get(u, frozenset())

    def solve(self, bodies):
        todo = [b for b in bodies if not self.opaque(b)]
        ch = True
        self.rounds = 0
        while ch:
            ch = False
            self.rounds += 1
            for b in todo:
                n = frozenset(self._body(b))
                if n != self._mods.get(b.u, frozenset()):
                    self._mods[b.u] = n | self._mods.get(b.u, frozenset())
                    ch = True

    def _body(self, b):
        u = b.u
        cur = set()
        for bb in b.reachable():
            if b.blocks[bb].get("cleanup"):
                continue
            for r, p, sp, w in self.block(b, bb):
                if r[0] == "temp" or r[0] == "local" and r[1] == u:
                    continue
                if r[0] == "arg" and r[1] == u and self.db.types[b.lty(r[2])]["k"] not in ("ref", "ptr") and not self.refty(b.lty(r[2])):
                    continue
                cur.add((r, p, w))
        return cur

    # -- control
    def exits(self, b):
        return [bb for bb in range(len(b.blocks)) if b.blocks[bb]["t"][0] == "ret"]

    def postdoms(self, b):
        """immediate post-dominators over the blocks from which the function can return"""
        n = len(b.blocks)
        reach = b.reachable()
        live = set(self.exits(b)) & reach
        st = list(live)
        while st:
            x = st.pop()
            for p in b.preds()[x]:
                if p in reach and p not in live and not b.blocks[p].get("cleanup"):
                    live.add(p)
                    st.append(p)
        EX = -1
        pd = {x: None for x in live}
        full = live | {EX}
        pd = {x: set(full) for x in live}
        pd[EX] = {EX}
        ch = True
        order = sorted(live, reverse=True)
        while ch:
            ch = False
            for x in order:
                ss = [s for s in b.succs(x) if s in live]
                if b.blocks[x]["t"][0] == "ret":
                    ss = ss + [EX]
                if not ss:
                    continue
                new = set.intersection(*[pd[s] for s in ss]) | {x}
                if new != pd[x]:
                    pd[x] = new
                    ch = True
        return live, pd

    def region(self, b, bb):
        """blocks whose execution depends on the choice made at the end of bb: (blocks, join)"""
        live, pd = self._pd(b)
        if bb not in live:
            return set(), None
        cand = pd[bb] - {bb}
        # the nearest: the one post-dominated by every other candidate
        join = None
        for c in cand:
            if all(o in pd[c] for o in cand):
                join = c
        out, st = set(), [s for s in b.succs(bb) if s != join]
        while st:
            x = st.pop()
            if x in out or x == join:
                continue
            out.add(x)
            st += [s for s in b.succs(x) if s != join]
        return out, join

    def _pd(self, b):
        if not hasattr(self, "_pdc"):
            self._pdc = {}
        if b.u not in self._pdc:
            self._pdc[b.u] = self.postdoms(b)
        return self._pdc[b.u]


PROJ = {"index", "index_mut", "get", "get_mut", "iter", "iter_mut", "next", "next_back", "into_iter", "last", "last_mut", "first", "first_mut", "unwrap", "expect", "branch", "enumerate", "rev",
        "peek", "peekable", "zip", "as_slice", "as_mut_slice", "deref", "deref_mut", "copied", "cloned", "get_unchecked", "drain", "or_insert_with", "or_insert", "or_default", "entry", "values_mut", "values"}

# calls that only give access, and calls that only advance the iterator they are given
VIEW = {"index_mut", "get_mut", "iter_mut", "deref_mut", "as_mut", "last_mut", "first_mut", "as_mut_slice", "borrow_mut", "split_at_mut", "chunks_mut", "values_mut", "get_unchecked_mut",
        "as_mut_ptr", "by_ref", "into_iter", "enumerate", "rev", "zip", "peekable", "map", "filter", "skip", "take",
        "peek"}  # (peek only moves the next element into the iterator's own buffer)
STEP = {"next", "next_back", "nth", "peek", "peek_mut", "next_if", "next_if_eq", "size_hint", "len", "all", "any", "position", "find", "count", "fold", "for_each", "max", "min", "last"}
