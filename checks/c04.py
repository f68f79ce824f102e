"""C04: published edits and debug locations are sorted as documented."""
import mirdb
from sem import *
from paths import *
from orders import ranks, components, weak_orders, rank_oracle
from query import Q
from prov import Prov, show
from typestate import Typestate

TECHNIQUE = ("interprocedural typestate of the published lists (pushed / sorted / drained / reversed) over MIR with function summaries; "
             "program points of pushes resolved by def-use; sort keys and comparators evaluated symbolically")
LEVEL = "other"

STABLE = {"sort_by_key", "sort_by", "sort_by_cached_key", "sort"}
UNSTABLE = {"sort_unstable", "sort_unstable_by", "sort_unstable_by_key"}
NEUTRAL = {"reserve", "reserve_exact", "shrink_to_fit", "len", "is_empty", "capacity", "deref", "deref_mut", "as_slice", "as_mut_slice", "iter", "last", "first", "get", "index", "into_iter", "fmt", "as_ref", "as_mut",
           "borrow", "borrow_mut", "binary_search_by", "binary_search_by_key", "drop", "drop_in_place", "eq", "as_ptr", "clone", "from", "into", "as_deref"}
REMOVES = {"pop", "truncate", "retain", "dedup", "dedup_by_key", "dedup_by"}
ORDERADAPT = {"rev", "skip", "step_by", "take", "filter", "filter_map", "chain", "flat_map", "skip_while", "take_while", "cycle"}


def elem_type(db, ti):
    """element type of a (reference to a) vector or slice"""
    t = db.types[ti]
    while t["k"] in ("ref", "ptr"):
        t = db.types[t["t"]]
    if t["k"] == "adt" and t["path"].split("::")[-1] in ("Vec", "SmallVec", "Box"):
        a = [x for x in t.get("args", ()) if isinstance(x, int)]
        return db.types[a[0]]["s"] if a else None
    if t["k"] in ("slice", "array"):
        return db.types[t["t"]]["s"]
    return None


def opty(db, b, o):
    if o[0] == "k":
        return o[1].get("t")
    Q_ = Q(db)
    return Q_.I.place_ty(__import__("interp").Frame(b, "Q", ()), o[1])


class ListState(Typestate):
    """one list, known by its element type"""

    def __init__(self, db, q, elem, R, rule):
        super().__init__(db, q)
        self.elem, self.R, self.rule = elem, R, rule
        self.P = Prov(db)
        self.sites = {}

    def is_obj(self, b, o):
        t = opty(self.db, b, o)
        return t is not None and elem_type(self.db, t) == self.elem

    def mutable(self, b, o):
        t = self.db.types[opty(self.db, b, o)]
        return t["k"] != "ref" or t.get("mut")

    def events(self, b, bb, t, env):
        if t[1][0] != "k" or t[1][1].get("c") != "fn" or not t[2]:
            return self.made(b, t)
        f = t[1][1]["f"]
        u = (f.get("r") or {}).get("u") or f["u"]
        c = self.db.bodies.get(u)
        if c is not None and c.local:
            return None
        if not self.is_obj(b, t[2][0]):
            # handed to foreign code in another position
            if any(self.is_obj(b, a) and self.mutable(b, a) for a in t[2][1:]):
                return self.other(f["name"], b, bb, t)
            return self.made(b, t)
        n = f["name"]
        if not self.mutable(b, t[2][0]):
            return None
        k = self.kind(n)
        self.sites.setdefault(k, []).append((b, bb, t, n))
        return self.labels(k, n, b, bb, t, env)

    def made(self, b, t):
        ti = self.q.I.place_ty(self.frame(b), t[3])
        if ti is not None and self.db.types[ti]["k"] == "adt" and elem_type(self.db, ti) == self.elem:
            f = t[1][1]["f"]["name"] if t[1][0] == "k" and t[1][1].get("c") == "fn" else ""
            if f in ("new", "with_capacity", "default", "take"):
                return [("clear",)]
        return None

    def frame(self, b):
        from interp import Frame
        return Frame(b, "Q", ())

    def other(self, n, b, bb, t):
        return [("clear",)] if n in ("append", "take") else [("disorder", n)]

    def kind(self, n):
        if n in ("push", "extend", "append", "extend_from_slice", "extend_one"):
            return "add"
        if n in STABLE | UNSTABLE:
            return "sort"
        if n == "reverse":
            return "reverse"
        if n in ("drain", "take"):
            return "drain"
        if n == "clear":
            return "clear"
        if n in NEUTRAL or n in REMOVES:
            return "neutral"
        return "disorder"

    def labels(self, k, n, b, bb, t, env):
        if k == "neutral":
            return []
        return [(k, n, b.u, bb)]


def key_order(S, c, elem, want_of):
    """the closure (key function or comparator) orders elements by the wanted components first; (ok, shown)"""
    db = S.db
    b = db.bodies.get(c)
    if b is None:
        return False, "no closure body"
    return None


class SortKeys:
    """which components of the element a sort call orders by"""

    def __init__(self, S, P):
        self.S, self.db, self.P = S, S.db, P

    def closure(self, b, t):
        for a in t[2][1:]:
            ti = opty(self.db, b, a)
            ty = self.db.types[ti]
            if ty["k"] == "closure":
                return self.db.bodies.get(ty["path"])
            if ty["k"] == "fndef" and a[0] == "k":
                f = a[1].get("f") or {}
                return self.db.bodies.get((f.get("r") or {}).get("u") or f.get("u"))
        return None

    def orders_by(self, b, t, n, elems):
        """elems(prefix) -> (element term, [component symbols in the documented order]); True when the sort orders by exactly that prefix first"""
        if n in ("sort", "sort_unstable"):
            return "natural", ""
        c = self.closure(b, t)
        if c is None:
            return False, "no key function found"
        I = self.S
        a, ca = elems("a")
        clo = is_closure(c)
        if n.endswith("by_key") or n.endswith("cached_key"):
            st = St()
            st.mem[("L", "ELEM", 0)] = a
            args = [T("sym", "env")] if clo else []
            I, res, _ = self.S.call(c, args + [T("ref", ("L", "ELEM", 0), ())], st=st)
            got = components(res[0][1]) if len(res) == 1 else None
            return got is not None and got[:len(ca)] == ca, str([str(x[1]) for x in res])[:200]
        z, cb = elems("b")
        import models
        bad = ""
        for rank in weak_orders(ca + cb):
            st = St()
            st.mem[("L", "ELEM", 0)], st.mem[("L", "ELEM", 1)] = a, z
            args = [T("sym", "env")] if clo else []
            I, res, _ = self.S.call(c, args + [T("ref", ("L", "ELEM", 0), ()), T("ref", ("L", "ELEM", 1), ())], st=st, oracle=rank_oracle(rank))
            ka, kb = [rank[x] for x in ca], [rank[x] for x in cb]
            if ka == kb:
                continue
            want = models.LESS if ka < kb else models.GREATER
            got = res[0][1] if len(res) == 1 else None
            if got is not None and got.op == "ordering":
                x, y = ranks(rank, got.args[0]), ranks(rank, got.args[1])
                if x is not None and y is not None and len(x) == len(y):
                    got = models.LESS if x < y else models.GREATER if y < x else models.EQUAL
            if got is not want:
                return False, "%s for %s" % ([str(x[1]) for x in res][:2], {str(k): v for k, v in rank.items()})
        return True, ""


def run(R, tier):
    S = Sem("main", R)
    db = S.db
    q, P = Q(db), Prov(db)
    R.rule("edits-sorted", "the backtracking allocator's edits are sorted stably by (program point, priority) after the last one is added and before they are published")
    R.rule("edits-reversed", "the single-pass allocator pushes edits in descending program-point order and reverses the list exactly once after the last push")
    R.rule("publish", "published edits are the internal ones in their order, each with its own program point")
    R.rule("debug-sorted", "debug locations are sorted by (label, program point) after the last one is added")
    roots = {a: [b for b in db.local_bodies() if b.path == a + "::run"] for a in ("ion", "fastalloc")}
    for a, bs in roots.items():
        if len(bs) != 1:
            raise MissingAnchor(a + "::run")
    ion(S, R, q, P, roots["ion"][0])
    fast(S, R, q, P, roots["fastalloc"][0])


def okret(db, b):
    """statement predicate: the root returns success"""
    def p(s):
        return s[0] == "=" and s[1] == [0] and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("Result") and s[2][1][2] == 0
    return p


class Debug(ListState):
    def __init__(self, S, R, q, root, who):
        super().__init__(S.db, q, "(u32, ProgPoint, ProgPoint, Allocation)", R, "debug-sorted")
        self.root, self.ok, self.who = root, okret(S.db, root), who
        self.K = SortKeys(S, self.P)
        self.good = {}
        self.rets = 0

    def elems(self, p):
        l, f, t = sym(p + "label", "u32"), sym(p + "from", "u32"), sym(p + "to", "u32")
        pp = lambda x: T("agg", "ProgPoint", 0, x)
        return T("agg", "tuple", 0, l, pp(f), pp(t), T("sym", p + "alloc")), [l, f]

    def stmt(self, b, bb, s, env):
        if b is self.root and self.ok(s):
            return [("ok",)]

    def step(self, st, l, w):
        b, bb, sp = w
        R = self.R
        if l[0] == "add" or l[0] in ("disorder", "reverse"):
            return ("dirty",)
        if l[0] == "clear":
            return ("sorted",)
        if l[0] == "sort":
            k = (b.u, bb)
            if k not in self.good:
                ok, why = self.K.orders_by(b, b.blocks[bb]["t"], l[1], self.elems)
                self.good[k] = bool(ok)
                R.ob(self.rule, "%s: the list is sorted by label and then by program point" % self.who, bool(ok), self.q.span(b, sp), why)
            return ("sorted",)
        if l[0] == "ok":
            self.rets += 1
            R.ob(self.rule, "%s: success is returned with the debug locations sorted" % self.who, st == "sorted", self.q.span(b, sp), "state: " + st)
        return (st,)


class IonEdits(ListState):
    def __init__(self, S, R, q, root):
        super().__init__(S.db, q, "(ion::data_structures::PosWithPrio, Edit)", R, "edits-sorted")
        self.root, self.ok, self.S = root, okret(S.db, root), S
        self.K = SortKeys(S, self.P)
        self.good = {}
        pw = S.adt("PosWithPrio")
        self.pw, self.fl = pw, [f[0] for f in S.db.adts[pw]["variants"][0]["fields"]]
        self.seen = {}

    def elems(self, p):
        pos, prio = sym(p + "pos", "u32"), sym(p + "prio", "u32")
        v = {"pos": T("agg", "ProgPoint", 0, pos), "prio": prio}
        return T("agg", "tuple", 0, T("agg", self.pw, 0, *[v.get(f, T("sym", p + f)) for f in self.fl]), T("sym", p + "edit")), [pos, prio]

    def stmt(self, b, bb, s, env):
        if b is self.root and self.ok(s):
            return [("ok",)]

    def step(self, st, l, w):
        b, bb, sp = w
        R = self.R
        if l[0] in ("add", "disorder", "reverse"):
            if st == "drained":
                R.ob(self.rule, "nothing is added after the edits were published", False, self.q.span(b, sp), l[1])
            return ("dirty",)
        if l[0] == "clear":
            return ("sorted",)
        if l[0] == "sort":
            k = (b.u, bb)
            if k not in self.good:
                ok, why = self.K.orders_by(b, b.blocks[bb]["t"], l[1], self.elems)
                self.good[k] = ok is True and l[1] in STABLE
                R.ob(self.rule, "edits are sorted stably by program point and priority", self.good[k], self.q.span(b, sp), "%s %s" % (l[1], why))
            return ("sorted",)
        if l[0] == "drain":
            R.ob(self.rule, "edits are sorted when they are published", st == "sorted", self.q.span(b, sp), "state: " + st)
            return ("drained",)
        if l[0] == "ok":
            R.ob(self.rule, "success is returned with the edits published", st == "drained", self.q.span(b, sp), "state: " + st)
        return (st,)


class IonOut(ListState):
    """the output's list in the backtracking allocator: cleared, then filled once from the sorted list"""

    def __init__(self, S, R, q, root):
        super().__init__(S.db, q, "(ProgPoint, Edit)", R, "publish")
        self.root, self.ok, self.S = root, okret(S.db, root), S
        self.good = {}
        self.fr = {}

    def stmt(self, b, bb, s, env):
        if b is self.root and self.ok(s):
            return [("ok",)]
        if s[0] == "=" and len(s[1]) > 1 and s[2][0] == "use" and str(s[1][-1][-1]) == "edits":
            fs = self.q.fields_of_place(b, s[1])
            if fs and fs[-1][1] == "edits" and (fs[-1][0] or "").split("::")[-1] == "Output":
                return [("assign", self.P.operand(b, s[2][1]))]

    def events(self, b, bb, t, env):
        if t[1][0] == "k" and t[1][1].get("c") == "fn" and t[1][1]["f"]["name"] == "next" and t[2] and self.pushes(b) and self.chain(self.P.operand(b, t[2][0])) == "edits":
            return [("visit",)]
        return super().events(b, bb, t, env)

    def pushes(self, b):
        return any(x["t"][0] == "call" and x["t"][1][0] == "k" and x["t"][1][1].get("c") == "fn" and x["t"][1][1]["f"]["name"] == "push" and self.is_obj(b, x["t"][2][0]) for x in b.blocks)

    def chain(self, t, d=0):
        """the source of an order-preserving iterator chain, or None"""
        db = self.db
        if d > 12:
            return None
        if t.op == "addr":
            return self.chain(t.args[0], d + 1)
        if t.op == "app":
            n, u = t.args[0], t.args[1][0]
            b = db.bodies.get(u)
            if b is not None and b.local:
                xs = [self.chain(x, d + 1) for x in self.P.alts(self.P.local(b, 0))]
                return xs[0] if xs and all(x is not None and x == xs[0] for x in xs) else None
            if n in ("drain", "into_iter", "iter", "cloned", "copied", "by_ref", "take") and t.args[2:]:
                if n == "drain" and len(t.args) > 3 and not str(show(t.args[3])).endswith(("RangeFull", "RangeFull()")) and "RangeFull" not in show(t.args[3]):
                    return None
                if n == "take" and not (t.args[1][0].startswith("core::mem") or "mem" in t.args[1][0]):
                    return None
                return self.chain(t.args[2], d + 1)
            if n == "map" and len(t.args) == 4 and t.args[3].op == "closure" and self.keeps(t.args[3].args[0]):
                return self.chain(t.args[2], d + 1)
            if n in ("collect", "from_iter"):
                return self.chain(t.args[2], d + 1)
            return None
        if t.op == "f" and t.args[1] == "edits":
            return "edits"
        if t.op == "var":
            return None
        return None

    def keeps(self, u):
        """(point and priority, edit) -> (point, edit)"""
        b = self.db.bodies[u]
        pw = self.S.adt("PosWithPrio")
        fl = [f[0] for f in self.db.adts[pw]["variants"][0]["fields"]]
        v = {f: T("sym", "e" + f) for f in fl}
        el = T("agg", "tuple", 0, T("agg", pw, 0, *[v[f] for f in fl]), T("sym", "edit"))
        I, res, _ = self.S.call(b, [T("sym", "env"), el])
        return bool(res) and all(r is T("agg", "tuple", 0, v["pos"], T("sym", "edit")) for _, r in res)

    def step(self, st, l, w):
        b, bb, sp = w
        R = self.R
        if l[0] == "clear":
            return ("empty",)
        if l[0] == "visit":
            return ("filled" if st == "empty" else st,)
        if l[0] == "assign":
            src = self.chain(l[1])
            if src is None and l[1].op == "app" and l[1].args[0] in ("new", "default", "with_capacity"):
                return ("empty",)
            R.ob(self.rule, "the published edits are the sorted ones, in order, each at its own point", src == "edits", self.q.span(b, sp), show(l[1])[:160])
            return ("filled",)
        if l[0] in ("add",):
            t = b.blocks[bb]["t"]
            src = None
            if l[1] in ("extend", "append"):
                src = self.chain(self.P.operand(b, t[2][1]))
            elif l[1] == "push":
                src = self.pushed(b, t)
            if (b.u, bb) not in self.good:
                self.good[(b.u, bb)] = src
                R.ob(self.rule, "the published edits are the sorted ones, in order, each at its own point", src == "edits", self.q.span(b, sp), show(self.P.operand(b, t[2][1]))[:160])
            loop = l[1] == "push"
            R.ob(self.rule, "the edits are published once, into an empty list", st == "empty" or loop and st == "filled", self.q.span(b, sp), "state: " + st)
            return ("filled",)
        if l[0] in ("sort", "reverse", "disorder", "drain"):
            R.ob(self.rule, "the published list is left as filled", False, self.q.span(b, sp), l[1])
        if l[0] == "ok":
            R.ob(self.rule, "success is returned with the edits published", st == "filled", self.q.span(b, sp), "state: " + st)
        return (st,)

    def pushed(self, b, t):
        v = self.P.operand(b, t[2][1])
        nx = lambda x: x.op == "f" and x.args[0].op == "as" and x.args[0].args[0].op == "app" and x.args[0].args[0].args[0] == "next"
        if nx(v):
            return self.chain(v.args[0].args[0].args[2])
        if v.op == "agg" and v.args[0] == "tuple" and len(v.args) == 4:
            a, e = v.args[2], v.args[3]
            if a.op == "f" and e.op == "f" and a.args[1] in ("0",) and e.args[1] == "1" and a.args[0] is e.args[0] and nx(a.args[0]):
                return self.chain(a.args[0].args[0].args[0].args[2])
        return None


def ion(S, R, q, P, root):
    db = S.db
    for cls, start in ((IonEdits, "dirty"), (IonOut, "unknown")):
        ts = cls(S, R, q, root)
        ts.run(root, start)
        R.paths += sum(ts.nevents.values())
        for u in ts.bodies:
            R.sawfn(db.bodies[u])
        kinds = {l[0] for l in ts.nevents}
        R.floor("%s events" % cls.__name__, len(kinds & {"add", "assign", "ok", "sort", "drain"}), 2)
    d = Debug(S, R, q, root, "backtracking allocator")
    d.run(root, "dirty")
    R.floor("debug locations pushed (backtracking)", sum(n for l, n in d.nevents.items() if l[0] == "add"), 1)
    R.floor("success returns (backtracking)", d.rets, 1)


# ------------------------------------------------------------------ single pass
class FastEdits(ListState):
    """state: A (only After pushes for this instruction so far), B (Before pushed), F (block start pushed), rev"""

    def __init__(self, S, R, q, root):
        super().__init__(S.db, q, "(ProgPoint, Edit)", R, "edits-reversed")
        self.S, self.root, self.ok = S, root, okret(S.db, root)
        self.shown = set()
        self.npush = 0
        self.vals = {"index::Inst": self.inst, "InstPosition": self.pos, "index::Block": self.block}
        self.loops = {}

    def stmt(self, b, bb, s, env):
        if b is self.root and self.ok(s):
            return [("ok",)]

    def tyname(self, b, l):
        t = self.db.types[b.lty(l)]
        return t.get("path") if t["k"] == "adt" else None

    def bind(self, b, bb, t, env, callee):
        d = dict(env)
        f = t[1][1]["f"] if t[1][0] == "k" and t[1][1].get("c") == "fn" else None
        if f and ((f.get("r") or {}).get("u") or f["u"]) == callee.u and not is_closure(callee):
            d = {}
            for i, a in enumerate(t[2]):
                ty = self.tyname(callee, i + 1)
                if ty in self.vals:
                    d[(callee.u, i + 1)] = self.value(b, self.P.operand(b, a), ty, env, t, i)
        return tuple(sorted(d.items()))

    def value(self, b, t, ty, env, call=None, i=None):
        if t.op == "arg":
            return dict(env).get((t.args[0], t.args[1]), "?")
        if t.op == "var":
            vs = {self.value(b, x, ty, env) for x in self.P.alts(t) if x is not t}
            return vs.pop() if len(vs) == 1 else "?"
        return self.vals[ty](b, t, env, call, i)

    def pos(self, b, t, env, call, i):
        if t.op == "agg" and t.args[0].split("::")[-1] == "InstPosition":
            return {0: "B", 1: "A"}.get(t.args[1], "?") if self.S.variants("InstPosition")[0] == "Before" else "?"
        if t.op == "const":
            return {"0": "B", "1": "A"}.get(str(t.args[0]), "?")
        return "?"

    def payload(self, t):
        """the iterator whose element t is"""
        if t.op == "f" and t.args[0].op == "as" and t.args[0].args[0].op == "app" and t.args[0].args[0].args[0] == "next":
            x = t.args[0].args[0].args[2]
            return x.args[0] if x.op == "addr" else x
        if t.op == "f" and t.args[0].op == "as" and t.args[0].args[0].op == "app" and t.args[0].args[0].args[0] == "next_back":
            x = t.args[0].args[0].args[2]
            return T("app", "rev", ("", "", 0), x.args[0] if x.op == "addr" else x)
        return None

    def unrev(self, it):
        n = 0
        while it.op == "app" and it.args[0] in ("rev", "into_iter", "iter"):
            n += it.args[0] == "rev"
            it = it.args[2]
            while it.op in ("addr", "deref"):
                it = it.args[0]
        return n % 2 == 1, it

    def block_of(self, b, t, env):
        """the block whose instructions t ranges over"""
        while t.op in ("addr", "deref"):
            t = t.args[0]
        if t.op == "app" and t.args[0] == "block_insns":
            return self.value(b, t.args[-1], "index::Block", env)
        return None

    def inst(self, b, t, env, call, i):
        it = self.payload(t)
        if it is not None:
            back, src = self.unrev(it)
            blk = self.block_of(b, src, env)
            if blk == "blk":
                return "each" if back else "ascending"
        if t.op == "app" and t.args[0] in ("first",) and self.block_of(b, t.args[2], env) == "blk":
            return "first"
        if call is not None and i is not None:
            return self.counted(b, call, i, env) or "?"
        return "?"

    def block(self, b, t, env, call, i):
        if t.op == "app" and t.args[0] == "new" and len(t.args) == 3:
            it = self.payload(t.args[2])
            if it is not None:
                back, src = self.unrev(it)
                if src.op == "agg" and src.args[0].split("::")[-1] == "Range" and "num_blocks" in show(src.args[3]) and str(src.args[2].args[0]) == "0":
                    return "blk" if back else "ascending"
        if call is not None and i is not None:
            return "blk" if self.counted(b, call, i, env) == "each" else "?"
        return "?"

    def counted(self, b, call, i, env):
        """an index that a loop counts down by one per iteration"""
        u = (call[1][1]["f"].get("r") or {}).get("u") or call[1][1]["f"]["u"]
        k = (b.u, u, i)
        if k not in self.loops:
            self.loops[k] = None
            if is_closure(b):
                return None
            I, paths = explore(self.db, b, None, noinline=lambda x: x.local and not is_closure(x) and x.u == u or opaque(x))
            ok, n = True, 0
            for kind, s, key in paths:
                if kind != "back":
                    continue
                es = [e for e in s.events() if e.kind == "call" and e.extra and target(e.extra["f"]) == u and e.loops]
                for e in es:
                    ph = [x for x in subterms(e.args[i]) if x.op == "phi"]
                    down = False
                    for x in ph:
                        root, path = x.args[1], x.args[2]
                        cell = s.mem.get(root)
                        for p in path:
                            cell = I.getf(cell, p) if cell is not None else None
                        if cell is not None and cell is mkbin("Sub", x, mkint(1, "usize"), "usize"):
                            down = True
                    n += 1
                    ok = ok and down
            self.loops[k] = "each" if n and ok else None
        return self.loops[k]

    def events(self, b, bb, t, env):
        r = super().events(b, bb, t, env)
        if r is not None:
            return r
        # a call that passes a fresh instruction or block starts a new one
        if t[1][0] == "k" and t[1][1].get("c") == "fn":
            f = t[1][1]["f"]
            u = (f.get("r") or {}).get("u") or f["u"]
            c = self.db.bodies.get(u)
            if c is not None and c.local and not is_closure(c) and u in self.pushers():
                return None
        return r

    def pushers(self):
        if not hasattr(self, "_pushers"):
            direct = set()
            for b in self.q.bodies():
                for bb, bl in enumerate(b.blocks):
                    t = bl["t"]
                    if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn" and t[2] and t[1][1]["f"]["name"] in ("push", "extend", "append") and self.is_obj(b, t[2][0]):
                        direct.add(b.u)
            out = set(direct)
            for b in self.q.bodies():
                if {x.u for x in self.q.reach([b])} & direct:
                    out.add(b.u)
            self._pushers = out
        return self._pushers

    def call(self, b, bb, t, env, cur):
        f = t[1][1]["f"] if t[1][0] == "k" and t[1][1].get("c") == "fn" else None
        if f:
            u = (f.get("r") or {}).get("u") or f["u"]
            c = self.db.bodies.get(u)
            if c is not None and c.local and not is_closure(c) and u in self.pushers():
                e = dict(self.bind(b, bb, t, env, c))
                for (cu, i), v in e.items():
                    ty = self.tyname(c, i)
                    if ty == "index::Inst" and v in ("each", "ascending") and self.P.operand(b, t[2][i - 1]).op != "arg":
                        nested = any(x == v for x in dict(env).values())
                        cur = self.apply(cur, ("newinst", "nested" if nested else v), (b, bb, t[5]))
                    if ty == "index::Block" and v in ("blk", "ascending") and not any(x == "blk" for x in dict(env).values()):
                        cur = self.apply(cur, ("newblock", v), (b, bb, t[5]))
        return super().call(b, bb, t, env, cur)

    def labels(self, k, n, b, bb, t, env):
        if k == "add" and n == "push":
            v = self.P.operand(b, t[2][1])
            return [("push",) + self.point(b, v, env)]
        return super().labels(k, n, b, bb, t, env)

    def point(self, b, v, env):
        if v.op == "agg" and v.args[0] == "tuple":
            p = v.args[2]
            if p.op == "app" and p.args[0] == "new" and len(p.args) == 4:
                return self.value(b, p.args[2], "index::Inst", env), self.value(b, p.args[3], "InstPosition", env)
            if p.op == "app" and p.args[0] in ("before", "after"):
                return self.value(b, p.args[2], "index::Inst", env), {"before": "B", "after": "A"}[p.args[0]]
        return "?", "?"

    def step(self, st, l, w):
        b, bb, sp = w
        R = self.R
        where = self.q.span(b, sp)
        if l[0] == "newblock":
            self.ob("blocks are allocated last to first", l[1] == "blk", where, "")
            return (st if st == "rev" else "new",)
        if l[0] == "newinst":
            self.ob("the instructions of a block are allocated last to first, before its start", l[1] == "each" and st != "F", where, "%s in state %s" % (l[1], st))
            return (st if st == "rev" else "A",)
        if l[0] == "push":
            self.npush += 1
            inst, pos = l[1:]
            if st == "rev":
                self.ob("nothing is pushed after the list was reversed", False, where, "")
                return (st,)
            if inst == "first" and pos == "B":
                self.ob("edits are pushed at or before the previous program point", True, where, "")
                return ("F",)
            ok = inst == "each" and (pos == "B" and st in ("A", "B") or pos == "A" and st == "A")
            self.ob("edits are pushed at or before the previous program point", ok, where, "at (%s, %s) in state %s" % (inst, pos, st))
            return ("B" if pos == "B" else st,)
        if l[0] == "reverse":
            self.ob("the list is reversed once", st != "rev", where, "")
            return ("rev",)
        if l[0] in ("add", "disorder", "sort", "drain"):
            self.ob("the list is only pushed to and reversed", False, where, l[1])
        if l[0] == "clear":
            return ("new",)
        if l[0] == "ok":
            self.ob("success is returned with the list in ascending order", st == "rev", where, "state: " + st)
        return (st,)

    def ob(self, what, ok, where, why):
        k = (what, ok, where, why)
        if k not in self.shown:
            self.shown.add(k)
            self.R.ob(self.rule, what, ok, where, why)


def opaque(b):
    from splits import opaque_big
    return opaque_big(b)


def fast(S, R, q, P, root):
    db = S.db
    ts = FastEdits(S, R, q, root)
    ts.run(root, "new")
    for u in ts.bodies:
        R.sawfn(db.bodies[u])
    R.paths += sum(ts.nevents.values())
    R.floor("pushes of edits (single pass)", len([l for l in ts.nevents if l[0] == "push"]), 3)
    R.floor("instruction starts (single pass)", len([l for l in ts.nevents if l[0] == "newinst"]), 1)
    # the published list is that list
    fs = [f[0] for f in db.adts[S.adt("Output")]["variants"][0]["fields"]]
    n = 0
    for b, bb, ops, var, sp in q.constructs("Output"):
        if b.derived or "serde" in b.path or b.name in ("default", "clone"):
            continue
        n += 1
        for f in ("edits", "debug_locations"):
            t = P.operand(b, ops[fs.index(f)])
            ok = t.op == "f" and t.args[1] == f
            R.ob("publish", "the output's %s are the allocator's" % f, ok, q.span(b, sp), show(t)[:120])
    R.floor("outputs assembled", n, 1)
    d = Debug(S, R, q, root, "single-pass allocator")
    d.run(root, "sorted")
    R.floor("debug locations pushed (single pass)", sum(n for l, n in d.nevents.items() if l[0] == "add"), 1)
    R.floor("success returns (single pass)", d.rets, 1)
