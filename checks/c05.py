"""C05: no emitted move copies memory to memory."""
import mirdb
from resolver import *
from splits import *
from prov import Prov, show

TECHNIQUE = "path-sensitive dataflow from every move constructor back to the stack tests, typestate of the move splitter"
LEVEL = "other"


class Emit:
    def __init__(self, R, db, sp):
        self.R, self.db, self.sp, self.q, self.P = R, db, sp, Q(db), Prov(db)
        tests = [b for b in db.bodies.values() if b.local and not is_closure(b) and b.argc == 2 and self.ty(b, 0)["k"] == "bool"
                 and self.ty(b, 2).get("path", "").endswith("Allocation") and self.ty(b, 1)["k"] == "ref" and db.types[self.ty(b, 1)["t"]].get("path", "").endswith("fastalloc::State")]
        self.tests = tests

    def ty(self, b, i):
        return self.db.types[b.lty(i)]

    def run(self):
        R = self.R
        R.floor("stack tests of the single-pass allocator", len(self.tests), 1)
        for b in self.tests:
            R.sawfn(b)
            self.sp.stack_test(b, "stack-test")
        self.tables()
        bodies = {}
        self.wrapped = set()
        for b, bb, ops, var, sp in self.q.constructs("Edit"):
            if b.local and "serde" not in b.path and not b.path.endswith("::clone") and not b.path.startswith("fuzzing"):
                while is_closure(b):
                    b = self.db.bodies[b.u.rsplit("::{closure", 1)[0]]
                bodies[b.u] = b
        for u, b in list(bodies.items()):
            cs = self.wraps(b)
            if cs:  # it only wraps the push: judged where it is called
                del bodies[u]
                self.wrapped.add(u)
                bodies.update((c.u, c) for c in cs)
        R.floor("functions that construct moves", len(bodies), 3)
        for b in bodies.values():
            self.emitter(b)

    def noinline(self, b):
        return opaque_big(b) and b not in self.tests and b.u not in self.wrapped

    def wraps(self, b):
        """the callers of a method that does nothing but emit its arguments as a move, all of them methods of the same type"""
        if not self.split_here(b):
            return []
        I, paths = explore(self.db, b, None, noinline=self.noinline)
        if len(paths) != 1 or paths[0][1].facts:
            return []
        cs = {cb.u: cb for cb, bb, args, span in self.P.sites(b.u)}
        return list(cs.values()) if cs and all(self.split_here(c) and not is_closure(c) and c.u != b.u for c in cs.values()) else []

    def emitter(self, b):
        R = self.R
        R.sawfn(b)
        I, paths = explore(self.db, b, None, noinline=self.noinline)
        R.saw(I)
        R.paths += len(paths)
        seen, n, through = set(), 0, set()
        for k, s, v in paths:
            for e in s.events():
                if e.kind != "call" or e.name.split("::")[-1] not in ("push", "push_back", "insert", "extend"):
                    continue
                for a in e.args[1:]:
                    for x in subterms(a):
                        if x.op == "agg" and x.args[0].split("::")[-1] == "Edit" and len(x.args) == 4:
                            key = (x, e.bb, tuple(sorted((f._id, str(y)) for f, y in e.facts.items())))
                            if key in seen:
                                continue
                            seen.add(key)
                            n += 1
                            self.move(b, I, s, e, x.args[2], x.args[3], through)
        R.floor("moves pushed by %s" % b.path, n, 1)
        for fr, to in through:
            self.callers(b, fr, to)

    def move(self, b, I, s, e, fr, to, through):
        R = self.R
        if fr.op == "sym" and to.op == "sym" and str(fr.args[0]).startswith("arg") and not self.decided(b, e, fr, to):
            if not self.split_here(b):
                through.add((int(fr.args[0][3:]), int(to.args[0][3:])))
                return
        ok = self.fine(b, I, s, e, fr, to)
        R.ob("emission", "a move that is emitted is known not to have both ends in memory", ok, site(e), "%s -> %s" % (str(fr)[:70], str(to)[:70]))

    def split_here(self, b):
        return b.argc and any(t.endswith("fastalloc::State") for t in (self.db.types[self.ty(b, 1).get("t", b.lty(1))].get("path", ""),))

    def decided(self, b, e, fr, to):
        return False

    def fine(self, b, I, s, e, fr, to):
        rf, rt = self.sp.result_elem(fr), self.sp.result_elem(to)
        if rf and rt and rf[0] is rt[0] and {rf[1], rt[1]} == {0, 1} and calls_in(rf[0], "compute"):
            return True  # an element of the resolver's result
        return self.nonstack(b, e, fr) or self.nonstack(b, e, to)

    def nonstack(self, b, e, a):
        P = self.sp.preg_of(a)
        if P is not None and {"scratch_regs", "dedicated_scratch_regs"} & field_names(P):
            return True
        for t in self.tests:
            if not b.argc or self.ty(b, 1) is None:
                continue
            st = St()
            root = ("L", "ARG", 0)
            st.mem[root] = T("sym", "arg1")
            st.facts = dict(e.facts)
            st.neq = dict(e.neq)
            I = PathInterp(self.db, noinline=self.noinline)
            r = I.analyse(t, [T("ref", root, ()), a], st)
            if r and all(v is FALSE or s.facts.get(v) is False for s, v in r):
                return True
        return False

    def callers(self, b, fr, to):
        """a function that emits its arguments as a move: every call hands it an element of the resolver's result"""
        R = self.R
        n = 0
        for cb, I, paths, snaps in self.sp.sites:
            seen = set()
            for k, s, v in paths:
                for e in s.events():
                    if e.kind == "call" and e.extra and target(e.extra["f"]) == b.u:
                        key = (e.args, e.bb)
                        if key in seen:
                            continue
                        seen.add(key)
                        n += 1
                        x, y = e.args[fr - 1], e.args[to - 1]
                        R.ob("emission", "a move that is emitted is an element of the splitter's result", self.fine(cb, I, s, e, x, y), site(e), "%s -> %s" % (str(x)[-80:], str(y)[-80:]))
        R.floor("emissions through %s" % b.path, n, 1)
        known = {cb.u for cb, *_ in self.sp.sites}
        for cb, bb, args, span in self.P.sites(b.u):
            r = cb
            while is_closure(r):
                r = self.db.bodies[r.u.rsplit("::{closure", 1)[0]]
            R.ob("emission", "moves are only emitted by the functions that split them", r.u in known, self.q.span(cb, span), cb.path)

    def tables(self):
        """the data the stack tests read is what the environment declares"""
        R = self.R
        # backtracking: PRegData::is_stack
        ws = [w for w in self.q.field_writes("PRegData", "is_stack")]
        trues, bodies = 0, {}
        for b, bb, rv, sp in ws:
            bodies[b.u] = b
        for b, bb, ops, var, sp in self.q.constructs("PRegData"):
            if b.local and not b.path.endswith("::clone"):
                bodies[b.u] = b
        for b in bodies.values():
            while is_closure(b):
                b = self.db.bodies[b.u.rsplit("::{closure", 1)[0]]
            I, paths = explore(self.db, b, None, noinline=opaque_big)
            R.sawfn(b)
            seen = set()
            for k, s, v in paths:
                last = False
                for e in s.events():
                    ref = e.args[0] if e.args else None
                    if e.kind == "write" and ref is not None and "is_stack" in self.last_field(ref):
                        if (ref, e.args[1]) in seen:
                            continue
                        seen.add((ref, e.args[1]))
                        if e.args[1] is TRUE:
                            trues += 1
                            R.ob("memory-registers", "exactly the registers the environment lists as memory are marked", self.listed(ref), site(e), str(ref)[:140])
                        else:
                            R.ob("memory-registers", "a register's mark is set or cleared", e.args[1] is FALSE, site(e), str(e.args[1])[:80])
                    for a in e.args:
                        for x in subterms(a) if isinstance(a, T) else ():
                            if x.op == "agg" and x.args[0].split("::")[-1] == "PRegData":
                                names = [f[0] for f in self.db.adts[x.args[0]]["variants"][0]["fields"]]
                                i = names.index("is_stack")
                                if (x, e.bb) not in seen:
                                    seen.add((x, e.bb))
                                    R.ob("memory-registers", "registers start unmarked", x.args[2 + i] is FALSE, site(e), str(x.args[2 + i]))
        R.floor("places that mark memory registers", trues, 1)
        # single pass: State::fixed_stack_slots
        n = 0
        for b, bb, ops, var, sp in self.q.constructs("State"):
            rv = [s for s in b.blocks[bb]["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("fastalloc::State")]
            if not b.local or not rv:
                continue
            d = self.db.adts[rv[0][2][1][1]]
            names = [f[0] for f in d["variants"][0]["fields"]]
            if "fixed_stack_slots" not in names:
                continue
            t = self.P.operand(b, ops[names.index("fixed_stack_slots")])
            n += 1
            src = show(t)
            bad = any(x.op == "app" and x.args[0] in ("skip", "take", "filter", "step_by", "skip_while", "take_while") for x in subterms(t))
            whole = "fixed_stack_slots" in src and "from_iter" in src or "collect" in src and "fixed_stack_slots" in src
            if not whole and not bad and "fixed_stack_slots" not in src:
                whole = self.loop_filled(b)
            R.ob("memory-registers", "the single-pass allocator's set of memory registers holds the environment's list", whole and not bad, self.q.span(b, sp), src[:140])
        R.floor("constructions of the single-pass state", n, 1)
        w = [x for x in self.q.field_writes("State", "fixed_stack_slots")]
        R.ob("memory-registers", "the set of memory registers is not changed afterwards", not w, self.q.span(w[0][0], w[0][3]) if w else "", "")

    def loop_filled(self, b):
        """some loop adds every element of the environment's list: each of its iterations adds the generic element"""
        I, paths = explore(self.db, b, None, noinline=opaque_big)
        good, bad = set(), set()
        for k, s, v in paths:
            if k != "back":
                continue
            added = False
            for e in s.events():
                if e.kind == "call" and e.name.split("::")[-1] in ("add", "insert") and len(e.args) == 2 and self.listed_t(e.args[1]) and v in e.loops:
                    added = True
            (good if added else bad).add(v)
        return bool(good - bad)

    def last_field(self, ref):
        if ref.op == "ref" and ref.args[1]:
            p = ref.args[1][-1]
            return str(p[2]) if isinstance(p, tuple) and len(p) > 2 else str(p)
        if ref.op == "fld":
            return str(ref.args[1])
        return ""

    def listed(self, ref):
        """the marked register is a generic element of the whole list env.fixed_stack_slots"""
        ts = [ref]
        if ref.op == "ref":
            ts += [y for p in ref.args[1] if isinstance(p, tuple) for y in p if isinstance(y, T)]
        return any(self.listed_t(y) for y in ts)

    def listed_t(self, y):
        return not partial(y) and any(t.op == "idx" and "fixed_stack_slots" in field_names(t.args[0]) and self.generic(t.args[1]) for t in subterms(y))

    def generic(self, i):
        """an index that takes every value from 0 to the length of the list"""
        if i.op == "any":
            return True
        return i.op == "elem" and i.args[0].op == "int" and i.args[0].args[0] == 0 and i.args[1].op == "len" and "fixed_stack_slots" in field_names(i.args[1]) and not partial(i.args[1])


def run(R, tier):
    db = mirdb.load("main")
    Resolver(db, R).run("splitter", None)
    sp = Splits(db, R)
    sp.run(None, "stack-test")
    Emit(R, db, sp).run()
