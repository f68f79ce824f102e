"""C12: spill slots are aligned, disjoint, inside the reported frame and named as the client asks."""
import mirdb
import bump
from splits import *

LEVEL = "other"
TECHNIQUE = "symbolic slot arithmetic in normal form, path-sensitive dataflow from slot allocation to its uses over MIR"

COUNTER = "num_spillslots"
OPAQUE = ("class", "vreg", "is_invalid", "is_valid")


def last(p):
    return p.split("::")[-1]


def names(t, field, depth=0):
    """the term is (a reference to, or a loop's version of) that field"""
    if not isinstance(t, T) or depth > 6:
        return False
    path = t.args[2] if t.op == "phi" and len(t.args) > 2 else t.args[1] if t.op == "ref" else ()
    if isinstance(path, tuple) and any(isinstance(x, tuple) and x[:1] == ("f",) and x[-1] == field for x in path):
        return True
    if t.op == "field" and field in t.args:
        return True
    return field in str(t) if t.op not in ("phi", "ref") else any(names(a, field, depth + 1) for a in t.args if isinstance(a, T))


class Slots:
    def __init__(self, R):
        self.R = R
        self.db = mirdb.load("main")
        self.q = Q(self.db)
        self.sp = Splits(self.db, R)
        self.S = self.sp.S

    def run(self):
        self.writers()
        self.frame()
        self.vregs()
        self.shared()

    # ---------------------------------------------------------------- the counters
    def touches(self, b):
        """[(how, operand)] : assignments to, and mutable borrows of, a frame counter in this body"""
        out = []
        for bb, s in self.q.stmts(b):
            if any(f == COUNTER and a for a, f in self.q.fields_of_place(b, s[1])):
                out.append(("=", s[2]))
            rv = s[2]
            if rv[0] in ("ref", "raw") and (len(rv) < 3 or rv[2] not in (False, "not", "shared")) and any(f == COUNTER and a for a, f in self.q.fields_of_place(b, rv[1])):
                out.append(("&", None))
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and any(f == COUNTER and a for a, f in self.q.fields_of_place(b, t[3])):
                out.append(("=", None))
        return out

    def skip(self, b):
        return not b.local or b.derived or "serde" in b.path or b.path.startswith(("fuzzing", "checker")) or b.name in ("clone", "fmt", "default")

    def writers(self):
        R = self.R
        resolver = {b.u for b in self.sp.bodies}
        self.alloc = {}
        n = 0
        for b in self.q.bodies():
            if self.skip(b):
                continue
            w = self.touches(b)
            if not w:
                continue
            r = b
            while is_closure(r):
                r = self.db.bodies[r.u.rsplit("::{closure", 1)[0]]
            R.sawfn(b)
            n += 1
            if r.u in resolver:
                continue  # below
            if all(h == "=" and v is not None and v[0] == "use" and v[1][0] == "k" and v[1][1].get("v") == 0 for h, v in w):
                # the frame is emptied: nothing was allocated before, and nothing this function does afterwards is undone
                self.reset(b)
                continue
            self.allocator(b)
        R.floor("functions that change a frame counter", n, 3)
        R.floor("functions that allocate slots", len(self.alloc), 2)
        self.sp.run("resolver", None)

    def reset(self, b):
        """an emptied frame: only where allocation starts, i.e. not in anything the allocating loop calls"""
        users = {x.u for x in self.alloc.values()}
        below = {x.u for x in self.q.reach([b])}
        allocs = [x for x in below if x in self.db.bodies and self.db.bodies[x].name in ("allocate_spillslot", "allocstack")]
        self.R.ob("counter", "the frame is emptied only before slots are handed out", not allocs, b.where(), "it is emptied by a function that hands out slots")

    def allocator(self, b):
        R = self.R
        I, paths = explore(self.db, b, None)
        R.saw(I)
        R.paths += len(paths)
        n = 0
        for k, s, v in paths:
            if k != "ret":
                continue
            cs = self.counters(s)
            if not cs:
                # nothing was allocated on this path
                x = self.slot(v)
                R.ob("bump", "a slot that is handed out is taken off the frame counter", x is None or not self.computed(x), b.where(), str(v)[:100])
                continue
            n += 1
            if len(cs) != 1:
                R.ob("bump", "one frame counter advances", False, b.where(), str(cs)[:100])
                continue
            old, new = cs[0]
            x = self.slot(v)
            if x is None:
                R.ob("bump", "the slot a counter moved past is handed out", False, b.where(), str(v)[:120])
                continue
            lasts = [y for f, y in s.facts.items() if f.op in ("call", "res") and last(f.args[0]) == "multi_spillslot_named_by_last_slot"]
            sizes = {y for y in subterms(new) if y.op in ("call", "res") and last(y.args[0]) == "spillslot_size"} or {y for y in subterms(new) if y.op == "sym" and y.args[0] != "arg1" and str(y.args[0]).startswith("arg")}
            if len(sizes) != 1:
                R.ob("bump", "one slot size is used", False, b.where(), str([str(z) for z in sizes])[:100])
                continue
            sz = next(iter(sizes))
            if len(lasts) == 1:
                why = bump.bump(old, sz, x, new, bool(lasts[0]), s.facts)
            else:
                why = "the naming the client asks for is not consulted"
            R.ob("bump", "the slot is aligned to its size, above all earlier ones and named as asked for", why is None, b.where(), why or "")
            if sz.op == "sym":
                self.alloc[b.u] = b
                self.size_arg = int(sz.args[0][3:])
            else:
                self.alloc[b.u] = b
                c = sz.args[-1]
                R.ob("size", "the size is that of the class that is asked for", c.op == "sym" and str(c.args[0]).startswith("arg"), b.where(), str(c)[:80])
        R.floor("ways %s hands out a slot" % b.path, n, 1)

    def counters(self, s):
        """[(before, after)] of frame counters a path changed"""
        out = []

        def go(base, v):
            if v.op == "with":
                for k, x in v.args[1]:
                    if k[0] == "f" and len(k) > 2 and k[2] == COUNTER:
                        out.append((T("fld", v.args[0], COUNTER), x))
                    else:
                        go(None, x)
        for root, v in s.mem.items():
            go(None, v)
        return [(o, n) for o, n in out if o is not n]

    def slot(self, v):
        if v.op == "agg" and last(v.args[0]) == "SpillSlot":
            return v.args[2]
        if v.op == "agg" and last(v.args[0]) == "Allocation":
            return self.sp.slot_of(v)
        return None

    def computed(self, x):
        return x.op in ("bin", "bv", "int")

    # ---------------------------------------------------------------- what is reported
    def frame(self):
        R = self.R
        n = 0
        for b, bb, ops, var, sp in self.q.constructs("Output"):
            if self.skip(b):
                continue
            I, paths = explore(self.db, b, None, noinline=opaque_big)
            R.saw(I)
            seen = set()
            for k, s, v in paths:
                for x in subterms(v) if v is not None else ():
                    if x.op == "agg" and x.args[0].split("::")[-1] == "Output" and x not in seen:
                        seen.add(x)
                        n += 1
                        names_ = [f[0] for f in self.db.adts[x.args[0]]["variants"][0]["fields"]]
                        c = x.args[2 + names_.index(COUNTER)]
                        al = x.args[2 + names_.index("allocs")]
                        src = next(iter(bump.lin(c))) if len(bump.lin(c)) == 1 else c
                        ok = isinstance(src, T) and bump.lin(c) == {src: 1} and src.op == "fld" and src.args[1] == COUNTER and field_names(src) >= {"stack"}
                        ra, rb = self.root(src), self.root(al)
                        R.ob("frame", "the reported frame is the counter's value after the last allocation", ok and ra is not None and ra is rb, b.where(), "%s (results are taken from %s)" % (str(src)[:60], str(rb)[:60]))
        R.floor("results that are put together", n, 1)

    def root(self, t):
        while isinstance(t, T) and t.op in ("fld", "idx", "deref"):
            t = t.args[0]
        return t

    # ---------------------------------------------------------------- single pass: a slot per value
    def vregs(self):
        R = self.R
        stackers = [b for b in self.alloc.values() if b.path.startswith("fastalloc")]
        R.floor("slot allocators of the single-pass allocator", len(stackers), 1)
        us = {b.u for b in stackers}
        bodies = {}
        for b in self.q.bodies():
            if self.skip(b) or b.u in us:
                continue
            for bl in b.blocks:
                t = bl["t"]
                if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
                    f = t[1][1]["f"]
                    if ((f.get("r") or {}).get("u") or f["u"]) in us:
                        while is_closure(b):
                            b = self.db.bodies[b.u.rsplit("::{closure", 1)[0]]
                        bodies[b.u] = b
        n = 0
        for b in bodies.values():
            R.sawfn(b)
            known = [(I, p) for cb, I, p, _ in self.sp.sites if cb.u == b.u and False]
            I, paths = explore(self.db, b, None, noinline=lambda x: opaque_big(x) or x.u in us or x.local and x.name in OPAQUE and x.path.split("::")[0] in SMALL + ("Operand",))
            R.saw(I)
            R.paths += len(paths)
            seen = set()
            for k, s, v in paths:
                for e in s.events():
                    if e.kind == "write" and self.vslot(e.args[0]) is not None:
                        key = (e.args, e.bb, tuple(sorted((f._id, str(y)) for f, y in e.facts.items() if f.op in ("call", "res"))))
                        if key in seen:
                            continue
                        seen.add(key)
                        i, val = self.vslot(e.args[0]), e.args[1]
                        if not (val.op in ("call", "res") and target_of(val, us, self.db)):
                            continue
                        n += 1
                        c = val.args[-1]
                        ok = self.cls(c) is not None and self.cls(c) is self.num(i)
                        R.ob("size", "a value's slot has the size of its class", ok, site(e), "class of %s, slot of %s" % (str(c)[:60], str(i)[:60]))
                        free = any(f.op in ("call", "res") and last(f.args[0]) in ("is_invalid", "is_valid") and bool(y) == (last(f.args[0]) == "is_invalid")
                                   and f.args[-1].op == "idx" and f.args[-1].args[1] is i and "vreg_spillslots" in field_names(f.args[-1]) for f, y in e.facts.items())
                        R.ob("once", "a value that has a slot keeps it", free, site(e), "a new slot replaces one that may hold the value")
            # every slot taken goes into the table
            for k, s, v in paths:
                for e in s.events():
                    if e.kind == "call" and e.extra and target(e.extra["f"]) in us and (e.bb, e.args) not in seen:
                        seen.add((e.bb, e.args))
                        kept = any(w.kind == "write" and w.args[1] is e.res for kk, ss, vv in paths for w in ss.events())
                        R.ob("once", "a slot that is taken is recorded for its value", kept, site(e), str(e.res)[:80])
        R.floor("slots recorded for values", n, 1)

    def vslot(self, ref):
        """index, of a reference to an element of the table of slots"""
        if ref.op != "ref":
            return None
        p = ref.args[1]
        if len(p) >= 2 and p[-1][0] == "i" and p[-2][0] == "f" and len(p[-2]) > 2 and p[-2][2] == "vreg_spillslots":
            return p[-1][1]
        return None

    def cls(self, c):
        return c.args[-1] if c.op in ("call", "res") and last(c.args[0]) == "class" else None

    def num(self, i):
        return i.args[-1] if i.op in ("call", "res") and last(i.args[0]) == "vreg" else None

    # ---------------------------------------------------------------- backtracking: slots of spill sets
    def shared(self):
        R = self.R
        al = [b for b in self.alloc.values() if b.path.startswith("ion")]
        R.floor("slot allocators of the backtracking allocator", len(al), 1)
        us = {b.u for b in al}
        # who asks for slots or hands them to spill sets
        bodies = {}
        for b in self.q.bodies():
            if self.skip(b) or b.u in us:
                continue
            hit = False
            for bl in b.blocks:
                t = bl["t"]
                if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
                    f = t[1][1]["f"]
                    hit |= ((f.get("r") or {}).get("u") or f["u"]) in us
            for bb, s in self.q.stmts(b):
                hit |= any(a and (last(a), f) in (("SpillSet", "slot"), ("SpillSlotData", "slots"), ("SpillSlotData", "alloc")) for a, f in self.q.fields_of_place(b, s[1]))
                hit |= s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) == "SpillSlotData"
            if hit:
                while is_closure(b):
                    b = self.db.bodies[b.u.rsplit("::{closure", 1)[0]]
                bodies[b.u] = b
        # a small helper is judged where it is called
        P = {}
        for b in list(bodies.values()):
            if self.helper(b):
                for c in self.callers(b):
                    bodies.setdefault(c.u, c)
                del bodies[b.u]
        n = {"size": 0, "share": 0}
        for b in bodies.values():
            R.sawfn(b)
            res = [(I, p) for cb, I, p, _ in self.sp.sites if cb.u == b.u]
            if res:
                I, paths = res[0]
            else:
                hs = {x.u for x in self.q.reach([b])}
                I, paths = explore(self.db, b, None, noinline=lambda x: x.u in us or opaque_far(x))
                R.saw(I)
                R.paths += len(paths)
            seen = set()
            for k, s, v in paths:
                evs = list(s.events())
                for j, e in enumerate(evs):
                    nm = last(e.name) if e.kind == "call" else ""
                    key = (e.kind, e.name, e.args, e.bb, e.body.u)
                    if e.kind == "call" and e.extra and target(e.extra["f"]) in us:
                        if key not in seen:
                            seen.add(key)
                            n["size"] += 1
                            self.request(b, paths, e, n, I)
                    elif nm == "push" and self.into(e.args[0], "spillslots"):
                        n["size"] += 1
                        self.newslot(b, s, evs, j, e)
                    elif e.kind == "write" and self.field(e.args[0]) == "slot" and "spillsets" in names_of(e.args[0]):
                        n["share"] += 1
                        self.given(b, I, s, evs, j, e)
        R.floor("slots asked for or sized by the backtracking allocator", n["size"], 2)
        R.floor("slots given to spill sets", n["share"], 2)

    def helper(self, b):
        """works on an index it is given"""
        return any(last(self.db.types[b.lty(i)].get("path", "")) in ("SpillSlotIndex", "SpillSetIndex") for i in range(1, b.argc + 1))

    def callers(self, b):
        out = []
        for c in self.q.bodies():
            if b.u in self.q.callees(c) and not self.skip(c):
                while is_closure(c):
                    c = self.db.bodies[c.u.rsplit("::{closure", 1)[0]]
                out.append(c)
        return out

    def into(self, ref, name):
        return ref.op == "ref" and ref.args[1] and ref.args[1][-1][0] == "f" and len(ref.args[1][-1]) > 2 and ref.args[1][-1][2] == name

    def field(self, ref):
        return ref.args[1][-1][2] if ref.op == "ref" and ref.args[1] and ref.args[1][-1][0] == "f" and len(ref.args[1][-1]) > 2 else None

    def elem_of(self, ref):
        """index in the path of a reference, one step above its end"""
        p = ref.args[1]
        for x in reversed(p[:-1]):
            if x[0] == "i":
                return x[1]
        return None

    def request(self, b, paths, e, n, res):
        """the size asked for: that of the list the slot goes to, or that recorded for the slot that is placed"""
        sz = e.args[self.size_arg - 1]
        ln = bump.lin(sz)
        sz = next(iter(ln)) if len(ln) == 1 else sz
        ok, why = False, "size %s" % str(sz)[:100]
        uses = []
        for k, s, v in paths:
            for w in s.events():
                if w.kind == "write" and w.args[1] is e.res:
                    uses.append(("write", w.args[0]))
                elif w.kind == "call" and last(w.name) in ("push", "insert") and any(a is e.res for a in w.args[1:]):
                    uses.append(("push", w.args[0]))
        if sz.op in ("call", "res") and last(sz.args[0]) == "spillslot_size":
            c = sz.args[-1]
            ok = any(h == "push" and self.listed(u, c) for h, u in uses)
            why = "the slot does not go to the list of its class"
        elif sz.op == "fld" and sz.args[1] == "slots" and sz.args[0].op == "idx":
            i = sz.args[0].args[1]
            ok = any(h == "write" and self.field(u) == "alloc" and self.elem_of(u) is i for h, u in uses)
            why = "the slot is recorded for another entry than the one whose size was asked for"
            if ok:
                # for every slot there is
                whole = self.counted(res, i, e) or [x for x in subterms(i) if x.op == "elem" and x.args[0].op == "int" and x.args[0].args[0] == 0 and x.args[1].op == "len" and "spillslots" in str(x.args[1]) or x.op == "any"]
                self.R.ob("size", "every slot is given a place in the frame", bool(whole), site(e), str(i)[:100])
        self.R.ob("size", "a slot is placed with the size it is used at", ok, site(e), why)

    def counted(self, I, i, e):
        """a loop variable that starts at 0, goes up by one, and stays below the number of slots"""
        ln = bump.lin(i)
        i = next(iter(ln)) if len(ln) == 1 else i
        if i.op != "phi":
            return False
        key, root = i.args[0], i.args[1]
        if not all(x.mem.get(root) is not None and x.mem[root].op == "int" and x.mem[root].args[0] == 0 for x in I.entries.get(key, ())):
            return False
        for _, k, s, fr in I.ends:
            if k == key and bump.lin(s.mem.get(root) or i) != bump.add({i: 1}, {1: 1}):
                return False
        return any(f.op == "lt" and y is True and f.args[0] is i and f.args[1].op == "len" and names(f.args[1].args[0], "spillslots") for f, y in e.facts.items())

    def listed(self, ref, c):
        """a list picked by class c"""
        if ref.op != "ref":
            return False
        return any(x[0] == "i" and self.number_of(x[1], c) for x in ref.args[1])

    def number_of(self, i, c):
        """the position of class c in a table by class"""
        ln = bump.lin(i)
        i = next(iter(ln)) if len(ln) == 1 and list(ln.values()) == [1] else i
        if c.op == "agg" and i.op == "int" or not isinstance(i, T):
            return False
        return i is c or i.op == "discr" and i.args[0] is c


    def newslot(self, b, s, evs, j, e):
        R = self.R
        v = e.args[1]
        if v.op != "agg":
            R.ob("size", "a new slot's data is understood", False, site(e), str(v)[:80])
            return
        fs = [f[0] for f in self.db.adts[v.args[0]]["variants"][0]["fields"]]
        sz = v.args[2 + fs.index("slots")]
        ln = bump.lin(sz)
        sz = next(iter(ln)) if len(ln) == 1 else sz
        ok = isinstance(sz, T) and sz.op in ("call", "res") and last(sz.args[0]) == "spillslot_size" and sz.args[-1].op == "fld" and sz.args[-1].args[1] == "class"
        R.ob("size", "a new slot has the size of a spill set's class", ok, site(e), str(sz)[:100])
        if not ok:
            return
        c = sz.args[-1]
        # it becomes available to spill sets of that class only
        ps = [w for w in evs[j + 1:] if w.kind == "call" and last(w.name) == "push" and "slots_by_class" in names_of(w.args[0])]
        ix = [w.args[1] for w in ps]
        good = all(self.listed(w.args[0], c) for w in ps)
        R.ob("size", "a new slot is offered to spill sets of its class only", good, site(e), str([str(w.args[0])[-80:] for w in ps])[:160])
        us = [w for w in evs[j + 1:] if w.kind == "write" and self.field(w.args[0]) == "slot" and "spillsets" in names_of(w.args[0])]
        R.ob("size", "a new slot goes to the spill set it was made for", all(self.elem_base(w.args[0]) is self.base_index(c) for w in us), site(e), "")

    def elem_base(self, ref):
        return self.elem_of(ref)

    def base_index(self, c):
        t = c.args[0]
        return t.args[1] if t.op == "idx" else None

    def given(self, b, I, s, evs, j, e):
        """a spill set is given a slot: a fresh one, or one where nothing overlaps its range"""
        R = self.R
        ss = self.elem_of(e.args[0])
        slot = e.args[1]
        # what is recorded for it
        ins = [w for w in evs if w.kind == "call" and last(w.name) == "insert" and self.slot_ranges(w.args[0]) and self.same_index(self.slot_ranges(w.args[0]), slot)]
        rng = [w for w in ins if self.whole_range(w.args[1], ss)]
        R.ob("share", "a slot records the range of every spill set it is given to", bool(rng), site(e), "%d records, %d of the whole range" % (len(ins), len(rng)))
        fresh = [w for w in evs if w.kind == "call" and last(w.name) == "push" and self.into(w.args[0], "spillslots")]
        isnew = any(x.op == "len" for x in subterms(slot)) and bool(fresh)
        if isnew:
            R.count("fresh slots given out")
            R.ob("share", "a fresh slot starts with no ranges", all(self.noranges(I, w, evs) for w in fresh), site(e), "")
            return
        free = False
        for f, y in s.facts.items():
            if y is False and f.op in ("call", "res") and last(f.args[0]) == "contains_key":
                key = f.args[-1]
                if self.whole_range(key, ss) and any(x.op == "idx" and self.same_index(x.args[1], slot) for x in subterms(f.args[1])):
                    free = True
        R.ob("share", "a slot in use is shared only with spill sets whose range is free in it", free, site(e), str(slot)[-100:])
        c = [x for x in subterms(slot) if x.op == "fld" and x.args[1] == "class"]
        own = "slots_by_class" in field_names(slot) or any(x.op == "phi" for x in subterms(slot))
        R.ob("share", "a slot is shared within a class only", own and any(self.base_index(x) is ss and any(y.op == "idx" and self.number_of(y.args[1], x) for y in subterms(slot)) for x in c), site(e), str(slot)[-100:])

    def noranges(self, I, w, evs):
        v = w.args[1]
        if v.op != "agg":
            return False
        fs = [f[0] for f in self.db.adts[v.args[0]]["variants"][0]["fields"]]
        r = v.args[2 + fs.index("ranges")]
        if r.op in ("call", "res") and last(r.args[0]) in ("default", "new", "new_in"):
            return True
        # or from the pool of emptied ones
        return any(x.op in ("call", "res") and last(x.args[0]).rstrip("!") == "pop" for x in subterms(r)) and "scratch_spillset_pool" in str([str(w2.args[0]) for w2 in evs if w2.kind == "call" and last(w2.name) == "pop"])

    def slot_ranges(self, ref):
        if ref.op != "ref":
            return None
        p = ref.args[1]
        for a, x in enumerate(p):
            if x[0] == "f" and len(x) > 2 and x[2] == "spillslots" and a + 1 < len(p) and p[a + 1][0] == "i":
                return p[a + 1][1]
        return None

    def same_index(self, i, slot):
        a = bump.lin(i)
        b = slot.args[2] if slot.op == "agg" else T("fld", slot, "0")
        if a == bump.lin(b):
            return True
        return any(x is b for x in subterms(i)) or i is b

    def whole_range(self, key, ss):
        if key.op == "ref":
            return False
        if key.op != "agg" or last(key.args[0]) != "LiveRangeKey" or len(key.args) != 4:
            return False
        out = []
        for x, end in ((key.args[2], "from"), (key.args[3], "to")):
            ok = {"range", end} <= field_names(x) and any(y.op == "idx" and y.args[1] is ss for y in subterms(x))
            out.append(ok)
        return all(out)


def names_of(ref):
    return {p[2] for p in ref.args[1] if isinstance(p, tuple) and p[0] == "f" and len(p) > 2} if ref.op == "ref" else set()


def opaque_far(b):
    """functions of other modules that are not small value types"""
    return b.local and not is_closure(b) and b.path.split("::")[0] not in SMALL + ("SpillSlotIndex",) and not b.path.startswith(("ion::spill", "ion::data_structures", "<ion::data_structures", "indexset"))


def target_of(t, us, db):
    nm = last(t.args[0]).rstrip("!")
    return any(db.bodies[u].name == nm for u in us)


def run(R, tier):
    R.rule("counter", "the frame counter only grows while slots are handed out")
    R.rule("bump", "slot = counter rounded up to a multiple of the size (named by its last unit if the client says so), counter = end of the slot")
    R.rule("resolver", "slots for parallel moves are taken off the same counter, with the size of the moves' class, and counted in the frame")
    R.rule("size", "a slot is allocated with the size of the class of what is kept in it")
    R.rule("once", "a value keeps its slot; a slot taken for a value is recorded for it")
    R.rule("frame", "the reported frame size is the counter's final value")
    R.rule("share", "a slot is shared only between spill sets of one class whose ranges do not overlap")
    Slots(R).run()
