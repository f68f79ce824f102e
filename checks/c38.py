"""C38: the single-pass allocator hands every value from place to place with a move."""
import re
import mirdb
from query import Q
from report import *
from paths import *
from prov import Prov
from sem import Sem
from interp import Interp
import c27

LEVEL = "other"
TECHNIQUE = "path-sensitive MIR analysis of the single-pass allocator: per path, changes of a value's recorded place against the moves emitted, with their sources, destinations, positions and order"

OPAQUE = ("Operand", "VReg", "Allocation", "index", "PReg", "SpillSlot", "moves", "PRegSet")


def last(p):
    return str(p).split("::")[-1]


def targs(t):
    return [a for a in t.args[1:] if isinstance(a, T)]


def call(t, *names):
    return isinstance(t, T) and t.op in ("call", "res") and last(t.args[0]) in names


def cell(t, field):
    """index when the term t reads field[index]"""
    if isinstance(t, T) and t.op == "idx" and re.search(r"\b%s'*$" % field, re.sub(r"\{.*\}", "", str(t.args[0]))):
        return t.args[1]
    return None


def written(e, field):
    """index when event e writes field[index]"""
    if e.kind != "write" or not isinstance(e.args[0], T):
        return None
    a = e.args[0]
    if a.op == "ref":
        ps = [p for p in a.args[1] if isinstance(p, tuple)]
        if len(ps) >= 2 and ps[-2][0] == "f" and ps[-2][-1] == field and ps[-1][0] == "i":
            return ps[-1][1]
        return None
    return cell(a, field)


def value(i):
    """the vreg whose number the index i is"""
    if call(i, "vreg") and str(i.args[0]).startswith("VReg"):
        x = targs(i)[0]
        if call(x, "vreg") and call(targs(x)[0], "new") and str(targs(x)[0].args[0]).startswith("Operand"):
            x = targs(targs(x)[0])[0]
        return x
    return None


def isalloc(t, inst=None):
    """the term t reads the output's allocation table"""
    while isinstance(t, T) and t.op == "deref":
        t = t.args[0]
    return call(t, "index") and re.search(r"\ballocs'*$", re.sub(r"\{.*\}", "", str(targs(t)[0]))) is not None and (inst is None or inst in subterms(targs(t)[1]))


def enum_is(facts, X, name=None):
    """discriminant the facts give for X"""
    for f, y in facts.items():
        if f.op == "discr" and f.args[0] is X and isinstance(y, int) and not isinstance(y, bool):
            return y
    for f, y in facts.items():
        if f.op == "eq" and y is True and any(a.op == "discr" and a.args[0] is X for a in f.args):
            for a in f.args:
                if a.op == "int":
                    return a.args[0]
    return None


def isnone(facts, t):
    """True / False / None: is the allocation t Allocation::none()?"""
    for f, y in facts.items():
        if call(f, "is_none") and targs(f) == [t]:
            return y
        if call(f, "is_some") and targs(f) == [t]:
            return not y
        if f.op == "eq" and t in f.args and any(call(a, "none") for a in f.args):
            return y
        if call(f, "is_reg", "is_stack") and targs(f)[-1:] == [t] and y is True:
            return False
    for f, y in facts.items():
        if f.op == "discr" and call(f.args[0], "kind") and targs(f.args[0]) == [t] and isinstance(y, int):
            return y == 0
        if f.op == "discr" and call(f.args[0], "as_reg", "as_stack") and targs(f.args[0]) == [t] and y == 1:
            return False
    return None


def same(facts, a, b):
    """True / False / None: are the two allocations equal?"""
    if a is b:
        return True
    for f, y in facts.items():
        if f.op == "eq" and set(f.args) == {a, b}:
            return y
    return None


def failing(v):
    return c27.failing(v)


class Hand:
    def __init__(self, R):
        self.R = R
        self.db = mirdb.load("main")
        self.q = Q(self.db)
        self.ex = {}
        self.extra = {}
        self.fa = [b for b in self.q.bodies() if b.path.startswith(("fastalloc::Env", "fastalloc::State")) and not is_closure(b) and not b.derived]

    # ---------------------------------------------------------------- roles
    def types(self, b):
        r = []
        for i in range(b.argc):
            ty = self.db.types[b.lty(i + 1)]
            if ty["k"] == "ref":
                ty = self.db.types[ty["t"]]
            r.append(last(ty.get("path", "")) if ty["k"] == "adt" else ty["k"])
        return r

    def out(self, b):
        ty = self.db.types[b.lty(0)]
        return last(ty.get("path", "")), ty

    def arg(self, b, path, n=0):
        xs = [T("sym", "arg%d" % (i + 1)) for i, t in enumerate(self.types(b)) if t == path]
        return xs[n] if len(xs) > n else None

    def roles(self):
        R = self.R
        ty = {b.u: self.types(b) for b in self.fa}
        self.mover = [b for b in self.fa if ty[b.u].count("Allocation") == 2 and "InstPosition" in ty[b.u]]
        inner = {b.u for b in self.mover}
        users = {u: {o.u for o in self.fa if u in {x if isinstance(x, str) else x.u for x in self.q.callees(o)}} for u in inner}
        # a helper that only the emitting function uses is part of it
        self.mover = [b for b in self.mover if not (users[b.u] and users[b.u] - {b.u} <= inner - {b.u})]
        self.evict = [b for b in self.fa if "PReg" in ty[b.u] and "InstPosition" in ty[b.u] and "Allocation" not in ty[b.u]]
        self.slot = [b for b in self.fa if self.out(b)[0] == "SpillSlot" and "VReg" in ty[b.u]]
        self.keep = {b.u for b in self.mover + self.evict + self.slot}
        R.floor("functions that emit a move", len(self.mover), 1)
        R.floor("functions that evict a register", len(self.evict), 1)
        # functions that choose and store an operand's allocation, and say which
        self.choose = []
        for b in self.fa:
            if "Operand" in ty[b.u] and "Allocation" in str(self.rtypes(b)) and b.u not in self.keep:
                self.choose.append(b)
        # functions that give up a value's place
        self.free = [b for b in self.fa if "VReg" in ty[b.u] and len(ty[b.u]) == 2 and self.frees(b)]
        R.floor("functions that end a value's life", len(self.free), 1)
        R.floor("functions that choose an allocation", len(self.choose), 1)
        self.keep |= {b.u for b in self.choose + self.free}
        # a register for scratch use
        self.scratch = [b for b in self.fa if "RegClass" in ty[b.u] and "InstPosition" in ty[b.u] and "Allocation" not in ty[b.u]]
        self.keep |= {b.u for b in self.scratch}
        # what decides whether an operand can stay
        self.stay = [b for b in self.fa if "Operand" in ty[b.u] and self.out(b)[1]["k"] == "bool"]
        self.keep |= {b.u for b in self.stay}
        self.pick = [b for b in self.fa if "Operand" in ty[b.u] and "PReg" in str(self.rtypes(b))]
        self.keep |= {b.u for b in self.pick}

    def rtypes(self, b):
        """type names in the result"""
        seen, todo = [], [b.lty(0)]
        while todo:
            ty = self.db.types[todo.pop()]
            if ty["k"] == "adt":
                seen.append(ty["path"].split("::")[-1])
                todo += [a for a in ty.get("args", []) if isinstance(a, int)]
        return seen

    def frees(self, b):
        I, paths = explore(self.db, b, None, noinline=self.noin)
        rs = [s for k, s, v in paths if k == "ret"]
        v = self.arg(b, "VReg")
        return bool(rs) and all(any(self.at(e, "vreg_allocs", v) and call(e.args[1], "none") for e in s.events()) for s in rs)

    def noin(self, x):
        return x.local and not is_closure(x) and (x.u in getattr(self, "keep", ()) or x.path.split("::")[0] in OPAQUE or "PRegSet" in x.path or "lru" in x.path or not x.path.startswith("fastalloc")
                                                  or x.name in ("insert", "is_stack", "remove") and len(x.blocks) < 60)

    def paths(self, b, extra=()):
        key = b.u
        extra = extra or self.extra.get(b.u, ())
        self.extra[b.u] = extra
        if key not in self.ex:
            keep = set(extra)
            I, paths = explore(self.db, b, None, pregseq=True, noinline=lambda x: x.u in keep or self.noin(x))
            self.R.saw(I)
            self.R.sawfn(b)
            self.R.paths += len(paths)
            self.ex[key] = (I, paths)
        return self.ex[key]

    def at(self, e, field, v):
        i = written(e, field)
        return i is not None and (value(i) is v or v is None)

    # ---------------------------------------------------------------- reading a path
    def moves(self, s, key=None):
        us = {b.u for b in self.mover}
        r = []
        for e in s.events():
            if e.kind == "call" and target(e.extra["f"]) in us and (key is None or e.loops and e.loops[-1] == key):
                b = self.db.bodies[target(e.extra["f"])]
                ts = self.types(b)
                ix = [i for i, t in enumerate(ts) if t == "Allocation"]
                g = lambda p: e.args[ts.index(p)] if p in ts else None
                pos = g("InstPosition")
                r.append(dict(e=e, frm=e.args[ix[0]], to=e.args[ix[1]], pos=pos.args[1] if pos is not None and pos.op == "agg" else pos, inst=g("Inst"), cls=g("RegClass")))
        return r

    def placed(self, s, key=None):
        """[(vreg, value, event)]: changes of a value's place"""
        r = []
        for e in s.events():
            if key is not None and not (e.loops and e.loops[-1] == key):
                continue
            i = written(e, "vreg_allocs")
            if i is not None:
                r.append((value(i), e.args[1], e))
        return r

    def slotof(self, s, t):
        """vreg whose spill slot the allocation t is"""
        if not call(t, "stack"):
            return None
        x = targs(t)[-1]
        if x.op in ("call", "res") and any(last(x.args[0]) == b.name for b in self.slot):
            return targs(x)[-1]
        i = cell(x, "vreg_spillslots")
        if i is not None:
            return value(i)
        for e in s.events():
            i = written(e, "vreg_spillslots")
            if i is not None and e.args[1] is x:
                return value(i)
        return None

    def slotcell(self, t):
        i = cell(t, "vreg_spillslots")
        return value(i) if i is not None else None

    def classof(self, c, v, op=None):
        """c is the class of v"""
        if not call(c, "class"):
            return False
        x = targs(c)[-1]
        return x is v or x is op or call(x, "vreg") and targs(x) == [op] or v is not None and self.vregof(x) is v

    def vregof(self, op):
        """vreg(op) for an operand made with Operand::new(vreg, ..) is that vreg"""
        if call(op, "new") and str(op.args[0]).startswith("Operand"):
            return targs(op)[0]
        return None

    # ---------------------------------------------------------------- one operand
    def operands(self):
        R = self.R
        cu = {b.u for b in self.choose}
        self.procs = []
        for b in self.fa:
            if b.u in self.keep or "Operand" not in self.types(b) or not (self.q.callees(b) & cu):
                continue
            self.procs.append(b)
        R.floor("functions that process an operand", len(self.procs), 1)
        for b in self.procs:
            self.operand(b)
        for b in self.choose:
            self.chosen(b)

    def chosen(self, b):
        """the allocation it answers is the one it stores"""
        if "int" not in self.types(b):
            return
        oi, inst = self.arg(b, "int"), self.arg(b, "Inst")
        I, paths = self.paths(b)
        n = 0
        for k, s, v in paths:
            if k != "ret" or failing(v):
                continue
            n += 1
            ws = [e for e in s.events() if e.kind == "write" and self.isout(e.args[0])]
            ok = len(ws) >= 1 and v.op == "agg" and ws[-1].args[1] is v.args[2] and oi in subterms(ws[-1].args[0]) and inst in subterms(ws[-1].args[0])
            self.R.ob("operand", "%s: the allocation answered is the one stored" % last(b.path), ok, b.where(), "%s stored, %s answered" % ([str(e.args[1])[:60] for e in ws], str(v)[:80]))
        return n

    def isout(self, t):
        """t is a slot of the output's allocation table"""
        return call(t, "index_mut") and re.search(r"\ballocs'*$", re.sub(r"\{.*\}", "", str(targs(t)[0]))) is not None

    def operand(self, b):
        R = self.R
        op = self.arg(b, "Operand")
        inst = self.arg(b, "Inst")
        cu = {x.u for x in self.choose}
        I, paths = self.paths(b)
        n = 0
        for k, s, v in paths:
            if k != "ret" or failing(v):
                continue
            if self.placeholder(s.facts, op):
                continue
            n += 1
            N = None
            vr = None
            for e in s.events():
                if e.kind == "write" and self.isout(e.args[0]):
                    N = e.args[1]
                if e.kind == "call" and target(e.extra["f"]) in cu:
                    N = T("vf", e.res, 0, 0)
                    N = self.payload(s, e.res)
            if N is None:
                R.ob("operand", "each operand's allocation is known", False, b.where(), "a path stores none")
                continue
            mv, pl = self.moves(s), self.placed(s)
            regs = [e for e in s.events() if written(e, "vreg_in_preg") is not None]
            C = N if cell(N, "vreg_allocs") is not None else None
            if C is not None:
                ok = call(value(cell(C, "vreg_allocs")), "vreg") and op in targs(value(cell(C, "vreg_allocs")))
                R.ob("operand", "an operand left where its value is takes that value's place and nothing moves", ok and not mv and not pl, b.where(), "moves %d, changes of place %d" % (len(mv), len(pl)))
                R.ob("operand", "an operand is left where its value is only if that meets its constraint", any(call(f, *[x.name for x in self.stay]) and y is True and op in targs(f) for f, y in s.facts.items()), b.where(), "")
                continue
            # the place before: what the path asks about
            cs = {t for f in s.facts for t in subterms(f) if cell(t, "vreg_allocs") is not None and call(value(cell(t, "vreg_allocs")), "vreg") and op in targs(value(cell(t, "vreg_allocs")))}
            none = None
            C = None
            for c in cs:
                if isnone(s.facts, c) is not None:
                    none, C = isnone(s.facts, c), c
            if none is None:
                R.ob("operand", "whether the value already has a place is asked", False, b.where(), "a path does not depend on it")
                continue
            vr = value(cell(C, "vreg_allocs"))
            reg = self.regof(s, N)
            if none:
                ok = len(pl) == 1 and pl[0][0] is vr and pl[0][1] is N and not mv
                R.ob("operand", "a value without a place gets the operand's as its place", ok, b.where(), "placed %s, moves %d" % ([str(p[1])[:60] for p in pl], len(mv)))
                if reg is not None:
                    R.ob("operand", "the register then holds the value", [e.args[1] is vr and self.preg(written(e, "vreg_in_preg")) is reg for e in regs] == [True], b.where(), str([str(e.args[1])[:60] for e in regs]))
                R.ob("operand", "the value then counts as live", any(e.kind == "call" and last(e.name) == "insert" and any(a is vr for a in e.args) for e in s.events()), b.where(), "it is not entered in the live set")
                continue
            R.ob("operand", "an operand elsewhere leaves the value's place as it is", not pl, b.where(), "placed %s" % [str(p[1])[:60] for p in pl])
            kind = enum_is(s.facts, self.attr(s.facts, op, "kind"))
            if kind is None and mv:
                kind = -1
            if kind is None:
                kind = 1 if any(f.op == "eq" and y is False and self.attr(s.facts, op, "kind") in [a.args[0] for a in f.args if a.op == "discr"] and any(a.op == "int" and a.args[0] == 0 for a in f.args) for f, y in s.facts.items()) else None
            if kind == 1:
                R.ob("operand", "a use is moved before the instruction, not here", not mv, b.where(), "%d moves" % len(mv))
            elif kind == 0:
                ok = len(mv) == 1 and mv[0]["frm"] is N and mv[0]["to"] is C and mv[0]["pos"] == 1 and mv[0]["inst"] is inst and self.classof(mv[0]["cls"], vr, op)
                R.ob("operand", "a definition is moved to the value's place after the instruction", ok, b.where(), self.show(mv))
            else:
                R.ob("operand", "definitions and uses are told apart", False, b.where(), "a path does not ask for the kind of the operand; " + self.show(mv))
            if reg is not None:
                R.ob("operand", "a register used by the operand alone holds no value before the instruction", all(call(e.args[1], "invalid") and self.preg(written(e, "vreg_in_preg")) is reg for e in regs), b.where(), str([str(e.args[1])[:60] for e in regs]))
                R.ob("operand", "a register used by the operand alone is given up", len(regs) == 1, b.where(), "%d" % len(regs))
        R.floor("ways an operand is processed", n, 4)

    def preg(self, i):
        return targs(i)[-1] if call(i, "index") else None

    def regof(self, s, N):
        """the register the path knows N to be"""
        for f, y in s.facts.items():
            if f.op == "discr" and call(f.args[0], "as_reg") and targs(f.args[0]) == [N] and y == 1:
                for e in s.events():
                    i = written(e, "vreg_in_preg")
                    if i is not None and self.preg(i) is not None and f.args[0] in subterms(self.preg(i)):
                        return self.preg(i)
                return T("sym", "?")
        return None

    def payload(self, s, r):
        """the Ok payload of r as the path names it"""
        for e in s.events():
            for a in e.args:
                if isinstance(a, T):
                    for t in subterms(a):
                        if t.op in ("vf", "fld") and t.args[0] is r and t.args[1] == 0:
                            return t
        return T("vf", r, 0, 0)

    def attr(self, facts, op, m):
        for f in facts:
            for t in subterms(f):
                if call(t, m) and targs(t) == [op] and str(t.args[0]).startswith("Operand"):
                    return t
        return None

    def notuse(self, facts, op):
        """the path knows that the operand is no use"""
        X = self.attr(facts, op, "kind")
        if X is None:
            return False
        for f, y in facts.items():
            if f.op == "discr" and f.args[0] is X and y == 0 and y is not False:
                return True
            if f.op == "eq" and any(a.op == "discr" and a.args[0] is X for a in f.args):
                n = [a.args[0] for a in f.args if a.op == "int"]
                if n == [1] and y is False or n == [0] and y is True:
                    return True
        return False

    def placeholder(self, facts, op):
        X = self.attr(facts, op, "as_fixed_nonallocatable")
        return X is not None and enum_is(facts, X) == 1

    def show(self, mv):
        return "; ".join("%s -> %s at %s" % (str(m["frm"])[:60], str(m["to"])[:60], {0: "before", 1: "after"}.get(m["pos"], str(m["pos"])[:20])) for m in mv) or "no move"

    # ---------------------------------------------------------------- definitions
    def definitions(self):
        """after the operand of a definition was processed the value is stored to its slot, and its life ends"""
        R = self.R
        pu = {b.u for b in self.procs}
        fu = {b.u for b in self.free}
        n = 0
        self.defs = []
        for b in self.fa:
            if b.u in self.keep | pu or "Operand" not in self.types(b) or not self.reaches(b, pu) or not self.reaches(b, fu):
                continue
            self.defs.append(b)
            op, inst = self.arg(b, "Operand"), self.arg(b, "Inst")
            I, paths = self.paths(b, pu)
            for k, s, v in paths:
                if k != "ret" or failing(v) or self.notdef(s.facts, op):
                    continue
                n += 1
                ev = s.events()
                ps = [i for i, e in enumerate(ev) if e.kind == "call" and target(e.extra["f"]) in pu]
                fs = [i for i, e in enumerate(ev) if e.kind == "call" and target(e.extra["f"]) in fu]
                R.ob("definition", "a definition is processed once and then its value's life ends", len(ps) == 1 and len(fs) == 1 and ps[0] < fs[0], b.where(), "processed %d, ended %d times" % (len(ps), len(fs)))
                if len(ps) != 1 or len(fs) != 1:
                    continue
                o2 = [a for a, t in zip(ev[ps[0]].args, self.types(self.db.bodies[target(ev[ps[0]].extra["f"])])) if t == "Operand"][0]
                vr = targs(o2)[0] if self.vregof(o2) is not None else None
                okop = o2 is op or vr is not None and call(vr, "vreg") and targs(vr) == [op] and (enumval(targs(o2)[2]) == 0 or call(targs(o2)[2], "kind") and targs(targs(o2)[2]) == [op])
                R.ob("definition", "what is processed is this definition of this value", okop, b.where(), str(o2)[:120])
                R.ob("definition", "the life that ends is the defined value's", call(ev[fs[0]].args[-1], "vreg") and targs(ev[fs[0]].args[-1]) == [op], b.where(), str(ev[fs[0]].args[-1])[:100])
                # is a slot assigned?
                valid = None
                for f, y in s.facts.items():
                    if call(f, "is_valid", "is_invalid"):
                        i = cell(targs(f)[-1], "vreg_spillslots")
                        x = value(i) if i is not None else None
                        if x is not None and call(x, "vreg") and targs(x) == [op] and ps[0] < len(ev):
                            valid = y is (last(f.args[0]) == "is_valid")
                mv = self.moves(s)
                if valid is None:
                    R.ob("definition", "whether the value has a slot is asked", False, b.where(), "a path does not depend on it")
                elif not valid:
                    R.ob("definition", "a value without slot is not stored", not mv, b.where(), self.show(mv))
                else:
                    self.stored(b, s, op, inst, mv)
            # what the definition of a branch argument on the branch itself replaces is put back
            for k, s, v in paths:
                if k == "ret" and not failing(v):
                    ws = [e for e in s.events() if written(e, "vreg_spillslots") is not None]
                    if ws:
                        R.ob("definition", "a slot lent to a definition is given back", len(ws) == 2 and self.slotcell(ws[1].args[1]) is value(written(ws[1], "vreg_spillslots")) is value(written(ws[0], "vreg_spillslots")), b.where(), str([str(e.args[1])[:60] for e in ws]))
        R.floor("ways a definition is processed", n, 2)

    def stored(self, b, s, op, inst, mv):
        R = self.R
        eqs = []  # allocations known to be the slot
        isdef = lambda t: isalloc(t, inst)
        isplace = lambda t: cell(t, "vreg_allocs") is not None and op in subterms(cell(t, "vreg_allocs"))
        mine = lambda t: self.slotof(s, t) is not None and call(self.slotof(s, t), "vreg") and targs(self.slotof(s, t)) == [op]
        have = False
        for f, y in s.facts.items():
            if f.op == "eq" and y is True and any(mine(a) for a in f.args) and any(isdef(a) or isplace(a) for a in f.args):
                have = True
        if have:
            R.ob("definition", "a value already in its slot is not stored again", not mv, b.where(), self.show(mv))
            return
        ok = len(mv) == 1 and mine(mv[0]["to"]) and mv[0]["pos"] == 1 and mv[0]["inst"] is inst and self.classof(mv[0]["cls"], None, op)
        src = mv[0]["frm"] if mv else None
        good = src is not None and (isdef(src) or any(f.op == "eq" and y is True and src in f.args and any(isdef(a) for a in f.args) for f, y in s.facts.items()))
        R.ob("definition", "a value with a slot is stored there, from where the instruction leaves it", ok and good, b.where(), self.show(mv) + (" (this move is executed before the one to the value's place)" if src is not None and isplace(src) else ""))

    # ---------------------------------------------------------------- uses
    def uses(self):
        R = self.R
        pu = {b.u for b in self.procs} | {b.u for b in self.defs}
        n = 0
        for b in self.fa:
            if b.u in self.keep | pu or "Operand" in self.types(b) or not self.reaches(b, pu) or "Inst" not in self.types(b):
                continue
            direct = self.extra[b.u] = [u for u in self.q.callees(b) if u in {x.u for x in self.fa} and self.reaches(self.db.bodies[u], {x.u for x in self.procs}) or u in pu]
            I, paths = self.paths(b, direct)
            backs = {}
            for k, s, v in paths:
                if k == "back":
                    backs.setdefault(v, []).append(s)
            keys = [key for key, ss in backs.items() if any(m["pos"] == 0 and cell(m["frm"], "vreg_allocs") is not None for s in ss for m in self.moves(s, key))]
            inst = self.arg(b, "Inst")
            for key in keys:
                n += 1
                self.useloop(b, I, key, backs[key], inst)
            # order: operands, then the uses' moves, then the branch
            giving = {u for u in direct}
            for k, s, v in paths:
                if k != "ret" or failing(v):
                    continue
                R.ob("use", "%s: the moves of all uses are emitted" % last(b.path), any(f.op == "done" and any(repr(key) in str(f) for key in keys) for f in s.facts), b.where(), "a path returns without them")
            for k, s, v in paths:
                if k == "back" and v in keys:
                    continue
                for e in s.events():
                    if e.kind == "call" and target(e.extra["f"]) in giving:
                        done = any(f.op == "done" and any(repr(key) in str(f) for key in keys) for f in e.facts)
                        R.ob("use", "operands are processed before the moves of the uses", not done, b.where(), "%s runs after" % last(e.name))
            self.mains = getattr(self, "mains", []) + [(b, keys)]
        R.floor("loops that move uses to their operands", n, 1)

    def reaches(self, b, us):
        return bool({x if isinstance(x, str) else x.u for x in self.q.reach([b])} & us)

    def useloop(self, b, I, key, ss, inst):
        R = self.R
        for s in ss:
            ops = {targs(t)[0] for f in list(s.facts) + [a for m in self.moves(s, key) for a in (m["frm"], m["to"])] for t in subterms(f) if call(t, "as_fixed_nonallocatable", "vreg", "kind") and str(t.args[0]).startswith("Operand") and any(call(x, "inst_operands") for x in subterms(t))}
            ops = {o for o in ops if any(e.kind == "call" and e.loops and e.loops[-1] == key and any(a is o for a in e.args) for e in s.events())} or ops
            if not ops:
                R.ob("use", "each use is looked at", False, b.where(), "an iteration ends without asking what the operand is")
                continue
            op = sorted(ops, key=lambda t: len(str(t)))[0]
            if self.placeholder(s.facts, op):
                continue
            if self.notuse(s.facts, op):
                R.ob("use", "what is not a use is not moved before the instruction", not self.moves(s, key), b.where(), self.show(self.moves(s, key)))
                continue
            mv = self.moves(s, key)
            pl = self.placed(s, key)
            isdef = lambda t: isalloc(t, inst)
            isplace = lambda t: cell(t, "vreg_allocs") is not None and op in subterms(cell(t, "vreg_allocs"))
            eq = [y for f, y in s.facts.items() if f.op == "eq" and len(f.args) == 2 and (isplace(f.args[0]) and isdef(f.args[1]) or isplace(f.args[1]) and isdef(f.args[0]))]
            if eq == [True]:
                R.ob("use", "a use that finds its value in place needs no move", not mv, b.where(), self.show(mv))
            else:
                ok = len(mv) == 1 and isplace(mv[0]["frm"]) and isdef(mv[0]["to"]) and mv[0]["pos"] == 0 and mv[0]["inst"] is inst and self.classof(mv[0]["cls"], None, op)
                R.ob("use", "each use's value is moved from its place to the operand before the instruction", ok, b.where(), self.show(mv))
            R.ob("use", "moving a use leaves the value's place as it is", not pl, b.where(), "")
        # no use is left out (a filter's predicate is part of the paths above)
        R.ob("use", "the walk over the uses passes every operand", self.whole(I, key, None), b.where(), "operands are skipped")

    # ---------------------------------------------------------------- evictions
    def evictions(self):
        R = self.R
        eu = {b.u for b in self.evict}
        for b in self.evict:
            pr, ps, inst = self.arg(b, "PReg"), self.arg(b, "InstPosition"), self.arg(b, "Inst")
            I, paths = self.paths(b)
            for k, s, v in paths:
                if k != "ret" or v is not None and v.op == "agg" and failing(v):
                    continue
                pl, mv = self.placed(s), self.moves(s)
                x = pl[0][0] if pl else None
                held = x is not None and cell(x, "vreg_in_preg") is not None and self.preg(cell(x, "vreg_in_preg")) is pr
                R.ob("evict", "an evicted value's place becomes its slot", len(pl) == 1 and held and self.slotof(s, pl[0][1]) is x, b.where(), str([str(p[1])[:60] for p in pl]))
                ok = len(mv) == 1 and pl and mv[0]["frm"] is pl[0][1] and call(mv[0]["to"], "reg") and targs(mv[0]["to"]) == [pr] and mv[0]["pos"] is ps and mv[0]["inst"] is inst and self.classof(mv[0]["cls"], x)
                R.ob("evict", "an evicted value is moved from its slot to the register", ok, b.where(), self.show(mv))
        # whoever takes a register
        n = 0
        takers = [b for b in self.fa if b.u not in eu and self.q.callees(b) & eu]
        for b in takers:
            I, paths = self.paths(b)
            late = self.arg(b, "InstPosition")
            inst = self.arg(b, "Inst")
            for k, s, v in paths:
                if k == "ret" and failing(v):
                    continue
                for e in s.events():
                    if e.kind == "call" and target(e.extra["f"]) in eu and (k != "back" or e.loops and e.loops[-1] == v):
                        n += 1
                        ts = self.types(self.db.bodies[target(e.extra["f"])])
                        pos = e.args[ts.index("InstPosition")]
                        R.ob("evict", "%s: the value returns to the register after the instruction that takes it" % last(b.path), pos is late or pos.op == "agg" and pos.args[1] == 1 and late is None, b.where(), str(pos)[:60])
                        R.ob("evict", "%s: at the instruction that takes the register" % last(b.path), e.args[ts.index("Inst")] is inst, b.where(), "")
                        pr = e.args[ts.index("PReg")]
                        up = [c for c in self.fa if b.u in self.q.callees(c)]
                        if self.holds(e.facts, pr) is None and pr in [T("sym", "arg%d" % (i + 1)) for i in range(b.argc)] and up:
                            takers += [c for c in up if c not in takers]
                            continue
                        R.ob("evict", "%s: only a register that holds a value is evicted" % last(b.path), self.holds(e.facts, pr) is True, b.where(), "nothing on the path says %s holds one" % str(pr)[:60])
                # registers that are handed out
                taken = None
                if k == "ret" and v is not None and v.op == "agg" and len(v.args) > 2 and call(v.args[2], "reg"):
                    taken = targs(v.args[2])[-1]
                for e in s.events():
                    if e.kind == "write" and "scratch_regs" in str(e.args[0]) and isinstance(e.args[1], T) and e.args[1].op == "agg" and e.args[1].args[1] == 1 and b in self.scratch:
                        taken = e.args[1].args[2]
                if taken is not None:
                    n += 1
                    ev = [e for e in s.events() if e.kind == "call" and target(e.extra["f"]) in eu and any(a is taken for a in e.args)]
                    R.ob("evict", "%s: a register that is taken is free or evicted" % last(b.path), bool(ev) or self.holds(s.facts, taken) is False, b.where(), "%s is taken while it may hold a value" % str(taken)[:60])
        R.floor("registers taken or evicted", n, 4)
        # fixed registers
        for b, keys in getattr(self, "mains", []):
            I, paths = self.paths(b)
            loops = {}
            for k, s, v in paths:
                if k == "back":
                    loops.setdefault(v, []).append(s)
            good = set()
            for key, ss in loops.items():
                if any(e.kind == "call" and target(e.extra["f"]) in eu and e.loops and e.loops[-1] == key for s in ss for e in s.events()) and all(self.fixedfree(s, key, eu) for s in ss) and self.whole(I, key, None):
                    good.add(key)
            R.ob("evict", "%s: a loop over the fixed operands leaves each register free or with the operand's value" % last(b.path), bool(good), b.where(), "no loop does so in every iteration")
            for k, s, v in paths:
                for e in s.events():
                    if e.kind == "call" and target(e.extra["f"]) in self.db.bodies and self.db.bodies[target(e.extra["f"])] in self.fa and self.reaches(self.db.bodies[target(e.extra["f"])], {x.u for x in self.procs}):
                        R.ob("evict", "%s: fixed registers are evicted before operands are processed" % last(b.path), any(f.op == "done" and any(repr(key) in str(f) for key in good) for f in e.facts), b.where(), "%s runs before" % last(e.name))

    def fixedfree(self, s, key, eu):
        """this iteration knows the operand's fixed register to hold nothing or the operand's own value, or evicts it"""
        for f, y in s.facts.items():
            if f.op == "discr" and call(f.args[0], "constraint") and isinstance(y, int) and not isinstance(y, bool) and y != 3:
                return True
            if f.op == "eq" and y is False and any(a.op == "int" and a.args[0] == 3 for a in f.args) and any(a.op == "discr" and call(a.args[0], "constraint") for a in f.args):
                return True
        regs = set()
        for f in s.facts:
            for t in subterms(f):
                if cell(t, "vreg_in_preg") is not None and self.preg(cell(t, "vreg_in_preg")) is not None:
                    p = self.preg(cell(t, "vreg_in_preg"))
                    if any(call(x, "constraint") for x in subterms(p)):
                        regs.add(p)
        if not regs:
            return False
        for p in regs:
            if self.holds(s.facts, p) is False:
                return True
            for f, y in s.facts.items():
                if f.op == "eq" and y is True and any(cell(a, "vreg_in_preg") is not None and self.preg(cell(a, "vreg_in_preg")) is p for a in f.args) and any(call(a, "vreg") and str(a.args[0]).startswith("Operand") for a in f.args):
                    return True
            if any(e.kind == "call" and target(e.extra["f"]) in eu and any(a is p for a in e.args) and e.loops and e.loops[-1] == key for e in s.events()):
                return True
        return False

    def holds(self, facts, pr):
        for f, y in facts.items():
            if f.op == "eq" and any(call(a, "invalid") or a.op == "agg" for a in f.args) and any(cell(a, "vreg_in_preg") is not None and self.preg(cell(a, "vreg_in_preg")) is pr for a in f.args):
                return not y
            if call(f, "is_valid", "is_invalid") and cell(targs(f)[-1], "vreg_in_preg") is not None and self.preg(cell(targs(f)[-1], "vreg_in_preg")) is pr:
                return y is (last(f.args[0]) == "is_valid")
        return None

    # ---------------------------------------------------------------- emitting
    def emitting(self):
        """the list is turned round at the end: what is pushed last comes first"""
        R = self.R
        for b in self.mover:
            a, c = self.arg(b, "Allocation"), self.arg(b, "Allocation", 1)
            ps, inst = self.arg(b, "InstPosition"), self.arg(b, "Inst")
            I, paths = self.paths(b)
            n = 0
            for k, s, v in paths:
                if k != "ret" or failing(v):
                    continue
                n += 1
                out = []
                for e in s.events():
                    if e.kind == "call" and e.name == "push":
                        out.append(self.edit(e.args[1], inst, ps))
                if None in out or not out:
                    R.ob("emit", "each edit is a move at the point asked for", False, b.where(), "%d edits" % len(out))
                    continue
                run = list(reversed(out))
                cur = {a}
                for f, t in run:
                    if f in cur:
                        cur.add(t)
                    else:
                        cur.discard(t)
                over = [t for f, t in run if t is a and a is not c]
                R.ob("emit", "executed in the reverse order, the edits bring the value to its destination", c in cur and not over, b.where(), "; ".join("%s -> %s" % (str(f)[:40], str(t)[:40]) for f, t in run))
                extra = {t for f, t in run} - {c}
                R.ob("emit", "nothing but a scratch register is written on the way", all("scratch_regs" in str(t) or any("scratch" in str(x) for x in subterms(t)) for t in extra), b.where(), str([str(t)[:60] for t in extra]))
            R.floor("ways a move is emitted", n, 2)

    def edit(self, t, inst, ps):
        if t.op != "agg" or len(t.args) < 4:
            return None
        pt, ed = t.args[2], t.args[3]
        ok = call(pt, "new") and targs(pt) == [inst, ps]
        if not ok:
            return None
        if ed.op == "agg" and ed.args[0].endswith("Edit"):
            return ed.args[2], ed.args[3]
        return None

    # ---------------------------------------------------------------- block boundaries
    def boundaries(self):
        R = self.R
        pu = {b.u for b in self.procs}
        fu = {b.u for b in self.free}
        n = m = 0
        for b in self.fa:
            if b.u in self.keep | pu or "Operand" in self.types(b) or not self.reaches(b, {x.u for x in self.mover}) or "Inst" in self.types(b) or self.reaches(b, pu):
                continue
            if "Block" not in self.types(b):
                continue
            I, paths = self.paths(b)
            backs = {}
            for k, s, v in paths:
                if k == "back":
                    backs.setdefault(v, []).append(s)
            done = {"params": set(), "live": set()}
            for key, ss in sorted(backs.items()):
                fr = any(target(e.extra["f"]) in fu for s in ss for e in s.events() if e.kind == "call" and e.loops and e.loops[-1] == key)
                pl = any(self.placed(s, key) for s in ss)
                if fr:
                    done["params"].add(key)
                    for s in ss:
                        n += 1
                        self.param(b, key, s, fu)
                elif pl:
                    done["live"].add(key)
                    for s in ss:
                        m += 1
                        self.live(b, key, s)
            if not done["params"] and not done["live"]:
                continue
            for k, s, v in paths:
                if k != "ret" or failing(v):
                    continue
                for what, keys in done.items():
                    left = any(f.op in ("left", "done") and any(repr(key) in str(f) or f.op == "left" and f.args[0] == key for key in keys) for f in s.facts)
                    R.ob("block", "%s: all %s are reloaded" % (last(b.path), {"params": "block parameters", "live": "live values"}[what]), left, b.where(), "a path returns without")
            for what, keys in done.items():
                for key in keys:
                    R.ob("block", "no %s is left out" % {"params": "block parameter", "live": "live value"}[what], self.whole(I, key, None), b.where(), "the loop skips some")
            self.late(b, I, paths, backs, done)
        R.floor("ways a block parameter is reloaded", n, 3)
        R.floor("ways a live value is reloaded", m, 2)

    def late(self, b, I, paths, backs, done):
        """values the predecessors' branches define are fetched from where the branch leaves them, after (in emission) the reloads"""
        R = self.R
        blk = self.arg(b, "Block")
        opof = lambda t: next((x for x in subterms(t) if x.op == "idx" or call(x, "constraint")), None)
        kinds = set()
        for key, ss in sorted(backs.items()):
            if key in done["params"] | done["live"]:
                continue
            for s in ss:
                for m in self.moves(s, key):
                    f = m["frm"]
                    c = [x for x in subterms(f) if call(x, "constraint")]
                    if not (call(f, "reg") and c):
                        R.ob("block", "only values a predecessor's branch defines are moved besides", False, b.where(), self.show([m]))
                        continue
                    op = targs(c[0])[0]
                    X = [x for g, y in s.facts.items() if g.op == "eq" and y is True for x, z in (g.args, g.args[::-1]) if call(z, "vreg") and targs(z) == [op]]
                    own = self.slotof(s, m["to"])
                    pr = [x for x in subterms(op) if call(x, "last") and any(call(z, "block_preds") and blk in subterms(z) for z in subterms(x))]
                    ok = len(X) == 1 and enum_is(s.facts, self.attr(s.facts, op, "kind")) == 0 and enum_is(s.facts, c[0]) == 3 and own is not None and pr
                    arg = ok and any(call(x, "branch_blockparams") for x in subterms(X[0]))
                    if ok:
                        kinds.add("argument" if arg else "live value")
                        ok = any(call(x, "block_params") and blk in subterms(x) for x in subterms(own)) and not any(call(x, "branch_blockparams") for x in subterms(own)) if arg else own is X[0]
                        ok = ok and m["pos"] == 0 and self.first(m["inst"], b) and self.classof(m["cls"], X[0])
                    R.ob("block", "what the branch before defines in a register goes from there to the slot", bool(ok), b.where(), self.show([m]))
                    for what, keys in done.items():
                        for k2 in keys:
                            R.ob("block", "it is emitted after, so executed before, the reloads", any(g.op in ("left", "done") and (g.args[0] == k2 or repr(k2) in str(g)) for g in m["e"].facts), b.where(), "the reload of %s is emitted later" % what)
        inner = {}
        for key, ss in backs.items():
            if key not in done["params"] | done["live"] and any(self.moves(s, key) for s in ss):
                inner[key] = next((s.loops[-2] for s in ss if len(s.loops) > 1), None)
        gone = lambda facts, key: any(g.op in ("left", "done") and (g.args[0] == key or repr(key) in str(g)) for g in facts)
        for key, par in inner.items():
            R.ob("block", "every predecessor, parameter and live value is looked at", self.whole(I, key, par) and (par is None or self.whole(I, par, None)), b.where(), "a loop skips some")
            for s in backs.get(par, []):
                ok = gone(s.facts, key) or any(call(g, "is_invalid", "is_valid") and y is (last(g.args[0]) == "is_invalid") and cell(targs(g)[-1], "vreg_spillslots") is not None for g, y in s.facts.items())
                R.ob("block", "predecessors are passed over only for a parameter without slot", ok, b.where(), "another condition skips them")
            for k, s, v in paths:
                if k == "ret" and not failing(v):
                    R.ob("block", "what the branches before define is fetched before the block's start is done", gone(s.facts, par or key), b.where(), "a path returns without")
        for w in ("argument", "live value"):
            R.ob("block", "a %s the branch before defines in a register is fetched" % w, w in kinds, b.where(), "no loop does it")
        # which operands are passed over
        for cl in self.q.bodies():
            if not is_closure(cl) or not (cl.path.split("::{closure")[0] in {self.db.bodies[u].path for u in {x if isinstance(x, str) else x.u for x in self.q.reach([b])} if u in self.db.bodies}):
                continue
            if "Operand" not in self.types(cl) or "Allocation" not in self.rtypes(cl):
                continue
            op = None
            J, ps = explore(self.db, cl, None, noinline=self.noin)
            for k, s, v in ps:
                if k != "ret" or v is None or v.op != "agg" or v.args[1] != 0:
                    continue
                ops = {targs(t)[0] for f in s.facts for t in subterms(f) if call(t, "kind") and str(t.args[0]).startswith("Operand")}
                notdef = any(self.notdef(s.facts, o) for o in ops)
                other = any(f.op == "eq" and y is False and any(call(a, "vreg") and str(a.args[0]).startswith("Operand") for a in f.args) for f, y in s.facts.items())
                inslot = any(enum_is(s.facts, t) in (0, 2) for f in s.facts for t in subterms(f) if call(t, "constraint"))
                R.ob("block", "a definition is passed over only if it is of another value or already in the slot", notdef or other or inslot, cl.where(), "")

    def notdef(self, facts, op):
        X = self.attr(facts, op, "kind")
        if X is None:
            return False
        for f, y in facts.items():
            if f.op == "discr" and f.args[0] is X and y == 1 and y is not True:
                return True
            if f.op == "eq" and any(a.op == "discr" and a.args[0] is X for a in f.args):
                n = [a.args[0] for a in f.args if a.op == "int"]
                if n == [0] and y is False or n == [1] and y is True:
                    return True
        return False

    def whole(self, I, key, parent):
        """what the loop steps through leaves nothing out"""
        bad = ("skip", "take", "step_by", "take_while", "skip_while", "chunks", "slice_of", "map_while", "nth")
        outer = I.entries.get(parent, []) if parent else []
        for st in I.entries.get(key, []):
            for l, x in st.mem.items():
                if isinstance(x, T) and not any(o.mem.get(l) is x for o in outer):
                    if x.op == "seq" and any(y.op == "seq" and y.args[0] in bad for y in subterms(x)) or call(x, *bad) or call(x, "into_iter") and any(call(y, *bad) for y in subterms(x)):
                        return False
        return True

    def first(self, t, b):
        return call(t, "first") and any(call(x, "block_insns") for x in subterms(t)) and self.arg(b, "Block") in subterms(t)

    def param(self, b, key, s, fu):
        R = self.R
        mv = self.moves(s, key)
        fr = [e for e in s.events() if e.kind == "call" and target(e.extra["f"]) in fu and e.loops and e.loops[-1] == key]
        cs = {t for f in s.facts for t in subterms(f) if cell(t, "vreg_allocs") is not None}
        C = [c for c in cs if isnone(s.facts, c) is not None]
        if not C:
            R.ob("block", "whether a parameter is used is asked", False, b.where(), "a path does not depend on it")
            return
        C = C[0]
        vr = value(cell(C, "vreg_allocs"))
        if isnone(s.facts, C):
            R.ob("block", "an unused parameter needs nothing", not mv and not fr, b.where(), self.show(mv))
            return
        R.ob("block", "a parameter's life ends where the block begins", len(fr) == 1 and fr[0].args[-1] is vr, b.where(), "ended %d times" % len(fr))
        self.reloaded(b, s, C, vr, mv, "parameter")

    def reloaded(self, b, s, C, vr, mv, what):
        R = self.R
        slots = {t for f in s.facts for t in subterms(f) if call(t, "stack") and self.slotof(s, t) is vr}
        if any(same(s.facts, C, x) is True for x in slots):
            R.ob("block", "a %s expected in its slot is not moved" % what, not mv, b.where(), self.show(mv))
            return
        ok = len(mv) == 1 and self.slotof(s, mv[0]["frm"]) is vr and mv[0]["to"] is C and mv[0]["pos"] == 0 and self.first(mv[0]["inst"], b) and self.classof(mv[0]["cls"], vr)
        R.ob("block", "a %s is moved from its slot to where the block expects it" % what, ok, b.where(), self.show(mv))

    def live(self, b, key, s):
        R = self.R
        pl, mv = self.placed(s, key), self.moves(s, key)
        R.ob("block", "a live value's place becomes its slot", len(pl) == 1 and self.slotof(s, pl[0][1]) is pl[0][0], b.where(), str([str(p[1])[:60] for p in pl]))
        if len(pl) != 1:
            return
        vr = pl[0][0]
        cs = {t for f in s.facts for t in subterms(f) if cell(t, "vreg_allocs") is not None and value(cell(t, "vreg_allocs")) is vr}
        cs |= {x["to"] for x in mv}
        C = sorted(cs, key=lambda c: len(str(c)))
        if not C:
            R.ob("block", "where the block expects a live value is asked", False, b.where(), "")
            return
        self.reloaded(b, s, C[0], vr, mv, "live value")
        r = enum_is(s.facts, next((t for f in s.facts for t in subterms(f) if call(t, "as_reg") and targs(t) == [C[0]]), None))
        if r == 1:
            regs = [e for e in s.events() if written(e, "vreg_in_preg") is not None and e.loops and e.loops[-1] == key]
            R.ob("block", "the register it was expected in is then free", len(regs) == 1 and call(regs[0].args[1], "invalid"), b.where(), str(len(regs)))

    # ---------------------------------------------------------------- branches
    def branches(self):
        R = self.R
        n = 0
        for b in self.fa:
            if b.u in self.keep or "Operand" in self.types(b) or "Inst" not in self.types(b) or "Block" not in self.types(b) or self.reaches(b, {x.u for x in self.procs}) or not self.names("branch_blockparams", b) or not self.names("resolve", b):
                continue
            I, paths = self.paths(b)
            inst, blk = self.arg(b, "Inst"), self.arg(b, "Block")
            backs = {}
            for k, s, v in paths:
                if k == "back":
                    backs.setdefault(v, []).append(s)
            adds = lambda s, key: [e for e in s.events() if e.kind == "call" and last(e.name) == "add" and "ParallelMoves" in e.name and e.loops and e.loops[-1] == key]
            keys = [key for key, ss in backs.items() if any(adds(s, key) for s in ss)]
            for key in keys:
                for s in backs[key]:
                    n += 1
                    self.argument(b, key, s, adds(s, key), inst)
                par = next((s.loops[-2] for s in backs[key] if len(s.loops) > 1), None)
                R.ob("branch", "the arguments of every successor are visited", par is not None and all(any(f.op == "done" and repr(key) in str(f) for f in s.facts) for s in backs.get(par, [])), b.where(), "")
                R.ob("branch", "no argument and no successor is left out", self.whole(I, key, par) and self.whole(I, par, None), b.where(), "the loop skips some")
                for k, s, v in paths:
                    if k == "ret" and not failing(v):
                        R.ob("branch", "all arguments are handed over before the branch is done", any(f.op == "done" and repr(par) in str(f) for f in s.facts), b.where(), "")
            # the resolved moves
            out = 0
            for key, ss in backs.items():
                pushes = [[e for e in s.events() if e.kind == "call" and e.name == "push" and e.loops and e.loops[-1] == key and self.branchedit(e.args[1], inst) is not None] for s in ss]
                if not any(pushes):
                    continue
                out += 1
                ok = all(len(p) == 1 for p in pushes)
                fr = [self.branchedit(p[0].args[1], inst) for p in pushes if p]
                R.ob("branch", "each resolved move is emitted, source to destination", ok and all(x[0] for x in fr), b.where(), str([[str(y)[-300:] for y in x[1:]] for x in fr]))
                revs = [x for x in c27.own_seqs(I, key, next((s.loops[-2] for s in ss if len(s.loops) > 1), None))]
                R.ob("branch", "resolved moves are pushed last first", any(sum(1 for y in subterms(x) if y.op == "seq" and y.args[0] == "rev") % 2 == 1 for x in revs), b.where(), str([str(x)[:100] for x in revs]))
            R.floor("loops that emit the moves of a branch", out, 1)
        R.floor("ways a branch argument is handed over", n, 3)

    def names(self, n, b):
        """b or what it calls in this allocator calls a function of that name"""
        us = {b.u} | {x if isinstance(x, str) else x.u for x in self.q.reach([b])}
        for x in (self.db.bodies[u] for u in us if u in self.db.bodies):
            if x is not b and not x.path.startswith("fastalloc"):
                continue
            for bl in x.blocks:
                t = bl["t"]
                if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn" and last(t[1][1]["f"]["path"]) == n:
                    return True
        return False

    def branchedit(self, t, inst):
        if t.op != "agg" or len(t.args) < 4 or not (t.args[3].op == "agg" and t.args[3].args[0].endswith("Edit")):
            return None
        pt, ed = t.args[2], t.args[3]
        f, to = ed.args[2], ed.args[3]
        ok = call(pt, "before") and targs(pt) == [inst] and f.op == "fld" and to.op == "fld" and f.args[0] is to.args[0] and (str(f.args[1]), str(to.args[1])) == ("0", "1")
        return ok, f, to

    def argument(self, b, key, s, adds, inst):
        R = self.R
        isarg = lambda t: any(call(x, "branch_blockparams") for x in subterms(t))
        mv, pl = self.moves(s, key), self.placed(s, key)
        # defined by this very instruction?
        here = False
        for f, y in s.facts.items():
            if f.op == "eq" and y is True and any(call(a, "vreg") and any(call(x, "inst_operands") for x in subterms(a)) for a in f.args) and any(isarg(a) for a in f.args):
                here = True
        if here:
            k = [enum_is(s.facts, t) for f in s.facts for t in subterms(f) if call(t, "kind") and any(call(x, "inst_operands") for x in subterms(t))]
            R.ob("branch", "only an argument the branch itself defines is skipped", 0 in k, b.where(), "an argument that is merely used there is skipped")
            R.ob("branch", "an argument the branch itself defines is handled elsewhere", not mv and not pl and not adds, b.where(), self.show(mv))
            return
        if len(adds) != 1:
            R.ob("branch", "each argument is handed to its parameter", False, b.where(), "%d parallel moves" % len(adds))
            return
        al = [a for a in adds[0].args if isinstance(a, T) and call(a, "stack")]
        fr, to = (self.slotof(s, al[0]), self.slotof(s, al[1])) if len(al) == 2 else (None, None)
        ok = fr is not None and to is not None and isarg(fr) and any(call(x, "block_params") for x in subterms(to)) and not isarg(to)
        R.ob("branch", "each argument goes from its slot to the parameter's slot", ok, b.where(), str([str(a)[:80] for a in al]))
        if not ok:
            return
        vr = fr
        cs = [t for f in s.facts for t in subterms(f) if cell(t, "vreg_allocs") is not None and value(cell(t, "vreg_allocs")) is vr]
        C = next((c for c in cs if isnone(s.facts, c) is not None), None)
        if C is None:
            C = next((c for c in cs if any(f.op == "eq" and y is True and c in f.args and any(self.slotof(s, a) is vr for a in f.args) for f, y in s.facts.items())), None)
        if C is None:
            R.ob("branch", "whether the argument has a place is asked", False, b.where(), "")
            return
        inslot = lambda t: self.slotof(s, t) is vr
        if isnone(s.facts, C) is True:
            R.ob("branch", "an argument without place counts as live from here on", not mv and any(e.kind == "call" and last(e.name) == "insert" and any(a is vr for a in e.args) for e in s.events()), b.where(), self.show(mv))
            R.ob("branch", "an argument's place becomes its slot", len(pl) == 1 and pl[0][0] is vr and inslot(pl[0][1]), b.where(), str([str(p[1])[:80] for p in pl]))
            return
        known = any(f.op == "eq" and y is True and C in f.args and any(inslot(a) for a in f.args) for f, y in s.facts.items())
        if known:
            R.ob("branch", "an argument in its slot is not moved", not mv and all(p[0] is vr and inslot(p[1]) for p in pl), b.where(), self.show(mv))
            return
        ok = len(mv) == 1 and inslot(mv[0]["frm"]) and mv[0]["to"] is C and mv[0]["pos"] == 0 and mv[0]["inst"] is inst and self.classof(mv[0]["cls"], vr)
        R.ob("branch", "an argument expected elsewhere is moved there from its slot", ok, b.where(), self.show(mv))
        R.ob("branch", "an argument's place becomes its slot", len(pl) == 1 and pl[0][0] is vr and inslot(pl[0][1]), b.where(), str([str(p[1])[:80] for p in pl]))

    # ---------------------------------------------------------------- slots
    def slots(self):
        R = self.R
        for b in self.slot:
            v = self.arg(b, "VReg")
            I, paths = self.paths(b)
            n = 0
            for k, s, r in paths:
                if k != "ret":
                    continue
                n += 1
                ws = [e for e in s.events() if self.at(e, "vreg_spillslots", v)]
                i = cell(r, "vreg_spillslots")
                ok = ws and ws[-1].args[1] is r or i is not None and value(i) is v and not ws
                R.ob("operand", "%s answers the value's own slot" % last(b.path), bool(ok), b.where(), str(r)[:100])
                if ws:
                    R.ob("operand", "%s: a slot once assigned is kept" % last(b.path), any(call(f, "is_invalid", "is_valid") and y is (last(f.args[0]) == "is_invalid") for f, y in s.facts.items()), b.where(), "")
            R.floor("ways a slot is looked up", n, 2)


def enumval(t):
    return t.args[1] if isinstance(t, T) and t.op == "agg" else None


def sym_(n):
    from sem import sym
    return sym(n, "usize", 21)


def run(R, tier):
    R.rule("operand", "on each path through the processing of an operand: same place and no move, or a first place recorded with the register's holder and the live set, or another location with the place unchanged and, for a definition, a move location -> place after the instruction")
    R.rule("definition", "a processed definition is stored, from the location the instruction leaves it in, to its slot if it has one, then its life ends")
    R.rule("use", "for each use place = location or a move place -> location before the instruction, after all operands are processed")
    R.rule("evict", "a register that is taken is free or its value evicted: place := slot, move slot -> register after the taking instruction")
    R.rule("emit", "edits pushed for one move, executed in reverse, deliver the value and write nothing else but scratch registers")
    R.rule("block", "at a block's start each parameter and live value is moved from its slot to where the block expects it")
    R.rule("branch", "each branch argument goes from its slot to the parameter's slot; where it is expected elsewhere it is moved there from its slot; resolved moves are emitted in order")
    h = Hand(R)
    h.roles()
    h.slots()
    h.operands()
    h.definitions()
    h.uses()
    h.evictions()
    h.emitting()
    h.boundaries()
    h.branches()
