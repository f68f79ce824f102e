"""C19: a register an instruction clobbers holds no value across it."""
import re
import mirdb
from query import Q
from report import *
from paths import *
from sem import Sem
import c09, c20
from c27 import own_seqs

LEVEL = "other"
TECHNIQUE = "path-sensitive MIR analysis of every consumer of inst_clobbers: reservation ranges, forgotten records, available-set typestate, eviction"


def last(p):
    return p.split("::")[-1]


class Keep(SkelInterp):
    """also remembers which loops a path went through"""

    def rel(self, t):
        return t.op in ("left", "done") or super().rel(t)


class Only:
    """passes on what concerns clobbers of another property's obligations"""

    def __init__(self, R, rule, keep):
        self.R, self.r, self.keep = R, rule, keep

    def ob(self, rule, instance, ok, where="", msg=""):
        if rule is None or not self.keep(rule, str(instance)):
            return ok
        return self.R.ob(self.r, instance, ok, where, msg)

    def rule(self, *a):
        pass

    def floor(self, what, n, least):
        if self.keep("floor", what):
            self.R.floor(what, n, least)

    def violation(self, key, where="", msg=""):
        if self.keep("violation", key):
            self.R.violation(key, where, msg)

    def __getattr__(self, n):
        return getattr(self.R, n)

    def __setattr__(self, n, v):
        if n in ("R", "r", "keep"):
            object.__setattr__(self, n, v)
        else:
            setattr(self.R, n, v)


def targs(t):
    return [a for a in t.args[1:] if isinstance(a, T)]


def partial(x):
    """a sequence that leaves out elements of the one it is made from"""
    return any(y.op == "seq" and y.args[0] in ("skip", "take", "filter", "filter_map", "step_by", "take_while", "skip_while", "map_while") for y in subterms(x))


def clobbers_of(t):
    """inst when t is inst_clobbers(inst)"""
    if t.op == "wres" and last(t.args[0]) == "inst_clobbers":
        return t
    if t.op in ("call", "res") and last(str(t.args[0])) == "inst_clobbers":
        return t
    return None


def member(t):
    """the clobber set t is any member of"""
    if t.op == "member":
        return clobbers_of(t.args[0])
    return None


class Clob:
    def __init__(self, R):
        self.R = R
        self.db = mirdb.load("main")
        self.q = Q(self.db)

    # ---------------------------------------------------------------- the backtracking allocator
    def reserve(self):
        R, db = self.R, self.db
        n = 0
        for b in self.q.bodies():
            if not b.path.startswith("ion::") or is_closure(b) or "dump" in b.path:
                continue
            if not any(t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn" and last(t[1][1]["f"]["path"]) == "inst_clobbers" for t in (bl["t"] for bl in b.blocks)):
                continue
            ins = [x for x in self.reservers() if x.u in self.q.callees(b)]
            if not ins:
                continue
            for x in ins:
                self.reserver(x)
            I = Keep(db, lambda f: last(f["path"]) in ("inst_clobbers", "block_insns"), noinline=lambda x: x.local and not is_closure(x) and "PRegSet" not in x.path, pregseq=True)
            st = St()
            r = I.analyse(b, symargs(db, b, st), st)
            backs = {}
            for _, key, s, _ in I.ends:
                backs.setdefault(key, []).append(s)
            R.saw(I)
            R.sawfn(b)
            R.paths += len(I.ends)
            us = {x.u for x in ins}
            loops = {}
            for key, ss in backs.items():
                for s in ss:
                    for e in s.events():
                        if e.kind == "call" and target(e.extra["f"]) in us and e.loops and e.loops[-1] == key and any(isinstance(a, T) and member(a) is not None for a in e.args):
                            loops.setdefault(key, 0)
            for key in loops:
                n += 1
                for s in backs[key]:
                    es = [e for e in s.events() if e.kind == "call" and target(e.extra["f"]) in us and e.loops and e.loops[-1] == key]
                    es = [e for e in es if any(isinstance(a, T) and member(a) is not None for a in e.args)]
                    if not es:
                        R.ob("reserve", "no clobbered register is skipped", False, b.where(), "an iteration over the clobbers reserves nothing")
                    for e in es:
                        R.ob("reserve", "the reservation covers the end of the clobbering instruction", self.covers(I, s, e), b.where(), str([str(a)[:160] for a in e.args]))
                # each instruction goes through this loop
                par = next((s.loops[-2] for s in backs[key] if len(s.loops) > 1), None)
                R.ob("reserve", "the clobbers are visited in the walk over the instructions", par is not None, b.where(), "")
                for x in own_seqs(I, key, par) + own_seqs(I, par, None):
                    R.ob("reserve", "no element is left out of the walk", not partial(x), b.where(), str(x)[:160])
                for s in backs.get(par, []):
                    ok = any(f.op == "done" and repr(key) in str(f) for f in s.facts)
                    R.ob("reserve", "every instruction's clobbers are visited", ok, b.where(), "an iteration over the instructions passes by the loop over the clobbers")
        R.floor("loops that reserve clobbered registers", n, 1)

    def reservers(self):
        """functions that enter a range of a physical register"""
        if not hasattr(self, "_res"):
            self._res = []
            for b in self.q.bodies():
                if b.path.startswith("ion::") and not is_closure(b) and any(self.ty(b, i) == "PReg" for i in range(b.argc)) and any(self.ty(b, i).endswith("CodeRange") for i in range(b.argc)):
                    self._res.append(b)
        return self._res

    def ty(self, b, i):
        ty = self.db.types[b.lty(i + 1)]
        return ty.get("path", "") if ty["k"] == "adt" else ""

    def reserver(self, b):
        """the range is entered in the interval map of that very register"""
        R = self.R
        if b.u in getattr(self, "_done", set()):
            return
        self._done = getattr(self, "_done", set()) | {b.u}
        small = ("PReg", "index")
        I, paths = explore(self.db, b, None, noinline=lambda x: x.local and (x.name in ("from_range", "index") or "deref" in x.name))
        R.saw(I)
        pr = [T("sym", "arg%d" % (i + 1)) for i in range(b.argc) if self.ty(b, i) == "PReg"][0]
        cr = [T("sym", "arg%d" % (i + 1)) for i in range(b.argc) if self.ty(b, i).endswith("CodeRange")][0]
        m = 0
        for k, s, v in paths:
            if k != "ret":
                continue
            m += 1
            ok = False
            for e in s.events():
                if e.kind != "call" or last(e.name) != "insert":
                    continue
                rest = list(e.args[1:]) + list(e.extra["nargs"][1:])
                key = any(isinstance(a, T) and cr in self.deep(I, s, a) for a in rest)
                where = e.args[0]
                dst = set(subterms(where)) | {y for p in (where.args[1] if where.op == "ref" else ()) if isinstance(p, tuple) for x in p if isinstance(x, T) for y in subterms(x)}
                if key and pr in dst and "pregs" in str(where):
                    ok = True
            R.ob("reserve", "%s enters the range in the register's own map" % b.name, ok, b.where(), "a path returns without the range in the map of that register")
        R.floor("paths of the reservation function", m, 1)

    def deep(self, I, s, a):
        out = set(subterms(a))
        for x in list(out):
            if x.op == "ref":
                try:
                    out |= set(subterms(I.load(s, x)))
                except Exception:
                    pass
        return out

    def covers(self, I, s, e):
        """from <= after(inst) and to >= before(inst.next())"""
        for a in e.args:
            if not (isinstance(a, T) and a.op == "agg" and a.args[0].endswith("CodeRange")):
                continue
            fs = dict(zip([f[0] for f in self.db.adts[a.args[0]]["variants"][0]["fields"]], a.args[2:]))
            inst = None
            cl = [member(x) for x in e.args if isinstance(x, T) and member(x) is not None]
            for ev in s.events():
                if ev.kind == "call" and ev.res in cl:
                    inst = ev.args[-1]
            if inst is None:
                return False
            return self.point(fs["from"], inst) in (0, 1) and self.point(fs["to"], inst) in (2, 3)
        return False

    def point(self, t, inst):
        """2 * (instruction - inst) + position"""
        if t.op in ("call", "res") and len(targs(t)) == 1:
            n, x = last(t.args[0]), targs(t)[0]
            if n in ("before", "after"):
                d = self.dist(x, inst)
                return None if d is None else 2 * d + (n == "after")
            if n in ("next", "prev"):
                d = self.point(x, inst)
                return None if d is None else d + (1 if n == "next" else -1)
        return None

    def dist(self, x, inst):
        if x is inst:
            return 0
        if x.op in ("call", "res") and len(targs(x)) == 1 and last(x.args[0]) in ("next", "prev"):
            d = self.dist(targs(x)[0], inst)
            return None if d is None else d + (1 if last(x.args[0]) == "next" else -1)
        return None

    # ---------------------------------------------------------------- the single-pass allocator
    def fast(self):
        R, db = self.R, self.db
        noin = lambda x: x.local and not is_closure(x) and "PRegSet" not in x.path and not self.forward(x) or x.name in ("intersect_from", "invert", "remove", "contains", "add", "union_from", "bitand") and x.local
        fa = [b for b in self.q.bodies() if b.path.startswith("fastalloc::") and not is_closure(b) and "tests" not in b.path and not b.derived and "::fmt" not in b.path]
        ex = {}
        for b in fa:
            if b.path.startswith(("fastalloc::Env", "fastalloc::State")):
                ex[b.u] = explore(db, b, None, pregseq=True, noinline=noin)
                R.saw(ex[b.u][0])
                R.paths += len(ex[b.u][1])
        # what makes the available sets larger
        self.grow = set()
        for b in fa:
            if b.u not in ex:
                continue
            for k, s, v in ex[b.u][1]:
                for e in s.events():
                    if self.avail(e.args[0] if e.args else None) and (e.kind == "write" or e.kind == "call" and e.extra.get("mut") and last(e.name) not in ("remove", "intersect_from", "index_mut", "index", "deref", "deref_mut")):
                        if e.kind == "call" and (target(e.extra["f"]) in db.bodies and not "PRegSet" in e.name):
                            continue
                        if e.kind == "write" and e.args[1].op in ("call", "res") and last(str(e.args[1].args[0])) in ("bitand",):
                            continue
                        self.grow.add(b.u)
        pick = [b for b in fa if b.u in ex and any(self.is_op(b, i) for i in range(b.argc)) and any(e.kind == "call" and self.is_last(e.name) for k, s, v in ex[b.u][1] for e in s.events())]
        R.floor("functions that pick a register for an operand", len(pick), 1)
        pu = {b.u for b in pick}
        users = [b for b in fa if b.u in ex and any(e.kind == "call" and last(e.name) == "inst_clobbers" for k, s, v in ex[b.u][1] for e in s.events())]
        main = []
        for b in users:
            callees = self.q.callees(b)
            givers = {u for u in callees if u in db.bodies and self.reaches(u, pu)}
            if givers and not any(self.is_op(b, i) for i in range(b.argc)):
                main.append((b, givers))
        R.floor("functions that allocate an instruction", len(main), 1)
        for b, givers in main:
            self.instruction(b, givers, *ex[b.u])
        for b in pick:
            self.picked(b, *ex[b.u])
        kept = 0
        for b in fa:
            ty = db.types[b.lty(0)]
            if b.u in ex and ty["k"] == "bool" and any(self.is_op(b, i) for i in range(b.argc)):
                kept += 1
                self.kept(b)
        R.floor("functions that let an operand stay where its value is", kept, 1)

    def forward(self, x):
        """a helper that only edits the available sets is read in place"""
        return x.path.startswith(("fastalloc::Env", "fastalloc::State")) and len(x.blocks) <= 60 and not any(self.is_op(x, i) for i in range(x.argc)) and any(self.ty(x, i) == "PRegSet" for i in range(x.argc))

    def reaches(self, u, pu):
        r = self.q.reach([self.db.bodies[u]])
        r = {x if isinstance(x, str) else x.u for x in r}
        return bool(r & pu)

    def is_op(self, b, i):
        ty = self.db.types[b.lty(i + 1)]
        if ty["k"] == "ref":
            ty = self.db.types[ty["t"]]
        return ty["k"] == "adt" and ty["path"] == "Operand"

    def is_last(self, n):
        return last(n) == "last" and "Lru" in n

    def avail(self, t):
        """t names one of the available sets"""
        if not isinstance(t, T):
            return False
        if t.op == "ref":
            return any(isinstance(p, tuple) and p[0] == "f" and p[-1] == "available_pregs" for p in t.args[1])
        if t.op in ("call", "res") and last(str(t.args[0])) in ("index_mut", "index"):
            return any(re.search(r"(?<!_)available_pregs'*$", str(a)) for a in targs(t)[:1])
        return False

    def late(self, t):
        """t is the available set for late operands"""
        if not self.avail(t):
            return False
        i = targs(t)
        return len(i) >= 2 and i[1].op == "agg" and i[1].args[1] == 1 and i[1].args[0].endswith("OperandPos")

    def instruction(self, b, givers, I, paths):
        R = self.R
        backs = {}
        for k, s, v in paths:
            if k == "back":
                backs.setdefault(v, []).append(s)
        rem, ev = set(), set()  # loops over the clobbers that remove / evict each
        for key, ss in backs.items():
            cl = [[e for e in s.events() if e.loops and e.loops[-1] == key] for s in ss]
            ms = [{x for f in s.facts for x in subterms(f) if x.op == "member" and clobbers_of(x.args[0]) is not None} for s in ss]
            if not all(ms) or any(partial(x) for x in own_seqs(I, key, None)):
                continue
            if all(any(e.kind == "call" and last(e.name) == "remove" and self.late(e.args[0]) and any(a in m for a in e.args[1:]) for e in es) for es, m in zip(cl, ms)):
                rem.add(key)
            if all(self.cleared(s, es, m) for s, es, m in zip(ss, cl, ms)):
                ev.add(key)
        R.ob("evict", "a loop over all clobbered registers leaves each without a value", bool(ev), b.where(), "in no loop over the clobbers every iteration either knows the register to be free or evicts its value")
        n = 0
        for k, s, v in paths:
            evs = s.events()
            cut = None
            for i, e in enumerate(evs):
                if e.kind == "call" and last(e.name) == "intersect_from" and self.late(e.args[0]) and self.inverse(e.args[1]) and cut is None:
                    cut = i
                if e.kind == "call":
                    u = target(e.extra["f"])
                    if u in givers:
                        n += 1
                        done = {str(f) for f in e.facts if f.op == "done"}
                        gone = lambda keys: any(any(repr(key) in d for d in done) for key in keys)
                        R.ob("late", "%s: clobbered registers are unavailable before late operands get theirs" % last(b.path), cut is not None or gone(rem), b.where(), "%s is called before" % last(e.name))
                        R.ob("evict", "%s: clobbered registers are evicted before operands get registers" % last(b.path), gone(ev), b.where(), "%s is called before" % last(e.name))
                        R.ob("late", "%s: nothing makes a register available again" % last(e.name), not self.reaches(u, self.grow), self.db.bodies[u].where() if u in self.db.bodies else "", "it can enlarge the available sets")
                    elif cut is not None and u in self.db.bodies and self.reaches(u, self.grow):
                        R.ob("late", "nothing makes a register available again once clobbers are removed", False, b.where(), "%s can enlarge the available sets" % last(e.name))
                if cut is not None and i > cut and self.avail(e.args[0] if e.args else None) and (e.kind == "write" or last(e.name) in ("add", "union_from", "insert")):
                    R.ob("late", "nothing makes a register available again once clobbers are removed", False, b.where(), str(e.name))
        R.floor("operand allocations of an instruction", n, 2)

    def inverse(self, t):
        return t.op in ("call", "res") and last(str(t.args[0])) == "invert" and any(isinstance(a, T) and clobbers_of(a) is not None for a in t.args[1:])

    def cleared(self, s, es, m):
        """this iteration knows the register to be free, or evicts its value"""
        for f, y in s.facts.items():
            if f.op == "eq" and y is True and any(a.op in ("call", "res") and last(str(a.args[0])) == "invalid" or a.op == "agg" for a in f.args) and any("vreg_in_preg" in str(a) and any(x in m for x in subterms(a)) for a in f.args):
                return True
            if f.op in ("call", "res") and last(str(f.args[0])) in ("is_invalid", "is_valid") and y is (last(str(f.args[0])) == "is_invalid") and "vreg_in_preg" in str(f) and any(x in m for x in subterms(f)):
                return True
        out = False
        for e in es:
            if e.kind == "call" and target(e.extra["f"]) in self.evictors() and any(a in m for a in e.args):
                out = e
        if not out:
            return False
        pos = [a for a in out.args if a.op == "agg" and a.args[0].endswith("InstPosition")]
        return len(pos) == 1 and pos[0].args[1] == 1

    def evictors(self):
        """functions that move the value of a register to its slot"""
        if not hasattr(self, "_ev"):
            self._ev = set()
            for b in self.q.bodies():
                if not b.path.startswith("fastalloc::State") or is_closure(b):
                    continue
                ts = [self.ty(b, i) for i in range(b.argc)]
                if "PReg" not in ts or not any(t.endswith("InstPosition") for t in ts):
                    continue
                I, paths = explore(self.db, b, None, noinline=lambda x: x.local and not is_closure(x))
                pr = T("sym", "arg%d" % (ts.index("PReg") + 1))
                ps = T("sym", "arg%d" % ([i for i, t in enumerate(ts) if t.endswith("InstPosition")][0] + 1))
                good = True
                m = 0
                for k, s, v in paths:
                    if k != "ret":
                        good = False
                        continue
                    if v is not None and v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 1:
                        continue
                    m += 1
                    ws = [e for e in s.events() if e.kind == "write" and "vreg_allocs" in str(e.args[0])]
                    mv = [e for e in s.events() if e.kind == "call" and last(e.name) == "add_move"]
                    isslot = lambda t: t.op in ("call", "res") and last(str(t.args[0])) == "stack"
                    good = good and len(ws) == 1 and isslot(ws[0].args[1]) and any(("vreg_in_preg" in str(x)) and pr in subterms(x) for x in [ws[0].args[0]] + list(self.inner(ws[0].args[0])))
                    good = good and len(mv) == 1 and any(a is ps for a in mv[0].args) and self.order(mv[0], ws[0].args[1], pr)
                if good and m:
                    self._ev.add(b.u)
                self.R.saw(I)
                self.R.ob("evict", "%s: the value's home becomes its slot, and it is reloaded from there after the instruction" % last(b.path), good and m > 0, b.where(), "")
        return self._ev

    def inner(self, t):
        if t.op == "ref":
            for p in t.args[1]:
                if isinstance(p, tuple):
                    for x in p:
                        if isinstance(x, T):
                            yield x

    def order(self, e, slot, pr):
        """from the slot to the register"""
        al = [i for i, a in enumerate(e.args) if a is slot]
        rg = [i for i, a in enumerate(e.args) if a.op in ("call", "res") and last(str(a.args[0])) == "reg" and pr in subterms(a)]
        return bool(al and rg) and al[0] < rg[0]

    def picked(self, b, I, paths):
        """the register an operand gets is in the available set of its position"""
        R = self.R
        op = [T("sym", "arg%d" % (i + 1)) for i in range(b.argc) if self.is_op(b, i)][0]
        n = 0
        for k, s, v in paths:
            for e in s.events():
                if e.kind == "call" and self.is_last(e.name):
                    n += 1
                    S = e.args[-1]
                    R.ob("late", "%s: registers come from the available set of the operand's position" % last(b.path), self.within(S, op, e.facts), b.where(), str(S)[:160])
        R.floor("register choices", n, 1)

    def within(self, S, op, facts):
        if S.op in ("call", "res") and last(str(S.args[0])) in ("bitand",):
            return any(isinstance(a, T) and self.within(a, op, facts) for a in S.args[1:])
        if S.op in ("deref",):
            return self.within(S.args[0], op, facts)
        if not self.avail(S):
            return False
        i = [a for a in S.args[1:] if isinstance(a, T)]
        if len(i) < 2:
            return False
        if i[1].op in ("call", "res") and last(str(i[1].args[0])) == "pos" and op in subterms(i[1]):
            return True
        if i[1].op == "agg":
            return i[1].args[1] == 1 or self.posfact(op, facts) == 0
        return False

    def posfact(self, op, facts):
        for f, y in facts.items():
            if f.op == "discr" and f.args[0].op in ("call", "res") and last(str(f.args[0].args[0])) == "pos" and op in f.args[0].args and isinstance(y, int):
                return y
            if f.op == "eq" and any(a.op == "discr" and a.args[0].op in ("call", "res") and last(str(a.args[0].args[0])) == "pos" and op in a.args[0].args for a in f.args):
                d = [a.args[0] for a in f.args if a.op == "int"]
                if d:
                    return d[0] if y is True else 1 - d[0]
        return None

    def kept(self, b):
        """an operand may stay in its value's register only when that register is available at its position, or is fixed, or is not clobbered under a late operand"""
        R = self.R
        I, paths = explore(self.db, b, None, pregseq=True, noinline=lambda x: x.local)
        R.saw(I)
        op = [T("sym", "arg%d" % (i + 1)) for i in range(b.argc) if self.is_op(b, i)][0]
        n = 0
        for k, s, v in paths:
            if k != "ret" or v is None or v.op == "int" and not v.args[0]:
                continue
            fs = dict(s.facts)
            if v.op != "int":
                fs[v] = True
                if v.op == "not":
                    fs[v.args[0]] = False
            con = [y for f, y in fs.items() if f.op == "discr" and f.args[0].op in ("call", "res") and last(str(f.args[0].args[0])) == "constraint"]
            if con and con[0] in (2, 3):  # stack, fixed
                continue
            asreg = [y for f, y in fs.items() if f.op == "discr" and f.args[0].op in ("call", "res") and last(str(f.args[0].args[0])) == "as_reg"]
            if asreg and asreg[0] == 0 or any(f.op == "eq" and y is False and any(a.op == "discr" and a.args[0].op in ("call", "res") and last(str(a.args[0].args[0])) == "as_reg" for a in f.args) and any(a.op == "int" and a.args[0] == 1 for a in f.args) for f, y in fs.items()):
                continue
            n += 1
            ok = self.posfact(op, fs) == 0
            for f, y in fs.items():
                if f.op in ("call", "res", "contains") and (f.op == "contains" or last(str(f.args[0])) == "contains"):
                    a = [x for x in f.args if isinstance(x, T)]
                    if y is True and any(self.within(x, op, fs) for x in a):
                        ok = True
                    if y is False and any(clobbers_of(x) is not None for x in a):
                        ok = True
            R.ob("late", "%s: a late operand does not stay in a clobbered register" % last(b.path), ok, b.where(), str({str(f)[:60]: y for f, y in fs.items()})[:300])
        R.floor("ways an operand stays in a register", n, 2)


def run(R, tier):
    R.rule("reserve", "for each clobber of each instruction a range that covers the instruction's end is entered in the register's interval map")
    R.rule("moves", "between two points the redundant-move remover forgets every clobbered register")
    R.rule("checker", "the checker forgets every clobbered register after the definitions of the instruction")
    R.rule("late", "the single-pass allocator removes the clobbers from the late set before operands are allocated, never puts one back, and gives or leaves a late operand only a register of that set (or one fixed to it)")
    R.rule("evict", "the single-pass allocator moves the value of every clobbered register to its slot, reloaded after the instruction, before operands are allocated")
    c = Clob(R)
    c.reserve()
    c.fast()
    m = c20.C20(Only(R, "moves", lambda r, i: r == "floor" or "clobber" in i or "every instruction between" in i or "block boundary" in i))
    m.anchors()
    m.emission()
    m.between()
    R2 = Only(R, "checker", lambda r, i: "clobber" in i)
    C = c09.Chk(Sem("main", R2), R2)
    c09.transfer(C)
    c09.inputs(C)
