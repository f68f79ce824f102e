"""C09: the checker's constraint test, transfer function, meet and fixpoint."""
from sem import *
from paths import *
from interp import Frame
import models

TECHNIQUE = ("abstract interpretation of the checker over MIR: the constraint and value tests are compared, path by path, with a decision table over symbolic "
             "operands and allocations; the transfer function, the meet and the fixpoint loop are compared with the abstract semantics of the value domain "
             "through the container operations on every path of a generic loop iteration")
LEVEL = "other"
NOTE = ("The rules cover the checker's own steps (what each step does for an arbitrary operand, allocation, instruction, edge); that a worklist iteration of these "
        "steps computes the meet over all paths is the standard fixpoint argument and is not re-proved.")
B = ("isize",)


def fact_of(I, s, t):
    """truth of a boolean term under the path facts"""
    return I.decide(s, t)


def truth(x, want=True):
    return x


def K3and(*xs):
    return False if any(x is False for x in xs) else True if all(x is True for x in xs) else None


def K3or(*xs):
    return True if any(x is True for x in xs) else False if all(x is False for x in xs) else None


def K3not(x):
    return None if x is None else not x


def isok(v):
    return v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 0


def iserr(v):
    return v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 1


def last(e):
    return e.name.split("::")[-1]


class Chk:
    def __init__(self, S, R):
        self.S, self.R, self.db = S, R, S.db
        S1 = S
        self.RC = {c: S.variant("RegClass", c) for c in ("Int", "Float", "Vector")}
        self.pregs = [S.call("PReg::new", [sym("hw", "usize", 6), self.RC["Int"]])[1][0][1], S.call("PReg::new", [sym("hw2", "usize", 6), self.RC["Int"]])[1][0][1]]
        self.hw = [sym("hw", "usize", 6), sym("hw2", "usize", 6)]
        self.vreg = S.call("VReg::new", [sym("vr", "usize", 21), self.RC["Int"]])[1][0][1]
        self.areg = S.call("Allocation::reg", [self.pregs[1]])[1][0][1]
        self.fpreg = S.call("PReg::new", [sym("hw2", "usize", 6), self.RC["Float"]])[1][0][1]
        self.freg = S.call("Allocation::reg", [self.fpreg])[1][0][1]
        slot = S.call("SpillSlot::new", [sym("slot", "usize", 24)])[1][0][1]
        self.astack = S.call("Allocation::stack", [slot])[1][0][1]
        self.anone = S.call("Allocation::none", [])[1][0][1]

    def operand(self, c, a, kind="Use", pos="Early", vreg=None):
        r = self.S.call("Operand::new", [vreg or self.vreg, self.S.variant("OperandConstraint", c, *a), self.S.variant("OperandKind", kind), self.S.variant("OperandPos", pos)])[1]
        if len(r) != 1:
            raise MissingAnchor("Operand::new")
        return r[0][1]

    def constraints(self):
        return [("Any", []), ("Reg", []), ("Stack", []), ("FixedReg", [self.pregs[0]]), ("Reuse", [mkint(3, "usize")]), ("Reuse", [mkint(0, "usize")])] + \
               [("Limit", [mkint(1 << k, "usize")]) for k in range(0, 7)]

    def in_stack(self, I, s, p, env, spset):
        """is preg p one of the fixed stack locations, as far as the path knows?"""
        out = None
        for t, v in s.facts.items():
            if t.op == "contains" and "fixed_stack_slots" in str(t.args[0]) and p in t.args[1:]:
                out = bool(v)
        if out is not None:
            return out
        c = self.S.fn("PRegSet::contains")
        st = s.copy()
        st.mem[("L", "SP", 0)] = spset
        J = Interp(self.db)
        for s2, v in J.analyse(c, [T("ref", ("L", "SP", 0), ()), p], st):
            d = v.op == "int" and bool(v.args[0]) if v.op == "int" else True if v is TRUE else False if v is FALSE else I.decide(s, v)
            if d is None and len(s2.facts) != len(s.facts):
                continue
            if d is not None and all(s.facts.get(k) == x for k, x in s2.facts.items()):
                out = d if out is None else out
        return out


def run(R, tier):
    S = Sem("main", R)
    R.rule("constraint", "the constraint test accepts an allocation exactly when the operand's constraint allows it")
    R.rule("value", "an operand is accepted only with an allocation, and a use only from a location that is known to hold the used value")
    R.rule("coverage", "each operand of an instruction is checked, with the value of its own allocation, at the point its position names (a reused input always before)")
    R.rule("transfer", "moves copy the tracked value or forget the destination; each definition makes its value stale everywhere else and is the only value of its "
           "allocation; clobbers are forgotten; block parameters are renamed on edges")
    R.rule("meet", "the meet of two states keeps an allocation only when both sides have it, and of its values those on both sides; Top and Universe are neutral")
    R.rule("fixpoint", "every block is analysed, effects of its instructions and of the edge reach each successor's entry state by the meet, and changes requeue the successor")
    R.rule("report", "every instruction of every block is checked before and after its own effect, from the block's entry state")
    R.rule("input", "instructions, allocations, clobbers, edits and block arguments enter the checker as the function and the output state them")
    C = Chk(S, R)
    constraint(C)
    value(C)
    coverage(C)
    transfer(C)
    meet(C)
    fixpoint(C)
    report(C)
    inputs(C)


# ------------------------------------------------------------------ constraint table
def constraint(C):
    S, R, db = C.S, C.R, C.db
    b = S.fn("CheckerState::check_constraint")
    ix = {}
    for i in range(b.argc):
        ty = db.types[b.lty(i + 1)]
        p = ty.get("path") if ty["k"] == "adt" else (db.types[ty["t"]].get("path") or db.types[ty["t"]]["k"]) if ty["k"] == "ref" else ty["k"]
        ix[p] = i
    ixo, ixa, ixs, ixc = ix["Operand"], ix["Allocation"], ix.get("slice"), ix.get("checker::Checker")
    for c, a in C.constraints():
        for an, alloc in (("a register", C.areg), ("a register of another class", C.freg), ("a spill slot", C.astack)):
            st = St()
            args = symargs(db, b, st)
            args[ixo] = C.operand(c, a)
            args[ixa] = alloc
            I, paths = explore(db, b, args, st)
            R.saw(I)
            R.paths += len(paths)
            what = "%s%s against %s" % (c, "(%s)" % ", ".join(str(x) for x in a) if a else "", an)
            R.ob("constraint", what + " is decided", bool(paths) and not [e for e in I.log if e.kind == "panic" and not e.name.startswith("assert:") and "bounds" not in e.name], b.where(), "")
            chk = st.mem[args[ixc].args[0]]
            spset = T("fld", chk, "stack_pregs") if False else I.getf(chk, fieldproj(db, "checker::Checker", "stack_pregs"))
            for kind, s, v in paths:
                if kind != "ret":
                    continue
                isreg = alloc is not C.astack
                stk = C.in_stack(I, s, C.fpreg if alloc is C.freg else C.pregs[1], None, spset) if isreg else False
                same_fixed = I.decide(s, models.veq(I, s, alloc, S.call("Allocation::reg", [C.pregs[0]])[1][0][1])) if isreg else False
                if c == "Any":
                    exp = True
                elif c == "Reg":
                    exp = K3and(isreg, K3not(stk))
                elif c == "Stack":
                    exp = K3or(not isreg, stk)
                elif c == "FixedReg":
                    exp = same_fixed
                elif c == "Reuse":
                    al = st.mem[args[ixs].args[0]] if args[ixs].op == "ref" else args[ixs]
                    other = I.getf(al, ("i", a[0]))
                    exp = K3and(isreg, K3not(stk), I.decide(s, models.veq(I, s, alloc, other)))
                else:
                    lt = mkcmp("Lt", C.hw[1], a[0], "usize")
                    exp = K3and(isreg, K3not(stk), a[0].args[0] >= 64 or I.decide(s, lt))
                ok = (isok(v) and exp is True) or (iserr(v) and exp is False)
                R.ob("constraint", what, ok, b.where(), "returns %s although the constraint %s (stack location: %s) under %s" % (
                    str(v)[:80], {True: "holds", False: "does not hold", None: "was not fully examined"}[exp], stk, [(str(k)[:70], x) for k, x in list(s.facts.items())[:4]]))


def fieldproj(db, adt, name):
    for i, f in enumerate(db.adts[adt]["variants"][0]["fields"]):
        if f[0] == name:
            return ("f", i, name)
    raise MissingAnchor(adt + "." + name)


# ------------------------------------------------------------------ values
def value(C):
    S, R, db = C.S, C.R, C.db
    b = S.fn("CheckerState::check_val")
    cc = S.fn("CheckerState::check_constraint").u
    noin = lambda x: x.u == cc
    opi = [i for i in range(b.argc) if db.types[b.lty(i + 1)].get("path") == "Operand"][0]
    ali = [i for i in range(b.argc) if db.types[b.lty(i + 1)].get("path") == "Allocation"][0]
    vli = [i for i in range(b.argc) if db.types[b.lty(i + 1)]["k"] == "ref" and db.types[db.types[b.lty(i + 1)]["t"]].get("path", "").endswith("CheckerValue")]
    if not vli:
        raise MissingAnchor("the value argument of check_val")
    vli = vli[0]
    V = S.variants("CheckerValue")
    for vn in V:
        for kind in ("Use", "Def"):
            for c, a in C.constraints():
                if c == "Limit" and a[0].args[0] != 4 or c == "Reuse" and (kind == "Use" or a[0].args[0] == 0):
                    continue
                for al, alloc, pos in [(x, y, z) for x, y in (("none", C.anone), ("a register", C.areg), ("a spill slot", C.astack)) for z in ("Early", "Late")]:
                    st = St()
                    args = symargs(db, b, st)
                    nf = len(db.adts[S.adt("CheckerValue")]["variants"][V.index(vn)]["fields"])
                    st.mem[args[vli].args[0]] = S.variant("CheckerValue", vn, *[T("sym", "held%d" % i) for i in range(nf)])
                    args[opi] = C.operand(c, a, kind, pos)
                    args[ali] = alloc
                    I, paths = explore(db, b, args, st, noinline=noin)
                    R.saw(I)
                    R.paths += len(paths)
                    for k, s, v in paths:
                        if k != "ret":
                            continue
                        what = "%s %s of %s with constraint %s, location tracked as %s" % (pos.lower(), kind, al, c, vn)
                        holds = None
                        if vn == "Universe":
                            holds = False
                        else:
                            for t, x in s.facts.items():
                                if t.op == "call" and str(t.args[0]).split("::")[-1] == "contains" and T("sym", "held0") in t.args[1:] and C.vreg in t.args[1:]:
                                    holds = bool(x)
                        evs = [e for e in s.events() if e.kind == "call" and e.extra and target(e.extra["f"]) == cc]
                        cres = None
                        for e in evs:
                            good = any(x is args[opi] for x in e.args) and any(x is alloc for x in e.args)
                            R.ob("value", what + ": the constraint test sees this operand and allocation", good, site(e), str([str(x)[:60] for x in e.args]))
                            cres = I.decide(s, mkeq(I.discr(s, e.res, None), mkint(0, "isize"), "isize"))
                        # an operand that names a non-allocatable register is not a value: FixedReg of the invalid vreg, decided by the accessor
                        nonalloc = None
                        f = S.fn("Operand::as_fixed_nonallocatable")
                        st2 = s.copy()
                        st2.mem[("L", "OPX", 0)] = args[opi]
                        a0 = T("ref", ("L", "OPX", 0), ()) if db.types[f.lty(1)]["k"] == "ref" else args[opi]
                        rs = Interp(db).analyse(f, [a0], st2)
                        cand = {x.args[1] for s3, x in rs if x.op == "agg" and all(I.decide(s, kk) in (None, bool(vv)) if isinstance(vv, bool) else True for kk, vv in s3.facts.items())}
                        nonalloc = True if cand == {1} else False if cand == {0} else None
                        need = K3or(kind == "Def", nonalloc, holds)
                        exp = K3and(alloc is not C.anone, need, cres)
                        bad = K3or(alloc is C.anone, K3not(need), K3not(cres))
                        ok = exp is True if isok(v) else bad is True
                        R.ob("value", what, ok, b.where(), "returns %s; holds the value: %s, constraint: %s, not a value: %s" % (str(v)[:70], holds, cres, nonalloc))


# ------------------------------------------------------------------ coverage of operands
def coverage(C):
    S, R, db = C.S, C.R, C.db
    b = S.fn("CheckerState::check")
    cv = S.fn("CheckerState::check_val").u
    V = S.variants("CheckerInst")
    posi = [i for i in range(b.argc) if (db.types[b.lty(i + 1)].get("path") or "").endswith("InstPosition")][0]
    insi = [i for i in range(b.argc) if db.types[b.lty(i + 1)]["k"] == "ref" and (db.types[db.types[b.lty(i + 1)]["t"]].get("path") or "").endswith("CheckerInst")][0]
    names = [f[0] for f in db.adts[S.adt("CheckerInst")]["variants"][V.index("Op")]["fields"]]
    n = 0
    for pn in ("Before", "After"):
        st = St()
        args = symargs(db, b, st)
        args[posi] = S.variant("InstPosition", pn)
        fs = {f: T("sym", "op_" + f) for f in names}
        st.mem[args[insi].args[0]] = S.variant("CheckerInst", "Op", *[fs[f] for f in names])
        st.mem[args[0].args[0]] = S.variant("CheckerState", "Allocations", T("sym", "map"))
        I, paths = explore(db, b, args, st, noinline=lambda x: x.u == cv)
        R.saw(I)
        R.paths += len(paths)
        loops = {}
        for kind, s, v in paths:
            evs = [e for e in s.events() if e.kind == "call" and e.extra and target(e.extra["f"]) == cv]
            if kind == "back":
                loops.setdefault(v, []).append((s, evs))
            elif iserr(v):
                e = evs[-1] if evs else None
                ok = e is not None and v.args[2] is I.getf(e.res, ("vf", 1, 0))
                R.ob("coverage", "%s: only a failing operand fails the instruction" % pn, ok, b.where(), str(v)[:150])
            for e in evs:
                n += 1
                o, al, vv = e.extra["nargs"][2:5]
                pair = paired(o, fs["operands"], al, fs["allocs"]) and not partial(o) and not partial(al)
                R.ob("coverage", "%s: each operand is checked with its own allocation" % pn, pair, site(e), "%s with %s" % (o, al))
                got = from_map(vv, T("sym", "map"), al) or (vv.op == "agg" and vv.args[1] == S.variants("CheckerValue").index("Universe") and missing(I, s, al))
                R.ob("coverage", "%s: the value tested is the one tracked for the allocation, unknown when there is none" % pn, got, site(e), str(vv)[:150])
        elem = {}
        for key, ps in loops.items():
            if not any(evs for s, evs in ps):
                continue
            for s, evs in ps:
                here = [e for e in evs if key in e.loops]
                o = operand_of(s, fs["operands"], here)
                if here:
                    # a successful iteration means the test passed
                    for e in here:
                        ok = I.decide(s, mkeq(I.discr(s, e.res, None), mkint(0, "isize"), "isize"))
                        R.ob("coverage", "%s: an operand that fails the test fails the instruction" % pn, ok is True, site(e), "")
                    continue
                elem.setdefault(key, []).append(s)
            opels = {e.extra["nargs"][2] for s, evs in ps for e in evs}
            for s in elem.get(key, []):
                for o in opels:
                    ps_ = positions(C, I, s, o)
                    reused = is_reused(I, s, o, fs)
                    other = {"Before": "Late", "After": "Early"}[pn]
                    if pn == "Before":
                        ok = ps_ == {other} and (reused is not True or kind_of(C, I, s, o) == {"Def"})
                    else:
                        ok = ps_ == {other} or reused is True
                    R.ob("coverage", "%s: an operand is skipped only when it belongs to the other point" % pn, ok, b.where(),
                         "skipped with position in %s, reused input: %s, under %s" % (sorted(ps_), reused, [(str(k)[:80], x) for k, x in list(s.facts.items())[-6:]]))
    R.floor("operand tests", n, 4)
    # moves between two memory locations are rejected
    st = St()
    args = symargs(db, b, st)
    st.mem[args[insi].args[0]] = S.variant("CheckerInst", "Move", T("sym", "m0"), T("sym", "m1"))
    mn = [f[0] for f in db.adts[S.adt("CheckerInst")]["variants"][V.index("Move")]["fields"]]
    for x, xn in ((C.astack, "slot"), (C.areg, "register")):
        for y, yn in ((C.astack, "slot"), (S.call("Allocation::reg", [C.pregs[0]])[1][0][1], "register")):
            st2 = st.copy()
            st2.mem[args[insi].args[0]] = S.variant("CheckerInst", "Move", x, y)
            I, paths = explore(db, b, args, st2, noinline=lambda z: z.u == cv)
            R.saw(I)
            chk = [st2.mem[a.args[0]] for i, a in enumerate(args) if a.op == "ref" and (db.types[db.types[b.lty(i + 1)]["t"]].get("path") or "").endswith("Checker")][0]
            sp = I.getf(chk, fieldproj(db, "checker::Checker", "stack_pregs"))
            for kind, s, v in paths:
                if kind != "ret":
                    continue
                m = [True if z is C.astack else C.in_stack(I, s, p, None, sp) for z, p in ((x, C.pregs[1]), (y, C.pregs[0]))]
                exp = K3and(*m)
                R.ob("coverage", "a move between %s and %s is rejected exactly when both are in memory" % (xn, yn), exp is (True if iserr(v) else False), b.where(),
                     "returns %s with memory flags %s" % (str(v)[:60], m))


def paired(o, ops, al, allocs):
    """o = ops[k], al = allocs[k] for the same generic k"""
    so, sa = str(o), str(al)
    return ops in set(subterms(o)) and allocs in set(subterms(al)) and so.replace(str(ops), "") == sa.replace(str(allocs), "") and \
        {x for x in subterms(o) if x.op == "any"} == {x for x in subterms(al) if x.op == "any"}


def from_map(v, m, key):
    subs = set(subterms(v))
    return m in subs and key in subs and any(x.op == "call" and str(x.args[0]).split("::")[-1] in ("get", "index") for x in subs)


def missing(I, s, al):
    """the path knows that the map has no entry for al"""
    for t, x in s.facts.items():
        if t.op == "eq" and t.args[0].op == "discr" and al in set(subterms(t)) and t.args[1].op == "int":
            if (t.args[1].args[0] == 0 and x is True) or (t.args[1].args[0] == 1 and x is False):
                return True
        if t.op == "discr" and al in set(subterms(t)) and x == 0 and not isinstance(x, bool):
            return True
    return False


def operand_of(s, ops, here):
    return here[0].args[2] if here else None


def positions(C, I, s, o):
    S, db = C.S, C.db
    f = S.fn("Operand::pos")
    st = s.copy()
    st.mem[("L", "OPP", 0)] = o
    a0 = T("ref", ("L", "OPP", 0), ()) if db.types[f.lty(1)]["k"] == "ref" else o
    vs = S.variants("OperandPos")
    out = set()
    for s2, v in Interp(db).analyse(f, [a0], st):
        if v.op == "agg":
            out.add(vs[v.args[1]])
        else:
            out |= set(vs)
    return out


def is_reused(I, s, o, fs):
    """does the path know that some operand's constraint is Reuse of this operand's index?"""
    anyo = {x for x in subterms(o) if x.op == "any"}
    for t, x in s.facts.items():
        if t.op == "eq" and x is True:
            subs = set(subterms(t))
            mine = {y for y in subs if y.op == "any"}
            others = any(fs["operands"] in set(subterms(y)) for y in t.args if isinstance(y, T))
            if others and mine and any(anyo & {z for z in subterms(y) if z.op == "any"} and not bits_of(y, fs["operands"]) for y in t.args if isinstance(y, T)) and mine - anyo:
                return True
    return False


def bits_of(y, ops):
    return any(z.op == "fld" or z.op == "f" for z in subterms(y) if False) or y.op in ("bits", "bv")


# ------------------------------------------------------------------ transfer function
def transfer(C):
    S, R, db = C.S, C.R, C.db
    b = S.fn("CheckerState::update")
    V = S.variants("CheckerInst")
    M = T("sym", "map")

    def setup(var):
        st = St()
        args = symargs(db, b, st)
        st.mem[args[0].args[0]] = S.variant("CheckerState", "Allocations", M)
        names = [f[0] for f in db.adts[S.adt("CheckerInst")]["variants"][V.index(var)]["fields"]]
        fs = {f: T("sym", "i_" + f) for f in names}
        st.mem[args[1].args[0]] = S.variant("CheckerInst", var, *[fs[f] for f in names])
        I, paths = explore(db, b, args, st)
        R.saw(I)
        R.paths += len(paths)
        return I, args, fs, paths

    def writes(I, s, args):
        """(operation, receiver, arguments) of the container operations that change something reachable from the state"""
        out = []
        for e in s.events():
            if e.kind == "call" and e.extra and e.extra.get("mut"):
                out.append(e)
        return out

    # Top becomes an empty map, not an arbitrary one
    # move
    I, args, fs, paths = setup("Move")
    into, frm = fs["into"], fs["from"]
    seen = set()
    for kind, s, v in paths:
        if kind != "ret":
            R.ob("transfer", "a move touches only its destination", False, b.where(), "loops over the state")
            continue
        ws = [e for e in writes(I, s, args) if e.args[0].op == "ref" and e.args[0].args[0] == args[0].args[0]]
        known = None
        for t, x in s.facts.items():
            if t.op == "eq" and t.args[0].op == "discr" and frm in set(subterms(t)):
                known = x if t.args[1].args[0] == 1 else not x
        nm = [last(e) for e in ws]
        ok = len(ws) == 1 and keyarg(I, s, ws[0]) is into
        if known is True:
            ok = ok and nm == ["insert"] and from_map(ws[0].args[2], M, frm)
        else:
            ok = ok and nm == ["remove"]
        seen.add(nm[0] if nm else None)
        R.ob("transfer", "a move from a %s location %s the destination" % (("known", "gives its value to") if known else ("unknown", "forgets")), ok, b.where(),
             "operations: %s" % [(last(e), [str(x)[:60] for x in e.args[1:]]) for e in ws])
    R.floor("move outcomes", len(seen), 2)
    # definitions and clobbers
    I, args, fs, paths = setup("Op")
    outer, inner, clob = {}, {}, {}
    backs = {}
    for kind, s, v in paths:
        if kind == "back":
            backs.setdefault(v, []).append(s)
    opel = lambda t: any(x is fs["operands"] for x in subterms(t))
    defloops = set()
    for key, ss in backs.items():
        for s in ss:
            for e in s.events():
                if e.kind == "call" and last(e) == "insert" and e.loops and e.loops[-1] == key and onstate(e, args):
                    defloops.add(key)
    R.ob("transfer", "definitions are recorded in one loop over the operands", len(defloops) == 1, b.where(), str(sorted(map(str, defloops))))
    nd = 0
    for key in defloops:
        for s in backs[key]:
            ins = [e for e in s.events() if e.kind == "call" and key in e.loops and onstate(e, args) and last(e) in ("insert", "remove", "retain", "clear", "entry", "drain")]
            els = {x for k in list(s.facts) for x in subterms(k) if is_elem(x, fs["operands"])} | {x for e in ins for a in e.args for x in subterms(a) if is_elem(x, fs["operands"])}
            kinds = set()
            for o in els:
                kinds |= kind_of(C, I, s, o)
            if not ins:
                R.ob("transfer", "an operand leaves the state alone only when it is a use", kinds == {"Use"}, b.where(), "kinds %s" % sorted(kinds))
                continue
            R.ob("transfer", "only a definition changes the state", kinds == {"Def"}, b.where(), "kinds %s" % sorted(kinds))
            for o in els:
                vr = vreg_of(C, I, s, o)
                e = ins[-1]
                al = e.extra["nargs"][1]
                val = e.args[2] if len(e.args) > 2 else None
                single = val is not None and val.op == "agg" and val.args[1] == S.variants("CheckerValue").index("VRegs") and single_set(val.args[2], vr)
                R.ob("transfer", "a definition's allocation holds exactly the defined value", last(e) == "insert" and paired(o, fs["operands"], al, fs["allocs"]) and single and not partial(o), b.where(),
                     "%s %s := %s" % (last(e), al, str(val)[:120]))
                nd += 1
                # the inner loop over the tracked values removes the vreg, before
                inn = [k for k in backs if any(s2.loops[:-1] and s2.loops[-2:] == (key, k) or (key in s2.loops and k != key) for s2 in backs[k])]
                done = [t for t in s.facts if t.op == "done" and key in str(t)]
                rem = 0
                for k in inn:
                    for s2 in backs[k]:
                        if same_facts(s2, s):
                            evs = [x for x in s2.events() if x.kind == "call" and last(x) in ("remove", "insert", "retain") and key in x.loops]
                            hit = [x for x in evs if k in x.loops and last(x) == "remove" and in_map_iter(x.args[0], M) and vreg_is(C, I, s2, x, vr)]
                            before = not [x for x in evs if k not in x.loops and last(x) == "insert"]
                            universe = not hit and value_unknown(s2)
                            rem += bool(hit and before)
                            R.ob("transfer", "a definition is removed from every other allocation first", (bool(hit) and before) or universe, b.where(),
                                 "%s" % [(last(x), [str(y)[:60] for y in x.args]) for x in evs])
                ret = [x for x in s.events() if x.kind == "call" and key in x.loops and last(x) in ("for_each", "retain")]
                R.ob("transfer", "every tracked allocation is visited when a value is redefined", rem > 0, b.where(), "no loop over the tracked values removes the vreg before the definition is recorded")
    R.floor("definition cases", nd, 1)
    nclob = 0
    for key, ss in backs.items():
        for s in ss:
            evs = [e for e in s.events() if e.kind == "call" and e.loops and e.loops[-1] == key and onstate(e, args)]
            rm = [e for e in evs if last(e) == "remove"]
            if not rm or key in defloops:
                continue
            for e in rm:
                k = e.extra["nargs"][1]
                el = [x for x in subterms(k) if is_elem(x, fs["clobbers"])]
                want = None
                if el:
                    want = S.call("Allocation::reg", [el[0]], s)[1]
                    want = [v for _, v in want]
                okk = bool(el) and not partial(el[0]) and any(I.decide(s, models.veq(I, s, k, w)) is True for w in want)
                nclob += 1
                R.ob("transfer", "a clobbered register is forgotten", okk, site(e), str(k))
            # after the definitions: the loop over operands is over
            R.ob("transfer", "clobbers are forgotten after the definitions were recorded", any(t.op == "done" for t in s.facts), b.where(), "")
        if any([e for e in s.events() if e.kind == "call" and e.loops and e.loops[-1] == key and last(e) == "remove" and onstate(e, args)] for s in ss) and key not in defloops:
            R.ob("transfer", "no clobber is skipped", all([e for e in s.events() if e.kind == "call" and key in e.loops and last(e) == "remove"] for s in ss), b.where(), "")
    R.floor("clobber removals", nclob, 1)
    # parallel moves
    I, args, fs, paths = setup("ParallelMove")
    mv = fs["moves"]
    colls = {"dest": set(), "src": set()}
    applied = {"remove": 0, "extend": 0}
    for kind, s, v in paths:
        if kind != "back":
            continue
        for e in s.events():
            if e.kind != "call" or not e.extra or v not in e.loops:
                continue
            n = last(e)
            if n == "insert" and len(e.args) == 2 and is_pair(e.args[1], mv, 0):
                colls["dest"].add(e.args[0])
            if n == "entry" and is_pair(e.args[1], mv, 1):
                colls["src"].add(e.args[0])
            if n == "push" and "entry" in str(e.args[0]):
                R.ob("transfer", "a block parameter is added wherever its argument is held", is_pair(e.args[-1], mv, 0), site(e), str(e.args[-1]))
            if n == "remove" and len(e.args) == 2:
                applied["remove"] += 1
            if n == "extend" and "as1" in str(e.args[0]) or n == "extend" and "vregs_mut" in str(e.args[0]):
                applied["extend"] += 1
    R.ob("transfer", "the old value of each block parameter is marked stale", bool(colls["dest"]), b.where(), "no collection of the destinations")
    R.ob("transfer", "each block argument's holders are looked up", bool(colls["src"]), b.where(), "no map keyed by the sources")
    full = [e for k, s, v in paths for e in s.events() if e.kind == "call" and last(e) == "extend" and k == "back"]
    order = 0
    delloops = {v for kind, s, v in paths if kind == "back" and any(e.kind == "call" and last(e) == "remove" and e.loops and e.loops[-1] == v and len(e.args) == 2 for e in s.events())}
    for kind, s, v in paths:
        if kind != "back":
            continue
        if v in delloops:
            early = [e for e in s.events() if e.kind == "call" and last(e) == "extend" and e.extra and target_is_set(e)]
            R.ob("transfer", "stale values are removed before the renamed ones are added", not early, b.where(), "values are added first")
        elif any(e.kind == "call" and last(e) in ("get", "contains_key", "index") and any(e.args[0] is c for c in colls["src"]) for e in s.events()):
            R.ob("transfer", "the holders of the arguments are looked up in the old state", not any(t.op == "done" and d in str(t) for t in s.facts for d in delloops), b.where(), "")
        ex = [e for e in s.events() if e.kind == "call" and last(e) == "extend" and e.extra and target_is_set(e)]
        for e in ex:
            order += 1
            R.ob("transfer", "stale values are removed before the renamed ones are added", any(t.op == "done" for t in s.facts), site(e), "")
    R.floor("parallel-move additions", order, 1)
    R.floor("parallel-move removals", applied["remove"], 1)


def target_is_set(e):
    p = e.extra["f"].get("path", "") + str((e.extra["f"].get("r") or {}).get("path", ""))
    return "HashSet" in p or "hash" in p.lower() or "as1.0" in str(e.args[0])


def is_pair(t, mv, i):
    return t.op in ("f", "fld", "prj", "tf") and mv in set(subterms(t)) and str(t).endswith(".%d" % i) or (mv in set(subterms(t)) and str(t).endswith(".%d" % i))


def keyarg(I, s, e):
    return e.extra["nargs"][1]


def onstate(e, args):
    return bool(e.args) and e.args[0].op == "ref" and e.args[0].args[0] == args[0].args[0]


def is_elem(x, lst):
    """a generic element of lst"""
    return len(x.args) >= 2 and x.args[0] is lst and any(isinstance(a, T) and a.op == "any" for a in x.args[1:]) or \
        (x.op == "idx" and x.args[0] is lst) or (str(x) == str(lst) + "[any]")


def kind_of(C, I, s, o):
    S, db = C.S, C.db
    f = S.fn("Operand::kind")
    st = s.copy()
    st.mem[("L", "OPK", 0)] = o
    a0 = T("ref", ("L", "OPK", 0), ()) if db.types[f.lty(1)]["k"] == "ref" else o
    vs = S.variants("OperandKind")
    out = set()
    for s2, v in Interp(db).analyse(f, [a0], st):
        out |= {vs[v.args[1]]} if v.op == "agg" else set(vs)
    return out


def vreg_of(C, I, s, o):
    S, db = C.S, C.db
    f = S.fn("Operand::vreg")
    st = s.copy()
    st.mem[("L", "OPV", 0)] = o
    a0 = T("ref", ("L", "OPV", 0), ()) if db.types[f.lty(1)]["k"] == "ref" else o
    return [v for _, v in Interp(db).analyse(f, [a0], st)]


def vreg_is(C, I, s, e, vr):
    k = keyarg(I, s, e)
    return any(k is x or I.decide(s, models.veq(I, s, k, x)) is True for x in vr)


def single_set(t, vr):
    subs = set(subterms(t))
    if not any(x in subs for x in vr):
        return False
    return not any(x.op == "seq" and x.args[0] in ("chain",) for x in subs)


def same_facts(a, b):
    return all(b.facts.get(k, v) == v for k, v in a.facts.items() if k.op != "done")


def in_map_iter(t, m):
    s = str(t)
    return "iter_mut(" in s or "values_mut(" in s or "next!" in s


def value_unknown(s):
    """the tracked value is known not to be a set"""
    for t, x in s.facts.items():
        if t.op == "eq" and t.args[0].op == "discr" and t.args[1].op == "int" and ((t.args[1].args[0] == 1 and x is False) or (t.args[1].args[0] == 0 and x is True)):
            return True
    return False


# ------------------------------------------------------------------ meet
def meet(C):
    S, R, db = C.S, C.R, C.db
    for adt, neutral, full in (("CheckerValue", "Universe", "VRegs"), ("CheckerState", "Top", "Allocations")):
        b = S.fn(adt + "::meet_with")
        noin = (lambda x: x.name == "meet_with") if adt == "CheckerState" else None
        mk = {neutral: lambda n: S.variant(adt, neutral), full: lambda n: S.variant(adt, full, T("sym", n))}
        for a in (neutral, full):
            for o in (neutral, full):
                st = St()
                args = symargs(db, b, st)
                st.mem[args[0].args[0]] = mk[a]("mine")
                st.mem[args[1].args[0]] = mk[o]("theirs")
                I, paths = explore(db, b, args, st, noinline=noin)
                R.saw(I)
                R.paths += len(paths)
                what = "%s meet of %s with %s" % (adt, a, o)
                for kind, s, v in paths:
                    cur = s.mem[args[0].args[0]]
                    ops = [e for e in s.events() if e.kind == "call" and e.extra and e.extra.get("mut")]
                    if o == neutral:
                        R.ob("meet", what, kind == "ret" and cur is mk[a]("mine") and not ops, b.where(), "leaves %s" % str(cur)[:100])
                    elif a == neutral:
                        R.ob("meet", what, kind == "ret" and cur is mk[o]("theirs") and not ops, b.where(), "leaves %s" % str(cur)[:100])
                    else:
                        rt = [e for e in ops if last(e) == "retain" and e.args[0].op == "ref" and e.args[0].args[0] == args[0].args[0]]
                        oth = [e for e in ops if onstate(e, args) and last(e) in ("insert", "extend", "clear", "entry", "drain", "remove")]
                        if adt == "CheckerValue" and not ops and intersects(I, s, cur, args):
                            R.ob("meet", what + ": the result keeps only what both sides have", True, b.where(), "")
                            continue
                        R.ob("meet", what + ": the result keeps only what both sides have", len(rt) == 1 and not oth, b.where(), str([last(e) for e in ops]))
                        for e in rt:
                            R.ob("meet", what + ": an element stays exactly when the other side has it", keeps_common(C, I, s, b, e, args), site(e), "")
                        if adt == "CheckerState" and kind == "back":
                            mt = [e for e in s.events() if e.kind == "call" and last(e) == "meet_with"]
                            ok = len(mt) == 1 and in_map_iter(mt[0].args[0], None) and ("get(" in str(mt[0].args[1]) or "index(" in str(mt[0].args[1])) and key_matches(mt[0])
                            R.ob("meet", what + ": the values of a shared allocation are met", ok, b.where(), str([[str(x)[:80] for x in e.args] for e in mt]))
                if adt == "CheckerState" and a == full and o == full:
                    R.ob("meet", what + ": visits every shared allocation", any(k == "back" for k, s, v in paths), b.where(), "")


def intersects(I, s, cur, args):
    """the value is the collected intersection of the two sets"""
    subs = set(subterms(cur))
    its = [x for x in subs if x.op == "call" and str(x.args[0]).split("::")[-1] in ("intersection", "bitand") and any(theirs(a) or a.op == "ref" and a.args[0] == args[1].args[0] for a in x.args[1:]) and
           any(y.op == "sym" and y.args[0] == "mine" for a in x.args[1:] for y in subterms(a))]
    return bool(its) and not any(x.op == "seq" and x.args[0] not in ("cloned", "copied", "own", "opaque", "byref") for x in subs)


def key_matches(e):
    a, b_ = str(e.args[0]), str(e.args[1])
    return a.endswith(".1") and (a[:-2] + ".0") in b_


def keeps_common(C, I, s, b, e, args):
    """retain's predicate holds exactly when the other container has the element"""
    r = e.extra.get("pred")
    k = T("sym", "elem0")
    ok = bool(r)
    for s2, v in r:
        ts = [v] if v.op == "call" else []
        fs = [(t, x) for t, x in s2.facts.items() if t.op == "call" and str(t.args[0]).split("::")[-1] in ("contains", "contains_key") and k in t.args[1:]]
        if v.op == "call":
            good = str(v.args[0]).split("::")[-1] in ("contains", "contains_key") and k in v.args[1:] and theirs(v)
        else:
            good = bool(fs) and theirs(fs[-1][0]) and ((v is TRUE) == bool(fs[-1][1]) if v in (TRUE, FALSE) else False)
        ok = ok and good
    return ok


def theirs(t):
    return any(x.op == "sym" and x.args[0] == "theirs" for x in subterms(t))


# ------------------------------------------------------------------ fixpoint
def fixpoint(C):
    S, R, db = C.S, C.R, C.db
    b = S.fn("Checker::analyze")
    up, mt = S.fn("CheckerState::update").u, S.fn("CheckerState::meet_with").u
    I, paths = explore(db, b, noinline=lambda x: x.u in (up, mt))
    R.saw(I)
    R.paths += len(paths)
    backs = {}
    for kind, s, v in paths:
        if kind == "back":
            backs.setdefault(v, []).append(s)
    is_ = lambda e, u: e.kind == "call" and e.extra and target(e.extra["f"]) == u
    # start
    init = False
    for key, ss in backs.items():
        if all(any(e.kind == "call" and last(e) in ("push", "push_back", "insert") and key in e.loops and "num_blocks" in str(e.args[1]) and "elem(0" in str(e.args[1]) and
                   len(e.args) == 2 for e in s.events()) for s in ss):
            init = True
    init = init or any("iter_collect" in str(x) and "num_blocks" in str(x) for k, s, v in paths for e in s.events() if e.kind == "call" for x in e.args)
    R.ob("fixpoint", "every block is queued at the start", init, b.where(), "no loop over all blocks fills the worklist")
    popped = None
    kinds = {"insts": 0, "succ": 0, "edge": 0}
    for key, ss in backs.items():
        for s in ss:
            evs = [e for e in s.events()]
            pops = [e for e in evs if e.kind == "call" and last(e) in ("pop", "pop_front", "pop_back")]
            if not pops:
                continue
            blk = str(pops[-1].res) + ".as1.0"
            mine = [e for e in evs if e.kind == "call" and e.loops and e.loops[-1] == key]
            seqs = loop_over(s, key, evs)
            ups = [e for e in mine if is_(e, up)]
            mts = [e for e in mine if is_(e, mt)]
            if mts or any(last(e) in ("get", "index") and "edge_insts" in str(e.args[0]) for e in mine):
                kinds["succ"] += 1
                succ = [str(x) for e in mine if last(e) in ("get", "index") and "edge_insts" in str(e.args[0]) for x in [e.extra["nargs"][1]]]
                okedge = bool(succ) and blk in succ[0] and "block_succs" in succ[0]
                R.ob("fixpoint", "the effects of the edge to each successor are applied", okedge and edge_done(s, backs, key, is_, up), b.where(), str(succ)[:150])
                okm = len(mts) == 1 and not partial(mts[0].args[0]) and "skip" not in str(succ)
                okm = okm and not any(partial(x) for e in mine if last(e) in ("get", "index") and "edge_insts" in str(e.args[0]) for x in e.extra["nargs"][1:])
                tgt = None
                if okm:
                    e = mts[0]
                    both = set(subterms(e.extra["nargs"][0])) | set(subterms(e.extra["nargs"][1])) | set(subterms(e.args[0]))
                    okm = any("bb_in" in str(g.args[0]) and blockarg(g.extra["nargs"][1], blk) for g in mine if last(g) in ("get", "get_mut") and g.res in both)
                    flow = flowing(I, s, backs, key, is_, up, e)
                    R.ob("fixpoint", "what flows to a successor is the block's entry state with its instructions and the edge applied", flow is None, b.where(), flow or "")
                    tgt = e.args[0]
                R.ob("fixpoint", "each successor's entry state meets the state that flows to it", okm, b.where(), str([str(x)[:80] for e in mts for x in e.args]))
                ins = [e for e in mine if last(e) == "insert" and "bb_in" in str(e.args[0])]
                eq = [x for t, x in s.facts.items() if t.op == "eq" and tgt is not None and any("'" in str(y) for y in t.args) and "bb_in" not in "" and "get(" in str(t) and "discr" not in str(t)]
                changed = None if not eq else not eq[-1]
                if changed is False:
                    R.ob("fixpoint", "nothing is requeued when the successor's state did not change", True, b.where(), "")
                else:
                    good = len(ins) == 1 and blockarg(ins[0].args[1], blk) and tgt is not None and I_same(ins[0], tgt)
                    R.ob("fixpoint", "a changed entry state is stored", good or (tgt is not None and "get_mut" in str(tgt)), b.where(), str([str(x)[:80] for e in ins for x in e.args]))
                    q = [e for e in mine if last(e) in ("push", "push_back") and blockarg(e.args[1], blk)]
                    already = [e for e in mine if last(e) == "insert" and "bb_in" not in str(e.args[0]) and s.facts.get(e.res) is False and blockarg(e.args[1], blk)]
                    if already:
                        q0 = [e for e in s.events() if e.kind == "call" and last(e) == "remove" and e.args[0] is already[0].args[0] and "pop" in str(e.extra["nargs"][1])]
                        R.ob("fixpoint", "a block leaves the set of queued blocks when it leaves the queue", bool(q0), b.where(), "")
                    already += [t for t, x in s.facts.items() if t.op == "call" and str(t.args[0]).split("::")[-1] == "contains" and x and "block_succs" in str(t)]
                    R.ob("fixpoint", "a successor whose entry state changed is analysed again", bool(q) or bool(already), b.where(), str([last(e) for e in mine]))
            elif ups:
                e = ups[-1]
                src = str(e.extra["nargs"][1])
                if "edge_insts" in src:
                    kinds["edge"] += 1
                else:
                    kinds["insts"] += 1
                    R.ob("fixpoint", "each instruction of the block updates its state", "bb_insts" in src and blk in src, b.where(), src[:120])
    for k, n in kinds.items():
        R.floor("fixpoint loops over " + k, n, 1)
    # no way round: instruction and edge loops update on every iteration, successor loops meet on every iteration
    for key, ss in backs.items():
        has = [any(is_(e, mt) and e.loops and e.loops[-1] == key for e in s.events()) for s in ss]
        if any(has):
            R.ob("fixpoint", "no successor is skipped", all(has), b.where(), "")
    for key, ss in backs.items():
        has = [any(is_(e, up) and e.loops and e.loops[-1] == key for e in s.events()) for s in ss]
        if any(has):
            R.ob("fixpoint", "no instruction or edge effect is skipped", all(has), b.where(), "")
    # the pass starts from the block's entry state
    st0 = [e for k, s, v in paths for e in s.events() if e.kind == "call" and last(e) in ("get", "get_mut") and "bb_in" in str(e.args[0]) and ".bb_insts" not in str(e.args[0])]
    R.ob("fixpoint", "a block is analysed from its entry state", any("pop" in str(e.extra["nargs"][1]) for e in st0), b.where(), "")


def flowing(I, s, backs, key, is_, up, mt):
    """None when the state that meets the successor's is: entry state of the block -> instructions -> copy -> edge effects"""
    argroots = {a.args[0] for a in mt.args[:2] if a.op == "ref"}
    edge = [(k, e.args[0].args[0]) for k, ss in backs.items() for s2 in ss if key in s2.loops and k != key for e in s2.events()
            if is_(e, up) and e.loops and e.loops[-1] == k and e.args[0].op == "ref"]
    edge = [(k, r) for k, r in edge if r in argroots]
    if not edge:
        return "the state that meets the successor's is not the one the edge effects were applied to"
    inst = {(k, e.args[0].args[0]) for k, ss in backs.items() for s2 in ss if key not in s2.loops for e in s2.events()
            if is_(e, up) and e.loops and e.loops[-1] == k and e.args[0].op == "ref"}
    for k, r in edge:
        for en in I.entries.get(k, []):
            v = en.mem.get(r)
            if not any(en.mem.get(r2) is v and v is not None for k2, r2 in inst):
                return "the state the edge effects are applied to is %s, not the state after the block's instructions" % str(v)[:80]
    for k, r in inst:
        for en in I.entries.get(k, []):
            v = en.mem.get(r)
            gets = [e for e in en.events() if e.kind == "call" and last(e) in ("get", "index", "get_mut") and "bb_in" in str(e.args[0]) and "bb_insts" not in str(e.args[0]) and v is not None and
                    e.res in set(subterms(v)) and "pop" in str(e.extra["nargs"][1])]
            if not gets:
                return "the instructions start from %s, not the block's entry state" % str(v)[:80]
    return None


def I_same(ins, tgt):
    v = ins.args[2]
    return tgt.op == "ref" and any(x.op == "hv" and x.args[0] == tgt.args[0] for x in subterms(v))


def blockarg(t, blk):
    return "block_succs" in str(t) and blk in str(t)


def loop_over(s, key, evs):
    return None


def edge_done(s, backs, key, is_, up):
    """the loop over the edge's effects was left normally, and it has an updating body"""
    for k, ss in backs.items():
        if k == key:
            continue
        if any(key in s2.loops and any(is_(e, up) and e.loops and e.loops[-1] == k for e in s2.events()) for s2 in ss):
            return any(t.op == "done" and str(k) in str(t) and str(key) in str(t) for t in s.facts)
    return False


# ------------------------------------------------------------------ reporting pass
def report(C):
    S, R, db = C.S, C.R, C.db
    b = S.fn("Checker::find_errors")
    up, ck = S.fn("CheckerState::update").u, S.fn("CheckerState::check").u
    I, paths = explore(db, b, noinline=lambda x: x.u in (up, ck))
    R.saw(I)
    R.paths += len(paths)
    n = 0
    pv = S.variants("InstPosition")
    innermost = set()
    for kind, s, v in paths:
        if kind == "back" and any(e.kind == "call" and e.extra and target(e.extra["f"]) in (up, ck) and v in e.loops for e in s.events()) :
            innermost.add(v)
    for kind, s, v in paths:
        if kind != "back" or v not in innermost:
            continue
        evs = [e for e in s.events() if e.kind == "call" and e.extra and target(e.extra["f"]) in (up, ck) and e.loops and e.loops[-1] == v]
        if not evs:
            R.ob("report", "no instruction is skipped", v not in {k for k in innermost}, b.where(), "an iteration over the instructions checks nothing")
            continue
        n += 1
        seq = []
        for e in evs:
            if target(e.extra["f"]) == up:
                seq.append("update")
            else:
                p = [a for a in e.args if a.op == "agg" and a.args[0].endswith("InstPosition")]
                seq.append(pv[p[0].args[1]] if p else "?")
        insts = {e.extra["nargs"][1 if target(e.extra["f"]) == up else 2] for e in evs}
        states = {e.args[0] for e in evs}
        R.ob("report", "an instruction is checked before and after its effect", seq == ["Before", "update", "After"] and len(insts) == 1 and len(states) == 1, b.where(),
             "%s on %d instructions" % (seq, len(insts)))
        src = str(list(insts)[0])
        R.ob("report", "every block's instructions are visited", "bb_insts" in src and ("bb_in[any]" in src or "bb_insts[any]" in src or "elem(0, num_blocks" in src) and not partial(list(insts)[0]), b.where(), src[:120])
    R.floor("checked instruction iterations", n, 1)
    # starting state is the entry state of the same block
    roots = {(v, e.args[0].args[0]) for kind, s, v in paths if kind == "back" and v in innermost for e in s.events()
             if e.kind == "call" and e.extra and target(e.extra["f"]) == up and e.args[0].op == "ref"}
    for k, r in roots:
        for en in I.entries.get(k, []):
            v = en.mem.get(r)
            srcs = [e for e in en.events() if e.kind == "call" and last(e) in ("get", "index") and "bb_insts" in str(e.args[0]) and not any(e.res in set(subterms(x)) for x in [v])]
            blk = str(srcs[-1].extra["nargs"][1]) if srcs else "?"
            ok = v is not None and "bb_in" in str(v) and (blk.lstrip("&").replace(".0", "") in str(v) or blk in str(v)) and not partial(v)
            ok = ok or any("bb_in" in str(e.args[0]) and v is not None and e.res in set(subterms(v)) and str(e.extra["nargs"][1]) == blk for e in en.events() if e.kind == "call" and last(e) in ("get", "index"))
            R.ob("report", "the instructions of a block are checked from its entry state", ok, b.where(), "%s for block %s" % (str(v)[:80], blk[:60]))
    R.floor("checked blocks", len(roots), 1)
    # every failing test is collected, and the result is Ok only when there is none
    acc = set()
    for kind, s, v in paths:
        if kind == "back" and v in innermost:
            for e in s.events():
                if e.kind == "call" and e.extra and target(e.extra["f"]) == ck and I.decide(s, mkeq(I.discr(s, e.res, None), mkint(1, "isize"), "isize")) is not False:
                    got = [g for g in s.events() if g.kind == "call" and last(g) in ("push", "extend", "insert") and len(g.args) == 2 and e.res in set(subterms(g.args[1]))]
                    acc |= {g.args[0] for g in got}
                    R.ob("report", "every failing test is collected", len(got) == 1, site(e), "")
        if kind == "ret":
            emp = [(t, x) for t, x in s.facts.items() if t.op == "eq" and "len" in str(t) and t.args[1].op == "int"]
            e0 = any(t.args[1].args[0] == 0 and x is True for t, x in emp) or any("is_empty" in str(t) and x is True for t, x in s.facts.items())
            n0 = any(t.args[1].args[0] == 0 and x is False for t, x in emp) or any("is_empty" in str(t) and x is False for t, x in s.facts.items())
            R.ob("report", "the result is an error exactly when an error was collected", (isok(v) and e0) or (iserr(v) and n0), b.where(), "%s under %s" % (str(v)[:60], [(str(t)[:40], x) for t, x in emp]))
    R.ob("report", "one list collects the errors", len(acc) == 1, b.where(), str(acc))
    r = S.fn("Checker::run")
    fe, an = b.u, S.fn("Checker::analyze").u
    I2, p2 = explore(db, r, noinline=lambda x: x.u in (fe, an))
    R.saw(I2)
    for kind, s, v in p2:
        if kind != "ret":
            continue
        seq = [target(e.extra["f"]) for e in s.events() if e.kind == "call" and e.extra and target(e.extra["f"]) in (fe, an)]
        res = [e.res for e in s.events() if e.kind == "call" and e.extra and target(e.extra["f"]) == fe]
        same = bool(res) and (v is res[0] or (iserr(v) and res[0] in set(subterms(v))) or (isok(v) and I2.decide(s, mkeq(I2.discr(s, res[0], None), mkint(0, "isize"), "isize")) is True))
        R.ob("report", "the analysis runs before the errors are collected, and they are what is returned", seq == [an, fe] and same, r.where(), str(v)[:100])


# ------------------------------------------------------------------ inputs
def inputs(C):
    S, R, db = C.S, C.R, C.db
    b = S.fn("Checker::prepare")
    bie = S.fn("Output::block_insts_and_edits").u
    I, paths = explore(db, b, noinline=lambda x: x.u == bie or x.name == "next" and not is_closure(x))
    R.saw(I)
    R.paths += len(paths)
    V = S.variants("CheckerInst")
    names = {v: [f[0] for f in db.adts[S.adt("CheckerInst")]["variants"][i]["fields"]] for i, v in enumerate(V)}
    got = {v: 0 for v in V}
    ie = S.variants("InstOrEdit")
    for kind, s, v in paths:
        evs = s.events()
        calls = [e for e in evs if e.kind == "call" and e.extra]
        for e in calls:
            if last(e) != "push":
                continue
            x = e.args[-1]
            if x.op == "ref":
                x = I.load(s, x)
            if not (x.op == "agg" and x.args[0].endswith("CheckerInst")):
                continue
            var = V[x.args[1]]
            got[var] += 1
            f = dict(zip(names[var], x.args[2:]))
            where = str(e.args[0]) + str([str(a) for g in calls if g.res is not None and g.res in set(subterms(e.args[0])) for a in list(g.args) + list(g.extra["nargs"])])
            if var == "Op":
                inst = str(f["inst"])
                ok = all_of(f["operands"], "inst_operands", inst) and all_of(f["allocs"], None, inst) and all_of(f["clobbers"], "inst_clobbers", inst)
                R.ob("input", "an instruction enters with its operands, allocations and clobbers", ok, site(e), str(x)[:300])
                R.ob("input", "an instruction enters its own block", "bb_insts" in where, site(e), where[:120])
            elif var == "Move":
                ft, tt = str(f["from"]), str(f["into"])
                mvv = [i for i, n in enumerate([q[0] for q in db.adts[S.adt("Edit")]["variants"][0]["fields"]])]
                en = [q[0] for q in db.adts[S.adt("Edit")]["variants"][0]["fields"]]
                ok = ft.endswith(".as0.%d" % en.index("from")) and tt.endswith(".as0.%d" % en.index("to"))
                R.ob("input", "a move edit enters with its source and destination", ok and "bb_insts" in where, site(e), "%s <- %s" % (tt[-40:], ft[-40:]))
            else:
                m = str(f["moves"])
                ok = "zip" in m and m.find("block_params") < m.find("branch_blockparams") and m.find("block_params") >= 0 and not any(w in m for w in ("skip", "take", "filter", "rev"))
                idx = [g for g in calls if last(g) == "branch_blockparams"]
                R.ob("input", "a branch renames each parameter from its argument", ok or "push" in m, site(e), m[:200])
                R.ob("input", "the renaming sits on its own edge", "edge_insts" in where and "block_succs" in where, site(e), where[:150])
                for g in idx[-1:]:
                    k = g.args[3] if len(g.args) > 3 else None
                    su = [h for h in calls if last(h) == "block_params"][-1:]
                    same = bool(su) and k is not None and {y for y in subterms(k) if y.op == "any"} == {y for y in subterms(su[0].args[-1]) if y.op == "any"} - {y for y in subterms(g.args[1]) if y.op == "any"}
                    R.ob("input", "arguments and parameters belong to the same successor", same, site(g), "%s / %s" % (k, su[0].args[-1] if su else None))
    for v, n in got.items():
        R.floor("%s instructions built" % v, n, 1)
    # every branch successor with arguments gets a renaming; every item of the block enters
    for kind, s, v in paths:
        if kind != "back":
            continue
        calls = [e for e in s.events() if e.kind == "call" and e.extra and v in e.loops]
        nx = [e for e in calls if last(e) == "next"]
        bp = [e for e in calls if last(e) == "branch_blockparams" and e.loops[-1] == v]
        if bp:
            pushed = [e for e in calls if last(e) == "push" and "CheckerInst#%d" % V.index("ParallelMove") in str(e.args[-1]) + str(I.load(s, e.args[-1]) if e.args[-1].op == "ref" else "")]
            empty = any("len" in str(t) and "branch_blockparams" in str(t) or "is_empty" in str(t) and "branch_blockparams" in str(t) or ("len" in str(t) and "block_params" in str(t))
                        for t, x in s.facts.items() if zero_fact(t, x))
            R.ob("input", "a branch with arguments renames the parameters of each successor", bool(pushed) or empty, b.where(), "no renaming under %s" % [(str(t)[:90], x) for t, x in list(s.facts.items())[-4:]])
    bl = {v for kind, s, v in paths if kind == "back" and any(e.kind == "call" and last(e) == "branch_blockparams" and e.loops and e.loops[-1] == v for e in s.events())}
    for kind, s, v in paths:
        if kind == "back" and v not in bl and any(e.kind == "call" and last(e) == "push" and "CheckerInst#%d" % V.index("Op") in str(e.args[-1]) for e in s.events()):
            br = [x for t, x in s.facts.items() if t.op == "call" and str(t.args[0]).split("::")[-1] == "is_branch"]
            ok = br == [False] or any(t.op == "done" and k in str(t) for t in s.facts for k in bl)
            R.ob("input", "the edges of every branch are visited", ok, b.where(), "the edges are skipped under %s" % [(str(t)[:90], x) for t, x in list(s.facts.items())[-4:]])
        for e in s.events():
            if kind == "back" and v in bl and e.kind == "call" and last(e) in ("branch_blockparams", "block_params"):
                R.ob("input", "no edge is skipped", not any(partial(a) for a in e.args), site(e), "")
    items = [(s, v) for kind, s, v in paths if kind == "back" and any(last(e) == "next" and e.loops and e.loops[-1] == v for e in s.events() if e.kind == "call")]
    for s, v in items:
        pushed = [e for e in s.events() if e.kind == "call" and last(e) == "push" and v in e.loops and "CheckerInst" in str(e.args[-1])]
        R.ob("input", "every instruction and edit enters the checker", bool(pushed), b.where(), "an item is dropped under %s" % [(str(t)[:90], x) for t, x in list(s.facts.items())[-4:]])
    R.floor("items entered", len(items), 2)
    # construction
    b = S.fn("Checker::new")
    I, paths = explore(db, b)
    R.saw(I)
    R.paths += len(paths)
    cf = [f[0] for f in db.adts["checker::Checker"]["variants"][0]["fields"]]
    addl = 0
    for kind, s, v in paths:
        for e in s.events():
            pass
        if kind == "back":
            if any("fixed_stack_slots" in str(t) for r, t in list(s.mem.items()) if isinstance(t, T)) or any("fixed_stack_slots" in str(t) for t in s.facts):
                addl += 1
        if kind == "ret" and v.op == "agg":
            sp = v.args[2 + cf.index("stack_pregs")]
            ok = sp.op in ("phi", "hv", "agg", "call") and str(sp) != "PRegSet#0(0, 0, 0, 0)" and not all(x.op == "int" for x in sp.args[2:] if isinstance(x, T)) if sp.op == "agg" else True
            R.ob("input", "the checker knows the fixed stack locations", ok and addl_ok(db, b, s, sp, paths, I), b.where(), str(sp)[:150])


def addl_ok(db, b, s, sp, paths, I):
    txt = str(sp)
    if "fixed_stack_slots" in txt:
        return True
    for k, s2, v in paths:
        if k == "back":
            for root, t in s2.mem.items():
                if isinstance(t, T) and "fixed_stack_slots[any]" in str(t) and ("BitOr" in str(t) or "Shl" in str(t)) and not partial(t):
                    return True
    return False


def zero_fact(t, x):
    if t.op == "eq" and t.args[1].op == "int" and t.args[1].args[0] == 0:
        return x is True
    if t.op == "lt":
        return x is False
    return x is True and "is_empty" in str(t)


def all_of(t, fn, inst):
    """t is the whole list fn(.., inst)"""
    s = str(t)
    if inst not in s or (fn and fn not in s):
        return False
    return not any(x.op == "seq" and x.args[0] in ("filter", "skip", "take", "rev", "step_by", "filter_map", "take_while", "skip_while") for x in subterms(t))
