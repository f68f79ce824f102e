"""C03: merging location requirements."""
from sem import *
from orders import *
from query import Q
import models, itertools

TECHNIQUE = ("abstract interpretation of the requirement lattice over MIR: the merge function is decided on every pair of variants and every relative order "
             "of their payloads, constraint translation on every constraint kind, and the per-bundle folds by an every-iteration dataflow rule")
LEVEL = "other"


def run(R, tier):
    S = Sem("main", R)
    db = S.db
    R.rule("merge-table", "merge yields the requirement that accepts exactly the common locations, or a conflict, for each pair of variants and each order of their payloads")
    R.rule("translate", "each operand constraint becomes the requirement accepting exactly the same locations; a fixed register declared as stack becomes a fixed stack requirement")
    R.rule("fold", "the requirement of a bundle is Any merged with the translated constraint of every use of every range, and a failed merge is returned as a conflict")
    R.rule("fold-two", "combining two bundles merges both their requirements and reports a conflict if either has one")
    RQ = S.adt("Requirement")
    V = lambda n, *a: S.variant("Requirement", n, *a)
    for n in ("Any", "Register", "FixedReg", "Limit", "Stack", "FixedStack"):
        V(n)
    R.floor("requirement variants", len(S.variants("Requirement")), 6)
    if len(S.variants("Requirement")) != 6:
        R.violation("new requirement variant", S.adt("Requirement"), "the merge table specified here covers 6 variants: %s" % S.variants("Requirement"))
    RES = "core::result::Result"
    ok = lambda x: T("agg", RES, 0, x)
    classes = S.variants("RegClass")
    hw = {s: sym("hw" + s, "usize", 6) for s in "ab"}
    lim = {s: sym("n" + s, "usize") for s in "ab"}

    def preg(s, c):
        I, r, p = S.call("PReg::new", [hw[s], S.variant("RegClass", c)])
        if len(r) != 1:
            raise MissingAnchor("PReg::new has %d outcomes" % len(r))
        return r[0][1]
    pr = {(s, c): preg(s, c) for s in "ab" for c in classes}

    def instances(s):
        yield "Any", V("Any"), None
        yield "Register", V("Register"), None
        yield "Stack", V("Stack"), None
        yield "Limit", V("Limit", lim[s]), lim[s]
        for c in classes[:2]:
            yield "FixedReg." + c, V("FixedReg", pr[s, c]), hw[s]
            yield "FixedStack." + c, V("FixedStack", pr[s, c]), hw[s]

    def spec(ka, a, pa, kb, b, pb, rank):
        A, B = ka.split(".")[0], kb.split(".")[0]
        if A == "Any":
            return b
        if B == "Any":
            return a
        if A == B == "Limit":
            return a if rank[pa] <= rank[pb] else b
        if A == B and A in ("FixedReg", "FixedStack"):
            return a if ka == kb and rank[pa] == rank[pb] else None
        if A == B:
            return a
        for (X, x, px), (Y, y, py) in (((A, a, pa), (B, b, pb)), ((B, b, pb), (A, a, pa))):
            if X == "Register" and Y in ("FixedReg", "Limit"):
                return y
            if X == "Stack" and Y == "FixedStack":
                return y
            if X == "Limit" and Y == "FixedReg":
                return y if rank[px] > rank[py] else None
        return None
    mb = S.fn("Requirement::merge")
    n = 0
    for ka, a, pa in instances("a"):
        for kb, b, pb in instances("b"):
            vs = [x for x in (pa, pb) if x is not None]
            for rank in weak_orders(vs):
                n += 1
                I, res, p = S.call(mb, [a, b], oracle=rank_oracle(rank))
                e = spec(ka, a, pa, kb, b, pb, rank)
                good = bool(res) and not p
                for st, v in res:
                    if e is None:
                        good &= v.op == "agg" and v.args[:2] == (RES, 1)
                    else:
                        # equal payloads may be taken from either side
                        alts = [e] + ([b] if e is a and ka == kb else [])
                        if not (v.op == "agg" and v.args[:2] == (RES, 0)):
                            good = False
                        else:
                            good &= any(I.decide(st, models.veq(I, st, v.args[2], x)) is True for x in alts)
                R.ob("merge-table", "%s with %s, order %s" % (ka, kb, [rank[x] for x in vs]), good, mb.where(),
                     "returns %s, expected %s" % ([str(v) for _, v in res], "a conflict" if e is None else e))
    R.floor("merge cases decided", n, 100)
    for f, yes in (("is_stack", ("Stack", "FixedStack")), ("is_reg", ("Register", "FixedReg", "Limit"))):
        if not db.find(f, "Requirement"):
            continue
        for k, a, _ in instances("a"):
            I, res, p = S.call("Requirement::" + f, [a])
            want = mkbool(k.split(".")[0] in yes)
            R.ob("merge-table", "%s.%s()" % (k, f), [v for _, v in res] == [want], S.fn("Requirement::" + f).where(), str([str(v) for _, v in res]))

    # ---- constraint -> requirement
    tb = S.fn("Env::requirement_from_operand")
    OC = lambda n_, *a: S.variant("OperandConstraint", n_, *a)
    fixed = pr["a", classes[0]]
    k = sym("k", "usize", 5)
    cases = [("Any", OC("Any"), lambda s: V("Any")), ("Reg", OC("Reg"), lambda s: V("Register")), ("Stack", OC("Stack"), lambda s: V("Stack")),
             ("Reuse", OC("Reuse", k), lambda s: V("Register")),
             ("FixedReg", OC("FixedReg", fixed), lambda s: V("FixedStack" if s else "FixedReg", fixed))]
    m = sym("m", "u8", 3)
    vreg = S.call("VReg::new", [sym("vr", "usize", 21), S.variant("RegClass", classes[0])])[1][0][1]
    b1 = S.fn("Operand::new")
    n = 0
    lims = [("Limit", OC("Limit", mkint(1 << i, "usize")), (lambda i: lambda s: V("Limit", mkint(1 << i, "usize")))(i)) for i in (0, 1, 3, 6)]
    for name, c, want in cases + lims:
        for kind in S.variants("OperandKind"):
            for pos in S.variants("OperandPos"):
                I, res, p = S.call(b1, [vreg, c, S.variant("OperandKind", kind), S.variant("OperandPos", pos)])
                if len(res) != 1:
                    R.ob("translate", "Operand::new with %s" % name, False, b1.where(), "%d outcomes" % len(res))
                    continue
                op = res[0][1]
                for stack in (False, True):
                    if stack and name != "FixedReg":
                        continue
                    n += 1
                    seen = []

                    def orc(t, st):
                        return stack_fact(t, stack, fixed, I, seen)
                    env = sym("self", "Env")
                    I, res, p = S.call(tb, [T("sym", "self"), op], oracle=orc)
                    e = want(stack)
                    good = bool(res) and all(I.decide(st, models.veq(I, st, v, e)) is True for st, v in res)
                    R.ob("translate", "%s %s %s%s" % (name, kind, pos, " (register declared as stack)" if stack else ""), good, tb.where(),
                         "translates to %s, expected %s" % ([str(v) for _, v in res], e))
    R.floor("constraint translations", n, 36)

    # ---- the folds
    cb = S.fn("Env::compute_requirement")
    I = FoldInterp(db, opaque=["merge", "requirement_from_operand"])
    res = I.analyse(cb)
    R.saw(I)
    R.paths += len(res)
    W = cb.where()
    okret = [(st, v) for st, v in res if v.op == "agg" and v.args[:2] == (RES, 0)]
    errret = [(st, v) for st, v in res if v.op == "agg" and v.args[:2] == (RES, 1)]
    R.ob("fold", "every return is Ok(requirement) or a conflict", len(okret) + len(errret) == len(res) and okret and errret, W, str([str(v)[:200] for _, v in res][:4]))
    merges = [e for e in I.log if e.kind == "call" and e.name.endswith("::merge")]
    R.floor("merge sites in the fold", len({(e.body.u, e.bb) for e in merges}), 1)
    inner = {e.loops for e in merges}
    R.ob("fold", "uses are merged inside a loop over ranges and uses", len(inner) == 1 and len(list(inner)[0]) == 2, W, str(inner))
    loops = list(inner)[0] if inner else ()
    accs = set()
    for e in merges:
        acc, r = e.extra["nargs"][:2]
        if not (r.op == "call" and r.args[0].endswith("requirement_from_operand")):
            acc, r = r, acc
        okr = r.op == "call" and r.args[0].endswith("requirement_from_operand")
        R.ob("fold", "the merged requirement is the translation of the use's operand", okr, site(e), str(e)[:400])
        if okr:
            opnd = r.args[-1]
            el = [x for x in subterms(opnd) if x.op == "any"]
            good = opnd.op == "fld" and opnd.args[1] == "operand" and "uses" in str(opnd)
            R.ob("fold", "the operand is that of the use visited", good, site(e), str(opnd)[:300])
            tags = [x.args[0] for x in el]
            skipping = [t for t in tags if set(t) & {"skip", "take", "step_by"}]
            R.ob("fold", "no use and no range is skipped by the iteration", not skipping and len(el) >= 2, site(e), str(tags)[:300])
        accs.add(acc)
    # every iteration of the inner loop merges, exits only by exhaustion or by returning
    for key, backs, exits, head in I.loopinfo:
        if key in loops:
            inner_loop = key == loops[-1]
            if inner_loop:
                bad = [b for b in backs if not any(x.name.endswith("::merge") for x in b.events())]
                R.ob("fold", "every iteration over the uses merges", not bad and backs, W, "an iteration reaches the next one without merging")
            # loop exits: iterator exhausted, or a failed merge
            for b, s in exits:
                done = any(f.op == "done" and v for f, v in s.facts.items())
                failed = s_failed(s)
                R.ob("fold", "the loop %s ends only when all elements were visited or on a conflict" % ("over uses" if inner_loop else "over ranges"), done or failed, W, "another exit exists")
            # the accumulator: what merge is given is the loop-carried value, updated with the merge result
            for b in backs:
                for root, v in b.mem.items():
                    h = head.mem.get(root)
                    if h is not None and h in accs and inner_loop:
                        R.ob("fold", "the accumulated requirement becomes the result of the merge", v.op == "vf" and v.args[0].op in ("call", "res") and v.args[0].args[0].endswith("::merge") or v in accs and False, W, str(v)[:300])
    for st, v in okret:
        x = v.args[2]
        R.ob("fold", "success returns the accumulated requirement", x in accs or x is V("Any") or x.op == "phi" and x.args[0] in loops and x.args[1:] in {a.args[1:] for a in accs if a.op == "phi"}, W, str(x)[:300])
    init = [s for s in I.inits.get(loops[0] if loops else None, [])]
    for a in accs:
        R.ob("fold", "the accumulator is carried by the loops", a.op == "phi" and (not loops or a.args[0] in loops), W, str(a)[:200])
        for s in init:
            if a.op == "phi":
                v0 = s.mem.get(a.args[1])
                R.ob("fold", "the accumulator starts at Any", v0 is V("Any"), W, str(v0)[:200])
    # failing merges only produce errors
    for st, v in okret:
        R.ob("fold", "no success after a failed merge", not s_failed(st), W, "returns Ok although a merge failed")

    mb2 = S.fn("Env::merge_bundle_requirements")
    I = Interp(db, opaque=["merge", "compute_requirement"])
    sa, sb = T("sym", "a"), T("sym", "b")
    res = I.analyse(mb2, [T("sym", "self"), sa, sb])
    R.saw(I)
    oks = 0
    for st, v in res:
        if v.op == "agg" and v.args[:2] == (RES, 1):
            continue
        oks += 1
        good = v.op in ("call", "res") and v.args[0].endswith("::merge") or (v.op == "agg" and v.args[2].op == "vf" and v.args[2].args[0].args[0].endswith("::merge"))
        s = str(v)
        m_ = v if v.op != "agg" else v.args[2].args[0]
        srcs = set()
        if good:
            for x in m_.args[1:]:
                if isinstance(x, T) and x.op == "vf" and x.args[0].op in ("call", "res") and x.args[0].args[0].endswith("compute_requirement"):
                    srcs.add(x.args[0].args[-1])
        R.ob("fold-two", "the combined requirement merges the requirements of both bundles", good and srcs == {sa, sb}, mb2.where(), s[:400])
    R.ob("fold-two", "a success path exists", oks > 0, mb2.where(), "")
    flags(R, db)
    R.assumptions += ["the stack flag of a register in the environment's register table is is_stack (set from fixed_stack_slots)"]


def flags(R, db):
    """PRegData.is_stack is true exactly for the environment's fixed stack slots"""
    R.rule("stack-flag", "a register's stack flag is set for every fixed stack slot of the environment, and only there")
    q = Q(db)
    ws = q.field_writes("PRegData", "is_stack")
    fns = {}
    for b, bb, rv, sp in ws:
        if rv is not None and rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") == 0:
            continue
        fns[b.u] = b
    n = 0
    for b in fns.values():
        I = FoldInterp(db)
        I.analyse(b)
        R.saw(I)
        evs = [e for e in I.log if e.kind == "write" and e.args[0].op == "ref" and e.args[0].args[1] and e.args[0].args[1][-1][:1] == ("f",)
               and e.args[0].args[1][-1][2] == "is_stack"]
        for e in evs:
            n += 1
            idx = [p for p in e.args[0].args[1] if p[0] == "i"]
            src = [x for x in subterms(idx[-1][1]) if x.op == "idx"] if idx else []
            good = any(x.args[0].op == "fld" and x.args[0].args[1] == "fixed_stack_slots" for x in src) and e.args[1] is mkbool(True)
            R.ob("stack-flag", "the flag is set for the elements of fixed_stack_slots", good, site(e), str(e)[:300])
            tags = [x.args[0] for x in subterms(idx[-1][1]) if x.op == "any"] if idx else []
            R.ob("stack-flag", "no fixed stack slot is skipped", tags and not any(set(t) & {"skip", "take", "step_by"} for t in tags), site(e), str(tags))
            for key, backs, exits, head in I.loopinfo:
                if e.loops and key == e.loops[-1]:
                    R.ob("stack-flag", "the flag is set for every element visited", all(any(x.kind == "write" and x.span == e.span for x in s.events()) for s in backs), site(e), "")
                    R.ob("stack-flag", "all elements are visited", all(any(f.op == "done" and v for f, v in s.facts.items()) for _, s in exits), site(e), "")
    R.floor("writes that set the stack flag", n, 1)
    for b, bb, ops, var, sp in q.constructs("PRegData"):
        if b.derived:
            continue
        i = [f[0] for f in db.adts[[a for a in db.adts if a.endswith("::PRegData")][0]]["variants"][0]["fields"]].index("is_stack")
        o = ops[i]
        R.ob("stack-flag", "a new register entry starts with the flag clear (%s)" % b.name, o[0] == "k" and o[1].get("v") == 0, q.span(b, sp), str(o))


def stack_fact(t, stack, preg, I, seen):
    """the flag 'this register is a stack location', however it is looked up"""
    if t.op == "fld" and t.args[1] == "is_stack" or t.op == "contains" or (t.op == "call" and str(t.args[0]).split("::")[-1] in ("contains", "is_stack")):
        return stack
    return None


def s_failed(st):
    for f, v in st.facts.items():
        if f.op == "discr" and f.args[0].op in ("call", "res") and str(f.args[0].args[0]).endswith("::merge") and v == 1:
            return True
        if f.op == "eq" and f.args[0].op == "discr" and str(f.args[0].args[0].args[0]).endswith("::merge"):
            if f.args[1].op == "int" and bool(v) == (f.args[1].args[0] == 1):
                return True
    return False


class FoldInterp(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.loopinfo = []
        self.inits = {}

    def on_loop(self, fr, h, key, entry, head, backs, exits):
        if self.dry:
            return
        self.loopinfo.append((key, backs, exits, head))
        self.inits.setdefault(key, []).append(entry)
