"""C01: constructor -> accessor compositions of the packed value types, decided in the bit-provenance domain."""
from sem import *
import models

TECHNIQUE = ("abstract interpretation of the constructors and accessors over MIR in a bit-provenance domain (every result bit is 0, 1 or "
             "'bit i of input x'); each accessor applied to each constructor's abstract result must be the constructed component")
LEVEL = "other"


def run(R, tier):
    R.rule("round-trip", "for every constructor C and accessor A of a packed type: A(C(x1..xn)) is the component xi, for all inputs in the documented range")
    R.rule("constructor-table", "each convenience constructor of Operand yields the constraint, kind and position its name documents")
    R.rule("equality", "two packed values compare equal exactly when their raw bits are equal")
    R.rule("no-panic", "with debug assertions compiled in, no assertion can fail for components in the documented range")
    body(R, "main", True)
    body(R, "debug", False)
    R.floor("obligations", len(R.obl), 700)
    R.assumptions += ["documented ranges: 64 registers per class, 2^21 virtual registers, 2^24 spill slots, 32 reusable operand indices, "
                      "limits that are powers of two up to 64, 2^30 instructions (a program point keeps the position in the low bit and shifts arithmetically)",
                      "rustc's MIR and the exported constants are faithful to the source"]


def body(R, config, vals):
    S = Sem(config, R)
    fn = S.fn

    def ev(spec, args, st=None, what=""):
        I, r, p = S.call(spec, args, st)
        p = [e for e in p if not e.name.startswith("assert:")]
        if not vals:
            R.ob("no-panic", "%s(%s)" % (spec, what), not p and r, site(p[0]) if p else "",
                 "reachable with in-range components: %s under %s" % (p[0] if p else "no normal return", facts(p[0]) if p else ""))
        return I, r

    def facts(e):
        return ", ".join("%s=%s" % kv for kv in list(e.facts.items())[:4])

    def want(rule, inst, I, r, exp, spec):
        if not vals:
            return
        bad = None
        if not r:
            bad = "the function never returns"
        for st, v in r:
            if callable(exp):
                ok = exp(I, st, v)
            else:
                ok = I.decide(st, models.veq(I, st, v, exp)) is True
            if not ok:
                bad = "returns %s%s, expected %s" % (v, (" when " + ", ".join("%s=%s" % kv for kv in list(st.facts.items())[:4])) if st.facts else "",
                                                   "otherwise" if callable(exp) else exp)
                break
        R.ob(rule, inst, bad is None, "%s %s" % (fn(spec).path if isinstance(spec, str) else spec.path, fn(spec).span[:2] if isinstance(spec, str) else ""), bad or "")

    def single(I, r, inst):
        """the single result of a constructor"""
        if len(r) != 1:
            if vals:
                R.ob("round-trip", inst + " is one expression of its inputs", False, "", "%d different results: %s" % (len(r), [str(v) for _, v in r[:3]]))
            return None
        return r[0]

    RC = S.variants("RegClass")
    classes = [S.variant("RegClass", n) for n in ("Int", "Float", "Vector")]
    OPT = models.OPT
    # ---- PReg
    pregs = []
    inv = getinv(S, "PReg")
    for c, cn in zip(classes, ("Int", "Float", "Vector")):
        hw = sym("hw", "usize", 6)
        I, r = ev("PReg::new", [hw, c], what=cn)
        x = single(I, r, "PReg::new(%s)" % cn)
        if not x:
            continue
        st, p = x
        pregs.append((cn, c, hw, st, p))
        I, r = ev("PReg::hw_enc", [p], st, cn)
        want("round-trip", "PReg::new(hw,%s).hw_enc() == hw" % cn, I, r, hw, "PReg::hw_enc")
        I, r = ev("PReg::class", [p], st, cn)
        want("round-trip", "PReg::new(hw,%s).class() == %s" % (cn, cn), I, r, c, "PReg::class")
        I, r = ev("PReg::index", [p], st, cn)
        ix = single(I, r, "PReg::index")
        if ix:
            I, r = ev("PReg::from_index", [ix[1]], ix[0], cn)
            want("round-trip", "PReg::from_index(p.index()) == p, class %s" % cn, I, r, p, "PReg::from_index")
        I, r = ev("PReg::as_valid", [p], st, cn)
        want("round-trip", "PReg::new(hw,%s).as_valid() is Some(p) unless p is invalid()" % cn, I, r,
             lambda I, s, v: v.op == "agg" and ((v.args[1] == 1 and v.args[2] is p) or
                                                (v.args[1] == 0 and inv is not None and I.decide(s, models.veq(I, s, p, inv)) is True)), "PReg::as_valid")
        if cn == "Int":
            for k in (0, 1, 62):
                I, r = ev("PReg::new", [mkint(k, "usize"), c], what="%s %d" % (cn, k))
                x2 = single(I, r, "PReg::new(%d)" % k)
                if x2:
                    I, r = ev("PReg::as_valid", [x2[1]], x2[0], "%d" % k)
                    want("round-trip", "PReg::new(%d,Int).as_valid() == Some" % k, I, r, models.some(x2[1]), "PReg::as_valid")
    I, r = ev("PReg::invalid", [])
    x = single(I, r, "PReg::invalid")
    if x:
        I, r = ev("PReg::as_valid", [x[1]], x[0])
        want("round-trip", "PReg::invalid().as_valid() == None", I, r, models.NONE, "PReg::as_valid")

    # ---- VReg
    vregs = []
    v = sym("v", "usize", 21)
    for c, cn in zip(classes, ("Int", "Float", "Vector")):
        I, r = ev("VReg::new", [v, c], what=cn)
        x = single(I, r, "VReg::new(%s)" % cn)
        if not x:
            continue
        st, vr = x
        vregs.append((cn, c, st, vr))
        I, r = ev("VReg::vreg", [vr], st, cn)
        want("round-trip", "VReg::new(v,%s).vreg() == v" % cn, I, r, v, "VReg::vreg")
        I, r = ev("VReg::class", [vr], st, cn)
        want("round-trip", "VReg::new(v,%s).class() == %s" % (cn, cn), I, r, c, "VReg::class")
        I, r = ev("VReg::bits", [vr], st, cn)
        b = single(I, r, "VReg::bits")
        if b:
            I, r = ev("VReg::from_bits", [mkcast(b[1], "usize", "u32")], b[0], cn)
            want("round-trip", "VReg::from_bits(v.bits()) == v, class %s" % cn, I, r, vr, "VReg::from_bits")
            I, r = ev("VReg:From:from", [mkcast(b[1], "usize", "u32")], b[0], cn)
            want("round-trip", "VReg::from(v.bits() as u32) == v, class %s" % cn, I, r, vr, "VReg:From:from")

    # ---- SpillSlot
    s = sym("s", "usize", 24)
    I, r = ev("SpillSlot::new", [s])
    x = single(I, r, "SpillSlot::new")
    ss = None
    if x:
        st, ss = x
        I, r = ev("SpillSlot::index", [ss], st)
        want("round-trip", "SpillSlot::new(s).index() == s", I, r, s, "SpillSlot::index")
        I, r = ev("SpillSlot::is_valid", [ss], st)
        want("round-trip", "SpillSlot::new(s).is_valid()", I, r, TRUE, "SpillSlot::is_valid")
        I, r = ev("SpillSlot::is_invalid", [ss], st)
        want("round-trip", "!SpillSlot::new(s).is_invalid()", I, r, FALSE, "SpillSlot::is_invalid")
        if vals:
            o = sym("off", "usize", 24)
            I, r = ev("SpillSlot::plus", [ss, o], st)
            pl = single(I, r, "SpillSlot::plus")
            if pl:
                I, r2 = ev("SpillSlot::index", [pl[1]], pl[0])
                e = frombits(bits(mkcast(mkbin("Add", s, o, "usize"), "usize", "u32"), "u32")[:24] + (0,) * 40, "usize")
                want("round-trip", "SpillSlot::new(s).plus(k).index() == s + k (low 24 bits)", I, r2, e, "SpillSlot::plus")
    I, r = ev("SpillSlot::invalid", [])
    x = single(I, r, "SpillSlot::invalid")
    if x:
        I, r = ev("SpillSlot::is_invalid", [x[1]], x[0])
        want("round-trip", "SpillSlot::invalid().is_invalid()", I, r, TRUE, "SpillSlot::is_invalid")
        I, r = ev("SpillSlot::is_valid", [x[1]], x[0])
        want("round-trip", "!SpillSlot::invalid().is_valid()", I, r, FALSE, "SpillSlot::is_valid")

    # ---- Allocation
    def alloc_ob(name, st, a, kind, reg, slot):
        I, r = ev("Allocation::kind", [a], st, name)
        want("round-trip", "%s.kind() == %s" % (name, kind), I, r, S.variant("AllocationKind", kind), "Allocation::kind")
        for q, yes in (("is_none", kind == "None"), ("is_some", kind != "None"), ("is_reg", kind == "Reg"), ("is_stack", kind == "Stack")):
            I, r = ev("Allocation::" + q, [a], st, name)
            want("round-trip", "%s.%s() == %s" % (name, q, yes), I, r, mkbool(yes), "Allocation::" + q)
        I, r = ev("Allocation::as_reg", [a], st, name)
        want("round-trip", "%s.as_reg()" % name, I, r, models.some(reg) if reg is not None else models.NONE, "Allocation::as_reg")
        I, r = ev("Allocation::as_stack", [a], st, name)
        want("round-trip", "%s.as_stack()" % name, I, r, models.some(slot) if slot is not None else models.NONE, "Allocation::as_stack")
        I, r = ev("Allocation::bits", [a], st, name)
        b = single(I, r, "Allocation::bits")
        if b:
            I, r = ev("Allocation::from_bits", [b[1]], b[0], name)
            want("round-trip", "Allocation::from_bits(a.bits()) == a for %s" % name, I, r, a, "Allocation::from_bits")

    def alloc_ix(name, st, a, exp):
        I, r = ev("Allocation::index", [a], st, name)
        want("round-trip", "%s.index()" % name, I, r, exp, "Allocation::index")

    I, r = ev("Allocation::none", [])
    x = single(I, r, "Allocation::none")
    if x:
        alloc_ob("Allocation::none()", x[0], x[1], "None", None, None)
    for cn, c, hw, st, p in pregs:
        I, r = ev("Allocation::reg", [p], st, cn)
        x = single(I, r, "Allocation::reg(%s)" % cn)
        if x:
            alloc_ob("Allocation::reg(%s)" % cn, x[0], x[1], "Reg", p, None)
            Ii, ri, _ = S.call("PReg::index", [p], st)
            alloc_ix("Allocation::reg(%s)" % cn, x[0], x[1], ri[0][1])
    if ss is not None:
        I, r = ev("Allocation::stack", [ss])
        x = single(I, r, "Allocation::stack")
        if x:
            alloc_ob("Allocation::stack", x[0], x[1], "Stack", None, ss)
            alloc_ix("Allocation::stack", x[0], x[1], s)

    # ---- Operand
    kinds = [S.variant("OperandKind", n) for n in ("Def", "Use")]
    poss = [S.variant("OperandPos", n) for n in ("Early", "Late")]
    oc = lambda n, *f: S.variant("OperandConstraint", n, *f)
    idx = sym("idx", "usize", 5)
    for (cn, c, st0, vr) in vregs:
        pr = [p for n, _, _, _, p in pregs if n == cn]
        cons = [("Any", oc("Any")), ("Reg", oc("Reg")), ("Stack", oc("Stack")), ("Reuse", oc("Reuse", idx))]
        cons += [("FixedReg", oc("FixedReg", p)) for p in pr]
        cons += [("Limit(%d)" % (1 << k), oc("Limit", mkint(1 << k, "usize"))) for k in range(7)]
        for con, ct in cons:
            for kd in kinds:
                for po in poss:
                    nm = "Operand::new(%s vreg, %s, %s, %s)" % (cn, con, S.variants("OperandKind")[kd.args[1]], S.variants("OperandPos")[po.args[1]])
                    I, r = ev("Operand::new", [vr, ct, kd, po], st0, nm)
                    x = single(I, r, nm)
                    if not x:
                        continue
                    operand_ob(S, R, ev, want, single, nm, x[0], x[1], vr, c, ct, kd, po)
        # convenience constructors
        p = pr[0] if pr else None
        if p is None:
            continue
        D, U = kinds
        E, L = poss
        table = [("reg_use", [vr], oc("Reg"), U, E), ("reg_use_at_end", [vr], oc("Reg"), U, L), ("reg_def", [vr], oc("Reg"), D, L),
                 ("reg_def_at_start", [vr], oc("Reg"), D, E), ("reg_temp", [vr], oc("Reg"), D, E), ("reg_reuse_def", [vr, idx], oc("Reuse", idx), D, L),
                 ("reg_fixed_use", [vr, p], oc("FixedReg", p), U, E), ("reg_fixed_def", [vr, p], oc("FixedReg", p), D, L),
                 ("reg_fixed_use_at_end", [vr, p], oc("FixedReg", p), U, L), ("reg_fixed_def_at_start", [vr, p], oc("FixedReg", p), D, E),
                 ("any_use", [vr], oc("Any"), U, E), ("any_def", [vr], oc("Any"), D, L)]
        for n, a, ct, kd, po in table:
            nm = "Operand::%s(%s)" % (n, cn)
            I, r = ev("Operand::" + n, a, st0, nm)
            x = single(I, r, nm)
            if x:
                operand_ob(S, R, ev, want, single, nm, x[0], x[1], vr, c, ct, kd, po, "constructor-table", brief=True)
        nm = "Operand::fixed_nonallocatable(%s)" % cn
        I, r = ev("Operand::fixed_nonallocatable", [p], st0, nm)
        x = single(I, r, nm)
        if x:
            I, r = ev("Operand::as_fixed_nonallocatable", [x[1]], x[0], nm)
            want("constructor-table", nm + ".as_fixed_nonallocatable() == Some(p)", I, r, models.some(p), "Operand::as_fixed_nonallocatable")
            I, r = ev("Operand::constraint", [x[1]], x[0], nm)
            want("constructor-table", nm + ".constraint() == FixedReg(p)", I, r, oc("FixedReg", p), "Operand::constraint")
            I, r = ev("Operand::class", [x[1]], x[0], nm)
            want("constructor-table", nm + ".class()", I, r, c, "Operand::class")
        # only the marker vreg makes a fixed operand non-allocatable
        for k in (0, 1, (1 << 20), (1 << 21) - 2):
            I, r = ev("VReg::new", [mkint(k, "usize"), c], what="const")
            xv = single(I, r, "VReg::new(const)")
            if not xv:
                continue
            for con, ct in (("FixedReg", oc("FixedReg", p)), ("Reg", oc("Reg"))):
                I, r = ev("Operand::new", [xv[1], ct, U, E], xv[0], "const")
                xo = single(I, r, "Operand::new(const)")
                if xo:
                    I, r = ev("Operand::as_fixed_nonallocatable", [xo[1]], xo[0], "const")
                    want("round-trip", "Operand::new(v%d, %s).as_fixed_nonallocatable() == None, class %s" % (k, con, cn), I, r, models.NONE, "Operand::as_fixed_nonallocatable")

    # ---- ProgPoint and index types
    ins = sym("inst", "usize", 30)
    for an in ("Inst", "Block"):
        i2 = sym("i_" + an, "usize", 31)
        I, r = ev("%s::new" % an, [i2])
        x = single(I, r, an + "::new")
        if x:
            I, r = ev("%s::index" % an, [x[1]], x[0])
            want("round-trip", "%s::new(i).index() == i" % an, I, r, i2, "%s::index" % an)
            I, r = ev("%s::is_valid" % an, [x[1]], x[0])
            want("round-trip", "%s::new(i).is_valid()" % an, I, r, TRUE, "%s::is_valid" % an)
            I, r = ev("%s::is_invalid" % an, [x[1]], x[0])
            want("round-trip", "!%s::new(i).is_invalid()" % an, I, r, FALSE, "%s::is_invalid" % an)
        I, r = ev("%s::invalid" % an, [])
        y = single(I, r, an + "::invalid")
        if y:
            I, r = ev("%s::is_invalid" % an, [y[1]], y[0])
            want("round-trip", "%s::invalid().is_invalid()" % an, I, r, TRUE, "%s::is_invalid" % an)
            I, r = ev("%s::is_valid" % an, [y[1]], y[0])
            want("round-trip", "!%s::invalid().is_valid()" % an, I, r, FALSE, "%s::is_valid" % an)
    I, r = ev("Inst::new", [ins])
    x = single(I, r, "Inst::new")
    if x:
        st, it = x
        for pn in ("Before", "After"):
            pv = S.variant("InstPosition", pn)
            for how in ("new", pn.lower()):
                nm = "ProgPoint::%s(inst%s)" % (how, ", " + pn if how == "new" else "")
                I, r = ev("ProgPoint::" + how, [it, pv] if how == "new" else [it], st, pn)
                pp = single(I, r, nm)
                if not pp:
                    continue
                I, r = ev("ProgPoint::inst", [pp[1]], pp[0], nm)
                want("round-trip", nm + ".inst() == inst", I, r, it, "ProgPoint::inst")
                I, r = ev("ProgPoint::pos", [pp[1]], pp[0], nm)
                want("round-trip", nm + ".pos() == " + pn, I, r, pv, "ProgPoint::pos")
                I, r = ev("ProgPoint::to_index", [pp[1]], pp[0], nm)
                k = single(I, r, "ProgPoint::to_index")
                if k:
                    I, r = ev("ProgPoint::from_index", [k[1]], k[0], nm)
                    want("round-trip", "ProgPoint::from_index(p.to_index()) == p for " + nm, I, r, pp[1], "ProgPoint::from_index")

    # ---- equality of packed values is equality of bits
    if vals:
        for ty in ("PReg", "VReg", "SpillSlot", "Operand", "Allocation", "ProgPoint", "Inst", "Block"):
            db = S.db
            p = S.adt(ty)
            im = [i for i in db.impls if i["trait"].split("::")[-1] == "PartialEq" and db.types[i["self"]].get("path") == p]
            if not im:
                R.ob("equality", ty + " implements PartialEq", False, "", "no impl of PartialEq")
                continue
            fs = db.adts[p]["variants"][0]["fields"]
            a, b = T("sym", "a"), T("sym", "b")
            for x in (a, b):
                for i, f in enumerate(fs):
                    settype(T("fld", x, f[0]), S.db.types[f[1]].get("n") or "u32")
            if im[0]["derived"]:
                R.ob("equality", ty + ": derived, over %d field(s)" % len(fs), True)
            else:
                I, r, _ = S.call(ty + ":PartialEq:eq", [a, b])
                e = mkand(*[mkeq(T("fld", a, f[0]), T("fld", b, f[0])) for f in fs])
                ok = all(v in (TRUE, FALSE, e) and (v is e or I.decide(s, e) == bool(v.args[0])) for s, v in r) and r
                R.ob("equality", ty + ": hand-written eq is bit equality", ok, "", str([str(v) for _, v in r][:4]))


def getinv(S, ty):
    I, r, _ = S.call(ty + "::invalid", [])
    return r[0][1] if len(r) == 1 else None


def operand_ob(S, R, ev, want, single, nm, st, op, vr, c, ct, kd, po, rule="round-trip", brief=False):
    I, r = ev("Operand::vreg", [op], st, nm)
    want(rule, nm + ".vreg()", I, r, vr, "Operand::vreg")
    I, r = ev("Operand::class", [op], st, nm)
    want(rule, nm + ".class()", I, r, c, "Operand::class")
    I, r = ev("Operand::kind", [op], st, nm)
    want(rule, nm + ".kind()", I, r, kd, "Operand::kind")
    I, r = ev("Operand::pos", [op], st, nm)
    want(rule, nm + ".pos()", I, r, po, "Operand::pos")
    I, r = ev("Operand::constraint", [op], st, nm)
    want(rule, nm + ".constraint()", I, r, ct, "Operand::constraint")
    if brief:
        return
    I, r = ev("Operand::bits", [op], st, nm)
    b = single(I, r, "Operand::bits")
    if b:
        I, r = ev("Operand::from_bits", [b[1]], b[0], nm)
        want(rule, "Operand::from_bits(o.bits()) == o for " + nm, I, r, op, "Operand::from_bits")
