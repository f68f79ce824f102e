"""C02: comparisons of program points, intervals and composite keys."""
from sem import *
from orders import *
import models

TECHNIQUE = ("abstract interpretation of the comparison functions over MIR; operands are touched only through comparisons, so every function is "
             "decided on each of the finitely many relative orders of its endpoints; packed keys are decided by bit provenance")
LEVEL = "other"


def mentions_only(t, vs):
    return True


def run(R, tier):
    S = Sem("main", R)
    db = S.db
    R.rule("interval-table", "each interval predicate returns, for every relative order of the endpoints of well-formed intervals, exactly what its definition says")
    R.rule("key-order", "a composite sort key is the concatenation of its documented components, most significant first, each complete")
    R.rule("point-step", "next and prev of a program point are the adjacent points and invert each other")
    R.rule("point-order", "program points compare by (instruction, before < after)")
    CR = S.adt("CodeRange")
    PP = S.adt("ProgPoint")
    LK = S.adt("LiveRangeKey")
    v = {n: sym(n, "u32") for n in ("a0", "a1", "b0", "b1", "p")}
    pp = lambda t: T("agg", PP, 0, t)
    f_idx = {f[0]: i for i, f in enumerate(db.adts[CR]["variants"][0]["fields"])}
    k_idx = {f[0]: i for i, f in enumerate(db.adts[LK]["variants"][0]["fields"])}
    for need, have in ((("from", "to"), f_idx), (("from", "to"), k_idx)):
        for n in need:
            if n not in have:
                raise MissingAnchor("field %s of CodeRange/LiveRangeKey" % n)

    def mk(adt, idx, wrap, a, b):
        fs = [None] * len(idx)
        fs[idx["from"]], fs[idx["to"]] = wrap(a), wrap(b)
        return T("agg", adt, 0, *fs)
    rng = lambda a, b: mk(CR, f_idx, pp, v[a], v[b])
    key = lambda a, b: mk(LK, k_idx, lambda x: x, v[a], v[b])

    def table(spec, args, vars_, constraint, expect, what):
        b = S.fn(spec)
        n = 0
        for rank in weak_orders([v[x] for x in vars_]):
            r = {x: rank[v[x]] for x in vars_}
            if not constraint(r):
                continue
            n += 1
            I, res, p = S.call(b, args, oracle=rank_oracle(rank))
            e = expect(r)
            ok = bool(res)
            got = []
            for st, val in res:
                got.append(val)
                if callable(e):
                    ok &= e(I, st, val)
                else:
                    ok &= I.decide(st, models.veq(I, st, val, e)) is True
            order = " ".join("%s=%d" % kv for kv in sorted(r.items()))
            R.ob("interval-table", "%s with %s" % (what, order), ok, b.where(), "returns %s, expected %s" % ([str(g) for g in got], e))
        return n

    tf = lambda x: mkbool(bool(x))
    nonempty = lambda r: all(r[x + "0"] < r[x + "1"] for x in "ab" if x + "0" in r and x + "1" in r)
    wf = lambda r: all(r[x + "0"] <= r[x + "1"] for x in "ab" if x + "0" in r and x + "1" in r)
    anyr = lambda r: True
    n = 0
    n += table("CodeRange::is_empty", [rng("a0", "a1")], ["a0", "a1"], anyr, lambda r: tf(r["a0"] >= r["a1"]), "CodeRange::is_empty")
    n += table("CodeRange::contains", [rng("a0", "a1"), rng("b0", "b1")], ["a0", "a1", "b0", "b1"], wf,
               lambda r: tf(r["a0"] <= r["b0"] and r["b1"] <= r["a1"]), "CodeRange::contains")
    n += table("CodeRange::contains_point", [rng("a0", "a1"), pp(v["p"])], ["a0", "a1", "p"], wf,
               lambda r: tf(r["a0"] <= r["p"] < r["a1"]), "CodeRange::contains_point")
    n += table("CodeRange::overlaps", [rng("a0", "a1"), rng("b0", "b1")], ["a0", "a1", "b0", "b1"], nonempty,
               lambda r: tf(r["a0"] < r["b1"] and r["b0"] < r["a1"]), "CodeRange::overlaps")
    n += table("CodeRange::join", [rng("a0", "a1"), rng("b0", "b1")], ["a0", "a1", "b0", "b1"], wf,
               lambda r: joined(r, CR, f_idx, pp, v), "CodeRange::join")

    def cmpv(r):
        return models.LESS if r["a1"] <= r["b0"] else models.GREATER if r["a0"] >= r["b1"] else models.EQUAL
    for ty, mkv in (("CodeRange", rng), ("LiveRangeKey", key)):
        args = [mkv("a0", "a1"), mkv("b0", "b1")]
        vs = ["a0", "a1", "b0", "b1"]
        n += table(ty + ":Ord:cmp", args, vs, nonempty, cmpv, ty + "::cmp")
        n += table(ty + ":PartialOrd:partial_cmp", args, vs, nonempty, lambda r: models.some(cmpv(r)), ty + "::partial_cmp")
    n += table("LiveRangeKey:PartialEq:eq", [key("a0", "a1"), key("b0", "b1")], ["a0", "a1", "b0", "b1"], nonempty,
               lambda r: tf(cmpv(r) is models.EQUAL), "LiveRangeKey::eq")
    for ty in ("CodeRange", "LiveRangeKey"):
        for m in ("lt", "le", "gt", "ge"):
            o = db.find(m, ty, "PartialOrd")
            if o and not o[0].derived:
                mkv = rng if ty == "CodeRange" else key
                f = {"lt": lambda c: c is models.LESS, "le": lambda c: c is not models.GREATER, "gt": lambda c: c is models.GREATER, "ge": lambda c: c is not models.LESS}[m]
                table(o[0], [mkv("a0", "a1"), mkv("b0", "b1")], ["a0", "a1", "b0", "b1"], nonempty, lambda r: tf(f(cmpv(r))), "%s::%s" % (ty, m))
    R.floor("relative orders decided", n, 141)

    # LiveRangeKey::from_range / to_range
    I, res, _ = S.call("LiveRangeKey::from_range", [rng("a0", "a1")])
    ok = len(res) == 1 and I.decide(res[0][0], models.veq(I, res[0][0], res[0][1], key("a0", "a1"))) is True
    R.ob("interval-table", "LiveRangeKey::from_range keeps both endpoints", ok, S.fn("LiveRangeKey::from_range").where(), str([str(x[1]) for x in res]))
    if db.find("to_range", "LiveRangeKey"):
        I, res, _ = S.call("LiveRangeKey::to_range", [key("a0", "a1")])
        ok = len(res) == 1 and I.decide(res[0][0], models.veq(I, res[0][0], res[0][1], rng("a0", "a1"))) is True
        R.ob("interval-table", "LiveRangeKey::to_range keeps both endpoints", ok, S.fn("LiveRangeKey::to_range").where(), str([str(x[1]) for x in res]))

    # ---- program points
    inst = sym("inst", "usize", 30)
    I, res, _ = S.call("Inst::new", [inst])
    it = res[0][1]
    nx = mkbin("Add", inst, mkint(1, "usize"), "usize")
    SIG[nx] = 30
    SIG[mkbin("Add", mkcast(inst, "usize", "u32"), mkint(1, "u32"), "u32")] = 30
    I, res, _ = S.call("Inst::new", [nx])
    it1 = res[0][1]
    one = lambda spec, a: S.call(spec, a)[1]
    b, a = one("ProgPoint::before", [it]), one("ProgPoint::after", [it])
    b1 = one("ProgPoint::before", [it1])

    def eqv(x, y):
        if len(x) != 1 or len(y) != 1:
            return False
        return I.decide(x[0][0], models.veq(I, x[0][0], x[0][1], y[0][1])) is True
    B, A = b[0][1], a[0][1]

    def point(rule, inst_, got, want, fnname):
        R.ob(rule, inst_, eqv(got, want), S.fn(fnname).where(), "yields %s, expected %s" % ([str(g[1]) for g in got], [str(w[1]) for w in want]))
    point("point-step", "before(i).next() == after(i)", one("ProgPoint::next", [B]), a, "ProgPoint::next")
    point("point-step", "after(i).prev() == before(i)", one("ProgPoint::prev", [A]), b, "ProgPoint::prev")
    an = one("ProgPoint::next", [A])
    if len(an) == 1:
        g = one("ProgPoint::pos", [an[0][1]])
        R.ob("point-step", "after(i).next() is a before-point", len(g) == 1 and g[0][1] is S.variant("InstPosition", "Before"), S.fn("ProgPoint::next").where(), str([str(x[1]) for x in g]))
        g = one("ProgPoint::inst", [an[0][1]])
        fs = g[0][1].args[2] if len(g) == 1 and g[0][1].op == "agg" else None
        w = it1.args[2] if it1.op == "agg" else None
        same = fs is not None and w is not None and bits(fs, "u32") is not None and bits_of_sum(fs, inst)
        R.ob("point-step", "after(i).next().inst() == i + 1", same, S.fn("ProgPoint::next").where(), str([str(x[1]) for x in g]))
    x = T("agg", PP, 0, v["p"])
    for f, g in (("next", "prev"), ("prev", "next")):
        y = one("ProgPoint::" + f, [x])
        z = one("ProgPoint::" + g, [y[0][1]]) if len(y) == 1 else []
        point("point-step", "p.%s().%s() == p" % (f, g), z, [(St(), x)], "ProgPoint::" + f)
    # order: the raw bits are (inst, pos), compared unsigned
    im = [i for i in db.impls if db.types[i["self"]].get("path") == PP and i["trait"].split("::")[-1] in ("PartialOrd", "Ord")]
    R.floor("orderings of ProgPoint", len(im), 2)
    pos = sym("pos", "u8", 1)
    for nm, val, want_low in (("before", B, 0), ("after", A, 1)):
        t = val.args[2] if val.op == "agg" and len(val.args) == 3 else None
        bs = bits(t, "u32") if t is not None else None
        ok = bs is not None and bs[0] == want_low and all(bs[i + 1] == (inst, i) for i in range(30))
        R.ob("point-order", "bits of %s(i) are i above the position bit %d" % (nm, want_low), ok, S.fn("ProgPoint::new").where(), str(t))
    q0, q1 = T("agg", PP, 0, v["a0"]), T("agg", PP, 0, v["b0"])
    for i_ in im:
        tr = i_["trait"].split("::")[-1]
        if i_["derived"]:
            R.ob("point-order", "%s of ProgPoint is derived from its bits" % tr, len(db.adts[PP]["variants"][0]["fields"]) == 1, "src/lib.rs ProgPoint", "more than one field")
        else:
            m = "cmp" if tr == "Ord" else "partial_cmp"
            w = (lambda c: c) if tr == "Ord" else models.some
            table("ProgPoint:%s:%s" % (tr, m), [q0, q1], ["a0", "b0"], anyr,
                  lambda r: w(models.LESS if r["a0"] < r["b0"] else models.EQUAL if r["a0"] == r["b0"] else models.GREATER), "ProgPoint::" + m)

    # ---- composite keys
    nk = 0

    def fieldsym(adt, f, prefix):
        """an opaque index/point field as its raw number"""
        fty = [x for x in db.adts[adt]["variants"][0]["fields"] if x[0] == f[0]][0][1]
        p = db.types[fty]
        s_ = sym(prefix + f[0], "u32")
        if p["k"] == "adt":
            inner = db.adts[p["path"]]
            n_ = len(inner["variants"][0]["fields"])
            if n_ == 1 and inner["kind"] != "enum":
                it_ = db.types[inner["variants"][0]["fields"][0][1]].get("n", "u32")
                settype(s_, it_)
                return s_, T("agg", p["path"], 0, s_)
            return s_, T("sym", prefix + f[0] + "_opaque")
        settype(s_, p.get("n", "u32"))
        return s_, s_

    def keycheck(ty, comps, meth="key", required=True):
        nonlocal nk
        cand = [b for b in db.local_bodies() if b.name == meth and b.self_ty is not None and (db.adt_of(b.self_ty, False) or "").split("::")[-1] == ty]
        if not cand:
            return  # ordering by some other means: not this rule's business
        adt = db.adt_of(cand[0].self_ty, False)
        flds = db.adts[adt]["variants"][0]["fields"]
        vals, syms = [], {}
        for f in flds:
            s_, t_ = fieldsym(adt, f, ty + ".")
            syms[f[0]] = s_
            vals.append(t_)
        I, res, _ = S.call(cand[0], [T("agg", adt, 0, *vals)])
        got = components(res[0][1]) if len(res) == 1 else None
        want = [syms.get(c) for c in comps]
        nk += 1
        R.ob("key-order", "%s::%s orders by (%s)" % (ty, meth, ", ".join(comps)), got is not None and got[:len(want)] == want and None not in want,
             cand[0].where(), "the key is %s" % (str([str(x[1]) for x in res])))
    keycheck("PosWithPrio", ["pos", "prio"])
    keycheck("BlockparamOut", ["from_vreg", "from_block", "to_block", "to_vreg"])
    keycheck("BlockparamIn", ["to_vreg", "to_block", "from_block"])
    a = [sym("k%d" % i, "u32") for i in range(4)]
    for nm, args in (("u64_key", a[:2]), ("u128_key", a)):
        fs = db.find(nm)
        if fs:
            I, res, _ = S.call(fs[0], args)
            got = components(res[0][1]) if len(res) == 1 else None
            nk += 1
            R.ob("key-order", "%s concatenates its arguments, first one most significant" % nm, got == args, fs[0].where(), str([str(x[1]) for x in res]))
    R.floor("composite keys", nk, 3)
    R.assumptions += ["intervals compared for overlap are non-empty and well formed (from < to)", "instruction numbers stay below 2^30"]


def joined(r, CR, idx, pp, v):
    lo = "a0" if r["a0"] <= r["b0"] else "b0"
    hi = "a1" if r["a1"] >= r["b1"] else "b1"

    def ok(I, st, val):
        f = I.getf(I.getf(val, ("f", idx["from"], "from")), ("f", 0, "bits"))
        t = I.getf(I.getf(val, ("f", idx["to"], "to")), ("f", 0, "bits"))
        inv = {}
        return f.op == "sym" and t.op == "sym" and r.get(f.args[0]) == r[lo] and r.get(t.args[0]) == r[hi]
    return ok


def bits_of_sum(t, inst):
    """t is inst + 1 (the low 30 bits)"""
    bs = bits(t, "u32")
    src = mkbin("Add", inst, mkint(1, "usize"), "usize")
    src2 = mkbin("Add", mkcast(inst, "usize", "u32"), mkint(1, "u32"), "u32")
    return all(bs[i] in ((src, i), (src2, i)) for i in range(30))
