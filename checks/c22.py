"""C22: PRegSet and IndexSet against set algebra, in the bit-provenance domain."""
from sem import *
import models, terms
from models import some, NONE, OPT

TECHNIQUE = ("abstract interpretation of the set operations over MIR in a per-bit domain (each bit of a word is 0, 1, a bit of an input, or a boolean "
             "function of such bits): every operation is decided for every register or bit position with all other contents symbolic")
LEVEL = "other"
NWORD = 64


def run(R, tier):
    terms.FULLBITS[0] = True
    S = Sem("main", R, unroll=80)
    R.rule("membership", "contains(r) reads one bit of the representation, a different one for each register")
    R.rule("set-op", "each set operation leaves each register's membership equal to the mathematical operation, for every register, with all other contents symbolic")
    R.rule("iteration", "the iterator yields the smallest remaining member and removes exactly it, and ends exactly when none is left")
    R.rule("word-map", "the adaptive map behaves as a map from words to bits in each occupancy and key position of its small form and on the transition to the large form")
    R.rule("index-set", "set, get, union and iteration of IndexSet touch exactly the bit idx % 64 of word idx / 64; union reports a change exactly when a bit is new")
    pregset(R, S)
    indexset(R, S)
    R.assumptions += ["hash maps of the hashbrown crate behave as maps", "keys of the small map are distinct (they are only added when absent)"]


# ---------------------------------------------------------------- PRegSet
def leaves(v, path=()):
    if v.op == "int":
        yield path, v
    elif v.op == "agg":
        for i, x in enumerate(v.args[2:]):
            yield from leaves(x, path + (i,))
    elif v.op == "fill":
        raise MissingAnchor("representation of PRegSet")


def getp(v, path):
    for i in path:
        if v.op != "agg" or 2 + i >= len(v.args):
            return T("sym", "?")
        v = v.args[2 + i]
    return v


def withp(v, path, x):
    if not path:
        return x
    a = list(v.args)
    a[2 + path[0]] = withp(a[2 + path[0]], path[1:], x)
    return T("agg", *a)


def setbit(w, k, b, ty):
    bs = list(bits(w, ty))
    bs[k] = b
    return frombits(bs, ty)


def bitat(w, k, ty):
    bs = bits(w, ty)
    return bs[k] if bs else None


def pregset(R, S):
    db = S.db
    one = lambda spec, args, **k: S.call(spec, args, **k)[1]
    e = one("PRegSet::empty", [])
    if len(e) != 1:
        raise MissingAnchor("PRegSet::empty")
    E = e[0][1]
    ls = list(leaves(E))
    ty = ls[0][1].args[1]
    W = WIDTH[ty]

    def symset(nm):
        v = E
        for p, _ in ls:
            v = withp(v, p, sym("%s%s" % (nm, "_".join(map(str, p))), ty))
        return v
    A, B = symset("A"), symset("B")
    # registers
    regs = []
    for ci, c in enumerate(S.variants("RegClass")):
        for hw in range(64):
            r = one("PReg::new", [mkint(hw, "usize"), S.variant("RegClass", c)])
            regs.append(((c, hw), r[0][1]))
    member = {}
    cb = S.fn("PRegSet::contains")
    for nm, r in regs:
        res = one(cb, [A, r])
        v = res[0][1] if len(res) == 1 else None
        if v is not None and v.op == "bit":
            loc = [p for p, _ in ls if getp(A, p) is v.args[0]]
            if loc:
                member[nm] = (loc[0], v.args[1])
        R.ob("membership", "contains(%s%d) reads one bit" % nm, nm in member, cb.where(), str([str(x[1]) for x in res])[:300])
    R.ob("membership", "different registers use different bits", len(set(member.values())) == len(member), cb.where(), "")
    R.ob("set-op", "the empty set has no member", all(v.args[0] == 0 for _, v in ls), S.fn("PRegSet::empty").where(), str(E))
    if db.find("default", "PRegSet", "Default"):
        d = db.find("default", "PRegSet", "Default")[0]
        res = one(d, [])
        if not d.derived:
            R.ob("set-op", "the default set is empty", len(res) == 1 and res[0][1] is E, d.where(), str(res)[:300])
    order = sorted(member, key=lambda n: member[n]) if all(len(p) == len(ls[0][0]) for p, _ in ls) else list(member)
    # index order
    idx = {}
    for nm, r in regs:
        x = one("PReg::index", [r])
        idx[nm] = cint(x[0][1]) if len(x) == 1 else None

    def bit(v, nm):
        p, k = member[nm]
        return bitat(getp(v, p), k, ty)

    def sbit(base, nm, b):
        p, k = member[nm]
        return withp(base, p, setbit(getp(base, p), k, b, ty))

    def others_equal(v, base, nm):
        for q in member:
            if q != nm and bit(v, q) != bit(base, q):
                return False
        return True

    def result(spec, args):
        """final value of *self (argument 0) for &mut self operations"""
        b = S.fn(spec) if isinstance(spec, str) else spec
        I = Interp(db, **S.kw)
        st = St()
        root = ("L", "SELF", 0)
        st.mem[root] = args[0]
        r = I.analyse(b, [T("ref", root, ())] + list(args[1:]), st)
        R.saw(I)
        return [(s, v, I.read(s, root, ())) for s, v in r]
    # single register operations
    for op, val in (("add", 1), ("remove", 0), ("with", 1)):
        fs = db.find(op, "PRegSet")
        if not fs:
            raise MissingAnchor("PRegSet::" + op)
        for nm, r in regs:
            if op == "with":
                out = [x[1] for x in one(fs[0], [A, r])]
            else:
                out = [x[2] for x in result(fs[0], [A, r])]
            ok = len(out) == 1 and bit(out[0], nm) == val and others_equal(out[0], A, nm)
            R.ob("set-op", "%s(%s%d) changes exactly that register to %s" % ((op,) + nm + ("present" if val else "absent",)), ok, fs[0].where(), str(out)[:400])
    fs = db.find("add_up_to", "PRegSet")
    if fs:
        for nm, r in regs:
            out = [x[2] for x in result(fs[0], [A, r])]
            ok = len(out) == 1 and all(bit(out[0], q) == (1 if idx[q] < idx[nm] else bit(A, q)) for q in member)
            R.ob("set-op", "add_up_to(%s%d) adds exactly the registers below and keeps the rest" % nm, ok, fs[0].where(), str(out)[:300])
    # binary operations: per register with the two memberships concrete
    table = {"union": lambda a, b: a | b, "intersect": lambda a, b: a & b}
    two = []
    for nmop, f, tr in (("union_from", "union", None), ("intersect_from", "intersect", None)):
        two.append((S.fn("PRegSet::" + nmop), f, True))
    for nmop, f, tr in (("bitand", "intersect", "BitAnd"), ("bitor", "union", "BitOr")):
        for b in db.find(nmop, "PRegSet", tr):
            two.append((b, f, False))
    for b, f, mut in two:
        res = [x[2] for x in result(b, [A, B])] if mut else [x[1] for x in one(b, [A, B])]
        good = len(res) == 1
        for nm in member:
            got = bit(res[0], nm) if good else None
            want = terms._bit("BitOr" if f == "union" else "BitAnd", bit(A, nm), bit(B, nm)) or bitop("BitOr" if f == "union" else "BitAnd", bit(A, nm), bit(B, nm))
            R.ob("set-op", "%s: membership of %s%d is the %s" % ((b.name,) + nm + ({"union": "or", "intersect": "and"}[f],)), got == want, b.where(), str(got))
    ib = S.fn("PRegSet::invert")
    res = [x[1] for x in one(ib, [A])]
    for nm in member:
        got = bit(res[0], nm) if len(res) == 1 else None
        R.ob("set-op", "invert: membership of %s%d is negated" % nm, got == bitop("BitXor", bit(A, nm), 1), ib.where(), str(got))
    eb = S.fn("PRegSet::is_empty")
    for c in S.variants("RegClass"):
        cv = S.variant("RegClass", c)
        v = A
        for nm in member:
            if nm[0] == c:
                v = sbit(v, nm, 0)
        res = [x[1] for x in one(eb, [v, cv])]
        R.ob("set-op", "is_empty(%s) is true without members of the class" % c, res == [TRUE], eb.where(), str(res))
        for nm in member:
            if nm[0] == c:
                res = [x[1] for x in one(eb, [sbit(A, nm, 1), cv])]
                R.ob("set-op", "is_empty(%s) is false when %s%d is a member" % ((c,) + nm), res == [FALSE], eb.where(), str(res))
    # iteration
    itb = [b for b in db.local_bodies() if b.name == "next" and b.trait and b.trait.endswith("Iterator") and "PRegSet" in str(db.adt_of(b.self_ty, False))]
    if len(itb) != 1:
        raise MissingAnchor("iterator of PRegSet")
    intos = [b for b in db.local_bodies() if b.name == "into_iter" and "PRegSet" in db.types[b.self_ty]["s"]]
    R.floor("into_iter of PRegSet", len(intos), 2)
    low = sorted(member, key=lambda n: idx[n])
    for b in intos:
        for j, nm in enumerate(low):
            if j % 5 and tier_quick():
                continue
            s = A
            for q in low[:j]:
                s = sbit(s, q, 0)
            s = sbit(s, nm, 1)
            it = one(b, [s])
            ok = len(it) == 1
            if ok:
                outs = result(itb[0], [it[0][1]])
                ok = len(outs) == 1 and eqreg(S, outs[0][1], dict(regs)[nm])
                if ok and b is intos[0]:
                    # the remaining iterator yields the following members only
                    nxt = outs[0][2]
                    for m, nm2 in [(m, low[m]) for m in (j + 1, j + 7, len(low) - 1) if j < m < len(low)]:
                        s2 = nxt
                        for q in low[j + 1:m]:
                            s2 = rebit(s2, A, member[q], ty, 0)
                        s2 = rebit(s2, A, member[nm2], ty, 1)
                        o2 = result(itb[0], [s2])
                        R.ob("iteration", "after %s%d the next member is %s%d" % (nm + nm2), len(o2) == 1 and eqreg(S, o2[0][1], dict(regs)[nm2]), itb[0].where(), str([str(x[1]) for x in o2])[:300])
            R.ob("iteration", "the first element is the smallest member %s%d" % nm, ok, itb[0].where(), "")
        it = one(b, [E])
        outs = result(itb[0], [it[0][1]]) if len(it) == 1 else []
        R.ob("iteration", "iterating an empty set ends at once", len(outs) == 1 and outs[0][1] is NONE, itb[0].where(), str([str(x[1]) for x in outs]))
    # the last member leaves an exhausted iterator
    for nm in low[::9] + low[-1:]:
        it = one(intos[0], [sbit(E, nm, 1)])
        o1 = result(itb[0], [it[0][1]])
        o2 = result(itb[0], [o1[0][2]]) if len(o1) == 1 else []
        R.ob("iteration", "the set {%s%d} has one element" % nm, len(o2) == 1 and o2[0][1] is NONE, itb[0].where(), str([str(x[1]) for x in o2]))
    # collecting and converting
    for b in db.find("from_iter", "PRegSet", "FromIterator"):
        ch = [low[3], low[70], low[130]]
        res = [x[1] for x in one(b, [T("seq", "list", *[dict(regs)[c] for c in ch])])]
        ok = len(res) == 1 and all(bit(res[0], q) == (1 if q in ch else 0) for q in member)
        R.ob("set-op", "collecting registers adds each of them", ok, b.where(), str(res)[:300])
    R.floor("registers", len(member), 192)


def tier_quick():
    import os
    return os.environ.get("VERIF_TIER", "quick") != "thorough"


def rebit(itv, A, loc, ty, b):
    """set the bit that the iterator's copy of the words holds for a register"""
    path, k = loc
    w = getp(A, path)

    def go(v):
        if v.op == "agg":
            return T("agg", *(v.args[:2] + tuple(go(x) if isinstance(x, T) else x for x in v.args[2:])))
        bs = bits(v, ty) if v.op in ("bv", "sym") and (tw(v) == ty or v.op == "bv") else None
        if bs and bs[k] == (w, k):
            return setbit(v, k, b, ty)
        return v
    return go(itv)


def eqreg(S, opt, r):
    return opt.op == "agg" and opt.args[:2] == (OPT, 1) and opt.args[2] is r


# ---------------------------------------------------------------- IndexSet
def indexset(R, S):
    db = S.db
    AM = S.adt("AdaptiveMap")
    IS = S.adt("IndexSet")
    names = [v["name"] for v in db.adts[AM]["variants"]]
    if "Small" not in names or "Large" not in names:
        raise MissingAnchor("AdaptiveMap::{Small,Large}")
    si = names.index("Small")
    flds = [f[0] for f in db.adts[AM]["variants"][si]["fields"]]
    for n in ("len", "keys", "values"):
        if n not in flds:
            raise MissingAnchor("AdaptiveMap::Small." + n)
    new = S.call("AdaptiveMap::new", [])[1]
    if len(new) != 1 or new[0][1].op != "agg":
        raise MissingAnchor("AdaptiveMap::new")
    nv = new[0][1]
    keys0 = nv.args[2 + flds.index("keys")]
    N = len(keys0.args) - 2
    R.ob("word-map", "a new map is small and empty", nv.args[1] == si and cint(nv.args[2 + flds.index("len")]) == 0, S.fn("AdaptiveMap::new").where(), str(nv)[:200])
    K = [sym("k%d" % i, "u32", 26) for i in range(N)]
    V = [sym("v%d" % i, "u64") for i in range(N)]
    key = sym("key", "u32", 26)

    def small(L, vals=None):
        vals = vals or V
        f = {"len": mkint(L, "u32"), "keys": T("agg", "array", 0, *(K[:L] + [mkint(0xffffffff, "u32")] * (N - L))),
             "values": T("agg", "array", 0, *(list(vals[:L]) + [mkint(0, "u64")] * (N - L)))}
        return T("agg", AM, si, *[f[x] for x in flds])

    def oracle(j, L, allnz=False):
        """key equals the key at position j (or none); the keys are distinct"""
        def o(t, st):
            if t.op == "eq":
                a, b = t.args
                if a in K and b in K:
                    return a is b
                for x, y in ((a, b), (b, a)):
                    if x is key and y in K:
                        return K.index(y) == j
                    if x is key and y.op == "int":
                        return False  # the invalid marker is not a word index
                if allnz and b.op == "int" and b.args[0] == 0 and a in V:
                    return False
            return None
        return o

    def call(spec, selfv, args, orc):
        b = S.fn(spec) if isinstance(spec, str) else spec
        I = Interp(db, oracle=orc, **S.kw)
        st = St()
        root = ("L", "MAP", 0)
        st.mem[root] = selfv
        st.mem[("L", "OTHER", 0)] = args[0] if args and args[0].op == "agg" else T("agg", "tuple", 0)
        if args and args[0].op == "agg":
            args = [T("ref", ("L", "OTHER", 0), ())] + list(args[1:])
        r = I.analyse(b, [T("ref", root, ())] + list(args), st)
        R.saw(I)
        R.paths += len(r)
        return I, [(s, v, I.read(s, root, ())) for s, v in r]

    def asmap(v):
        """the small map as {key term: value term}, zero values dropped"""
        if v.op != "agg" or v.args[0] != AM or v.args[1] != si:
            return None
        L = cint(v.args[2 + flds.index("len")])
        ks, vs = v.args[2 + flds.index("keys")], v.args[2 + flds.index("values")]
        if L is None or ks.op != "agg" or vs.op != "agg":
            return None
        m = {}
        for i in range(L):
            k_, v_ = ks.args[2 + i], vs.args[2 + i]
            if k_ in m:
                return None
            if v_.op == "int" and v_.args[0] == 0:
                continue
            m[k_] = v_
        return m

    Ls = (0, 1, 5, N - 1, N)
    gi, gm, gt = S.fn("AdaptiveMap::get_or_insert"), S.fn("AdaptiveMap::get_mut"), S.fn("AdaptiveMap::get")
    n = 0
    for L in Ls:
        for j in list(range(L)) + [None]:
            # get / get_mut
            n += 1
            I, r = call(gt, small(L), [key], oracle(j, L))
            want = some(V[j]) if j is not None else NONE
            R.ob("word-map", "get: %d entries, key at %s" % (L, j), len(r) >= 1 and all(x[1] is want and asmap(x[2]) == asmap(small(L)) for x in r), gt.where(), str([str(x[1]) for x in r])[:200])
            I, r = call(gm, small(L), [key], oracle(j, L))
            ok = len(r) >= 1
            for s, v, m in r:
                if j is None:
                    ok &= v is NONE
                else:
                    ok &= v.op == "agg" and v.args[1] == 1 and I.load(s, v.args[2]) is V[j]
                    if ok:
                        I.store(s, v.args[2], mkint(7, "u64"))
                        exp = dict(zip(K[:L], V[:L]))
                        exp[K[j]] = mkint(7, "u64")
                        ok &= asmap(I.read(s, ("L", "MAP", 0), ())) == exp
            R.ob("word-map", "get_mut: %d entries, key at %s" % (L, j), ok, gm.where(), str([str(x[1]) for x in r])[:200])
            # get_or_insert
            zs = [None] + (list(range(N)) if L == N and j is None else [])
            for z in zs:
                n += 1
                vals = list(V)
                if z is not None:
                    vals[z] = mkint(0, "u64")
                I, r = call(gi, small(L, vals), [key], oracle(j, L, allnz=True))
                ok = len(r) >= 1
                why = ""
                for s, v, m in r:
                    exp = {k_: v_ for k_, v_ in zip(K[:L], vals[:L]) if v_.op != "int"}
                    if L == N and j is None and z is None:
                        # must become large: a map collected from all keys and values, then the entry of the key
                        li = names.index("Large")
                        txt = str(m)
                        evs = s.events()
                        col = [x for x in subterms(m) if x.op in ("call",) and x.args[0] == "iter_collect"] + \
                              [x for e in evs for a in e.args if isinstance(a, T) for x in subterms(a) if x.op == "call" and x.args[0] == "iter_collect"]
                        full = any(collects_all(I, s, c, K, vals) for c in col) or any(collects_events(e, K, vals) for e in evs)
                        ent = [e for e in evs if e.kind == "call" and "entry" in e.name.split("::")[-1] and key in e.extra["nargs"]]
                        ins = [e for e in evs if e.kind == "call" and e.name.split("::")[-1] in ("or_insert", "or_default", "or_insert_with")]
                        good = m.op in ("agg", "with", "hv") and full and ent and ins
                        ok &= bool(good)
                        why = txt[:200]
                        continue
                    cur = I.load(s, v)
                    ok &= (cur is V[j]) if j is not None else (cint(cur) == 0)
                    ok &= asmap(m) == exp
                    mk = mkint(9, "u64")
                    I.store(s, v, mk)
                    exp[K[j] if j is not None else key] = mk
                    got = asmap(I.read(s, ("L", "MAP", 0), ()))
                    ok &= got == exp
                    why = str(got)[:300]
                R.ob("word-map", "get_or_insert: %d entries, key at %s%s" % (L, j, "" if z is None else ", entry %d is zero" % z), ok, gi.where(), why)
    # the large form
    li = names.index("Large")

    def large(L, vals=None):
        return T("agg", AM, li, T("agg", "hm", 0, T("agg", "array", 0, *K[:L]), T("agg", "array", 0, *(vals or V)[:L])))

    def lmap(m):
        if m.op != "agg" or m.args[:2] != (AM, li) or m.args[2].op != "agg" or m.args[2].args[0] != "hm":
            return None
        ks, vs = m.args[2].args[2:]
        return {k_: v_ for k_, v_ in zip(ks.args[2:], vs.args[2:]) if cint(v_) != 0}
    for L in (0, 1, 3):
        for j in list(range(L)) + [None]:
            base = dict(zip(K[:L], V[:L]))
            I, r = call(gt, large(L), [key], oracle(j, L))
            want = some(V[j]) if j is not None else NONE
            R.ob("word-map", "large get: %d entries, key at %s" % (L, j), len(r) >= 1 and all(x[1] is want and lmap(x[2]) == base for x in r), gt.where(), str([str(x[1]) for x in r])[:200])
            for fn in (gm, gi):
                I, r = call(fn, large(L), [key], oracle(j, L))
                ok = len(r) >= 1
                for s, v, m in r:
                    ref = v
                    if fn is gm:
                        if j is None:
                            ok &= v is NONE and lmap(m) == base
                            continue
                        ref = v.args[2] if v.op == "agg" and v.args[1] == 1 else None
                    if ref is None or ref.op != "ref":
                        ok = False
                        continue
                    cur = I.load(s, ref)
                    ok &= (cur is V[j]) if j is not None else cint(cur) == 0
                    I.store(s, ref, mkint(7, "u64"))
                    exp = dict(base)
                    exp[K[j] if j is not None else key] = mkint(7, "u64")
                    ok &= lmap(I.read(s, ("L", "MAP", 0), ())) == exp
                R.ob("word-map", "large %s: %d entries, key at %s" % (fn.name, L, j), ok, fn.where(), str([str(x[1]) for x in r])[:200])
    ie = db.find("is_empty", "AdaptiveMap")
    if ie:
        for L in (0, 1, 3):
            for i in [None] + list(range(L)):
                vv = [mkint(0, "u64")] * N
                if i is not None:
                    vv[i] = setbit(sym("q", "u64"), 5, 1, "u64")
                I, r = call(ie[0], large(L, vv), [], None)
                R.ob("word-map", "is_empty of the large form with %d words, non-zero at %s" % (L, i), [x[1] for x in r] == [mkbool(i is None)], ie[0].where(), str([str(x[1]) for x in r]))
        for L in (0, 1, N):
            vals = [mkint(0, "u64")] * N
            I, r = call(ie[0], small(L, vals), [], None)
            R.ob("word-map", "is_empty with %d zero words" % L, [x[1] for x in r] == [TRUE], ie[0].where(), str([str(x[1]) for x in r]))
            for i in range(L):
                vv = list(vals)
                vv[i] = setbit(sym("q", "u64"), 5, 1, "u64")
                I, r = call(ie[0], small(L, vv), [], None)
                n += 1
                R.ob("word-map", "is_empty with a non-zero word %d of %d" % (i, L), [x[1] for x in r] == [FALSE], ie[0].where(), str([str(x[1]) for x in r]))
    R.floor("map cases", n, 90)

    # ---- bit operations of IndexSet
    def iset(m):
        return T("agg", IS, 0, m)

    def ismap(v):
        return asmap(v.args[2]) if v.op == "agg" and v.args[0] == IS else None
    sb, gb, ub = S.fn("IndexSet::set"), S.fn("IndexSet::get"), S.fn("IndexSet::union_with")
    kb = bits(key, "u32")
    for k in range(NWORD):
        idx = frombits(tuple((k >> i) & 1 for i in range(6)) + tuple(kb[i] for i in range(26)) + (0,) * 32, "usize")
        for j, L in ((1, 2), (None, 2), (None, 0)):
            base = dict(zip(K[:L], V[:L]))
            for val in (True, False):
                I, r = call(sb, iset(small(L)), [idx, mkbool(val)], oracle(j, L))
                exp = dict(base)
                if j is not None:
                    exp[K[j]] = setbit(V[j], k, int(val), "u64")
                elif val:
                    exp[key] = mkint(1 << k, "u64")
                R.ob("index-set", "set(64*w+%d, %s), word %s" % (k, val, "present" if j is not None else "absent"), len(r) >= 1 and all(ismap(x[2]) == exp for x in r), sb.where(), str([str(x[2])[:150] for x in r]))
            I, r = call(gb, iset(small(L)), [idx], oracle(j, L))
            want = T("bit", V[j], k) if j is not None else FALSE
            R.ob("index-set", "get(64*w+%d), word %s" % (k, "present" if j is not None else "absent"), len(r) >= 1 and all(x[1] is want for x in r), gb.where(), str([str(x[1]) for x in r]))
    # union: other = {key: w}, self has the word or not
    for k in range(NWORD):
        for mine in (0, 1, None):
            ob = mkint(1 << k, "u64")
            vs = list(V)
            other = T("agg", AM, si, *[{"len": mkint(1, "u32"), "keys": T("agg", "array", 0, *([key] + [mkint(0xffffffff, "u32")] * (N - 1))),
                                        "values": T("agg", "array", 0, *([ob] + [mkint(0, "u64")] * (N - 1)))}[x] for x in flds])
            if mine is not None:
                vs[1] = setbit(V[1], k, mine, "u64")
            I, r = call(ub, iset(small(2, vs)), [iset(other)], oracle(1 if mine is not None else None, 2))
            exp = {K[0]: V[0], K[1]: V[1]}
            if mine is not None:
                exp[K[1]] = setbit(V[1], k, 1, "u64")
            else:
                exp[key] = ob
            R.ob("index-set", "union_with adding bit %d when it is %s" % (k, {0: "clear", 1: "set", None: "in a new word"}[mine]),
                 len(r) >= 1 and all(ismap(x[2]) == exp and x[1] is mkbool(mine != 1) for x in r), ub.where(), str([(str(x[1]), str(x[2])[:200]) for x in r]))
    # several words: none is skipped, and one change is enough
    for L in (2, 3):
        for hit in range(L):
            ov = [mkint(1, "u64")] * L
            o = T("agg", AM, si, *[{"len": mkint(L, "u32"), "keys": T("agg", "array", 0, *(K[:L] + [mkint(0xffffffff, "u32")] * (N - L))),
                                    "values": T("agg", "array", 0, *(ov + [mkint(0, "u64")] * (N - L)))}[x] for x in flds])
            vs = [setbit(V[i], 0, 0 if i == hit else 1, "u64") for i in range(L)]
            I, r = call(ub, iset(small(L, vs)), [iset(o)], oracle(None, L))
            exp = {K[i]: setbit(V[i], 0, 1, "u64") for i in range(L)}
            R.ob("index-set", "union_with of %d words where only word %d is new" % (L, hit), len(r) >= 1 and all(ismap(x[2]) == exp and x[1] is TRUE for x in r), ub.where(), str([(str(x[1]), str(x[2])[:200]) for x in r]))
    I, r = call(ub, iset(small(2)), [iset(small(0))], oracle(None, 2))
    R.ob("index-set", "union_with an empty set changes nothing", len(r) >= 1 and all(x[1] is FALSE and ismap(x[2]) == {K[0]: V[0], K[1]: V[1]} for x in r), ub.where(), str([str(x[1]) for x in r]))
    # assign
    for b in db.find("assign", "IndexSet"):
        I, r = call(b, iset(small(2)), [iset(small(5))], None)
        R.ob("index-set", "assign copies the other set", len(r) >= 1 and all(ismap(x[2]) == asmap(small(5)) for x in r), b.where(), "")
    # iteration: bits of one word
    nb = [b for b in db.local_bodies() if b.name == "next" and b.trait and "SetBitsIter" in str(db.adt_of(b.self_ty, False) if b.self_ty is not None else "")]
    for b in nb:
        adt = db.adt_of(b.self_ty, False)
        x = sym("x", "u64")
        for k in range(NWORD):
            w = x
            for i in range(k):
                w = setbit(w, i, 0, "u64")
            w = setbit(w, k, 1, "u64")
            I, r = call(b, T("agg", adt, 0, w), [], None)
            ok = len(r) == 1 and r[0][1].op == "agg" and r[0][1].args[1] == 1 and cint(r[0][1].args[2]) == k and r[0][2].args[2] is setbit(w, k, 0, "u64")
            R.ob("iteration", "the first bit of a word is its lowest set bit %d" % k, ok, b.where(), str([(str(q[1]), str(q[2])) for q in r])[:300])
        I, r = call(b, T("agg", adt, 0, mkint(0, "u64")), [], None)
        R.ob("iteration", "a zero word has no bits", len(r) == 1 and r[0][1] is NONE, b.where(), str([str(q[1]) for q in r]))
    # iteration: words
    ib = S.fn("IndexSet::iter")
    cases = [(0, []), (2, [(0, 3), (1, 63)]), (3, [(0, 0), (2, 17)]), (1, [(0, 7), (0, 9)])]
    for L in (1, 2, 3, N - 1, N):
        pats = {tuple(range(j, L)) for j in range(L + 1)} | {tuple(range(j)) for j in range(L)} | {(j,) for j in range(L)} | \
            {tuple(i for i in range(L) if i != j) for j in range(L)} | {tuple(range(0, L, 2))}
        cases += [(L, [(i, (7 * i) % 64) for i in p]) for p in sorted(pats)]
    for L, bitsat in cases:
        vals = [mkint(sum(1 << b for (i, b) in bitsat if i == w), "u64") for w in range(N)]
        I = Interp(db, oracle=oracle(None, L), **S.kw)
        st = St()
        root = ("L", "MAP", 0)
        st.mem[root] = iset(small(L, vals))
        for form in ("small", "large"):
          if form == "large":
            st = St()
            st.mem[root] = iset(large(L, vals))
          got = itall(I, ib, root, st, N + 2)
          want = [frombits(tuple((b >> i) & 1 for i in range(6)) + tuple(bits(K[w], "u32")[:26]) + (0,) * 32, "usize") for w, b in bitsat]
          R.ob("iteration", "iterating %d words of the %s form with bits at %s yields each set bit once as 64*word+bit" % (L, form, bitsat), got is not None and [x for x in got] == want, ib.where(), str([str(g) for g in got] if got is not None else "not decided"))
        R.saw(I)


def collects_all(I, st, c, K, vals):
    q = c.args[1]
    l = models.materialize(I, st.copy(), q) if isinstance(q, T) and q.op == "seq" else None
    if l is None:
        return False
    ps = [(models.deref_all(I, st, x.args[2]), models.deref_all(I, st, x.args[3])) for x in l if x.op == "agg" and len(x.args) == 4]
    return set(ps) == set(zip(K, vals))


def collects_events(e, K, vals):
    return False


def itall(I, b, root, st, limit):
    """all elements of the iterator returned by b"""
    r = I.analyse(b, [T("ref", root, ())], st)
    if len(r) != 1:
        return None
    s, q = r[0]
    out = []

    class Fr:
        id = "IT"
        chain = ()
        subst = {}
        body = b
    for _ in range(limit):
        x = drive(I, s, Fr, q)
        if x is None or len(x) != 1:
            return None
        s, e, q = x[0]
        if e is None:
            return out
        out.append(e)
    return None


def drive(I, s, fr, q):
    return models.seq_step(I, s, fr, 0, q, None)
