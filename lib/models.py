"""Models of library functions: references, vectors/slices, options, iterators, comparisons."""
import re
from terms import *

U = "usize"


def derived(I, st, fr, bb, f, args, span):
    name = f["name"]
    if name == "clone":
        return [(st, I.load(st, args[0]))]
    if name in ("eq", "ne"):
        return [(st, req(I, st, args[0], args[1], name == "ne"))]
    if name in ("lt", "le", "gt", "ge"):
        return [(st, rord(I, st, name, args[0], args[1]))]
    if name in ("partial_cmp", "cmp"):
        a, b = flat(I, st, I.load(st, args[0])), flat(I, st, I.load(st, args[1]))
        return cmp_states(I, st, a, b, name == "partial_cmp")
    return None


def default_value(I, ti):
    """Default::default() of integers, booleans, options, arrays and tuples of them"""
    if ti is None:
        return None
    ty = I.db.types[ti]
    n = I.tyname(ti)
    if n in WIDTH:
        return mkint(0, n)
    if n == "bool":
        return FALSE
    if ty["k"] == "adt" and ty["path"] == OPT:
        return NONE
    if ty["k"] == "array":
        e = default_value(I, ty["t"])
        ln = ty.get("n", -1)
        return T("agg", "array", 0, *([e] * ln)) if e is not None and isinstance(ln, int) and 0 <= ln <= 64 else None
    if ty["k"] == "tuple":
        es = [default_value(I, x) for x in ty["ts"]]
        return T("agg", "tuple", 0, *es) if None not in es else None
    return None


def deref_all(I, st, v, n=6):
    while n and v.op == "ref":
        v = I.load(st, v)
        n -= 1
    return v


def flat(I, st, v):
    """newtype struct -> its single field"""
    n = 0
    while v.op == "agg" and len(v.args) == 3 and n < 5:
        a = I.db.adts.get(v.args[0])
        if a is None or a["kind"] == "enum":
            break
        v = v.args[2]
        n += 1
    return v


def expand_like(I, v, shape):
    """view an opaque struct value with the field structure of `shape`"""
    a = I.db.adts.get(shape.args[0])
    if a is not None and a["kind"] != "enum":
        fs = a["variants"][0]["fields"]
        out = []
        for i, x in enumerate(shape.args[2:]):
            nm = fs[i][0] if i < len(fs) else str(i)
            out.append(I.getf(v, ("f", i, nm)))
            if tw(x) and tw(out[-1]) is None:
                settype(out[-1], tw(x))
        return out
    if shape.args[0] == "tuple":
        return [I.getf(v, ("f", i, str(i))) for i in range(len(shape.args) - 2)]
    return None


def veq(I, st, a, b, d=0):
    """structural equality of two values as a boolean term"""
    if a is b:
        return TRUE
    a, b = deref_all(I, st, a), deref_all(I, st, b)
    if a is b:
        return TRUE
    if d < 6 and (a.op == "agg" or b.op == "agg"):
        if a.op != "agg":
            a, b = b, a
        ad = I.db.adts.get(a.args[0])
        if ad is not None and ad["kind"] == "enum":
            da = I.discr(st, a, None)
            db_ = I.discr(st, b, None)
            e = mkeq(da, db_, "isize")
            if b.op == "agg" and a.args[1] == b.args[1]:
                return mkand(*[veq(I, st, x, y, d + 1) for x, y in zip(a.args[2:], b.args[2:])])
            if b.op == "agg":
                return FALSE
            fs = [veq(I, st, x, I.getf(b, ("vf", a.args[1], i)), d + 1) for i, x in enumerate(a.args[2:])]
            return mkand(e, *fs)
        if b.op == "agg" and len(a.args) == len(b.args):
            return mkand(*[veq(I, st, x, y, d + 1) for x, y in zip(a.args[2:], b.args[2:])])
        if b.op != "agg":
            ex = expand_like(I, b, a)
            if ex is not None:
                return mkand(*[veq(I, st, x, y, d + 1) for x, y in zip(a.args[2:], ex)])
    ty = tw(a) or tw(b)
    return mkeq(a, b, ty)


def req(I, st, ra, rb, neg=False):
    a, b = deref_all(I, st, I.load(st, ra)), deref_all(I, st, I.load(st, rb))
    r = veq(I, st, a, b)
    return mknot(r) if neg else r


def rord(I, st, name, ra, rb):
    a, b = flat(I, st, deref_all(I, st, I.load(st, ra))), flat(I, st, deref_all(I, st, I.load(st, rb)))
    a, b = scalar_view(I, a, b), scalar_view(I, b, a)
    return vord(I, st, name, a, b)


def vord(I, st, name, a, b):
    if a.op == "agg" and b.op == "agg" and len(a.args) == len(b.args) and I.db.adts.get(a.args[0], {"kind": "struct"})["kind"] != "enum":
        # lexicographic
        xs, ys = a.args[2:], b.args[2:]
        lt, eqs = FALSE, TRUE
        for x, y in zip(xs, ys):
            x, y = flat(I, st, x), flat(I, st, y)
            l = vord(I, st, "lt", x, y)
            lt = mkor(lt, mkand(eqs, l))
            eqs = mkand(eqs, veq(I, st, x, y))
        if name == "lt":
            return lt
        if name == "le":
            return mkor(lt, eqs)
        if name == "ge":
            return mknot(lt)
        return mknot(mkor(lt, eqs))
    if a.op == "agg" and b.op == "agg":
        a, b = I.discr(st, a, None), I.discr(st, b, None)
    ty = tw(a) or tw(b)
    return {"lt": lambda: mklt(a, b, ty), "gt": lambda: mklt(b, a, ty), "le": lambda: mknot(mklt(b, a, ty)),
            "ge": lambda: mknot(mklt(a, b, ty))}[name]()


def scalar_view(I, v, other):
    """opaque newtype struct compared with a scalar: take the same field"""
    return v


OPT = "core::option::Option"


def some(v):
    return T("agg", OPT, 1, v)


NONE = T("agg", OPT, 0)
ORD = "core::cmp::Ordering"
LESS, EQUAL, GREATER = T("agg", ORD, 0), T("agg", ORD, 1), T("agg", ORD, 2)


def is_range(v, kinds=("Range",)):
    return v.op == "agg" and isinstance(v.args[0], str) and "ops::" in v.args[0] and v.args[0].split("::")[-1] in kinds


def cmp_states(I, st, a, b, opt):
    """three-way comparison: forks into the orderings that are possible"""
    wrap = some if opt else (lambda x: x)
    if a.op == "agg" or b.op == "agg":
        out = []
        lt = vord(I, st, "lt", a, b)
        for s, v in I.branch_bool(st, lt):
            if v:
                out.append((s, wrap(LESS)))
                continue
            for s2, e in I.branch_bool(s, veq(I, s, a, b)):
                out.append((s2, wrap(EQUAL if e else GREATER)))
        return out
    return [(st, wrap(T("ordering", a, b)))]


def impl_is_structural(I, f, trait):
    """is the compared type's impl of `trait` derived (or is the type not an ADT of this crate)?"""
    a = f.get("args") or []
    if not a or not isinstance(a[0], int):
        return True
    ty = I.db.types[a[0]]
    while ty["k"] == "ref":
        ty = I.db.types[ty["t"]]
    if ty["k"] == "adt" and ty["local"]:
        for im in I.db.impls:
            if im["trait"].split("::")[-1] == trait and I.db.types[im["self"]].get("path") == ty["path"]:
                return im["derived"]
    return True


def base_path(f):
    p = f["path"]
    if f.get("r"):
        return f["r"]["path"]
    return p


VECS = ("alloc::vec::Vec", "allocator_api2::vec::Vec", "allocator_api2::stable::vec::Vec", "smallvec::SmallVec", "std::vec::Vec",
        "core::slice::<impl [T]>", "alloc::slice::<impl [T]>", "core::array", "<[T]>", "std::slice")


def is_vec(p):
    return any(v in p for v in VECS) or p.startswith("<[T; N]") or "impl [T]" in p


ITER_ADAPT = {"map", "filter", "enumerate", "rev", "cloned", "copied", "zip", "chain", "skip", "take", "peekable",
              "filter_map", "take_while", "skip_while", "flat_map", "inspect", "step_by", "by_ref", "fuse", "flatten", "map_while", "windows", "chunks"}


def model(I, st, fr, bb, f, args, span, tgt):
    name = f["name"]
    p = base_path(f)
    tr = (f.get("trait") or "").split("::")[-1]
    local_tgt = tgt is not None and tgt.local

    # closures and function values
    if name in ("call", "call_mut", "call_once") and tr in ("Fn", "FnMut", "FnOnce"):
        a = args[1]
        xs = list(a.args[2:]) if a.op == "agg" else [T("fld", a, "0")]
        fv = args[0]
        if tgt is not None and tgt.kind == "Closure":
            cl = fv
            while cl.op == "ref":
                n = I.load(st, cl)
                if n is cl:
                    break
                cl = n
            if (I.noinline and I.noinline(tgt)) or not (cl.op == "agg" and str(cl.args[0]).startswith("closure:")):
                return None
        if fv.op == "agg" or fv.op == "fn" or fv.op == "ref" or ("O", fv) in st.mem:
            return I.call_value(st, fr, bb, fv, xs, span)
        return None

    if local_tgt:
        if I.pregseq and args:
            if name == "into_iter" and "PRegSet" in tgt.path:
                return [(st, T("seq", "pregset", deref_all(I, st, args[0])))]
            if name == "next" and "PRegSetIter" in tgt.path and I.load(st, args[0]).op == "seq":
                return itermodel(I, st, fr, bb, f, args, span, name, p, tr)
        return None  # analysed in context

    if name in ("panic", "panic_fmt", "panic_display", "unreachable_display", "expect_failed", "unwrap_failed", "assert_failed",
                "panic_nounwind", "panic_bounds_check", "panic_explicit", "begin_panic", "unreachable_default_msg",
                "panic_const_add_overflow", "unwrap_failed", "assert_failed_inner") and ("panicking" in p or "option::" in p or "result::" in p or "rt::" in p):
        I.event(st, fr, bb, "panic", name, (), None, span)
        return []
    if name == "unreachable_unchecked":
        return []
    if p.startswith("log::") or "::log::" in p or "fmt::" in p and name.startswith("new"):
        return [(st, T("call", "log"))]
    if name in ("must_use", "black_box", "identity") and "hint" in p:
        return [(st, args[0])]

    # references / conversions that do not change what is pointed to
    if name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "by_ref", "index_full") and args \
            and (tr in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut") or is_vec(p)) and tgt is None:
        return [(st, args[0])]
    if name == "from" and tr == "From" and len(args) == 1:
        rp = (f.get("r") or {}).get("path", "")
        if rp == "<T as core::convert::From<T>>::from":
            return [(st, args[0])]
        if "core::convert::num" in rp:
            ta = f.get("args") or []
            d = I.tyname(ta[0]) if ta and isinstance(ta[0], int) else None
            if d in WIDTH:
                return [(st, mkcast(args[0], tw(args[0]) or d, d))]
        if not rp and "from_residual" in fr.body.path + fr.body.name:
            return [(st, args[0])]  # `?` with the error type unchanged (no error conversions exist in the crate)
    if name == "clone" and tr == "Clone":
        v = I.load(st, args[0])
        if is_iter(v) or v.op in ("agg", "int", "bv", "sym", "fld", "vf", "idx", "res", "call", "phi", "with", "deref", "push", "vecnew", "uninit", "bin"):
            return [(st, v)]
        return [(st, v)]
    if name in ("to_vec", "to_owned", "into_boxed_slice", "into_vec", "from_slice", "into_bump_slice", "collect_in"):
        return [(st, deref_all(I, st, args[0]))]

    # comparisons
    if tr == "PartialEq" and name in ("eq", "ne") and impl_is_structural(I, f, "PartialEq"):
        return [(st, req(I, st, args[0], args[1], name == "ne"))]
    if tr == "PartialOrd" and name in ("lt", "le", "gt", "ge"):
        if impl_is_structural(I, f, "PartialOrd"):
            return [(st, rord(I, st, name, args[0], args[1]))]
    if tr in ("Ord", "PartialOrd") and name in ("cmp", "partial_cmp") and impl_is_structural(I, f, "Ord" if tr == "Ord" else "PartialOrd"):
        a, b = flat(I, st, deref_all(I, st, I.load(st, args[0]))), flat(I, st, deref_all(I, st, I.load(st, args[1])))
        return cmp_states(I, st, a, b, name == "partial_cmp")
    if name in ("min", "max") and (tr == "Ord" or p in ("std::cmp::min", "std::cmp::max", "core::cmp::min", "core::cmp::max")):
        a, b = args
        fa, fb = flat(I, st, a), flat(I, st, b)
        ty = tw(fa) or tw(fb)
        c = mklt(fb, fa, ty)  # b < a
        out = []
        for s, v in I.branch_bool(st, c):
            # std: min returns a when equal; max returns b when equal
            if name == "min":
                out.append((s, b if v else a))
            else:
                out.append((s, a if v else b))
        return out

    r = intrinsics(I, st, fr, bb, f, args, span, name, p)
    if r is not None:
        return r

    if I.unroll:
        r = hashmodel(I, st, fr, bb, f, args, span, name, p, tr)
        if r is not None:
            return r
    r = vecmodel(I, st, fr, bb, f, args, span, name, p, tr)
    if r is not None:
        return r

    r = itermodel(I, st, fr, bb, f, args, span, name, p, tr)
    if r is not None:
        return r

    if name == "default" and tr == "Default":
        rr = f.get("r", {}).get("path", p)
        if "Vec" in rr and "vec" in rr or "SmallVec" in rr:
            return [(st, T("vecnew"))]
        t = fr.body.blocks[bb]["t"]
        dv = default_value(I, I.place_ty(fr, t[3])) if t[0] == "call" else None
        if dv is not None:
            return [(st, dv)]
    if "mem::" in p and name in ("swap", "replace", "take"):
        st = st.copy()
        if name == "swap":
            a, b = I.load(st, args[0]), I.load(st, args[1])
            I.store(st, args[0], b)
            I.store(st, args[1], a)
            I.event(st, fr, bb, "call", "core::mem::swap", args, None, span, extra={"f": f, "nargs": [a, b], "mut": [0, 1]})
            return [(st, T("agg", "tuple", 0))]
        if name == "replace":
            a = I.load(st, args[0])
            I.store(st, args[0], args[1])
            I.event(st, fr, bb, "call", "core::mem::replace", args, None, span, extra={"f": f, "nargs": [a, args[1]], "mut": [0]})
            return [(st, a)]
        a = I.load(st, args[0])
        I.store(st, args[0], T("defaultof", args[0]))
        I.event(st, fr, bb, "call", "core::mem::take", args, None, span, extra={"f": f, "nargs": [a], "mut": [0]})
        return [(st, a)]
    return None


def intrinsics(I, st, fr, bb, f, args, span, name, p):
    t = fr.body.blocks[bb]["t"]
    if "NonZero" in p and name in ("new", "get", "new_unchecked"):
        if name != "new":
            return [(st, args[0])]
        return [(s, NONE if z else some(args[0])) for s, z in I.branch_bool(st, mkeq(args[0], mkint(0, tw(args[0]) or "u64"), tw(args[0])))]
    if "num::" in p or f.get("intrinsic"):
        ty = tw(args[0]) if args else None
        if name in ("wrapping_add", "unchecked_add", "add_with_overflow") and name != "add_with_overflow":
            return [(st, mkbin("Add", args[0], args[1], ty or "u64"))]
        if name in ("wrapping_sub", "unchecked_sub"):
            return [(st, mkbin("Sub", args[0], args[1], ty or "u64"))]
        if name in ("wrapping_mul", "unchecked_mul"):
            return [(st, mkbin("Mul", args[0], args[1], ty or "u64"))]
        if name == "is_power_of_two":
            c = cint(args[0])
            if c is not None:
                return [(st, mkbool(c > 0 and c & (c - 1) == 0))]
            return [(st, T("call", name, args[0]))]
        if name in ("trailing_zeros", "cttz", "leading_zeros", "ctlz", "count_ones", "ctpop", "ilog2"):
            c = cint(args[0])
            w = WIDTH.get(ty or "u64")
            name2 = {"cttz": "trailing_zeros", "ctlz": "leading_zeros", "ctpop": "count_ones"}.get(name, name)
            if c is not None and (c or name2 != "ilog2"):
                v = {"trailing_zeros": lambda: (c & -c).bit_length() - 1 if c else w, "leading_zeros": lambda: w - c.bit_length(),
                     "count_ones": lambda: bin(c).count("1"), "ilog2": lambda: c.bit_length() - 1}[name2]()
                return [(st, mkint(v, "u32"))]
            xb = bits(args[0], ty) if ty else None
            if xb and name2 in ("trailing_zeros", "leading_zeros"):
                xs = list(xb) if name2 == "trailing_zeros" else list(xb)[::-1]
                n0 = 0
                while n0 < len(xs) and xs[n0] == 0:
                    n0 += 1
                if n0 < len(xs) and xs[n0] == 1:
                    return [(st, mkint(n0, "u32"))]
            x = T("call", name2, args[0])
            settype(x, "u32")
            return [(st, x)]
        if name in ("next_power_of_two", "abs_diff", "pow", "swap_bytes", "rotate_left", "rotate_right", "from_be", "to_be"):
            x = T("call", name, *args)
            if ty:
                settype(x, ty)
            return [(st, x)]
        if name in ("saturating_sub", "saturating_add"):
            if args[0].op == "int" and args[1].op == "int":
                w = WIDTH.get(ty or "u64")
                v = args[0].args[0] - args[1].args[0] if name == "saturating_sub" else args[0].args[0] + args[1].args[0]
                return [(st, mkint(max(0, min(v, (1 << w) - 1)), ty or "u64"))]
            x = T("call", name, *args)
            if ty:
                settype(x, ty)
            return [(st, x)]
        if name in ("checked_add", "checked_sub", "checked_mul"):
            x = T("call", name, *args)
            return [(st, x)]
    if f.get("intrinsic"):
        if name in ("size_of", "min_align_of", "align_of", "type_id", "needs_drop"):
            return [(st, T("konst", name + repr(f.get("args"))))]
        if name in ("discriminant_value",):
            v = I.load(st, args[0])
            return [(st, I.discr(st, v, None))]
        if name in ("cold_path", "assume", "assert_inhabited", "likely", "unlikely"):
            return [(st, args[0] if name in ("likely", "unlikely") else T("agg", "tuple", 0))]
        if name == "three_way_compare":
            return cmp_states(I, st, args[0], args[1], False)
        if name in ("read_via_copy", "volatile_load"):
            return [(st, I.load(st, args[0]))]
        if name == "write_via_move":
            st = st.copy()
            I.store(st, args[0], args[1])
            return [(st, T("agg", "tuple", 0))]
        if name == "transmute":
            return [(st, args[0])]
    return None


def strip_ro(v):
    return v


def hm_of(I, st, v):
    """the location of a hash map of known contents: agg("hm", 0, keys, values)"""
    for _ in range(3):
        if v.op != "ref":
            return None
        root, projs = I.target(v)
        m = I.read(st, root, projs)
        if m.op == "agg" and m.args[0] == "hm":
            return root, projs, m
        v = m
    return None


def hashmodel(I, st, fr, bb, f, args, span, name, p, tr):
    """hash maps of known contents (see hm_of)"""
    if not args or (f.get("r") or {}).get("local"):
        return None
    if args[0].op == "agg" and args[0].args[0] == "hmentry":
        _, _, ref, key, idx = args[0].args
        root, projs = I.target(ref)
        st = st.copy()
        m = I.read(st, root, projs)
        ks, vs = m.args[2:]
        if idx < 0:
            if name not in ("or_insert", "or_insert_with", "or_default"):
                return None
            vals = [(st, args[1] if name == "or_insert" else mkint(0, next((tw(x) for x in vs.args[2:] if tw(x)), None) or "u64"))] if name != "or_insert_with" else \
                I.call_value(st, fr, bb, args[1], [], span, ".oi")
            out = []
            for s, x in vals:
                if x is None:
                    return None
                n = len(ks.args) - 2
                I.write(s, root, projs, T("agg", "hm", 0, T("agg", "array", 0, *ks.args[2:], key), T("agg", "array", 0, *vs.args[2:], x)))
                out.append((s, I.mkref(root, projs + (("f", 1, "values"), ("i", mkint(n, U))))))
            return out
        if name in ("or_insert", "or_insert_with", "or_default"):
            return [(st, I.mkref(root, projs + (("f", 1, "values"), ("i", mkint(idx, U)))))]
        return None
    h = hm_of(I, st, args[0])
    if h is None:
        return None
    root, projs, m = h
    ks, vs = m.args[2].args[2:], m.args[3].args[2:]
    n = len(ks)
    kref = [I.mkref(root, projs + (("f", 0, "keys"), ("i", mkint(i, U)))) for i in range(n)]
    vref = [I.mkref(root, projs + (("f", 1, "values"), ("i", mkint(i, U)))) for i in range(n)]
    if name in ("iter", "iter_mut", "into_iter"):
        return [(st, T("seq", "list", *[T("agg", "tuple", 0, a, b) for a, b in zip(kref, vref)]))]
    if name in ("values", "values_mut"):
        return [(st, T("seq", "list", *vref))]
    if name == "keys":
        return [(st, T("seq", "list", *kref))]
    if name == "len":
        return [(st, mkint(n, U))]
    if name == "is_empty":
        return [(st, mkbool(n == 0))]
    if name in ("get", "get_mut", "entry", "contains_key"):
        key = deref_all(I, st, args[1])
        out = []
        pend = st
        for i, k in enumerate(ks):
            hit = None
            for s2, b in I.branch_bool(pend, mkeq(k, key, tw(k) or "u32")):
                if b:
                    out.append((s2, i))
                else:
                    hit = s2
            pend = hit
            if pend is None:
                break
        if pend is not None:
            out.append((pend, None))
        res = []
        for s2, i in out:
            if name == "entry":
                res.append((s2, T("agg", "hmentry", 0, I.mkref(root, projs), key, -1 if i is None else i)))
            elif name == "contains_key":
                res.append((s2, mkbool(i is not None)))
            else:
                res.append((s2, NONE if i is None else some(vref[i])))
        return res
    return None


def vecmodel(I, st, fr, bb, f, args, span, name, p, tr):
    isv = is_vec(p)
    if tr in ("Index", "IndexMut") and name in ("index", "index_mut"):
        if f.get("r", {}).get("local"):
            return None
        base, i = args
        if "HashMap" in p or "BTreeMap" in p:
            return None
        i = flat(I, st, i) if i.op == "agg" and not is_range(i, ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive")) else i
        root, projs = I.target(base)
        if i.op == "agg":
            rng = i.args[0].split("::")[-1]
            if rng == "RangeFull":
                return [(st, base)]
            v = I.read(st, root, projs)
            sl = T("slref", v, rng, *i.args[2:])
            n = I.length(st, v)
            xs = [I.intval(st, x) for x in i.args[2:]]
            if name == "index" and n.op == "int" and v.op == "agg" and None not in xs and rng != "RangeInclusive":
                lo, hi = {"Range": lambda: (xs[0], xs[1]), "RangeTo": lambda: (0, xs[0]), "RangeFrom": lambda: (xs[0], n.args[0]),
                          "RangeToInclusive": lambda: (0, xs[0] + 1)}[rng]()
                st = st.copy()
                st.mem[("O", sl)] = T("agg", "array", 0, *v.args[2 + lo:2 + hi])
            return [(st, sl)]
        return [(st, I.mkref(root, projs + (("i", i),)))]
    if not isv:
        return None
    if name in ("new", "new_in", "with_capacity", "with_capacity_in") and ("Vec" in p):
        return [(st, T("vecnew"))]
    if name == "from_elem":
        return [(st, T("fill", args[0], -1))]
    if name == "len":
        return [(st, I.length(st, I.load(st, args[0])))]
    if name == "is_empty":
        return [(st, mkeq(I.length(st, I.load(st, args[0])), mkint(0, U), U))]
    if name in ("as_ptr", "as_mut_ptr", "capacity"):
        return [(st, T("call", name, args[0]))]
    if name in ("first", "last", "first_mut", "last_mut"):
        root, projs = I.target(args[0])
        v = I.read(st, root, projs)
        ln = I.length(st, v)
        c = mkeq(ln, mkint(0, U), U)
        out = []
        for s, e in I.branch_bool(st, c):
            if e:
                out.append((s, NONE))
            else:
                idx = mkint(0, U) if name.startswith("first") else mkbin("Sub", ln, mkint(1, U), U)
                out.append((s, some(I.mkref(root, projs + (("i", idx),)))))
        return out
    if name in ("get", "get_mut"):
        root, projs = I.target(args[0])
        i = flat(I, st, args[1])
        if i.op == "agg":
            v = I.read(st, root, projs)
            x = T("call", "get_range", v, i)
            return [(st, x)]
        v = I.read(st, root, projs)
        c = mklt(i, I.length(st, v), U)
        out = []
        for s, e in I.branch_bool(st, c):
            out.append((s, some(I.mkref(root, projs + (("i", i),))) if e else NONE))
        return out
    if name in ("get_unchecked", "get_unchecked_mut"):
        root, projs = I.target(args[0])
        return [(st, I.mkref(root, projs + (("i", flat(I, st, args[1])),)))]
    if name == "push":
        st = st.copy()
        root, projs = I.target(args[0])
        I.event(st, fr, bb, "call", "push", (args[0], args[1]), None, span, extra={"f": f, "nargs": [args[0], args[1]], "mut": [0]})
        old = I.read(st, root, projs)
        I.write(st, root, projs, T("push", old, args[1]))
        return [(st, T("agg", "tuple", 0))]
    if name in ("clear",):
        st = st.copy()
        root, projs = I.target(args[0])
        I.event(st, fr, bb, "call", "clear", (args[0],), None, span, extra={"f": f, "nargs": [args[0]], "mut": [0]})
        I.write(st, root, projs, T("vecnew"))
        return [(st, T("agg", "tuple", 0))]
    if name == "contains":
        v = I.load(st, args[0])
        x = deref_all(I, st, args[1])
        t = T("contains", v, x)
        settype(t, "bool")
        return [(st, t)]
    if name in ("iter", "iter_mut"):
        return [(st, seq_of_ref(I, st, args[0]))]
    if name == "into_iter":
        return [(st, to_seq(I, st, fr, bb, args[0], f))]
    if name in ("split_at", "split_at_mut") and len(args) == 2:
        v = I.load(st, args[0])
        if cint(args[1]) == 0:
            pass
        return [(st, T("agg", "tuple", 0, T("slref", v, "RangeTo", args[1]), T("slref", v, "RangeFrom", args[1])))]
    return None


# ---------------------------------------------------------------- iterators
# T("seq", kind, ...): kind in slice(ref) | range(a,b,incl) | own(value) | opaque(term) | adapter(inner, ...)

def is_iter(v):
    return v.op == "seq"


def seq_of_ref(I, st, r):
    return T("seq", "slice", r)


def to_seq(I, st, fr, bb, v, f=None):
    if v.op == "seq":
        return v
    if f is not None and (f.get("r") or {}).get("path", "").startswith("<I as core::iter"):
        if v.op == "agg" and I.db.adts.get(v.args[0], {}).get("kind") and v.args[0] in I.local_adts():
            return v  # an iterator defined in the crate
    if is_range(v):
        return T("seq", "range", v.args[2], v.args[3], False)
    if is_range(v, ("RangeFrom",)):
        return T("seq", "rangefrom", v.args[2])
    if is_range(v, ("RangeInclusive",)):
        return T("seq", "range", v.args[2], v.args[3], True)
    if v.op == "call" and v.args[0].endswith("range_inclusive"):
        return T("seq", "range", v.args[1], v.args[2], True)
    # by-reference or by-value collection?
    byref = False
    t = fr.body.blocks[bb]["t"]
    if t[0] == "call" and t[2]:
        o = t[2][0]
        ty = o[1]["t"] if o[0] == "k" else I.place_ty(fr, o[1])
        if ty is not None:
            k = I.db.types[ty]["k"]
            byref = k == "ref"
    if v.op == "ref" or byref:
        inner = I.load(st, v)
        if inner.op == "seq":
            return T("seq", "byref", v)
        return T("seq", "slice", v)
    return T("seq", "own", v)


def seqval(I, st, q):
    """what the sequence runs over, as it is now"""
    while q.op == "seq" and len(q.args) > 1 and isinstance(q.args[1], T):
        if q.args[0] in ("slice", "byref") and q.args[1].op in ("ref",):
            return I.load(st, q.args[1])
        q = q.args[1]
    return q


def seq_next(I, st, fr, bb, q, span, tag):
    """[(state, None | element)] for an arbitrary `next` on sequence q"""
    k = q.args[0]
    any_ = T("any", tag)
    if k == "slice":
        r = q.args[1]
        if r.op == "slref":
            root, projs = ("O", r), ()
        else:
            root, projs = I.target(r)
        v = I.read(st, root, projs)
        ln = I.length(st, v)
        out = []
        if ln.op == "int" and ln.args[0] == 0:
            return [(st, None)]
        settype(any_, U)
        return [(st, None), (st, I.mkref(root, projs + (("i", any_),)))]
    if k == "own":
        settype(any_, U)
        v = q.args[1]
        if v.op == "agg" and v.args[0] == "array" and len(v.args) == 2 or v.op == "vecnew":
            return [(st, None)]
        return [(st, None), (st, I.getf(v, ("i", any_)))]
    if k == "range":
        a, b = q.args[1], q.args[2]
        e = T("elem", a, b, any_)
        ty = tw(a) or tw(b) or U
        settype(e, ty)
        s2 = st.copy()
        if not q.args[3]:
            c = mklt(a, b, ty)
            if c is FALSE:
                return [(st, None)]
        s2.facts[T("lt", e, b)] = True if not q.args[3] else s2.facts.get(T("lt", e, b), True)
        if q.args[3]:
            del s2.facts[T("lt", e, b)]
        return [(st, None), (s2, e)]
    if k == "rangefrom":
        e = T("elem", q.args[1], T("sym", "inf"), any_)
        settype(e, tw(q.args[1]) or U)
        return [(st, e)]
    if k == "pregset":
        # an arbitrary member (C22 shows that the iterator yields exactly the members)
        e = T("member", q.args[1], any_)
        s2 = st.copy()
        s2.facts[T("contains", q.args[1], e)] = True
        return [(st, None), (s2, e)]
    if k == "opaque":
        e = T("res", "next", tag, *[a for a in q.args[1:] if isinstance(a, T)])
        return [(st, None), (st, e)]
    inner = q.args[1]
    if k == "byref":
        q2 = I.load(st, inner)
        if q2.op != "seq":
            q2 = T("seq", "opaque", inner)
        return seq_next(I, st, fr, bb, q2, span, tag + ("b",))
    if k in ("rev", "peekable", "inspect", "fuse", "drain"):
        return seq_next(I, st, fr, bb, inner, span, tag)
    if k in ("skip", "take", "step_by"):
        return seq_next(I, st, fr, bb, inner, span, tag + (k,))  # marked: not every element is visited
    if k in ("cloned", "copied"):
        return [(s, None if e is None else I.load(s, e)) for s, e in seq_next(I, st, fr, bb, inner, span, tag)]
    if k == "enumerate":
        out = []
        for s, e in seq_next(I, st, fr, bb, inner, span, tag):
            if e is None:
                out.append((s, None))
            else:
                # the index of the element that was produced
                i = T("any", tag) if inner.args[0] in ("slice", "own") else T("enum", inner, T("any", tag))
                settype(i, U)
                out.append((s, T("agg", "tuple", 0, i, e)))
        return out
    if k == "zip":
        out = []
        for s, e in seq_next(I, st, fr, bb, inner, span, tag):
            if e is None:
                out.append((s, None))
                continue
            # the same position of the second sequence
            for s2, e2 in seq_next(I, s, fr, bb, q.args[2], span, tag):
                out.append((s2, None if e2 is None else T("agg", "tuple", 0, e, e2)))
        return out
    if k == "chain":
        out = []
        for s, e in seq_next(I, st, fr, bb, inner, span, tag + ("a",)):
            if e is not None:
                out.append((s, e))
        out += seq_next(I, st, fr, bb, q.args[2], span, tag + ("z",))
        return out
    if k == "map":
        out = []
        for s, e in seq_next(I, st, fr, bb, inner, span, tag):
            if e is None:
                out.append((s, None))
            else:
                for s2, v in I.call_value(s, fr, bb, q.args[2], [e], span, ".m"):
                    out.append((s2, v))
        return out
    if k in ("filter", "take_while", "skip_while", "map_while", "filter_map"):
        out = []
        for s, e in seq_next(I, st, fr, bb, inner, span, tag):
            if e is None:
                out.append((s, None))
                continue
            arg = e
            if k in ("filter", "take_while", "skip_while"):
                s = s.copy()
                root = ("L", fr.id, "it%d%s" % (bb, k))
                s.mem[root] = e
                arg = T("ref", root, ())
            for s2, v in I.call_value(s, fr, bb, q.args[2], [arg], span, "." + k):
                if k in ("filter", "take_while"):
                    for s3, b in I.branch_bool(s2, v):
                        if b:
                            out.append((s3, e))
                        elif k == "take_while":
                            out.append((s3, None))
                        else:
                            I.drops.append(s3)
                elif k == "skip_while":
                    out.append((s2, e))
                else:
                    d = I.discr(s2, v, None)
                    for s3, b in I.branch_bool(s2, mkeq(d, mkint(1, "isize"), "isize")):
                        if b:
                            out.append((s3, I.getf(v, ("vf", 1, 0))))
                        elif k == "map_while":
                            out.append((s3, None))
                        else:
                            I.drops.append(s3)
        return out
    if k in ("flat_map", "flatten"):
        out = []
        for s, e in seq_next(I, st, fr, bb, inner, span, tag + ("o",)):
            if e is None:
                out.append((s, None))
                continue
            vs = I.call_value(s, fr, bb, q.args[2], [e], span, ".fm") if k == "flat_map" else [(s, e)]
            for s2, v in vs:
                v2 = v if v.op == "seq" else T("seq", "slice" if v.op == "ref" else "own", v)
                for s3, e3 in seq_next(I, s2, fr, bb, v2, span, tag + ("i",)):
                    if e3 is not None:
                        out.append((s3, e3))
        return out
    e = T("res", "next", tag, inner)
    return [(st, None), (st, e)]


def materialize(I, st, q):
    """the elements of a sequence of statically known length, or None"""
    k = q.args[0]
    if k == "list":
        return list(q.args[1:])
    if k == "slice" and q.args[1].op != "slref":
        root, projs = I.target(q.args[1])
        n = I.length(st, I.read(st, root, projs))
        if n.op != "int" or n.args[0] > 4096:
            return None
        return [I.mkref(root, projs + (("i", mkint(i, U)),)) for i in range(n.args[0])]
    if k == "slice":
        v, rng = q.args[1].args[0], q.args[1].args[1]
        n = I.length(st, v)
        xs = [I.intval(st, x) for x in q.args[1].args[2:]]
        if n.op != "int" or any(x is None for x in xs):
            return None
        lo, hi = {"Range": lambda: (xs[0], xs[1]), "RangeTo": lambda: (0, xs[0]), "RangeFrom": lambda: (xs[0], n.args[0]),
                  "RangeInclusive": lambda: (xs[0], xs[1] + 1), "RangeToInclusive": lambda: (0, xs[0] + 1)}[rng]()
        root = ("O", q.args[1])
        st.mem.setdefault(root, v)
        return [I.mkref(root, (("i", mkint(i, U)),)) for i in range(lo, hi)]
    if k == "own":
        n = I.length(st, q.args[1])
        if n.op != "int" or n.args[0] > 4096:
            return None
        return [I.getf(q.args[1], ("i", mkint(i, U))) for i in range(n.args[0])]
    if k == "range":
        a, b = I.intval(st, q.args[1]), I.intval(st, q.args[2])
        if a is None or b is None or b - a > 4096:
            return None
        return [mkint(i, tw(q.args[1]) or tw(q.args[2]) or U) for i in range(a, b + (1 if q.args[3] else 0))]
    if k in ("peekable", "fuse"):
        return materialize(I, st, q.args[1])
    if k in ("rev", "copied", "cloned", "enumerate"):
        l = materialize(I, st, q.args[1])
        if l is None:
            return None
        if k == "rev":
            return l[::-1]
        if k == "enumerate":
            return [T("agg", "tuple", 0, mkint(i, U), x) for i, x in enumerate(l)]
        return [I.load(st, x) for x in l]
    if k in ("zip", "chain"):
        a, b = materialize(I, st, q.args[1]), materialize(I, st, q.args[2])
        if a is None or b is None:
            return None
        return a + b if k == "chain" else [T("agg", "tuple", 0, x, y) for x, y in zip(a, b)]
    if k in ("skip", "take"):
        a, n = materialize(I, st, q.args[1]), I.intval(st, q.args[2])
        if a is None or n is None:
            return None
        return a[n:] if k == "skip" else a[:n]
    return None


def seq_step(I, st, fr, bb, q, span, depth=0):
    """one concrete step: [(state, element or None, rest)], or None when the sequence is not statically known"""
    if q.op == "agg" and q.args[0] in I.local_adts():
        # an iterator defined in the crate
        bs = [b for b in I.db.find("next", q.args[0].split("::")[-1], "Iterator")]
        if len(bs) != 1 or len(fr.chain) > I.maxdepth:
            return None
        s = st.copy()
        root = ("L", fr.id, "li%d.%d" % (bb, depth))
        s.mem[root] = q
        out = []
        for s2, v in I.call_body(s, bs[0], [T("ref", root, ())], "%s/%d.n%d" % (fr.id, bb, depth), fr.chain):
            q2 = I.read(s2, root, ())
            for s3, b in I.branch_bool(s2, mkeq(I.discr(s2, v, None), mkint(1, "isize"), "isize")):
                out.append((s3, I.getf(v, ("vf", 1, 0)) if b else None, q2))
        return out
    if q.op != "seq":
        return None
    k = q.args[0]
    if k == "flat_map":
        outer, fn = q.args[1], q.args[2]
        cur = q.args[3] if len(q.args) > 3 else None
        if cur is not None:
            r = seq_step(I, st, fr, bb, cur, span, depth + 1)
            if r is None:
                return None
            out = []
            for s, e, rest in r:
                if e is not None:
                    out.append((s, e, T("seq", k, outer, fn, rest)))
                else:
                    r2 = seq_step(I, s, fr, bb, T("seq", k, outer, fn), span, depth)
                    if r2 is None:
                        return None
                    out += r2
            return out
        r = seq_step(I, st, fr, bb, outer, span, depth + 1)
        if r is None:
            return None
        out = []
        for s, e, rest in r:
            if e is None:
                out.append((s, None, T("seq", k, rest, fn)))
                continue
            for s2, v in I.call_value(s, fr, bb, fn, [e], span, ".u%d" % depth):
                v = v if v.op == "seq" or v.op == "agg" else T("seq", "slice" if v.op == "ref" else "own", v)
                r2 = seq_step(I, s2, fr, bb, T("seq", k, rest, fn, v), span, depth)
                if r2 is None:
                    return None
                out += r2
        return out
    if k in ("map", "filter", "filter_map", "inspect"):
        inner = seq_step(I, st, fr, bb, q.args[1], span, depth + 1)
        if inner is None:
            return None
        out = []
        for s, e, rest in inner:
            q2 = T("seq", k, rest, *q.args[2:])
            if e is None:
                out.append((s, None, q2))
                continue
            if k in ("map", "filter_map"):
                for s2, v in I.call_value(s, fr, bb, q.args[2], [e], span, ".u%d" % depth):
                    if k == "map":
                        out.append((s2, v, q2))
                        continue
                    d = I.discr(s2, v, None)
                    for s3, b in I.branch_bool(s2, mkeq(d, mkint(1, "isize"), "isize")):
                        out += [(s3, I.getf(v, ("vf", 1, 0)), q2)] if b else seq_step(I, s3, fr, bb, q2, span, depth)
                continue
            s = s.copy()
            root = ("L", fr.id, "us%d.%d" % (bb, depth))
            s.mem[root] = e
            for s2, v in I.call_value(s, fr, bb, q.args[2], [T("ref", root, ())], span, ".u%d" % depth):
                if k == "inspect":
                    out.append((s2, e, q2))
                    continue
                for s3, b in I.branch_bool(s2, v):
                    out += [(s3, e, q2)] if b else seq_step(I, s3, fr, bb, q2, span, depth)
        return out
    if k == "byref":
        q2 = I.load(st, q.args[1])
        r = seq_step(I, st, fr, bb, q2, span, depth) if q2.op == "seq" else None
        if r is None:
            return None
        out = []
        for s, e, rest in r:
            s = s.copy()
            I.store(s, q.args[1], rest)
            out.append((s, e, q))
        return out
    if k == "own" and q.args[1].op == "agg" and q.args[1].args[0] in I.local_adts() and \
            len(I.db.find("next", q.args[1].args[0].split("::")[-1], "Iterator")) == 1:
        return seq_step(I, st, fr, bb, q.args[1], span, depth)
    l = materialize(I, st, q)
    if l is None:
        return None
    if not l:
        return [(st, None, q)]
    return [(st, l[0], T("seq", "list", *l[1:]))]


def consume_unrolled(I, st, fr, bb, q, name, args, span):
    out = []
    if seq_step(I, st.copy(), fr, bb, q, span) is None:
        return None
    acc0 = {"fold": lambda: args[1], "sum": lambda: mkint(0, "u64"), "count": lambda: mkint(0, U), "last": lambda: NONE}.get(name, lambda: None)()
    pend = [(st, q, acc0, 0)]
    while pend:
        s, q_, acc, i = pend.pop()
        for s2, e, rest in seq_step(I, s, fr, bb, q_, span):
            if e is None and name == "collect":
                out.append((s2, T("call", "iter_collect", T("seq", "list", *(acc or ())))))
                continue
            if e is None:
                out.append((s2, {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "for_each": T("agg", "tuple", 0)}.get(name, acc)))
                continue
            if name in ("any", "all", "position"):
                for s3, v in I.call_value(s2, fr, bb, args[1], [e], span, ".q%d" % i):
                    for s4, b in I.branch_bool(s3, v):
                        if b == (name != "all"):
                            out.append((s4, {"any": TRUE, "all": FALSE}.get(name) or some(mkint(i, U))))
                        else:
                            pend.append((s4, rest, acc, i + 1))
            elif name == "find":
                s2 = s2.copy()
                root = ("L", fr.id, "it%d" % bb)
                s2.mem[root] = e
                for s3, v in I.call_value(s2, fr, bb, args[1], [T("ref", root, ())], span, ".q%d" % i):
                    for s4, b in I.branch_bool(s3, v):
                        if b:
                            out.append((s4, some(e)))
                        else:
                            pend.append((s4, rest, acc, i + 1))
            elif name == "for_each":
                for s3, v in I.call_value(s2, fr, bb, args[1], [e], span, ".q%d" % i):
                    pend.append((s3, rest, acc, i + 1))
            elif name == "fold":
                for s3, v in I.call_value(s2, fr, bb, args[2], [acc, e], span, ".q%d" % i):
                    pend.append((s3, rest, v, i + 1))
            elif name == "count":
                pend.append((s2, rest, mkint(i + 1, U), i + 1))
            elif name == "last":
                pend.append((s2, rest, some(e), i + 1))
            elif name == "collect":
                pend.append((s2, rest, (acc or ()) + (e,), i + 1))
            elif name == "sum":
                e = deref_all(I, s2, e)
                ty = tw(e) or "u64"
                pend.append((s2, rest, mkbin("Add", e, acc, ty) if i else e, i + 1))
            else:
                return None
    return out


def itermodel(I, st, fr, bb, f, args, span, name, p, tr):
    isit = tr in ("Iterator", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "Extend", "FromIterator") or "iter::" in p
    if name == "into_iter" and tr == "IntoIterator":
        if f.get("r", {}).get("local"):
            return None
        return [(st, to_seq(I, st, fr, bb, args[0], f))]
    if "RangeInclusive" in p and name == "new":
        return [(st, T("seq", "range", args[0], args[1], True))]
    if not isit:
        if name in ("drain", "drain_range") and is_vec(p):
            st = st.copy()
            root, projs = I.target(args[0])
            v = I.read(st, root, projs)
            I.event(st, fr, bb, "call", "drain", args, None, span, extra={"f": f, "nargs": list(args), "mut": [0]})
            I.write(st, root, projs, T("hv", root, projs, (fr.id, bb) + st.loops))
            q = T("seq", "own", v)
            if len(args) > 1 and not (args[1].op == "agg" and str(args[1].args[0]).endswith("RangeFull")):
                q = T("seq", "skip", q, args[1])  # a part of it
            return [(st, q)]
        if name in ("keys", "values", "values_mut", "iter", "iter_mut", "range", "drain", "intersection", "union", "into_keys") and ("Map" in p or "Set" in p):
            v = deref_all(I, st, args[0])
            q = T("seq", "opaque", T("call", name, v, *args[1:]))
            if name in ("drain",):
                st = st.copy()
                I.event(st, fr, bb, "call", "drain", args, None, span, extra={"f": f, "nargs": list(args), "mut": [0]})
                root, projs = I.target(args[0])
                I.write(st, root, projs, T("hv", root, projs, (fr.id, bb) + st.loops))
            return [(st, q)]
        if name in ("peek", "peek_mut", "next_if", "next_if_eq") and "Peekable" in p:
            pass
        else:
            return None
    tag = (fr.id, bb) + st.loops
    if name in ITER_ADAPT and tr == "Iterator":
        q = args[0]
        if q.op != "seq":
            if q.op == "ref" or q.op == "agg":
                q = to_seq(I, st, fr, bb, q)
            else:
                q = T("seq", "opaque", q)
        if name == "by_ref":
            return [(st, args[0])]
        x = [to_seq(I, st, fr, bb, a) if name in ("zip", "chain") else a for a in args[1:]]
        return [(st, T("seq", name, q, *x))]
    if name in ("next", "next_back", "peek"):
        if f.get("r", {}).get("local") and not I.pregseq:
            return None
        q = I.load(st, args[0])
        if is_range(q):
            q = to_seq(I, st, fr, bb, q)
        if q.op != "seq":
            q2 = T("seq", "opaque", args[0])
        else:
            q2 = q
        out = []
        peek = name == "peek"
        if I.unroll and not peek:
            if name == "next_back":
                q2 = T("seq", "rev", q2)
            r = seq_step(I, st, fr, bb, q2, span)
            if r is not None:
                for s, e, rest in r:
                    s = s.copy()
                    I.store(s, args[0], rest if name == "next" else T("seq", "rev", rest))
                    out.append((s, NONE if e is None else some(e)))
                return out
        I.drops = []
        elems = seq_next(I, st, fr, bb, q2, span, tag)
        if I.drops and st.loops and st.loops[-1] == "%s@%d" % (fr.id, bb):
            # an element the filter drops is an iteration that does nothing
            for s in I.drops:
                I.dropped(fr, st.loops[-1], s)
        I.drops = []
        for s, e in elems:
            if e is None:
                s = s.copy()
                s.facts[T("done", tag)] = True
                out.append((s, NONE))
            else:
                if peek:
                    s = s.copy()
                    root = ("L", fr.id, "pk%d" % bb)
                    s.mem[root] = e
                    e = T("ref", root, ())
                out.append((s, some(e)))
        return out
    if tr == "Iterator" and name in ("any", "all", "find", "position", "for_each", "find_map", "fold", "count", "last", "min", "max", "sum",
                                     "collect", "nth", "min_by_key", "max_by_key", "eq", "rposition", "try_for_each", "size_hint", "product", "cmp", "lt"):
        q = args[0]
        if q.op == "ref" or (q.op != "seq" and I.load(st, q).op == "seq"):
            q = I.load(st, q)
        if q.op != "seq":
            q = to_seq(I, st, fr, bb, q) if q.op == "agg" else T("seq", "opaque", q)
        if f.get("r", {}).get("local"):
            return None
        if I.unroll:
            r = consume_unrolled(I, st, fr, bb, q, name, args, span)
            if r is not None:
                return r
        if name in ("any", "all"):
            # any: true iff some element satisfies the predicate
            out = []
            t = T("quant", name, q, args[1], tag, seqval(I, st, q))
            stop, go = [], []
            for s, e in seq_next(I, st, fr, bb, q, span, tag):
                if e is None:
                    continue
                for s2, v in I.call_value(s, fr, bb, args[1], [e], span, ".q"):
                    for s3, b in I.branch_bool(s2, v):
                        if b == (name == "any"):
                            stop.append(s3)
                        else:
                            go.append(s3)
            out = [(s, mkbool(name == "any")) for s in stop]
            # every element behaves like one of the generic states of `go`
            st = st.copy()
            st.facts[t] = True
            I.quants[t] = go
            out.append((st, mkbool(name != "any")))
            return out
        if name in ("find", "position", "find_map", "rposition"):
            out = []
            t = T("quant", name, q, args[1], tag, seqval(I, st, q))
            go = I.quants[t] = []
            st0, st = st, st.copy()
            st.facts[t] = True
            out.append((st, NONE))
            st = st0
            for s, e in seq_next(I, st, fr, bb, q, span, tag):
                if e is None:
                    continue
                arg = e
                if name == "find":
                    s = s.copy()
                    root = ("L", fr.id, "it%d" % bb)
                    s.mem[root] = e
                    arg = T("ref", root, ())
                for s2, v in I.call_value(s, fr, bb, args[1], [arg], span, ".q"):
                    if name == "find_map":
                        d = I.discr(s2, v, None)
                        for s3, b in I.branch_bool(s2, mkeq(d, mkint(1, "isize"), "isize")):
                            if b:
                                out.append((s3, v))
                            else:
                                go.append(s3)
                        continue
                    for s3, b in I.branch_bool(s2, v):
                        if b:
                            i = T("any", tag)
                            settype(i, U)
                            out.append((s3, some(e if name == "find" else i)))
                        else:
                            go.append(s3)
            return out
        if name == "try_for_each":
            r = try_for_each(I, st, fr, bb, q, args[1], span, tag)
            if r is not None:
                return r
        if name == "for_each":
            # one arbitrary iteration, then continue with everything the closure may change widened
            return for_each(I, st, fr, bb, q, args[1], span, tag)
        # everything else: uninterpreted function of the sequence, but the adapters' closures are analysed for their events
        I.dry += 0
        for s, e in seq_next(I, st, fr, bb, q, span, tag):
            if e is not None and name in ("fold",):
                for s2, v in I.call_value(s, fr, bb, args[2], [T("res", "acc", tag), e], span, ".f"):
                    pass
            if e is not None and name in ("min_by_key", "max_by_key"):
                s = s.copy()
                root = ("L", fr.id, "it%d" % bb)
                s.mem[root] = e
                for s2, v in I.call_value(s, fr, bb, args[1], [T("ref", root, ())], span, ".f"):
                    pass
        if name in ("last", "max", "min", "nth"):
            out = [(st, NONE)]
            for s, e in seq_next(I, st, fr, bb, q, span, tag):
                if e is not None:
                    out.append((s, some(e)))
            return out
        x = T("call", "iter_" + name, q, *args[1:])
        return [(st, x)]
    if tr == "Extend" and name == "extend":
        q = args[1]
        if q.op != "seq":
            q = to_seq2(I, st, q)
        st = st.copy()
        out = []
        for s, e in seq_next(I, st, fr, bb, q, span, tag):
            if e is not None:
                s = s.copy()
                I.event(s, fr, bb, "call", "push", (args[0], e), None, span, extra={"f": f, "nargs": [args[0], e], "mut": [0], "extend": True})
        root, projs = I.target(args[0])
        I.event(st, fr, bb, "call", "extend", (args[0], q), None, span, extra={"f": f, "nargs": [args[0], q], "mut": [0]})
        old = I.read(st, root, projs)
        I.write(st, root, projs, T("extend", old, q))
        return [(st, T("agg", "tuple", 0))]
    return None


def to_seq2(I, st, v):
    if v.op == "seq":
        return v
    if v.op == "ref":
        return T("seq", "slice", v)
    return T("seq", "own", v)


def for_each(I, st, fr, bb, q, clo, span, tag):
    cur = st.copy()
    key = "%s@fe%d" % (fr.id, bb)
    saved = cur.loops
    cur.loops = cur.loops + (key,)
    tag = (fr.id, bb) + cur.loops

    def once(s0):
        backs = []
        for s, e in seq_next(I, s0.copy(), fr, bb, q, span, tag):
            if e is not None:
                for s2, v in I.call_value(s, fr, bb, clo, [e], span, ".fe"):
                    backs.append(s2)
        return backs
    for _ in range(12):
        I.dry += 1
        try:
            backs = once(cur)
        finally:
            I.dry -= 1
        n = I.widen(key, cur, backs)
        if n is None:
            break
        cur = n
    backs = once(cur)
    I.on_loop(fr, -1 - bb, key, st, cur, backs, [])
    out = cur.copy()
    out.loops = saved
    out.facts[T("done", tag)] = True
    return [(out, T("agg", "tuple", 0))]


def try_for_each(I, st, fr, bb, q, clo, span, tag):
    """for_each that ends with the first failure the closure answers"""
    cur = st.copy()
    key = "%s@te%d" % (fr.id, bb)
    saved = cur.loops
    cur.loops = cur.loops + (key,)
    tag = (fr.id, bb) + cur.loops

    def once(s0):
        backs, exits = [], []
        for s, e in seq_next(I, s0.copy(), fr, bb, q, span, tag):
            if e is None:
                continue
            for s2, v in I.call_value(s, fr, bb, clo, [e], span, ".te"):
                if v.op != "agg" or not v.args[0].endswith(("Result", "Option", "ControlFlow")):
                    return None, None, None
                good = v.args[1] == (1 if v.args[0].endswith("Option") else 0)
                (backs if good else exits).append(s2 if good else (s2, v))
                if good:
                    last.append(v)
        return backs, exits, last
    last = []
    for _ in range(12):
        I.dry += 1
        try:
            backs, exits, _l = once(cur)
        finally:
            I.dry -= 1
        if backs is None:
            return None
        n = I.widen(key, cur, backs)
        if n is None:
            break
        cur = n
    backs, exits, _l = once(cur)
    if not last:
        return None
    I.on_loop(fr, -1 - bb, key, st, cur, backs, [(None, s) for s, v in exits])
    out = cur.copy()
    out.loops = saved
    out.facts[T("done", tag)] = True
    res = [(out, last[-1])]
    for s, v in exits:
        s = s.copy()
        s.loops = saved
        res.append((s, v))
    return res
