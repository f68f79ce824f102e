"""Hash-consed value terms (the abstract values of the interpreter) and their normal forms.

A term is an opaque name for a set of run-time values: constants, aggregates, and
uninterpreted applications.  Integer bit operations are normalised in a bit-provenance
domain: every bit is 0, 1 or "bit i of term t"."""


class T:
    __slots__ = ("op", "args", "_id")
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        k = (op, args)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            T._n += 1
            t._id = T._n
            cls._tab[k] = t
        return t

    def __hash__(self):
        return self._id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return render(self)


def render(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return "…"
    r = lambda x: render(x, depth + 1)
    o, a = t.op, t.args
    if o == "int":
        return str(bool(a[0])) if a[1] == "bool" else str(a[0])
    if o == "sym":
        return str(a[0])
    if o == "fld":
        return "%s.%s" % (r(a[0]), a[1])
    if o == "vf":
        return "%s.as%d.%d" % (r(a[0]), a[1], a[2])
    if o == "deref":
        return r(a[0])
    if o == "idx":
        return "%s[%s]" % (r(a[0]), r(a[1]))
    if o == "discr":
        return "discr(%s)" % r(a[0])
    if o == "agg":
        k = a[0].split("::")[-1] if isinstance(a[0], str) else str(a[0])
        return "%s#%s(%s)" % (k, a[1], ", ".join(r(x) for x in a[2:]))
    if o == "ref":
        return "&%s" % rloc(a[0], a[1], depth + 1)
    if o == "hv":
        return "%s'" % rloc(a[0], a[1], depth + 1)
    if o == "call":
        return "%s(%s)" % (a[0].split("::")[-1] if isinstance(a[0], str) else a[0], ", ".join(r(x) for x in a[1:]))
    if o == "res":
        return "%s!(%s)" % (a[0].split("::")[-1], ", ".join(r(x) for x in a[2:]))
    if o == "any":
        return "any"
    if o == "phi":
        return "phi"
    if o == "bv":
        return bvrender(t, depth)
    if o == "bin":
        return "(%s %s %s)" % (r(a[1]), a[0], r(a[2]))
    if o in ("eq", "lt"):
        return "(%s %s %s)" % (r(a[0]), {"eq": "==", "lt": "<"}[o], r(a[1]))
    if o == "not":
        return "!%s" % r(a[0])
    if o == "with":
        return "%s{%s}" % (r(a[0]), ", ".join("%s:%s" % (k, r(v)) for k, v in a[1]))
    return "%s(%s)" % (o, ", ".join(r(x) for x in a))


def rloc(root, projs, depth=0):
    if root[0] == "L":
        s = "_%s" % (root[2],)
    else:
        s = render(root[1], depth)
    for p in projs:
        if p[0] == "f":
            s += ".%s" % p[2]
        elif p[0] == "vf":
            s += ".as%d.%d" % (p[1], p[2])
        elif p[0] == "i":
            s += "[%s]" % render(p[1], depth)
        else:
            s += ".%s" % (p,)
    return s


def bvrender(t, depth=0):
    bits = t.args[1]
    out = []
    i = 0
    while i < len(bits):
        b = bits[i]
        j = i
        if b in (0, 1):
            while j + 1 < len(bits) and bits[j + 1] == b:
                j += 1
            if b == 1 or True:
                out.append("%d*%d" % (b, j - i + 1))
        else:
            while j + 1 < len(bits) and isinstance(bits[j + 1], tuple) and bits[j + 1][0] is b[0] and bits[j + 1][1] == b[1] + (j + 1 - i):
                j += 1
            out.append("%s[%d..=%d]" % (render(b[0], depth + 1), b[1], b[1] + j - i))
        i = j + 1
    return "bits<%s>" % ",".join(out)


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64,
         "u128": 128, "i128": 128, "bool": 1, "char": 32}


def signed(ty):
    return ty[0] == "i"


def mkint(v, ty):
    w = WIDTH.get(ty, 64)
    return T("int", v & ((1 << w) - 1), ty)


TRUE = T("int", 1, "bool")
FALSE = T("int", 0, "bool")


def mkbool(b):
    return TRUE if b else FALSE


def cint(t):
    """the unsigned constant value of a constant term, else None"""
    return t.args[0] if t.op == "int" else None


def sval(t):
    v, ty = t.args
    w = WIDTH.get(ty, 64)
    if signed(ty) and v >> (w - 1):
        v -= 1 << w
    return v


_bits = {}
SIG = {}  # term -> number of significant low bits (declared ranges)


def bits(t, ty):
    """bit provenance of integer term t of type ty"""
    w = WIDTH.get(ty)
    if w is None:
        return None
    if t.op == "int":
        return tuple((t.args[0] >> i) & 1 for i in range(w))
    if t.op == "bv":
        b = t.args[1]
        return b if len(b) == w else None
    s = SIG.get(t, w)
    return tuple((t, i) if i < s else 0 for i in range(w))


def frombits(b, ty):
    w = WIDTH[ty]
    if all(x in (0, 1) for x in b):
        return mkint(sum(x << i for i, x in enumerate(b)), ty)
    # exactly the bits of one term?
    x0 = next(x for x in b if x not in (0, 1))
    t = x0[0]
    s = min(SIG.get(t, w), w)
    if tw(t) == ty and all((b[i] == (t, i)) if i < s else b[i] == 0 for i in range(w)):
        return t
    return T("bv", ty, tuple(b))


_tw = {}


def tw(t):
    """type name of an integer term, if known"""
    if t.op == "int":
        return t.args[1]
    if t.op == "bv":
        return t.args[0]
    if t.op == "bin":
        return t.args[3]
    return _tw.get(t)


def settype(t, ty):
    if ty in WIDTH and t.op not in ("int", "bv", "bin"):
        _tw.setdefault(t, ty)
    return t


CMPS = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}


def mknot(a):
    if a.op == "int":
        return mkbool(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return mkor(*[mknot(x) for x in a.args])
    if a.op == "or":
        return mkand(*[mknot(x) for x in a.args])
    return T("not", a)


def mkand(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def mkor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.args if x.op == "or" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", *out)


def aligned(x, y):
    """two bit vectors that differ only in one aligned field holding complete unsigned terms (u, v): (u, v)"""
    d = [i for i in range(len(x)) if x[i] != y[i]]
    if not d:
        return None
    lo, hi = d[0], d[-1]
    p, q = x[lo], y[lo]
    if not (isinstance(p, tuple) and isinstance(q, tuple)) or p[1] != 0 or q[1] != 0:
        return None
    u, v = p[0], q[0]
    tu, tv = tw(u), tw(v)
    if tu is None or tv is None or tu not in WIDTH or signed(tu) or tu != tv:
        return None
    n = SIG.get(u, WIDTH[tu])
    if SIG.get(v, WIDTH[tv]) != n or hi - lo + 1 != n:
        return None
    if all(x[lo + i] == (u, i) and y[lo + i] == (v, i) for i in range(n)):
        return u, v
    return None


def mkeq(a, b, ty=None):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return mkbool(a.args[0] == b.args[0])
    ty = ty or tw(a) or tw(b)
    if b.op != "int" and a.op == "int":
        a, b = b, a
    if a.op == "discr" and a.args[0].op == "ordering" and b.op == "int":
        x, y = a.args[0].args
        v = sval(b)
        return mklt(x, y) if v == -1 else mkeq(x, y) if v == 0 else mklt(y, x) if v == 1 else FALSE
    if ty == "bool":
        if a.op == "int":
            return b if a.args[0] else mknot(b)
        if b.op == "int":
            return a if b.args[0] else mknot(a)
    if ty in WIDTH:
        x, y = bits(a, ty), bits(b, ty)
        if x and y:
            if any(p in (0, 1) and q in (0, 1) and p != q for p, q in zip(x, y)):
                return FALSE
            # strip identical bits: equality of the rest
            d = [(p, q) for p, q in zip(x, y) if p != q]
            if len(d) == 1 and (d[0][0] in (0, 1) or d[0][1] in (0, 1)):
                p, q = d[0]
                if p in (0, 1):
                    p, q = q, p
                atom = T("bit", p[0], p[1])
                return atom if q == 1 else mknot(atom)
            al = aligned(x, y)
            if al is not None and (al[0] is not a or al[1] is not b) and (al[0] is not b or al[1] is not a):
                return mkeq(al[0], al[1])
    if a.op == "int" or (b.op != "int" and b._id < a._id):
        a, b = b, a
    return T("eq", a, b)


def mklt(a, b, ty=None):
    ty = ty or tw(a) or tw(b) or "u64"
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return mkbool(sval(a) < sval(b))
    if not signed(ty):
        if b.op == "int" and b.args[0] == 0:
            return FALSE
        if a.op == "int" and a.args[0] == (1 << WIDTH.get(ty, 64)) - 1:
            return FALSE
        # known bounds from the bits
        xa, xb = bits(a, ty), bits(b, ty)
        if xa and xb:
            hi = sum(1 << i for i, x in enumerate(xa) if x != 0)
            lo = sum(1 << i for i, x in enumerate(xb) if x == 1)
            if hi < lo:
                return TRUE
            lo = sum(1 << i for i, x in enumerate(xa) if x == 1)
            hi = sum(1 << i for i, x in enumerate(xb) if x != 0)
            if lo >= hi:
                return FALSE
        if xa and xb:
            al = aligned(xa, xb)
            if al is not None and (al[0] is not a or al[1] is not b):
                return mklt(al[0], al[1], tw(al[0]))
    if a.op == "discr" and a.args[0].op == "ordering" and b.op == "int":
        x, y = a.args[0].args
        v = sval(b)
        return FALSE if v <= -1 else mklt(x, y) if v == 0 else mknot(mklt(y, x)) if v == 1 else TRUE
    if b.op == "discr" and b.args[0].op == "ordering" and a.op == "int":
        x, y = b.args[0].args
        v = sval(a)
        return TRUE if v < -1 else mknot(mklt(x, y)) if v == -1 else mklt(y, x) if v == 0 else FALSE
    # x < 1  <=>  x == 0 ; 0 < x <=> x != 0   (unsigned)
    if not signed(ty):
        if b.op == "int" and b.args[0] == 1:
            return mkeq(a, mkint(0, ty), ty)
        if a.op == "int" and a.args[0] == 0:
            return mknot(mkeq(b, mkint(0, ty), ty))
        # c < x  <=>  not (x < c+1)
        if a.op == "int":
            return mknot(mklt(b, mkint(a.args[0] + 1, ty), ty))
    return T("lt", a, b)


def mkcmp(op, a, b, ty):
    if op == "Eq":
        return mkeq(a, b, ty)
    if op == "Ne":
        return mknot(mkeq(a, b, ty))
    if op == "Lt":
        return mklt(a, b, ty)
    if op == "Gt":
        return mklt(b, a, ty)
    if op == "Le":
        return mknot(mklt(b, a, ty))
    if op == "Ge":
        return mknot(mklt(a, b, ty))


def _pow2(v):
    return v > 0 and v & (v - 1) == 0


FULLBITS = [False]  # represent every bitwise combination per bit (otherwise such words become opaque)


def bitop(op, p, q):
    """the bit (p op q) as a bit of a one-bit term"""
    if op == "BitXor" and 1 in (p, q):
        p = q if p == 1 else p
        if p[0].op == "bitop" and p[0].args[0] == "Not":
            return p[0].args[1]
        t = T("bitop", "Not", p)
    else:
        neg = lambda x: bitop("BitXor", x, 1)
        if neg(p) == q:
            return 0 if op == "BitAnd" else 1
        if (p[0]._id, p[1]) > (q[0]._id, q[1]):
            p, q = q, p
        t = T("bitop", op, p, q)
    SIG[t] = 1
    return (t, 0)


def mkbin(op, a, b, ty, tyb=None):
    """integer/bool binary operation; ty: type of the operands, tyb: type of the shift count"""
    op = op.replace("Unchecked", "")
    if op in CMPS:
        return mkcmp(op, a, b, ty)
    if ty == "bool":
        if op == "BitAnd":
            return mkand(a, b)
        if op == "BitOr":
            return mkor(a, b)
        if op == "BitXor":
            return mknot(mkeq(a, b, "bool"))
    w = WIDTH.get(ty)
    if w is None:
        return T("bin", op, a, b, ty)
    ca, cb = cint(a), cint(b)
    if ca is not None and cb is not None:
        x, y = sval(a), sval(b)
        try:
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                 "BitAnd": lambda: ca & cb, "BitOr": lambda: ca | cb, "BitXor": lambda: ca ^ cb,
                 "Shl": lambda: ca << (cb % w), "Shr": lambda: x >> (cb % w),
                 "Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                 "Rem": lambda: abs(x) % abs(y) * (-1 if x < 0 else 1)}[op]()
            return mkint(r, ty)
        except (KeyError, ZeroDivisionError):
            return T("bin", op, a, b, ty)
    if op in ("BitAnd", "BitOr", "BitXor"):
        xa, xb = bits(a, ty), bits(b, ty)
        if xa and xb:
            out = []
            for p, q in zip(xa, xb):
                r = _bit(op, p, q)
                if r is None and FULLBITS[0]:
                    r = bitop(op, p, q)
                if r is None:
                    break
                out.append(r)
            else:
                return frombits(out, ty)
        if a._id > b._id:
            a, b = b, a
        return T("bin", op, a, b, ty)
    if op in ("Shl", "Shr") and cb is not None:
        k = cb % w
        xa = bits(a, ty)
        if xa:
            if op == "Shl":
                return frombits((0,) * k + xa[:w - k], ty)
            top = xa[-1] if signed(ty) else 0
            return frombits(xa[k:] + (top,) * k, ty)
    if op == "Mul":
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb == 1:
            return a
        if cb == 0:
            return b
        if cb is not None and _pow2(cb):
            return mkbin("Shl", a, mkint(cb.bit_length() - 1, "u32"), ty)
    if op == "Div" and not signed(ty) and cb is not None and _pow2(cb):
        return mkbin("Shr", a, mkint(cb.bit_length() - 1, "u32"), ty)
    if op == "Rem" and not signed(ty) and cb is not None and _pow2(cb):
        return mkbin("BitAnd", a, mkint(cb - 1, ty), ty)
    if op == "Add":
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb == 0:
            return a
        xa, xb = bits(a, ty), bits(b, ty)
        if xa and xb and all(p == 0 or q == 0 for p, q in zip(xa, xb)):
            return frombits([p if q == 0 else q for p, q in zip(xa, xb)], ty)
        if cb is not None and xa and a.op == "bv":
            # split off the constant low bits: (hi * 2^k + c) + m
            k = 0
            while k < w and xa[k] in (0, 1):
                k += 1
            if 0 < k < w:
                low = sum(x << i for i, x in enumerate(xa[:k])) + (cb & ((1 << k) - 1))
                up = (cb >> k) + (low >> k)
                low &= (1 << k) - 1
                hi = frombits(tuple(xa[k:]) + (0,) * k, ty)
                up &= (1 << (w - k)) - 1
                if up == (1 << (w - k)) - 1:
                    h2 = mkbin("Add", hi, mkint(-1, ty), ty)
                else:
                    h2 = mkbin("Add", hi, mkint(up, ty), ty)
                xh = bits(h2, ty)
                if xh:
                    return frombits(tuple((low >> i) & 1 for i in range(k)) + tuple(xh[:w - k]), ty)
        if cb is not None and a.op == "bin" and a.args[0] == "Add" and a.args[3] == ty and cint(a.args[2]) is not None:
            return mkbin("Add", a.args[1], mkint(cint(a.args[2]) + cb, ty), ty)
        if cb is None and a._id > b._id:
            a, b = b, a
        return T("bin", "Add", a, b, ty)
    if op == "Sub":
        if cb is not None:
            return mkbin("Add", a, mkint(-cb, ty), ty)
        if a is b:
            return mkint(0, ty)
    return T("bin", op, a, b, ty)


def _bit(op, p, q):
    if op == "BitAnd":
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1 or p == q:
            return p
        return None
    if op == "BitOr":
        if p == 1 or q == 1:
            return 1
        if p == 0:
            return q
        if q == 0 or p == q:
            return p
        return None
    if p in (0, 1) and q in (0, 1):
        return p ^ q
    if q == 0:
        return p
    if p == 0:
        return q
    if p == q:
        return 0
    return None


def mkcast(a, src, dst):
    if src == dst:
        return a
    if dst not in WIDTH:
        return T("cast", a, dst)
    if a.op == "int":
        return mkint(sval(a) if a.args[1] in WIDTH else a.args[0], dst)
    if src not in WIDTH:
        return settype(T("cast", a, dst), dst)
    if src == "bool":
        x = ((T("cast", a, "u1"), 0),)
        SIG[T("cast", a, "u1")] = 1
    else:
        x = bits(a, src)
    wd = WIDTH[dst]
    if x is None:
        return settype(T("cast", a, dst), dst)
    ws = len(x)
    if wd <= ws:
        return frombits(x[:wd], dst)
    top = x[-1] if signed(src) else 0
    return frombits(tuple(x) + (top,) * (wd - ws), dst)


_ment = {}


def subterms(t):
    """all sub-terms (including locations inside refs)"""
    r = _ment.get(t)
    if r is not None:
        return r
    out = {t}

    def go(x):
        if isinstance(x, T):
            out.update(subterms(x))
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in t.args:
        go(x)
    r = frozenset(out)
    _ment[t] = r
    return r


def has(t, pred):
    return any(pred(s) for s in subterms(t))


def subst(t, f, memo=None):
    """rebuild t bottom-up, replacing sub-terms for which f returns a term"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        def go(x):
            if isinstance(x, T):
                return subst(x, f, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        args = tuple(go(x) for x in t.args)
        r = rebuild(t.op, args) if args != t.args else t
    memo[t] = r
    return r


def rebuild(op, args):
    if op == "eq":
        return mkeq(*args)
    if op == "lt":
        return mklt(*args)
    if op == "not":
        return mknot(*args)
    if op == "and":
        return mkand(*args)
    if op == "or":
        return mkor(*args)
    if op == "bin":
        return mkbin(*args)
    if op == "bv":
        b = []
        for x in args[1]:
            if isinstance(x, tuple) and isinstance(x[0], T) and x[0].op in ("bv", "int"):
                y = x[0].args[1][x[1]] if x[0].op == "bv" and x[1] < len(x[0].args[1]) else (x[0].args[0] >> x[1]) & 1 if x[0].op == "int" else 0
                b.append(y)
            else:
                b.append(x)
        return frombits(tuple(b), args[0])
    return T(op, *args)
