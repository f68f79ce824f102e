"""Normal form of slot arithmetic, and the rule a bump allocation of aligned slots obeys."""
from terms import T, subterms

M32 = 1 << 32


def add(a, b, k=1):
    d = dict(a)
    for x, c in b.items():
        d[x] = (d.get(x, 0) + k * c) % M32
        if not d[x]:
            del d[x]
    return d


def single(t):
    """the value a bit vector carries unchanged (zero extension or truncation of one value), else None"""
    ps = t.args[1]
    src, i = None, 0
    for p in ps:
        if isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], T):
            if src is None:
                src = p[0]
            if p[0] is not src or p[1] != i:
                return None
            i += 1
        elif p in (0, "0") or isinstance(p, int) and p == 0:
            if src is None:
                return None
            # only zeros may follow
            if any(q != 0 for q in ps[i:]):
                return None
            return src if i >= 24 else None
        else:
            return None
    return src


def lin(t):
    """{atom: coefficient} (the constant under key 1), modulo 2^32"""
    if t.op == "int":
        v = t.args[0] % M32
        return {1: v} if v else {}
    if t.op == "bv":
        s = single(t)
        if s is not None:
            return lin(s)
        return {t: 1}
    if t.op == "cast":
        for a in t.args:
            if isinstance(a, T):
                return lin(a)
    if t.op == "un" and t.args[0] == "Not":
        return add({1: M32 - 1}, lin(t.args[1]), -1)
    if t.op == "vf" and t.args[0].op == "call" and t.args[0].args[0].split("::")[-1] in ("try_from", "try_into"):
        return lin(t.args[0].args[-1])
    if t.op == "call" and t.args[0].split("::")[-1] in ("wrapping_add", "unchecked_add"):
        return add(lin(t.args[1]), lin(t.args[2]))
    if t.op == "call" and t.args[0].split("::")[-1] == "next_multiple_of" and len(t.args) == 3:
        return {("up", fz(lin(t.args[1])), fz(lin(t.args[2]))): 1}
    if t.op == "bin":
        o, a, b = t.args[0], t.args[1], t.args[2]
        o = o.replace("WithOverflow", "").replace("Unchecked", "")
        if o == "Add":
            return add(lin(a), lin(b))
        if o == "Sub":
            return add(lin(a), lin(b), -1)
        if o in ("Mul", "Shl"):
            x, y = lin(a), lin(b)
            if o == "Shl":
                if set(y) <= {1}:
                    y = {1: 1 << y.get(1, 0)}
                else:
                    return {t: 1}
            for p, q in ((x, y), (y, x)):
                if set(q) <= {1}:
                    return {k: (v * q.get(1, 0)) % M32 for k, v in p.items() if (v * q.get(1, 0)) % M32}
            # floor(x / s) * s
            for p, q in ((x, y), (y, x)):
                if len(p) == 1:
                    k = next(iter(p))
                    if isinstance(k, tuple) and k[0] == "div" and p[k] == 1 and k[2] == fz(q):
                        return up(dict(k[1]), q)
            return {t: 1}
        if o == "Div":
            return {("div", fz(lin(a)), fz(lin(b))): 1}
        if o == "BitXor":
            for p, q in ((a, b), (b, a)):
                if lin(p) == {1: M32 - 1}:
                    return add({1: M32 - 1}, lin(q), -1)
        if o == "BitAnd":
            for p, q in ((a, b), (b, a)):
                size = add({}, lin(q), -1)  # q = !(size-1) = -size
                if 1 in size and len(size) == 1 and size[1] > M32 // 2:
                    continue
                if lin(p) and any(k in lin(p) for k in size):
                    return up(lin(p), size)
            return {t: 1}
    return {t: 1}


def fz(d):
    return tuple(sorted(d.items(), key=lambda x: str(x[0])))


def up(x, size):
    """x rounded down to a multiple of size, written as (x - (size-1)) rounded up"""
    c = add(add(x, size, -1), {1: 1})
    return {("up", fz(c), fz(size)): 1}


def remups(d, S):
    """x + (size - x % size): a multiple of the size at or above x"""
    for k in list(d):
        if isinstance(k, T) and k.op == "bin" and k.args[0] == "Rem" and d[k] == M32 - 1 and lin(k.args[2]) == S:
            rest = add(add(add(d, lin(k.args[1]), -1), S, -1), {k: 1})
            d = add(rest, {("up", fz(lin(k.args[1])), fz(S)): 1})
    return d


def bump(c, size, slot, c2, last, facts=None):
    """None, or why (slot, next counter) is not an aligned allocation of `size` units above counter c"""
    S = lin(size)
    A = {("up", fz(lin(c)), fz(S)): 1}
    c2, slot = remups(lin(c2), S), remups(lin(slot), S)
    for f, v in (facts or {}).items():
        # c is a multiple of the size already
        r = [x for x in f.args if isinstance(x, T) and x.op == "bin" and x.args[0] == "Rem"] if f.op == "eq" else []
        if f.op == "bin" and f.args[0] == "Rem" and v == 0 and v is not False:
            r = [f]
        if r and (v is True or r[0] is f) and lin(r[0].args[1]) == lin(c) and lin(r[0].args[2]) == S and (r[0] is f or any(isinstance(x, T) and x.op == "int" and x.args[0] == 0 for x in f.args)):
            A = lin(c)
    if c2 != add(A, S):
        return "the counter does not advance to the end of the aligned slot"
    want = add(add(A, S), {1: M32 - 1}) if last else A
    if slot != want:
        return "the slot is not named by its %s unit" % ("last" if last else "first")
    return None
