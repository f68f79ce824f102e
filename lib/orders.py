"""Finite case analysis over the relative orders of values that are touched only through comparisons."""
from terms import *


def weak_orders(vs):
    """all assignments of ranks to vs, one per weak ordering"""
    out = []

    def go(i, cur, k):
        if i == len(vs):
            # normalise: ranks must be exactly 0..max
            r = sorted(set(cur))
            if r == list(range(len(r))):
                out.append(dict(zip(vs, cur)))
            return
        for x in range(len(vs)):
            go(i + 1, cur + [x], k)
    go(0, [], 0)
    return out


def ranks(rank, t):
    """the ranks of the components of a key, or None"""
    c = components(t)
    return [rank[x] for x in c] if c and all(x in rank for x in c) else None


def rank_oracle(rank, extra=None):
    def o(t, st):
        if t.op in ("lt", "eq"):
            a, b = t.args
            if a in rank and b in rank:
                return rank[a] < rank[b] if t.op == "lt" else rank[a] == rank[b]
            if a.op == "bv" and b.op == "bv":
                x, y = ranks(rank, a), ranks(rank, b)
                if x is not None and y is not None and len(x) == len(y):
                    return x < y if t.op == "lt" else x == y
        if extra:
            return extra(t, st)
        return None
    return o


def components(t, width=None):
    """an ordering key as its list of components, most significant first; None if it is not a concatenation"""
    if t.op == "agg" and (t.args[0] == "tuple" or t.args[0] in ("array",)):
        out = []
        for x in t.args[2:]:
            c = components(x)
            if c is None:
                return None
            out += c
        return out
    if t.op == "agg" and len(t.args) == 3:
        return components(t.args[2])
    if t.op == "bv":
        bits_ = t.args[1]
        out = []
        i = len(bits_) - 1
        while i >= 0:
            b = bits_[i]
            if b == 0:
                i -= 1
                continue
            if b == 1:
                return None
            j = i
            while j - 1 >= 0 and isinstance(bits_[j - 1], tuple) and bits_[j - 1][0] is b[0] and bits_[j - 1][1] == bits_[j][1] - 1:
                j -= 1
            src, lo = bits_[j]
            from terms import WIDTH as W
            top = SIG.get(src, W.get(tw(src) or "u64", 64))
            if lo != 0 or b[1] != top - 1:
                return None  # only part of the component
            out.append(src)
            i = j - 1
        return out
    return [t]
