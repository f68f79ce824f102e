"""C10: malformed control flow or SSA input is refused, and nothing else is."""
import re
import itertools
import mirdb
from query import Q
from report import *
from paths import *
from terms import *
import c16

LEVEL = "other"
TECHNIQUE = "path-sensitive MIR analysis of the validators: what every iteration of their loops establishes about block, instruction, operand and edge, what each error path knows"

SKIP = ("skip", "take", "step_by", "take_while", "skip_while", "chunks", "slice_of", "map_while", "nth", "filter", "filter_map")


def last(p):
    return str(p).split("::")[-1]


def targs(t):
    return [a for a in t.args[1:] if isinstance(a, T)]


def call(t, *names):
    return isinstance(t, T) and t.op in ("call", "res") and last(t.args[0]).rstrip("!") in names


def strip(t):
    while isinstance(t, T) and t.op in ("deref", "ref0"):
        t = t.args[0]
    return t


def of(t, name):
    """the last argument of t when t is the Function callback `name`"""
    t = strip(t)
    return targs(t)[-1] if call(t, name) and len(targs(t)) >= 2 else None


def elem(t, name):
    """X when t is an element of the slice name(f, X)"""
    t = strip(t)
    return of(t.args[0], name) if isinstance(t, T) and t.op == "idx" and not isint(t.args[1]) else None


def isint(t):
    return isinstance(t, T) and t.op == "int"


def subs(s):
    return {t for f in s.facts for t in subterms(f)}


class Num:
    """what a path's facts leave possible for a few numbers and truths"""

    def __init__(self, s, vs):
        self.vs = vs  # term -> domain
        self.fs = [(f, y) for f, y in s.facts.items() if any(t in vs for t in subterms(f))]

    def ev(self, t, a):
        if t in a:
            return a[t]
        if not isinstance(t, T):
            return None
        if t.op == "int":
            return t.args[0]
        if t.op == "bool":
            return bool(t.args[0])
        xs = [x for x in t.args if isinstance(x, T)]
        v = [self.ev(x, a) for x in xs]
        if any(x is None for x in v):
            return None
        if t.op in ("lt", "eq", "le", "ne") and len(v) == 2:
            return {"lt": v[0] < v[1], "eq": v[0] == v[1], "le": v[0] <= v[1], "ne": v[0] != v[1]}[t.op]
        if t.op == "not" and len(v) == 1:
            return not v[0]
        if t.op == "bin" and len(v) == 2 and t.args[0] in ("Add", "Sub", "BitOr", "BitAnd", "Mul"):
            x, y = v
            if t.args[0] == "Add" and y >= 1 << 32:
                y -= 1 << (64 if y >= 1 << 63 else 32)
            x, y = int(x), int(y)
            return {"Add": x + y, "Sub": x - y, "BitOr": x | y, "BitAnd": x & y, "Mul": x * y}[t.args[0]]
        if t.op == "ite" and len(v) == 3:
            return v[1] if v[0] else v[2]
        if t.op == "bv":
            n = 0
            for i, bit in enumerate(t.args[1]):
                x = bit if isinstance(bit, int) else self.ev(bit[0], a)
                if x is None:
                    return None
                n |= (x if isinstance(bit, int) else int(x) >> bit[1] & 1) << i
            return n
        if len(v) == 1 and (t.op in ("cast", "zext", "trunc", "bits", "b2i") or call(t, "from", "into")):
            return int(v[0])
        return None

    def possible(self):
        ks = list(self.vs)
        out = []
        for c in itertools.product(*[self.vs[k] for k in ks]):
            a = dict(zip(ks, c))
            if all(x is None or int(x) == int(y) for x, y in ((self.ev(f, a), y) for f, y in self.fs)):
                out.append(c)
        return out


def lenterms(s, name, X):
    return [t for t in subs(s) if t.op == "len" and of(t.args[0], name) is X or call(t, "len") and of(targs(t)[0], name) is X]


def eqs(s, a, b):
    """the facts' terms that say a == b, for a and b given as predicates or terms"""
    ok = lambda x, p: p(x) if callable(p) else x is p
    return [t for t in subs(s) if t.op == "eq" and len([x for x in t.args if isinstance(x, T)]) >= 2 and (ok(t.args[0], a) and ok(t.args[1], b) or ok(t.args[0], b) and ok(t.args[1], a))]


def truth(s, ts):
    for t in ts:
        y = s.facts.get(t)
        if y is not None:
            return bool(y)
    return None


def entering(s, X):
    """possible numbers of ways into block X: its predecessors, and the function's entry when it is the entry block"""
    vs = {}
    ls, es = lenterms(s, "block_preds", X), eqs(s, lambda t: call(t, "entry_block"), X)
    if not ls:
        return range(0, 9)
    l = T("len", T("sym", "preds"))
    vs[ls[0]] = range(0, 7)
    if es:
        vs[es[0]] = (False, True)
    got = Num(s, vs).possible()
    return {c[0] + (int(c[1]) if es else k) for c in got for k in ((0,) if es else (0, 1))}


def count(s, name, X):
    ls = lenterms(s, name, X)
    return {c[0] for c in Num(s, {ls[0]: range(0, 7)}).possible()} if ls else set(range(0, 7))


class At:
    """an event, with what was known when it happened"""

    def __init__(self, e, facts=None):
        self.facts, self.args, self.loops, self.e = dict(e.facts) if facts is None else facts, getattr(e, "args", ()), e.loops, e

    def events(self):
        return [self.e] if hasattr(self.e, "args") else self.e.events()


class Valid:
    def __init__(self, R):
        self.R, self.db = R, mirdb.load("main")
        self.q = Q(self.db)

    # ---- exploring
    def noin(self, b):
        return b.local and not is_closure(b) and (b.name in ("calculate", "repopulate", "cleared") or b.path.startswith(("VReg", "Operand", "index", "domtree", "postorder")))

    def explore(self, b):
        R = self.R
        I, paths = explore(self.db, b, None, noinline=self.noin, pregseq=True)
        R.saw(I)
        R.paths += len(paths)
        self.I, self.b = I, b
        self.backs, self.rets = {}, []
        for k, s, v in paths:
            if self.impossible(s):
                continue
            if k == "back":
                self.backs.setdefault(v, []).append(s)
            elif k == "ret":
                self.rets.append((s, v))
        self.parent = {}
        for k, ss in self.backs.items():
            for s in ss:
                self.parent[k] = s.loops[-2] if len(s.loops) > 1 else None

    def impossible(self, s):
        """the invalid index is not valid"""
        return any(call(f, "is_valid", "is_invalid") and isinstance(y, bool) and call(targs(f)[0], "invalid") and y is (last(f.args[0]) == "is_valid") for f, y in s.facts.items())

    def whole(self, key):
        I, parent = self.I, self.parent.get(key)
        outer = I.entries.get(parent, []) if parent else []
        for st in I.entries.get(key, []):
            for l, x in st.mem.items():
                if isinstance(x, T) and not any(o.mem.get(l) is x for o in outer):
                    if x.op == "seq" and any(y.op == "seq" and y.args[0] in SKIP[:-2] for y in subterms(x)) or call(x, *SKIP[:-2]) or call(x, "into_iter") and any(call(y, *SKIP[:-2]) for y in subterms(x)):
                        return False
        return True

    def groups(self, s):
        """the enumerations that s knows to have run to their end: (key, states in which one step ends)"""
        out = []
        for f, y in s.facts.items():
            if y is not True:
                continue
            if f.op == "done":
                key = f.args[0][-1]
                if key in self.backs and self.whole(key):
                    out.append((key, self.backs[key]))
            elif f.op == "left" and f.args[0] in self.backs and self.ended(s, f.args[0]):
                out.append((f.args[0], self.backs[f.args[0]]))
            elif f.op == "quant" and f in self.I.quants and not any(isinstance(x, T) and x.op == "seq" and x.args[0] in SKIP[:-2] for x in subterms(f.args[1])):
                out.append((f, [x for x in self.I.quants[f] if not self.impossible(x)]))
        return out

    def each(self, s, p):
        """some finished enumeration on s of which every step satisfies p; p answers True, False, or None (not about this)"""
        for k, ss in self.groups(s):
            rs = [p(x) for x in ss]
            if ss and all(r is not False and r is not None for r in rs):
                return k
        return None

    # ---- what a state is about
    def block(self, s):
        """the block the step s is about: every index below the number of blocks in turn"""
        bs = {t for t in subs(s) if call(t, "new") and "Block" in str(t.args[0]) and targs(t) and targs(t)[0].op == "elem"}
        bs |= {t for e in s.events() for a in e.args if isinstance(a, T) for t in subterms(a) if call(t, "new") and "Block" in str(t.args[0]) and targs(t) and targs(t)[0].op == "elem"}
        ct = {t for t in self.mentioned(s) if call(t, "new") and "Block" in str(t.args[0]) and targs(t) and targs(t)[0].op == "phi" and self.counted(s, targs(t)[0])}
        if ct:
            return sorted(ct, key=str)
        bs = {t for t in bs if isint(targs(t)[0].args[0]) and targs(t)[0].args[0].args[0] == 0 and call(targs(t)[0].args[1], "num_blocks")}
        live = {t for t in bs if any(f.op == "lt" and y is True and f.args[0] is targs(t)[0] for f, y in s.facts.items())}
        return sorted(live or bs, key=lambda t: len(str(t)))

    def counted(self, s, i):
        """i counts from 0 by one, below the number of blocks"""
        K, root = i.args[0], i.args[1]
        get = lambda o: o.mem.get(root)
        es, bs = self.I.entries.get(K, []), self.backs.get(K, [])
        return not i.args[2] and bool(es and bs) and all(isint(get(o)) and get(o).args[0] == 0 for o in es) and \
            all(isinstance(get(o), T) and get(o).op == "bin" and get(o).args[0] == "Add" and get(o).args[1] is i and isint(get(o).args[2]) and get(o).args[2].args[0] == 1 for o in bs) and \
            any(f.op == "lt" and y is True and f.args[0] is i and call(f.args[1], "num_blocks") for f, y in s.facts.items())

    def ended(self, s, K):
        """the counting loop K was left because its counter reached the number of blocks"""
        return any(f.op == "lt" and y is False and f.args[0].op == "phi" and f.args[0].args[0] == K and call(f.args[1], "num_blocks") for f, y in s.facts.items())

    def insts(self, s, B):
        return {t for t in subs(s) | {x for e in s.events() for a in e.args if isinstance(a, T) for x in subterms(a)} if self.isinst(t, B)}

    def isinst(self, t, B):
        if not (isinstance(t, T) and t.op == "idx"):
            return False
        x = strip(t.args[0])
        return call(x, "iter") and len(targs(x)) == 1 and of(targs(x)[0], "block_insns") is B

    def mentioned(self, s):
        return subs(s) | {x for e in s.events() for a in e.args if isinstance(a, T) for x in subterms(a)}

    def operands(self, s, inst):
        return {t for t in self.mentioned(s) if elem(t, "inst_operands") is inst}

    def opkind(self, s, O):
        """0 definition, 1 use, None unknown"""
        for f, y in s.facts.items():
            if f.op == "discr" and call(f.args[0], "kind") and targs(f.args[0])[0] is O and isinstance(y, int) and not isinstance(y, bool):
                return y
            if f.op == "eq" and isinstance(y, bool):
                d = [x for x in f.args if isinstance(x, T)]
                dd = [x for x in d if x.op == "discr" and call(x.args[0], "kind") and targs(x.args[0])[0] is O]
                ii = [x for x in d if isint(x)]
                if dd and ii and ii[0].args[0] in (0, 1):
                    return ii[0].args[0] if y else 1 - ii[0].args[0]
        return None

    def placeholder(self, s, O):
        for f, y in s.facts.items():
            d = [x for x in subterms(f) if x.op == "discr" and call(x.args[0], "as_fixed_nonallocatable") and targs(x.args[0])[0] is O]
            if d:
                if f is d[0]:
                    return y == 1
                if f.op == "eq" and any(isint(x) for x in f.args if isinstance(x, T)):
                    n = [x for x in f.args if isint(x)][0].args[0]
                    return (n == 1) == bool(y)
        return None

    def num(self, i):
        """the value whose number i is"""
        if call(i, "vreg") and str(i.args[0]).startswith("VReg"):
            return targs(i)[0]
        return None

    def valueof(self, V, O):
        return call(V, "vreg") and str(V.args[0]).startswith("Operand") and targs(V)[0] is O

    def inrange(self, s, V):
        for f, y in s.facts.items():
            if f.op == "lt" and self.num(f.args[0]) is V and isinstance(f.args[1], T) and f.args[1].op == "len" and isinstance(y, bool):
                return y
        return None

    def definedby(self, s, V):
        """whether the table says that V has a definition"""
        for f, y in s.facts.items():
            if call(f, "is_valid", "is_invalid") and isinstance(y, bool):
                x = strip(targs(f)[0])
                if x.op == "idx" and self.num(x.args[1]) is V:
                    return y if call(f, "is_valid") else not y
        return None

    def tablewrites(self, s):
        """(value, block, loops) written into a table indexed by a value's number"""
        out = []
        for e in s.events():
            if e.kind != "write":
                continue
            a = e.args[0]
            ps = [p for p in a.args[1] if isinstance(p, tuple)] if a.op == "ref" else []
            i = ps[-1][1] if ps and ps[-1][0] == "i" else a.args[1] if a.op == "idx" else None
            if i is not None and self.num(i) is not None:
                out.append((self.num(i), e.args[1], e.loops))
        return out

    # ---- the rules about values
    def defstep(self, s, isV, B):
        """the step s registers the definition of a value: in range, not defined before, now defined in B"""
        for V, b, loops in self.tablewrites(s):
            if isV(V) and b is B and self.inrange(s, V) is True and self.definedby(s, V) is False:
                return True
        return False

    def defblock(self, s):
        B = self.block(s)
        for B in B:
            pk = self.each(s, lambda x: self.defstep(x, lambda V: elem(V, "block_params") is B, B))
            ik = self.each(s, lambda x: self.definst(x, B))
            if pk and ik:
                return True
        return False

    def definst(self, s, B):
        def step(x):
            for I in self.insts(x, B):
                for O in self.operands(x, I):
                    k = self.opkind(x, O)
                    if k == 1 and not self.tablewrites_of(x, O):
                        return True
                    if k == 0 and self.defstep(x, lambda V: self.valueof(V, O), B):
                        return True
            return False
        return self.each(s, step) is not None

    def tablewrites_of(self, s, O):
        return [w for w in self.tablewrites(s) if self.valueof(w[0], O)]

    def usefacts(self, s, O, B):
        """(in range, defined, defined in this block, defined before here, defined in a dominator)"""
        V = [t for t in self.mentioned(s) if self.valueof(t, O)]
        tab = lambda x: isinstance(x, T) and strip(x).op == "idx" and self.num(strip(x).args[1]) in V
        rng = next((self.inrange(s, v) for v in V if self.inrange(s, v) is not None), None)
        dfd = next((self.definedby(s, v) for v in V if self.definedby(s, v) is not None), None)
        same = truth(s, eqs(s, tab, B))
        here = dom = None
        for f, y in s.facts.items():
            if call(f, "contains") and targs(f)[-1] in V and isinstance(y, bool):
                here = y
            if call(f, "dominates") and isinstance(y, bool) and tab(targs(f)[-2]) and targs(f)[-1] is B:
                dom = y
        return rng, dfd, same, here, dom

    def usestep(self, s, B):
        for I in self.insts(s, B):
            for O in self.operands(s, I):
                if self.placeholder(s, O) is True or self.opkind(s, O) == 0:
                    return True
                rng, dfd, same, here, dom = self.usefacts(s, O, B)
                if rng is True and dfd is True and (same is True and here is True or same is False and dom is True):
                    return True
        return False

    def sets(self, s, names):
        return [e for e in s.events() if e.kind == "call" and last(e.name) in names and len(e.args) >= 1 and ("HashSet" in e.name or last(e.name) == "extend")]

    def useblock(self, s, info):
        for B in self.block(s):
            for k, ss in self.groups(s):
                if ss and all(self.useinst(x, B) for x in ss):
                    info.append((k, B, ss))
                    return True
        return False

    def useinst(self, s, B):
        return self.each(s, lambda x: self.usestep(x, B)) is not None

    # ---- the rule about terminators
    def termstep(self, s, B):
        for I in self.insts(s, B):
            at = truth(s, eqs(s, I, lambda t: call(t, "last") and of(targs(t)[0], "block_insns") is B))
            br = truth(s, [t for t in s.facts if call(t, "is_branch") and targs(t)[-1] is I])
            rt = truth(s, [t for t in s.facts if call(t, "is_ret") and targs(t)[-1] is I])
            if at is False and br is False and rt is False:
                return True
            if at is True and br is True and self.each(s, lambda x: self.argstep(x, B, I)) is not None:
                return True
            if at is True and br is False and rt is True:
                return True
        return False

    def lens(self, s, B, I):
        """facts comparing the number of a successor's parameters with the number of arguments for it: {equal?}"""
        out = set()
        for f in subs(s):
            if f.op == "eq":
                a = [x for x in f.args if isinstance(x, T)][:2]
                if len(a) == 2 and all(x.op == "len" for x in a):
                    for p, q in (a, a[::-1]):
                        S = of(p.args[0], "block_params")
                        g = strip(q.args[0])
                        if S is not None and elem(S, "block_succs") is B and call(g, "branch_blockparams") and len(targs(g)) == 4 and targs(g)[1] is B and targs(g)[2] is I and strip(S).args[1] in subterms(targs(g)[3]):
                            y = s.facts.get(f)
                            if y is not None:
                                out.add(bool(y))
        return out

    def argstep(self, s, B, I):
        return self.lens(s, B, I) == {True}

    def termblock(self, s):
        return any(self.each(s, lambda x: self.termstep(x, B)) is not None for B in self.block(s))

    # ---- the rules about edges
    def critblock(self, s):
        for B in self.block(s):
            if max(entering(s, B), default=0) <= 1:
                return True
            def step(x):
                ps = {t for t in self.mentioned(x) if elem(t, "block_preds") is B}
                return any(max(count(x, "block_succs", p), default=0) <= 1 for p in ps)
            if self.each(s, step) is not None:
                return True
        return False

    def lastof(self, t, B):
        return call(t, "last") and of(targs(t)[0], "block_insns") is B

    def flags(self, s, val):
        """for a truth gathered over a finished loop and known to be val: (key, the steps of the loop that leave it val)"""
        out = []
        for f, y in s.facts.items():
            if f.op == "phi" and y is val and not f.args[2] and f.args[0] in self.backs and any(g == f.args[0] for g, _ in self.groups(s)):
                K, root = f.args[0], f.args[1]
                first = [o.mem.get(root) for o in self.I.entries.get(K, [])]
                if first and all(o is FALSE for o in first):
                    out.append((K, [z for x in self.backs[K] for z in [self.where(x, x.mem.get(root), f, val)] if z]))
        return out

    def where(self, x, t, P, val):
        """x with what follows from t being val; nothing when it can not be, or when that only repeats P"""
        if t is P:
            return At(x) if not val else None
        if t is TRUE or t is FALSE:
            return At(x) if (t is TRUE) is val else None
        add = {P: False}

        def learn(t, v):
            if t is P:
                return
            if t.op == "not":
                return learn(t.args[0], not v)
            if t.op == ("and" if v else "or"):
                for a in t.args:
                    learn(a, v)
                return
            if t.op == "or" and len(t.args) == 2 and P in t.args:
                return learn([a for a in t.args if a is not P][0], v)
            add[t] = v
        learn(t, val)
        if any(x.facts.get(k) is (not v) for k, v in add.items() if k is not P):
            return None
        return At(x, dict(x.facts, **{}) | add)

    def argsblock(self, s):
        for B in self.block(s):
            ls = {t for t in self.mentioned(s) if self.lastof(t, B)}
            if any(lenterms(s, "inst_operands", l) and max(count(s, "inst_operands", l), default=0) == 0 for l in ls):
                return True
            def step(x):
                ss = {t for t in self.mentioned(x) if elem(t, "block_succs") is B}
                return any(max(entering(x, y), default=0) <= 1 for y in ss)
            if self.each(s, step) is not None or any(all(step(x) for x in xs) for K, xs in self.flags(s, False)):
                return True
        return False

    # ---- verdicts
    def ok(self):
        return [(s, v) for s, v in self.rets if v.op == "agg" and v.args[1] == 0]

    def errs(self):
        """(state, variant, fields) of each error made here"""
        for s, v in self.rets:
            if v.op == "agg" and v.args[1] == 0:
                continue
            e = v.args[2] if v.op == "agg" and len(v.args) > 2 else None
            yield s, (e.args[1], list(e.args[2:])) if isinstance(e, T) and e.op == "agg" else None

    def established(self, rule, what, p, after=None):
        """on every accepting path some enumeration of all blocks ran to its end, each of whose steps satisfies p"""
        R = self.R
        oks = self.ok()
        keys = []
        for s, v in oks:
            k = self.each(s, p)
            keys.append(k)
        R.ob(rule, what, bool(oks) and all(k is not None for k in keys), self.b.where(), "%s accepts without having established it for every block" % self.b.path)
        return keys[0] if keys and all(k is not None for k in keys) else None

    def ssa(self, b):
        R = self.R
        self.explore(b)
        R.floor("ways %s accepts" % last(b.path), len(self.ok()), 1)
        dk = self.established("definitions", "every parameter and every instruction definition is a value in range, not defined before, and recorded with its block", self.defblock)
        info = []
        uk = self.established("uses", "every operand that uses a value finds it defined: earlier in the block, or in a block that dominates this one", lambda s: self.useblock(s, info))
        if uk is not None:
            self.local(info, dk)
        if dk is not None:
            self.table(dk)
        self.established("terminators", "the last instruction is a branch whose arguments match the parameters of each successor or a return; no other is either", self.termblock)
        for s, v in self.ok():
            E = {t for t in subs(s) if call(t, "entry_block")}
            R.ob("entry", "an accepted function's entry block has no parameters", any(max(count(s, "block_params", e), default=9) == 0 and lenterms(s, "block_params", e) for e in E), b.where(), "")
        n = 0
        for s, e in self.errs():
            n += 1
            if e is None:
                R.ob("errors", "%s only reports what it found" % last(b.path), False, b.where(), "an error of unknown kind")
                continue
            R.ob("errors", "%s refuses only what breaks the rule it names (error %d)" % (last(b.path), e[0]), self.justified(s, *e), b.where(), "refused with variant %d on a path that does not know the rule to be broken" % e[0])
        R.floor("ways %s refuses" % last(b.path), n, 6)

    def table(self, dk):
        """nothing is recorded as defined before the definitions are gone through"""
        init = [x for st in self.I.entries.get(dk, []) for l, x in st.mem.items() if isinstance(x, T) and any(call(y, "num_vregs") for y in subterms(x))]
        inv = lambda x: any(call(y, "invalid") or y.op == "agg" and "Block" in str(y.args[0]) for y in subterms(x))
        if not init:
            return
        self.R.ob("definitions", "the table starts without a definition for any value", all(inv(x) for x in init), self.b.where(), str(init[0])[:150])

    def local(self, info, dk):
        R, b = self.R, self.b
        R.ob("uses", "definitions are all known before a use is judged", dk is not None and all(any(f.op == "done" and f.args[0][-1] == dk for f in x.facts) for k, B, ss in info for x in ss), b.where(), "uses and definitions are gone through at once")
        for k, B, ss in info[:1]:
            # what the set of values defined earlier in the block starts with
            roots = {z.args[0].args[0] for x in ss for z, y in self.within(x, k) if last(z.name) in ("insert", "extend") and isinstance(z.args[0], T) and z.args[0].op == "ref"}
            R.ob("uses", "one set holds what an instruction defined", len(roots) == 1, b.where(), str(len(roots)))
            for s in self.I.entries.get(k, []) if isinstance(k, str) else []:
                for r in roots:
                    t = s.mem.get(r)
                    R.ob("uses", "before a block's instructions only its parameters count as defined in it", t is not None and self.params(s, r, t, B), b.where(), "the set holds %s" % str(t)[:160])
            for x in ss:
                adds = self.within(x, k)
                good = bool(adds)
                for z, at in adds:
                    if last(z.name) == "extend":
                        els = [y for y in self.I.log if y.kind == "call" and y.extra and y.extra.get("extend") and y.bb == z.bb and y.loops == z.loops]
                        good &= bool(els) and all(any(self.opkind(y, o) == 0 and self.valueof(y.args[-1], o) for y in [At(y)] for I in self.insts(y, B) for o in self.operands(y, I)) for y in els)
                        good &= not any(q.op == "seq" and q.args[0] in SKIP[:-2] for q in subterms(z.args[1]))
                    else:
                        good &= last(z.name) == "insert" and any(self.opkind(y, o) == 0 and self.valueof(z.args[-1], o) for y in [at] for I in self.insts(y, B) for o in self.operands(y, I))
                R.ob("uses", "after an instruction its definitions, and nothing else, count as defined", good, b.where(), "")
                for g, gs in self.groups(x):
                    if not any(k in y.loops and self.own(y) for y in gs):
                        continue
                    for y in gs:
                        Os = {o for I in self.insts(y, B) for o in self.operands(y, I)}
                        z = self.own(y)
                        R.ob("uses", "every definition of an instruction is added", bool(z) or bool(Os) and all(self.opkind(y, o) == 1 for o in Os), b.where(), "")
                for z, at in adds:
                    R.ob("uses", "an instruction's definitions are added after its uses were judged", any(hs and all(self.usestep(w, B) for w in hs) for h, hs in self.groups(at)), b.where(), "")

    def own(self, y):
        """changes the step y itself makes to a set"""
        return [z for z in y.events() if z.kind == "call" and last(z.name) in ("insert", "remove", "clear", "extend", "retain", "drain", "take") and z.loops == y.loops]

    def within(self, x, k):
        """changes made to sets within the step x of loop k, with the state each is made in"""
        out = []
        for y in [x] + [y for g, gs in self.groups(x) for y in gs if k in y.loops]:
            for z in self.own(y):
                out.append((z, y))
        return out

    def empty(self, s, r, t):
        if call(t, "default", "new", "with_hasher", "with_capacity_and_hasher", "with_capacity"):
            return True
        return t.op == "hv" and t.args[0] == r and any(e.kind == "call" and last(e.name) == "clear" and isinstance(e.args[0], T) and e.args[0].op == "ref" and e.args[0].args[0] == r and e.bb == t.args[2][1] for e in s.events())

    def params(self, s, r, t, B):
        """the set t holds the parameters of B, and nothing that B's instructions define: what other blocks left in it does not matter"""
        whole = lambda q: any(of(y, "block_params") is B for y in subterms(q)) and not any(y.op == "seq" and y.args[0] in SKIP for y in subterms(q))
        if t.op == "extend":
            o = t.args[0]
            return whole(t.args[1]) and (self.empty(s, r, o) or o.op == "phi" and o.args[1] == r and o.args[0] in s.loops)
        if call(t, "iter_collect", "from_iter"):
            return whole(targs(t)[-1] if targs(t) else t.args[1])
        if t.op == "phi":
            K = t.args[0]
            return any(f.op == "done" and f.args[0][-1] == K for f in s.facts) and self.whole(K) and all(self.empty(o, r, o.mem.get(r)) or o.mem[r].op == "phi" and o.mem[r].args[0] in o.loops for o in self.I.entries.get(K, [])) and \
                all(len(self.own(x)) == 1 and last(self.own(x)[0].name) == "insert" and elem(self.own(x)[0].args[-1], "block_params") is B for x in self.backs.get(K, []))
        return False

    def justified(self, s, k, fs):
        bs = self.block(s)
        if k == 1:
            V, at = fs[0], fs[1]
            if self.inrange(s, V) is False:
                return True
            for B in bs:
                for I in self.insts(s, B):
                    for O in self.operands(s, I):
                        if self.valueof(V, O):
                            kd = self.opkind(s, O)
                            if kd == 0 and self.definedby(s, V) is True and at is I:
                                return True
                            rng, dfd, same, here, dom = self.usefacts(s, O, B)
                            if kd == 1 and self.placeholder(s, O) is False and at is I and (rng is False or dfd is False or same is True and here is False or same is False and dom is False):
                                return True
                if elem(V, "block_params") is B and self.definedby(s, V) is True:
                    return True
            return False
        if k == 2:
            for B in bs:
                if fs[0] is B and lenterms(s, "block_insns", B) and max(count(s, "block_insns", B), default=9) == 0:
                    return True
                for I in self.insts(s, B):
                    at = truth(s, eqs(s, I, lambda t: self.lastof(t, B)))
                    br = truth(s, [t for t in s.facts if call(t, "is_branch") and targs(t)[-1] is I])
                    rt = truth(s, [t for t in s.facts if call(t, "is_ret") and targs(t)[-1] is I])
                    if fs[0] is B and (at is True and br is False and rt is False or at is False and (br or rt)):
                        return True
            return call(fs[0], "entry_block") and bool(lenterms(s, "block_params", fs[0])) and min(count(s, "block_params", fs[0]), default=0) >= 1
        if k == 3:
            for B in bs:
                for I in self.insts(s, B):
                    if fs[0] is I and truth(s, eqs(s, I, lambda t: self.lastof(t, B))) is True and self.lens(s, B, I) == {False} and truth(s, [t for t in s.facts if call(t, "is_branch") and targs(t)[-1] is I]):
                        return True
            return False
        if k == 0:
            p, B = fs
            return elem(p, "block_preds") is B and bool(lenterms(s, "block_preds", B)) and min(entering(s, B), default=0) >= 2 and bool(lenterms(s, "block_succs", p)) and min(count(s, "block_succs", p), default=0) >= 2
        if k == 5:
            for B in bs:
                if self.lastof(fs[0], B):
                    ss = {t for t in subs(s) if elem(t, "block_succs") is B}
                    return bool(lenterms(s, "inst_operands", fs[0])) and min(count(s, "inst_operands", fs[0]), default=0) >= 1 and (
                        any(lenterms(s, "block_preds", y) and min(entering(s, y), default=0) >= 2 for y in ss) or
                        any(xs and all(any(elem(y, "block_succs") is B and lenterms(x, "block_preds", y) and min(entering(x, y), default=0) >= 2 for y in subs(x)) for x in xs) for K, xs in self.flags(s, True)))
        return False

    def cfg(self, b):
        R = self.R
        self.explore(b)
        R.floor("ways %s accepts" % last(b.path), len(self.ok()), 1)
        self.established("critical edges", "a block entered in more than one way has only predecessors with one successor", self.critblock)
        self.established("branch operands", "a block with a successor entered in more than one way ends in an instruction without operands", self.argsblock)
        self.established("terminators", "every block has an instruction to end it", lambda s: any(lenterms(s, "block_insns", B) and min(count(s, "block_insns", B), default=0) >= 1 for B in self.block(s)))
        n = 0
        for s, e in self.errs():
            n += 1
            if e is None:
                v = [v for t, v in self.rets if t is s][0]
                R.ob("errors", "%s passes on only an error of a callee" % last(b.path), any(call(x, "calculate") for x in subterms(v)), b.where(), str(v)[:120])
                continue
            R.ob("errors", "%s refuses only what breaks the rule it names (error %d)" % (last(b.path), e[0]), self.justified(s, *e), b.where(), "refused with variant %d on a path that does not know the rule to be broken" % e[0])
        R.floor("ways %s refuses" % last(b.path), n, 3)

    # ---- dominance
    def dominance(self):
        R, db = self.R, self.db
        bs = [b for b in db.local_bodies() if b.name == "dominates" and b.path.startswith("domtree")]
        if not bs:
            raise MissingAnchor("domtree::dominates")
        b = bs[0]
        I, paths = explore(db, b, None)
        R.saw(I)
        R.paths += len(paths)
        n = 0
        for k, s, v in paths:
            cur = lambda t: isinstance(t, T)
            eq = [(f, y) for f, y in s.facts.items() if f.op == "eq" and isinstance(y, bool) and any(x is T("sym", "arg2") for x in f.args)]
            if k == "ret" and v.op in ("bool", "int"):
                n += 1
                val = bool(v.args[0])
                if val:
                    R.ob("dominance", "a block dominates itself and what its tree children dominate", any(y for f, y in eq), b.where(), "true without having met the block")
                else:
                    R.ob("dominance", "a block does not dominate what the walk to the root misses it for", bool(eq) and not any(y for f, y in eq), b.where(), "false without having compared")
        R.floor("answers of dominates", n, 2)


class Only:
    """passes on the obligations of another check that this property rests on"""

    def __init__(self, R, rules):
        self._r, self._rules = R, rules

    def ob(self, rule, instance, ok, where="", msg=""):
        if rule in self._rules:
            return self._r.ob(self._rules[rule], instance, ok, where, msg)
        return ok

    def rule(self, *a):
        pass

    def floor(self, what, n, least):
        return self._r.floor(what, n, least)

    def __getattr__(self, a):
        return getattr(self._r, a)

    def __setattr__(self, a, v):
        if a.startswith("_"):
            object.__setattr__(self, a, v)
        else:
            setattr(self._r, a, v)


def run(R, tier):
    R.rule("definitions", "on accepting: all blocks' parameters and definition operands are in range, unique and recorded with their block")
    R.rule("uses", "on accepting: each use operand's value is in range, defined, and defined earlier in its block or in a dominating block")
    R.rule("terminators", "on accepting: last instruction is a branch with matching argument counts or a return, all others neither")
    R.rule("entry", "on accepting: the entry block has no parameters")
    R.rule("critical edges", "on accepting: ways into a block <= 1 or every predecessor has <= 1 successor")
    R.rule("branch operands", "on accepting: every successor is entered in <= 1 way or the last instruction has no operands")
    R.rule("errors", "each refusing path knows the rule named by its error to be broken by the construct in the error")
    R.rule("validated", "with validation requested the allocator is reached only after both validators accepted the caller's function")
    v = Valid(R)
    q = v.q
    where = {}
    for b, bb, ops, variant, span in q.constructs("RegAllocError"):
        where.setdefault(variant, set()).add(b.u)
    db = v.db
    fns = [b for b in db.local_bodies() if error_type(db, b) and last(error_type(db, b)) == "RegAllocError" and not is_closure(b)]
    reach = {b.u: {x if isinstance(x, str) else x.u for x in q.reach([b])} | {b.u} for b in fns}
    callees = {b.u: {x if isinstance(x, str) else x.u for x in q.callees(b)} for b in db.local_bodies()}

    def role(k, what):
        """the functions other modules call to have rule k checked"""
        us = where.get(k, set())
        c = [b for b in fns if reach[b.u] & us and b.path.startswith(("ssa", "cfg"))]
        ids = {b.u for b in c}
        out = [b for b in c if any(b.u in callees[o.u] for o in db.local_bodies() if o.u not in ids)]
        if not out:
            raise MissingAnchor(what)
        return out

    for b in role(1, "the SSA validator"):
        v.ssa(b)
    for b in role(0, "the CFG validator"):
        v.cfg(b)
    v.dominance()
    c16.run(Only(R, {"validation": "validated", "errors": "validated"}), tier)
