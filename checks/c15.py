"""C15: operands naming a non-allocatable register keep exactly that register; their placeholder vreg is never a value."""
import mirdb
from query import Q
from report import *
from paths import *
import c27

LEVEL = "other"
TECHNIQUE = "path-sensitive guard analysis over MIR: every use of an operand's vreg under facts that exclude placeholders, needs propagated to callers"

METHODS = ("vreg", "kind", "pos", "constraint", "as_fixed_nonallocatable")
# discriminants of the operand `Operand::fixed_nonallocatable` makes, computed in shape()
PURE = ("eq", "ne", "clone", "cmp", "partial_cmp", "fmt", "deref", "borrow", "class", "bits")
BIG = 500


def last(p):
    return p.split("::")[-1]


def meth(t, m=None):
    """X when t is Operand::m(X)"""
    if t.op in ("call", "res") and isinstance(t.args[0], str) and t.args[0].startswith("Operand::"):
        n = last(t.args[0])
        if n in METHODS and (m is None or n == m):
            xs = [a for a in t.args[1:] if isinstance(a, T)]
            if not xs and len(t.args) > 1 and isinstance(t.args[1], tuple):
                xs = [a for a in t.args[1] if isinstance(a, T)]
            return xs[0] if xs else None
    return None


def meth_any(t, m):
    """an Operand::m call inside t"""
    for y in subterms(t):
        if meth(y, m) is not None:
            return meth(y, m)
    return None


def carries(v, V):
    """V itself is part of the value v"""
    return v is V or v.op in ("agg", "with", "vf", "fld") and any(isinstance(a, T) and carries(a, V) for a in v.args)


class Guards:
    def __init__(self, R):
        self.R = R
        self.db = mirdb.load("main")
        self.q = Q(self.db)
        self.needs = {}  # (u, argument position) -> why
        self.memo = {}
        self.settle = set()  # (u, operand position)

    def skip(self, b):
        return not b.local or b.derived or b.path.startswith(("Operand::", "<", "fuzzing", "serialize")) or "::fmt" in b.path or "serde" in b.path

    def run(self):
        self.shape()
        self.bodies = []
        ops = {b.u for b in self.q.bodies() if b.path in ("Operand::vreg",)}
        called = set()
        for b in self.q.bodies():
            called |= self.q.callees(b)
        R = self.R
        for b in self.q.bodies():
            if self.skip(b) or not self.db.bodies.get(b.u):
                continue
            if self.has_operand(b) or self.q.callees(b) & ops or self.sources(b):
                if b.u not in called and not self.exported(b):
                    continue  # dead code
                self.bodies.append(b)
        R.floor("functions that handle operands", len(self.bodies), 10)
        # errors and uses; what a parameter needs goes to the callers
        for b in self.bodies:
            self.walk(b)
        for _ in range(8):
            n = len(self.needs)
            us = {u for u, i in self.needs}
            for b in self.q.bodies():
                if b not in self.bodies and not self.skip(b) and self.q.callees(b) & us:
                    self.bodies.append(b)  # the operand reaches it inside something else
            for b in self.bodies:
                self.passes(b)
            if len(self.needs) == n:
                break
        for b in self.bodies:
            self.passes(b, True)
        self.assigned()

    def exported(self, b):
        return is_closure(b) or "{impl" in b.u or "<impl" in b.path or "::<" in b.path or "as " in b.path

    def has_operand(self, b):
        return any(self.is_op(b.lty(i + 1)) for i in range(b.argc))

    def is_op(self, ti):
        ty = self.db.types[ti]
        if ty["k"] == "ref":
            ty = self.db.types[ty["t"]]
        return ty["k"] == "adt" and ty["path"] == "Operand"

    def sources(self, b):
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn" and last(t[1][1]["f"]["path"]) == "inst_operands":
                return True
        return False

    # ---------------------------------------------------------------- the placeholder's shape
    def shape(self):
        R = self.R
        b = [x for x in self.q.bodies() if x.path == "Operand::fixed_nonallocatable"]
        f = [x for x in self.q.bodies() if x.path == "Operand::as_fixed_nonallocatable"]
        R.floor("constructor of placeholder operands", len(b), 1)
        R.floor("test for placeholder operands", len(f), 1)
        self.want = {}
        if not b or not f:
            return
        keep = ("Operand::new", "VReg::new", "Operand::constraint", "Operand::vreg", "VReg::vreg")
        I, paths = explore(self.db, b[0], None, noinline=lambda x: x.path in keep)
        self.want = {"as_fixed_nonallocatable": 1, "constraint": 3}
        nums = set()
        for k, s, v in paths:
            R.count("paths of the constructor")
            a = T("sym", "arg1")
            ok = v is not None and v.op in ("call", "res") and v.args[0] == "Operand::new"
            args = self.args(v) if ok else []
            ok = ok and len(args) == 4 and args[1].op == "agg" and args[1].args[1] == 3 and args[1].args[2] is a
            R.ob("shape", "the constructor's operand is fixed to the register it was given", ok, b[0].where(), "made from " + str(v)[:200])
            vr = args[0] if ok else None
            vargs = self.args(vr) if vr is not None and vr.op in ("call", "res") and vr.args[0] == "VReg::new" else []
            ok = len(vargs) == 2 and vargs[0].op == "int"
            R.ob("shape", "the constructor's operand names a constant vreg", ok, b[0].where(), "names " + str(vr)[:100])
            if not ok:
                continue
            nums.add(vargs[0].args[0])
            if vargs[1].op == "agg":
                known = [y for f, y in s.facts.items() if f.op not in ("eq",) and isinstance(y, int) and not isinstance(y, bool) and a in subterms(f)]
                R.ob("shape", "the placeholder vreg has the class of the register", vargs[1].args[1] in known, b[0].where(), "class %s where the register has %s" % (vargs[1].args[1], known))
            else:
                R.ob("shape", "the placeholder vreg has the class of the register", a in subterms(vargs[1]), b[0].where(), "class " + str(vargs[1])[:100])
            for x, m in zip(args[2:], ("kind", "pos")):
                if x.op == "agg":
                    self.want[m] = x.args[1]
        R.floor("attributes of a placeholder operand", len(self.want), 4)
        # the test: says Some(the register) for exactly the operands fixed to a register whose vreg number is the constructor's
        I, paths = explore(self.db, f[0], None, noinline=lambda x: x.path in keep)
        fixed = number = None
        for k, s, v in paths:
            if k == "panic" or v is None:
                continue
            R.count("paths of the test for placeholders")
            isfixed = isnum = None
            for t, y in s.facts.items():
                if meth_any(t, "constraint") is not None and (t.op == "discr" or t.op == "eq"):
                    c = y if t.op == "discr" else [x.args[0] for x in t.args if x.op == "int"][:1]
                    if t.op == "discr" and isinstance(y, int) and not isinstance(y, bool):
                        isfixed = y == 3
                    elif t.op == "eq" and c:
                        isfixed = y if c[0] == 3 else False if y else isfixed
                elif t.op == "eq" and any(x.op == "int" and {x.args[0]} == nums for x in t.args) and any(self.vregnum(x) for x in t.args):
                    isnum = y
            if v.op == "agg" and v.args[1] == 1:
                pay = v.args[2]
                R.ob("shape", "an operand taken for a placeholder is one, and its register is the one it is fixed to", bool(isfixed and isnum) and meth_any(pay, "constraint") is not None and "3" in str(pay), f[0].where(), "Some(%s) although fixed=%s, vreg number=%s" % (str(pay)[:60], isfixed, isnum))
            else:
                R.ob("shape", "every placeholder is recognised", isfixed is False or isnum is False, f[0].where(), "answers %s where fixed=%s, vreg number=%s" % (str(v)[:60], isfixed, isnum))

    def args(self, t):
        return list(t.args[1]) if len(t.args) > 1 and isinstance(t.args[1], tuple) else [x for x in t.args[1:] if isinstance(x, T)]

    def vregnum(self, x):
        return x.op in ("call", "res") and x.args[0] == "VReg::vreg" and any(meth(y, "vreg") is not None for y in subterms(x))

    # ---------------------------------------------------------------- facts
    def excluded(self, facts, X):
        """the facts say X is no placeholder"""
        for f, y in facts.items():
            if f.op == "eq":
                a, c = f.args[0], f.args[1]
                if a.op == "int":
                    a, c = c, a
                if c.op == "int" and a.op == "discr":
                    for m, w in self.want.items():
                        if meth(a.args[0], m) is X and (c.args[0] != w) == (y is True) and (y is True or c.args[0] == w):
                            return True
            elif f.op == "discr" and isinstance(y, int) and not isinstance(y, bool):
                for m, w in self.want.items():
                    if meth(f.args[0], m) is X and y != w:
                        return True
        return False

    def excused(self, X):
        """operands that cannot be placeholders: those kept in a live range's uses (checked where they are stored), and the operand another one reuses"""
        if X.op in ("fld", "vf") and "operand" in [a for a in X.args if isinstance(a, str)]:
            return True
        if X.op == "ref" and any(isinstance(p, tuple) and p[0] == "f" and p[-1] == "operand" for p in X.args[1]):
            return True
        if X.op == "idx":
            for t in subterms(X.args[1]):
                if meth(t, "constraint") is not None:
                    return True
        return X.op == "unk"

    def origin(self, X):
        """the operand whose vreg X carries"""
        for _ in range(4):
            if X.op in ("call", "res") and X.args[0] == "Operand::new":
                vs = [meth(t, "vreg") for t in subterms(X) if meth(t, "vreg") is not None]
                if not vs:
                    return X
                X = vs[0]
            else:
                break
        return X

    def param(self, X):
        if X.op == "sym" and str(X.args[0]).startswith("arg"):
            return int(str(X.args[0])[3:]) - 1
        return None

    # ---------------------------------------------------------------- one body
    def paths(self, b):
        if b.u not in self.memo:
            small = ("Operand", "VReg", "Allocation", "index")
            # operand accessors stay calls, small helpers of the same module are calls too; closures are part of their function
            noin = lambda x: x.local and (x.path.split("::")[0] in small or not is_closure(x))
            if len(b.blocks) > BIG and self.sources(b):
                r = skeleton(self.db, b, lambda f: last(f["path"]) == "inst_operands", noinline=noin)
            else:
                r = explore(self.db, b, None, noinline=noin)
            self.memo[b.u] = r
            self.R.saw(r[0])
            self.R.sawfn(b)
            self.R.paths += len(r[1])
        return self.memo[b.u]

    def walk(self, b):
        I, paths = self.paths(b)
        for k, s, v in paths:
            evs = s.events()
            for i, e in enumerate(evs):
                if e.kind == "call" and e.name == "Operand::vreg" and e.args:
                    self.value(b, e, evs[i + 1:], k, s, v)
                elif e.kind == "call" and last(e.name) == "new" and e.name.split("::")[-2:-1] == ["Use"]:
                    self.sink(b, e.args[0], e.facts, "kept as a use of its vreg", e)
            if k == "ret" and v is not None and v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 1:
                self.error(b, s, v)

    def value(self, b, e, later, k, s, v):
        """the vreg read by event e: is it used for more than comparisons?"""
        X = self.origin(e.args[0])
        V = e.res
        if V is None or self.excused(X):
            return
        self.R.count("reads of an operand's vreg")
        for f in later:
            if f.kind == "call" and (last(f.name) in PURE or f.name in ("Operand::new", "VReg::vreg", "Operand::vreg") or target(f.extra["f"]) in self.db.bodies and f.name.startswith("Operand::")):
                continue
            if any(isinstance(a, T) and V in subterms(a) for a in f.args):
                tgt = self.db.bodies.get(target(f.extra["f"])) if f.kind == "call" else None
                if tgt is not None and tgt.local and any(isinstance(a, T) and a.op in ("call", "res") and a.args[0] == "Operand::new" and V in subterms(a) for a in f.args):
                    continue  # an operand handed on: judged by what the callee needs
                self.sink(b, X, f.facts, "%s uses it" % last(str(f.name)), f)
        for f, y in s.facts.items():
            if V in subterms(f) and f.op not in ("eq",) and not (f.op in ("call", "res") and last(str(f.args[0])) in PURE) and not (f.op == "discr"):
                if not any(meth(t) is not None and t is not V and V in subterms(t) for t in subterms(f)):
                    self.sink(b, X, s.facts, "a decision depends on it", e)
        if k == "ret" and v is not None and carries(v, V):
            self.sink(b, X, s.facts, "it is returned", e)

    def sink(self, b, X, facts, what, e):
        X = self.origin(X)
        if self.excused(X):
            return
        if self.excluded(facts, X):
            self.R.ob("guard", "%s: %s only for operands with a value" % (b.path, what), True)
            return
        p = self.param(X)
        if p is not None and not is_closure(b):
            self.needs.setdefault((b.u, p), "%s (%s)" % (what, b.path))
            return
        self.R.ob("guard", "%s: %s only for operands with a value" % (b.path, what), False, b.where(), "the vreg of %s is used although the operand may be a placeholder for a fixed register" % str(X)[:100])

    def error(self, b, s, v):
        """an error made here because of an operand"""
        pay = v.args[2] if len(v.args) > 2 else None
        if pay is None or pay.op != "agg":
            return
        if pay.args[0].endswith("CheckerError"):
            var = self.db.adts[pay.args[0]]["variants"][pay.args[1]]["name"]
            if "Value" not in var:
                return
        elif not pay.args[0].endswith("RegAllocError"):
            return
        xs = {meth(t) for f in s.facts for t in subterms(f) if meth(t) is not None}
        xs = {self.origin(x) for x in xs}
        for X in xs:
            if not self.excused(X):
                self.sink(b, X, s.facts, "an error is reported", b)

    def passes(self, b, final=False):
        I, paths = self.paths(b)
        for k, s, v in paths:
            for e in s.events():
                if e.kind != "call":
                    continue
                u = target(e.extra["f"])
                for (nu, i), why in list(self.needs.items()):
                    if nu == u and i < len(e.args):
                        X = self.origin(e.args[i])
                        if X.op == "ref":
                            continue
                        if self.excused(X) or self.excluded(e.facts, X) or self.reused(e.facts, e.args[i]):
                            if final:
                                self.R.ob("guard", "%s: %s called only for operands with a value" % (b.path, last(e.name)), True)
                            continue
                        p = self.param(X)
                        if p is not None and not is_closure(b):
                            self.needs.setdefault((b.u, p), why)
                        elif final:
                            self.R.ob("guard", "%s: %s called only for operands with a value" % (b.path, last(e.name)), False, b.where(), "the operand may be a placeholder for a fixed register; inside, %s" % why)

    def reused(self, facts, X):
        """X stands for an operand that a Reuse constraint names: its position is recorded in a table that says who reuses it"""
        for f, y in facts.items():
            if f.op == "eq" and y is False and any(a.op == "int" and a.args[0] == (1 << 64) - 1 for a in f.args):
                return True
        return False

    # ---------------------------------------------------------------- the register in the output
    def reg_of(self, t):
        """X when t is Allocation::reg(the register as_fixed_nonallocatable(X) names)"""
        if t.op in ("call", "res") and t.args[0] in ("Allocation::reg", "From::from", "core::convert::From::from"):
            for y in subterms(t):
                if y is not t and meth(y, "as_fixed_nonallocatable") is not None:
                    return meth(y, "as_fixed_nonallocatable")
        return None

    def stores(self, s):
        """{X: event} : output slots set to the register X names"""
        out = {}
        for e in s.events():
            if e.kind == "write" or e.kind == "call" and last(e.name) == "set_alloc":
                X = self.reg_of(e.args[-1]) if isinstance(e.args[-1], T) else None
                if X is not None:
                    out[X] = e
        return out

    def failing(self, v):
        return v is not None and v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 1

    def assigned(self):
        R = self.R
        # functions that give a placeholder parameter its register on every successful path
        settle = {}
        for _ in range(6):
            n = len(settle)
            for b in self.bodies:
                if is_closure(b):
                    continue
                for p in range(b.argc):
                    if (b.u, p) in settle or not self.is_op(b.lty(p + 1)):
                        continue
                    I, paths = self.paths(b)
                    X = T("sym", "arg%d" % (p + 1))
                    rel = [(s, v) for k, s, v in paths if k == "ret" and not self.failing(v) and not self.excluded(s.facts, X)]
                    hit = [self.hit(s, X, settle) for s, v in rel]
                    if rel and any(hit) and all(h or self.reused(s.facts, X) for h, (s, v) in zip(hit, rel)):
                        settle[(b.u, p)] = True
            if len(settle) == n:
                break
        n, where = 0, set()
        for b in self.bodies:
            I, paths = self.paths(b)
            # loops that give registers to placeholders
            byloop = {}
            for k, s, v in paths:
                if k == "back":
                    byloop.setdefault(v, []).append(s)
            for key, ss in sorted(byloop.items()):
                xs = set()
                for s in ss:
                    for X in self.cands(s, key, settle):
                        xs.add(X)
                for X in xs:
                    n += 1
                    where.add(b.path.split("::")[0])
                    bad = [s for s in ss if not self.excluded(s.facts, X) and not self.hit(s, X, settle) and self.known_or_total(b, s, X)]
                    R.ob("assign", "%s: a placeholder operand gets the register it names" % b.path, not bad, b.where(), "an iteration leaves it without")
        R.floor("loops that give placeholder operands their register", n, 2)
        for a in ("ion", "fastalloc"):
            R.ob("assign", "%s has a loop that gives placeholder operands their register" % a, a in where, "src/%s" % a, "no loop over operands stores, for a placeholder, the register it names")

    def cands(self, s, key, settle):
        out = set(X for X, e in self.stores(s).items() if e.loops and e.loops[-1] == key)
        for e in s.events():
            if e.kind == "call" and e.loops and e.loops[-1] == key:
                u = target(e.extra["f"])
                for i, a in enumerate(e.args):
                    if (u, i) in settle and isinstance(a, T):
                        out.add(a)
        return {x for x in out if x.op != "sym"}

    def known_or_total(self, b, s, X):
        """the iteration knows X to be a placeholder, or does not skip it for a reason that has nothing to do with it"""
        for f, y in s.facts.items():
            if meth(f.args[0] if f.op == "discr" else f, "as_fixed_nonallocatable") is X and y == 1:
                return True
            if f.op == "eq" and y is True and any(a.op == "discr" and meth(a.args[0], "as_fixed_nonallocatable") is X for a in f.args) and any(a.op == "int" and a.args[0] == 1 for a in f.args):
                return True
        return len(b.blocks) <= BIG

    def hit(self, s, X, settle):
        if X in self.stores(s):
            return True
        for e in s.events():
            if e.kind == "call":
                u = target(e.extra["f"])
                if any((u, i) in settle and a is X for i, a in enumerate(e.args)):
                    return True
        return False


def run(R, tier):
    R.rule("guard", "the vreg of an operand that comes from the client is used as a value (index, argument, stored use, result, reason for an error) only where the path excludes a placeholder operand")
    R.rule("shape", "the constructor of placeholders and the test for them agree: fixed to the given register, reserved vreg number, recognised exactly then")
    R.rule("assign", "every iteration over operands that may be placeholders stores exactly the named register as the operand's allocation")
    R.assumptions.append("a Reuse constraint never names a placeholder operand (stated by a debug assertion in the crate)")
    Guards(R).run()
