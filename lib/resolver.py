"""Typestate of the temporary register used to split stack-to-stack moves.

MoveAndScratchResolver::compute turns one sequence of moves into another.  Every way through one
generic iteration of its loop is interpreted; the loop-carried flags are followed to a fixpoint
together with two facts about the output so far: R "the scratch register holds the value the input
sequence left in it" and V "the save slot holds that value"."""
from paths import *
from sem import *
from query import Q

KIND_NONE, KIND_REG, KIND_STACK = 0, 1, 2


def resolver_body(db):
    out = []
    for b in db.bodies.values():
        if b.local and b.argc == 2 and not is_closure(b):
            ty = db.types[b.lty(1)]
            if ty["k"] == "adt" and ty["path"].endswith("MoveAndScratchResolver"):
                out.append(b)
    if len(out) != 1:
        raise MissingAnchor("the scratch resolver (a function consuming MoveAndScratchResolver and a move list)")
    return out[0]


def _names(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _names(y)


def ssubst(db, t, f, memo=None):
    """substitution that also reads fields of aggregates put in place of a variable"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        def go(x):
            return ssubst(db, x, f, memo) if isinstance(x, T) else tuple(go(y) for y in x) if isinstance(x, tuple) else x
        args = tuple(go(x) for x in t.args)
        r = t
        if args != t.args:
            r = None
            a = args[0] if args else None
            if t.op == "fld" and isinstance(a, T) and a.op == "agg":
                d = db.adts.get(a.args[0])
                names = [x[0] for x in d["variants"][a.args[1]]["fields"]] if d else [str(i) for i in range(len(a.args) - 2)]
                if str(args[1]) in names:
                    r = a.args[2 + names.index(str(args[1]))]
            elif t.op == "discr" and isinstance(a, T) and a.op == "agg" and isinstance(a.args[1], int):
                r = mkint(a.args[1], "isize")
            if r is None:
                r = rebuild(t.op, args)
    memo[t] = r
    return r


_mem = {}


def calls_field(t, name):
    """is the field `name` of the resolver involved in t?"""
    k = (t, name)
    if k not in _mem:
        _mem[k] = any(name in _names(x.args) for x in subterms(t) if x.op in ("fld", "ref", "hv", "call", "res"))
    return _mem[k]


class Resolver:
    def __init__(self, db, R):
        self.db, self.R = db, R
        b = self.b = resolver_body(db)
        R.sawfn(b)
        self.I, self.paths = explore(db, b, None)
        R.saw(self.I)
        R.paths += len(self.paths)
        self.main = None
        adt = db.adts["moves::MoveAndScratchResolver"]["variants"][0]["fields"]
        tys = {}
        for n, ty, _ in adt:
            tys[n] = ty
        # which field plays which part is read off the types: the only PReg field is the borrowed register
        self.f_borrow = next((n for n, ty, _ in adt if self.db.types[ty].get("path", "").endswith("PReg")), "borrowed_scratch_reg") if all(isinstance(ty, int) for _, ty, _ in adt) else "borrowed_scratch_reg"

    # ---- classification of the allocations that appear in pushed moves
    def elem(self, t):
        """(sequence, position, component) when t is component k of an input move"""
        if t.op == "fld" and t.args[1] in ("0", "1", "2", 0, 1, 2):
            x = t.args[0]
            if x.op == "idx" and x.args[1].op == "any":
                return x, int(t.args[1])
        return None

    def classify(self, t):
        e = self.elem(t)
        if e is not None:
            return ("src", "dst", "data")[e[1]]
        if calls_field(t, self.f_borrow):
            return "S*"
        ff, gs = calls_field(t, "find_free_reg"), calls_field(t, "get_stackslot")
        if gs and not ff:
            return "V"
        if ff and not gs:
            return "Sfree"
        return None

    # ---- the result list
    def chain(self, v):
        """(base, pushed values) of a list value"""
        out = []
        while v.op == "push" and len(v.args) == 2:
            out.append(v.args[1])
            v = v.args[0]
        out.reverse()
        return v, out

    def run(self, rule5, rule21):
        R, I = self.R, self.I
        where = self.b.where()
        keys = []
        for k, s, v in self.paths:
            if k == "back":
                for m in s.mem.values():
                    base, ps = self.chain(m)
                    if ps and all(self.is_move(p) for p in ps) and base.op == "phi" and base.args[0] == v and v not in keys:
                        keys.append(v)
        if len(keys) != 1:
            R.ob(rule21, "one loop of the resolver produces the final moves", False, where, "%d loops push moves" % len(keys))
            return
        key = self.main = keys[0]
        self.reslocs = {r for k, s, v in self.paths if k == "back" and v == key for r, m in s.mem.items() if self.chain(m)[1] and all(self.is_move(p) for p in self.chain(m)[1])}
        R.ob(rule21, "the moves are collected in one list", len(self.reslocs) == 1, where, str(self.reslocs))
        resloc = sorted(self.reslocs, key=repr)[0]
        rets = [(s, v) for k, s, v in self.paths if k == "ret"]
        R.floor("ways out of the resolver", len(rets), 2)
        nfast = 0
        for s, v in rets:
            base, ps = self.chain(v)
            if T("left", key) in s.facts and s.facts[T("left", key)]:
                continue
            nfast += 1
            self.fast_return(s, v, rule5, rule21)
        nent = 0
        for e in I.entries.get(key, []):
            nent += 1
            self.entry(key, e, resloc, rule5, rule21)
        R.floor("ways into the resolver's loop", nent, 1)
        return key

    def is_move(self, p):
        return p.op == "agg" and p.args[0] == "tuple" and len(p.args) in (4, 5)

    def parts(self, p):
        a = list(p.args[2:])
        return a[0], a[1], a[2] if len(a) > 2 else None

    def stack_fact(self, s, t):
        """what the path knows about is_stack_alloc(t)"""
        for f, v in s.facts.items():
            if f.op == "call" and len(f.args) >= 2 and f.args[-1] is t and calls_field(f.args[1], "is_stack_alloc"):
                return v
        return None

    def fast_return(self, s, v, rule5, rule21):
        """the input list is returned as it is: legal when no element copies stack to stack"""
        R = self.R
        ok5, why = False, "the list is returned without having been searched for stack-to-stack moves"
        for q, val in s.facts.items():
            if q.op == "quant" and val:
                if partial(q):
                    why = "only a part of the list is searched"
                    continue
                st = self.I.quants.get(q, [])
                good = bool(st)
                for g in st:
                    els = {}
                    for f, x in g.facts.items():
                        if f.op == "call" and len(f.args) >= 2 and calls_field(f.args[1], "is_stack_alloc"):
                            e = self.elem(f.args[-1])
                            if e and e[0].args[0] is v:
                                els[e[1]] = x
                    if els.get(0) is not False and els.get(1) is not False:
                        good = False
                        why = "a move with both ends on the stack may be present"
                ok5 = ok5 or good
        if not ok5:
            ok5, w2 = self.loop_evidence(s, v)
            why = w2 or why
        R.ob(rule5, "a move list returned unchanged holds no stack-to-stack move", ok5, self.b.where(), why)
        # and it is the input list
        R.ob(rule21, "a list returned early is the input list", self.is_input(v), self.b.where(), str(v)[:120])

    def is_input(self, v):
        if v.op == "phi":
            es = self.I.entries.get(v.args[0], [])
            return bool(es) and all(self.is_input(e.mem.get(v.args[1], v)) for e in es if e.mem.get(v.args[1]) is not v)
        return has(v, lambda x: x.op == "sym" and x.args[0] == "arg2") and not has(v, lambda x: x.op == "push")

    def loop_evidence(self, s, v):
        """a finished loop over the list, in which every generic iteration sees a move that is not stack to stack (or latches a flag that is down at the end)"""
        for f, val in s.facts.items():
            if f.op != "left" or not val:
                continue
            key = f.args[0]
            backs = [x for k, x, kk in self.paths if k == "back" and kk == key]
            rel = []
            for b in backs:
                els, seen = {}, False
                for g, x in b.facts.items():
                    if g.op == "call" and len(g.args) >= 2 and calls_field(g.args[1], "is_stack_alloc"):
                        e = self.elem(g.args[-1])
                        if e and e[0].args[0] is v and key in str(e[0].args[1].args):
                            els[e[1]] = x
                            seen = True
                if seen:
                    rel.append((b, els))
            if not rel or not any(g.op == "done" and key in str(g.args) for g in s.facts):
                continue
            bad = [b for b, els in rel if els.get(0) is not False and els.get(1) is not False]
            if not bad:
                return True, ""
            # a latched flag
            for g, x in s.facts.items():
                if g.op == "phi" and g.args[0] == key and x is False and not g.args[2]:
                    if all(b.mem.get(g.args[1]) is TRUE for b in bad) and all(subst(b.mem.get(g.args[1], g), lambda t: TRUE if t is g else None) is TRUE for b in backs):
                        return True, ""
        return False, ""

    # ---- the main loop
    def consistent(self, e, s):
        return all(s.facts.get(k, v) == v for k, v in e.facts.items())

    def entry(self, key, e, resloc, rule5, rule21):
        R, I = self.R, self.I
        where = self.b.where()
        start = e.mem.get(resloc)
        base, pre = self.chain(start) if start is not None else (None, [])
        R.ob(rule21, "the output starts empty", start is not None and not pre and (start.op in ("vecnew",) or start.op == "agg" and len(start.args) <= 2 or "new" in str(start)), where, str(start)[:80])
        backs = [s for k, s, v in self.paths if k == "back" and v == key and self.consistent(e, s)]
        rets = [(s, v) for k, s, v in self.paths if k == "ret" and s.facts.get(T("left", key)) and self.consistent(e, s)]
        R.floor("iterations analysed", len(backs), 2)
        # every element, in order
        seqs = {x for m in e.mem.values() for x in subterms(m) if x.op == "seq"}
        used = [x for x in seqs if any(y.op in ("ref", "idx", "phi", "sym", "fld") for y in subterms(x))]
        R.ob(rule21, "the moves are taken in order and none is left out", not any(partial(x) or x.args[0] == "rev" for x in used) and all(any(f.op == "done" and key in str(f.args) for f in s.facts) for s, _ in rets), where, "the loop skips, reverses or stops early")
        # temporaries used anywhere on the paths of this entry
        temps = {}
        for s in backs + [s for s, _ in rets]:
            for p in self.pushed(s, resloc, None)[1]:
                for x in self.parts(p)[:2]:
                    temps.setdefault(self.classify(x), set()).add(x)
        for c, xs in temps.items():
            if c in ("src", "dst"):
                continue
            R.ob(rule21, "the locations written are the ends of the move, the scratch register and its save slot", c is not None, where, "; ".join(str(x)[:100] for x in xs))
            if c is not None:
                R.ob(rule21, "one %s is used for the whole list" % {"S*": "borrowed register", "Sfree": "free register", "V": "save slot", "data": "?"}.get(c, c), len(xs) == 1 and c != "data", where, "; ".join(str(x)[:100] for x in xs))
        stolen = "S*" in temps
        if stolen and "Sfree" in temps:
            R.ob(rule21, "the scratch register does not change during the list", False, where, "both a free and a borrowed register are used")
            return
        S = next(iter(temps.get("S*") or temps.get("Sfree") or {None}))
        V = next(iter(temps.get("V") or {None}))
        if S is None:
            R.ob(rule5, "a stack-to-stack move is split through a register", False, where, "no scratch register is used")
            return
        # the borrowed register is only used when no free one exists
        if stolen:
            # a borrowed register: the request for a free one must have failed on this path
            R.ob(rule21, "a register is borrowed only when there is no free one", any(f.op == "discr" and v == 0 and calls_field(f, "find_free_reg") for f, v in e.facts.items()) or any(f.op == "discr" and v == 0 and calls_field(f, "find_free_reg") for s in backs for f, v in s.facts.items()), where, "no failed request for a free register")
        phis = set()
        for s in backs + [s for s, _ in rets]:
            for f in list(s.facts) + [s.mem.get(resloc)]:
                if f is not None:
                    phis |= {x for x in subterms(f) if x.op == "phi" and x.args[0] == key and x.args[1] != resloc}
        phis = sorted(phis, key=lambda x: x._id)

        def comp(st, ph):
            v = st.mem.get(ph.args[1])
            if v is None:
                return None
            for f in ph.args[2]:
                v = I.getf(v, f)
            return v
        init = tuple(comp(e, p) for p in phis)
        todo, seen = [(init, True, False)], set()
        nst = 0
        while todo:
            stt = todo.pop()
            if stt in seen:
                continue
            seen.add(stt)
            if len(seen) > 400:
                R.ob(rule21, "the flags of the resolver range over finitely many values", False, where, "state space does not close")
                return
            sig, r0, v0 = stt
            env = {p: x for p, x in zip(phis, sig) if x is not None}
            f = lambda t: env.get(t)
            for s in backs:
                nst += 1
                if not self.feasible(s, f):
                    continue
                _, ps = self.pushed(s, resloc, f)
                for alias in self.aliases(s, S, V, f, ps, stolen):
                    r1, v1 = self.simulate(s, ps, S, V, alias, r0, v0, stolen, rule5, rule21, f)
                    nxt = []
                    for p in phis:
                        x = comp(s, p)
                        nxt.append(ssubst(self.db, x, f) if x is not None else None)
                    todo.append((tuple(nxt), r1, v1))
            for s, v in rets:
                nst += 1
                if not self.feasible(s, f):
                    continue
                b2, ps = self.chain(v)
                R.ob(rule21, "the collected moves are what is returned", b2.op == "phi" and b2.args[0] == key and b2.args[1] == resloc, where, str(b2)[:80])
                r1, v1 = self.simulate(s, ps, S, V, None, r0, v0, stolen, rule5, rule21, f)
                if stolen:
                    R.ob(rule21, "a borrowed register holds its own value again at the end", r1, where, "a path ends the list with the register still holding a moved value (flags %s)" % self.flags(phis, sig))
        R.count("typestate steps", nst)
        R.count("typestate states", len(seen))

    def flags(self, phis, sig):
        return ", ".join(str(x) for x in sig)

    def pushed(self, s, resloc, f):
        m = s.mem.get(resloc)
        base, ps = self.chain(m) if m is not None else (None, [])
        if f is not None:
            ps = [ssubst(self.db, p, f) for p in ps]
        return base, [p for p in ps if self.is_move(p)]

    def feasible(self, s, f):
        for t, v in s.facts.items():
            u = ssubst(self.db, t, f)
            if u is t:
                continue
            if u is TRUE and v is False or u is FALSE and v is True:
                return False
            if u.op == "int" and not isinstance(v, bool) and u.args[0] != v:
                return False
            if u.op == "int" and isinstance(v, bool) and u.args[0] != int(v):
                return False
        return True

    def aliases(self, s, S, V, f, ps, stolen):
        """ways src/dst can coincide with the scratch register: (src is S, dst is S)"""
        els = {}
        for t in s.facts:
            for x in subterms(t):
                e = self.elem(x)
                if e and e[1] in (0, 1) and self.main in str(e[0].args[1].args):
                    els[e[1]] = x
        for p in ps:
            for x in self.parts(p):
                e = self.elem(x) if x is not None else None
                if e and e[1] in (0, 1) and self.main in str(e[0].args[1].args):
                    els[e[1]] = x
        if not stolen:
            # a free register is no end of any move of the list (checked on the closures that hand it out)
            return [(False, False)] if self.alias_ok(s, els, S, (False, False)) else []
        return [a for a in ((False, False), (True, False), (False, True), (True, True)) if self.alias_ok(s, els, S, a)]

    def alias_ok(self, s, els, S, alias):
        sub = {}
        for i in (0, 1):
            if alias[i]:
                if i not in els:
                    continue
                if self.stack_fact(s, els[i]) is True:
                    return False  # a register is not a stack slot
                sub[els[i]] = S
        g = lambda t: sub.get(t)
        for t, v in s.facts.items():
            if sub:
                u = ssubst(self.db, t, g)
                if u.op == "eq":
                    u = mkeq(*u.args)
                if u is TRUE and v is False or u is FALSE and v is True:
                    return False
            for i in (0, 1):
                # an equality test that came out true names S
                if not alias[i] and i in els and v is True and t.op == "eq":
                    w = ssubst(self.db, t, lambda x: S if x is els[i] else None)
                    if w.op == "eq":
                        w = mkeq(*w.args)
                    if w is TRUE and t is not TRUE:
                        return False
        return True

    def simulate(self, s, ps, S, V, alias, r0, v0, stolen, rule5, rule21, f):
        """execute the pushed moves; returns the new (R, V)"""
        R, where = self.R, self.b.where()
        # contents: "s" the register's own value, "x" the value being moved, "?" anything else
        P = {"S": "s" if r0 else "?", "V": "s" if v0 else "?"}
        srcS = dstS = False
        if alias is not None:
            srcS, dstS = alias
        P["src"] = "x"
        own = "x" if srcS else "s"
        if srcS:
            P["S"] = "x" if r0 else "?"
            P["V"] = "x" if v0 else "?"
        P["dst"] = "?"
        maybe = {"S": False, "V": True, "S*": False, "Sfree": False}
        written = set()
        for p in ps:
            a, b, d = self.parts(p)
            names = []
            for x in (a, b):
                c = self.classify(x)
                n = {"S*": "S", "Sfree": "S", "V": "V", "src": "src", "dst": "dst"}.get(c)
                names.append(n)
            if None in names:
                return False, False
            if alias is None and ("src" in names or "dst" in names):
                R.ob(rule21, "after the list only the register itself is restored", False, where, str(p)[:120])
                return False, False
            st = []
            for n, x in zip(names, (a, b)):
                if n == "S":
                    st.append(False)
                elif n == "V":
                    st.append(True)
                else:
                    st.append(self.stack_fact(s, x))
            R.ob(rule5, "a pushed move has at least one end that is not on the stack", st[0] is False or st[1] is False, where, "%s -> %s" % (names[0], names[1]))
            val = P["S"] if names[0] == "src" and srcS else P[names[0]]
            n = names[1]
            if n == "src":
                R.ob(rule21, "the source of a move is not overwritten", False, where, str(p)[:120])
            if n == "dst" and dstS:
                n = "S"
            P[n] = val
            written.add(n)
            if d is not None:
                fin = names[1] == "dst"
                saverest = "V" in names
                dd = self.elem(d)
                if fin:
                    R.ob(rule21, "the move into the destination keeps the label of the input move", dd is not None and dd[1] == 2, where, str(d)[:80])
                if saverest:
                    R.ob(rule21, "saving and restoring the register carries no value label", dd is None, where, str(d)[:80])
        if alias is not None:
            got = P["S"] if dstS else P["dst"]
            R.ob(rule21, "the destination receives the value of the source", got == "x", where, "the source is %s, the destination %s, and the value that arrives is %s (register %s, save slot %s before)" % (
                "the scratch register" if srcS else "elsewhere", "the scratch register" if dstS else "elsewhere", "the moved one" if got == "x" else "something else", "intact" if r0 else "overwritten", "valid" if v0 else "stale"))
            new = "x" if dstS or srcS else "s"
        else:
            new = own
        return P["S"] == new, P["V"] == new
