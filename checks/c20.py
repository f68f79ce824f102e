"""C20: the redundant-move remover drops a move only while both sides provably agree."""
from orders import *
from paths import *
from query import Q
from sem import Sem, site, sym
from splits import Splits, opaque_big
from c04 import SortKeys, elem_type, opty
from c27 import own_seqs, whole_seq, slot_read, one
from prov import Prov

TECHNIQUE = "inductive invariant of the copy map checked path by path, must-clear analysis of everything that happens between two moves"
LEVEL = "other"
READS = ("get", "contains_key", "is_empty", "len", "iter", "keys", "values", "get_key_value")
"""
Invariant: if allocs[x] is Copy(y, _) then x and y hold the same value, and x is in reverse[y].
A: process_move keeps it and elides only what it implies.  B, C: clear_alloc / clear drop everything that speaks about the location.
D: nobody else touches the maps.  E: every emitted move, and nothing else, goes through process_move.  F: everything written between two moves is cleared.
"""


def cargs(x):
    return [a for a in x.args[1:] if isinstance(a, T)]


def cname(x):
    return str(x.args[0]).split("::")[-1]


def on_key(c, name, key):
    """a lookup in the map `name` under `key`"""
    if c.op not in ("call", "res"):
        return False
    a = cargs(c)
    return cname(c) in ("get_mut", "get", "remove", "remove_entry") and len(a) > 1 and a[1] is key and name


def short_name(e):
    return e.name.split("::")[-1]


class C20:
    def __init__(self, R):
        self.R, self.S, self.db = R, None, None
        self.seen_map, self.last_map = {}, {}

    def anchors(self):
        R = self.R
        self.S = S = Sem("main", R)
        self.db = db = S.db
        self.q, self.P = Q(db), Prov(db)
        self.adt = S.adt("RedundantMoveEliminator")
        fs = db.adts[self.adt]["variants"][0]["fields"]
        tys = {f[0]: db.types[f[1]].get("s", "") for f in fs}
        rev = [n for n, t in tys.items() if "Map<" in t and "Vec<" in t]
        fwd = [n for n, t in tys.items() if "Map<" in t and n not in rev]
        if len(rev) != 1 or len(fwd) != 1:
            raise MissingAnchor("the two maps of the redundant-move remover")
        self.fwd, self.rev = fwd[0], rev[0]
        st = S.adt("RedundantMoveState")
        self.state = st
        self.copies = {}
        for i, v in enumerate(db.adts[st]["variants"]):
            a = [j for j, f in enumerate(v["fields"]) if db.types[f[1]].get("path") == "Allocation"]
            if a:
                self.copies[i] = a[0]
        methods = [b for b in db.local_bodies() if b.self_ty is not None and db.types[b.self_ty].get("path") == self.adt and not b.derived and "closure" not in b.u.split("::")[-1]]
        sig = {}
        for b in methods:
            if not self.is_self(b):
                continue
            k = tuple(db.types[b.lty(i)].get("path") for i in range(2, b.argc + 1))
            outside = [c for c, bb, a, sp in self.P.sites(b.u) if self.owner(c) not in [m.u for m in methods]]
            if outside:
                sig.setdefault(k, []).append(b)
        A = S.adt("Allocation")
        mv = [b for k, l in sig.items() if k[:2] == (A, A) for b in l]
        ca = [b for k, l in sig.items() if k == (A,) for b in l]
        cl = [b for k, l in sig.items() if k == () for b in l]
        if len(mv) != 1 or len(ca) != 1 or len(cl) != 1:
            raise MissingAnchor("the entry points of the redundant-move remover")
        self.pm, self.ca, self.cl = mv[0], ca[0], cl[0]
        self.roots = {self.pm.u, self.ca.u, self.cl.u}
        other = {b.u for l in sig.values() for b in l} - self.roots
        self.others = other
        for b in (self.pm, self.ca, self.cl):
            R.sawfn(b)

    def is_self(self, b):
        t = self.db.types[b.lty(1)]
        return b.argc >= 1 and t["k"] == "ref" and self.db.types[t["t"]].get("path") == self.adt

    def owner(self, b):
        return b.u.split("::{closure")[0]

    # -------------------------------------------------------------- map operations
    def map_of(self, t):
        """which of the two maps a reference or value stands for"""
        if t.op == "ref" and t.args[1]:
            p = t.args[1][-1]
            n = p[2] if len(p) > 2 else str(p[1])
            return n if n in (self.fwd, self.rev) else None
        if t.op == "fld" and t.args[1] in (self.fwd, self.rev):
            return t.args[1]
        return None

    def mutates(self, e):
        return 0 in (e.extra or {}).get("mut", [])

    def entry_key(self, t):
        """(map, key) for a place found in a map"""
        for _ in range(12):
            if t.op in ("call", "res"):
                a = cargs(t)
                if cname(t) in ("entry", "get_mut", "remove", "get", "insert") and len(a) >= 2:
                    m = self.last_map.get(t)
                    if m:
                        return m, a[1]
                if not a:
                    return None
                t = a[0]
            elif t.op == "ref" and t.args[0][0] == "O":
                t = t.args[0][1]
            elif t.op in ("vf", "fld", "deref", "idx") and isinstance(t.args[0], T):
                t = t.args[0]
            else:
                return None
        return None

    def ops(self, s):
        """[(operation, map, key, value, event)] in order"""
        out = []
        self.last_map = {}
        for e in s.events():
            if e.kind == "call":
                n = short_name(e)
                na = (e.extra or {}).get("nargs") or list(e.args)
                m = self.map_of(e.args[0]) if e.args else None
                u = target(e.extra["f"]) if e.extra and e.extra.get("f") else None
                if u in self.roots:
                    out.append(({self.pm.u: "move", self.ca.u: "forget", self.cl.u: "reset"}[u], None, na[1] if len(na) > 1 else None, na, e))
                elif m:
                    key = na[1] if len(na) > 1 else None
                    if e.res is not None:
                        self.last_map[e.res] = self.seen_map[e.res] = m
                    if self.mutates(e) and n not in ("get_mut", "entry"):
                        out.append((n, m, key, na[2] if len(na) > 2 else None, e))
                elif n in ("push", "extend", "insert", "or_insert") and e.args:
                    k = self.entry_key(e.args[0])
                    if k and n == "push":
                        out.append(("push", k[0], k[1], na[1], e))
                    elif k and k[0] == self.fwd:
                        out.append(("insert", k[0], k[1], na[-1], e))
                elif n in ("drain", "clear", "truncate", "retain", "remove", "pop", "swap_remove") and e.args:
                    k = self.entry_key(e.args[0])
                    if k:
                        out.append(("shrink", k[0], k[1], None, e))
            elif e.kind == "write":
                k = self.entry_key(e.args[0]) if e.args else None
                if k:
                    out.append(("insert" if k[0] == self.fwd else "rewrite", k[0], k[1], e.args[-1], e))
                elif e.args and e.args[0].op == "ref":
                    m = self.map_of(e.args[0])
                    if m:
                        out.append(("assign", m, None, e.args[-1], e))
                    elif e.args[0].args[0] == ("L", "ARG", 0) and not e.args[0].args[1]:
                        out.append(("assign", self.fwd, None, e.args[-1], e))
        return out

    def is_copy(self, v):
        if v is not None and v.op == "agg" and v.args[0] == self.state:
            return v.args[1] in self.copies
        return None

    def copy_of(self, v):
        return v.args[2 + self.copies[v.args[1]]]

    # -------------------------------------------------------------- A
    def same(self, s, a, b):
        if a is b:
            return True
        for f, v in s.facts.items():
            if v is True and f.op == "eq":
                x, y = f.args[0], f.args[1]
                if {x, y} == {a, b}:
                    return True
                if all(z.op == "fld" and z.args[1] in ("bits", "0") for z in (x, y)) and {x.args[0], y.args[0]} == {a, b}:
                    return True
        return False

    def known_copy(self, s, x, y):
        """the map says, unchanged since entry, that x is a copy of y"""
        for f, v in s.facts.items():
            if f.op == "discr" and v in self.copies:
                g = f.args[0]
                for c in subterms(g):
                    if on_key(c, True, x) and str(cargs(c)[0]) == "arg1.%s" % self.fwd:
                        p = [z for f2 in s.facts for z in subterms(f2) if z.op == "vf" and z.args[0] is g and z.args[1] == v and z.args[2] == self.copies[v]]
                        if any(self.same(s, z, y) for z in p):
                            return True
        return False

    def process(self):
        R, b = self.R, self.pm
        R.rule("process", "a move is elided only if the copy map, as it was on entry, shows that both ends agree; a kept move first forgets everything about its destination; a recorded copy is listed under its source")
        I, paths = explore(self.db, b, None, maxstates=4000, noinline=lambda x: x.u in (self.ca.u, self.cl.u))
        R.saw(I)
        R.paths += len(paths)
        fr, to = T("sym", "arg2"), T("sym", "arg3")
        act = S_adt = self.S.adt("RedundantMoveAction")
        n = elided = 0
        for k, s0, v in paths:
            if k != "ret":
                R.ob("process", "process_move has no loop", False, b.where(), "a loop in the transition function is not understood")
                continue
            if not (v.op == "agg" and v.args[0] == act):
                v = I.load(s0, v) if v.op == "ref" else v
            x = v.args[2] if v.op == "agg" else I.getf(v, ("f", 0))
            for s, el in I.branch_bool(s0, x):
                n += 1
                elided += el
                ops = self.ops(s)
                forgot = any(o[0] == "reset" or o[0] == "forget" and o[2] is to for o in ops)
                if el:
                    ok = self.same(s, fr, to) or self.known_copy(s, to, fr) or self.known_copy(s, fr, to)
                    R.ob("process", "an elided move has ends that agree", ok, b.where(), "elided under %s" % "; ".join("%s=%s" % (str(f)[:60], w) for f, w in list(s.facts.items())[:12]))
                else:
                    ok = forgot or any(o[0] == "clear" and o[1] == self.fwd for o in ops)
                    R.ob("process", "a kept move forgets what was known about its destination", ok, b.where(), "no clearing of the destination on a path that keeps the move")
                self.updates(b, s, ops, fr, to)
        R.floor("paths of the transition function", n, 6)
        R.floor("paths that elide a move", elided, 2)

    def updates(self, b, s, ops, fr, to):
        R = self.R
        for i, (o, m, key, val, e) in enumerate(ops):
            if o in ("forget", "reset"):
                continue
            if m == self.fwd:
                if o == "remove" or o == "clear":
                    continue
                c = self.is_copy(val)
                if o == "insert" and c is False:
                    continue
                ok = o == "insert" and c and any(self.same(s, key, x) for x in (fr, to)) and any(self.same(s, self.copy_of(val), x) for x in (fr, to))
                R.ob("process", "only the two ends of the move are recorded as copies of each other", bool(ok), site(e), "%s %s := %s" % (o, str(key)[:40], str(val)[:80]))
                if ok:
                    y = self.copy_of(val)
                    listed = any(o2 == "push" and m2 == self.rev and self.same(s, k2, y) and self.same(s, v2, key) or
                                 o2 == "insert" and m2 == self.rev and self.same(s, k2, y) and v2 is not None and any(z is key for z in subterms(v2)) for o2, m2, k2, v2, _ in ops)
                    R.ob("process", "a recorded copy is listed under its source", listed, site(e), "%s is not listed under %s" % (str(key)[:40], str(y)[:40]))
            elif m == self.rev:
                if o == "push":
                    continue
                if o == "insert":
                    R.ob("process", "a list of copies is not overwritten", self.absent(s, key, self.rev), site(e), "")
                    continue
                R.ob("process", "lists of copies only grow", False, site(e), o)

    def map_call(self, c, key, m=None):
        if not on_key(c, True, key):
            return False
        return (self.seen_map.get(c) or self.last_map.get(c)) == (m or self.rev)

    def absent(self, s, key, m):
        """the path knows that the map has no entry for the key"""
        return any(f.op == "discr" and v == 0 and self.map_call(f.args[0], key, m) for f, v in s.facts.items())

    # -------------------------------------------------------------- B, C
    def forget(self):
        R, b = self.R, self.ca
        R.rule("forget", "forgetting a location removes its own record and that of every copy listed under it; a reset removes all records")
        I, paths = explore(self.db, b, None, noinline=lambda x: x.u in (self.pm.u, self.cl.u))
        R.saw(I)
        R.paths += len(paths)
        a = T("sym", "arg2")
        good, bad = {}, {}
        for k, s, key in paths:
            if k != "back":
                continue
            ops = self.ops(s)
            els = set()
            for o in ops:
                if o[2] is not None and o[1] == self.fwd:
                    els |= {o[2]}
            for f in s.facts:
                els |= {x for x in subterms(f) if x.op == "idx"}
            hit = False
            for el in els:
                if not (el.op == "idx" and el.args[1].op in ("any", "phi") and any(self.map_call(c, a) for c in subterms(el.args[0]))):
                    continue
                gone = any(m == self.fwd and k2 is el and (o == "remove" or o == "insert" and self.is_copy(v2) is False) for o, m, k2, v2, _ in ops) \
                    or self.absent(s, el, self.fwd)
                hit = hit or gone
            hit = hit or any(o[0] == "reset" or o[0] == "clear" and o[1] == self.fwd for o in ops)
            (good if hit else bad).setdefault(key, []).append(s)
        loops = {k for k in good if k not in bad and all(whole_seq(x) or not self.touches(x, a) for x in own_seqs(I, k, None))}
        n = 0
        for k, s, v in paths:
            if k != "ret":
                continue
            n += 1
            ops = self.ops(s)
            if any(o[0] == "reset" or o[0] == "clear" and o[1] == self.fwd for o in ops):
                continue
            own = any(m == self.fwd and k2 is a and (o == "remove" or o == "insert" and self.is_copy(v2) is False) for o, m, k2, v2, _ in ops) or \
                self.absent(s, a, self.fwd)
            R.ob("forget", "the location's own record is removed", own, b.where(), "a path keeps it")
            none = self.absent(s, a, self.rev)
            swept = any(f.op == "done" and any(repr(l) in str(f) for l in loops) for f in s.facts)
            R.ob("forget", "every copy listed under the location is forgotten", none or swept, b.where(), "loops that sweep the list: %s; loops that keep a record: %s" % (sorted(loops), sorted(bad)))
        R.floor("returns of the forgetting function", n, 1)
        b = self.cl
        I, paths = explore(self.db, b, None, noinline=lambda x: x.u in (self.pm.u, self.ca.u))
        R.saw(I)
        R.paths += len(paths)
        n = 0
        for k, s, v in paths:
            if k != "ret":
                continue
            n += 1
            ops = self.ops(s)
            ok = any(m == self.fwd and (o in ("clear", "drain") or o == "assign" and self.empty(val)) for o, m, key, val, e in ops)
            ok = ok or any(e.kind == "call" and short_name(e) == "drain" and self.map_of(e.args[0]) == self.fwd for e in s.events()) or self.empty_field(s)
            R.ob("forget", "a reset removes all records", ok, b.where(), "the map of copies is kept")
        R.floor("returns of the reset function", n, 1)

    def touches(self, x, a):
        return any(self.map_call(c, a) for c in subterms(x))

    def empty(self, v):
        return v is not None and any(c.op in ("call", "res") and cname(c) in ("default", "new", "with_hasher") for c in subterms(v))

    def empty_field(self, s):
        v = s.mem.get(("L", "ARG", 0))
        if v is None:
            return False
        i = [f[0] for f in self.db.adts[self.adt]["variants"][0]["fields"]].index(self.fwd)
        f = PathInterp(self.db).getf(v, ("f", i, self.fwd))
        return f.op in ("call", "res") and self.empty(f)

    # -------------------------------------------------------------- D
    def encapsulated(self):
        R = self.R
        R.rule("owners", "the maps are changed by these operations only")
        owners = {}
        for b in self.q.bodies():
            for bb, s in self.q.stmts(b):
                rv = s[2]
                pls = []
                if rv[0] == "ref" and rv[2]:
                    pls.append(rv[1])
                elif rv[0] in ("rawptr", "addr"):
                    pls.append(rv[-1])
                for pl in pls + [s[1]]:
                    if isinstance(pl, list) and any(a and a.split("::")[-1] == self.adt.split("::")[-1] and f in (self.fwd, self.rev) for a, f in self.q.fields_of_place(b, pl)):
                        owners[self.owner(b)] = b
        R.floor("functions that change the maps", len(owners), 3)
        for u, b in sorted(owners.items()):
            R.ob("owners", "%s is one of the operations, or part of one" % b.path, self.part(u, ()) or b.derived, b.where(), "the maps are also changed elsewhere")

    def part(self, u, seen):
        if u in self.roots or u in seen:
            return True
        cs = {self.owner(c) for c, bb, a, sp in self.P.sites(u)}
        return bool(cs) and all(self.part(c, seen + (u,)) for c in cs)

    # -------------------------------------------------------------- E
    def emission(self):
        R, db = self.R, self.db
        R.rule("emission", "every resolved move is offered to the remover in emission order and emitted unless it is elided; before the moves of a point, everything between the previous point and it was accounted for")
        users = {}
        for c, bb, a, sp in self.P.sites(self.pm.u):
            users[self.owner(c)] = db.bodies[self.owner(c)]
        if len(users) != 1:
            raise MissingAnchor("the user of the redundant-move remover")
        b = self.user = next(iter(users.values()))
        R.sawfn(b)
        # whoever walks over the instructions in between
        inter = {}
        for r in (self.ca, self.cl):
            for c, bb, a, sp in self.P.sites(r.u):
                o = self.owner(c)
                if o not in self.roots and not self.part(o, ()):
                    inter[o] = db.bodies[o]
        walk = [x for x in inter.values() if x.u != b.u]
        # the outermost function called from the user with two program points
        P = self.S.adt("ProgPoint")
        self.walk = self.find_walk(walk, P)
        R.sawfn(self.walk)
        pts = [i for i in range(1, self.walk.argc + 1) if db.types[self.walk.lty(i)].get("path") == P]
        adds = [x for x in db.local_bodies() if x.name == "add" and x.self_ty is not None and db.types[x.self_ty].get("path", "").endswith("::Edits")]
        if len(adds) != 1:
            raise MissingAnchor("Edits::add")
        add = adds[0]
        keep = {self.pm.u, self.ca.u, self.cl.u, self.walk.u, add.u}
        I, paths = explore(db, b, None, noinline=lambda x: x.u in keep or opaque_big(x) and x.u not in self.helpers() or x.name in ("compute", "resolve"))
        R.saw(I)
        R.paths += len(paths)
        is_ = lambda e, u: e.kind == "call" and e.extra and e.extra.get("f") and target(e.extra["f"]) == u
        loops = {}
        outer = {}
        starts = {(e.extra["nargs"][pts[0] - 1], e.extra["nargs"][pts[1] - 1]) for k, s, key in paths for e in s.events() if is_(e, self.walk.u)}

        def same_point(s):
            """the point at hand is the one the walk last ended at"""
            return any(v is True and f.op == "eq" and ((f.args[0], f.args[1]) in starts or (f.args[1], f.args[0]) in starts) for f, v in s.facts.items())
        for k, s, key in paths:
            ev = list(s.events())
            for i, e in enumerate(ev):
                if is_(e, add.u):
                    src, dst = e.extra["nargs"][2], e.extra["nargs"][3]
                    prev = [x for x in ev[:i] if is_(x, self.pm.u) and x.loops == e.loops]
                    ok = bool(prev) and prev[-1].extra["nargs"][1] is src and prev[-1].extra["nargs"][2] is dst
                    R.ob("emission", "a move that is emitted was recorded by the remover just before", ok, site(e), "emitted %s -> %s" % (str(src)[:50], str(dst)[:50]))
                    loops.setdefault(e.loops, 0)
                if is_(e, self.pm.u):
                    loops.setdefault(e.loops, 0)
                    pre = [x for x in ev[:i] if is_(x, self.walk.u)]
                    if not pre and same_point(s):
                        continue
                    ok = bool(pre) and all(e.loops[:len(x.loops)] == x.loops for x in pre[-1:])
                    R.ob("emission", "what lies between the points is accounted for before the moves of a point are looked at", ok, site(e), "")
                    if ok:
                        outer.setdefault(pre[-1].loops[-1] if pre[-1].loops else None, []).append(pre[-1])
        R.floor("loops that emit moves", len(loops), 1)
        for L in loops:
            if not L:
                R.ob("emission", "moves are emitted one after the other", False, b.where(), "not in a loop")
                continue
            mine = [s for k, s, key in paths if k == "back" and key == L[-1]]
            for s in mine:
                ev = [e for e in s.events() if e.loops == L]
                pm = [e for e in ev if is_(e, self.pm.u)]
                ok = len(pm) == 1
                R.ob("emission", "every resolved move is offered to the remover", ok, b.where(), "an iteration does not")
                if not ok:
                    continue
                src, dst = pm[0].extra["nargs"][1:3]
                emitted = any(is_(e, add.u) and e.extra["nargs"][2] is src and e.extra["nargs"][3] is dst for e in ev)
                elided = any(v is True and self.elide_of(f, pm[0]) for f, v in s.facts.items())
                R.ob("emission", "a move that is not elided is emitted", emitted or elided, b.where(), "a kept move is lost")
        for key, calls in outer.items():
            if key is None:
                R.ob("emission", "the walk happens for every point", False, b.where(), "")
                continue
            seen = set()
            for c in calls:
                na = c.extra["nargs"]
                frm, to = na[pts[0] - 1], na[pts[1] - 1]
                if (frm, to) in seen:
                    continue
                seen.add((frm, to))
                ok = frm.op == "phi" and frm.args[0] == key
                bad = 0
                for k, s, kk in paths:
                    if k == "back" and kk == key and ok:
                        v = s.mem.get(frm.args[1])
                        for p in frm.args[2]:
                            v = I.getf(v, p) if v is not None else None
                        w = [e.extra["nargs"][pts[1] - 1] for e in s.events() if is_(e, self.walk.u) and e.loops and e.loops[-1] == key]
                        bad += not (len(w) == 1 and v is w[0] or not w and v is frm and same_point(s))
                R.ob("emission", "the walk starts where the previous one ended", ok and not bad, site(c), "from %s" % str(frm)[:80])
                R.ob("emission", "the walk ends at the point of the moves", self.point_of(to, paths, add), site(c), "to %s" % str(to)[:80])
        R.floor("walks between points", len(outer), 1)
        self.sorted(b, paths)

    def elide_of(self, f, e):
        return e.res is not None and f.op in ("fld", "vf") and f.args[0] is e.res

    def point_of(self, to, paths, add):
        """the walk ends at the point under which the moves are filed"""
        base = to.args[0] if to.op == "fld" else to
        for k, s, key in paths:
            for e in s.events():
                if e.kind == "call" and e.extra and e.extra.get("f") and target(e.extra["f"]) == add.u:
                    p = e.extra["nargs"][1]
                    if not (p is base or p is to or p.op == "agg" and to in p.args or str(p) == str(base)):
                        return False
        return True

    def helpers(self):
        """functions that take part in the protocol: those that mention the remover in their signature"""
        if not hasattr(self, "_h"):
            self._h = set()
            for b in self.db.local_bodies():
                for i in range(0, b.argc + 1):
                    if self.adt in self.db.types[b.lty(i)].get("s", "") and b.u not in self.roots:
                        self._h.add(b.u)
        return self._h

    def find_walk(self, walk, P):
        c = []
        for b in self.db.local_bodies():
            if b.u in self.roots:
                continue
            tys = [self.db.types[b.lty(i)].get("path") for i in range(1, b.argc + 1)]
            if tys.count(P) == 2 and any(self.adt in self.db.types[b.lty(i)].get("s", "") for i in range(1, b.argc + 1)):
                c.append(b)
        if len(c) != 1:
            raise MissingAnchor("the walk over what happens between two points")
        return c[0]

    def sorted(self, b, paths):
        R = self.R
        R.rule("order", "the moves are taken in program order")
        K = SortKeys(self.S, self.P)
        mv, pw = self.S.adt("InsertedMove"), self.S.adt("PosWithPrio")
        fields = lambda t: [f[0] for f in self.db.adts[t]["variants"][0]["fields"]]

        def elems(p):
            pos, prio = sym(p + "pos", "u32"), sym(p + "prio", "u32")
            v = {"pos": T("agg", "ProgPoint", 0, pos), "prio": prio}
            w = {"pos_prio": T("agg", pw, 0, *[v.get(f, T("sym", p + f)) for f in fields(pw)])}
            return T("agg", mv, 0, *[w.get(f, T("sym", p + f)) for f in fields(mv)]), [pos]
        good = set()
        for c in self.q.bodies():
            for bb, bl in enumerate(c.blocks):
                t = bl["t"]
                if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn" and t[2]:
                    n = t[1][1]["f"]["name"]
                    if n.startswith("sort") and elem_type(self.db, opty(self.db, c, t[2][0])) == mv:
                        ok, why = K.orders_by(c, t, n, elems)
                        R.ob("order", "the moves are sorted by program point", ok is True, self.q.span(c, t[5]), str(why))
                        if ok is True:
                            good.add(":".join(map(str, (t[5] or ["?"])[:2])))
        R.floor("sorts of the inserted moves", len(good), 1)
        bad = 0
        for k, s, key in paths:
            ev = list(s.events())
            for i, e in enumerate(ev):
                if e.kind == "call" and e.extra and e.extra.get("f") and target(e.extra["f"]) == self.walk.u:
                    so = [j for j, x in enumerate(ev[:i]) if x.kind == "call" and ":".join(map(str, (x.span or ["?"])[:2])) in good and not x.loops]
                    late = [x for x in ev[so[-1] + 1:i] if x.kind == "call" and short_name(x) in ("push", "insert", "swap", "reverse", "extend") and "moves" in str(x.args[0])] if so else []
                    bad += not so or bool(late)
        R.ob("order", "the moves are in program order when they are taken", not bad, b.where(), "%d walks before the sort" % bad)

    # -------------------------------------------------------------- F
    def between(self):
        R, b, db = self.R, self.walk, self.db
        R.rule("between", "between two points of one block every definition, every clobbered register and every dedicated scratch register is forgotten; between blocks everything is")
        I, paths = explore(db, b, None, pregseq=True, noinline=lambda x: x.u in self.roots or x.name in ("get_alloc",))
        R.saw(I)
        R.paths += len(paths)
        P = self.S.adt("ProgPoint")
        pts = [i for i in range(1, b.argc + 1) if db.types[b.lty(i)].get("path") == P]
        fr, to = (T("sym", "arg%d" % i) for i in pts)
        self.sp = Splits(db, R, self.S)
        covers = {}  # loop -> set of things every iteration forgets
        groups = {}
        for k, s, key in paths:
            if k == "back":
                groups.setdefault(key, []).append(s)
        for key, ss in groups.items():
            covers[key] = None
            for s in ss:
                c = self.forgets(s, key)
                covers[key] = c if covers[key] is None else covers[key] & c
        # loops that visit each instruction
        walks = {}
        for key, ss in groups.items():
            par = ss[0].loops[-2] if len(ss[0].loops) > 1 else None
            seqs = own_seqs(I, key, par)
            if par is None and len(seqs) >= 1 and all(x.op == "seq" and x.args[0] in ("range", "map") for x in seqs):
                walks[key] = seqs
        n = 0
        full = set()
        for key in walks:
            ok = True
            for s in groups[key]:
                n += 1
                if any(o[0] == "reset" for o in self.ops(s)):
                    continue
                done = set()
                for k2 in groups:
                    if k2 != key and any(f.op == "done" and repr(k2) in str(f) for f in s.facts) and all(self.all_of(x) for x in own_seqs(I, k2, key)):
                        done |= covers[k2] or set()
                for what in ("defs", "clobbers", "scratch"):
                    R.ob("between", "%s are forgotten for every instruction in between" % {"defs": "the allocations it defines", "clobbers": "the registers it clobbers", "scratch": "the dedicated scratch registers"}[what],
                         what in done, b.where(), "an iteration over the instructions does not forget all %s" % what)
        R.floor("iterations over the instructions in between", n, 1)
        m = 0
        for k, s, v in paths:
            if k != "ret":
                continue
            m += 1
            if any(o[0] == "reset" for o in self.ops(s)):
                continue
            R.ob("between", "nothing is kept across a block boundary", self.same_block(s, fr, to), b.where(), "a path that keeps records does not know that both points are in one block")
            done = [key for key in walks if any(f.op == "done" and repr(key) in str(f) for f in s.facts)]
            ok = any(all(self.spans(s, x, fr, to) for x in walks[key]) or self.spans_entry(I, s, key, fr, to) for key in done)
            R.ob("between", "every instruction between the points is visited", ok, b.where(), "%s" % [str(x)[:120] for key in walks for x in walks[key]][:2])
        R.floor("ways out of the walk", m, 2)

    def spans_entry(self, I, s, key, fr, to):
        # the range this very path entered the loop with
        f = {(k, v) for k, v in s.facts.items() if v in (True, False) and k.op == "bit"}
        es = [e for e in I.entries.get(key, []) if f <= set((k, v) for k, v in e.facts.items() if not isinstance(v, T))]
        xs = [x for e in es for x in e.mem.values() if x.op == "seq"]
        return bool(xs) and all(self.spans(s, x, fr, to) for x in xs)

    def idx(self, t):
        v = self.sp.ctor("Inst::index", t)
        return v

    def spans(self, s, x, fr, to):
        if x.op == "seq" and x.args[0] == "map":
            x = x.args[1]
        if not (x.op == "seq" and x.args[0] == "range"):
            return False
        a, b, incl = x.args[1:4]
        c = self.sp.ctor

        def inst(p):
            return self.idx(c("ProgPoint::inst", p))

        def nxt(p):
            return self.idx(c("Inst::next", c("ProgPoint::inst", p)))

        def after(p):
            return inst(c("ProgPoint::next", p))
        isafter = lambda p, v: any(f.op == "bit" and f.args[1] == 0 and f.args[0].op == "fld" and f.args[0].args[0] is p and w is v for f, w in s.facts.items())
        lo = [inst(fr), after(fr)] + ([nxt(fr)] if isafter(fr, True) else [])
        hi = [nxt(to), after(to)] + ([inst(to)] if incl or isafter(to, False) else [])
        return any(a is t for t in lo) and any(b is t for t in hi)

    def same_block(self, s, fr, to):
        for f, v in s.facts.items():
            if f.op == "eq" and v is True:
                x, y = f.args[0], f.args[1]
                i = [self.idx(self.sp.ctor("ProgPoint::inst", p)) for p in (fr, to)]
                if all(z.op == "idx" and any(w.op == "fld" and w.args[1] == "insn_block" for w in subterms(z.args[0])) for z in (x, y)) and {x.args[1], y.args[1]} == set(i):
                    return True
        return False

    def all_of(self, x):
        while x.op == "seq" and x.args[0] in ("enumerate", "cloned", "copied", "rev", "map", "flatten", "filter", "filter_map", "flat_map", "chain", "inspect"):
            x = x.args[1]
        return x.op == "seq" and (x.args[0] == "pregset" or whole_seq(x))

    def forgets(self, s, key):
        """what this iteration leaves forgotten, of the element it looks at"""
        out = set()
        ops = [o for o in self.ops(s) if o[0] in ("forget", "reset")]
        if any(o[0] == "reset" for o in ops):
            return {"defs", "clobbers", "scratch"}
        forgot = [o[2] for o in ops]
        pre = [p for p in (self.sp.preg_of(x) for x in forgot) if p is not None]
        # an operand that is not a definition needs nothing
        inst = self.cur_inst(s)
        for f, v in s.facts.items():
            if f.op == "bit" and f.args[1] == self.kind_bit() and v is True and self.operand(f.args[0]):
                out.add("defs")
        for e in forgot:
            if e.op in ("call", "res") and cname(e) == "get_alloc" and inst is not None and len(cargs(e)) >= 3 and cargs(e)[1] is inst and self.is_any(cargs(e)[2], key):
                out.add("defs")
            if inst is not None and e.op == "idx" and self.is_any(e.args[1], key) and "inst_alloc_offsets" in str(e.args[0]) and str(self.idx(inst)) in str(e.args[0]):
                out.add("defs")
        for p in pre:
            if p.op == "member" and inst is not None and any(c.op in ("call", "res") and cname(c) == "inst_clobbers" and c.args[-1] is inst for c in subterms(p.args[0])) and p.args[0].op in ("call", "res"):
                out.add("clobbers")
            if any(x.op == "idx" and x.args[0].op == "fld" and x.args[0].args[1] == "scratch_by_class" and self.is_any(x.args[1], key) for x in subterms(p)):
                out.add("scratch")
        for f, v in s.facts.items():
            if f.op == "discr" and v == 0 and f.args[0].op == "idx" and f.args[0].args[0].op == "fld" and f.args[0].args[0].args[1] == "scratch_by_class":
                out.add("scratch")
        return out

    def is_any(self, t, key):
        return t.op in ("any", "enum") or t.op == "elem" or t.op == "phi" and t.args[0] == key

    def operand(self, t):
        return any(c.op in ("call", "res") and cname(c) == "inst_operands" for c in subterms(t))

    def kind_bit(self):
        return 35

    def cur_inst(self, s):
        """the instruction the walk is at"""
        c = set()
        for e in s.events():
            if e.kind == "call" and short_name(e) in ("inst_operands", "inst_clobbers"):
                c.add(e.extra["nargs"][1])
        return next(iter(c)) if len(c) == 1 else None


def run(R, tier):
    c = C20(R)
    c.anchors()
    c.process()
    c.forget()
    c.encapsulated()
    c.emission()
    c.between()
