"""C27: layout, placement and retrieval of per-instruction results."""
from sem import *
from paths import *
from query import Q
from prov import Prov, show
import models

TECHNIQUE = ("abstract interpretation over MIR of the output accessors, the block iterator and the code that lays out allocation slots, compared path by path with the "
             "documented indexing; and a backward def-use query that proves, at every site where an allocation is stored, that instruction, slot number and stored value "
             "come from one and the same operand")
LEVEL = "other"
NOTE = ("Which register or slot a value gets is C03/C05/C12/C30; here: that whatever is assigned to an operand is found again under exactly that operand, and that each edit is "
        "delivered before the instruction it precedes.")
DR = ("deref", "deref_mut", "index", "new")


def run(R, tier):
    S = Sem("main", R)
    R.rule("slots", "the allocations of an instruction are the slice from its offset to the next instruction's offset, or to the end for the last one")
    R.rule("layout", "instructions are visited in order; each records as its offset the number of slots laid out before it, and lays out one slot per operand")
    R.rule("place", "an allocation is read or written at its instruction's offset plus the operand's position")
    R.rule("wiring", "at each store the instruction, the position and the stored value belong to the same operand")
    R.rule("complete", "the loops that store allocations visit every recorded use and every operand, and store one for each")
    R.rule("iterate", "a block yields its instructions in order, each preceded by exactly the edits not after the point before it")
    R.rule("start", "iteration of a block starts with the first edit that is not before its first instruction")
    R.rule("assemble", "the single-pass allocator returns the slots and offsets it filled in")
    R.rule("writers", "slots and offsets are written nowhere else")
    slots(S, R)
    layout(S, R)
    place(S, R)
    wiring(S, R)
    complete(S, R)
    iterate(S, R)
    start(S, R)
    writers(S, R)


def fld(db, t, adt, name):
    for i, f in enumerate(db.adts[adt]["variants"][0]["fields"]):
        if f[0] == name:
            return ("f", i, name)
    raise MissingAnchor("%s.%s" % (adt, name))


def slots(S, R):
    db = S.db
    b = S.fn("Output::inst_allocs")
    I, paths = explore(db, b)
    R.saw(I)
    R.paths += len(paths)
    n = {"last": 0, "inner": 0}
    for kind, s, v in paths:
        if kind != "ret":
            R.ob("slots", "inst_allocs has no loop", False, b.where(), "")
            continue
        i0 = T("sym", "arg2")
        out = T("sym", "arg1")
        idx = inst_index(S, i0)
        nxt = mkbin("Add", idx, mkint(1, "usize"), "usize")
        ok = v.op == "slref" and v.args[1] == "Range" and is_field(v.args[0], out, "allocs")
        if ok:
            lo, hi = v.args[2], v.args[3]
            ok = offset_term(lo, out, idx)
            lastf = last_fact(s, I, out, nxt)
            if lastf is True:
                n["last"] += 1
                ok = ok and hi.op == "len" and is_field(hi.args[0], out, "allocs")
            else:
                n["inner"] += 1
                ok = ok and lastf is False and offset_term(hi, out, nxt)
        R.ob("slots", "slots of an instruction (%s)" % ("last" if last_fact(s, I, out, nxt) else "not the last"), ok, b.where(), str(v)[:250])
    R.ob("slots", "the last instruction and the others are told apart", n["last"] >= 1 and n["inner"] >= 1, b.where(), str(n))


def inst_index(S, i0):
    I, r, _ = S.call("Inst::index", [i0])
    if len(r) != 1:
        raise MissingAnchor("Inst::index")
    return r[0][1]


def is_field(t, base, name):
    return t.op == "fld" and t.args[1] == name and (base is None or t.args[0] is base)


def contains_read(t, base, idx):
    return [x for x in subterms(t) if x.op == "idx" and is_field(x.args[0], base, "inst_alloc_offsets") and x.args[1] is idx]


def offset_term(t, base, idx):
    """t is inst_alloc_offsets[idx], zero-extended"""
    c = contains_read(t, base, idx)
    if len(c) != 1:
        return False
    return t is c[0] or (t.op == "bv" and plain_widening(t, c[0]))


def plain_widening(t, x):
    """bits<x[0..=31], 0*32>"""
    return str(t) == "bits<%s[0..=31],0*32>" % x


def last_fact(s, I, out, nxt):
    for t, v in s.facts.items():
        if t.op == "eq" and nxt in t.args and any(y.op == "len" and is_field(y.args[0], out, "inst_alloc_offsets") for y in t.args):
            return bool(v)
        if t.op == "lt" and any(y.op == "len" and is_field(y.args[0], out, "inst_alloc_offsets") for y in t.args):
            if t.args[0] is nxt:
                return not v
            if t.args[1] is nxt:  # len < idx+1
                return bool(v)
    # get(idx+1) returning None
    for t, v in s.facts.items():
        if t.op == "eq" and t.args[0].op == "discr":
            g = t.args[0].args[0]
            if g.op == "call" and str(g.args[0]).split("::")[-1] == "get" and nxt in g.args and any(is_field(y, out, "inst_alloc_offsets") for y in subterms(g)):
                if t.args[1].op == "int":
                    return bool(v) == (t.args[1].args[0] == 0)
    return None


# ------------------------------------------------------------------ layout
def layout(S, R):
    db = S.db
    q = Q(db)
    found = {}
    for b in q.bodies():
        if "serde" in b.path or b.derived or is_closure(b):
            continue
        if not pushes_offsets(q, db, b):
            continue
        I, paths = explore(db, b, noinline=lambda x: x.name not in ("deref", "deref_mut"))
        R.saw(I)
        R.paths += len(paths)
        ok, msg = lays_out(S, I, paths)
        found[b.path] = ok
        R.ob("layout", "slots are laid out by %s" % b.path, ok, b.where(), msg)
    R.floor("functions that lay out slots", len(found), 2)


def pushes_offsets(q, db, b):
    """does the body append to a vector that is, or becomes, inst_alloc_offsets?"""
    for bb, s in q.stmts(b):
        rv = s[2]
        if rv[0] in ("ref", "raw") and any(f == "inst_alloc_offsets" for a, f in q.fields_of_place(b, rv[1])) and uses_of(b, s[1][0]) & {"push", "extend", "insert", "resize"}:
            return True
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] == "Allocs" and any(f[0] == "inst_alloc_offsets" for f in db.adts[rv[1][1]]["variants"][0]["fields"]):
            return True
    return False


def last(e):
    return e.name.split("::")[-1]


def vec_target(e):
    """(root, projs) of the vector a push goes to"""
    a = e.args[0] if e.args else UNK
    return (a.args[0], a.args[1]) if a.op == "ref" else None


def lays_out(S, I, paths):
    backs = {}
    for kind, s, v in paths:
        if kind == "back":
            backs.setdefault(v, []).append(s)
    allinst = lambda t: "num_insts(" in str(t)
    cands = []
    for key, ss in backs.items():
        for s in ss:
            for e in s.events():
                if e.kind == "call" and last(e) == "push" and e.loops and e.loops[-1] == key and offset_value(e.args[1]):
                    cands.append((key, vec_target(e)))
    cands = sorted(set(cands), key=str)
    if not cands:
        return False, "no loop records offsets"
    errs = []
    for key, tgt in cands:
        entry = I.entries.get(key, [])
        # visits all instructions in order
        seqs = [x for s in entry for x in s.mem.values() if x.op == "seq" and "num_insts(" in str(x)]
        whole = bool(seqs) and all(x.args[0] == "range" and x.args[1].op == "int" and x.args[1].args[0] == 0 and x.args[2].op == "call" and
                                   str(x.args[2].args[0]).split("::")[-1] == "num_insts" and x.args[3] is False for x in seqs)
        if not whole:
            errs.append("not a loop over all instructions in order: %s" % [str(x) for x in seqs][:2])
            continue
        if any(len(e) > 0 for e in [s.loops for s in entry]):
            errs.append("nested in another loop")
            continue
        good = True
        for s in backs[key]:
            ps = [e for e in s.events() if e.kind == "call" and e.loops and key in e.loops and vec_target(e) == tgt and last(e) in ("push", "extend", "insert", "pop", "resize", "truncate", "clear")]
            if len(ps) != 1 or last(ps[0]) != "push":
                good = False
                errs.append("offsets recorded %d times for an instruction" % len(ps))
                break
            v = narrow(ps[0].args[1])
            ops = [e for e in s.events() if e.kind == "call" and last(e) == "inst_operands" and key in e.loops]
            if not ops or any(not this_inst(e.extra["nargs"][1]) for e in ops):
                good = False
                errs.append("operands of another instruction are counted: %s" % [str(e.extra["nargs"][1]) for e in ops])
                break
            n = T("len", ops[0].res)
            if v.op == "len":
                r = grows_by(S, I, s, key, v, n, ps[0], backs)
            else:
                r = counter(S, I, s, key, v, n, entry, paths)
            if r:
                good = False
                errs.append(r)
                break
        if good:
            return True, ""
    return False, "; ".join(errs[:3])


def offset_value(v):
    x = narrow(v)
    return x is not None and x.op in ("len", "phi")


def narrow(t):
    if t.op == "bv":
        c = [x for x in subterms(t) if x.op in ("len", "phi")]
        for x in c:
            if str(t) in ("bits<%s[0..=31]>" % x, "bits<%s[0..=31],0*32>" % x):
                return x
        return t
    return t


def this_inst(t):
    """Inst::new(i) for the loop's own element"""
    xs = [x for x in subterms(t) if x.op == "elem" or x.op == "any"]
    return bool(xs) and "elem(0, num_insts(" in str(t) and not any(x.op == "bin" for x in subterms(t)) and not partial(t)


def grows_by(S, I, s, key, v, n, push, backs):
    """the vector whose length is recorded gets n more elements in this iteration"""
    base = v.args[0]
    after = [e for e in s.events() if e.kind == "call" and key in e.loops and last(e) in ("push", "extend", "resize", "extend_from_slice", "insert", "truncate", "clear", "pop") and
             vec_target(e) is not None and vec_target(e) != vec_target(push)]
    if base.op == "phi":
        tgt = (base.args[1], base.args[2])
    else:
        tgt = None
    if tgt is not None and str(tgt[1]) and not any(f[2] == "allocs" for f in tgt[1] if len(f) > 2) and "allocs" not in str(tgt):
        return "the recorded length is not that of the slots"
    rs = [e for e in after if last(e) == "resize"]
    if rs:
        t = rs[0].args[1]
        good = t.op == "bin" and t.args[0] == "Add" and [x for x in t.args[1:3] if str(x) == str(n)] and [x for x in t.args[1:3] if x is v or narrow(x) is v]
        return None if len(after) == 1 and good else "slots are resized to %s" % rs[0].args[1]
    ex = [e for e in after if last(e) == "extend"]
    if ex:
        return None if len(after) == 1 and str(n) in str(ex[0].args[1]) and "skip" not in str(ex[0].args[1]) else "slots are extended by %s" % ex[0].args[1]
    # an inner loop pushing one slot per operand
    for k, ss in backs.items():
        if k == key:
            continue
        for s2 in ss:
            inner = [e for e in s2.events() if e.kind == "call" and e.loops and e.loops[-1] == k and key in e.loops and vec_target(e) is not None and
                     vec_target(e) != vec_target(push) and last(e) in ("push", "extend", "insert")]
            if not inner:
                continue
            if len(inner) != 1 or last(inner[0]) != "push":
                return "an operand gets %d slots" % len(inner)
            if tgt is not None and vec_target(inner[0]) != tgt:
                return "slots are laid out in another vector than the one whose length is recorded"
            ent = I.entries.get(k, [])
            outer = I.entries.get(key, [])
            seqs = [x for st in ent for l, x in st.mem.items() if x.op == "seq" and not any(o.mem.get(l) is x for o in outer)]
            okr = bool(seqs) and all(full_of(x, n) for x in seqs)
            if not okr:
                return "slots are laid out over %s" % [str(x)[:120] for x in seqs][:2]
            if any(len([e for e in s3.events() if e.kind == "call" and e.loops and e.loops[-1] == k and vec_target(e) == vec_target(inner[0]) and last(e) == "push"]) != 1 for s3 in ss):
                return "not every operand gets a slot"
            # the inner loop runs in every iteration
            if not any(t.op == "done" and str(k) in str(t) for t in s.facts):
                return "an instruction can be passed without laying out its slots"
            return None
    return "no slots are laid out for an instruction"


def full_of(x, n):
    if x.args[0] == "range":
        return x.args[1].op == "int" and x.args[1].args[0] == 0 and (x.args[2] is n or str(x.args[2]) == str(n)) and x.args[3] is False
    if x.args[0] in ("slice", "own", "cloned", "copied", "enumerate", "map", "byref"):
        return "inst_operands(" in str(x) and not partial(x) and not any(w in str(x) for w in ("skip", "take", "filter", "step_by"))
    return False


def counter(S, I, s, key, v, n, entry, paths):
    """v is a running counter, 0 before the loop, increased by n each time, and the final number of slots"""
    root, projs = v.args[1], v.args[2]
    for e in entry:
        x = e.mem.get(root)
        if projs or x is None or not (x.op == "int" and x.args[0] == 0):
            return "the first offset is %s" % x
    new = s.mem.get(root)
    ok = new is not None and new.op == "bin" and new.args[0] == "Add" and v in new.args and any(narrow(a) is n or str(a) in ("bits<%s[0..=31]>" % n, str(n)) for a in new.args[1:3])
    if not ok:
        return "the next offset is %s" % str(new)[:120]
    for kind, st, val in paths:
        if kind != "ret":
            continue
        rs = [e for e in st.events() if e.kind == "call" and last(e) in ("resize", "from_elem") and any(narrow(a) is v or v in subterms(a) for a in e.args)]
        good = [e for e in rs if narrow(e.args[1]) is v or narrow(e.args[0]) is v]
        if len(good) != 1:
            return "the slots are not sized by the final offset: %s" % [str(a)[:60] for e in rs for a in e.args]
        others = [e for e in st.events() if e.kind == "call" and last(e) in ("push", "truncate", "pop", "clear", "extend") and vec_target(e) == vec_target(good[0])]
        if others:
            return "slots are changed after sizing"
    return None


# ------------------------------------------------------------------ place
def place(S, R):
    db = S.db
    n = 0
    inst = T("sym", "arg2")
    for name in ("set_alloc", "get_alloc"):
        b = one(db, name)
        I, paths = explore(db, b)
        R.saw(I)
        R.paths += len(paths)
        idx = inst_index(S, inst)
        for kind, s, v in paths:
            n += 1
            if name == "get_alloc":
                ok = kind == "ret" and slot_read(v, idx, T("sym", "arg3"))
                R.ob("place", "get_alloc reads the operand's slot", ok, b.where(), str(v)[:250])
            else:
                ws = [e for e in s.events() if e.kind == "write"]
                ok = kind == "ret" and len(ws) == 1 and ws[0].args[1] is T("sym", "arg4") and slot_name(ws[0], idx, T("sym", "arg3"))
                R.ob("place", "set_alloc writes the operand's slot", ok, b.where(), str([str(x)[:200] for e in ws for x in e.args]))
    for u in accessors(db):
        b = db.bodies[u]
        I, paths = explore(db, b)
        R.saw(I)
        a1, a2 = T("sym", "arg1"), T("sym", "arg2")
        fi = lambda i: T("fld", a2, str(i))
        for kind, s, v in paths:
            n += 1
            ok = False
            if kind == "ret" and v.op == "ref":
                p = v.args[1]
                ok = len(p) == 2 and p[0][0] == "f" and p[0][2] == "allocs" and p[1][0] == "i" and sum_of(p[1][1], a1, a2)
            R.ob("place", "%s addresses the operand's slot" % b.path, ok, b.where(), str(v)[:250])
    R.floor("slot accessors", n, 4)


def one(db, name):
    c = [b for b in db.local_bodies() if b.name == name and "Env" in b.path]
    if len(c) != 1:
        raise MissingAnchor(name)
    return c[0]


def accessors(db):
    r = [b.u for b in db.local_bodies() if b.name in ("index", "index_mut") and b.self_ty is not None and db.types[b.self_ty].get("path", "").endswith("fastalloc::Allocs")]
    if len(r) != 2:
        raise MissingAnchor("indexing of fastalloc::Allocs")
    return r


def slot_read(v, idx, slot):
    """allocs[offsets[idx]..][slot] or allocs[offsets[idx] + slot]"""
    if v.op != "idx":
        return False
    return slot_of(v.args[0], v.args[1], idx, slot)


def slot_of(base, i, idx, slot):
    if base.op == "deref" and isinstance(base.args[0], T):
        base = base.args[0]
    if base.op == "slref" and base.args[1] == "RangeFrom" and is_field(base.args[0], None, "allocs") and i is slot:
        return offset_term(base.args[2], base.args[0].args[0], idx)
    if is_field(base, None, "allocs"):
        return i.op == "bin" and i.args[0] == "Add" and slot in i.args and any(isinstance(x, T) and offset_term(x, base.args[0], idx) for x in i.args[1:3])
    return False


def slot_name(e, idx, slot):
    r = e.args[0]
    if r.op != "ref":
        return False
    root, projs = r.args[0], r.args[1]
    if root[0] == "O" and len(projs) == 1 and projs[0][0] == "i":
        return slot_of(root[1], projs[0][1], idx, slot)
    if projs and projs[-1][0] == "i" and len(projs) >= 2 and projs[-2][0] == "f" and projs[-2][2] == "allocs":
        i = projs[-1][1]
        return i.op == "bin" and i.args[0] == "Add" and slot in i.args and any(isinstance(x, T) and offset_term_any(x, idx) for x in i.args[1:3])
    return False


def offset_term_any(t, idx):
    c = [x for x in subterms(t) if x.op == "idx" and is_field(x.args[0], None, "inst_alloc_offsets") and x.args[1] is idx]
    return len(c) == 1 and (t is c[0] or plain_widening(t, c[0]))


def sum_of(i, a1, a2):
    if not (i.op == "bin" and i.args[0] == "Add"):
        return False
    x = [a for a in i.args[1:3] if isinstance(a, T)]
    return any(str(p) == str(T("fld", a2, "1")) or str(p) == "arg2.1" for p in x) and any(str(p) == "bits<arg1.inst_alloc_offsets[arg2.0][0..=31],0*32>" for p in x)


# ------------------------------------------------------------------ wiring
class Wiring:
    def __init__(self, S, R):
        self.S, self.R, self.db = S, R, S.db
        self.P = Prov(S.db)
        self.seen = set()
        self.n = 0
        self.readers = set(accessors(S.db)) | {one(S.db, "get_alloc").u}

    def idx_strip(self, t):
        """inst.index() -> inst; Inst::new(x) kept"""
        while t.op == "app" and t.args[0] in ("index",) and len(t.args) == 3:
            t = t.args[2]
        return self.strip(t)

    def strip(self, t):
        while t.op in ("addr", "deref"):
            t = t.args[0]
        return t

    def site(self, b, sp, inst, slot, val, what):
        """instruction, position and value (terms) belong to one operand"""
        self.n += 1
        res = self.match(b, inst, slot, val)
        where = "%s %s" % (b.path, ":".join(map(str, (sp or b.span or ["?"])[:2])))
        self.R.ob("wiring", "%s in %s (site %d)" % (what, b.path, self.n), res is None, where, (res or "") + "; inst %s; slot %s; value %s" % (show(inst)[:120], show(slot)[:120], show(val)[:200] if val is not None else None))

    def match(self, b, inst, slot, val):
        P = self.P
        inst, slot = self.idx_strip(inst), self.strip(slot)
        # alternatives of multi-definition locals
        alts = P.alts(val) if val is not None else [None]
        out = None
        for v in alts:
            r = self.match1(b, inst, slot, v)
            out = out or r
        return out

    def match1(self, b, inst, slot, val):
        sub = set(subterms(val)) if val is not None else None
        # one use or fixup record
        if inst.op == "app" and inst.args[0] == "inst" and len(inst.args) == 3:
            pos = self.strip(inst.args[2])
            if pos.op == "f" and pos.args[1] == "pos" and slot.op == "f" and slot.args[0] is pos.args[0]:
                X = pos.args[0]
                if slot.args[1] not in ("slot", "to_slot"):
                    return "position taken from field %s" % slot.args[1]
                if val is None:
                    return None
                if slot.args[1] == "to_slot":
                    return None if T("f", X, "to_preg") in sub and not any(x.op == "f" and x.args[0] is not X and x.args[1] in ("to_preg", "preg") for x in sub) else "the value is not the record's own register"
                # the allocation of the range whose use this is
                gets = [x for x in sub if x.op == "app" and x.args[0] == "get_alloc_for_range"]
                if not gets:
                    return "the value is not the allocation of a range"
                for g in gets:
                    if self.strip(g.args[-1]) not in set(subterms(X)):
                        return "the value is the allocation of another range than the use's"
                return None
            return "instruction and position come from different records"
        # an element of the instruction's operands
        uses = [x for x in subterms(slot) if x.op == "app" and x.args[0] == "inst_operands"]
        elem = [x for x in (sub or ()) if x.op == "i" and self.strip(x.args[0]).op == "app" and self.strip(x.args[0]).args[0] == "inst_operands"]
        if uses or any(self.strip(x.args[1]) is slot for x in elem):
            if any(self.idx_strip(x.args[-1]) is not inst for x in uses):
                return "position in the operands of another instruction"
            if any(x.op == "bin" for x in subterms(slot) if not inside(x, uses)):
                return "position is computed"
            if val is None:
                return None
            if slot.op == "f" and slot.args[1] == "0" and T("f", slot.args[0], "1") in sub:
                return self.pair(b, inst, slot, val)
            g = [x for x in sub if x.op == "app" and x.args[0] in ("get_alloc", "index") and x.args[1][0] in self.readers]
            own = [] if g else [x for x in elem if self.strip(x.args[1]) is slot and self.idx_strip(self.strip(x.args[0]).args[-1]) is inst]
            oth = [x for x in elem if x not in own]
            if own and not oth:
                return None
            # reuse: the input gets what the output that names it got
            reuse = slot.op == "f" and any(x.op == "app" and x.args[0] == "constraint" for x in subterms(slot))
            if reuse and g:
                ridx = [self.strip(y.args[1]) for y in subterms(slot) if y.op == "i" and self.strip(y.args[0]).op == "app" and self.strip(y.args[0]).args[0] == "inst_operands"]
                for x in g:
                    a = [self.strip(y) for y in x.args[3:]] if x.args[0] == "get_alloc" else None
                    if a and self.idx_strip(a[0]) is inst and a[1] in ridx:
                        return None
                return "the reused input gets the allocation of another operand"
            return "the value is not that of the operand"
        # passed in
        if slot.op == "arg" and inst.op == "arg" and slot.args[0] == inst.args[0] == b.u:
            opv = None
            if val is not None:
                ops = sorted({x for x in sub if x.op == "arg" and x.args[0] == b.u and self.is_operand(b, x.args[1])}, key=lambda x: x.args[1])
                if not ops:
                    return "the value does not depend on the operand"
                if len(ops) > 1:
                    return "the value depends on several operands"
                opv = ops[0]
            return self.callers(b, inst.args[1], slot.args[1], opv.args[1] if opv is not None else None)
        # an item (position, operand) of the instruction's operands
        return "cannot relate instruction and position"

    def numbered(self, X):
        """X is an item of an iterator over (position, operand) pairs: numbered before anything is left out"""
        if X.op == "f" and X.args[1] == "0":
            X = X.args[0]
        if X.op == "as" and X.args[0].op == "app" and X.args[0].args[0] in ("next", "next_back"):
            return self.numbered_iter(X.args[0].args[2], 0)
        return False

    def numbered_iter(self, t, d):
        t = self.strip(t)
        if d > 12:
            return False
        if t.op == "app":
            nm, u = t.args[0], t.args[1][0]
            if nm == "enumerate":
                x = self.strip(t.args[2])
                while x.op == "app" and x.args[0] in ("iter", "cloned", "copied", "into_iter", "by_ref"):
                    x = self.strip(x.args[2])
                return x.op == "app" and x.args[0] in ("inst_operands", "new") or x.op == "f" and x.args[0].op in ("arg", "deref") or x.op == "arg"
            if nm in ("filter", "rev", "skip", "take", "skip_while", "take_while", "peekable", "by_ref", "inspect", "into_iter", "iter"):
                return self.numbered_iter(t.args[2], d + 1)
            b = self.db.bodies.get(u)
            if b is not None and b.local:
                return all(self.numbered_iter(x, d + 1) for x in self.P.alts(self.P.local(b, 0)))
        return False

    def is_operand(self, b, l):
        ty = self.db.types[b.lty(l)]
        while ty["k"] == "ref":
            ty = self.db.types[ty["t"]]
        return ty.get("path") == "Operand"

    def callers(self, b, ai, asl, ao):
        k = (b.u, ai, asl, ao)
        if k in self.seen:
            return None
        self.seen.add(k)
        ss = self.P.sites(b.u)
        if not ss:
            return "no caller passes the operand"
        for c, bb, args, sp in ss:
            inst, slot = args[ai - 1], args[asl - 1]
            op = args[ao - 1] if ao is not None else None
            self.n += 1
            r = self.pair(c, self.idx_strip(inst), self.strip(slot), op)
            self.R.ob("wiring", "operand and position passed to %s in %s (site %d)" % (b.path, c.path, self.n), r is None, "%s %s" % (c.path, ":".join(map(str, sp[:2]))),
                      (r or "") + "; inst %s; slot %s; operand %s" % (show(inst)[:120], show(slot)[:160], show(op)[:160] if op is not None else ""))
        return None

    def pair(self, c, inst, slot, op):
        if slot.op == "f" and slot.args[1] == "0":
            X = slot.args[0]
            uses = [x for x in subterms(X) if x.op == "app" and x.args[0] == "inst_operands"]
            if not uses or any(self.idx_strip(x.args[-1]) is not inst for x in uses):
                return "the position is not one of the instruction's operands"
            if op is None:
                return None
            o = T("f", X, "1")
            sub = set(subterms(op))
            if o not in sub or any(x.op in ("f", "i") and x.args[0] is o for x in sub) or any(x.op == "f" and x.args[1] == "1" and x.args[0] is not X and x.args[0].op == "as" for x in sub):
                return "position and operand come from different items"
            return None if self.numbered(X) else "the items are not the instruction's operands with their positions"
        return self.match1(c, inst, slot, op)


def inside(x, apps):
    return any(x is not a and x in set(subterms(a)) for a in apps)


def wiring(S, R):
    db = S.db
    W = Wiring(S, R)
    P = W.P
    n = 0
    for b, bb, args, sp in P.sites(one(db, "set_alloc").u):
        n += 1
        W.site(b, sp, args[1], args[2], args[3], "allocation stored")
    mut = [u for u in accessors(db) if db.bodies[u].name == "index_mut"]
    for u in mut:
        for b, bb, args, sp in P.sites(u):
            n += 1
            tup = args[1]
            dest = b.blocks[bb]["t"][3][0]
            vals = stored_through(P, b, dest)
            if tup.op != "agg" or len(vals) != 1:
                R.ob("wiring", "allocation stored in %s" % b.path, False, "%s %s" % (b.path, sp[1]), "index %s, values %s" % (show(tup), [show(v) for v in vals]))
                continue
            W.site(b, sp, tup.args[2], tup.args[3], vals[0], "allocation stored")
    R.floor("sites that store an allocation", n, 7)
    # records that carry an instruction point and a slot
    use = [b for b in db.local_bodies() if b.path.endswith("data_structures::Use::new")]
    if len(use) != 1:
        raise MissingAnchor("Use::new")
    m = 0
    for b, bb, args, sp in P.sites(use[0].u):
        m += 1
        record(R, W, b, sp, "use recorded", args[1], args[2], args[0])
    q = Q(db)
    for b, bb, ops, var, sp in q.constructs("Use"):
        if b.u == use[0].u or b.derived:
            continue
        R.ob("wiring", "uses are built by Use::new only (%s)" % b.path, False, q.span(b, sp), "")
    fields = [f[0] for f in db.adts[S.adt("MultiFixedRegFixup")]["variants"][0]["fields"]]
    for b, bb, ops, var, sp in q.constructs("MultiFixedRegFixup"):
        if b.derived:
            continue
        m += 1
        v = {f: P.operand(b, o) for f, o in zip(fields, ops)}
        record(R, W, b, sp, "fixup recorded", v["pos"], v["to_slot"], v["to_preg"])
    R.floor("records of an operand's position", m, 4)
    for adt, fs in (("Use", ("slot",)), ("MultiFixedRegFixup", ("pos", "to_slot", "to_preg"))):
        for f in fs:
            for b, bb, rv, sp in q.field_writes(adt, f):
                R.ob("wiring", "%s.%s is not changed after construction (%s)" % (adt, f, b.path), b.derived, q.span(b, sp), "")


def record(R, W, b, sp, what, pos, slot, val):
    """the point is at the instruction whose operand number `slot` is, and the value is about that operand"""
    P = W.P
    slot = W.strip(slot)
    if slot.op == "app" and slot.args[0] == "slot_idx" or slot.op in ("app",) and len(slot.args) == 3:
        slot = W.strip(slot.args[2])
    r = None
    if slot.op == "f" and slot.args[1] in ("slot", "to_slot"):
        X = slot.args[0]
        p = W.strip(pos)
        if not (p.op == "f" and p.args[1] == "pos" and p.args[0] is X):
            r = "point and position come from different records"
        elif not any(T("f", X, "operand") in set(subterms(v)) for v in P.alts(val)) and X not in set(subterms(val)):
            r = "the value is not the record's own"
    else:
        insts = set()
        for p in P.alts(W.strip(pos)):
            a = [x for x in subterms(p) if x.op == "app" and x.args[0] in ("before", "after", "new")]
            insts |= {W.idx_strip(x.args[2]) for x in a if len(x.args) > 2 and x.args[0] in ("before", "after")}
            if not a:
                r = "the point is not at an instruction: %s" % show(p)[:100]
        if len(insts) != 1:
            r = r or "the points are at several instructions"
        else:
            inst = list(insts)[0]
            ok = False
            for v in P.alts(val):
                elems = [x for x in subterms(v) if x.op == "i" and W.strip(x.args[0]).op == "app" and W.strip(x.args[0]).args[0] == "inst_operands"]
                own = [x for x in elems if W.strip(x.args[1]) is slot and W.idx_strip(W.strip(x.args[0]).args[-1]) is inst]
                pairs = [x for x in subterms(v) if x.op == "f" and x.args[1] == "1" and slot.op == "f" and slot.args[1] == "0" and x.args[0] is slot.args[0]]
                if pairs and not any(W.idx_strip(x.args[-1]) is inst for x in subterms(slot) if x.op == "app" and x.args[0] == "inst_operands"):
                    pairs = []
                ok = bool(own) and len(own) == len(elems) or bool(pairs)
                if not ok:
                    break
            if not ok:
                r = r or "the value is not about the operand at that position"
    W.n += 1
    R.ob("wiring", "%s in %s (site %d)" % (what, b.path, W.n), r is None, "%s %s" % (b.path, ":".join(map(str, (sp or ["?"])[:2]))),
         (r or "") + "; pos %s; slot %s; value %s" % (show(pos)[:100], show(slot)[:100], show(val)[:160]))


def stored_through(P, b, dest):
    """terms assigned to *dest"""
    out = []
    for n, kind, x, bb in P.defs(b).get(dest, []):
        if n == 2 and kind == "rv":
            out.append(P.rvalue(b, x, bb))
        elif n > 1:
            out.append(T("app", "?", ("?", b.u, bb)))
    return out


# ------------------------------------------------------------------ iteration
def iterate(S, R):
    db = S.db
    c = [b for b in db.local_bodies() if b.name == "next" and b.self_ty is not None and db.types[b.self_ty].get("path", "").endswith("OutputIter")]
    if len(c) != 1:
        raise MissingAnchor("OutputIter::next")
    b = c[0]
    me = T("sym", "arg1")
    st = St()
    args = symargs(db, b, st)
    I, paths = explore(db, b, args, st)
    R.saw(I)
    R.paths += len(paths)
    rng = I.getf(me, fld(db, me, S.adt("OutputIter"), "inst_range"))
    edits = I.getf(me, fld(db, me, S.adt("OutputIter"), "edits"))
    ir = S.adt("InstRange")
    first = I.getf(rng, ("f", 0, "0"))
    lim = I.getf(rng, ("f", 1, "1"))
    before = S.call("ProgPoint::before", [first])[1][0][1]
    n = S.call("InstRange::len", [rng])[1][0][1]
    # the range's own meaning: from the first to before the limit
    fi, li = inst_index(S, first), inst_index(S, lim)
    R.ob("iterate", "an instruction range's length is the distance of its ends", n is mkbin("Sub", li, fi, "usize"), "InstRange::len", str(n))
    rest = S.call("InstRange::rest", [rng])[1]
    okr = bool(rest) and all(v.op == "agg" and v.args[3] is lim and str(v.args[2]) == "Inst#0((%s Add 1))" % I.getf(first, ("f", 0, "0")) for _, v in rest)
    R.ob("iterate", "the rest of an instruction range is everything but its first instruction", okr, "InstRange::rest", str([str(v) for _, v in rest])[:200])
    itv = S.adt("InstOrEdit")
    names = S.variants("InstOrEdit")
    cnt = {"none": 0, "inst": 0, "edit": 0}
    for kind, s, v in paths:
        if kind != "ret":
            R.ob("iterate", "next has no loop", False, b.where(), "")
            continue
        empty = I.decide(s, mkeq(n, mkint(0, "usize"), "usize"))
        here, fe, tail, ne = front(I, s, edits)
        due = None
        if ne is False:
            due = False
        elif ne is True and fe is not None:
            p = I.getf(fe, ("f", 0, "0"))
            due = decide_le(s, p, before)
        m = s.mem[args[0].args[0]]
        nr, ned = I.getf(m, fld(db, me, S.adt("OutputIter"), "inst_range")), I.getf(m, fld(db, me, S.adt("OutputIter"), "edits"))
        if v.op == "agg" and v.args[1] == 0:
            cnt["none"] += 1
            R.ob("iterate", "ends exactly when no instruction is left", empty is True, b.where(), "%s" % facts(s))
        elif v.op == "agg" and v.args[2].op == "agg" and v.args[2].args[0] == itv:
            which = names[v.args[2].args[1]]
            if which == "Inst":
                cnt["inst"] += 1
                ok = empty is False and due is False and v.args[2].args[2] is first and ned is edits and any(nr is x for _, x in rest)
                R.ob("iterate", "yields the first instruction left when no edit is due before it, and moves past it", ok, b.where(), "%s; left %s / %s; %s" % (v, nr, ned, facts(s)))
            else:
                cnt["edit"] += 1
                y = v.args[2].args[2]
                want = None
                if fe is not None:
                    want = I.getf(fe, ("f", 1, "1"))
                got = I.load(s, y) if y.op == "ref" else y
                ok = empty is False and due is True and want is not None and str(got) == str(want) and nr is rng and tail(ned)
                R.ob("iterate", "yields the first edit left when it is not after the point before the next instruction, and moves past it", ok, b.where(),
                     "%s; left %s / %s; %s" % (got, nr, ned, facts(s)))
        else:
            R.ob("iterate", "yields an instruction, an edit or nothing", False, b.where(), str(v)[:200])
    R.ob("iterate", "has the three outcomes", all(cnt.values()), b.where(), str(cnt))


def facts(s):
    return {str(k)[:90]: v for k, v in s.facts.items()}


def decide_le(s, p, before):
    """p <= before, by the facts of the path"""
    for t, v in s.facts.items():
        if t.op == "lt":
            a, c = t.args[0], t.args[1]
            if same(a, before) and same(c, p):
                return not v
            if same(a, p) and same(c, before):
                if v:
                    return True
                # not p < before: p >= before; equality decides
                for t2, v2 in s.facts.items():
                    if t2.op == "eq" and {str(x) for x in t2.args[:2]} == {str(p), str(before)}:
                        return bool(v2)
                return None
    return None


def same(a, b):
    return a is b or str(a) == str(b) or str(a) == str(b) + ".0" or str(a) + ".0" == str(b) or str(a) == strip_pp(b)


def strip_pp(b):
    """ProgPoint's representation"""
    if b.op == "agg" and len(b.args) == 3 and isinstance(b.args[2], T):
        return str(b.args[2])
    return str(b) + ".bits"


def front(I, s, edits):
    """(known, the first edit, predicate 'is the list without its first edit', non-empty?)"""
    fe, ne, tails = None, None, []
    for t, v in s.facts.items():
        g = None
        if t.op == "eq" and t.args[0].op == "discr" and t.args[1].op == "int":
            g = t.args[0].args[0]
            some = bool(v) == (t.args[1].args[0] == 1)
        elif t.op == "call" and str(t.args[0]).split("::")[-1] == "is_empty" and edits in t.args:
            ne = not v
            continue
        elif t.op == "eq" and t.args[0].op == "len" and t.args[0].args[0] is edits and t.args[1].op == "int" and t.args[1].args[0] == 0:
            ne = not v
            continue
        if g is None or g.op != "call" or edits not in g.args:
            continue
        nm = str(g.args[0]).split("::")[-1]
        if nm == "split_first":
            ne = some
            if some:
                pr = I.getf(g, ("vf", 1, 0))
                fe = I.getf(pr, ("f", 0, "0"))
                t1 = I.getf(pr, ("f", 1, "1"))
                tails.append(str(t1))
        elif nm in ("first",) or nm == "get" and "0" in [str(x) for x in g.args[1:]]:
            ne = some
            if some:
                fe = I.getf(g, ("vf", 1, 0))
    if fe is None and ne:
        fe = I.getf(edits, ("i", mkint(0, "usize")))
    tails.append("slref(%s, RangeFrom, 1)" % edits)
    return ne is not None, fe, (lambda x: any(str(x) == y for y in tails)), ne


def start(S, R):
    db = S.db
    b = S.fn("Output::block_insts_and_edits")
    me = T("sym", "arg1")
    before_u = S.fn("ProgPoint::before").u
    st = St()
    args = symargs(db, b, st)
    I, paths = explore(db, b, args, st, noinline=lambda x: x.u == before_u)
    R.saw(I)
    R.paths += len(paths)
    edits = None
    n = 0
    for kind, s, v in paths:
        if kind != "ret" or v.op != "agg":
            R.ob("start", "block iterator is built", False, b.where(), str(v)[:100])
            continue
        n += 1
        fs = [f[0] for f in db.adts[S.adt("OutputIter")]["variants"][0]["fields"]]
        ed, rg = v.args[2 + fs.index("edits")], v.args[2 + fs.index("inst_range")]
        bi = [e for e in s.events() if e.kind == "call" and last(e) == "block_insns"]
        okb = len(bi) == 1 and bi[0].extra["nargs"][1] is T("sym", "arg3") and (rg is bi[0].res or str(rg) == str(bi[0].res) or rg.op == "hv" or "'" in str(rg))
        cur = rg
        if rg.op in ("hv",) and bi:
            okb = okb and True
        R.ob("start", "the iterator runs over the block's own instructions", okb, b.where(), str(rg)[:150])
        ok = ed.op == "slref" and ed.args[1] == "RangeFrom" and is_field(ed.args[0], me, "edits")
        pos = ed.args[2] if ok else None
        srch = None
        if ok:
            for e in s.events():
                if e.kind == "call" and e.extra.get("pred") and e.res is not None and e.res in set(subterms(pos)):
                    srch = e
        direct = srch is not None and (pos is srch.res and last(srch) == "partition_point" or pos.op in ("call", "vf") and last(srch) == "binary_search_by" and err_side(pos, srch.res))
        ok = ok and direct and whole_edits(srch, me)
        R.ob("start", "the first edit delivered is found in the block's edit list by binary search", ok, b.where(), str(ed)[:200])
        if not ok:
            continue
        okp = True
        for s2, r in srch.extra["pred"]:
            lt = None
            for t, val in s2.facts.items():
                if t.op == "lt" and "elem0.0" in str(t.args[0]) and is_before_first(t.args[1], bi):
                    lt = bool(val)
                elif t.op == "lt" and "elem0.0" in str(t.args[1]) and is_before_first(t.args[0], bi):
                    lt = False if val else None
            if r.op == "lt" and "elem0.0" in str(r.args[0]) and is_before_first(r.args[1], bi):
                good = last(srch) == "partition_point"
            elif last(srch) == "partition_point":
                good = lt is not None and r in (TRUE, FALSE) and (r is TRUE) == lt
            else:
                good = lt is not None and r.op == "agg" and (r.args[1] == 0) == lt and r.args[1] in (0, 2)
            okp = okp and good
        R.ob("start", "edits before the point before the block's first instruction are passed over, no others", okp and bool(srch.extra["pred"]), b.where(),
             str([(str(r), facts(s2)) for s2, r in srch.extra["pred"]])[:300])
    R.ob("start", "block iterator is built", n > 0, b.where(), "")


def err_side(pos, res):
    if pos.op == "call":
        return str(pos.args[0]).split("::")[-1] in ("unwrap_err", "expect_err", "into_err") and res in pos.args
    return pos.op == "vf" and pos.args[0] is res and pos.args[1] == 1


def whole_edits(e, me):
    a = e.extra["nargs"][0]
    return is_field(a, me, "edits")


def is_before_first(t, bi):
    if not bi:
        return False
    s = str(t)
    return s.startswith("before(") and str(bi[0].res) in s and not any(x.op == "bin" for x in subterms(t)) and ".1" not in s.replace(str(bi[0].res), "") or False


# ------------------------------------------------------------------ writers
def writers(S, R):
    db = S.db
    q = Q(db)
    P = Prov(db)
    fs = [f[0] for f in db.adts[S.adt("Output")]["variants"][0]["fields"]]
    n = 0
    for b, bb, ops, var, sp in q.constructs("Output"):
        if b.derived or "serde" in b.path or b.name in ("default", "clone"):
            continue
        n += 1
        v = {f: P.operand(b, o) for f, o in zip(fs, ops)}
        for f in ("allocs", "inst_alloc_offsets"):
            t = v[f]
            ok = t.op == "f" and t.args[1] == f and "fastalloc" in b.path
            R.ob("assemble", "%s returns %s" % (b.path, f), ok, q.span(b, sp), show(t)[:150])
        same_ = v["allocs"].op == "f" and v["inst_alloc_offsets"].op == "f" and v["allocs"].args[0] is v["inst_alloc_offsets"].args[0]
        R.ob("assemble", "%s returns slots and offsets of one layout" % b.path, same_, q.span(b, sp), "")
        R.sawfn(b)
    R.floor("places that assemble an output", n, 1)
    # mutable access to the two vectors
    allowed_calls = {"push", "deref", "deref_mut", "reserve", "resize", "preallocate", "clear", "cleared", "len", "extend", "index", "index_mut", "with_capacity"}
    accs = set(accessors(db)) | {one(db, "set_alloc").u, one(db, "get_alloc").u}
    k = 0
    for b in q.bodies():
        if b.derived or "serde" in b.path or "fuzz" in b.path:
            continue
        for bb, s in q.stmts(b):
            rv = s[2]
            if rv[0] == "ref" and is_mut(rv):
                for a, f in q.fields_of_place(b, rv[1]):
                    if a and a.split("::")[-1] in ("Output", "Allocs") and f in ("allocs", "inst_alloc_offsets"):
                        k += 1
                        names = uses_of(b, s[1][0])
                        grow = pushes_offsets(q, db, b)
                        reset = names <= {"clear", "preallocate", "cleared"} and names
                        ok = b.u in accs and f == "allocs" or grow and names <= {"push", "resize", "extend", "reserve"} or bool(reset)
                        R.ob("writers", "%s accesses %s mutably (%s)" % (b.path, f, ", ".join(sorted(names))), ok, q.span(b, s[3]), "")
    for adt in ("Output", "Allocs"):
        for f in ("allocs", "inst_alloc_offsets"):
            for b, bb, rv, sp in q.field_writes(adt, f):
                R.ob("writers", "%s.%s is not assigned (%s)" % (adt, f, b.path), b.u in accs or b.derived, q.span(b, sp), "")
    R.floor("mutable accesses to the slots and offsets", k, 5)


def is_mut(rv):
    return len(rv) > 2 and bool(rv[2]) and str(rv[2]).lower().startswith(("mut", "true", "unique")) or len(rv) > 2 and rv[2] is True


def uses_of(b, l):
    """names of the calls that receive the reference in local l (through copies and reborrows)"""
    out, todo, seen = set(), [l], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and len(s[1]) == 1:
                    rv = s[2]
                    if rv[0] in ("ref", "raw") and rv[1][0] == x and rv[1][1:2] in (["*"], [["*"]]):
                        todo.append(s[1][0])
                    if rv[0] in ("use",) and rv[1][0] != "k" and rv[1][1][0] == x and len(rv[1][1]) == 1:
                        todo.append(s[1][0])
            t = bl["t"]
            if t[0] == "call" and any(a[0] != "k" and a[1][0] == x for a in t[2]):
                f = t[1][1]["f"]["name"] if t[1][0] == "k" and t[1][1].get("c") == "fn" else "?"
                out.add(f)
                if f in ("deref_mut", "deref", "cleared") and len(t[3]) == 1:
                    out.discard("deref_mut")
                    todo.append(t[3][0])
    return out


# ------------------------------------------------------------------ completeness
def whole_seq(x):
    if x.op != "seq":
        return False
    if x.args[0] == "range":
        return x.args[1].op == "int" and x.args[1].args[0] == 0 and x.args[3] is False and (x.args[2].op == "len" or x.args[2].op == "call" and str(x.args[2].args[0]).split("::")[-1].startswith(("num_", "len")))
    if x.args[0] in ("own", "slice"):
        return not any(y.op == "slref" for y in subterms(x))
    if x.args[0] in ("cloned", "copied", "rev", "enumerate", "byref"):
        return all(whole_seq(y) for y in x.args[1:] if isinstance(y, T) and y.op == "seq")
    return False


def own_seqs(I, key, parent):
    outer = I.entries.get(parent, []) if parent else []
    r = []
    for st in I.entries.get(key, []):
        for l, x in st.mem.items():
            if x.op == "seq" and not any(o.mem.get(l) is x for o in outer):
                r.append(x)
    return r


def complete(S, R):
    db = S.db
    # backtracking: every use of every range
    sa = one(db, "set_alloc").u
    n = 0
    for b in callers_with_records(S, sa):
        I, paths = explore(db, b, noinline=lambda x: x.name not in ("deref", "deref_mut"))
        R.saw(I)
        R.paths += len(paths)
        backs = {}
        for kind, s, v in paths:
            if kind == "back":
                backs.setdefault(v, []).append(s)
        for key, ss in sorted(backs.items()):
            mine = [[e for e in s.events() if e.kind == "call" and target(e.extra["f"]) == sa and e.loops and e.loops[-1] == key and from_record(e.extra["nargs"][2])] for s in ss]
            if not any(mine):
                continue
            n += 1
            chain = [m for m in mine if m][0][0].loops
            what = "%s, loop %d" % (b.path.split("::")[-1], n)
            R.ob("complete", "%s stores an allocation for every record it visits" % what, all(len(m) == 1 for m in mine), b.where(), str([len(m) for m in mine]))
            for i, k in enumerate(chain):
                # an iterator over a part of a sequence, or one stepping unevenly, is not whole
                seqs = own_seqs(I, k, chain[i - 1] if i else None)
                bad = [str(x)[:120] for x in seqs if not whole_seq(x)]
                R.ob("complete", "%s: loop level %d visits everything" % (what, i), not bad, b.where(), str(bad[:2]))
                if i + 1 < len(chain):
                    child = chain[i + 1]
                    miss = [s for s in backs.get(k, []) if not any(t.op == "done" and str(t.args[0]).endswith(repr(child) + ")") or t.op == "done" and repr(child) in str(t) or
                                                                            t.op == "left" and t.args[0] == child and not own_seqs(I, child, k) for t in s.facts) and
                            not any(nothing_to_visit(t, v) for t, v in s.facts.items())]
                    R.ob("complete", "%s: level %d always reaches level %d" % (what, i, i + 1), not miss, b.where(), "%d iterations skip it" % len(miss))
    R.floor("loops over records of operands", n, 2)
    fast_complete(S, R)


def nothing_to_visit(t, v):
    """the fact says that the vreg has no ranges"""
    if t.op == "call" and str(t.args[0]).split("::")[-1] == "is_vreg_used":
        return v is False
    if t.op == "call" and str(t.args[0]).split("::")[-1] == "is_empty" and any(x.op == "fld" and x.args[1] == "ranges" for x in subterms(t)):
        return v is True
    return t.op == "eq" and t.args[0].op == "len" and any(x.op == "fld" and x.args[1] == "ranges" for x in subterms(t)) and t.args[1].op == "int" and t.args[1].args[0] == 0 and v is True


def callers_with_records(S, sa):
    P = Prov(S.db)
    out = {}
    for b, bb, args, sp in P.sites(sa):
        slot = args[2]
        if any(x.op == "f" and x.args[1] in ("slot", "to_slot") for x in subterms(slot)):
            out[b.u] = b
    if not out:
        raise MissingAnchor("stores of uses' allocations")
    return list(out.values())


def from_record(t):
    return any(x.op == "fld" and x.args[1] in ("slot", "to_slot") for x in subterms(t))


def fast_complete(S, R):
    db = S.db
    mut = {u for u in accessors(db) if db.bodies[u].name == "index_mut"}
    fa = [b for b in db.local_bodies() if b.path.startswith("fastalloc::Env") and not is_closure(b)]
    stores = {}
    expl = {}
    q = Q(db)

    def ex(b):
        if b.u not in expl:
            I, paths = explore(db, b, noinline=lambda x: x.name not in ("deref", "deref_mut"))
            R.saw(I)
            R.paths += len(paths)
            expl[b.u] = (I, paths)
        return expl[b.u]
    known = set(mut)
    for _ in range(6):
        new = False
        for b in fa:
            if b.u in known or not (q.callees(b) & known):
                continue
            I, paths = ex(b)
            rets = [(s, v) for k, s, v in paths if k == "ret" and not failing(v)]
            if rets and all(any(e.kind == "call" and target(e.extra["f"]) in known for e in s.events()) for s, v in rets):
                known.add(b.u)
                new = True
        if not new:
            break
    R.count("single-pass functions that store an allocation on every successful path", len(known) - len(mut))
    # the loops over the operands of an instruction
    loops = []
    for b in fa:
        if b.u in known or not (q.callees(b) & known):
            continue
        I, paths = ex(b)
        backs = {}
        for kind, s, v in paths:
            if kind == "back":
                backs.setdefault(v, []).append(s)
        for key, ss in sorted(backs.items()):
            hit = [[e for e in s.events() if e.kind == "call" and target(e.extra["f"]) in known and e.loops and e.loops[-1] == key] for s in ss]
            if not any(hit):
                continue
            R.ob("complete", "%s: each operand visited by loop %d gets an allocation" % (b.path, len(loops)), all(len(h) == 1 for h in hit), b.where(), str([len(h) for h in hit]))
            loops.append((b, key, I, hit))
    R.floor("loops over an instruction's operands", len(loops), 1)
    covered(S, R, loops)


def failing(v):
    return v is None or v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 1 or v.op == "call" and str(v.args[0]).split("::")[-1] == "from_residual"


def covered(S, R, loops):
    """together the loops visit every operand: for each kind and position some loop's filter lets the operand through"""
    db = S.db
    P = Prov(db)
    fns = {}
    for b, key, I, hit in loops:
        for h in hit:
            for e in h:
                for bb, t in [(bb, bl["t"]) for bb, bl in enumerate(b.blocks)]:
                    if bb != e.bb:
                        continue
                    for a in P.call_args(b, t):
                        for x in subterms(a):
                            if x.op == "app" and x.args[0] in ("next",):
                                src = x.args[2]
                                while src.op in ("addr", "deref"):
                                    src = src.args[0]
                                fns[str(key)] = src
    pos = S.variants("OperandPos")
    kinds = S.variants("OperandKind")
    preds = {k: filters(P, db, t) for k, t in fns.items()}
    R.ob("complete", "the operand filters are known", bool(preds) and all(p is not None for p in preds.values()), "fastalloc", str({k: show(t)[:100] for k, t in fns.items()}))
    vreg = S.call("VReg::new", [sym("vr", "usize", 21), S.variant("RegClass", "Int")])[1][0][1]
    for p in pos:
        for k in kinds:
            o = S.call("Operand::new", [vreg, S.variant("OperandConstraint", "Any"), S.variant("OperandKind", k), S.variant("OperandPos", p)])[1][0][1]
            yes = []
            for key, ps in preds.items():
                if ps is None:
                    continue
                ok = True
                for c in ps:
                    cb = db.bodies[c]
                    st = St()
                    st.mem[("L", "CLO", 0)] = T("agg", "closure:" + c, 0)
                    st.mem[("L", "CLO", 1)] = o
                    first = T("ref", ("L", "CLO", 0), ()) if db.types[cb.lty(1)]["k"] == "ref" else st.mem[("L", "CLO", 0)]
                    second = T("ref", ("L", "CLO", 1), ()) if db.types[cb.lty(2)]["k"] == "ref" else o
                    J = Interp(db)
                    for s2, v in J.analyse(cb, [first, second], st):
                        ok = ok and v is TRUE
                yes.append(ok)
            R.ob("complete", "a %s operand at the %s position is visited exactly once" % (k.lower(), p.lower()), sum(yes) == 1, "fastalloc", str(dict(zip(preds, yes))))


def filters(P, db, t, d=0):
    """the predicates (closures on an operand) an operand passes on the way from inst_operands to the loop"""
    while t.op in ("addr", "deref"):
        t = t.args[0]
    if d > 12:
        return None
    if t.op == "app":
        nm, u = t.args[0], t.args[1][0]
        if nm in ("inst_operands",):
            return []
        if nm in ("enumerate", "iter", "into_iter", "cloned", "copied", "new", "by_ref", "rev"):
            return filters(P, db, t.args[2], d + 1)
        b = db.bodies.get(u)
        if b is not None and b.local:
            clos = [x.args[0] for x in t.args[2:] if x.op == "closure"]
            base = filters(P, db, t.args[2], d + 1)
            r = P.local(b, 0)
            inner = [x for x in subterms(r) if x.op == "app" and x.args[0] in ("skip", "take", "step_by", "skip_while", "take_while")]
            if base is None or inner:
                return None
            if clos:
                return base + clos if passes_through(P, db, b) else None
            deeper = [x for x in subterms(r) if x.op == "app" and db.bodies.get(x.args[1][0]) is not None and any(y.op == "closure" for y in x.args[2:])]
            if len(deeper) == 1:
                db2 = db.bodies[deeper[0].args[1][0]]
                return base + [y.args[0] for y in deeper[0].args[2:] if y.op == "closure"] if passes_through(P, db, db2) else None
            return None
    return None


def passes_through(P, db, b):
    """b(self, predicate) is filter(enumerate(whole), |(_, op)| predicate(*op))"""
    r = P.local(b, 0)
    if not (r.op == "app" and r.args[0] == "filter"):
        return False
    c = r.args[3]
    if c.op != "closure":
        return False
    cb = db.bodies[c.args[0]]
    # the closure returns the result of calling the captured predicate on the operand of the pair
    v = P.local(cb, 0)
    return v.op == "app" and v.args[0] in ("call", "call_mut", "call_once")
