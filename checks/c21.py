"""C21: the register used to split stack-to-stack moves is saved and restored."""
import mirdb
from resolver import *
from splits import *

TECHNIQUE = "typestate dataflow over the scratch resolver and the functions that supply it with registers and slots"
LEVEL = "other"


def root_fn(db, b):
    while is_closure(b):
        b = db.bodies[b.u.rsplit("::{closure", 1)[0]]
    return b


class SinglePass:
    """the single-pass allocator takes a scratch register out of use before it writes to it"""

    def __init__(self, R, db, sp):
        self.R, self.db, self.sp, self.q = R, db, sp, Q(db)

    def run(self):
        R, db = self.R, self.db
        n = resets = 0
        # functions that touch State::scratch_regs mutably
        for b in list(db.bodies.values()):
            if not b.local or is_closure(b) or not b.path.startswith("fastalloc") or b.name in ("new", "fmt", "clone"):
                continue
            if not self.writes(b):
                continue
            I, paths = explore(db, b, None, noinline=opaque_big)
            R.saw(I)
            R.sawfn(b)
            R.paths += len(paths)
            seen = set()
            for k, s, v in paths:
                evs = list(s.events())
                for i, e in enumerate(evs):
                    if e.kind != "write" or not e.args:
                        continue
                    ref, val = e.args[0], e.args[1]
                    if "scratch_regs" not in field_names(ref) and "scratch_regs" not in field_names(T("w", ref)):
                        continue
                    key = (e.bb, val, tuple((x.name, x.args) for x in evs))
                    if key in seen:
                        continue
                    seen.add(key)
                    if val.op == "agg" and val.args[0].split("::")[-1] == "Option":
                        if val.args[1] == 1:
                            n += 1
                            self.taken(b, s, evs, e, ref, val.args[2], k)
                    else:
                        resets += 1
                        R.ob("single-pass-scratch", "the scratch registers of an instruction start as the dedicated ones", "dedicated_scratch_regs" in field_names(val) or "dedicated_scratch_regs" in str(val), site(e), str(val)[:120])
        R.floor("places where a scratch register is taken", n, 1)
        R.floor("places where the scratch registers are reset", resets, 1)

    def writes(self, b):
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    f = [x for _, x in self.q.fields_of_place(b, s[1])]
                    if "scratch_regs" in f:
                        return True
                    if s[2][0] in ("ref", "raw") and "scratch_regs" in [x for _, x in self.q.fields_of_place(b, s[2][1])] and self.db.types[b.lty(s[1][0])].get("mut"):
                        return True
        return False

    def taken(self, b, s, evs, e, ref, P, k):
        R = self.R
        why = None
        i = evs.index(e)
        base = P.args[0] if P.op == "vf" else P.args[0].args[0] if P.op == "fld" and P.args[0].op == "as" else None
        if base is None or base.op not in ("call", "res") or base.args[0].split("::")[-1] != "last":
            why = "it is not the least recently used one: %s" % str(P)[:80]
        elif not self.sp.both_available(base.args[-1]):
            why = "it need not be available both before and after the instruction"
        else:
            cls = [x.args[-1] for x in subterms(ref) if x.op in ("call", "res") and x.args[0].split("::")[-1] in ("index_mut", "index")]
            lcls = [x.args[-1] for x in subterms(base.args[-2]) if x.op in ("call", "res") and x.args[0].split("::")[-1] in ("index_mut", "index")]
            if cls and lcls and cls[0] is not lcls[0]:
                why = "it belongs to another class"
            empty = any(f.op == "eq" and v is True and any(y is P for y in subterms(f)) and "vreg_in_preg" in field_names(f) for f, v in e.facts.items()) or \
                any(not isinstance(v, bool) and "vreg_in_preg" in field_names(f) and any(y is P for y in subterms(f)) for f, v in e.facts.items())
            evict = [x for x in evs if x.kind == "call" and x.name.split("::")[-1].startswith("evict") and any(a is P for a in x.args)]
            if why is None and not empty and not evict:
                why = "the value in it is not moved out first"
            rem = set()
            for x in evs:
                if x.kind == "call" and x.name.split("::")[-1] == "remove" and any(a is P for a in x.args[1:]):
                    for y in subterms(x.args[0]):
                        if y.op in ("call", "res") and y.args[0].split("::")[-1] == "index_mut" and y.args[-1].op == "agg":
                            rem.add(y.args[-1].args[1])
            # the facts hold on this path only if it reaches the end; every event of the path counts
            if why is None and rem != {0, 1}:
                why = "it stays available for the operands of the instruction"
        R.ob("single-pass-scratch", "a scratch register is emptied and taken out of use", why is None, site(e), why or "")


def run(R, tier):
    db = mirdb.load("main")
    r = Resolver(db, R)
    r.run(None, "scratch")
    sp = Splits(db, R)
    sp.run("wiring", None)
    SinglePass(R, db, sp).run()
