"""C11: error discipline."""
from sem import *
from paths import *
from query import Q
import models

TECHNIQUE = ("path-sensitive result-flow analysis over MIR: each call to a function that can fail is followed, on every way control leaves the caller or "
             "ends a loop iteration, until its success is established or an error is returned; collected errors are followed to the returned error")
LEVEL = "other"
NOTE = "Decides that no produced error is lost between its source and the public entry points; that each stage detects every fault it should is the matter of C09 and C10."
RES = "core::result::Result"


def is_errv(v):
    return v is not None and v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == 1


def run(R, tier):
    S = Sem("main", R)
    db = S.db
    q = Q(db)
    R.rule("propagate", "after a call that can fail, control leaves the caller with a value other than an error, or starts another loop iteration, only when the call is known to have succeeded")
    R.rule("collect", "an error that is collected instead of returned is put into a list, and success is returned only when that list is empty")
    R.rule("recover", "running out of registers is recovered from only for an operand that may live anywhere, by giving it its spill slot")
    R.rule("no-abort", "the result of a call that can fail is not unwrapped")
    R.rule("sources", "each documented error is still constructed by code reachable from the entry points")
    rae, cke, ckes = S.adt("RegAllocError"), S.adt("CheckerError"), S.adt("CheckerErrors")
    errs = {rae, cke, ckes}
    skip = lambda b: "serde" in b.path or b.derived or "fuzzing" in b.path
    errb = {b.u: b for b in q.bodies() if error_type(db, b) in errs and not skip(b)}
    watch = lambda f: target(f) in errb
    noin = lambda b: b.local and (not is_closure(b) or b.u in errb)
    nsites, flagged = 0, {}
    names = set()
    for b in q.bodies():
        if skip(b):
            continue
        sites = {bb for bb, bl in enumerate(b.blocks) if bl["t"][0] == "call" and bl["t"][1][0] == "k" and bl["t"][1][1].get("c") == "fn" and
                 watch(bl["t"][1][1]["f"])}
        holds = bool(sites) or any(x in errb and is_closure(errb[x]) for x in q.callees(b))
        if not holds:
            continue
        I, paths = skeleton(db, b, watch, noin)
        R.saw(I)
        R.sawfn(b)
        R.paths += len(paths)
        for st, fr, bb, name, span in I.panics:
            last = [e for e in st.events() if e.kind == "call" and watch(e.extra["f"])][-1:]
            for e in last:
                if e.res is not None and I.decide(st, mkeq(I.discr(st, e.res, None), mkint(1, "isize"), "isize")) is True and not (st.loops != e.loops):
                    flagged.setdefault(b.u, set())
                    R.ob("no-abort", "%s after %s failed in %s" % (name, e.name, b.path), False, site(e), "a panic follows the failure")
        seen = {}
        for kind, s, v in paths:
            evs = s.events()
            for e in evs:
                if e.kind != "call":
                    continue
                if e.name.split("::")[-1] in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "ok", "unwrap_or_else", "err", "unwrap_err", "expect_err") and e.res is not None:
                    rs = [x for a in e.args for x in subterms(a) if x.op == "wres"]
                    for x in rs:
                        if I.decide(s, mkeq(I.discr(s, x, None), mkint(0, "isize"), "isize")) is not True:
                            R.ob("no-abort", "%s on the result of %s in %s" % (e.name.split("::")[-1], x.args[0], b.path), False, site(e), "")
                if not watch(e.extra["f"]):
                    continue
                names.add(errb[target(e.extra["f"])].path)
                bad = seen.setdefault((e.body.u, e.bb), [e, []])[1]
                d = I.decide(s, mkeq(I.discr(s, e.res, None), mkint(1, "isize"), "isize"))
                if d is False:
                    continue
                if kind == "ret" and (is_errv(v) or v is e.res):
                    continue
                if kind == "back" and v not in e.loops:
                    continue  # decided where the loop is left
                if d is True and any(pushes(x, e.res) for x in evs):
                    flagged.setdefault(b.u, set()).add(("collect", e))
                    continue
                if d is True and kind == "ret":
                    flagged.setdefault(b.u, set()).add(("recover", e, str(v)[:160]))
                    continue
                bad.append((kind, "known to have failed" if d else "not known to have succeeded", str(v)[:120]))
        for e, bad in seen.values():
            nsites += 1
            R.ob("propagate", "call of %s in %s (%s)" % (e.name, b.path, ":".join(map(str, e.span[:2])) if e.span else "closure"), not bad, site(e),
                 "; ".join("%s: %s, leaving with %s" % x for x in bad[:3]))
        missed = sites - {bb for (u, bb) in seen if u == b.u}
        R.ob("propagate", "all failing calls of %s were reached" % b.path, len(missed) == 0, b.where(), "unreached call blocks: %s" % sorted(missed))
    R.floor("calls that can fail", nsites, 45)
    R.floor("functions that can fail and are called", len(names), 20)
    # collected and recovered errors
    ncol = nrec = 0
    for u, fs in flagged.items():
        b = db.bodies[u]
        if any(x[0] == "collect" for x in fs):
            ncol += 1
            collect(R, S, b, errb, noin)
        if any(x[0] == "recover" for x in fs):
            nrec += 1
            recover(R, S, b, errb, noin, [x for x in fs if x[0] == "recover"])
    R.floor("functions that collect errors", ncol, 1)
    # sources
    roots = [b for b in db.local_bodies() if b.name in ("run", "run_with_ctx") and b.parent_is_root] if hasattr(db.local_bodies()[0], "parent_is_root") else \
            [b for b in db.local_bodies() if b.path in ("run", "run_with_ctx")]
    reach = {b.u for b in q.reach(roots)}
    R.floor("functions reachable from the entry points", len(reach), 100)
    vs = S.variants("RegAllocError")
    built = {}
    for b, bb, ops, var, sp in q.constructs("RegAllocError"):
        if not skip(b) and b.u in reach:
            built.setdefault(vs[var], []).append(q.span(b, sp))
    # unit-like variants are built as constants
    for b in q.bodies():
        if skip(b) or b.u not in reach:
            continue
    for v in vs:
        R.ob("sources", "RegAllocError::%s is constructed" % v, v in built, rae, str(built.get(v, [])[:3]))


def pushes(x, res):
    """does event x put the error held in res into a list?"""
    return x.kind == "call" and x.name.split("::")[-1] in ("push", "push_back", "insert", "extend", "append", "extend_one") and \
        any(y is res for a in x.args[1:] for y in subterms(a))


def collect(R, S, b, errb, noin):
    db = S.db
    I, paths = explore(db, b, noinline=noin)
    lists = set()
    for kind, s, v in paths:
        for e in s.events():
            if e.kind == "call" and e.name.split("::")[-1] in ("push", "push_back", "insert", "extend", "append"):
                if any(y.op == "vf" and y.args[1] == 1 and any(z.op in ("call", "res") for z in subterms(y)) for a in e.args[1:] for y in subterms(a)):
                    t = e.args[0]
                    if t.op == "ref":
                        lists.add(t.args[0])
    for kind, s, v in paths:
        for e in s.events():
            if e.kind == "call" and any(e.args[i].op == "ref" and e.args[i].args[0] in lists for i in e.extra["mut"]) and \
                    e.name.split("::")[-1] not in ("push", "push_back", "insert", "extend", "append", "reserve", "deref", "deref_mut", "sort", "sort_by", "sort_by_key", "reverse"):
                R.ob("collect", "%s removes no collected error (%s)" % (b.path, e.name), False, site(e), "")
    for kind, s, v in paths:
        if kind != "ret":
            continue
        R.paths += 1
        empt = None
        for f, val in s.facts.items():
            if any(x.op in ("phi", "hv") and (x.args[0] in lists or x.args[1] in lists) for x in subterms(f)):
                if any(x.op in ("call", "len") or x.op == "res" for x in subterms(f)):
                    c = emptiness(f, val)
                    empt = c if c is not None else empt
        if is_errv(v):
            R.ob("collect", "%s returns the collected errors" % b.path, any(x.op in ("phi", "hv") and (x.args[0] in lists or x.args[1] in lists) for x in subterms(v)),
                 b.where(), str(v)[:200])
        else:
            R.ob("collect", "%s succeeds only when no error was collected" % b.path, empt is True, b.where(), "returns %s with %s" % (str(v)[:80], {str(k)[:80]: x for k, x in list(s.facts.items())[:6]}))


def emptiness(f, val):
    """what the fact says about the list being empty (True/False/None)"""
    t = str(f)
    if "is_empty" in t and f.op != "eq":
        return bool(val)
    if f.op == "eq" and f.args[1].op == "int" and f.args[1].args[0] == 0 and "len" in str(f.args[0]):
        return bool(val)
    if f.op in ("lt",) and f.args[0].op == "int" and f.args[0].args[0] == 0:
        return not val
    if f.op == "len" or "len(" in t:
        return val == 0 if isinstance(val, int) and not isinstance(val, bool) else None
    return None


def recover(R, S, b, errb, noin, fs):
    """a failing call after which the function succeeds: only for an operand without a location constraint, only when registers ran out,
    and the result is the operand's spill slot"""
    db = S.db
    ti = S.variants("RegAllocError").index("TooManyLiveRegs")
    opi = [i for i in range(b.argc) if db.types[b.lty(i + 1)].get("path") == "Operand"]
    small = lambda x: noin(x) and not (x.self_ty is not None and db.types[x.self_ty].get("path") in ("Operand", "Allocation", "PReg", "VReg"))
    preg = S.call("PReg::new", [sym("hw", "usize", 6), S.variant("RegClass", "Int")])[1][0][1]
    vreg = S.call("VReg::new", [sym("vr", "usize", 21), S.variant("RegClass", "Int")])[1][0][1]
    cons = {"Any": [], "Reg": [], "Stack": [], "FixedReg": [preg], "Reuse": [sym("k", "usize", 5)], "Limit": [mkint(4, "usize")]}
    for c, a in cons.items():
        st = St()
        args = symargs(db, b, st)
        if opi:
            I0, r, _ = S.call("Operand::new", [vreg, S.variant("OperandConstraint", c, *a), S.variant("OperandKind", "Use"), S.variant("OperandPos", "Early")])
            if len(r) != 1:
                raise MissingAnchor("Operand::new")
            if args[opi[0]].op == "ref":
                st.mem[args[opi[0]].args[0]] = r[0][1]
            else:
                args[opi[0]] = r[0][1]
        I, paths = explore(db, b, args, st, noinline=small)
        R.paths += len(paths)
        for kind, s, v in paths:
            if kind != "ret" or is_errv(v):
                continue
            for e in s.events():
                if e.kind != "call" or target(e.extra["f"]) not in errb:
                    continue
                if I.decide(s, mkeq(I.discr(s, e.res, None), mkint(1, "isize"), "isize")) is not True:
                    continue
                var = I.decide(s, mkeq(I.discr(s, I.getf(e.res, ("vf", 1, 0)), None), mkint(ti, "isize"), "isize"))
                slot = v.op == "agg" and any(x.op in ("call", "res") and "spillslot" in str(x.args[0]) for x in subterms(v))
                R.ob("recover", "%s recovers from %s with constraint %s" % (b.path, e.name, c), (c == "Any" or not opi) and var is True and slot, site(e),
                     "returns %s; ran out of registers: %s" % (str(v)[:200], var))
