"""C16: the public entry points dispatch on the options and hand back what the selected allocator produced."""
from sem import *
from paths import *

TECHNIQUE = ("path-sensitive abstract interpretation of the public entry points over MIR, once per algorithm and validation option, with the validators and "
             "the allocators' own stages as opaque typestate events; every path is compared with the protocol the options select")
LEVEL = "other"


def run(R, tier):
    S = Sem("main", R)
    db = S.db
    R.rule("algorithm", "only the environment of the selected algorithm is created and run, on the caller's function and machine environment")
    R.rule("validation", "the SSA validator runs, on the caller's function and that function's control-flow information, before the allocator exactly when it is requested")
    R.rule("errors", "an entry point returns an error exactly when a stage failed, and it is that stage's error")
    R.rule("output", "success returns the output of the allocator that ran: every field comes from its environment or context after it ran, and its edits are all handed over")

    def adtname(b):
        return "" if b.self_ty is None else (db.types[b.self_ty].get("path") or "")

    stagecls = ("Env", "CFGInfo")

    def noin(b):
        return b.local and not is_closure(b) and (b.name == "validate_ssa" or b.name.startswith(("log_", "dump_")) or adtname(b).split("::")[-1] in stagecls)

    fields = [f[0] for f in db.adts[S.adt("RegallocOptions")]["variants"][0]["fields"]]
    if not {"algorithm", "validate_ssa"} <= set(fields):
        raise MissingAnchor("RegallocOptions fields")
    algs = S.variants("Algorithm")
    fam = {"Ion": "ion", "Fastalloc": "fastalloc"}
    R.floor("algorithms", len([a for a in algs if a in fam]), 2)
    nok = 0
    for root in ("run", "run_with_ctx"):
        bs = [b for b in db.local_bodies() if b.path == root]
        if len(bs) != 1:
            raise MissingAnchor(root)
        b = bs[0]
        for alg in algs:
            for val in (False, True):
                st = St()
                args = symargs(db, b, st)
                st.mem[args[2].args[0]] = T("agg", S.adt("RegallocOptions"), 0, *[
                    S.variant("Algorithm", alg) if n == "algorithm" else mkbool(val) if n == "validate_ssa" else settype(T("sym", "opt." + n), "bool")
                    for n in fields])
                what = "%s(%s%s)" % (root, alg, ", validate" if val else "")
                I, paths = explore(db, b, args, st, noinline=noin)
                R.saw(I)
                R.paths += len(paths)
                backs = [s for k, s, v in paths if k == "back"]
                rets = [(s, v) for k, s, v in paths if k == "ret"]
                R.ob("output", what + " returns", any(v.op == "agg" and v.args[1] == 0 for s, v in rets), b.where(), "no path returns Ok")
                pan = [e for e in I.log if e.kind == "panic" and not e.name.startswith("assert:")]
                R.ob("errors", what + " has no panic of its own", not pan, site(pan[0]) if pan else "", "")
                for s, v in rets:
                    nok += one(R, S, I, what, b, alg, val, s, v, fam, args, backs)
    R.floor("successful paths", nok, 8)


def one(R, S, I, what, b, alg, val, s, v, fam, args, backs):
    db = S.db
    evs = [e for e in s.events() if e.kind == "call" and e.extra and "f" in e.extra]
    stages, envs, runs, vals, news = [], [], [], [], []
    for e in evs:
        u = target(e.extra["f"])
        cb = db.bodies.get(u)
        if cb is None or not cb.local:
            continue
        p = "" if cb.self_ty is None else db.types[cb.self_ty].get("path") or ""
        cls = p.split("::")[-1]
        if cb.name == "validate_ssa":
            vals.append(e)
            stages.append(e)
        elif cls == "CFGInfo" and error_type(db, cb):
            stages.append(e)
        elif cls == "Env":
            f = p.split("::")[0]
            if cb.name == "new":
                news.append((f, e))
            elif error_type(db, cb):
                stages.append(e)
                if cb.name == "run":
                    runs.append((f, e))
            envs.append((f, e))
    # algorithm
    wrong = [e for f, e in envs if f != fam.get(alg, f)]
    R.ob("algorithm", what + " uses only the selected allocator", not wrong, site(wrong[0]) if wrong else "", "calls %s" % [e.name for e in wrong[:3]])
    for f, e in news:
        ok = len(e.args) >= 2 and same(I, s, e.args[0], args[0]) and same(I, s, e.args[1], args[1])
        R.ob("algorithm", what + " allocates the caller's function in the caller's environment", ok, site(e), str([str(a) for a in e.args]))
    # validation
    if not val:
        R.ob("validation", what + " does not validate", not vals, site(vals[0]) if vals else "", "validates without being asked to")
    else:
        for f, e in envs:
            before = [x for x in vals if evs.index(x) < evs.index(e)]
            R.ob("validation", what + " validates before %s" % e.name, bool(before), site(e), "the allocator is reached without validation")
        for e in vals:
            ok = same(I, s, e.args[0], args[0]) and cfg_of(e, stages, s, I, args)
            R.ob("validation", what + " validates the caller's function", ok, site(e), str([str(a) for a in e.args]))
    # errors
    failed = [e for e in stages if I.decide(s, mkeq(I.discr(s, e.res, None), mkint(1, "isize"), "isize")) is not False]
    isok = v.op == "agg" and v.args[1] == 0
    if not isok:
        last = failed[-1:] or [None]
        e = last[0]
        ok = e is not None and len(failed) == 1 and (v is e.res or (v.op == "agg" and v.args[1] == 1 and v.args[2] is I.getf(e.res, ("vf", 1, 0))))
        R.ob("errors", what + " returns the failing stage's own error", ok, site(e) if e else b.where(), "returns %s after %s" % (str(v)[:200], [x.name for x in failed]))
        return 0
    R.ob("errors", what + " succeeds only when every stage did", not failed, site(failed[0]) if failed else "", "returns Ok although %s may have failed" % [x.name for x in failed])
    R.ob("output", what + " succeeds only after the allocator ran once", len(runs) == 1, b.where(), "%d runs" % len(runs))
    if len(runs) != 1:
        return 0
    f, re = runs[0]
    out = v.args[2]
    if out.op == "ref":
        R.ob("output", what + " returns the context's output", out.args[0] == args[-1].args[0] and [p[-1] for p in out.args[1]] == ["output"], b.where(), str(out))
        out = I.load(s, out)
    payload = I.getf(re.res, ("vf", 0, 0))
    names = [x[0] for x in db.adts[S.adt("Output")]["variants"][0]["fields"]]
    after = set()  # what memory looks like after run: terms rooted in the havocked environment or context
    for i, n in enumerate(names):
        fv = I.getf(out, ("f", i, n))
        if n == "edits" and f == "ion":
            ok = edits_handed(fv, payload, s, backs)
            R.ob("output", what + " hands over the edits of the run", ok, b.where(), str(fv)[:300])
            continue
        t = fv
        while t.op in ("cast", "bits", "zext", "trunc") and any(isinstance(a, T) for a in t.args):
            t = [a for a in t.args if isinstance(a, T)][0]
        src = [x for x in subterms(fv) if x.op == "hv"]
        ok = bool(src) or f == "ion"
        txt = str(fv)
        if f == "ion":
            ok = "output" in txt and not any(x.op in ("default", "vecnew") for x in subterms(fv)) and leaf(fv)
        else:
            ok = leaf(fv) and (n != "num_spillslots" or "num_spillslots" in txt) and "'" in txt
        R.ob("output", what + " returns the allocator's %s" % n, ok, b.where(), txt[:300])
    return 1


def leaf(t):
    """only projections and integer conversions"""
    return not any(x.op in ("call", "res", "vecnew", "default", "seq", "agg", "add", "sub", "extend", "push") or x.op == "call" for x in subterms(t) if not inside_hv(t, x)) and t.op != "int"


def inside_hv(t, x):
    return False


def same(I, s, a, b):
    return a is b or (a.op == "ref" and b.op == "ref" and a.args == b.args) or (a.op == "ref" and b.op == "ref" and I.load(s, a) is I.load(s, b) and I.load(s, b).op == "sym")


def cfg_of(e, stages, s, I, args):
    """is the CFG argument of validate_ssa the result of a CFGInfo stage on the same function?"""
    if len(e.args) < 2:
        return False
    a = e.args[1]
    t = str(I.load(s, a)) if a.op == "ref" else str(a)
    for x in stages:
        if x is e:
            return False
        if x.name.split("::")[-1] == "new" and same(I, s, x.args[0], args[0]):
            val = (e.extra.get("nargs") or [None, None])[1]
            if val is not None and x.res in set(subterms(val)):
                return True
        if any(y.op == "ref" and a.op == "ref" and y.args == a.args for y in x.args) and any(same(I, s, y, args[0]) for y in x.args):
            return True
    return False


def edits_handed(fv, payload, s, backs):
    subs = set(subterms(fv))
    if payload in subs:
        for x in subs:
            if x.op == "seq" and x.args[0] not in ("own", "map", "iter", "drain", "into_iter", "copied", "cloned"):
                return False
        return True
    for st in backs:
        for e in st.events():
            if e.kind == "call" and e.name.split("::")[-1] in ("push", "extend") and any(payload in set(subterms(a)) for a in e.args[1:]):
                return fv.op in ("phi", "hv")
    return False
