"""C07: allocation is a deterministic function of its inputs."""
import mirdb
from query import Q
from effects import Effects, callee, cu
from prov import Prov, show
from terms import T, subterms

TECHNIQUE = ("effect analysis over MIR: every call that leaves the crate, every cast and comparison, every hash table type and every iteration over a hash table "
             "in the functions reachable from the allocation entry points, with an order-independence analysis of the loops over retained tables")
LEVEL = "other"

CRATES = ("core", "alloc", "hashbrown", "smallvec", "allocator_api2", "bumpalo", "rustc_hash", "regalloc2", "log", "equivalent")
DENY = ("core::sync::atomic", "core::arch", "core::core_arch", "core::hint::black_box", "alloc::sync", "core::cell::once", "core::cell::lazy", "core::task", "core::future")
UNINIT = ("assume_init", "assume_init_ref", "assume_init_mut", "assume_init_read", "set_len", "from_raw_parts", "from_raw_parts_mut", "uninitialized", "new_uninit", "uninit", "transmute", "transmute_copy", "zeroed")
STDOK = ("std::io::stdio::_print", "std::io::stdio::_eprint", "std::error", "std::num", "std::f32", "std::f64")
ADDR = ("addr", "expose_provenance", "expose_addr", "offset_from", "byte_offset_from", "offset_from_unsigned", "align_offset", "is_aligned", "is_aligned_to", "new_pointer", "sub_ptr", "guaranteed_eq")
ITER = {"iter", "iter_mut", "keys", "into_keys", "values", "values_mut", "into_values", "drain", "into_iter", "retain", "extract_if", "intersection", "union", "difference", "symmetric_difference", "drain_filter", "fold"}
HASHCRATES = ("hashbrown::", "std::collections::hash", "alloc::collections::hash")
HOLD = ("Vec", "VecDeque", "SmallVec", "BinaryHeap", "BTreeMap", "BTreeSet", "HashMap", "HashSet", "Box", "Rc", "Option")


def is_table(t):
    return t["k"] == "adt" and t["path"].split("::")[-1] in ("HashMap", "HashSet", "HashTable")


def has_ptr(db, ti, seen=()):
    t = db.types[ti]
    if ti in seen:
        return False
    if t["k"] in ("ptr", "fnptr"):
        return True
    if t["k"] == "adt":
        if t["path"].split("::")[-1] in ("NonNull",):
            return True
        a = db.adts.get(t["path"])
        if any(isinstance(x, int) and has_ptr(db, x, seen + (ti,)) for x in t.get("args", ())):
            return True
        return a is not None and bool(a.get("local")) and any(has_ptr(db, f[1], seen + (ti,)) for v in a["variants"] for f in v["fields"])
    if t["k"] == "tuple":
        return any(has_ptr(db, x, seen + (ti,)) for x in t.get("ts", ()))
    if t["k"] in ("ref", "slice", "array"):
        return has_ptr(db, t["t"], seen + (ti,))
    return False


def fixed_hasher(db, t):
    n = 1 if t["path"].split("::")[-1] == "HashSet" else 2
    a = [x for x in t.get("args", ()) if isinstance(x, int)]
    if len(a) <= n:
        return t["path"].split("::")[-1] == "HashTable"
    h = db.types[a[n]]
    if h["k"] != "adt":
        return False
    if h["path"].split("::")[-1] == "BuildHasherDefault":
        h = db.types[[x for x in h["args"] if isinstance(x, int)][0]]
        return h["k"] == "adt" and (h["path"].startswith("rustc_hash::") or bool(h.get("local")))
    return h["path"].split("::")[-1] in ("FxBuildHasher",) or bool(h.get("local"))


def reachable(db, q):
    """what the entry points reach, with every trait method of the crate's own types (called by generic code)"""
    skip = lambda b: any(s in b.path for s in ("fuzzing", "checker::", "serde", "serialize::")) or b.trait and ("erialize" in b.trait or "rbitrary" in b.trait)
    roots = [b for b in q.bodies() if b.path in ("run", "run_with_ctx", "ion::run", "fastalloc::run")]
    roots += [b for b in q.bodies() if b.trait and not skip(b)]
    return [b for b in q.reach(roots) if b.local and not skip(b)], roots


def retained(db):
    """table types that stay in a context between runs (not inside a list that is emptied)"""
    out, seen = {}, set()
    st = [(t, a) for a, d in db.adts.items() if a.split("::")[-1] == "Ctx" and d.get("local") for v in d["variants"] for _, t, _ in v["fields"]]
    while st:
        ti, w = st.pop()
        if ti in seen:
            continue
        seen.add(ti)
        t = db.types[ti]
        if is_table(t):
            out[t["s"]] = w
        elif t["k"] == "adt" and t["path"].split("::")[-1] not in HOLD:
            a = db.adts.get(t["path"])
            if a is not None and a.get("local"):
                st += [(f[1], t["path"]) for v in a["variants"] for f in v["fields"]]
            st += [(x, w) for x in t.get("args", ()) if isinstance(x, int)]
        elif t["k"] == "tuple":
            st += [(x, w) for x in t.get("ts", ())]
        elif t["k"] in ("array", "slice", "ref"):
            st.append((t["t"], w))
    return out


def run(R, tier):
    R.rule("effects", "no function reachable from the entry points calls out to anything that reads time, environment, threads, randomness, hardware or shared state")
    R.rule("addresses", "no number, comparison, hash or text is made from an address")
    R.rule("globals", "the crate has no mutable static and no static with interior mutability")
    R.rule("hasher", "every hash table uses a fixed hasher and no table or ordered collection is keyed by addresses")
    R.rule("iteration", "a hash table that is iterated was created in the run, or the order cannot matter: each step only touches what belongs to its element")
    for config in ("main", "trace") if tier != "thorough" else ("main", "default", "trace", "all"):
        one(R, config)


def one(R, config):
    db = mirdb.load(config)
    q = Q(db)
    E = Effects(db, q)
    bodies, roots = reachable(db, q)
    tag = "" if config == "main" else " [%s]" % config
    for b in bodies:
        R.sawfn(b)
    nc = 0
    keep = retained(db)
    iters = []
    for b in bodies:
        bad, addr = [], []
        for bb, bl in enumerate(b.blocks):
            if bl.get("cleanup"):
                continue
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                at = ":".join(map(str, s[3][:2]))
                rv = s[2]
                if rv[0] == "cast":
                    src = E.opty(b, rv[2])
                    k = rv[1]
                    if "Expose" in k or "PointerToInt" in k:
                        addr.append("%s an address becomes a number" % at)
                    elif k.startswith("Transmute") and src is not None and (has_ptr(db, src) or db.types[src]["k"] == "ref") and not ptrlike(db, rv[3]):
                        addr.append("%s a pointer is reinterpreted" % at)
                elif rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Cmp", "Offset"):
                    for o in rv[2:4]:
                        ti = E.opty(b, o)
                        if ti is not None and db.types[ti]["k"] in ("ptr", "fnptr"):
                            addr.append("%s addresses are compared" % at)
            t = bl["t"]
            if t[0] == "other":
                bad.append("%s" % t[1][:60])
            f = callee(t)
            if f is None:
                continue
            u = cu(f)
            at = ":".join(map(str, t[5][:2]))
            if u in db.bodies and db.bodies[u].local:
                continue
            nc += 1
            if u.startswith("std::"):
                if not u.startswith(STDOK):
                    bad.append("%s calls %s" % (at, u))
            elif u.split("::")[0] not in CRATES:
                bad.append("%s calls %s" % (at, u))
            elif u.startswith(DENY):
                bad.append("%s calls %s" % (at, u))
            elif f["name"] in UNINIT and not u.startswith("regalloc2::"):
                bad.append("%s may read memory that was never written: %s" % (at, u))
            if f["name"] in ADDR and u.split("::")[0] in ("core", "std", "alloc") and ("ptr" in u or "fmt" in u or "intrinsics" in u):
                addr.append("%s calls %s" % (at, u))
            if f["name"] in ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min", "hash", "clamp") and any(isinstance(a, int) and db.types[a]["k"] in ("ptr", "fnptr") for a in f.get("args", ())):
                addr.append("%s %s of addresses" % (at, f["name"]))
            if f["name"] in ITER:
                for i, a in enumerate(t[2][:1]):
                    ti = E.opty(b, a)
                    while ti is not None and db.types[ti]["k"] == "ref":
                        ti = db.types[ti]["t"]
                    if ti is not None and is_table(db.types[ti]):
                        iters.append((b, bb, f, db.types[ti], at))
        R.ob("effects", b.path + tag, not bad, b.where(), "; ".join(bad[:3]))
        R.ob("addresses", b.path + tag, not addr, b.where(), "; ".join(addr[:3]))
    R.floor("calls that leave the crate%s" % tag, nc, 1500)
    R.floor("reachable functions%s" % tag, len(bodies), 450)
    R.floor("entry points%s" % tag, len([b for b in roots if not b.trait]), 4)
    # statics
    for s in db.statics:
        ts = db.types[s["t"]]["s"]
        bad = s["mut"] or any(x in ts for x in ("Atomic", "Cell<", "Mutex", "RwLock", "Once", "Lazy", "LocalKey"))
        R.ob("globals", s["path"] + tag, not bad or any(x in s["path"] for x in ("fuzzing", "checker")), s["path"], "the static has type %s" % ts)
    R.ob("globals", "all statics looked at" + tag, True)
    # tables
    tables = {}
    for b in bodies:
        for l in b.locals:
            walk(db, l[0], tables, b.path)
    for a, d in db.adts.items():
        if d.get("local") and not any(x in a for x in ("fuzzing", "checker", "serialize")):
            for v in d["variants"]:
                for f in v["fields"]:
                    walk(db, f[1], tables, a)
    for s, (ti, w) in sorted(tables.items()):
        t = db.types[ti]
        key = [x for x in t.get("args", ()) if isinstance(x, int)][:1]
        if is_table(t):
            R.ob("hasher", s + tag, fixed_hasher(db, t), w, "the table's hasher is not a fixed one: its layout differs from run to run")
        R.ob("hasher", "key of " + s + tag, not (key and has_ptr(db, key[0])), w, "the table is keyed by addresses")
    R.floor("hash table types%s" % tag, sum(1 for s, (ti, w) in tables.items() if is_table(db.types[ti])), 5)
    # iteration
    P = E.P
    for b, bb, f, t, at in iters:
        where = "%s %s" % (b.path, at)
        if t["s"] not in keep:
            R.ob("iteration", "%s over %s in %s%s" % (f["name"], t["s"], b.path, tag), fixed_hasher(db, t), where, "the order differs from run to run")
            continue
        ok, msg = independent(db, E, P, b, bb, f)
        R.ob("iteration", "%s over the retained %s in %s%s" % (f["name"], t["s"], b.path, tag), ok, where, msg)
    R.count("iterations over hash tables%s" % tag, len(iters))
    R.count("table types kept between runs%s" % tag, len(keep))


def ptrlike(db, ti):
    return has_ptr(db, ti) or db.types[ti]["k"] in ("ref", "fnptr")


def walk(db, ti, out, where, seen=None):
    seen = set() if seen is None else seen
    if ti in seen:
        return
    seen.add(ti)
    t = db.types[ti]
    if t["k"] == "adt":
        if t["path"].split("::")[-1] in ("HashMap", "HashSet", "HashTable", "BTreeMap", "BTreeSet", "BinaryHeap"):
            out.setdefault(t["s"], (ti, where))
        for x in t.get("args", ()):
            if isinstance(x, int):
                walk(db, x, out, where, seen)
    elif t["k"] == "tuple":
        for x in t.get("ts", ()):
            walk(db, x, out, where, seen)
    elif t["k"] in ("ref", "ptr", "array", "slice"):
        walk(db, t["t"], out, where, seen)


def independent(db, E, P, b, bb, f):
    """does the order in which the loop sees the elements matter"""
    t0 = b.blocks[bb]["t"]
    start = ("it", b.u, bb)

    def from_iter(t):
        return any(x.op == "app" and x.args[1][1:] == (b.u, bb) for x in subterms(t))

    # follow the iterator: to next calls (a loop), or to a consumer
    users = []
    for x, bl in enumerate(b.blocks):
        t = bl["t"]
        if t[0] != "call" or bl.get("cleanup") or x == bb:
            continue
        g = callee(t)
        if g is None:
            continue
        if any(from_iter(P.operand(b, a)) for a in t[2][:1]):
            users.append((x, g, t))
    nexts = [(x, g, t) for x, g, t in users if g["name"] in ("next", "next_back")]
    if not nexts:
        cons = {g["name"] for _, g, _ in users}
        if f["name"] == "retain":
            return pure_closures(E, b, t0)
        if cons and cons <= {"all", "any", "count", "len", "max", "min", "sum", "is_empty", "copied", "cloned", "map", "filter", "max_by_key", "min_by_key"} - {"max_by_key", "min_by_key"} and cons & {"all", "any", "count", "len", "max", "min", "sum", "is_empty"}:
            return True, ""
        if "for_each" in cons and cons <= {"for_each", "copied", "cloned"}:
            for x, g, t in users:
                for a in t[2]:
                    ti = E.opty(b, a)
                    if g["name"] == "for_each" and ti is not None and db.types[ti]["k"] == "closure":
                        cb = db.bodies[db.types[ti]["path"]]
                        r = step(db, E, P, cb, cb.reachable(), lambda y: y.op == "arg" and y.args == (cb.u, 2), lambda l: False)
                        if not r[0]:
                            return r
            return True, ""
        if "collect" in cons:
            return sorted_after(E, P, b, users)
        return False, "the elements are taken in table order by %s" % ", ".join(sorted(cons) or [f["name"]])
    for x, g, t in nexts:
        body = loop_of(b, x)
        if body is None:
            return False, "an arbitrary element is taken"
        for z in sorted(body):
            if b.blocks[z].get("cleanup"):
                continue
            if b.blocks[z]["t"][0] == "ret" or any(s not in body for s in b.succs(z)) and z != x and not exit_is_end(b, z, body, x):
                return False, "the loop may stop at an element that depends on the order (block %d)" % z
        isel = lambda y: y.op == "app" and y.args[0] in ("next", "next_back") and y.args[1][1:] == (b.u, x)
        r = step(db, E, P, b, body - {x}, isel, lambda l: outlives(b, l, body))
        if not r[0]:
            return r
    return True, ""


def step(db, E, P, b, blocks, isel, outlives):
    """everything one step changes belongs to its element"""
    elem = lambda tm: any(isel(y) for y in subterms(tm))

    def keyed(tm):
        for y in subterms(tm):
            if y.op == "app" and y.args[0] in ("index_mut", "get_mut", "index") and len(y.args) > 3 and elem(y.args[3]):
                return True
            if y.op == "i" and elem(y.args[1]):
                return True
        return elem(tm)
    for z in sorted(blocks):
        bl = b.blocks[z]
        if bl.get("cleanup"):
            continue
        for s in bl["s"]:
            if s[0] != "=":
                continue
            at = ":".join(map(str, s[3][:2]))
            for r, p in E.dest(b, s[1]):
                if r[0] == "temp":
                    continue
                if r[0] == "local" and r[1] == b.u:
                    if outlives(r[2]):
                        return False, "%s: %s is carried from one element to the next" % (at, b.lname(r[2]))
                    continue
                if not keyed(P.place(b, s[1])):
                    return False, "%s: memory that does not belong to the element is written" % at
        t = bl["t"]
        if t[0] != "call":
            continue
        at = ":".join(map(str, t[5][:2]))
        for r, p in E.dest(b, t[3]):
            if r[0] == "local" and r[1] == b.u and outlives(r[2]):
                return False, "%s: %s is carried from one element to the next" % (at, b.lname(r[2]))
        for r, p, sp, w in E.call(b, z, t):
            if r[0] == "temp" or r[0] == "local" and r[1] == b.u and not outlives(r[2]):
                continue
            mut = [a for a in t[2] if E.opty(b, a) is not None and E.mutty(E.opty(b, a))]
            if mut and all(keyed(P.operand(b, a)) for a in mut):
                continue
            return False, "%s: %s changes what does not belong to the element" % (at, w)
    return True, ""


def exit_is_end(b, z, body, nxt):
    """leaving the loop where the iterator says there is no further element"""
    t = b.blocks[z]["t"]
    if t[0] != "switch":
        return False
    ds = [s for s in b.blocks[z]["s"] if s[0] == "=" and s[2][0] == "discr"]
    tt = b.blocks[nxt]["t"]
    return any(s[2][1][0] == tt[3][0] for s in ds) or not any(b.blocks[y]["t"][0] == "ret" for s in b.succs(z) if s not in body for y in b.reachable(s))


def outlives(b, l, body):
    """the local holds something from outside of, or is read after, one pass through the loop"""
    for x, bl in enumerate(b.blocks):
        if x in body or bl.get("cleanup"):
            continue
        for s in bl["s"]:
            if s[0] == "=" and s[1][0] == l:
                return db_unit(b, l) is False
    return False


def db_unit(b, l):
    t = b.db.types[b.lty(l)]
    return t["k"] == "tuple" and not t.get("ts")


def loop_of(b, x):
    """blocks on a cycle through x"""
    fwd = set()
    st = list(b.succs(x))
    while st:
        y = st.pop()
        if y not in fwd:
            fwd.add(y)
            st += b.succs(y)
    if x not in fwd:
        return None
    back, st = {x}, [x]
    pr = b.preds()
    while st:
        y = st.pop()
        for p in pr[y]:
            if p not in back and p in fwd:
                back.add(p)
                st.append(p)
    return back & fwd


def pure_closures(E, b, t):
    for a in t[2]:
        ti = E.opty(b, a)
        if ti is not None and E.db.types[ti]["k"] == "closure":
            cb = E.db.bodies.get(E.db.types[ti]["path"])
            if cb is None:
                return False, "a closure that could not be found"
            if any(r[0] != "temp" and not (r[0] == "arg" and r[1] == cb.u) for r, p, w in E._body(cb)):
                return False, "what is kept may depend on the order"
    return True, ""


def sorted_after(E, P, b, users):
    """collected into a list that is sorted before anything else looks at it"""
    for x, g, t in users:
        if g["name"] != "collect":
            continue
        l = t[3][0]
        y = t[4]
        # the first call that is handed the list, on the straight line from here, must sort it
        alias = {l}
        for _ in range(12):
            if y < 0:
                break
            for s in b.blocks[y]["s"]:
                if s[0] == "=" and s[2][0] in ("use", "ref"):
                    o = s[2][1] if s[2][0] == "ref" else (s[2][1][1] if s[2][1][0] != "k" else None)
                    if o and o[0] in alias:
                        alias.add(s[1][0])
            tt = b.blocks[y]["t"]
            if tt[0] == "call":
                h = callee(tt)
                if any(a[0] != "k" and a[1][0] in alias for a in tt[2]):
                    if h is not None and h["name"] in ("sort", "sort_unstable"):
                        return True, ""
                    if h is None or h["name"] not in ("deref_mut", "as_mut_slice", "deref"):
                        return False, "the elements are collected in table order and used by %s before they are sorted" % (h["name"] if h else "a call")
                    alias.add(tt[3][0])
                y = tt[4]
            elif tt[0] in ("goto",):
                y = tt[1]
            elif tt[0] == "drop":
                y = tt[2]
            else:
                break
    return False, "the elements are collected in table order"
