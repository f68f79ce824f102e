"""C13: a serialized function reproduces every answer of the original."""
import re
from sem import Sem, sym
from terms import T, subst, settype
from interp import Interp, St, Stuck

LEVEL = "other"
TECHNIQUE = "symbolic summaries of the capturing constructor and of every accessor over MIR, composed and compared with the captured call"

ADT = "serialize::SerializableFunction"
SLICE = ("to_vec", "clone", "as_slice", "into_vec", "deref", "to_owned", "into_boxed_slice", "as_ref", "from", "into", "copied", "cloned", "iter", "into_iter", "collect", "iter_collect", "from_iter")


sub = subst


class Collecting(Interp):
    """remembers what loops build: a vector that every iteration pushes one element to holds, at the loop's end, one element per iteration"""
    built = {}

    def on_loop(self, fr, h, key, entry, head, backs, exits):
        if self.dry:
            return
        for root, v in head.mem.items():
            self.find(key, root, v, entry.mem.get(root), [b.mem.get(root) for b in backs], entry, head, backs, exits)

    def find(self, key, root, v, e, bs, entry, head, backs, exits):
        if not isinstance(v, T) or e is None or any(b is None for b in bs):
            return
        if v.op == "agg":
            if e.op == "agg" and all(b.op == "agg" and b.args[:2] == v.args[:2] for b in bs) and e.args[:2] == v.args[:2]:
                for i in range(2, len(v.args)):
                    self.find(key, root, v.args[i], e.args[i], [b.args[i] for b in bs], entry, head, backs, exits)
            return
        if v.op != "phi" or v.args[0] != key or e.op != "vecnew" or not bs:
            return
        if not all(b.op == "push" and b.args[0] == v for b in bs):
            return
        x = self.counter(key, entry, head, backs, exits)
        if x is not None:
            self.built[v] = (x[0], x[1], [(s, b.args[1]) for s, b in zip(backs, bs)])

    def counter(self, key, entry, head, backs, exits):
        """(number of iterations, term of the iteration's number) of a loop that counts up from 0"""
        zero = T("int", 0, "usize")
        c = None
        for b in backs:
            n = set()
            for f, val in b.facts.items():
                if f.op == "lt" and val is True and f not in entry.facts:
                    i, lim = f.args[:2]
                    if i.op == "elem" and i.args[0] == zero and i.args[1] == lim and isinstance(i.args[2].args[0], tuple) and key in str(i.args[2].args[0]):
                        if exits and all(x.facts.get(T("done", i.args[2].args[0])) is True for _, x in exits):
                            n.add((lim, i))
                    if i.op == "phi" and i.args[0] == key and not self.looplocal(lim, key):
                        r = i.args[1]
                        if head.mem.get(r) == i and entry.mem.get(r) == zero and exits and all(x.facts.get(f) is False for _, x in exits):
                            import terms
                            if b.mem.get(r) == terms.mkbin("Add", i, T("int", 1, "usize"), "usize"):
                                n.add((lim, i))
            c = n if c is None else c & n
        return sorted(c, key=str)[0] if c else None


class Capture:
    def __init__(self, S, R):
        S.interp = Collecting
        Collecting.built = {}
        self.S, self.R, self.db = S, R, S.db
        self.n = 0
        self.read = []  # (state, index, captured length) of the sequences read
        self.func = T("sym", "func")

    # -- the constructor
    def build(self):
        b = [x for x in self.db.local_bodies() if x.name == "new" and x.path.endswith("SerializableFunction::new")]
        if len(b) != 1:
            return None
        self.new = b[0]
        self.R.sawfn(self.new)
        I, self.paths, p = self.S.call(self.new, [self.func, T("sym", "menv")], frame=self.frame())
        return self.paths

    def frame(self):
        """every finished call keeps a frame of its own in memory, so that closures it made can be called later"""
        self.n += 1
        return "X%d" % self.n

    def apply(self, st, clos, args):
        """[(state, value)] of calling a closure made earlier"""
        u = clos.args[0][8:]
        b = self.db.bodies[u]
        self.R.sawfn(b)
        I, r, p = self.S.call(b, [clos] + args, st=st, frame=self.frame())
        return r

    # -- places of the captured object
    def place(self, t, st, roots):
        """a term over self, references and copies of slices removed: nested ("fld"|"idx"|"discr", base, key)"""
        while True:
            if t.op == "call" and t.args[0].split("::")[-1] in SLICE and len(t.args) >= 2:
                t = t.args[1]
            elif t.op == "deref":
                t = t.args[0]
            elif t.op == "seq" and t.args[0] in ("slice", "own", "copied", "cloned") and len(t.args) == 2:
                t = t.args[1]
            elif t.op == "call" and t.args[0].split("::")[-1] == "box_assume_init_into_vec_unsafe" and self.boxed(t.args[1], st) is not None:
                t = self.boxed(t.args[1], st)
            elif t.op == "ref":
                root, path = t.args
                base = st.mem.get(root)
                if base is None:
                    return None
                for p in path:
                    if p == "*" or p[0] == "v":
                        continue
                    if p[0] == "f":
                        base = T("fld", base, p[2] if len(p) > 2 else p[1])
                    elif p[0] in ("i", "idx"):
                        base = T("idx", base, p[1])
                    else:
                        return None
                t = base
            else:
                return t

    def boxed(self, t, st):
        """the array a vec![..] was made of"""
        v = st.mem.get(("O", T("fld", t, "0")))
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, T):
                if x.op == "agg" and x.args[0] == "array":
                    return x
                if x.op == "with":
                    todo += [y for k, y in x.args[1]]
        return None

    def at(self, x, e, i):
        """in the iteration numbered i of the loop that collects x"""
        def f(t):
            if t == e:
                return i
            if t.op == "phi" and t != x and t in Collecting.built:
                return T("built", t, x, e, i)
            return None
        return f

    def collected(self, x):
        """(number of iterations, term of the iteration's number, [(state, element)]) of a vector built by a loop"""
        if x.op == "built":
            k = self.collected(x.args[0])
            f = self.at(*x.args[1:])
            g = lambda t: None if t == x.args[0] else f(t)
            return (sub(k[0], g), sub(k[1], g), [(self.substate(s, g), sub(y, g)) for s, y in k[2]])
        return Collecting.built.get(x)

    def substate(self, s, f):
        s2 = s.copy()
        s2.facts = {sub(k, f): z for k, z in s.facts.items()}
        s2.mem = {k: sub(z, f) for k, z in s.mem.items()}
        return s2

    # -- what a place of the captured object holds
    def value(self, t, st, v, selfs):
        """[(state, value)] of a term over self, self being the captured object v"""
        t = self.place(t, st, None)
        if t is None:
            return None
        if t in selfs:
            return [(st, v)]
        if t.op == "fld":
            out = []
            for s, x in self.value(t.args[0], st, v, selfs) or [(None, None)]:
                if s is None:
                    return None
                x = self.place(x, s, None)
                if x is None or x.op != "agg":
                    return None
                a = self.db.adts.get(x.args[0])
                if a is None:
                    return None
                ns = [f[0] for f in a["variants"][x.args[1]]["fields"]]
                k = t.args[1]
                i = ns.index(k) if k in ns else int(k) if str(k).isdigit() else None
                if i is None:
                    return None
                out.append((s, x.args[2 + i]))
            return out
        if t.op == "idx":
            out = []
            for s, x in self.value(t.args[0], st, v, selfs) or [(None, None)]:
                if s is None:
                    return None
                self.read.append((s, t.args[1], self.length(s, x)))
                e = self.element(s, x, t.args[1])
                if e is None:
                    return None
                out += e
            return out
        if t.op == "discr":
            out = []
            for s, x in self.value(t.args[0], st, v, selfs) or [(None, None)]:
                if s is None or x.op != "agg":
                    return None
                a = self.db.adts[x.args[0]]
                out.append((s, T("int", a["variants"][x.args[1]]["discr"], "isize")))
            return out
        if t.op == "int" or t.op == "agg" and len(t.args) == 2:
            return [(st, t)]
        return None

    def element(self, st, x, i):
        """the elements of a captured sequence"""
        x = self.place(x, st, None)
        if x is None:
            return None
        if x.op == "call" and x.args[0].split("::")[-1] in ("iter_collect", "collect"):
            x = x.args[1]
        if x.op == "agg" and x.args[0] == "array" and i.op == "int":
            return [(st, x.args[2 + i.args[0]])] if i.args[0] < len(x.args) - 2 else None
        k = self.collected(x)
        if k is not None:
            n, e, its = k
            out = []
            for s, y in its:
                s2 = st.copy()
                f = self.at(x, e, i)
                s2.facts.update({sub(k, f): z for k, z in s.facts.items()})
                s2.mem.update({k: sub(z, f) for k, z in s.mem.items()})
                out.append((s2, sub(y, f)))
            return out
        if x.op == "seq" and x.args[0] == "map":
            r = x.args[1]
            a = self.place(r, st, None)
            if a is not None and a.op == "agg" and a.args[0] == "array" and i.op == "int" and i.args[0] < len(a.args) - 2:
                e = a.args[2 + i.args[0]]
                if r.op == "seq" and r.args[0] == "slice":
                    self.n += 1
                    st = st.copy()
                    st.mem[("L", "K%d" % self.n, 0)] = e
                    e = T("ref", ("L", "K%d" % self.n, 0), ())
                return self.apply(st, x.args[2], [e])
            if r.op == "seq" and r.args[0] == "range" and r.args[1] == T("int", 0, "usize"):
                return self.apply(st, x.args[2], [i])
        return None

    def length(self, st, x):
        x = self.place(x, st, None)
        if x is None:
            return None
        if x.op == "call" and x.args[0].split("::")[-1] in ("iter_collect", "collect"):
            x = x.args[1]
        k = self.collected(x)
        if k is not None:
            return k[0]
        while x.op == "seq" and x.args[0] == "map":
            x = x.args[1]
        if x.op == "seq" and x.args[0] == "range" and x.args[1] == T("int", 0, "usize") and not x.args[3]:
            return x.args[2]
        if x.op == "agg" and x.args[0] == "array":
            return T("int", len(x.args) - 2, "usize")
        return None


def run(R, tier):
    R.rule("answer", "an accessor returns what the same method of the original returned for the same arguments when it was captured")
    R.rule("kind", "an instruction is a return exactly if it was one, and a branch exactly if it was one and not a return")
    R.rule("complete", "every method of the function interface is answered from captured data, none by the interface's default")
    R.rule("codec", "every part of a captured function is written and read back")
    S = Sem("main", R)
    db = S.db
    C = Capture(S, R)
    paths = C.build()
    R.floor("ways the constructor can end", len(paths or ()), 1)
    if not paths:
        return
    tr = [t for p, t in db.traits.items() if p.split("::")[-1] == "Function"]
    meths = [m[0] for m in tr[0]["fns"]]
    R.floor("methods of the function interface", len(meths), 15)
    impl = {b.name: b for b in db.local_bodies() if b.trait and b.trait.split("::")[-1].split("<")[0] == "Function" and b.path.startswith("<serialize::SerializableFunction")}
    for m in meths:
        b = impl.get(m)
        R.ob("complete", m, b is not None, "src/serialize.rs", "a captured function answers %s by the interface's default instead of what the original said" % m)
        if b is None:
            continue
        R.sawfn(b)
        args, cases = [], [[]]
        for i in range(2, b.argc + 1):
            ty = db.types[b.lty(i)]
            p = ty.get("path", "")
            if ty["k"] == "adt" and db.adts.get(p, {}).get("kind") == "enum":
                cases = [c + [T("agg", p, k)] for c in cases for k in range(len(db.adts[p]["variants"]))]
            else:
                cases = [c + [sym("arg%d" % i, p or ty["k"])] for c in cases]
        for c in cases:
            label = m + "".join("(%s)" % db.adts[a.args[0]]["variants"][a.args[1]]["name"] for a in c if a.op == "agg")
            try:
                ok, why = answer(C, S, R, db, b, m, c, paths)
            except Stuck as e:
                ok, why = False, "not understood: %s" % e
            R.ob("kind" if m in ("is_ret", "is_branch") else "answer", label, ok, b.where(), why)
    codec(R, db)


def same(db, want, got):
    return norm(db, want) == norm(db, got)


def norm(db, t, memo=None):
    """an index rebuilt from its own number is that index; which instruction a branch question is asked about is the block's last"""
    if not isinstance(t, T):
        return t
    a = tuple(norm(db, x) for x in t.args)
    t = T(t.op, *a)
    if t.op == "agg" and len(a) == 3 and isinstance(a[2], T):
        x = a[2]
        while x.op in ("cast", "call") and len(x.args) > 1 and isinstance(x.args[1], T):
            x = x.args[1]
        s = str(x)
        g = re.fullmatch(r"bits<(\w+)\.0\[0\.\.=31\](,0\*\d+)?>", s)
        if g:
            return T("sym", g.group(1))
        g = re.fullmatch(r"(\w+)\.0", s)
        if g:
            return T("sym", g.group(1))
    if t.op == "call" and a[0].split("::")[-1] in SLICE and len(a) == 2:
        return a[1]
    if t.op == "deref":
        return a[0]
    if t.op == "seq" and a[0] in ("slice", "own", "copied", "cloned") and len(a) == 2:
        return a[1]
    return t


def answer(C, S, R, db, b, m, c, paths):
    sy = T("sym", "self")
    I, r, p = S.call(b, [sy] + c)
    if not r:
        return False, "it does not return"
    n = 0
    # for how many instructions, blocks, successors there have to be answers
    dom = {}
    for i, a in enumerate(c):
        ty = (db.types[b.lty(i + 2)].get("path") or "").split("::")[-1]
        if ty == "Inst":
            dom[a.args[0]] = T("call", "Function::num_insts", C.func)
        elif ty == "Block":
            dom[a.args[0]] = T("call", "Function::num_blocks", C.func)
        elif m == "branch_blockparams" and i == 2:
            dom[a.args[0]] = T("len", T("call", "Function::block_succs", C.func, c[0]))
    if m in ("is_ret", "is_branch"):
        x = kinds(C, S, r, m, c, sy, paths)
        return x is None, x or ""
    for st0, v0 in r:
        for stn, vn in paths:
            st = stn.copy()
            st.mem.update(st0.mem)
            selfs = {sy}
            C.read = []
            n += 1
            # lengths
            if v0.op in ("len",) or v0.op == "call" and v0.args[0].split("::")[-1] == "len":
                src = v0.args[-1]
                xs = C.value(src, st, vn, selfs)
                if not xs:
                    return False, "%s is not a captured sequence" % v0
                for s, x in xs:
                    ln = C.length(s, x)
                    want = T("call", "Function::" + m, C.func)
                    if ln is None:
                        return False, "how many elements were captured is not understood"
                    if ln != want:
                        return False, "it counts %s, the original's answer is %s" % (ln, want)
                continue
            xs = C.value(v0, st, vn, selfs)
            if not xs:
                return False, "its answer %s is not a captured value" % str(v0)[:80]
            want = T("call", "Function::" + m, C.func, *c)
            for s, x in xs:
                x = C.place(x, s, None)
                if x is None:
                    return False, "the captured value is not understood"
                w = want
                if m == "branch_blockparams" and x.op == "call" and len(x.args) == len(want.args):
                    # asked about the block's own branch, the last instruction
                    last = norm(db, x.args[3])
                    R.count("instructions a branch question was captured for")
                    if not is_last(C, S, s, last, norm(db, x.args[2])):
                        return False, "the blockparam operands were captured for another instruction (%s)" % str(last)[:60]
                    w = T("call", *(want.args[:3] + (x.args[3],) + want.args[4:]))
                bad = short_of(C, db, dom)
                if bad:
                    return False, bad
                if not same(db, w, x):
                    return False, "it answers with %s, the original's answer is %s" % (str(norm(db, x))[:90], str(norm(db, w))[:90])
    return n > 0, ""


def short_of(C, db, dom):
    """a captured sequence that is read at an argument must have an entry for every value the argument can have"""
    for s, i, ln in C.read:
        if i.op == "int":
            continue
        for a, want in dom.items():
            if a in re.findall(r"\w+", str(norm(db, i))):
                if ln is None or norm(db, ln) != norm(db, want) and not (want.op == "len" and norm(db, ln) == T("call", "len", norm(db, want.args[0]))):
                    return "%s entries were captured, there are %s" % (str(ln)[:60], str(want)[:60])
    return None


def is_last(C, S, st, last, block):
    """last instruction of the block: what InstRange::last gives for the block's range"""
    rng = T("call", "Function::block_insns", C.func, block)
    I, r, p = S.call("InstRange::last", [rng])
    return any(norm(S.db, v) == last for s, v in r)


def kinds(C, S, r, m, c, sy, paths):
    """the opcode an instruction was captured with, for each combination of what the original says about it"""
    seen = {}
    for st0, v0 in r:
        for stn, vn in paths:
            st = stn.copy()
            st.mem.update(st0.mem)
            # what the answer depends on
            d = {t for x in [v0] + list(st0.facts) + list(st0.neq) for t in walk(x) if t.op == "discr"}
            if not d:
                xs = C.value(v0, st, vn, {sy})
                if not xs:
                    return "its answer %s is not a captured value" % str(v0)[:80]
                for s, x in xs:
                    if x.op == "int":
                        merge(S, C, s, c, seen, bool(x.args[0]))
                    elif same(S.db, T("call", "Function::" + m, C.func, *c), x):
                        for k in (True, False):
                            for o in (True, False):
                                seen.setdefault((k, o) if m == "is_ret" else (o, k), set()).add(k)
                    else:
                        return "it answers with %s" % str(x)[:80]
                continue
            if len(d) != 1:
                return "its answer depends on more than the captured kind"
            d = d.pop()
            xs = C.value(d.args[0], st, vn, {sy})
            if not xs:
                return "the opcode is not a captured value"
            for s, x in xs:
                if x.op != "agg":
                    return "the opcode %s is not understood" % str(x)[:60]
                dv = S.db.adts[x.args[0]]["variants"][x.args[1]]["discr"]
                # can this path of the accessor be taken with it?
                if d in st0.facts and num(st0.facts[d]) != dv or dv in st0.neq.get(d, ()):
                    continue
                if any(evalb(f, d, dv) not in (None, bool(num(val))) for f, val in st0.facts.items() if f != d):
                    continue
                got = evalb(v0, d, dv)
                if got is None:
                    return "the answer %s is not understood" % str(v0)[:60]
                merge(S, C, s, c, seen, got)
    for (ret, br) in ((True, False), (False, True), (False, False)):
        want = ret if m == "is_ret" else br
        if seen.get((ret, br)) != {want}:
            return "an instruction the original calls %s is reported as %s" % ("a return" if ret else "a branch" if br else "neither", sorted(seen.get((ret, br), ())))
    return None


def num(x):
    return x.args[0] if isinstance(x, T) else x


def merge(S, C, s, c, seen, got):
    known = {}
    for name in ("is_ret", "is_branch"):
        t = norm(S.db, T("call", "Function::" + name, C.func, *c))
        for f, val in s.facts.items():
            if isinstance(f, T) and norm(S.db, f) == t:
                known[name] = bool(num(val))
    for ret in ((known["is_ret"],) if "is_ret" in known else (True, False)):
        for br in ((known["is_branch"],) if "is_branch" in known else (True, False)):
            seen.setdefault((ret, br), set()).add(got)


def walk(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st += list(x.args)


def evalb(v, d, dv):
    """a condition over one discriminant"""
    from terms import subst
    ty = "isize"
    if v == d:
        return dv
    if v.op == "int":
        return bool(v.args[0])
    if v.op in ("eq", "ne") and d in v.args:
        o = [x for x in v.args if x is not d]
        if len(o) == 1 and o[0].op == "int":
            return (o[0].args[0] == dv) == (v.op == "eq")
    if v.op == "not":
        x = evalb(v.args[0], d, dv)
        return None if x is None else not x
    if v.op == "call" or v.op == "bin":
        pass
    return None


def codec(R, db):
    """derived serialization: as many fields written and read as there are, none left to a default"""
    ser = {}
    for b in db.local_bodies():
        if b.name == "serialize" and "serde::Serialize for" in b.path and b.derived:
            ser[b.path.split("Serialize for ")[1].rstrip(">").split(">::")[0]] = b
    need, todo = set(), [ADT]
    while todo:
        p = todo.pop()
        if p in need or p not in db.adts or not db.adts[p].get("local"):
            continue
        need.add(p)
        for v in db.adts[p]["variants"]:
            for f in v["fields"]:
                todo += adts_in(db, f[1])
    R.floor("types a captured function is made of", len(need), 8)
    for p in sorted(need):
        a = db.adts[p]
        b = ser.get(p)
        if b is None:
            R.count("types with hand-written serialization")
            continue
        nf = sum(len(v["fields"]) for v in a["variants"])
        R.sawfn(b)
        w = 0
        dflt = []
        for x in b.blocks:
            t = x["t"]
            if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
                nm = t[1][1]["f"]["name"]
                if nm in ("serialize_field", "serialize_element", "serialize_newtype_struct", "serialize_newtype_variant"):
                    w += 1
        rd = 0
        for c in db.local_bodies():
            if "serde::Deserialize<'de> for %s>" % p in c.path and c.name in ("visit_seq",):
                for x in c.blocks:
                    t = x["t"]
                    if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
                        f = t[1][1]["f"]
                        if f["name"] == "next_element":
                            rd += 1
                        if f["path"].endswith("Default::default") or f["name"] == "default":
                            dflt.append(c)
            if "serde::Deserialize<'de> for %s>" % p in c.path and c.name == "visit_map":
                for x in c.blocks:
                    t = x["t"]
                    if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn" and t[1][1]["f"]["name"] == "default":
                        dflt.append(c)
        struct = a["kind"] == "struct"
        R.ob("codec", p, w >= nf and (not struct or rd >= nf) and not dflt, b.where(),
             "%d parts, %d written, %d read, %d filled in with a default" % (nf, w, rd, len(dflt)))


def adts_in(db, ti, depth=0):
    t = db.types[ti]
    out = []
    if t["k"] == "adt":
        out.append(t["path"])
        for x in t.get("args", ()):
            if isinstance(x, int) and depth < 5:
                out += adts_in(db, x, depth + 1)
    elif t["k"] in ("array", "slice", "ref"):
        out += adts_in(db, t["t"], depth + 1)
    elif t["k"] == "tuple":
        for x in t.get("ts", ()):
            out += adts_in(db, x, depth + 1)
    return out
