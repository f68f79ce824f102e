"""Interprocedural typestate of one abstract object: forward data flow over MIR with function summaries that keep success and failure returns apart."""


class Typestate:
    """events(b, bb, t, env) -> list of labels for a call terminator (None: not an event, look into the callee);
    stmt(b, bb, s, env) -> list of labels for a statement;  step(state, label, where) -> iterable of states.
    A path element is (state, tag, ret): tag is how the last fallible call ended ("O", "E" or None), ret how this body is about to return."""

    def __init__(self, db, q):
        self.db, self.q = db, q
        self.memo = {}
        self.changed = False
        self.bodies = set()
        self.nevents = {}

    def events(self, b, bb, t, env):
        return None

    def stmt(self, b, bb, s, env):
        return ()

    def step(self, state, label, where):
        return (state,)

    def bind(self, b, bb, t, env, callee):
        """abstract environment of the callee"""
        return ()

    # ------------------------------------------------------------ engine
    def run(self, b, state, env=()):
        """{(state, "O"/"E"/None)} at the returns of b"""
        while True:
            self.changed = False
            self.done = set()
            r = self.summary(b, state, env)
            if not self.changed:
                return r

    def summary(self, b, state, env):
        k = (b.u, state, env)
        if k in self.done:
            return self.memo.get(k, frozenset())
        self.done.add(k)
        r = frozenset(self.flow(b, state, env))
        old = self.memo.get(k, frozenset())
        if r - old:
            self.changed = True
        self.memo[k] = old | r
        return self.memo[k]

    def flow(self, b, state, env):
        self.bodies.add(b.u)
        ins = {0: {(state, None, None)}}
        todo = [0]
        out = set()
        while todo:
            bb = todo.pop()
            bl = b.blocks[bb]
            if bl.get("cleanup"):
                continue
            cur = set(ins[bb])
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                for l in self.stmt(b, bb, s, env) or ():
                    cur = self.apply(cur, l, (b, bb, s[3] if len(s) > 3 else None))
                if s[1] == [0]:
                    k = None
                    if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].split("::")[-1] == "Result":
                        k = "OE"[s[2][1][2]]
                    elif s[2][0] == "use":
                        k = "tag"
                    cur = {(x, t, t if k == "tag" else k) for x, t, r in cur}
            t = bl["t"]
            if t[0] == "call":
                cur = self.call(b, bb, t, env, cur)
            elif t[0] == "ret":
                out |= {(x, r) for x, tag, r in cur}
            sel = self.fallible(b, bl, t) if t[0] == "switch" else None
            for n in b.succs(bb):
                nxt = cur
                if sel is not None:
                    vals = [v for v, x in t[2] if x == n]
                    rest = {0, 1} - {v for v, x in t[2]} if t[3] == n else set()
                    here = {int(v) for v in vals} | rest
                    nxt = {(x, None, r) for x, tag, r in cur if tag is None or {"O": 0, "E": 1}[tag] in here}
                have = ins.get(n)
                if have is None:
                    if nxt:
                        ins[n] = set(nxt)
                        todo.append(n)
                elif nxt - have:
                    have |= nxt
                    todo.append(n)
        return out

    def fallible(self, b, bl, t):
        """the switch is on whether a fallible call succeeded"""
        o = t[1]
        if o[0] == "k":
            return None
        for s in reversed(bl["s"]):
            if s[0] == "=" and s[1] == o[1] and s[2][0] == "discr" and len(s[2][1]) == 1:
                ty = self.db.types[b.lty(s[2][1][0])]
                if ty["k"] == "adt" and ty["path"].split("::")[-1] in ("Result", "ControlFlow"):
                    return True
        return None

    def apply(self, states, label, where):
        self.nevents[label] = self.nevents.get(label, 0) + 1
        out = set()
        for s, tag, r in states:
            out |= {(x, tag, r) for x in self.step(s, label, where)}
        return out

    def call(self, b, bb, t, env, cur):
        f = t[1][1]["f"] if t[1][0] == "k" and t[1][1].get("c") == "fn" else None
        name = f["name"] if f else ""
        toret = t[3] == [0]
        if name == "branch" and len(t[2]) == 1:
            return cur
        if name == "from_residual" and toret:
            return {(x, None, "E") for x, tag, r in cur}
        cur = {(x, None, None if toret else r) for x, tag, r in cur}
        ev = self.events(b, bb, t, env)
        if ev is not None:
            for l in ev:
                cur = self.apply(cur, l, (b, bb, t[5]))
            return cur
        # closures handed over may run any number of times
        for u in self.closure_args(b, t):
            c = self.db.bodies.get(u)
            if c is None:
                continue
            while True:
                new = set(cur)
                for s, tag, r in cur:
                    new |= {(x, None, r) for x, k in self.summary(c, s, self.bind(b, bb, t, env, c))}
                if new == cur:
                    break
                cur = new
        if f:
            u = (f.get("r") or {}).get("u") or f["u"]
            c = self.db.bodies.get(u)
            if c is not None and c.local:
                out = set()
                for s, tag, r in cur:
                    for x, k in self.summary(c, s, self.bind(b, bb, t, env, c)):
                        out.add((x, k, k if toret else r))
                return out
        return cur

    def closure_args(self, b, t):
        out = []

        def ty(ti, d=0):
            x = self.db.types[ti]
            if x["k"] == "closure":
                out.append(x["path"])
            elif x["k"] in ("ref", "ptr"):
                ty(x["t"], d + 1)
            elif x["k"] == "adt" and d < 4:
                for a in x.get("args", ()):
                    if isinstance(a, int):
                        ty(a, d + 1)
        for a in t[2]:
            if a[0] == "k":
                if isinstance(a[1].get("t"), int):
                    ty(a[1]["t"])
            elif len(a[1]) == 1:
                ty(b.lty(a[1][0]))
        return out
