"""Loads the MIR facts written by driver/ and answers structural questions about them."""
import json


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["path"]] = Body(b, self)
        # trait method -> list of local impl item paths
        self.trait_items = {}
        for im in self.impls:
            for it in im["items"]:
                if it.get("trait_item"):
                    self.trait_items.setdefault(it["trait_item"], []).append((it["item"], im))

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i].get("s", "?")

    def is_test(self, path):
        b = self.bodies.get(path)
        sp = b.span if b else ""
        return "::tests::" in path or "mock_flash" in sp


class Body:
    def __init__(self, b, facts):
        self.facts = facts
        self.path = b["path"]
        self.name = b["name"]
        self.kind = b["kind"]
        self.coroutine = b["coroutine"]
        self.pub = b["pub"]
        self.reachable = b["reachable"]
        self.root = b["root"]
        self.span = b["span"]
        self.preds_s = b["preds"]
        self.argc = b["argc"]
        self.locals = b.get("locals", [])
        self.blocks = b["blocks"]
        self.sig = b.get("sig")
        self.trait_item = b.get("trait_item")
        self.in_trait = b.get("in_trait")
        self.impl_self = b.get("impl_self")
        self._cfg = None

    # ------------------------------------------------------------ control flow
    @staticmethod
    def succs_of(t):
        k = t["t"]
        if k == "goto":
            return [t["to"]]
        if k == "switch":
            return [bb for _, bb in t["vals"]] + ([t["else"]] if t.get("else") is not None else [])
        if k in ("call", "assert", "drop"):
            return [t["to"]] if t.get("to") is not None else []
        return []  # ret, yield (only `Ready` is followed), unreachable, resume, codrop

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Cfg:
    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [Body.succs_of(b["t"]) if not b.get("cleanup") else [] for b in body.blocks]
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.preds[s].append(b)
        self.join = {b for b in order if len(self.preds[b]) > 1}
        self.loop = self._sccs()
        self._live(body)

    def _sccs(self):
        idx, low, st, on, out = {}, {}, [], set(), set()
        cnt = [0]
        for root in self.order:
            if root in idx:
                continue
            work = [(root, 0)]
            while work:
                v, i = work[-1]
                if i == 0:
                    idx[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    on.add(v)
                adv = False
                ss = self.succ[v]
                while i < len(ss):
                    w = ss[i]
                    i += 1
                    if w not in idx:
                        work[-1] = (v, i)
                        work.append((w, 0))
                        adv = True
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in self.succ[v]:
                        out.update(comp)
        return out

    # ------------------------------------------------------------ liveness of locals
    def _live(self, body):
        taken = set()
        use, deff = {}, {}

        def place_use(p, u):
            u.add(p["l"])
            for e in p["p"]:
                if e != "*" and e[0] == "i":
                    u.add(e[1])

        def op_use(o, u):
            for kk in ("cp", "mv"):
                if kk in o:
                    place_use(o[kk], u)

        def rv_use(v, u):
            r = v["r"]
            for kk in ("o", "a", "b"):
                if kk in v and isinstance(v[kk], dict):
                    op_use(v[kk], u)
            for o in v.get("ops", ()):
                op_use(o, u)
            if "p" in v and isinstance(v["p"], dict):
                place_use(v["p"], u)
                if r == "ref" and not v["p"]["p"]:
                    taken.add(v["p"]["l"])
                elif r == "ref" and "*" not in v["p"]["p"]:
                    taken.add(v["p"]["l"])

        # upward exposed uses per block
        for b in self.order:
            blk = body.blocks[b]
            u, d = set(), set()
            for s in blk["s"]:
                uu = set()
                if s["k"] == "=":
                    rv_use(s["v"], uu)
                    if s["p"]["p"]:
                        place_use(s["p"], uu)
                    u |= uu - d
                    if not s["p"]["p"]:
                        d.add(s["p"]["l"])
                elif s["k"] in ("live", "dead"):
                    d.add(s["l"])
                elif s["k"] == "setd":
                    place_use(s["p"], uu)
                    u |= uu - d
            t = blk["t"]
            uu = set()
            if t["t"] == "switch":
                op_use(t["o"], uu)
            elif t["t"] == "call":
                op_use(t["f"], uu)
                for a in t["args"]:
                    op_use(a, uu)
                if t["d"]["p"]:
                    place_use(t["d"], uu)
            elif t["t"] == "assert":
                op_use(t["o"], uu)
            elif t["t"] == "ret":
                uu.add(0)
            u |= uu - d
            if t["t"] == "call" and not t["d"]["p"]:
                d.add(t["d"]["l"])
            use[b], deff[b] = u, d
        live = {b: set() for b in self.order}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.order):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.taken = taken
        self.live_in = live
