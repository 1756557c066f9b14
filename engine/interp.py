"""Whole-program abstract interpretation of MIR with a symbolic value domain (property simulation).

The interpreter propagates abstract states over every control-flow path of an entry point, entering every local callee
(call-string contexts), joining states at control-flow joins whenever the monitor state and the enum/bool shape of the
live memory agree (values that differ become join symbols), and iterating loops to a fixpoint.
It never enumerates concrete inputs, unrolls loops or asks a solver.
"""
import heapq
import time
import sys
from terms import *
import terms as tm

sys.setrecursionlimit(20000)


class Ctx:
    __slots__ = ("parent", "block", "body", "callee", "span", "kids", "depth", "parent_hint")

    def __init__(self, parent, block, body, span, callee=None):
        self.parent, self.block, self.body, self.span, self.callee = parent, block, body, span, callee
        self.kids = {}
        self.parent_hint = None
        self.depth = 0 if parent is None else parent.depth + 1

    def child(self, block, span, callee, body):
        c = self.kids.get((block, body))
        if c is None:
            c = Ctx(self, block, body, span, callee)
            self.kids[(block, body)] = c
        return c

    def under(self, anc):
        c = self
        while c is not None and c.depth >= anc.depth:
            if c is anc:
                return True
            c = c.parent
        return False

    def chain(self):
        out = []
        c = self
        while c is not None:
            out.append((c.body, c.span, c.callee))
            c = c.parent or c.parent_hint
            if len(out) > 60:
                break
        return list(reversed(out))

    def __repr__(self):
        return f"<{self.span}:{self.callee}>"


class AnalysisError(Exception):
    pass


class Canon:
    """Renames the part of a state a callee can see to canonical symbols and storage roots, and back."""

    def __init__(self, I, st, args):
        self.I = I
        self.st = st
        self.symmap = {}
        self.rootmap = {}
        self.order = []
        mem = st.mem
        # what the callee can reach
        reach = []
        seen_roots = set()
        work = list(args)
        for a in args:
            self.number(a)
        self.number(st.mon)
        pend = list(roots_of(tuple(args)) | roots_of(st.mon))
        droots = [r for r in mem if r[0] == "D"]
        while True:
            progressed = False
            while pend:
                r = pend.pop()
                if r in seen_roots:
                    continue
                seen_roots.add(r)
                progressed = True
                self.rootmap[r] = ("C", len(self.rootmap))
                v = mem.get(r)
                if v is not None:
                    reach.append(r)
                    self.number(v)
                    pend.extend(roots_of(v) - seen_roots)
            for r in droots:
                if r not in seen_roots:
                    sy = syms_of(r[1])
                    if not sy or any(y in self.symmap for y in sy):
                        seen_roots.add(r)
                        progressed = True
                        reach.append(r)
                        self.number(r[1])
                        v = mem[r]
                        self.number(v)
                        pend.extend(roots_of(v) - seen_roots)
                        pend.extend(roots_of(r[1]) - seen_roots)
            if not progressed:
                break
        self.reach = reach
        memo = {}
        self.args = [self.fwd(a, memo) for a in args]
        cm = {}
        for r in reach:
            cm[("D", self.fwd(r[1], memo)) if r[0] == "D" else self.rootmap[r]] = self.fwd(mem[r], memo)
        cf = {}
        sm = self.symmap
        for f, v in st.facts.items():
            if all(y in sm or persistent(y) for y in syms_of(f)):
                cf[self.fwd(f, memo)] = self.fwd(v, memo)
        mon = self.fwd(st.mon, memo)
        self.state = State(cm, cf, mon, None)
        self.key = (tuple(self.args), frozenset(cm.items()), frozenset(cf.items()), mon)

    def number(self, x):
        sy = syms_of(x)
        if not sy:
            return
        new = [y for y in sy if y not in self.symmap and not persistent(y)]
        if not new:
            return
        if len(new) > 1:
            # order of first occurrence
            seen = []
            self.occ(x, seen, set(new), set())
            new = seen
        for y in new:
            self.symmap[y] = mk("sym", "$%d" % len(self.symmap), None)

    def occ(self, x, out, want, done):
        if not want:
            return
        if x.__class__ is T:
            if x in done:
                return
            done.add(x)
            if x in want:
                want.discard(x)
                out.append(x)
                return
            if x.tag in SYMTAGS or want.isdisjoint(syms_of(x)):
                return
            for a in x.args:
                if a.__class__ is T or a.__class__ is tuple:
                    self.occ(a, out, want, done)
        elif isinstance(x, (tuple, frozenset)):
            for a in (x if x.__class__ is tuple else sorted(x, key=repr)):
                self.occ(a, out, want, done)

    def fwd(self, x, memo):
        return self.xf(x, memo, self.symmap, self.rootmap, None, None)

    def xf(self, x, memo, sm, rm, R, C):
        cls = x.__class__
        if cls is T:
            r = memo.get(x)
            if r is not None:
                return r
            if x.tag in ("k", "b"):
                return x
            r = sm.get(x)
            if r is None:
                tag = x.tag
                if tag == "sym":
                    r = x
                    if R is not None and x.args[1] is not None:
                        r = mk("sym", x.args[0], reroot(x.args[1], R, C))
                elif tag == "phi":
                    r = mk("phi", reroot(x.args[0], R, C), x.args[1], x.args[2]) if R is not None else x
                elif tag == "stale":
                    r = mk("stale", self.xf(x.args[0], memo, sm, rm, R, C))
                elif tag == "older":
                    r = x
                else:
                    ch = False
                    na = []
                    for a in x.args:
                        c = a.__class__
                        if c is T or c is tuple:
                            n = self.xf(a, memo, sm, rm, R, C)
                            if n is not a:
                                ch = True
                            na.append(n)
                        elif c is Ctx:
                            n = reroot(a, R, C) if R is not None else a
                            if n is not a:
                                ch = True
                            na.append(n)
                        else:
                            na.append(a)
                    r = rebuild(tag, tuple(na)) if ch else x
                    if ch:
                        di = self.I.discr_info
                        if x in di and r not in di:
                            di[r] = di[x]
            memo[x] = r
            return r
        if cls is tuple:
            if x and x.__class__ is tuple and x[0].__class__ is str and x[0] in ("L", "X", "C", "R"):
                r = rm.get(x)
                if r is not None:
                    return r
                return x
            ch = False
            na = []
            for a in x:
                c = a.__class__
                if c is T or c is tuple or c is frozenset:
                    n = self.xf(a, memo, sm, rm, R, C)
                    if n is not a:
                        ch = True
                    na.append(n)
                else:
                    na.append(a)
            return tuple(na) if ch else x
        if cls is frozenset:
            return frozenset(self.xf(a, memo, sm, rm, R, C) for a in x)
        return x

    def instantiate(self, results, R, C):
        sm = {v: k_ for k_, v in self.symmap.items()}
        rm = {v: k_ for k_, v in self.rootmap.items()}
        memo = {}
        out = []
        base = self.st.mem
        for r in self.reach:
            del base[r]
        for i, (s, v) in enumerate(results):
            mem = dict(base)
            for r, x in s.mem.items():
                if r[0] == "C":
                    o = rm.get(r)
                    if o is not None:
                        mem[o] = self.xf(x, memo, sm, rm, R, C)
                elif r[0] == "D":
                    mem[("D", self.xf(r[1], memo, sm, rm, R, C))] = self.xf(x, memo, sm, rm, R, C)
            facts = dict(self.st.facts)
            news = []
            for f, x in s.facts.items():
                f2 = self.xf(f, memo, sm, rm, R, C)
                if f2.tag == "b":
                    continue
                if f2 not in facts:
                    x2 = self.xf(x, memo, sm, rm, R, C)
                    facts[f2] = x2
                    news.append((f2, x2))
            mon = self.xf(s.mon, memo, sm, rm, R, C)
            tr = self.st.trace
            if s.trace is not None:
                tr = (tr, ("sub", s.trace))
            ns = State(mem, facts, mon, tr)
            for f2, x2 in news:
                self.I.substall(ns, f2, x2)
            out.append((ns, self.xf(v, memo, sm, rm, R, C)))
        return out


def persistent(y):
    return y.tag == "sym" and y.args[1] is None and not y.args[0].startswith(("arg:", "$"))


def reroot(c, R, C):
    """The context below C that corresponds to c below R."""
    if c is R:
        return C
    p = c.parent
    if p is None:
        return c
    q = reroot(p, R, C)
    if q is p:
        return c
    return q.child(c.block, c.span, c.callee, c.body)


class State:
    __slots__ = ("mem", "facts", "mon", "trace")

    def __init__(self, mem, facts, mon, trace=None):
        self.mem, self.facts, self.mon, self.trace = mem, facts, mon, trace

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.mon, self.trace)

    def frozen(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.mon)

    # ------------------------------------------------------------ knowledge
    def resolve(self, v):
        if v.tag in ("k", "b", "adt", "ref"):
            return v
        r = self.facts.get(v)
        return r if r is not None else v

    def truth(self, t):
        """TRUE/FALSE/None for a bool term."""
        neg = False
        while t.tag == "not":
            neg = not neg
            t = t.args[0]
        r = self._truth(t)
        if r is None:
            return None
        return r != neg

    def _truth(self, t):
        if t.tag == "b":
            return t.args[0]
        f = self.facts.get(t)
        if f is not None:
            return f.args[0]
        if t.tag == "and":
            a, b = self.truth(t.args[0]), self.truth(t.args[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t.tag == "or":
            a, b = self.truth(t.args[0]), self.truth(t.args[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if t.tag == "lt0":
            return self._lt0(t.args[0])
        if t.tag == "eq0":
            x = t.args[0]
            if self._lt0(x) or self._lt0(scale(x, -1)):
                return False
            if self._ge0(x) and self._ge0(scale(x, -1)):
                return True
            return None
        return None

    def _lt0(self, x, deep=True):
        """x < 0 ?"""
        c, d = tm._lin(x)
        if not d:
            return c < 0
        # sign of all-nonnegative monomials (every symbol denotes an unsigned integer)
        if c >= 0 and all(q > 0 for q in d.values()):
            return False
        if c < 0 and all(q < 0 for q in d.values()):
            return True
        if c == 0 and all(q < 0 for q in d.values()):
            # some monomial made of factors that are not zero
            for m in d:
                if all(self.facts.get(eq0(y)) is FALSE for y in m):
                    return True
        dd = frozenset(d.items())
        neg = frozenset((m, -q) for m, q in d.items())
        for f, val in self.facts.items():
            if f.tag == "lt0":
                cf, df = tm._lin(f.args[0])
                df = frozenset(df.items())
                v = val.args[0]
                if df == dd:
                    # f: cf + D < 0 (v) ; want c + D < 0
                    if v and c <= cf:
                        return True
                    if not v and c >= cf:
                        return False
                elif df == neg:
                    # cf - D < 0 (v): D > cf -> c + D >= 0 if c + cf + 1 >= 0
                    if v and c + cf + 1 >= 0:
                        return False
                    # cf - D >= 0: D <= cf -> c + D <= c + cf < 0
                    if not v and c + cf < 0:
                        return True
            elif f.tag == "eq0" and val.args[0]:
                cf, df = tm._lin(f.args[0])
                df = frozenset(df.items())
                if df == dd:
                    return c - cf < 0
                if df == neg:
                    return c + cf < 0
        if deep:
            # bounds that an operator implies: replace it by its bound, once
            for m, q in d.items():
                if len(m) == 2 and m[0] is not m[1]:
                    # d * (x / d) <= x
                    for y, e in ((m[0], m[1]), (m[1], m[0])):
                        if y.tag == "div" and y.args[1] is e:
                            x2 = add(x, scale(sub(y.args[0], tm.mul(y, e)), q))
                            if q > 0 and self._lt0(x2, False) is True:
                                return True
                            if q < 0 and self._lt0(x2, False) is False:
                                return False
                    continue
                if len(m) != 1 or m[0].tag not in ("max", "min", "rem", "nmo"):
                    continue
                y = m[0]
                a, b = y.args
                if y.tag == "max":
                    lows, highs = (a, b), ()
                elif y.tag == "min":
                    lows, highs = (), (a, b)
                elif y.tag == "rem":
                    lows, highs = (), (sub(b, tm.k(1)), a)
                else:
                    lows, highs = (a,), (add(a, sub(b, tm.k(1))),)
                for z in (lows if q < 0 else highs):
                    if self._lt0(add(x, scale(sub(z, y), q)), False) is True:
                        return True
                for z in (lows if q > 0 else highs):
                    if self._lt0(add(x, scale(sub(z, y), q)), False) is False:
                        return False
            # a recorded bound plus something of known sign
            for f, val in self.facts.items():
                if f.tag == "lt0":
                    cf, df = tm._lin(f.args[0])
                    up = val.args[0]
                    g = -1 if up else 1
                    if g * (c - cf) < 0 or len(df) < 1:
                        continue
                    if all(g * (d.get(m, 0) - q) >= 0 for m, q in df.items()) and all(m in df or g * q >= 0 for m, q in d.items()):
                        return up
            # one rewriting step with a recorded equality
            for f, val in self.facts.items():
                if f.tag == "eq0" and val.args[0]:
                    for y in (f.args[0], scale(f.args[0], -1)):
                        cy, dy = tm._lin(y)
                        if any(d.get(m) == q for m, q in dy.items()):
                            r = self._lt0(sub(x, y), False)
                            if r is not None:
                                return r
        return None

    def _ge0(self, x):
        r = self._lt0(x)
        return r is False

    def same(self, a, b):
        """Definitely the same value."""
        if a is None or b is None:
            return False
        if has_stale(a) or has_stale(b):
            return False
        if a is b:
            return True
        if a.tag in ("adt", "ref", "sl", "cor", "clo") or b.tag in ("adt", "ref", "sl", "cor", "clo"):
            return False
        return self.truth(eq0(sub(a, b))) is True

    def below(self, a, b):
        return not (has_stale(a) or has_stale(b)) and self.truth(lt0(sub(a, b))) is True

    def atmost(self, a, b):
        return not (has_stale(a) or has_stale(b)) and self.truth(lt0(sub(b, a))) is False


_shape_cache = {}


def shape(v):
    s = _shape_cache.get(v)
    if s is not None:
        return s
    g = v.tag
    if g == "b":
        s = v.args[0]
    elif g == "adt":
        s = (v.args[0], v.args[1]) + tuple(shape(a) for a in v.args[2])
    elif g in ("clo", "cor"):
        s = (v.args[0],) + tuple(shape(a) for a in v.args[1])
    elif g == "ref":
        s = ("ref", rootshape(v.args[0]), tuple(e if e[0] == "f" else "i" for e in v.args[1]))
    elif g == "sl":
        s = ("sl", rootshape(v.args[0]))
    elif g == "upd":
        s = ("upd", tuple((kk, shape(a)) for kk, a in v.args[1]))
        if all(x[1] == "_" for x in s[1]):
            s = "_"
    elif g == "fnitem":
        s = ("fn", v.nid)
    elif g == "fut":
        s = ("fut", v.args[0])
    else:
        s = "_"
    _shape_cache[v] = s
    return s


def rootshape(r):
    return r if r[0] != "D" else ("D", r[1].nid if r[1].tag != "older" else 0)


def tshape(x):
    """shape of a monitor value"""
    if isinstance(x, T):
        if x.tag == "b":
            return x.args[0]
        if x.tag == "adt":
            return shape(x)
        return "_"
    if isinstance(x, tuple):
        return tuple(tshape(a) for a in x)
    if isinstance(x, frozenset):
        return frozenset(tshape(a) for a in x)
    return x


class Enough(Exception):
    pass


class Interp:
    def __init__(self, facts, monitor, models):
        self.F = facts
        self.mon = monitor
        monitor.I = self
        self.models = models
        self.memo = {}
        self.stats = {"bodies": set(), "runs": 0, "blocks": 0, "calls": 0, "external": {}, "events": {}, "joins": 0}
        self.visited = {}
        self.canon_root = {}
        self.level = 0
        self.discr_info = {}
        self.const_cache = {}
        self.max_depth = 60
        self.budget = 40_000_000
        self.stop_at = None  # set once a violation is known: the rest of the entry point need not be explored
        self.pin_opaque = False

    # ================================================================ entry
    def run_entry(self, path, args, state, name=None):
        body = self.F.bodies[path]
        root = self.root = Ctx(None, 0, path, body.span, name or path)
        res = self.run(body, root, 0, args, state)
        out = []
        for st, v in res:
            if v.tag == "cor":
                c2 = root.child("poll", body.span, v.args[0], v.args[0])
                out += self.run(self.F.bodies[v.args[0]], c2, 1, [v, mk("sym", "cx", root)], st)
            else:
                out.append((st, v))
        return root, out

    # ================================================================ bodies
    def run(self, body, ctx, depth, args, st):
        """All outcomes of a call: the callee is analysed once per abstract input (up to renaming) and instantiated here."""
        if len(args) != body.argc:
            raise AnalysisError(f"{body.path}: expected {body.argc} arguments, got {len(args)}")
        cn = Canon(self, st, args)
        hit = self.memo.get((body.path, cn.key))
        if hit is None:
            self.level += 1
            if self.level > self.max_depth:
                raise AnalysisError(f"call depth exceeded in {body.path} (recursion?)")
            self.stats["runs"] += 1
            self.stats["bodies"].add(body.path)
            root = self.canon_root.get(body.path)
            if root is None:
                root = self.canon_root[body.path] = Ctx(None, 0, body.path, body.span, body.path)
            root.parent_hint = ctx
            hit = self._run(body, root, 0, cn.args, cn.state)
            self.level -= 1
            self.memo[(body.path, cn.key)] = hit
            q = self.stats.setdefault("per", {}).setdefault(body.path, [0, 0])
            q[0] += 1
            q[1] += len(hit)
        else:
            self.stats["hits"] = self.stats.get("hits", 0) + 1
        return cn.instantiate(hit, self.canon_root[body.path], ctx)

    def _run(self, body, ctx, depth, args, st0):
        cfg = body.cfg
        st = st0.copy()
        for i, a in enumerate(args):
            st.mem[("L", depth, i + 1)] = a
        pools = {}
        heap = []
        queued = set()
        rets = {}
        seq = 0

        def arrive(b, s):
            nonlocal seq
            self.prune(s, body, cfg, depth, b)
            if b not in cfg.join:
                return (b, s)
            self.stats["joins"] += 1
            self.mon.normalize(s)
            s = self.freshen_phis(s, ctx, b)
            kk = self.key(s)
            pool = pools.setdefault(b, {})
            prev = pool.get(kk)
            if prev is None:
                pool[kk] = s
            else:
                m = self.merge(prev, s, ctx, b, body)
                if m is None:
                    return None
                pool[kk] = m
            if (b, kk) not in queued:
                queued.add((b, kk))
                seq += 1
                heapq.heappush(heap, (cfg.rpo[b], seq, b, kk))
            return None

        stack = []
        x = arrive(0, st)
        if x:
            stack.append(x)
        while stack or heap:
            if not stack:
                _, _, b, kk = heapq.heappop(heap)
                queued.discard((b, kk))
                stack.append((b, pools[b][kk].copy()))
            b, s = stack.pop()
            self.stats["blocks"] += 1
            if self.stop_at is not None and not self.stats["blocks"] & 63 and time.time() > self.stop_at:
                raise Enough()
            self.visited.setdefault(body.path, set()).add(b)
            if self.stats["blocks"] > self.budget:
                raise AnalysisError("analysis budget exhausted")
            for nb, ns in self.block(body, ctx, depth, b, s, rets):
                x = arrive(nb, ns)
                if x:
                    stack.append(x)
        return [(s, v) for s, v in rets.values()]

    def prune(self, s, body, cfg, depth, b):
        live = cfg.live_in[b]
        taken = cfg.taken
        dead = [r for r in s.mem if r[0] == "L" and r[1] == depth and r[2] not in live and r[2] not in taken]
        for r in dead:
            del s.mem[r]

    def key(self, s):
        return (self.mon.key(s), frozenset((rootshape(r), shape(v)) for r, v in s.mem.items() if r[0] != "D" or shape(v) != "_"))

    # ------------------------------------------------------------ renaming of re-defined symbols
    def freshen_phis(self, s, ctx, b):
        owned = set()
        for v in s.mem.values():
            for y in syms_of(v):
                if y.tag == "phi" and y.args[0] is ctx and y.args[1] == b:
                    owned.add(y)
        for r in s.mem:
            if r[0] == "D":
                for y in syms_of(r[1]):
                    if y.tag == "phi" and y.args[0] is ctx and y.args[1] == b:
                        owned.add(y)
        for f in s.facts:
            for y in syms_of(f):
                if y.tag == "phi" and y.args[0] is ctx and y.args[1] == b:
                    owned.add(y)
        for y in syms_of(s.mon):
            if y.tag == "phi" and y.args[0] is ctx and y.args[1] == b:
                owned.add(y)
        ren = {}
        for y in owned:
            loc = y.args[2]
            if self.peek(s, loc) is not y:
                ren[y] = mk("stale", y)
        if ren:
            self.rename(s, ren)
        return s

    def peek(self, s, loc):
        root, path = loc
        if root == "mon":
            v = s.mon
            for p in path:
                if isinstance(v, tuple) and p < len(v):
                    v = v[p]
                else:
                    return None
            return v
        v = s.mem.get(root)
        if v is None:
            return None
        for e in path:
            if e[0] == "f":
                if v.tag == "upd":
                    v = dict(v.args[1]).get((e[1], e[2]))
                    if v is None:
                        return None
                else:
                    v = project_f(v, e[1], e[2])
            elif e[0] == "a":  # raw node argument
                if e[1] >= len(v.args):
                    return None
                v = v.args[e[1]]
                if not isinstance(v, T):
                    return None
            else:
                return None
        return v

    def rename(self, s, ren):
        # values already displaced once before are forgotten
        m = dict(ren)
        for a, b in ren.items():
            for _ in range(1, self.mon.ages):
                m[b] = b2 = mk("stale", b)
                b = b2
            m[b] = OLDER
        memo = {}
        mem = {}
        for r, v in s.mem.items():
            if r[0] == "D":
                nr = ("D", subst(r[1], m, memo))
                if has_stale(nr[1]):
                    continue
                r = nr
            mem[r] = subst(v, m, memo)
        s.mem = mem
        nf = {}
        for f, v in s.facts.items():
            f2 = subst(f, m, memo)
            if has_stale(f2) or f2.tag in ("b",):
                continue
            v2 = subst(v, m, memo)
            if not has_stale(v2):
                nf[f2] = v2
        s.facts = nf
        s.mon = subst(s.mon, m, memo)

    def retire(self, s, cctx):
        """The call site cctx is executed again: its previous results become stale."""
        owned = set()

        def scan(v):
            for y in syms_of(v):
                if y.tag == "sym":
                    c = y.args[1]
                elif y.tag == "phi":
                    c = y.args[0]
                else:
                    continue
                if c is not None and c.under(cctx):
                    owned.add(y)

        for r, v in s.mem.items():
            scan(v)
            if r[0] == "D":
                scan(r[1])
        for f in s.facts:
            scan(f)
        scan(s.mon)
        if owned:
            self.rename(s, {y: mk("stale", y) for y in owned})

    # ------------------------------------------------------------ merging
    def merge(self, P, S, ctx, b, body):
        """Least common abstraction of P and S, or None if P already covers S."""
        pairs = {}
        intpairs = []
        changed = [False]

        def newphi(a, c, loc):
            q = pairs.get((a, c))
            if q is None:
                # keep linear relations with join symbols introduced just before
                if a.tag not in ("adt", "ref", "sl", "clo", "cor", "b", "arr"):
                    for (a0, c0), p0 in intpairs:
                        da, dc = sub(a, a0), sub(c, c0)
                        if da is dc:
                            q = add(p0, da)
                            break
                        if a0.tag not in ("k", "lin") and c0.tag not in ("k", "lin"):
                            a2 = subst(a, {a0: p0})
                            if a2 is not a and a2 is subst(c, {c0: p0}):
                                q = a2
                                break
                if q is None:
                    q = mk("phi", ctx, b, loc)
                    if a.tag not in ("adt", "ref", "sl", "clo", "cor", "b", "arr"):
                        intpairs.append(((a, c), q))
                    self.mon.phi_input(q, a, c)
                pairs[(a, c)] = q
            if q is not a:
                changed[0] = True
            return q

        def mv(a, c, loc):
            if a is c:
                return a
            g = a.tag
            if a is OLDER:
                return a
            if c is OLDER:
                changed[0] = True
                return c
            if g == c.tag:
                if g == "adt" and a.args[0] == c.args[0] and a.args[1] == c.args[1] and len(a.args[2]) == len(c.args[2]):
                    return mk("adt", a.args[0], a.args[1], tuple(
                        mv(x, y, (loc[0], loc[1] + (("f", a.args[1], i),))) for i, (x, y) in enumerate(zip(a.args[2], c.args[2]))))
                if g in ("clo", "cor") and a.args[0] == c.args[0] and len(a.args[1]) == len(c.args[1]):
                    return mk(g, a.args[0], tuple(mv(x, y, (loc[0], loc[1] + (("f", 0, i),))) for i, (x, y) in enumerate(zip(a.args[1], c.args[1]))))
                if g == "upd" and a.args[0] is c.args[0]:
                    da, dc = dict(a.args[1]), dict(c.args[1])
                    out = []
                    for kk in sorted(set(da) | set(dc)):
                        x = da.get(kk, None) or project_f(a.args[0], *kk)
                        y = dc.get(kk, None) or project_f(c.args[0], *kk)
                        if kk not in da and x is not y:
                            changed[0] = True
                        z = mv(x, y, (loc[0], loc[1] + (("f",) + kk,)))
                        out.append((kk, z))
                        if kk not in da:
                            changed[0] = True
                    return mk("upd", a.args[0], tuple(out))
                if g == "sl" and a.args[0] == c.args[0] and a.args[1] == c.args[1]:
                    return mk("sl", a.args[0], a.args[1], mv(a.args[2], c.args[2], (loc[0], loc[1] + (("a", 2),))),
                              mv(a.args[3], c.args[3], (loc[0], loc[1] + (("a", 3),))))
                if g == "fut" and a.args[0] == c.args[0] and len(a.args) == len(c.args) and a.args[1] is c.args[1]:
                    return mk("fut", a.args[0], a.args[1], *(mv(x, y, (loc[0], loc[1] + (("a", i + 2),))) for i, (x, y) in enumerate(zip(a.args[2:], c.args[2:]))))
            elif g == "upd" and a.args[0] is c:
                out = []
                for kk, x in a.args[1]:
                    out.append((kk, mv(x, project_f(c, *kk), (loc[0], loc[1] + (("f",) + kk,)))))
                return mk("upd", c, tuple(out))
            elif c.tag == "upd" and c.args[0] is a:
                out = []
                for kk, y in c.args[1]:
                    changed[0] = True
                    out.append((kk, mv(project_f(a, *kk), y, (loc[0], loc[1] + (("f",) + kk,)))))
                return mk("upd", a, tuple(out))
            if loc[0] == "mon" and g not in ("adt", "sym") and c.tag not in ("adt", "sym"):
                # equal on one side: the other side's term says it for both
                if S.same(a, c):
                    return a
                if P.same(a, c):
                    changed[0] = True
                    return c
            return newphi(a, c, loc)

        mem = {}
        for r in sorted(set(P.mem) | set(S.mem), key=rootkey):
            a, c = P.mem.get(r), S.mem.get(r)
            if a is None or c is None:
                if r[0] == "D":
                    d = mk("deref", r[1])
                    a = a or d
                    c = c or d
                    if r not in P.mem and a is not c:
                        changed[0] = True
                else:
                    # storage that is live on one side only cannot be read afterwards
                    if a is not None:
                        changed[0] = True
                    continue
            mem[r] = mv(a, c, (r, ()))

        def mt(a, c, path):
            if a is c or (not isinstance(a, T) and a == c):
                return a
            if isinstance(a, tuple) and isinstance(c, tuple) and len(a) == len(c):
                return tuple(mt(x, y, path + (i,)) for i, (x, y) in enumerate(zip(a, c)))
            if isinstance(a, T) and isinstance(c, T):
                return mv(a, c, ("mon", path))
            raise AnalysisError(f"monitor states with one key do not merge: {a} / {c}")

        mon = mt(P.mon, S.mon, ())
        # facts: keep what holds on both sides
        back = {}  # join symbol of this block -> its value in S
        for (a, c), q in pairs.items():
            if q.tag == "phi":
                back.setdefault(q, c)
        for y in set().union(*[syms_of(v) for v in P.mem.values()], *[syms_of(f) for f in P.facts]) if P.mem else ():
            if y.tag == "phi" and y.args[0] is ctx and y.args[1] == b and y not in back:
                v = self.peek(S, y.args[2])
                if v is not None and v is not y:
                    back[y] = v
        facts = {}
        for f, v in P.facts.items():
            f2 = subst(f, back) if back else f
            ok_ = False
            if S.facts.get(f2) is v:
                ok_ = True
            elif v.tag == "b":
                if f2.tag == "b":
                    ok_ = f2 is v
                elif not has_stale(f2):
                    t = S.truth(f2)
                    ok_ = t is not None and t == v.args[0]
            if ok_:
                facts[f] = v
            else:
                changed[0] = True
        # facts about the new join symbols
        for (a, c), q in pairs.items():
            if q.tag != "phi" or q is a:
                continue
            for f, v in S.facts.items():
                if v.tag != "b" or c.tag in ("k",) or f in facts:
                    continue
                f2 = subst(f, {c: q})
                if f2 is f or f2 in facts or f2.tag == "b":
                    continue
                fp = subst(f2, {q: a})
                if fp.tag == "b":
                    t = fp.args[0]
                else:
                    t = None if has_stale(fp) else P.truth(fp)
                if t is not None and t == v.args[0]:
                    facts[f2] = v
            if a.tag != "k":
                for f, v in P.facts.items():
                    if v.tag != "b":
                        continue
                    f2 = subst(f, {a: q})
                    if f2 is f or f2 in facts or f2.tag == "b":
                        continue
                    fs = subst(f2, back)
                    if fs.tag == "b":
                        t = fs.args[0]
                    else:
                        t = None if has_stale(fs) else S.truth(fs)
                    if t is not None and t == v.args[0]:
                        facts[f2] = v
        if not changed[0]:
            return None
        m = State(mem, facts, mon, P.trace)
        self.gc(m)
        return m

    def gc(self, s, extra=None):
        """Forget facts about values nothing refers to any more."""
        alive = set(syms_of(s.mon))
        for r, v in s.mem.items():
            alive |= syms_of(v)
            if r[0] == "D":
                alive |= syms_of(r[1])
        if extra is not None:
            alive |= syms_of(extra)
        s.facts = {f: v for f, v in s.facts.items()
                   if all(y in alive or (y.tag == "sym" and y.args[1] is None) for y in syms_of(f))}

    # ================================================================ blocks
    def block(self, body, ctx, depth, b, s, rets):
        blk = body.blocks[b]
        for stmt in blk["s"]:
            kk = stmt["k"]
            if kk == "=":
                v = self.rvalue(s, body, depth, stmt["v"], ctx, b, stmt)
                if v is not None:
                    self.write_place(s, depth, stmt["p"], v, body)
            elif kk == "dead":
                s.mem.pop(("L", depth, stmt["l"]), None)
            elif kk == "live":
                s.mem.pop(("L", depth, stmt["l"]), None)
        t = blk["t"]
        k_ = t["t"]
        if k_ == "goto":
            return [(t["to"], s)]
        if k_ == "drop":
            return [(t["to"], s)]
        if k_ == "switch":
            return self.switch(s, depth, t, body)
        if k_ == "assert":
            c = self.operand(s, depth, t["o"], body)
            if s.truth(c) is not t["exp"]:
                self.mon.on_assert(s, ctx.child(b, t.get("sp", ""), "assert", body.path), t["msg"], c)
            s2 = self.assume(s, c, t["exp"])
            return [(t["to"], s2)] if s2 else []
        if k_ == "call":
            out = []
            if t.get("to") is None:
                # diverging call (panic)
                self.mon.on_diverge(s, ctx.child(b, t.get("sp", ""), fname(t), body.path))
                return []
            cctx = ctx.child(b, t.get("sp", ""), fname(t), body.path)
            if b in body.cfg.loop:
                self.retire(s, cctx)
            args = [self.operand(s, depth, a, body) for a in t["args"]]
            fv = self.operand(s, depth, t["f"], body)
            dl = t["d"]["l"] if not t["d"]["p"] else None
            self.prune_after(s, body, depth, b, t)
            self.stats["calls"] += 1
            for ns, v in self.call(s, cctx, depth, fv, args, t, body):
                self.write_place(ns, depth, t["d"], v, body)
                out.append((t["to"], ns))
            return out
        if k_ == "ret":
            v = s.mem.get(("L", depth, 0), UNIT)
            if self.mon.on_ret(s, body, v) is False:
                return []
            self.mon.normalize(s)
            s.mem = {r: x for r, x in s.mem.items() if not (r[0] == "L" and r[1] >= depth)}
            # the return value takes part in the merge as a pseudo root
            s.mem[("R", depth)] = v
            s = self.freshen_phis(s, ctx, "ret")
            self.gc(s)
            kk = self.key(s)
            prev = rets.get(kk)
            if prev is not None:
                p = prev[0].copy()
                p.mem[("R", depth)] = prev[1]
                m = self.merge(p, s, ctx, "ret", body)
                s = m if m is not None else p
            v = s.mem.pop(("R", depth))
            rets[kk] = (s, v)
            return []
        if k_ == "yield":
            return []
        return []

    def prune_after(self, s, body, depth, b, t):
        to = t.get("to")
        live = body.cfg.live_in.get(to, ())
        taken = body.cfg.taken
        keep = t["d"]["l"]
        dead = [r for r in s.mem if r[0] == "L" and r[1] == depth and r[2] not in live and r[2] not in taken and r[2] != keep]
        for r in dead:
            del s.mem[r]

    def switch(self, s, depth, t, body):
        v = self.operand(s, depth, t["o"], body)
        vals = [(int(x), bb) for x, bb in t["vals"]]
        els = t.get("else")
        if els is not None and body.blocks[els]["t"]["t"] == "unreachable":
            els = None
        if v.tag in ("k", "b"):
            n = int(v.args[0])
            for x, bb in vals:
                if x == n:
                    return [(bb, s)]
            return [(els, s)] if els is not None else []
        out = []
        if v.tag == "discr":
            V = v.args[0]
            seen = []
            excl = [x for x in range(64) if s.truth(eq0(sub(v, k(x)))) is False] if any(f.tag == "eq0" for f in s.facts) else []
            for x, bb in vals:
                seen.append(x)
                if x in excl:
                    continue
                s2 = self.refine(s.copy(), V, x)
                if s2:
                    out.append((bb, s2))
            if els is not None:
                s2 = s.copy()
                rest = self.other_variants(V, set(seen) | set(excl))
                if rest is not None and len(rest) == 0:
                    return out
                if rest is not None and len(rest) == 1:
                    s2 = self.refine(s2, V, rest[0])
                else:
                    for x in seen:
                        s2.facts[eq0(sub(v, k(x)))] = FALSE
                out.append((els, s2))
            return out
        tyk = t.get("ty")
        is_bool = isinstance(tyk, int) and self.F.ty(tyk).get("k") == "bool"
        if is_bool or v.tag in ("lt0", "eq0", "not", "unkb", "and", "or"):
            for x, bb in vals:
                s2 = self.assume(s.copy(), v, bool(x))
                if s2:
                    out.append((bb, s2))
            if els is not None:
                left = {0, 1} - {x for x, _ in vals}
                for x in left:
                    s2 = self.assume(s.copy(), v, bool(x))
                    if s2:
                        out.append((els, s2))
            return out
        for x, bb in vals:
            s2 = self.assume(s.copy(), eq(v, k(x)), True)
            if s2:
                out.append((bb, s2))
        if els is not None:
            s2 = s.copy()
            for x, _ in vals:
                s2 = self.assume(s2, eq(v, k(x)), False)
                if s2 is None:
                    break
            if s2:
                out.append((els, s2))
        return out

    # ------------------------------------------------------------ knowledge about values
    def assume(self, s, c, val):
        while c.tag == "not":
            c = c.args[0]
            val = not val
        t = s.truth(c)
        if t is not None:
            return s if t == val else None
        if c.tag == "ovf":
            if not val and c.args[0] == "Sub":
                return self.assume(s, lt0(sub(c.args[1], c.args[2])), False)
            return s
        if (c.tag == "and" and val) or (c.tag == "or" and not val):
            s = self.assume(s, c.args[0], val)
            return self.assume(s, c.args[1], val) if s else None
        if c.tag == "unkb" or has_stale(c):
            return s
        if c.tag == "eq0" and c.args[0].tag in ("lin", "discr"):
            # comparison of an enum discriminant with a constant
            cc, d = tm._lin(c.args[0])
            if len(d) == 1:
                (m, q), = d.items()
                if len(m) == 1 and m[0].tag == "discr" and q in (1, -1):
                    x = -cc * q
                    if val:
                        return self.refine(s, m[0].args[0], x)
                    rest = self.other_variants(m[0].args[0], {y for y in range(64) if y == x or s.truth(eq0(sub(m[0], k(y)))) is False})
                    if rest is not None and len(rest) == 1:
                        return self.refine(s, m[0].args[0], rest[0])
        if val and c.tag == "eq0" and c.args[0].tag == "nmo" and not has_stale(c):
            s = self.assume(s, eq0(c.args[0].args[0]), True)
            if s is None or s.truth(c) is not None:
                return s
        s.facts[c] = TRUE if val else FALSE
        self.substall(s, c, TRUE if val else FALSE)
        if c.tag == "eq0":
            self.mon.on_equal(s, c.args[0], val)
        return s

    def substall(self, s, old, new):
        sy = syms_of(old)
        m = {old: new}
        memo = {}
        for r, v in list(s.mem.items()):
            if sy <= syms_of(v):
                n = subst(v, m, memo)
                if n is not v:
                    s.mem[r] = n

    def other_variants(self, V, seen):
        info = self.discr_info.get(V)
        if info is None:
            return None
        path, variants = info
        return [d for d, _ in variants if d not in seen]

    def refine(self, s, V, discr):
        info = self.discr_info.get(V)
        if info is None:
            new = mk("var", V, discr)
        else:
            path, variants = info
            for i, (d, nf) in enumerate(variants):
                if d == discr:
                    new = adt(path, i, [project_f(V, i, j) for j in range(nf)])
                    break
            else:
                return None
        if V.tag in SYMTAGS or V.tag in ("fld", "deref", "elem", "app", "upd"):
            s.facts[V] = new
        self.substall(s, V, new)
        return s

    def enum_info(self, ty):
        t = self.F.ty(ty)
        while t.get("k") == "ref":
            t = self.F.ty(t["t"])
        if t.get("k") != "adt":
            return None
        p = t["p"]
        if p in (OPT,):
            return (OPT, [(0, 0), (1, 1)])
        if p == RES:
            return (RES, [(0, 1), (1, 1)])
        if p == POLL:
            return (POLL, [(0, 1), (1, 0)])
        if p == CF:
            return (CF, [(0, 1), (1, 1)])
        a = self.F.adts.get(p)
        if a and a["kind"] == "enum":
            return (p, [(int(v["discr"]) if v.get("discr") is not None else i, len(v["fields"])) for i, v in enumerate(a["variants"])])
        return None

    def discr_of(self, s, v, ty):
        v = s.resolve(v)
        if v.tag == "adt":
            a = self.F.adts.get(v.args[0])
            if a and a["kind"] == "enum":
                d = a["variants"][v.args[1]].get("discr")
                return k(int(d)) if d is not None else k(v.args[1])
            return k(v.args[1])
        if v.tag == "var":
            return k(v.args[1])
        if v not in self.discr_info and ty is not None:
            self.discr_info[v] = self.enum_info(ty)
        return mk("discr", v)

    # ================================================================ places
    def place(self, s, depth, p):
        root, path, win = ("L", depth, p["l"]), (), None
        variant = 0
        for e in p["p"]:
            if e == "*":
                v = self.load(s, root, path)
                if v.tag == "ref":
                    root, path, win = v.args[0], v.args[1], None
                elif v.tag == "sl":
                    root, path, win = v.args[0], v.args[1], (v.args[2], v.args[3])
                else:
                    root, path, win = ("D", v), (), None
                variant = 0
            elif e[0] == "f":
                path = path + (("f", variant, e[1]),)
                variant = 0
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                i = self.load(s, ("L", depth, e[1]), ())
                if win:
                    i = add(win[0], i)
                    win = None
                path = path + (("i", i),)
            elif e[0] == "c":
                i = k(e[1])
                if e[2]:
                    n = win[1] if win else self.arr_len(s, root, path)
                    i = sub(n, i)
                if win:
                    i = add(win[0], i)
                    win = None
                path = path + (("i", i),)
            elif e[0] == "s":
                lo, hi, fe = e[1], e[2], e[3]
                n = win[1] if win else self.arr_len(s, root, path)
                base = win[0] if win else k(0)
                ln = sub(sub(n, k(lo)), k(hi)) if fe else k(hi - lo)
                win = (add(base, k(lo)), ln)
            else:
                raise AnalysisError(f"unknown projection {e}")
        return root, path, win

    def arr_len(self, s, root, path):
        v = self.load(s, root, path)
        return self.value_len(s, v, root, path)

    def value_len(self, s, v, root=None, path=()):
        if v.tag == "arr" and v.args[1] is not None:
            return v.args[1]
        if v.tag == "le":
            return v.args[0]
        if v.tag == "bytes" or v.tag == "subarr":
            return v.args[-1]
        if root is not None and root[0] == "D" and not path:
            return mk("len", root[1])
        return mk("len", v)

    def load(self, s, root, path):
        v = s.mem.get(root)
        if v is None:
            if root[0] == "D":
                v = mk("deref", root[1])
            elif root[0] == "L":
                v = UNDEF
            else:
                v = mk("deref", mk("root", root))
        v = s.resolve(v)
        for e in path:
            if e[0] == "f":
                v = s.resolve(project_f(v, e[1], e[2]))
            else:
                v = s.resolve(self.elem(s, v, e[1]))
        return v

    def elem(self, s, v, i):
        if v.tag == "arr":
            base, n, ovs = v.args
            for lo, ln, c in reversed(ovs):
                if ln is k(1) and s.same(lo, i) and c.tag == "byte1":
                    return c.args[0]
                if s.below(i, lo) or s.atmost(add(lo, ln), i):
                    continue
                return mk("elem", v, i)
            if base.tag == "rep":
                return base.args[0]
            if base.tag == "lit" and is_k(i) and i.args[0] < len(base.args[0]):
                return base.args[0][i.args[0]]
            return mk("elem", base, i)
        return mk("elem", v, i)

    def store(self, s, root, path, val):
        if not path:
            s.mem[root] = val
            return
        cur = s.mem.get(root)
        if cur is None:
            cur = mk("deref", root[1]) if root[0] == "D" else UNDEF
        s.mem[root] = self.update(s, cur, path, val)

    def update(self, s, v, path, val):
        if not path:
            return val
        v = s.resolve(v)
        e = path[0]
        if e[0] == "f":
            _, var, idx = e
            old = s.resolve(project_f(v, var, idx))
            new = self.update(s, old, path[1:], val)
            if v.tag == "adt" and idx < len(v.args[2]) and v.args[1] == var:
                fl = list(v.args[2])
                fl[idx] = new
                return adt(v.args[0], v.args[1], fl)
            if v.tag in ("clo", "cor") and idx < len(v.args[1]):
                fl = list(v.args[1])
                fl[idx] = new
                return mk(v.tag, v.args[0], tuple(fl))
            if v.tag == "upd":
                d = dict(v.args[1])
                d[(var, idx)] = new
                return mk("upd", v.args[0], tuple(sorted(d.items())))
            if v.tag == "undef":
                return mk("upd", v, (((var, idx), new),))
            return mk("upd", v, (((var, idx), new),))
        i = e[1]
        if path[1:]:
            old = s.resolve(self.elem(s, v, i))
            val = self.update(s, old, path[1:], val)
        return self.overlay(s, v, i, k(1), mk("byte1", val))

    def overlay(self, s, v, lo, ln, content):
        if v.tag == "arr":
            base, n, ovs = v.args
        else:
            base, n, ovs = v, None, ()
        if lo is k(0) and n is not None and s.same(n, ln):
            return mk("arr", content, n, ())
        keep = tuple(o for o in ovs if not (s.same(o[0], lo) and s.same(o[1], ln)))
        if len(keep) > 10:
            keep = ()
            base = OLDER
        return mk("arr", base, n, keep + ((lo, ln, content),))

    def write_place(self, s, depth, p, v, body):
        root, path, win = self.place(s, depth, p)
        self.store(s, root, path, v)

    # ================================================================ operands / rvalues
    def operand(self, s, depth, o, body):
        if "c" in o:
            return self.const(o["c"])
        pl = o.get("mv") or o.get("cp")
        root, path, win = self.place(s, depth, pl)
        v = self.load(s, root, path)
        if v.tag in ("lt0", "eq0", "not", "and", "or", "unkb"):
            t = s.truth(v)
            if t is not None:
                v = TRUE if t else FALSE
        if "mv" in o and not pl["p"]:
            s.mem.pop(("L", depth, pl["l"]), None)
        return v

    def const(self, c):
        kk = c["k"]
        if kk == "fn":
            return mk("fnitem", FnRef.of(c))
        if kk in ("val", "uneval", "tyconst"):
            t = self.F.ty(c["ty"]) if isinstance(c.get("ty"), int) else {}
            val = c.get("v")
            if val is not None and t.get("k") == "bool":
                return TRUE if str(val) in ("1", "true") else FALSE
            if val is not None and t.get("k") in ("int", "uint", "char"):
                return k(int(val))
            if t.get("k") == "tuple" and not t.get("args", t.get("a", ())):
                return UNIT
            if c.get("path"):
                r = self.const_item(c["path"])
                if r is not None:
                    return r
                return mk("sym", c["path"].split("::")[-1], None)
            if t.get("k") == "adt":
                a = self.F.adts.get(t["p"])
                if a and a["kind"] == "struct" and not a["variants"][0]["fields"]:
                    return adt(t["p"], 0, ())
            if t.get("k") == "fndef":
                return mk("const", str(c.get("s")))
            return mk("const", str(c.get("s")), str(t.get("s")))
        return mk("const", str(c.get("s")))

    def const_item(self, path):
        if path in self.const_cache:
            return self.const_cache[path]
        self.const_cache[path] = None
        b = self.F.bodies.get(path)
        if b is not None and b.argc == 0:
            sub_ = Interp(self.F, NullMonitor(), self.models)
            sub_.const_cache = self.const_cache
            sub_.discr_info = self.discr_info
            try:
                res = sub_.run(b, Ctx(None, 0, path, b.span, path), 0, [], State({}, {}, ()))
            except AnalysisError:
                res = []
            if len(res) == 1 and not [y for y in syms_of(res[0][1]) if y.args[1] is not None or y.tag != "sym"] and res[0][1].tag != "undef":
                self.const_cache[path] = res[0][1]
        return self.const_cache[path]

    def rvalue(self, s, body, depth, v, ctx, b, stmt):
        r = v["r"]
        if r == "use":
            return self.operand(s, depth, v["o"], body)
        if r == "ref" or r == "addrof" or r == "raw":
            root, path, win = self.place(s, depth, v["p"])
            if win is not None:
                return sl(root, path, win[0], win[1])
            if root[0] == "D" and not path:
                return root[1]
            return ref(root, path)
        if r == "cast":
            x = self.operand(s, depth, v["o"], body)
            return self.cast(s, x, v)
        if r == "bin":
            a = self.operand(s, depth, v["a"], body)
            c = self.operand(s, depth, v["b"], body)
            return self.binop(s, v["op"], a, c)
        if r == "un":
            a = self.operand(s, depth, v["o"], body)
            if v["op"] == "Not":
                if a.tag == "k":
                    return mk("bin", "Not", a)
                return not_(a)
            if v["op"] == "PtrMetadata":
                return self.slen(s, a)
            if v["op"] == "Neg":
                return scale(a, -1)
            return mk("un", v["op"], a)
        if r == "discr":
            root, path, win = self.place(s, depth, v["p"])
            return self.discr_of(s, self.load(s, root, path), v.get("ty"))
        if r == "agg":
            ops = tuple(self.operand(s, depth, o, body) for o in v["ops"])
            kk = v["k"]
            if kk == "adt":
                return adt(v["path"], v.get("v", 0) or 0, ops)
            if kk == "tuple":
                return tup(*ops)
            if kk == "array":
                return mk("arr", mk("lit", ops), k(len(ops)), ())
            if kk == "closure":
                return mk("clo", v["path"], ops)
            if kk in ("coroutine", "coroutineclosure"):
                return mk("cor", v["path"], ops)
            return mk("agg", kk, ops)
        if r == "repeat":
            x = self.operand(s, depth, v["o"], body)
            n = v.get("n")
            if isinstance(n, dict):
                n = self.const(n)
            elif n is not None:
                try:
                    n = k(int(n))
                except (ValueError, TypeError):
                    n = mk("sym", str(n), None)
            return mk("arr", mk("rep", x), n, ())
        if r == "len":
            root, path, win = self.place(s, depth, v["p"])
            return win[1] if win else self.arr_len(s, root, path)
        return mk("opaque", r, str(stmt.get("sp")))

    def slen(self, s, a):
        if a.tag == "sl":
            return a.args[3]
        if a.tag == "ref":
            return self.value_len(s, self.load(s, a.args[0], a.args[1]))
        return mk("len", a)

    BITS = {"u8": 8, "u16": 16, "i8": 8, "i16": 16}

    def cast(self, s, x, v):
        kd = v["k"] if isinstance(v["k"], str) else str(v["k"])
        to = self.F.tystr(v["ty"])
        if "IntToInt" in kd:
            if x.tag == "b":
                return k(int(x.args[0]))
            if x.tag in ("lt0", "eq0", "not", "and", "or", "unkb"):
                return mk("b2i", x)
            fr = self.F.tystr(v["from"]) if isinstance(v.get("from"), int) else str(v.get("from"))
            if to in self.BITS:
                if fr in self.BITS and self.BITS[fr] <= self.BITS[to] and fr[0] == to[0]:
                    return x
                if is_k(x) and 0 <= x.args[0] < 2 ** self.BITS[to]:
                    return x
                if s.truth(lt(x, k(2 ** self.BITS[to]))) is True:
                    return x
                self.mon.on_narrow(s, x, to)
                return mk("trunc", self.BITS[to], x)
            return x
        if "Unsize" in kd:
            if x.tag == "ref":
                val = self.load(s, x.args[0], x.args[1])
                tt = self.F.ty(v["ty"])
                inner = self.F.ty(tt["t"]) if tt.get("k") == "ref" else {}
                if inner.get("k") in ("slice", "str"):
                    return sl(x.args[0], x.args[1], k(0), self.value_len(s, val))
            return x
        return x

    def binop(self, s, op, a, c):
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            f = {"A": add, "S": sub, "M": mul}[op[0]]
            o = op[:3]
            r = f(a, c)
            fl = FALSE
            if not (is_k(a) and is_k(c) and r.args[0] >= 0):
                fl = mk("ovf", o, a, c)
            return tup(r, fl)
        if op in ("Add", "AddUnchecked"):
            return add(a, c)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, c)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, c)
        if op == "Div":
            return div(a, c)
        if op == "Rem":
            return rem(a, c)
        if op in ("Lt", "Gt", "Le", "Ge"):
            if op == "Gt":
                return lt(c, a)
            if op == "Lt":
                return lt(a, c)
            if op == "Le":
                return le(a, c)
            return le(c, a)
        if op in ("Eq", "Ne"):
            r = self.eqv(s, a, c)
            return r if op == "Eq" else not_(r)
        if op in ("BitAnd", "BitOr", "BitXor") and (isbool(a) or isbool(c)):
            if op == "BitAnd":
                return and_(a, c)
            if op == "BitOr":
                return or_(a, c)
            return not_(self.eqv(s, a, c))
        if is_k(a) and is_k(c):
            x, y = a.args[0], c.args[0]
            try:
                r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << y if y < 256 else 0, "Shr": x >> y if y < 256 else 0}.get(op)
            except Exception:
                r = None
            if r is not None:
                return k(r)
        return mk("bin", op, a, c)

    def eqv(self, s, a, c):
        if a.tag == "b" or c.tag == "b":
            if a.tag == "b" and c.tag == "b":
                return TRUE if a is c else FALSE
            x, y = (a, c) if a.tag == "b" else (c, a)
            return y if x.args[0] else not_(y)
        if isbool(a) or isbool(c):
            return TRUE if a is c and not has_stale(a) else mk("eqv", *sorted((a, c), key=lambda z: z.nid))
        if a.tag in ("adt", "ref", "sl", "arr", "clo") or c.tag in ("adt", "ref", "sl", "arr", "clo"):
            return self.struct_eq(s, a, c)
        return eq(a, c)

    def struct_eq(self, s, a, c):
        """Equality of aggregates, component-wise."""
        a, c = s.resolve(a), s.resolve(c)
        if a is c and not has_stale(a):
            return TRUE
        if a.tag == "adt" and c.tag == "adt":
            if a.args[1] != c.args[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.args[2], c.args[2]):
                r = and_(r, self.eqv(s, x, y))
            return r
        return mk("eqv", *sorted((a, c), key=lambda z: z.nid))

    # ================================================================ calls
    def call(self, s, cctx, depth, fv, args, t, body):
        if fv.tag == "fnitem":
            return self.call_fn(s, cctx, depth, fv.args[0], args, t.get("dty"), t.get("argtys"))
        return self.call_value(s, cctx, depth, fv, args, t.get("dty"))

    def call_value(self, s, cctx, depth, f, args, dty=None):
        """Call a closure / function value with untupled arguments."""
        f0 = f
        frefs = None
        while f.tag == "ref":
            frefs = f
            f = self.load(s, f.args[0], f.args[1])
        if f.tag == "clo":
            b = self.F.bodies[f.args[0]]
            lt_ = self.F.ty(b.locals[1]["ty"])
            if lt_.get("k") == "ref":
                if frefs is None:
                    root = ("X", "clo", cctx)
                    s.mem[root] = f
                    me = ref(root, ())
                else:
                    me = frefs
            else:
                me = f
            sub_ = cctx.child("clo", b.span, f.args[0], f.args[0])
            out = []
            for ns, v in self.run(b, sub_, depth + 1, [me] + list(args), s):
                ns.mem.pop(("X", "clo", cctx), None)
                out.append((ns, v))
            return out
        if f.tag == "fnitem":
            return self.call_fn(s, cctx, depth, f.args[0], args, dty, None)
        return [(s, self.fresh(cctx, "ret", dty))]

    def resolve_fn(self, fr):
        """Body to inline for a function reference, or None."""
        for p in (fr.resolved, fr.path):
            if p and p in self.F.bodies:
                b = self.F.bodies[p]
                if not (fr.trait and p == fr.path and b.in_trait):
                    return b
        if fr.trait:
            items = self.F.trait_items.get(fr.path, [])
            if len(items) == 1:
                return self.F.bodies.get(items[0][0])
        return None

    def call_fn(self, s, cctx, depth, fr, args, dty, argtys):
        m = self.mon.intercept(self, s, cctx, fr, args, dty)
        if m is not None:
            return m
        b = self.resolve_fn(fr)
        if b is not None and not (fr.trait and fr.self_generic and len(self.F.trait_items.get(fr.path, [])) > 1):
            return self.run(b, cctx, depth + 1, args, s)
        h = self.models.lookup(fr)
        if h is not None:
            r = h(self, s, cctx, depth, fr, args, dty)
            if r is not None:
                return r
        if fr.trait and fr.path in self.F.bodies and self.F.bodies[fr.path].in_trait and len(self.F.trait_items.get(fr.path, [])) == 0:
            return self.run(self.F.bodies[fr.path], cctx, depth + 1, args, s)
        c = self.ctor(fr)
        if c is not None:
            return [(s, adt(c[0], c[1], list(args)))]
        # unknown external: opaque result, mutable arguments are overwritten, closures may run
        self.stats["external"][fr.path] = self.stats["external"].get(fr.path, 0) + 1
        return self.unknown(s, cctx, depth, args, dty, argtys)

    def ctor(self, fr):
        """(adt, variant) if the function is the constructor of a tuple struct or tuple variant."""
        import re
        p = re.sub(r"::<.*?>(?=::|$)", "", fr.path)
        a = self.F.adts.get(p)
        if a is not None and a["kind"] == "struct":
            return p, 0
        if "::" in p:
            q, n = p.rsplit("::", 1)
            a = self.F.adts.get(q)
            if a is not None and a["kind"] == "enum":
                for i, v in enumerate(a["variants"]):
                    if v["name"] == n:
                        return q, i
        return None

    def unknown(self, s, cctx, depth, args, dty, argtys):
        states = [s]
        for i, a in enumerate(args):
            mut = False
            if argtys:
                ty = self.F.ty(argtys[i])
                mut = ty.get("k") == "ref" and ty.get("mut")
            if mut and a.tag in ("ref", "sl"):
                for s_ in states:
                    if a.tag == "sl":
                        self.write_slice(s_, a, mk("sym", f"havoc{i}", cctx))
                    else:
                        self.store(s_, a.args[0], a.args[1], mk("sym", f"havoc{i}", cctx))
            elif mut:
                for s_ in states:
                    s_.mem[("D", a)] = mk("sym", f"havoc{i}", cctx)
            if a.tag == "clo":
                nxt = []
                b = self.F.bodies[a.args[0]]
                for s_ in states:
                    nxt.append(s_.copy())
                    cargs = [mk("sym", f"cloarg{j}", cctx) for j in range(b.argc - 1)]
                    nxt += [x for x, _ in self.call_value(s_, cctx, depth, a, cargs)]
                states = nxt
        return [(s_, self.fresh(cctx, "ret", dty)) for s_ in states]

    def fresh(self, cctx, name, dty=None):
        if dty is not None:
            t = self.F.ty(dty)
            if t.get("k") == "tuple" and not t.get("args", t.get("a", ())):
                return UNIT
        return mk("sym", name, cctx)

    # ------------------------------------------------------------ helpers for models
    def split(self, s, v, info):
        """[(state, variant, payload or None)] for a value of an enum type."""
        v = s.resolve(v)
        if v.tag == "adt":
            return [(s, v.args[1], v.args[2][0] if v.args[2] else None)]
        if v.tag == "var":
            return [(s, v.args[1], project_f(v, v.args[1], 0))]
        self.discr_info.setdefault(v, info)
        if self.discr_info[v] is None:
            self.discr_info[v] = info
        out = []
        for i, (d, nf) in enumerate(info[1]):
            s2 = self.refine(s.copy(), v, d)
            if s2:
                out.append((s2, i, project_f(v, i, 0) if nf else None))
        return out

    def deref(self, s, v):
        if v.tag == "ref":
            return self.load(s, v.args[0], v.args[1])
        if v.tag == "sl":
            return v
        return self.load(s, ("D", v), ())

    def set_deref(self, s, v, val):
        if v.tag == "ref":
            self.store(s, v.args[0], v.args[1], val)
        else:
            self.store(s, ("D", v), (), val)

    def as_slice(self, s, v):
        """(root, path, lo, len) of a value of type &[T] or &[T; N]."""
        if v.tag == "sl":
            return v
        if v.tag == "ref":
            val = self.load(s, v.args[0], v.args[1])
            if val.tag == "sl":
                return val
            return sl(v.args[0], v.args[1], k(0), self.value_len(s, val, v.args[0], v.args[1]))
        return sl(("D", v), (), k(0), mk("len", v))

    def content(self, s, v):
        """Symbolic content of a slice."""
        v = self.as_slice(s, v)
        root, path, lo, ln = v.args
        cur = self.load(s, root, path)
        return self.part(s, cur, lo, ln, root, path)

    def part(self, s, cur, lo, ln, root=None, path=()):
        """Part of some content."""
        if cur.tag == "arr":
            base, n, ovs = cur.args
            for olo, oln, c in reversed(ovs):
                if s.same(olo, lo) and s.same(oln, ln):
                    return c
                if s.atmost(add(lo, ln), olo) or s.atmost(add(olo, oln), lo):
                    continue
                if c.tag in ("flash", "subarr") and s.atmost(olo, lo) and s.atmost(add(lo, ln), add(olo, oln)):
                    return subarr(c, sub(lo, olo), ln)
                return mk("subarr", cur, lo, ln)
            if base.tag == "rep":
                return mk("repc", base.args[0], ln)
            if base.tag == "lit" and is_k(lo) and is_k(ln):
                els = base.args[0][lo.args[0]:lo.args[0] + ln.args[0]]
                return mk("arr", mk("lit", els), ln, ())
            if lo is k(0) and n is not None and s.same(n, ln):
                return base
            if base is OLDER:
                return OLDER
            return mk("subarr", base, lo, ln)
        if lo is k(0) and s.same(ln, self.value_len(s, cur, root, path)):
            return cur
        return subarr(cur, lo, ln)

    def write_slice(self, s, v, content):
        v = self.as_slice(s, v)
        root, path, lo, ln = v.args
        cur = self.load(s, root, path)
        if cur.tag != "arr":
            cur = mk("arr", cur, self.value_len(s, cur, root, path), ())
        self.store(s, root, path, self.overlay(s, cur, lo, ln, content))

    def note(self, s, item):
        s.trace = (s.trace, item)

    def poll(self, s, cctx, depth, futref, dty):
        """Completion of an awaited future (cancellation at the await is the monitors' business)."""
        fv = self.deref(s, futref)
        n = 0
        while fv.tag == "ref" and n < 4:
            fv = self.load(s, fv.args[0], fv.args[1])
            n += 1
        if fv.tag == "cor":
            b = self.F.bodies[fv.args[0]]
            sub_ = cctx.child("co", b.span, fv.args[0], fv.args[0])
            return self.run(b, sub_, depth + 1, [fv, mk("sym", "cx", None)], s)
        if fv.tag == "fut":
            return self.mon.flash(self, s, cctx, depth, fv)
        r = self.mon.await_other(self, s, cctx, fv)
        if r is not None:
            return r
        inner = None
        return [(s, mk("sym", "ready", cctx))]


def rootkey(r):
    return tuple((0, x) if isinstance(x, int) else (1, x) if isinstance(x, str) else (2, x.nid) if isinstance(x, T) else (3, id(x)) for x in r)


def isbool(v):
    return v.tag in ("b", "lt0", "eq0", "not", "and", "or", "unkb", "eqv")


class FnRef:
    _all = {}

    def __init__(self, c):
        self.path = c["path"]
        self.name = c.get("name") or self.path.split("::")[-1]
        self.trait = c.get("trait")
        self.resolved = c.get("resolved")
        self.targs = tuple(c.get("targs") or ())
        self.self_ty = c.get("self")
        self.self_generic = False

    @classmethod
    def of(cls, c):
        key = (c["path"], c.get("resolved"), tuple(c.get("targs") or ()), c.get("self"))
        f = cls._all.get(key)
        if f is None:
            f = cls(c)
            f.self_generic = bool(f.trait and not f.resolved)
            cls._all[key] = f
        return f

    def __repr__(self):
        return self.path


def fname(t):
    c = t["f"].get("c")
    if c and c.get("k") == "fn":
        return c["path"]
    return "<value>"


class NullMonitor:
    ages = 1  # how many earlier values of a symbol are told apart
    """Base class of the monitors."""
    I = None

    def key(self, s):
        return tshape(s.mon)

    def phi_input(self, phi, a, c):
        pass

    def normalize(self, s):
        """Called before a state is compared with others at a join: fold facts into the monitor state here."""

    def on_ret(self, s, body, v):
        """A local function is about to return v; False if this path is known not to exist."""

    def on_narrow(self, s, x, to):
        pass

    def on_equal(self, s, x, val):
        """The path on which x is (val) or is not (not val) zero."""

    def on_assert(self, s, cctx, msg, c):
        pass

    def on_diverge(self, s, cctx):
        pass

    def on_panic(self, s, cctx, fr):
        pass

    def on_index(self, s, cctx, lo, hi, ln):
        pass

    def on_copy(self, s, cctx, dst, src, content):
        pass

    def on_lock(self, I, s, cctx, m):
        return [s]

    def on_unlock(self, I, s, cctx, m):
        pass

    def intercept(self, I, s, cctx, fr, args, dty):
        return None

    def flash(self, I, s, cctx, depth, fut):
        return [(s, mk("sym", "flash", cctx))]

    def await_other(self, I, s, cctx, fv):
        return None
