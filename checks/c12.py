"""C12: moving items between the RAM buffer and flash neither loses nor duplicates them."""
from cachemon import *

NONE = adt("mark", 0, [])
NOTHING, ITEM, YES = adt("mark", 1, []), adt("mark", 2, []), adt("mark", 3, [])
OPS = ("push", "pop", "peek")
TYPES = ("BufferedQueue", "SharedRamRing")


def self_path(F, b):
    t = F.ty(b.impl_self) if isinstance(b.impl_self, int) else {}
    return t.get("p", "")


def plain_run(F, e):
    import models
    b = F.bodies[e]
    mon = StorageMonitor(F)
    mon.entry = e
    I = Interp(F, mon, models.Models())
    args = [mk("sym", "arg:" + str(b.locals[i + 1].get("name")), None) for i in range(b.argc)]
    return I.run_entry(e, args, State({}, {}, mon.init()))[1]


def place(t):
    """fld(fld(deref x)) -> (root, path)"""
    out = []
    while t.tag == "fld":
        out.append(("f", t.args[1], t.args[2]))
        t = t.args[0]
    return (("D", t.args[0]), tuple(reversed(out))) if t.tag == "deref" else None


def number_place(F, p):
    """The place of the only number the value of a public observer is computed from, and its sign."""
    found = set()
    for s, v in plain_run(F, p):
        for m, q in tm._lin(v)[1].items():
            for a in m:
                if a.tag == "fld" and place(a):
                    found.add((place(a), q))
    return found.pop()[0] if len(found) == 1 else None


class Shape:
    """Where the buffered types keep the ring, how many items are in it and how many bytes: read off the public observers."""
    _all = {}

    @classmethod
    def of(cls, F):
        if id(F) not in cls._all:
            cls._all[id(F)] = cls(F)
        return cls._all[id(F)]

    def __init__(self, F):
        self.F = F
        self.mine, self.ring, self.cnt, self.use = {}, {}, {}, {}
        for p in api_entries(F):
            n = self_path(F, F.bodies[p]).split("::")[-1]
            if n in TYPES:
                self.mine.setdefault(n, {})[p.split("::")[-1]] = p
        for n, ms in self.mine.items():
            if "ram_pending_count" not in ms or "ram_free_bytes" not in ms:
                continue
            c, u = number_place(F, ms["ram_pending_count"]), number_place(F, ms["ram_free_bytes"])
            if c is None or u is None or c[0] != u[0]:
                continue
            i = 0
            while i < min(len(c[1]), len(u[1])) and c[1][i] == u[1][i]:
                i += 1
            self.ring[n] = (c[0], c[1][:i])
            self.cnt[n], self.use[n] = c[1][i:], u[1][i:]
        self.ring_type = self.type_at("BufferedQueue") or self.type_at("SharedRamRing")
        self.witness = self.witnesses() if self.ring_type and "SharedRamRing" in self.cnt else ()
        allp = {q for ms in self.mine.values() for q in ms.values()}
        self.ops = {p: p.split("::")[-1] for p in storage_entries(F) if p not in allp and p.split("::")[-1] in OPS and self_path(F, F.bodies[p]).endswith("QueueStorage")}

    def type_at(self, n):
        """The type of the ring, following fields of local types."""
        if n not in self.ring or self.ring[n][0][1].tag != "sym":
            return None
        F = self.F
        t = next((F.bodies[p].impl_self for p in self.mine[n].values()), None)
        for e in self.ring[n][1]:
            a = F.adts.get(F.ty(t).get("p"))
            if a is None:
                return None
            t = a["variants"][e[1]]["fields"][e[2]]["ty"]
        return F.ty(t).get("p")

    def witnesses(self):
        """Fields of the ring that every removal of an item advances by one and no addition changes: told from the functions on the
        ring without a loop (the others are made from those)."""
        import models
        F, cp = self.F, self.cnt["SharedRamRing"]
        fields = range(len(F.adts[self.ring_type]["variants"][0]["fields"]))
        good, removals = set(fields), 0
        for p, b in sorted(F.bodies.items()):
            if not b.argc or b.kind not in ("Fn", "AssocFn"):
                continue
            t = F.ty(b.locals[1]["ty"])
            if t.get("k") != "ref" or not t.get("mut") or F.ty(t["t"]).get("p") != self.ring_type or b.cfg.loop:
                continue
            mon = Removals(F, cp, fields)
            mon.entry = p
            I = Interp(F, mon, models.Models())
            args = [mk("sym", "arg:" + str(b.locals[i + 1].get("name")), None) for i in range(b.argc)]
            st = State({}, {}, (ref(("D", args[0]), ()),) + (EMPTY_RING,))
            for s, v in I.run_entry(p, args, st)[1]:
                d = mon.deltas(s)
                if d[0] == -1:
                    removals += 1
                    good &= {i for i in fields if d[i + 1] == 1}
                elif d[0] is not None and d[0] > 0:
                    good &= {i for i in fields if d[i + 1] == 0}
        return tuple(sorted(good)) if removals else ()


EMPTY_RING = mk("sym", "start", None)


class Removals(StorageMonitor):
    """How much the numbers of a ring differ from what they were when the body under analysis was entered."""

    def __init__(self, F, cp, fields):
        super().__init__(F)
        self.cp, self.fields = cp, fields

    def values(self, s):
        r = s.mon[0]
        root, path = r.args[0], tuple(r.args[1])
        return [self.I.load(s, root, path + self.cp)] + [self.I.load(s, root, path + (("f", 0, i),)) for i in self.fields]

    def deltas(self, s):
        r = s.mon[0]
        root, path = r.args[0], tuple(r.args[1])
        pre = State({}, {}, ())
        old = [self.I.load(pre, root, path + self.cp)] + [self.I.load(pre, root, path + (("f", 0, i),)) for i in self.fields]
        out = []
        for a, b in zip(self.values(s), old):
            if a.tag == "wrap" and a.args[0] == "add" and a.args[1] is b and is_k(a.args[2]):
                out.append(a.args[2].args[0])
                continue
            d = sub(a, b)
            out.append(d.args[0] if is_k(d) else None)
        return out

    def key(self, s):
        return tuple(x if x is None or abs(x) < 2 else None for x in self.deltas(s))


class Monitor(CacheMonitor):
    """mon: (ring, items, bytes, pushed, found, empty, snap, signal)
    ring: where the ring is; items, bytes: how many were in it when last settled (NONE: not known, it is shared and unlocked);
    pushed: some(length, snapshot) of an item that is in flash and still in the ring; found: what flash answered to pop or peek;
    empty: the ring was seen empty; snap: the ring when it was unlocked last; signal: the waiting task was woken; moved: an item went from the ring to flash; held: the ring as it was when locked"""
    NAME = "C12"
    FIELDS = ("ring", "items", "bytes", "pushed", "found", "empty", "snap", "signal", "moved", "held")

    def __init__(self, F):
        super().__init__(F)
        self.sh = Shape.of(F)

    def init(self):
        return (NONE,) * len(self.FIELDS)

    def get(self, s, n):
        return s.mon[self.FIELDS.index(n)]

    def set(self, s, **kw):
        m = list(s.mon)
        for n, v in kw.items():
            m[self.FIELDS.index(n)] = v
        s.mon = tuple(m)

    def setup(self, I, st, body, args, opts):
        self.type = opts["type"]
        self.op = opts["op"]
        self.policy = opts.get("policy")
        self.shared = self.type == "SharedRamRing"
        self.cp, self.up = self.sh.cnt[self.type], self.sh.use[self.type]
        self.args = args
        root, path = self.sh.ring[self.type]
        if self.policy is not None:
            args[-1] = adt(self.policy[0], self.policy[1], [])
        self.set(st, ring=ref(root, path))
        if not self.shared:
            self.base(I, st)

    def look(self, I, s):
        r = self.get(s, "ring")
        root, path = r.args[0], tuple(r.args[1])
        return I.load(s, root, path + self.cp), I.load(s, root, path + self.up), I.load(s, root, path)

    def base(self, I, s):
        c, u, r = self.look(I, s)
        self.set(s, items=c, bytes=u)

    def key(self, s):
        """Paths that differ in whether something was taken out stay apart."""
        m = tshape(s.mon)
        if self.get(s, "items") is NONE or self.get(s, "ring") is NONE:
            return m
        c, u, r = self.look(self.I, s)
        d = sub(c, self.get(s, "items"))
        w = None
        if self.get(s, "held") is not NONE and self.get(s, "pushed") is not NONE:
            w = (self.witness(self.I, s, self.get(s, "pushed").args[2][0].args[2][1]), self.count_of(self.I, s, self.get(s, "held")))
        return (m, d.args[0] if is_k(d) and abs(d.args[0]) < 2 else "?", w)

    def delta(self, I, s):
        c, u, r = self.look(I, s)
        d = sub(c, self.get(s, "items"))
        return (d.args[0] if is_k(d) else None), sub(u, self.get(s, "bytes"))

    # ------------------------------------------------------------ calls of the flash queue
    def intercept(self, I, s, cctx, fr, args, dty):
        p = fr.resolved or fr.path
        if p in self.sh.ops:
            return [(s, mk("fut", "q:" + self.sh.ops[p], cctx, *args))]
        if fr.name == "signal" and "signal" in fr.path.lower() and self.shared:
            self.count("signal", cctx)
            self.set(s, signal=YES)
            return [(s, UNIT)]
        return super().intercept(I, s, cctx, fr, args, dty)

    def flash(self, I, s, cctx, depth, fut):
        op, callctx = fut.args[0], fut.args[1]
        self.settle(I, s, callctx, "flash is accessed")
        if not op.startswith("q:"):
            self.report("direct-flash", callctx, "the buffered queue accesses flash other than by the queue's own operations", s)
            return []
        args = fut.args[3:]
        op = op[2:]
        self.count("queue_" + op, callctx)
        bad = s.copy()
        e = err(mk("sym", "qerr", cctx))
        I.note(bad, f"{callctx.span}: {op} on the flash queue returns an error")
        if op == "push":
            d = I.as_slice(s, args[0])
            I.note(s, f"{callctx.span}: an item is pushed to flash")
            self.set(s, pushed=some(tup(d.args[3], self.get(s, "snap"))), empty=NONE)
            return [(s, ok(UNIT)), (bad, e)]
        n = s.copy()
        d = I.as_slice(s, args[0])
        ln = mk("sym", "qlen", cctx)
        out = []
        for st in (s, n, bad):
            I.write_slice(st, d, mk("sym", "qdata", cctx))
        root, path, lo, _ = d.args
        self.set(s, found=ITEM)
        self.set(n, found=NOTHING)
        I.note(n, f"{callctx.span}: the flash queue is empty")
        return [(s, ok(some(sl(root, path, lo, ln)))), (n, ok(none())), (bad, e)]

    # ------------------------------------------------------------ the ring
    def settle(self, I, s, cctx, when):
        """Nothing may be in the ring and in flash, or in neither, while something else happens."""
        p = self.get(s, "pushed")
        if self.shared:
            if p is not NONE:
                self.report("not-removed", cctx, f"{when} while an item that was pushed to flash may still be in the buffer", s)
                self.set(s, pushed=NONE)
            return
        d, u = self.delta(I, s)
        if p is NONE:
            if d != 0 or u is not k(0):
                self.report("removed", cctx, f"{when} after an item was taken out of the buffer that is not in flash", s)
        else:
            ln = p.args[2][0].args[2][0]
            if d != -1:
                self.report("not-removed", cctx, f"{when} after an item was pushed to flash that was not then taken out of the buffer", s)
            elif not s.same(u, scale(add(ln, k(2)), -1)):
                self.report("removed", cctx, "the item taken out of the buffer is not as long as the one pushed to flash", s, extra_key="length")
            else:
                self.set(s, moved=YES)
        self.set(s, pushed=NONE)
        self.base(I, s)

    def normalize(self, s):
        """Once the pushed item has been taken out the matter is settled; relations between old and new counts do not survive joins."""
        p = self.get(s, "pushed")
        if self.shared or p is NONE or self.get(s, "items") is NONE:
            return
        d, u = self.delta(self.I, s)
        if d == -1 and s.same(u, scale(add(p.args[2][0].args[2][0], k(2)), -1)):
            self.set(s, pushed=NONE, moved=YES)
            self.base(self.I, s)

    def on_ret(self, s, body, v):
        self.normalize(s)

    def on_lock(self, I, s, cctx, m):
        r = self.get(s, "ring")
        root, path = r.args[0], tuple(r.args[1])
        if self.get(s, "snap") is not NONE:
            # others may have changed it meanwhile
            I.store(s, root, path, mk("sym", "ring", cctx))
        self.count("lock", cctx)
        self.base(I, s)
        self.set(s, held=self.look(I, s)[2])
        return [s]

    def on_unlock(self, I, s, cctx, m):
        c, u, now = self.look(I, s)
        d, du = self.delta(I, s)
        if self.op == "enqueue":
            return
        p = self.get(s, "pushed")
        if p is NONE:
            if d != 0:
                self.report("removed", cctx, "an item is taken out of the buffer that is not in flash", s)
        else:
            ln, snap = p.args[2][0].args[2]
            w = self.witness(I, s, snap)
            if d == 0 and w is not False and self.count_of(I, s, self.get(s, "held")) is not True:
                self.report("not-removed", cctx, "an item pushed to flash is left in the buffer although it may still be there", s)
            elif d == -1 and w is not True:
                self.report("removed", cctx, "an item is taken out of the buffer without knowing that it is the one pushed to flash", s, extra_key="which")
            elif d not in (0, -1):
                self.report("removed", cctx, "more than the item pushed to flash is taken out of the buffer", s)
            self.set(s, moved=YES)
        self.set(s, pushed=NONE, snap=some(now), items=NONE, bytes=NONE, held=NONE, empty=YES if s.truth(eq0(c)) is True else NONE)

    def count_of(self, I, s, ring):
        for e in self.cp:
            ring = s.resolve(project_f(ring, e[1], e[2]))
        return s.truth(eq0(ring))

    def witness(self, I, s, snap):
        """Whether something was removed since the ring was `snap`: told by a field that every removal changes."""
        if snap.tag != "adt":
            return False
        snap, held = snap.args[2][0], self.get(s, "held")
        out = None
        for i in self.sh.witness:
            t = s.truth(eq0(sub(s.resolve(project_f(held, 0, i)), s.resolve(project_f(snap, 0, i)))))
            if t is not None:
                out = t
        return out

    # ------------------------------------------------------------ exits
    def at_exit(self, I, s, v, root):
        v = s.resolve(v)
        if v.tag != "adt" or v.args[0] != RES:
            return
        good = v.args[1] == 0
        x = s.resolve(v.args[2][0]) if good else None
        if self.op == "enqueue":
            return self.enqueued(I, s, good, root)
        self.count("exit", root)
        c, u, r = self.look(I, s)
        empty = s.truth(eq0(c)) is True
        if self.shared:
            snap = self.get(s, "snap")
            empty = self.get(s, "empty") is YES or snap.tag == "adt" and self.count_of(I, s, snap.args[2][0]) is True
        some_, nothing = good and x.tag == "adt" and x.args[0] == OPT and x.args[1] == 1, good and x.tag == "adt" and x.args[0] == OPT and x.args[1] == 0
        if self.op == "pop" and not self.shared and some_ and self.get(s, "found") is NOTHING:
            d, u = self.delta(I, s)
            y = I.as_slice(s, x.args[2][0])
            if d != -1 or not s.same(u, scale(add(y.args[3], k(2)), -1)):
                self.report("pop", root, "an item is returned from the buffer that was not taken out of it", s)
            return
        self.settle(I, s, root, "the operation ends")
        if nothing and not (empty and self.get(s, "found") is NOTHING):
            self.report("false-empty", root, "the operation says there is nothing although buffer and flash are not both known to be empty", s)
        if some_ and self.get(s, "found") is NONE:
            self.report("order", root, "an item is returned although flash, which holds the older ones, was not asked", s)
        if x is FALSE and not empty:
            self.report("false-empty", root, "the operation says that there was nothing to do although the buffer is not known to be empty", s)
        if good and x is UNIT and self.op != "wait" and not empty:
            self.report("false-empty", root, "the operation ends well although the buffer is not known to be empty", s)
        if x is TRUE and self.get(s, "moved") is NONE:
            self.report("progress", root, "the operation reports progress although nothing was moved", s)

    def enqueued(self, I, s, good, root):
        c, u, r = self.look(I, s)
        r0, p0 = self.sh.ring[self.type]
        pre = State({}, {}, ())
        c0, u0, ring0 = I.load(pre, r0, p0 + self.cp), I.load(pre, r0, p0 + self.up), I.load(pre, r0, p0)
        self.count("enqueue_exit", root)
        if not good:
            if r is not ring0:
                self.report("refused-changed", root, "an item is refused but the buffer was changed", s)
            return
        data = I.as_slice(s, self.args[1])
        if self.policy[2] == "Err" and (sub(c, c0) is not k(1) or not s.same(sub(u, u0), add(data.args[3], k(2)))):
            self.report("accepted", root, "an item is accepted, but the buffer does not hold exactly one item of its size more", s)
        if self.shared and self.get(s, "signal") is not YES:
            self.report("no-signal", root, "an item is accepted but the waiting task is not woken", s)


class C12(Check):
    """Every public operation of the buffered queue types is interpreted over all paths; the operations of the flash queue it calls
    are events with every outcome (empty, item, error), and the shared ring is replaced by an unknown one whenever its lock is
    taken anew.  The places of the number of items and bytes in the ring are read off the public observers; the number of
    removals off the functions on the ring.  Rules: see the methods of the monitor, each named by what it reports."""
    ID = "C12"
    MONITOR = Monitor
    ASSUME = ["the flash queue's push, pop and peek do what they say (C01 to C20 are about those)",
              "no other context removes items from the shared ring except by enqueueing with the discarding policy or by another drain",
              "the models of core/std functions in engine/models.py match their documentation"]

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        F = list(Fs.values())[0]
        sh = Shape.of(F)
        return {"buffered types": (2 if "full" in Fs else 1, len(sh.ring)), "pushes": (2, n("queue_push")), "pops": (2, n("queue_pop")), "peeks": (2, n("queue_peek")),
                "locked sections": (1, n("lock")), "wake-ups": (1, n("signal")), "exits": (6, n("exit")), "enqueue exits": (2, n("enqueue_exit")),
                "operations": (8, len(self.jobs(F, "quick")))}

    def entries(self, F):
        return sorted(p for ms in Shape.of(F).mine.values() for p in ms.values())

    def jobs(self, F, tier):
        js = []
        sh = Shape.of(F)
        for n, ms in sorted(sh.mine.items()):
            if n not in sh.ring:
                continue
            for op, p in sorted(ms.items()):
                b = F.bodies[p]
                if op == "enqueue":
                    t = F.ty(b.locals[b.argc]["ty"])
                    for i, v in enumerate(F.adts[t["p"]]["variants"]):
                        js.append(("main", p, {"type": n, "op": op, "policy": (t["p"], i, v["name"])}))
                elif op in ("pop", "peek") or op.startswith("drain") or op.startswith("wait"):
                    js.append(("main", p, {"type": n, "op": op}))
        return js


CHECK = C12()
