"""C08: corruption is repaired and the operation retried before it is reported."""
from flashmon import *

NONE = mk("sym", "none", None)
ERR = "crate::Error"
YES = mk("sym", "yes", None)
FIRST, RETRY = mk("sym", "phase:first", None), mk("sym", "phase:retry", None)
ALL = mk("sym", "all", None)
NOTHING = (NONE,) * len(KINDS)


class Monitor(FlashMonitor):
    """mon: (kinds emptied, phase, who, start-read page, end-read page, bad page, pages looked at by the repair: () none, (first, end) or all)
    phase: 0 first attempt, 1 after a complete invalidation in mid-operation (repair and retry); who: phase in which a callee
    just returned a corruption error; bad: page whose markers decoded as impossible during phase 1"""
    NAME = "C08"

    def __init__(self, F):
        super().__init__(F)
        a = F.adts.get(ERR)
        self.corrupted = [i for i, v in enumerate(a["variants"]) if v["name"] == "Corrupted"][0]

    def init(self):
        return (NOTHING, FIRST, NONE, NONE, NONE, NONE, ())

    def is_corrupted(self, s, v):
        v = s.resolve(v)
        if v.tag == "adt" and v.args[0] == RES and v.args[1] == 1:
            e = s.resolve(v.args[2][0])
            return e.tag == "adt" and e.args[0] == ERR and e.args[1] == self.corrupted
        return False

    def on_ret(self, s, body, v):
        if not self.is_corrupted(s, v):
            return
        em, ph, who, rs, re, bad, sw = s.mon
        if body.path.split("::{")[0] == self.entry:
            return
        if ph is RETRY and rs is not NONE and s.same(rs, re):
            bad = rs
            self.I.note(s, f"{body.path}: page state is impossible")
        s.mon = (em, ph, ph, NONE, NONE, bad, sw)

    # the repair's pass over the pages: consecutive pages lo..hi (before wrapping around)
    def inner(self, p):
        return p.args[0] if p.tag == "rem" else p

    def sweep(self, s, sw, p):
        if sw is ALL or self.complete(s, sw):
            return ALL
        q = self.inner(p)
        if sw and not has_stale(sw):
            lo, hi = sw
            if s.same(q, hi):
                return (lo, add(hi, k(1)))
            if s.same(q, sub(lo, k(1))):
                return (q, hi)
        return (q, add(q, k(1)))

    def complete(self, s, sw):
        if not sw or sw is ALL or has_stale(sw):
            return sw is ALL
        d = sub(sw[1], sw[0])
        return any(s.truth(lt0(sub(d, n))) is False for n in self.counts(s))

    def counts(self, s):
        """Page count terms in use."""
        out = []
        seen = set()

        def walk(x):
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.tag == "div" and x.args[1] is ES:
                    out.append(x)
                walk(x.args)
        for f in s.facts:
            if f.tag == "lt0":
                walk(f)
        return out + [max_(x, k(1)) for x in out]

    def normalize(self, s):
        em, ph, who, rs, re, bad, sw = s.mon
        if sw and sw is not ALL and self.complete(s, sw):
            s.mon = (em, ph, who, rs, re, bad, ALL)

    def on_prim(self, I, s, cctx, fr, args, dty):
        kind = kind_of(fr.path)
        if kind is None:
            return None
        em, ph, who, rs, re, bad, sw = s.mon
        if fr.name.startswith("invalidate"):
            em = tuple(YES if q == kind else e for q, e in zip(KINDS, em))
            if (ph is RETRY or who is not NONE) and all(e is YES for e in em):
                if ph is not RETRY:
                    self.count("repair", self.caller(cctx))
                    I.note(s, f"{self.caller(cctx).span}: everything cached is dropped in mid-operation (repair)")
                if ph is not RETRY or who is not NONE:
                    sw = ()
                ph, bad = RETRY, NONE
        else:
            em, who = NOTHING, NONE
        s.mon = (em, ph, who, rs, re, bad, sw)
        return None

    def on_flash(self, I, s, cctx, callctx, op, args):
        out = self.flash_outcomes(I, s, cctx, callctx, op, args)[:1]
        s = out[0][0]
        em, ph, who, rs, re, bad, sw = s.mon
        em, who = NOTHING, NONE
        if op == "read":
            d = I.as_slice(s, args[1])
            c = self.classify_read(s, args[0], d.args[3])
            if c and bad is not NONE:
                self.report("corrupt-page-kept", callctx, "repair moves on to another page without having erased the page with the impossible state", s)
                bad = NONE
            if c and c[0] == "start":
                rs = c[1]
            elif c:
                re = c[1]
                if ph is RETRY and s.same(rs, re):
                    sw = self.sweep(s, sw, re)
            else:
                rs = re = NONE
        elif op == "erase":
            c = self.classify_erase(s, args[0], args[1])
            if bad is not NONE:
                if c[0] == "page" and not s.same(c[1], bad):
                    self.report("wrong-page-repaired", callctx, "repair erases another page than the one with the impossible state", s)
                else:
                    self.count("repair_erase", callctx)
                bad = NONE
            rs = re = NONE
        else:
            rs = re = NONE
        s.mon = (em, ph, who, rs, re, bad, sw)
        return out

    def at_exit(self, I, s, v, root):
        em, ph, who, rs, re, bad, sw = s.mon
        if self.is_corrupted(s, v):
            self.count("corrupt_exit", root)
            if ph is not RETRY:
                self.report("not-repaired", root, "the operation reports corruption without having tried to repair it", s)
            elif who is not RETRY:
                self.report("not-retried", root, "the operation reports corruption after the repair without having been retried", s)
            elif not self.complete(s, sw):
                self.report("pages-not-repaired", root, "the operation reports corruption although its repair has not looked at the markers of every page", s)
        elif bad is not NONE:
            self.report("corrupt-page-kept", root, "the operation returns although the page with the impossible state was not erased by the repair", s)

    def finish(self, I):
        if "corrupt_exit" in self.events and "repair_erase" not in self.events:
            self.report("no-repair", I.root, "on no path does this operation erase a page with an impossible state before it reports corruption", None)


class C08(Check):
    """Every public storage entry point is interpreted over all paths without flash errors.  Rules: a corruption error leaves an
    entry point only on paths where the whole cache was dropped in mid-operation (the start of a repair) and where a callee
    returned corruption again after that; and a page whose two markers were read during the repair and found impossible is
    erased (that page, and before any other page is looked at); the
    repair reads the markers of every page of the range before corruption is reported; every entry point that can report corruption has such a repair."""
    ID = "C08"
    MONITOR = Monitor

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"corruption exits": (8, n("corrupt_exit")), "repair starts": (1, n("repair")), "repair erases": (1, n("repair_erase"))}


CHECK = C08()
