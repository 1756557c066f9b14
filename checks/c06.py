"""C06: pages are opened, filled and closed in order, one at a time."""
from flashmon import *
import c08

NONE = mk("sym", "none", None)
YES = mk("sym", "yes", None)
IDX = {n: i for i, n in enumerate(("op", "po", "wk", "rs", "re", "who"))}
PAGES = ("op", "po", "wk")
CLOSED, PARTIAL, OPEN = "Closed", "PartialOpen", "Open"


class Monitor(c08.Monitor):
    """op: page last known to be open; po: page last known to be partially open; wk: partially open page the operation works with (started
    by it, found partially open twice, or found so and searched for items); rs/re: pages whose start/end marker was read last;
    who: a callee has just returned a corruption error"""
    NAME = "C06"

    def on_ret(self, s, body, v):
        if self.is_corrupted(s, v) and body.path.split("::{")[0] != self.entry:
            self.set(s, who=YES, op=NONE, rs=NONE, re=NONE)

    def normalize(self, s):
        pass

    def at_exit(self, I, s, v, root):
        pass

    def finish(self, I):
        pass

    def init(self):
        return (NONE,) * len(IDX)

    def get(self, s, n):
        v = s.mon[IDX[n]]
        return v.args[2][0] if n in PAGES and v is not NONE else v

    def set(self, s, **kw):
        m = list(s.mon)
        for n, v in kw.items():
            m[IDX[n]] = some(v) if n in PAGES and v is not NONE else v
        s.mon = tuple(m)

    def is_(self, s, n, p):
        x = self.get(s, n)
        return x is not NONE and s.same(x, p)

    def learn(self, s, p, st):
        """Page p is in state st now (no change).  False: that cannot be."""
        if st == PARTIAL:
            if self.is_(s, "op", p):
                return False
            if self.is_(s, "po", p):
                self.set(s, wk=p)
            self.set(s, po=p)
            return True
        if self.is_(s, "po", p) or self.is_(s, "wk", p):
            return False
        if st == OPEN:
            self.set(s, op=p)
        elif self.is_(s, "op", p):
            return False
        return True

    # ------------------------------------------------------------ knowledge
    def on_prim(self, I, s, cctx, fr, args, dty):
        kind = kind_of(fr.path)
        if kind != "page":
            return None
        if fr.name.startswith("invalidate") and self.get(s, "who") is YES:
            # repair: a new beginning
            self.set(s, op=NONE, po=NONE, wk=NONE)
        self.set(s, who=NONE)
        if not fr.name.startswith(("notice", "invalidate")):
            out = self.split_result(I, s, cctx, fr.name, dty)
            return [(ns, v) for ns, v in out if not (v.tag == "adt" and v.args[1] == 1) or self.learn(ns, args[1], self.state_name(ns, v.args[2][0]))]
        if fr.name == "notice_page_state":
            rs, re = self.get(s, "rs"), self.get(s, "re")
            if rs is not NONE and s.same(rs, args[1]) and s.same(re, args[1]):
                self.count("discovered", self.caller(cctx))
                if not self.learn(s, args[1], self.state_name(s, args[2])):
                    return []
            self.set(s, rs=NONE, re=NONE)
        return None

    # ------------------------------------------------------------ flash
    def on_flash(self, I, s, cctx, callctx, op, args):
        out = self.flash_outcomes(I, s, cctx, callctx, op, args)[:1]
        s = out[0][0]
        self.set(s, who=NONE)
        if op == "read":
            d = I.as_slice(s, args[1])
            c = self.classify_read(s, args[0], d.args[3])
            if c:
                self.set(s, **{"rs" if c[0] == "start" else "re": c[1]})
            elif d.args[3] is HDR:
                base, p, off = split_addr(args[0])
                if self.is_start(base) and self.is_(s, "po", p):
                    self.set(s, wk=p)
            return out
        self.set(s, rs=NONE, re=NONE)
        if op == "erase":
            c = self.classify_erase(s, args[0], args[1])
            if c[0] == "page":
                self.count("page_erase", callctx)
                for n in ("po", "wk"):
                    if not self.is_(s, "op", c[1]):
                        self.set(s, **{n: NONE})
                self.set(s, op=c[1])
            else:
                self.set(s, op=NONE, po=NONE, wk=NONE)
            return out
        c = self.classify_write(I, s, args[0], args[1])
        if c[0] == "marker":
            p = c[2]
            self.count(c[1] + "_marker", callctx)
            I.note(s, f"{callctx.span}: {c[1]} marker written")
            if c[1] == "start":
                if not self.is_(s, "op", p):
                    self.report("start-marker", callctx, "a page's start marker is written although the page is not known to be open (erased)", s)
                if self.get(s, "wk") is not NONE and not self.is_(s, "wk", p) and s.same(self.inner(p), add(self.get(s, "wk"), k(1))):
                    self.report("two-partial", callctx, "a page is started while the one before it, the one in use, is still partially open", s)
                self.set(s, op=NONE, po=p, wk=p)
            else:
                if not self.is_(s, "po", p):
                    self.report("end-marker", callctx, "a page's end marker is written although the page is not known to be partially open", s)
                self.set(s, po=NONE, wk=NONE)
        elif c[0] == "header" and c[3] is not k(0):
            self.count("item", callctx)
            base, p, off = split_addr(c[1])
            if self.is_start(base) and self.is_(s, "op", p):
                self.report("item-outside", callctx, "an item is written to the beginning of a page that is known not to have been started", s)
        return out


class C06(Check):
    """Every public storage entry point is interpreted over all paths without flash errors, with ghost knowledge of page states
    (from their markers, from the cache, from what the operation did itself).  Rules: a start marker is written only
    on a page known open, and not while the page before it, which the operation has been working with, is still partially open; an
    end marker only on a page known partially open; no item goes to the beginning of a page known not to have been started."""
    ID = "C06"
    MONITOR = Monitor

    def entries(self, F):
        return [p for p in storage_entries(F) if p.rsplit("::", 1)[-1] in ("push", "store_item", "store_item_generic", "remove_item", "remove_all_items", "pop", "next")
                and "buffered" not in p and "MapItemIter" not in p]

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"start markers": (1, n("start_marker")), "end markers": (1, n("end_marker")), "items": (1, n("item")), "discoveries": (1, n("discovered"))}


CHECK = C06()
