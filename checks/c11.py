"""C11: looking does not change anything."""
from c08 import *
import c08

LOOK = {"fetch_item": "MapStorage", "fetch_all_items": "MapStorage", "next": ("MapItemIter", "QueueIterator"), "find_max_fit": "QueueStorage",
        "space_left": "QueueStorage", "iter": "QueueStorage", "peek": "QueueStorage", "print_items": ("MapStorage", "QueueStorage", "GenericStorage")}
CLEANS = ("peek", "next")


class Monitor(c08.Monitor):
    NAME = "C11"

    def key(self, s):
        # before and after the start of a repair are kept apart
        return (super().key(s), s.mon[1] is FIRST)

    def report(self, rule, cctx, msg, s=None, extra_key=""):
        if rule == "changed":
            super().report(rule, cctx, msg, s, extra_key)

    def on_flash(self, I, s, cctx, callctx, op, args):
        self.count("access", callctx)
        if s.mon[1] is FIRST:
            self.count("first_attempt", callctx)
            if op == "write":
                self.report("changed", callctx, "an operation that only looks writes to flash without having noticed corruption", s)
            elif op == "erase":
                cleans = self.entry.rsplit("::", 1)[-1] in CLEANS and "Map" not in self.entry.rsplit("::", 1)[0]
                if not cleans or self.classify_erase(s, args[0], args[1])[0] != "page":
                    self.report("changed", callctx, "an operation that only looks erases flash without having noticed corruption", s)
        return super().on_flash(I, s, cctx, callctx, op, args)


class C11(Check):
    """The operations that only look (fetch, iterate, peek, print, ask for space) are interpreted over all paths without flash
    errors.  Rule: before corruption was noticed by a failed attempt and everything cached was dropped for a repair, they write
    nothing and erase nothing; the queue's peek and iteration may erase whole single pages."""
    ID = "C11"
    MONITOR = Monitor

    def entries(self, F):
        out = []
        for p in storage_entries(F):
            t, m = p.rsplit("::", 1)
            if m in LOOK and any(x in t for x in ((LOOK[m],) if isinstance(LOOK[m], str) else LOOK[m])):
                out.append(p)
        return out

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"flash accesses": (5, n("access")), "first attempts": (3, n("first_attempt"))}


CHECK = C11()
