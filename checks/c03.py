"""C03: a flash error always ends the operation and is reported to the caller."""
from cachemon import *


class Monitor(StorageMonitor):
    """mon: ("ok",) or ("E", the error value the driver returned)"""
    NAME = "C03"

    def init(self):
        return ("ok",)

    def on_flash(self, I, s, cctx, callctx, op, args):
        if s.mon[0] == "E":
            self.report("flash-error-ignored", callctx, f"flash {op} is started after an earlier flash operation of the same call returned an error", s)
            return []
        out = self.flash_outcomes(I, s, cctx, callctx, op, args)
        for ns, v in out:
            if v.tag == "adt" and v.args[1] == 1:
                ns.mon = ("E", v.args[2][0], callctx.body, callctx.span)
                I.note(ns, f"{callctx.span}: flash {op} returns an error")
        return out

    def has(self, v, e, n=0):
        if v is e:
            return True
        return n < 6 and v.tag == "adt" and any(self.has(x, e, n + 1) for x in v.args[2])

    def at_exit(self, I, s, v, root):
        if s.mon[0] != "E":
            return
        e, body, span = s.mon[1:]
        v = s.resolve(v)
        self.count("failing_exit", root)
        if v.tag == "adt" and v.args[0] == RES and v.args[1] == 1 and self.has(v.args[2][0], e):
            return
        c = root
        what = "Ok" if v.tag == "adt" and v.args[1] == 0 else "something other than that error"
        self.report("flash-error-not-returned", c, f"the operation returns {what} although the flash operation at {span} failed", s, extra_key=short(body))


class C03(Check):
    """Every public storage entry point is interpreted over all control-flow paths with, at every flash call, both outcomes.
    After an error outcome the path carries that error value as a ghost.  Rules: no further flash operation is started on the
    path; and at the exit of the entry point the returned value is an Err holding exactly that error value."""
    ID = "C03"
    MONITOR = Monitor

    def floors(self, Fs, events, results):
        return {"flash operation sites": (6, len(events.get("flash_read", ())) + len(events.get("flash_write", ())) + len(events.get("flash_erase", ()))),
                "entry points that can fail": (15, len(events.get("failing_exit", ())))}


CHECK = C03()
