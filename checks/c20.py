"""C20: what fails its checksum is read again before it counts as damaged."""
from itemmon import *


class Monitor(ItemMonitor):
    NAME = "C20"
    RULES = {"not-read-again"}


class C20(Check):
    """Same interpretation as C14.  Rule: when a header's or an item's checksum is found not to match for the first time after
    it was read, the next flash access is a read of the same range, and only a second mismatch lets the operation go on (to the
    next place, or to reporting corruption)."""
    ID = "C20"
    MONITOR = Monitor

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"header checks": (3, n("header_check")), "data checks": (3, n("data_check")), "second reads": (2, n("read_again"))}


CHECK = C20()
