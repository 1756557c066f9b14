"""C09: items are taken out only by marking their own header."""
from c15 import *


class Monitor(WriteMonitor):
    NAME = "C09"
    RULES = {"item-erase"}


class C09(Check):
    """Same interpretation as C15.  Rules for a header write that clears the checksum: it goes to the address of the item whose
    checksum was verified last, with that item's length; the public operation it happens in demands MultiwriteNorFlash; and an
    entry object handed out for later removal holds the address and length of the item it was made for (the removal itself is
    then checked against those fields, an induction over the two operations)."""
    ID = "C09"
    MONITOR = Monitor

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"removals": (1, n("item_erase")), "entries handed out": (1, n("remembered"))}


CHECK = C09()
