"""C14: bytes that fail their checksum never come out."""
from itemmon import *


class Monitor(ItemMonitor):
    NAME = "C14"
    RULES = {"unchecked-data", "unchecked-header"}


class C14(Check):
    """Every public storage entry point is interpreted over all paths without flash errors; checksum functions stay opaque.  A
    ghost follows the last item header read (address, fields, whether its length was found to match its own checksum), the data
    read right behind it, and the bytes whose checksum was compared equal with the one in that header.  Rules: data is read, and
    the next item is looked for, by a header's length only after the length matched its own checksum; and every byte range handed
    to a key or value decoder or returned to the caller that may stem from flash lies in (or, for keys, begins with) the bytes
    found to match, unmodified since."""
    ID = "C14"
    MONITOR = Monitor

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"header checks": (3, n("header_check")), "data checks": (3, n("data_check")), "decoder calls": (3, n("decoded")),
                "returns of bytes": (4, n("returned"))}


CHECK = C14()
