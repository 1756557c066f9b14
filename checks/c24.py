"""C24: fetching and removing go by comparing keys."""
from c04 import *


class Monitor(EffectMonitor):
    NAME = "C24"
    ages = 2
    RULES = {"wrong-item", "removed"}


class C24(C04):
    """Fetch and removal of map items are interpreted over all paths without flash errors, following each decoded key to the
    comparison with the key asked for.  Fetch: the value returned is decoded from the item whose key matched last, or, when nothing
    was compared, from the one the cache names for that very key; it is decoded from the bytes behind the key up to the end of the
    item; nothing is returned only when no match is pending.  Removal by key: only items whose key matched are marked as erased,
    each before the flash is read again; removal of all: every present item found is marked before the flash is read again."""
    ID = "C24"
    MONITOR = Monitor
    WHICH = ("fetch", "remove", "remove_all")

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"keys compared": (1, n("key_compared")), "values decoded": (1, n("value_decoded")), "items taken out": (1, n("taken_out")), "cached locations": (1, n("cached_location"))}


CHECK = C24()
