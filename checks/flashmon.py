"""What a flash access means: page markers, item headers and item data, told from address and content terms."""
from cachemon import *

ES, WS, RS = mk("sym", "ERASE_SIZE", None), mk("sym", "WORD_SIZE", None), mk("sym", "READ_SIZE", None)
HDR = next_multiple_of(k(8), WS)
STATES = ("Closed", "PartialOpen", "Open")


def split_addr(addr):
    """addr = base + ERASE_SIZE*p + off: (base, p, off); base holds the monomials free of flash geometry."""
    c, d = tm._lin(addr)
    e, o, b = {}, {}, {}
    for m, q in d.items():
        if ES in m:
            mm = list(m)
            mm.remove(ES)
            e[tuple(mm)] = q
        elif WS in m or RS in m or m == (HDR,):
            o[m] = q
        else:
            b[m] = q
    pc = e.pop((), 0)
    return tm._mklin(0, b), tm._mklin(pc, e), tm._mklin(c, o)


def page_state_variant(F):
    """variant index -> name of the page state enum"""
    for p, a in F.adts.items():
        n = [v["name"] for v in a["variants"]]
        if a["kind"] == "enum" and sorted(n) == sorted(STATES):
            return p, n
    return None, None


class FlashMonitor(CacheMonitor):
    def __init__(self, F):
        super().__init__(F)
        self.ps_path, self.ps_names = page_state_variant(F)

    def state_name(self, s, v):
        v = s.resolve(v)
        if v.tag == "adt" and v.args[0] == self.ps_path:
            return self.ps_names[v.args[1]]
        return None

    def classify_write(self, I, s, addr, data):
        """("header", a, len, crc) | ("marker", which, page) | ("data", a, len)"""
        d = I.as_slice(s, data)
        root, path, lo, ln = d.args
        c4 = I.content(s, sl(root, path, lo, k(4)))
        l2 = I.content(s, sl(root, path, add(lo, k(4)), k(2)))
        if c4.tag == "le" and c4.args[0] is k(4) and l2.tag == "le" and l2.args[0] is k(2):
            return ("header", addr, l2.args[1], s.resolve(c4.args[1]), I.content(s, sl(root, path, add(lo, k(6)), k(2))))
        base, p, off = split_addr(addr)
        w = I.content(s, d)
        if w.tag == "repc" or (w.tag == "arr" and w.args[0].tag == "rep" and not w.args[2]):
            if off is k(0):
                return ("marker", "start", p, base)
            if off is scale(WS, -1):
                return ("marker", "end", sub(p, k(1)), base)
        return ("data", addr, ln)

    def classify_read(self, s, addr, ln):
        """Which page marker a read looks at, if any."""
        base, p, off = split_addr(addr)
        if base.tag in ("k", "lin"):
            return None
        if off is k(0) and self.is_start(base):
            return ("start", p)
        if s.same(add(off, ln), k(0)):
            return ("end", sub(p, k(1)))
        return None

    def is_start(self, base):
        """A value read from a field of the storage object (as opposed to an address found in flash)."""
        return base.tag == "fld"

    def classify_erase(self, s, frm, to):
        b1, p1, o1 = split_addr(frm)
        b2, p2, o2 = split_addr(to)
        if b1 is b2 and o1 is k(0) and o2 is k(0) and s.same(p2, add(p1, k(1))):
            return ("page", p1)
        return ("range", frm, to)
