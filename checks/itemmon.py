"""Items as they are on flash: header checks, data checks and what happens when one fails, as ghost state shared by several checks."""
from flashmon import *

NONE = mk("sym", "none", None)
YES = mk("sym", "yes", None)
SLOTS = ("h", "hok", "d", "ver", "again", "n", "dig", "hw", "er")
ONE, TWO = adt("read:once", 0, ()), adt("read:twice", 0, ())
IDX = {n: i for i, n in enumerate(SLOTS)}
SPLIT = {"hok", "ver", "again", "d", "hw", "er"}
NODIG = NOH = (NONE,) * 4
EMPTY = adt("item:empty", 0, ())


class Digests:
    """Checksum functions: local functions from bytes to a number, kept opaque."""
    _dig = {}

    def digest_path(self, fr):
        return fr.resolved if fr.resolved in self.F.bodies else fr.path

    def is_digest(self, fr):
        path = self.digest_path(fr)
        key = (id(self.F), path)
        r = self._dig.get(key)
        if r is None:
            r = self._dig[key] = self._is_digest(path)
        return r

    def _is_digest(self, path):
        b = self.F.bodies.get(path)
        if b is None or b.argc != 1 or b.kind not in ("Fn", "AssocFn"):
            return False
        t = self.F.ty(b.locals[1]["ty"])
        if t.get("k") != "ref" or self.F.ty(t["t"]).get("s") != "[u8]":
            return False
        r = self.F.ty(b.locals[0]["ty"])
        return r.get("k") in ("int", "uint") or (r.get("k") == "adt" and r["p"].endswith("NonZero"))

    def intercept(self, I, s, cctx, fr, args, dty):
        if self.is_digest(fr):
            c = plain(I.content(s, I.as_slice(s, args[0])))
            self.count("digest", cctx)
            v = mk("app", "digest:" + self.digest_path(fr), k(0), c)
            if self.F.ty(dty).get("k") == "adt":
                s.facts[eq0(v)] = FALSE
            self.digested(I, s, v, I.as_slice(s, args[0]))
            return [(s, v)]
        return super().intercept(I, s, cctx, fr, args, dty)

    def digested(self, I, s, v, where):
        pass


def is_dig(x):
    return x.tag == "app" and str(x.args[0]).startswith("digest:")


def has_tag(x, tag):
    if isinstance(x, T):
        return x.tag == tag or any(has_tag(y, tag) for y in x.args)
    return isinstance(x, tuple) and any(has_tag(y, tag) for y in x)


def plain(v):
    """Content without an empty wrapper."""
    while v.tag == "arr" and not v.args[2]:
        v = v.args[0]
    return v


def atoms(x):
    c, d = tm._lin(x)
    out = []
    for m in d:
        out.extend(m)
    return out


class ItemMonitor(Digests, FlashMonitor):
    """h: last thing read with the size of an item header: (address, crc, length, bytes); hok: its length was found to match its own checksum;
    d: item data read since: (address, length read); ver: bytes found to match the checksum in a good header (whole buffer, from, length, address of the
    item, its checksum); dig: last checksum taken (its value, whole buffer, from, length);
    again: (address, length) of a read whose result failed its check for the first time"""
    RULES = None

    def init(self):
        return ((NONE,) * 4, NONE, NONE, NONE, NONE, ONE, (NONE,) * 4, NONE, NONE)

    def report(self, rule, cctx, msg, s=None, extra_key=""):
        if self.RULES is None or rule in self.RULES:
            super().report(rule, cctx, msg, s, extra_key)

    def get(self, s, n):
        v = s.mon[IDX[n]]
        if n in SPLIT and v is not NONE:
            v = v.args[2][0]
            if v.tag == "adt" and v.args[0] == "()":
                return v.args[2]
        return v

    def set(self, s, **kw):
        m = list(s.mon)
        for n, v in kw.items():
            if n in SPLIT and v is not NONE:
                v = some(tup(*v) if isinstance(v, tuple) else v)
            m[IDX[n]] = v
        s.mon = tuple(m)

    def digested(self, I, s, v, where):
        root, path, lo, ln = where.args
        self.set(s, dig=(v, plain(I.load(s, root, path)), lo, ln))

    # ------------------------------------------------------------ comparisons
    def on_equal(self, s, x, val):
        crc = s.mon[IDX["h"]][1]
        if val and crc is not NONE and (x is crc or scale(x, -1) is crc):
            # the header of an erased item
            self.set(s, h=NOH, hok=NONE, d=NONE, dig=NODIG)
            return
        for y in atoms(x):
            if is_dig(y):
                o = sub(x, y)
                o2 = add(x, y)
                self.compared(s, y, scale(o, -1), val)
                if o2 is not o:
                    self.compared(s, y, o2, val)

    def span(self, c):
        """(flash read, offset, length) of content that comes from one flash read."""
        c = plain(c)
        if c.tag == "flash":
            return c, k(0), c.args[1]
        if c.tag == "subarr" and plain(c.args[0]).tag == "flash":
            return plain(c.args[0]), c.args[1], c.args[2]
        return None, None, None

    def compared(self, s, y, other, val):
        """A checksum was compared with another number."""
        c = y.args[2]
        h, crc, ln, by = s.mon[IDX["h"]]
        if h is NONE:
            return
        n = self.get(s, "n")
        if not has_stale(by) and c is subarr(by, k(4), k(2)) and other is mk("app", "from_le_bytes", k(2), subarr(by, k(6), k(2))):
            self.count("header_check", self.I.root)
            if val:
                self.set(s, hok=YES, again=NONE, n=ONE, dig=NODIG)
            else:
                self.failed(s, h, HDR)
            return
        if not (other is crc or s.same(other, crc)):
            return
        d = self.get(s, "d")
        if d is NONE:
            if c.tag == "subarr" and s.same(c.args[2], ln) and self.empty(s, ln):
                self.count("empty_check", self.I.root)
                self.set(s, ver=(EMPTY, k(0), ln, h, crc) if val else NONE, h=NOH, hok=NONE, d=NONE, n=ONE, dig=NODIG)
            return
        d, dn = d
        f, lo, cn = self.span(c)
        if f is None or f.args[0] is not d or lo is not k(0) or not s.same(cn, ln):
            return
        self.count("data_check", self.I.root)
        dig = s.mon[IDX["dig"]]
        if val:
            self.set(s, ver=dig[1:] + (h, crc) if dig[0] is y else NONE, again=NONE, h=NOH, hok=NONE, d=NONE, n=ONE, dig=NODIG)
        else:
            self.failed(s, d, dn)

    def failed(self, s, a, ln):
        if self.get(s, "n") is ONE:
            self.set(s, again=(a, ln), ver=NONE, dig=NODIG)
        else:
            # still marked as read twice until the function returns
            self.set(s, h=NOH, hok=NONE, d=NONE, ver=NONE, again=NONE, dig=NODIG)

    def on_ret(self, s, body, v):
        """Forget what the function's result can't refer to any more."""
        v = s.resolve(v)
        if v.tag != "adt" or v.args[0] != RES:
            return
        kw = {}
        h, ver = s.mon[IDX["h"]], self.get(s, "ver")
        if h is not NOH and not (v.args[1] == 0 and self.holds(s, v, (h[1], h[2]))):
            kw.update(h=NOH, hok=NONE, d=NONE)
        if ver is not NONE and (v.args[1] == 1 or not self.some_in(s, v)):
            kw["ver"] = NONE
        if self.get(s, "again") is NONE:
            kw.update(n=ONE, dig=NODIG)
        self.set(s, **kw)

    def holds(self, s, v, terms, n=0):
        v = s.resolve(v)
        if v in terms:
            return True
        if v.tag == "adt":
            return n < 8 and any(self.holds(s, x, terms, n + 1) for x in v.args[2])
        return v.tag == "sl" and v.args[3] in terms

    def some_in(self, s, v):
        x = s.resolve(v.args[2][0])
        return not (x.tag == "adt" and x.args[0] == OPT and x.args[1] == 0)

    # ------------------------------------------------------------ flash
    def on_flash(self, I, s, cctx, callctx, op, args):
        out = self.flash_outcomes(I, s, cctx, callctx, op, args)[:1]
        s = out[0][0]
        if op == "read":
            self.flash_read(I, s, callctx, args)
        elif self.get(s, "again") is not NONE:
            self.not_again(s, callctx)
        return out

    def not_again(self, s, cctx):
        self.report("not-read-again", cctx, "something read from flash failed its check once and the operation goes on without reading it again", s)
        self.set(s, again=NONE)

    def flash_read(self, I, s, callctx, args):
        d = I.as_slice(s, args[1])
        a, ln = args[0], d.args[3]
        again = self.get(s, "again")
        n = ONE
        if again is not NONE:
            if s.same(again[0], a) and s.same(again[1], ln):
                n = TWO
                self.count("read_again", callctx)
            else:
                self.not_again(s, callctx)
        self.set(s, again=NONE, ver=NONE, n=n)
        h, crc, hl, by = s.mon[IDX["h"]]
        if h is not NONE and s.same(a, add(h, HDR)):
            if self.get(s, "hok") is NONE:
                self.report("unchecked-header", callctx, "item data is read by the length of a header whose own checksum was not checked", s)
            self.count("data_read", callctx)
            self.set(s, d=(a, ln))
            return
        if not s.same(ln, HDR):
            self.set(s, h=NOH, hok=NONE, d=NONE, n=ONE, dig=NODIG)
            return
        if h is not NONE and hl is not NONE and not has_stale(hl) and self.get(s, "hok") is NONE and s.same(a, add(add(h, HDR), next_multiple_of(hl, WS))):
            self.report("unchecked-header", callctx, "the next item is looked for by the length of a header whose own checksum was not checked", s)
        by = plain(I.content(s, d))
        self.count("header_read", callctx)
        f = lambda o, m: mk("app", "from_le_bytes", k(m), subarr(by, k(o), k(m)))
        self.set(s, h=(a, f(0, 4), f(4, 2), by), hok=NONE, d=NONE)

    # ------------------------------------------------------------ what is handed out
    def from_flash(self, c):
        """Content that may have come from flash during this operation."""
        return c.tag in ("flash", "phi", "stale") or any(self.from_flash(x) for x in c.args if isinstance(x, T)) or \
            any(self.from_flash(y) for x in c.args if isinstance(x, tuple) for z in x for y in (z if isinstance(z, tuple) else (z,)) if isinstance(y, T))

    def empty(self, s, ln):
        return s.atmost(ln, k(0)) or s.atmost(next_multiple_of(ln, WS), k(0))

    def checked(self, I, s, v, decoder=False):
        root, path, lo, ln = I.as_slice(s, v).args
        ver = self.get(s, "ver")
        if ver is not NONE:
            whole, vlo, vln = ver[:3]
            if whole is EMPTY:
                if decoder or self.empty(s, ln):
                    return True
            elif plain(I.load(s, root, path)) is whole:
                if s.same(lo, vlo) or (s.atmost(vlo, lo) and s.atmost(add(lo, ln), add(vlo, vln))):
                    return True
        return not self.from_flash(plain(I.content(s, v))) or (ver is NONE and self.from_ram(ln))

    def from_ram(self, ln):
        """A length put together from bytes kept in RAM."""
        return has_tag(ln, "elem") and not has_tag(ln, "flash") and not has_tag(ln, "phi")

    def reader(self, fr):
        """A method of a user-implementable trait that is given bytes to read."""
        for it, _ in self.F.trait_items.get(fr.path, ()):
            b = self.F.bodies.get(it)
            if b is None:
                continue
            for i in range(b.argc):
                t = self.F.ty(b.locals[i + 1]["ty"])
                if t.get("k") == "ref" and not t.get("mut") and self.F.ty(t["t"]).get("s") == "[u8]":
                    return i
        return None

    def on_prim(self, I, s, cctx, fr, args, dty):
        if kind_of(fr.path) is None:
            i = self.reader(fr)
            if i is not None:
                self.count("decoded", cctx)
                if not self.checked(I, s, args[i], True):
                    self.report("unchecked-data", cctx, "bytes are handed to a key or value decoder that were not found to match the item's checksum: "
                                + show(plain(I.content(s, args[i])), 9) + " ver " + str(self.get(s, "ver")), s)
        return None

    def slices(self, I, s, v, out, n=0):
        v = s.resolve(v)
        if v.tag == "sl":
            out.append(v)
        elif v.tag == "adt" and n < 8:
            for x in v.args[2]:
                self.slices(I, s, x, out, n + 1)
        return out

    def at_exit(self, I, s, v, root):
        if self.get(s, "again") is not NONE:
            self.not_again(s, root)
        v = s.resolve(v)
        if v.tag == "adt" and v.args[0] == RES and v.args[1] == 0:
            for x in self.slices(I, s, v, []):
                self.count("returned", root)
                if not self.checked(I, s, x):
                    self.report("unchecked-data", root, "bytes are returned that were not found to match the item's checksum: "
                                + show(plain(I.content(s, x)), 9) + " ver " + str(self.get(s, "ver")), s)
