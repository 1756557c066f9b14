"""C15: whatever is written as an item is a well-formed item.  C09 shares the monitor: items are taken out only by their own header."""
from itemmon import *


def number_fields(F, ty, pre=(), d=0):
    """Numbers a value of this type holds directly: (path, bits)."""
    t = F.ty(ty)
    if t.get("k") in ("int", "uint"):
        return [(pre, t["s"])]
    if t.get("k") != "adt" or d > 4 or not t["p"].startswith("crate"):
        return []
    a = F.adts.get(t["p"])
    if a is None or len(a["variants"]) != 1:
        return []
    out = []
    for i, f in enumerate(a["variants"][0]["fields"]):
        if f["ty"] is not None:
            out += number_fields(F, f["ty"], pre + (i,), d + 1)
    return out


def entry_types(F):
    """Types handed out by an operation that remember one item: they are taken by value by another operation, and hold an address and a length."""
    out = {}
    for p in storage_entries(F):
        b = F.bodies[p]
        for i in range(b.argc):
            t = F.ty(b.locals[i + 1]["ty"])
            if t.get("k") == "adt" and t["p"].startswith("crate"):
                n = number_fields(F, b.locals[i + 1]["ty"])
                a, ln = [q for q, s in n if s == "u32"], [q for q, s in n if s == "u16"]
                if len(a) == 1 and len(ln) == 1:
                    out[t["p"]] = (a[0], ln[0])
    return out


class WriteMonitor(ItemMonitor):
    """hw: item whose header was written and whose data is not complete yet: (address, length, bytes written, whole buffer, offset)"""
    multiwrite = False

    def __init__(self, F):
        super().__init__(F)
        self.entries_ = entry_types(F)

    def at(self, s, v, path):
        for i in path:
            v = s.resolve(project_f(s.resolve(v), 0, i))
        return v

    def setup(self, I, st, body, args, opts):
        super().setup(I, st, body, args, opts)
        self.multiwrite = "MultiwriteNorFlash" in str(body.preds_s)
        for i, v in enumerate(args):
            t = self.F.ty(body.locals[i + 1]["ty"])
            if t.get("k") == "adt" and t["p"] in self.entries_:
                a, ln = self.entries_[t["p"]]
                self.set(st, ver=(EMPTY, k(0), self.at(st, v, ln), self.at(st, v, a), NONE))

    def digested(self, I, s, v, where):
        if where.args[3] is not k(2):
            super().digested(I, s, v, where)

    def on_flash(self, I, s, cctx, callctx, op, args):
        hw = self.get(s, "hw")
        kind = self.classify_write(I, s, args[0], args[1]) if op == "write" else (op,)
        if hw is not NONE and kind[0] != "data":
            self.complete(s, callctx, hw)
            hw = NONE
        if kind[0] == "header":
            self.header(I, s, callctx, kind)
        elif kind[0] == "data":
            self.data(I, s, callctx, kind, args, hw)
        return super().on_flash(I, s, cctx, callctx, op, args)

    def complete(self, s, cctx, hw):
        a, ln, done = hw[:3]
        if not (s.same(ln, done) or s.atmost(sub(ln, done), k(0))):
            self.report("item-format", cctx, "an item's data was not written completely before the operation went on", s)
        self.set(s, hw=NONE)

    def header(self, I, s, cctx, kind):
        _, a, ln, crc, lc = kind
        crc = s.resolve(crc)
        self.count("header_write", cctx)
        c = lc.args[1] if lc.tag == "le" else NONE
        body = plain(c.args[2]) if is_dig(c) else NONE
        if not (body.tag == "le" and body.args[0] is k(2) and s.same(body.args[1], ln)):
            self.report("item-format", cctx, "an item header is written whose length checksum is not that of its length", s)
        ver, dig = self.get(s, "ver"), s.mon[IDX["dig"]]
        if crc is k(0):
            self.count("item_erase", cctx)
            if ver is NONE or not s.same(ver[3], a):
                self.report("item-erase", cctx, "an item is marked as erased that is not the one found by its checksum right before", s, extra_key="which")
            elif not s.same(ver[2], ln):
                self.report("item-erase", cctx, "an item is marked as erased with another length than it has", s, extra_key="length")
            if not self.multiwrite:
                self.report("item-erase", cctx, "an item header is written a second time by an operation that does not ask for MultiwriteNorFlash", s, extra_key="bound")
            self.set(s, er=YES)
            return
        if dig[0] is not NONE and (crc is dig[0] or s.same(crc, dig[0])):
            whole, lo, dn = dig[1:]
            self.count("new_item", cctx)
        elif ver is not NONE and (crc is ver[4] or s.same(crc, ver[4])):
            whole, lo, dn = ver[:3]
            self.count("copied_item", cctx)
        else:
            self.report("item-format", cctx, "an item header is written whose checksum is not that of the data last looked at", s, extra_key="crc")
            return
        if not s.same(dn, ln):
            self.report("item-format", cctx, "an item header is written with a length other than that of the data its checksum was taken from", s, extra_key="length")
        self.set(s, hw=(a, ln, k(0), whole, lo))

    def data(self, I, s, cctx, kind, args, hw):
        _, a, n = kind
        self.count("data_write", cctx)
        if hw is NONE:
            self.report("item-format", cctx, "bytes are written to flash that are neither a page marker nor an item header nor follow an item header", s)
            return
        h, ln, done, whole, lo = hw
        if not s.same(a, add(add(h, HDR), done)):
            self.report("item-format", cctx, "item data is not written right behind its header", s, extra_key="address")
        d = I.as_slice(s, args[1])
        root, path, lo2, n2 = d.args
        left = sub(ln, done)
        if plain(I.load(s, root, path)) is whole and s.same(lo2, add(lo, done)) and s.atmost(n2, left):
            done = add(done, n2)
        else:
            have = plain(I.content(s, sl(root, path, lo2, left)))
            want = NONE if whole is EMPTY else plain(I.part(s, whole, add(lo, done), left))
            if not (have is want and (s.same(n2, next_multiple_of(left, WS)) or s.same(n2, left))):
                self.report("item-format", cctx, "item data is written that is not (the rest of) the data the header's checksum was taken from", s, extra_key="content")
            done = ln
        self.set(s, hw=NONE if s.same(done, ln) else (h, ln, done, whole, lo))

    def on_ret(self, s, body, v):
        hw = self.get(s, "hw")
        if hw is not NONE and (s.same(hw[1], hw[2]) or s.atmost(sub(hw[1], hw[2]), k(0))):
            self.set(s, hw=NONE)
        er = s.mon[IDX["er"]]
        super().on_ret(s, body, v)
        v = s.resolve(v)
        if v.tag == "adt" and v.args[0] == RES and v.args[1] == 1:
            self.set(s, hw=NONE)

    def at_exit(self, I, s, v, root):
        hw = self.get(s, "hw")
        if hw is not NONE:
            self.complete(s, root, hw)
        v = s.resolve(v)
        if v.tag == "adt" and v.args[0] == RES and v.args[1] == 0:
            for x in self.remembered(s, v, []):
                self.count("remembered", root)
                a, ln = self.entries_[x.args[0]]
                ver = self.get(s, "ver")
                if ver is NONE or not s.same(ver[3], self.at(s, x, a)) or not s.same(ver[2], self.at(s, x, ln)):
                    self.report("item-erase", root, "the entry handed out does not remember the address and length of the item found", s, extra_key="entry")

    def remembered(self, s, v, out, n=0):
        v = s.resolve(v)
        if v.tag == "adt":
            if v.args[0] in self.entries_:
                out.append(v)
            elif n < 6:
                for x in v.args[2]:
                    self.remembered(s, x, out, n + 1)
        return out


class Monitor(WriteMonitor):
    NAME = "C15"
    RULES = {"item-format"}


class C15(Check):
    """Every public storage entry point is interpreted over all paths without flash errors.  Each flash write is classified by
    what it writes: a page marker (one repeated byte at a marker address), an item header, or anything else.  Rules: a header's
    length checksum is taken from the length written; its data checksum is either zero (removal, see C09), or the last checksum
    taken, or that of the item verified last, and its length is that of those bytes; the bytes then written are exactly those
    bytes (last word padded), start right behind the header, follow each other without gaps and are complete before the flash is
    used otherwise or the operation succeeds; nothing else is written."""
    ID = "C15"
    MONITOR = Monitor

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"header writes": (1, n("header_write")), "new items": (1, n("new_item")), "copied items": (1, n("copied_item")),
                "data writes": (2, n("data_write"))}


CHECK = C15()
