"""C04: a push or store writes what it was given, a pop takes out what it returns.  C24 shares the monitor: keys are fetched and removed by comparison."""
import itemmon
from c15 import *

EXTRA = ("want", "put", "er4", "dk", "mt", "ca", "gl", "nx", "nh", "nv", "ka", "va", "cor")
for _n in EXTRA:
    if _n not in IDX:
        IDX[_n] = len(IDX)
SPLIT |= {"want", "put", "er4", "dk", "mt", "ca", "gl", "nx", "nh", "nv", "cor"}
SEEN, ADDED, LOST = adt("corruption:noticed", 0, ()), adt("put:written", 0, ()), adt("put:lost", 0, ())
CORRUPTED = 2


def method(p):
    return p.rsplit("::", 1)[-1]


def of(p, ty):
    return ty in p.rsplit("::", 1)[0]


WALKS = ("fetch", "remove", "remove_all")


class EffectMonitor(WriteMonitor):
    """want: bytes asked to be written (whole buffer, from, length); put: whether they have been; er4: bytes of the item marked as erased;
    dk: key decoded last (value, address of its item, encoded length); mt: item found to have the key asked for (address, length of the key);
    ca: location of the key asked for according to the cache; gl: (length of the key at the start of verified data, address);
    ka/va: the key and value asked for; cor: corruption was noticed"""
    role = whole = reach = None

    def init(self):
        return super().init() + (NONE,) * len(EXTRA)

    def setup(self, I, st, body, args, opts):
        super().setup(I, st, body, args, opts)
        self.role = r = opts["role"]
        t = lambda i: self.F.ty(body.locals[i + 1]["ty"])
        if r == "push":
            d = [I.as_slice(st, v) for i, v in enumerate(args) if t(i).get("k") == "ref" and not t(i).get("mut") and self.F.ty(t(i)["t"]).get("s") == "[u8]"]
            root, path, lo, ln = d[0].args
            self.set(st, want=(plain(I.load(st, root, path)), lo, ln))
        elif r == "store":
            self.set(st, ka=self.target(I, st, args[2]), va=self.target(I, st, args[3]))
        elif r in ("fetch", "remove"):
            self.set(st, ka=self.target(I, st, args[2]))
        elif r == "pop_entry":
            for i, v in enumerate(args):
                if t(i).get("k") == "adt" and t(i)["p"] in self.entries_:
                    a, ln = self.entries_[t(i)["p"]]
                    buf = self.slice_field(I, st, t(i)["p"], v)
                    root, path, lo, n = buf.args
                    # the entry's slice is the item's data: checked where entries are handed out
                    self.whole = n
                    self.set(st, ver=(plain(I.load(st, root, path)), lo, self.at(st, v, ln), self.at(st, v, a), NONE))

    def slice_field(self, I, s, p, v, d=0):
        for i, f in enumerate(self.F.adts[p]["variants"][0]["fields"]):
            if f["ty"] is None:
                continue
            t = self.F.ty(f["ty"])
            x = project_f(v, 0, i)
            if t.get("k") == "ref" and self.F.ty(t["t"]).get("s") == "[u8]":
                return I.as_slice(s, x)
            if t.get("k") == "adt" and t["p"].startswith("crate") and d < 3:
                r = self.slice_field(I, s, t["p"], x, d + 1)
                if r is not None:
                    return r
        return None

    def target(self, I, s, r):
        """What a reference refers to in the end."""
        n = 0
        v = s.resolve(r)
        while n < 5:
            if v.tag == "ref" or v.tag in ("sym", "fld", "adt"):
                w = I.deref(s, v)
                if w.tag in ("ref",):
                    v = w
                    n += 1
                    continue
                return w
            return v
        return v

    def is_target(self, I, s, r, slot):
        want = self.get(s, slot)
        if want is NONE:
            return False
        v, n = s.resolve(r), 0
        while n < 6:
            if v is want:
                return True
            w = I.deref(s, v)
            if w is v or w is None:
                return False
            v = w
            n += 1
        return False

    def codes(self, body):
        """Whether a function may get to a key or value encoder or decoder."""
        if self.reach is None:
            self.reach = closure(self.F)
            self.coders = {p for p in self.F.trait_items if p.rsplit("::", 1)[-1] in ("deserialize_from", "serialize_into")}
        return bool(self.coders & self.reach(body.path))

    # ------------------------------------------------------------ keys and values
    def intercept(self, I, s, cctx, fr, args, dty):
        if fr.path in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and self.role in ("fetch", "remove"):
            r = self.key_compared(I, s, cctx, fr, args)
            if r is not None:
                return r
        return super().intercept(I, s, cctx, fr, args, dty)

    def key_compared(self, I, s, cctx, fr, args):
        dk = self.get(s, "dk")
        if dk is NONE:
            return None
        for x, y in (args, args[::-1]):
            if self.is_target(I, s, y, "ka") and self.equals(I, s, x, dk[0]):
                self.count("key_compared", cctx)
                hit = s.copy()
                self.set(hit, mt=(dk[1], dk[2]), dk=NONE, ca=NONE)
                if self.role == "fetch":
                    self.set(hit, nx=dk[3])
                self.set(s, dk=NONE)
                ne = fr.name == "ne"
                return [(hit, FALSE if ne else TRUE), (s, TRUE if ne else FALSE)]
        return None

    def equals(self, I, s, r, want):
        v, n = s.resolve(r), 0
        while n < 6:
            if v is want:
                return True
            w = I.deref(s, v)
            if w is v or w is None:
                return False
            v = w
            n += 1
        return False

    def on_prim(self, I, s, cctx, fr, args, dty):
        super().on_prim(I, s, cctx, fr, args, dty)
        kd = kind_of(fr.path)
        if kd == "key" and not fr.name.startswith(("notice", "invalidate")) and self.role == "fetch":
            if self.is_target(I, s, args[1], "ka") and self.F.ty(dty).get("p") == OPT:
                v = mk("sym", fr.name, cctx)
                s2 = s.copy()
                self.set(s2, ca=v)
                self.count("cached_location", cctx)
                return [(s, none()), (s2, some(v))]
            return None
        if kd is not None:
            return None
        tr = fr.path.rsplit("::", 1)[0]
        outs = self.split_result(I, s, cctx, fr.name, dty)
        if fr.name == "serialize_into" and self.role == "store":
            return self.serialized(I, s, cctx, args, tr, outs)
        ver = self.get(s, "ver")
        if self.role not in ("fetch", "remove"):
            return None
        if fr.name == "deserialize_from" and tr.endswith("Key"):
            for ns, v in outs:
                v = ns.resolve(v)
                if v.args[1] == 0 and ver is not NONE:
                    p = v.args[2][0]
                    self.set(ns, dk=(project_f(p, 0, 0), ver[3], project_f(p, 0, 1), self.get(ns, "nv")))
            return outs
        if fr.name == "get_len" and tr.endswith("Key"):
            for ns, v in outs:
                v = ns.resolve(v)
                if v.args[1] == 0 and ver is not NONE:
                    self.set(ns, gl=(v.args[2][0], ver[3]))
            return outs
        if fr.name == "deserialize_from" and self.role == "fetch":
            self.value_decoded(I, s, cctx, args[0])
            return outs
        return None

    def serialized(self, I, s, cctx, args, tr, outs):
        d = I.as_slice(s, args[1])
        root, path, lo, ln = d.args
        old = plain(I.load(s, root, path))
        want = self.get(s, "want")
        for ns, v in outs:
            v = ns.resolve(v)
            if v.args[1] != 0:
                continue
            n = v.args[2][0]
            # what the contract of the trait promises
            I.write_slice(ns, d, mk("sym", "ser", cctx))
            whole = plain(I.load(ns, root, path))
            if tr.endswith("Key"):
                self.count("key_encoded", cctx)
                self.set(ns, want=(whole, lo, n, YES) if self.is_target(I, s, args[0], "ka") else NONE)
            else:
                self.count("value_encoded", cctx)
                good = want is not NONE and len(want) == 4 and want[0] is old and s.same(lo, add(want[1], want[2])) and self.is_target(I, s, args[0], "va")
                self.set(ns, want=(whole, want[1], add(want[2], n)) if good else NONE)
        return outs

    def value_decoded(self, I, s, cctx, v):
        ver, mt, ca, gl = self.get(s, "ver"), self.get(s, "mt"), self.get(s, "ca"), self.get(s, "gl")
        self.count("value_decoded", cctx)
        if self.get(s, "nx") is not NONE and not self.behind(s, self.get(s, "nx")):
            self.stopped(s, cctx)
        want = mt[0] if mt is not NONE else ca
        if ver is NONE or want is NONE or not s.same(ver[3], want):
            self.report("wrong-item", cctx, "the value returned is not decoded from the item last found to have the key, nor from the one the cache names for it", s)
            return
        kl = NONE
        if mt is not NONE:
            kl = mt[1]
        if gl is not NONE and s.same(gl[1], ver[3]) and (kl is NONE):
            kl = gl[0]
        root, path, lo, ln = I.as_slice(s, v).args
        if ver[0] is EMPTY:
            return
        ok_ = kl is not NONE and (s.same(lo, add(ver[1], kl)) or (gl is not NONE and s.same(lo, add(ver[1], gl[0])))) and s.same(add(lo, ln), add(ver[1], ver[2]))
        if not ok_:
            self.report("wrong-item", cctx, "the value is decoded from other bytes than those behind the key up to the end of the item", s, extra_key="bytes")

    # ------------------------------------------------------------ writes
    def header(self, I, s, cctx, kind):
        dig0, ver = s.mon[IDX["dig"]], self.get(s, "ver")
        crc = s.resolve(kind[3])
        super().header(I, s, cctx, kind)
        if crc is k(0):
            self.erased(I, s, cctx, kind, ver)
        elif dig0[0] is not NONE and (crc is dig0[0] or s.same(crc, dig0[0])):
            self.added(I, s, cctx, kind, dig0)

    def added(self, I, s, cctx, kind, dig):
        self.count("added", cctx)
        want, put = self.get(s, "want"), self.get(s, "put")
        if self.role not in ("push", "store"):
            self.report("added", cctx, "an item with new content is written by an operation that is not a push or store", s, extra_key="role")
            return
        whole, lo, ln = dig[1:]
        if want is NONE or len(want) != 3 or whole is not want[0] or not s.same(lo, want[1]) or not s.same(ln, want[2]):
            self.report("added", cctx, "an item is written whose content is not what the caller asked to store", s, extra_key="content")
        if put is not NONE:
            self.report("added", cctx, "the item is written a second time", s, extra_key="twice")
        self.set(s, put=ADDED, want=NONE if self.role == "store" else (want if want is not NONE else NONE))

    def erased(self, I, s, cctx, kind, ver):
        self.count("taken_out", cctx)
        er, mt = self.get(s, "er4"), self.get(s, "mt")
        if self.role == "remove":
            if mt is NONE or not s.same(mt[0], kind[1]):
                self.report("removed", cctx, "an item is marked as erased whose key was not found to be the one asked for", s)
            self.set(s, mt=NONE)
        elif self.role == "remove_all":
            self.set(s, er4=(NONE,) * 3)
        elif self.role in ("pop", "pop_entry"):
            if er is not NONE:
                self.report("popped", cctx, "more than one item is marked as erased", s, extra_key="twice")
            self.set(s, er4=ver[:3] if ver is not NONE else (NONE,) * 3)
        else:
            self.report("popped", cctx, "an item is marked as erased by an operation that does not remove items", s, extra_key="role")

    def on_flash(self, I, s, cctx, callctx, op, args):
        if op == "erase" and self.get(s, "put") is ADDED:
            self.set(s, put=LOST)
        if op == "read":
            self.left_behind(s, callctx)
            self.search_goes_on(s, callctx, args[0], I.as_slice(s, args[1]).args[3])
            want = self.get(s, "want")
            if want is not NONE and self.role == "store":
                d = I.as_slice(s, args[1])
                if plain(I.load(s, d.args[0], d.args[1])) is want[0]:
                    self.set(s, want=NONE)
        return super().on_flash(I, s, cctx, callctx, op, args)

    def flash_read(self, I, s, cctx, args):
        h0 = s.mon[IDX["h"]]
        super().flash_read(I, s, cctx, args)
        if self.role in WALKS:
            a, crc, ln, by = s.mon[IDX["h"]]
            if a is NONE:
                self.set(s, nh=NONE, nv=NONE)
            elif by is not h0[3]:
                self.set(s, nh=add(add(a, HDR), next_multiple_of(ln, WS)), nv=NONE)

    def compared(self, s, y, other, val):
        v0 = s.mon[IDX["ver"]]
        super().compared(s, y, other, val)
        if self.role in WALKS:
            if s.mon[IDX["ver"]] is not v0:
                self.set(s, nv=self.get(s, "nh") if s.mon[IDX["ver"]] is not NONE else NONE)
                if self.role != "fetch" and self.get(s, "cor") is NONE and s.mon[IDX["ver"]] is not NONE:
                    self.set(s, nx=self.get(s, "nh"))
            if s.mon[IDX["h"]] is NOH:
                self.set(s, nh=NONE)

    def normalize(self, s):
        nx = self.get(s, "nx")
        if nx is not NONE and self.behind(s, nx):
            self.set(s, nx=NONE)

    def behind(self, s, nx):
        """The code has found that no item header fits at an address."""
        at = add(nx, HDR)
        own = [a for a in atoms(nx) if a not in (HDR, WS, ES) and a.tag != "nmo"]
        for f, v in s.facts.items():
            if f.tag == "lt0" and v is TRUE and own:
                x = f.args[0]
                if all(a in atoms(x) for a in own) and not any(a in atoms(add(x, at)) for a in own):
                    return True
        return False

    def search_goes_on(self, s, cctx, a, ln):
        nx = self.get(s, "nx")
        if nx is NONE or (self.role == "fetch" and not s.same(ln, HDR)):
            return
        if self.get(s, "cor") is NONE and not (s.same(a, nx) and s.same(ln, HDR)) and not self.behind(s, nx):
            self.stopped(s, cctx)
        self.set(s, nx=NONE)

    def stopped(self, s, cctx):
        self.report("removed" if self.role != "fetch" else "wrong-item", cctx, "the search for further items of the key does not go on right behind an item that was found", s, extra_key="search")

    def left_behind(self, s, cctx):
        if self.get(s, "cor") is not NONE:
            return
        if self.role == "remove" and self.get(s, "mt") is not NONE:
            self.report("removed", cctx, "an item found to have the key asked for is not marked as erased", s, extra_key="left")
        if self.role == "remove_all":
            if self.get(s, "ver") is not NONE and self.get(s, "er4") is NONE:
                self.report("removed", cctx, "an item that is present is not marked as erased", s, extra_key="left")
            self.set(s, er4=NONE)

    def on_ret(self, s, body, v):
        ver = s.mon[IDX["ver"]]
        super().on_ret(s, body, v)
        if self.role in WALKS:
            if s.mon[IDX["h"]] is NOH:
                self.set(s, nh=NONE)
            if s.mon[IDX["ver"]] is NONE:
                self.set(s, nv=NONE)
        w = s.resolve(v)
        if w.tag == "adt" and w.args[0] == RES and w.args[1] == 1 and self.codes(body):
            # an attempt has failed
            self.set(s, dk=NONE, mt=NONE, ca=NONE, gl=NONE, nx=NONE)
            if self.role == "store":
                self.set(s, want=NONE)
            e = s.resolve(w.args[2][0])
            if self.role in WALKS[1:] and e.tag == "adt" and e.args[0] == ERR_T and e.args[1] == CORRUPTED:
                self.set(s, cor=SEEN)
        if self.role == "remove_all" and ver is not NONE and s.mon[IDX["ver"]] is NONE:
            self.set(s, er4=NONE)

    def at_exit(self, I, s, v, root):
        super().at_exit(I, s, v, root)
        v = s.resolve(v)
        if v.tag != "adt" or v.args[0] != RES or v.args[1] != 0:
            return
        self.count("success", root)
        x = s.resolve(v.args[2][0])
        r = self.role
        if r in ("push", "store"):
            put = self.get(s, "put")
            if put is not ADDED:
                self.report("added", root, "success is reported although the item was not written" if put is NONE else "success is reported although a page was erased after the item was written", s, extra_key="exit")
        elif r in ("remove", "remove_all"):
            self.left_behind(s, root)
            if self.get(s, "cor") is NONE and self.get(s, "nx") is not NONE and not self.behind(s, self.get(s, "nx")):
                self.stopped(s, root)
        elif r in ("pop", "pop_entry"):
            er = self.get(s, "er4")
            if r == "pop" and x.tag == "adt" and x.args[0] == OPT:
                if x.args[1] == 0:
                    if er is not NONE:
                        self.report("popped", root, "an item is marked as erased although none is returned", s, extra_key="none")
                    return
                x = s.resolve(x.args[2][0])
            self.popped(I, s, root, x, er)
        elif r == "next":
            for e in self.remembered(s, v, []):
                self.count("handed_out", root)
                d = self.slice_field(I, s, e.args[0], e)
                ver = self.get(s, "ver")
                if d is None or not s.same(d.args[3], self.at(s, e, self.entries_[e.args[0]][1])) or ver is NONE or (ver[0] is not EMPTY and not s.same(d.args[2], ver[1])):
                    self.report("popped", root, "the entry handed out does not hold exactly the data of its item", s, extra_key="entry")
        elif r == "fetch":
            if x.tag == "adt" and x.args[0] == OPT and x.args[1] == 0 and self.get(s, "mt") is not NONE:
                self.report("wrong-item", root, "nothing is returned although an item with the key was found", s, extra_key="none")

    def popped(self, I, s, root, x, er):
        if er is NONE:
            self.report("popped", root, "an item is returned that was not marked as erased", s, extra_key="not")
            return
        whole, lo, ln = er
        d = I.as_slice(s, x)
        r2, path, lo2, n2 = d.args
        self.count("popped", root)
        if whole is EMPTY:
            good = self.empty(s, n2)
        else:
            good = whole is not NONE and plain(I.load(s, r2, path)) is whole and s.same(lo, lo2) and (s.same(ln, n2) or (self.role == "pop_entry" and n2 is self.whole))
        if not good:
            self.report("popped", root, "what is returned is not the content of the item marked as erased", s, extra_key="which")


ERR_T = "crate::Error"
ROLES = {"push": ("push", "QueueStorage"), "pop": ("pop", "QueueStorage"), "store_item": ("store", "MapStorage"), "store_item_generic": ("store", "MapStorage"),
         "fetch_item": ("fetch", "MapStorage"), "remove_item": ("remove", "MapStorage"), "remove_all_items": ("remove_all", "MapStorage")}


def roles(F):
    out = []
    for p in storage_entries(F):
        m = method(p)
        if m in ROLES and of(p, ROLES[m][1]):
            out.append((p, ROLES[m][0]))
        elif m == "pop" and of(p, "QueueIteratorEntry"):
            out.append((p, "pop_entry"))
        elif m == "peek" and of(p, "QueueStorage"):
            out.append((p, "peek"))
        elif m == "next" and of(p, "QueueIterator"):
            out.append((p, "next"))
    return out


class Monitor(EffectMonitor):
    NAME = "C04"
    RULES = {"added", "popped"}


class C04(Check):
    """The operations that add or take out items are interpreted over all paths without flash errors.  Push and store: on success
    exactly one item with new content was written, its checksum was taken over exactly the caller's bytes (push) or over the bytes
    the caller's key and then the caller's value were encoded to, in one unchanged buffer (store), and no page was erased
    afterwards.  Pop: the item returned is the one, and the only one, marked as erased; when nothing is returned nothing is marked."""
    ID = "C04"
    MONITOR = Monitor
    WHICH = ("push", "store", "pop", "pop_entry", "peek", "next")

    def entries(self, F):
        return [p for p, r in roles(F) if r in self.WHICH]

    def jobs(self, F, tier):
        return [("main", p, {"role": r}) for p, r in roles(F) if r in self.WHICH]

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"new items": (1, n("added")), "items taken out": (1, n("taken_out")), "returned": (2, n("popped")), "keys encoded": (1, n("key_encoded")),
                "values encoded": (1, n("value_encoded"))}


CHECK = C04()
