"""What the code knows about the flash: page states, item walks and free spots, as ghost state shared by several checks.

All ghost values are terms, so states merge exactly when the program's own state does; evidence that differs between merged
paths becomes an unknown and counts as missing."""
from flashmon import *

NONE = mk("sym", "none", None)
YES = mk("sym", "yes", None)
ERR = "crate::Error"
FIRST, RETRY = mk("sym", "phase:first", None), mk("sym", "phase:retry", None)
NOTHING = (NONE,) * len(KINDS)


def st_(name):
    return mk("sym", "state:" + name, None)


OPEN, PARTIAL, CLOSED = st_("Open"), st_("PartialOpen"), st_("Closed")
SN = (CLOSED, PARTIAL, OPEN)
RUN, PEND, LIVE, DONE, DIRTY = (adt("walk:" + n, 0, ()) for n in ("run", "pend", "live", "done", "dirty"))
# walk: page, next header address, status, address of the header in hand, its crc term, its length term, its content
NOWALK = (NONE,) * 7
WP, WN, WST, WA, WC, WL, WH = range(7)
NW = 2
SNAMES = ("Closed", "PartialOpen", "Open")
SLOTS = ("ph", "who", "em", "bad", "rs", "re", "kc", "kp", "ko", "kw", "sw", "absent", "walks", "spot", "mine", "lh", "hw", "consent",
         "permit")
SPLIT = {"kc", "kp", "ko", "kw", "permit", "bad"}  # known and unknown are kept apart when paths merge
IDX = {n: i for i, n in enumerate(SLOTS)}


class WorldMonitor(FlashMonitor):
    """ph/who/em: repair phase, phase of the corruption a callee just reported, sub-caches emptied; bad: page found impossible
    in a repair; rs/re: last marker reads; kc/kp/ko: page last seen closed/partially open/open; kw: page this operation has opened for
    writing; sw: pages looked at one after the other and the states seen; absent: states no page is in; walks: item walks (an outer and
    an inner one); spot: last free spot found (address, page); mine: free spot after what this operation wrote; lh: last header read
    (address, crc, length); hw: last item header written (address, length, bytes of data written); consent: bool arguments of the
    entry point; permit: page that may be erased"""
    RULES = None

    def __init__(self, F):
        super().__init__(F)
        self.corrupted = [i for i, v in enumerate(F.adts[ERR]["variants"]) if v["name"] == "Corrupted"][0]

    def report(self, rule, cctx, msg, s=None, extra_key=""):
        if self.RULES is None or rule in self.RULES:
            super().report(rule, cctx, msg, s, extra_key)

    # ------------------------------------------------------------ ghost access
    def init(self):
        return (FIRST, NONE, NOTHING, NONE, NONE, NONE, NONE, NONE, NONE, NONE, (), (FALSE,) * 3, (NOWALK,) * NW, (NONE, NONE), (NONE, NONE),
                (NONE, NONE, NONE), (NONE, NONE, NONE), (), NONE)

    def get(self, s, n):
        v = s.mon[IDX[n]]
        return v.args[2][0] if n in SPLIT and v is not NONE else v

    def set(self, s, **kw):
        m = list(s.mon)
        for n, v in kw.items():
            m[IDX[n]] = some(v) if n in SPLIT and v is not NONE else v
        s.mon = tuple(m)

    def setup(self, I, st, body, args, opts):
        cons = tuple(a for i, a in enumerate(args) if self.F.ty(body.locals[i + 1]["ty"]).get("k") == "bool")
        self.set(st, consent=cons)
        # a page can hold at least one empty item besides its two markers
        st.facts[lt0(sub(ES, add(scale(WS, 2), HDR)))] = FALSE

    # ------------------------------------------------------------ page knowledge
    def samepage(self, s, p, q, base=None):
        if p is NONE or q is NONE:
            return False
        if p.tag == "app" and p.args[0] == "pageof":
            if q.tag == "app" and q.args[0] == "pageof":
                return s.same(p.args[2], q.args[2])
            return q.tag == "div" and q.args[1] is ES and not has_stale(p) and not has_stale(q) and self.rel(sub(p.args[2], q.args[0]))
        if q.tag == "app" and q.args[0] == "pageof":
            return self.samepage(s, q, p)
        return s.same(p, q)

    def rel(self, d):
        """d is the start of the storage's flash range"""
        return d.tag == "fld"

    def state_of(self, s, p):
        for n, st in (("kw", PARTIAL), ("kp", PARTIAL), ("ko", OPEN), ("kc", CLOSED)):
            if self.samepage(s, self.get(s, n), p):
                return st
        return NONE

    def learn(self, s, p, st, changed=False):
        """Page p is in state st: False if that can't be."""
        if not changed:
            old = self.state_of(s, p)
            if (old is not NONE and old is not st) or self.get(s, "absent")[SN.index(st)] is TRUE:
                return False
            self.look(s, p, st)
        kv = {}
        for n, t in (("kp", PARTIAL), ("ko", OPEN), ("kc", CLOSED)):
            if t is st:
                kv[n] = p
            elif self.samepage(s, self.get(s, n), p):
                kv[n] = NONE
        if changed:
            kv["sw"] = ()
            kv["absent"] = tuple(FALSE if t is st else a for t, a in zip(SN, self.get(s, "absent")))
            if st is PARTIAL:
                kv["kw"] = p
            elif self.samepage(s, self.get(s, "kw"), p):
                kv["kw"] = NONE
        self.set(s, **kv)
        return True

    # looking at all pages one after the other
    def look(self, s, p, st):
        sw = self.get(s, "sw")
        q = p.args[0] if p.tag == "rem" else p
        fl = tuple(YES if t is st else NONE for t in SN)
        if sw and self.swept(s, sw):
            sw = ()
        if sw:
            lo, hi, old = sw
            both = tuple(YES if YES in (x, y) else (NONE if x is NONE and y is NONE else x) for x, y in zip(old, fl))
            if s.same(q, hi):
                self.set(s, sw=(lo, add(hi, k(1)), both))
                return
            if s.same(q, sub(lo, k(1))):
                self.set(s, sw=(q, hi, both))
                return
        self.set(s, sw=(q, add(q, k(1)), fl))

    def swept(self, s, sw):
        d = sub(sw[1], sw[0])
        if has_stale(d):
            return False
        return any(s.truth(lt0(sub(d, n))) is False for n in page_counts(s))

    # ------------------------------------------------------------ walks
    def start_walk(self, s, p, nxt, status=RUN):
        w = list(self.get(s, "walks"))
        new = (p, nxt, status) + NOWALK[3:]
        i = next((i for i, x in enumerate(w) if self.samepage(s, x[WP], p)), None)
        if i is None:
            i = next((i for i, x in enumerate(w) if x[WST] not in (RUN, PEND, LIVE)), NW - 1)
        w[i] = new
        self.set(s, walks=tuple(w))
        return i

    def drop_walks(self, s, p):
        self.set(s, walks=tuple(NOWALK if self.samepage(s, x[WP], p) else x for x in self.get(s, "walks")))

    def normalize(self, s):
        sw = self.get(s, "sw")
        if sw and self.swept(s, sw):
            self.set(s, sw=(), absent=tuple(TRUE if f is NONE else a for f, a in zip(sw[2], self.get(s, "absent"))))
        w = self.get(s, "walks")
        if any(x[WST] in (PEND, LIVE) for x in w):
            out = []
            for x in w:
                if x[WST] is PEND:
                    x = self.settle(s, x)
                elif x[WST] is LIVE:
                    x = self.resolve_live(s, x)
                out.append(x)
            self.set(s, walks=tuple(out))
        self.finished_walks(s)
        pm = self.permitted(s)
        if pm is not None:
            self.set(s, permit=pm)

    def finished_walks(self, s):
        for x in self.get(s, "walks"):
            if x[WST] is DONE and x[WN] is not self.get(s, "spot")[0] and not has_stale(x[WN]) and not has_stale(x[WP]):
                self.set(s, spot=(x[WN], x[WP]))

    def settle(self, s, x):
        """A header was read: erased, live, blank or damaged?"""
        p, n, st, a, c, l, h = x
        if has_stale(h) or h.tag == "phi":
            return (p, n, DIRTY) + NOWALK[3:]
        ff = s.facts.get(mk("app", "allff", k(0), h))
        if ff is TRUE:
            return (p, a, DONE) + NOWALK[3:]
        if self.damaged(s, x):
            return (p, add(a, WS), RUN) + NOWALK[3:]
        z = s.truth(eq0(c))
        nxt = add(add(a, HDR), next_multiple_of(l, WS))
        if z is True:
            return (p, nxt, RUN) + NOWALK[3:]
        if z is False:
            return self.resolve_live(s, (p, nxt, LIVE, a, c, l, h))
        return x

    def damaged(self, s, x):
        """The header's own check failed, or it claims more than fits."""
        p, n, st, a, c, l, h = x
        for f, v in s.facts.items():
            if f.tag == "eq0" and v is FALSE:
                ap = self.atoms(f.args[0])
                if any(y.tag == "app" and str(y.args[0]).startswith("digest:") for y in ap) and any(self.of_header(y, h) for y in ap):
                    return True
            elif f.tag == "lt0":
                # end - (a + HDR + nmo(len)) < 0
                e = add(f.args[0], add(add(a, HDR), next_multiple_of(l, WS))) if v is TRUE else None
                if e is not None and e is not f.args[0] and self.is_end(s, e, p):
                    return True
        return False

    def of_header(self, y, h):
        return y.tag == "app" and y.args[0] == "from_le_bytes" and contains(y, h)

    def is_end(self, s, e, p):
        base, q, off = split_addr(e)
        return off is scale(WS, -1) and self.is_start(base)

    def atoms(self, x):
        c, d = tm._lin(x)
        out = []
        for m in d:
            out.extend(m)
        return out

    def resolve_live(self, s, x):
        """A live item no longer counts when its data fails its check, or when the code found its key elsewhere."""
        p, n, st, a, c, l, h = x
        if has_stale(a) or has_stale(c):
            return (p, n, DIRTY) + NOWALK[3:]
        for f, v in s.facts.items():
            if f.tag == "eq0" and v is FALSE:
                at = self.atoms(f.args[0])
                if c in at and any(y.tag == "app" and str(y.args[0]).startswith("digest:") for y in at):
                    return (p, n, RUN) + NOWALK[3:]
                for y in (add(f.args[0], a), sub(a, f.args[0])):
                    if y.tag in ("sym", "phi", "fld") and y is not a and f.args[0] is not a:
                        return (p, n, RUN) + NOWALK[3:]
        return x

    def walk_end(self, s, x):
        """Running walk whose next header would not fit before the end marker."""
        p, n, st = x[:3]
        if st is not RUN or n is NONE or has_stale(n):
            return False
        t = add(n, HDR)
        for f, v in s.facts.items():
            if f.tag == "lt0" and v is TRUE:
                e = add(f.args[0], t)
                if self.is_end(s, e, p):
                    return True
        return False

    def on_ret(self, s, body, v):
        v = s.resolve(v)
        ph, who = self.get(s, "ph"), self.get(s, "who")
        if v.tag != "adt" or v.args[0] != RES:
            return
        x = s.resolve(v.args[2][0])
        if v.args[1] == 1:
            if x.tag == "adt" and x.args[0] == ERR and x.args[1] == self.corrupted and body.path.split("::{")[0] != self.entry:
                rs, re = self.get(s, "rs"), self.get(s, "re")
                if rs is not NONE and s.same(rs, re):
                    self.set(s, bad=rs)
                self.set(s, who=ph, rs=NONE, re=NONE)
            return
        sn = self.state_name(s, x)
        if sn is not None:
            rs, re = self.get(s, "rs"), self.get(s, "re")
            if rs is not NONE and s.same(rs, re):
                if not self.learn(s, rs, st_(sn)):
                    return False
                self.set(s, rs=NONE, re=NONE)
        # end of a walk
        w = self.get(s, "walks")
        if any(q[WST] in (RUN, PEND) for q in w):
            noneish = x.tag == "adt" and x.args[0] == OPT and x.args[1] == 0
            out = []
            for q in w:
                if q[WST] is RUN and self.walk_end(s, q):
                    q = (q[WP], q[WN], DONE) + NOWALK[3:]
                elif q[WST] is PEND and noneish:
                    q = self.settle(s, q)
                    if q[WST] is PEND and s.facts.get(mk("app", "allff", k(0), q[WH])) is None:
                        q = (q[WP], q[WA], DONE) + NOWALK[3:]
                out.append(q)
            self.set(s, walks=tuple(out))

    # ------------------------------------------------------------ digests
    def intercept(self, I, s, cctx, fr, args, dty):
        if self.is_digest(fr):
            sl_ = I.as_slice(s, args[0])
            c = I.content(s, sl_)
            self.count("digest", cctx)
            v = mk("app", "digest:" + self.digest_path(fr), k(0), c)
            if self.F.ty(dty).get("k") == "adt":
                s.facts[eq0(v)] = FALSE
            return [(s, v)]
        return super().intercept(I, s, cctx, fr, args, dty)

    _dig = {}

    def digest_path(self, fr):
        return fr.resolved if fr.resolved in self.F.bodies else fr.path

    def is_digest(self, fr):
        """A local function from bytes to a number."""
        path = self.digest_path(fr)
        key = (id(self.F), path)
        r = self._dig.get(key)
        if r is None:
            r = self._dig[key] = self._is_digest(path)
        return r

    def _is_digest(self, path):
        b = self.F.bodies.get(path)
        if b is None or b.argc != 1 or b.kind not in ("Fn", "AssocFn"):
            return False
        t = self.F.ty(b.locals[1]["ty"])
        if t.get("k") != "ref" or self.F.ty(t["t"]).get("s") != "[u8]":
            return False
        r = self.F.ty(b.locals[0]["ty"])
        return r.get("k") in ("int", "uint") or (r.get("k") == "adt" and r["p"].endswith("NonZero"))

    # ------------------------------------------------------------ cache
    def on_prim(self, I, s, cctx, fr, args, dty):
        kind = kind_of(fr.path)
        if kind is None:
            return None
        n = fr.name
        if n.startswith("invalidate"):
            em = tuple(YES if q == kind else e for q, e in zip(KINDS, self.get(s, "em")))
            ph, who = self.get(s, "ph"), self.get(s, "who")
            if (ph is RETRY or who is not NONE) and all(e is YES for e in em):
                if ph is not RETRY:
                    self.count("repair", self.caller(cctx))
                self.set(s, ph=RETRY, bad=NONE, em=em)
            else:
                self.set(s, em=em)
            return None
        self.set(s, em=NOTHING, who=NONE)
        if n.startswith("notice"):
            return None
        out = []
        for ns, v in self.split_result(I, s, cctx, n, dty):
            if v.tag != "adt" or v.args[0] != OPT:
                out.append((ns, v))
                continue
            if kind == "page" and v.args[1] == 1:
                sn = self.state_name(ns, v.args[2][0])
                if sn and not self.learn(ns, args[1], st_(sn)):
                    continue
            elif n == "first_item_after_erased":
                self.start_walk(ns, args[1], v.args[2][0] if v.args[1] == 1 else NONE)
            elif n == "first_item_after_written" and v.args[1] == 1:
                self.set(ns, spot=(v.args[2][0], args[1]))
            out.append((ns, v))
        return out

    # ------------------------------------------------------------ flash
    def on_flash(self, I, s, cctx, callctx, op, args):
        out = self.flash_outcomes(I, s, cctx, callctx, op, args)[:1]
        s = out[0][0]
        self.set(s, em=NOTHING, who=NONE)
        if op == "read":
            self.flash_read(I, s, callctx, args)
        elif op == "erase":
            c = self.classify_erase(s, args[0], args[1])
            self.before_erase(I, s, callctx, c)
            if c[0] == "page":
                self.learn(s, c[1], OPEN, True)
                self.set(s, permit=NONE)
                self.drop_walks(s, c[1])
                for n in ("spot", "mine"):
                    if self.samepage(s, self.get(s, n)[1], c[1]):
                        self.set(s, **{n: (NONE, NONE)})
                if self.samepage(s, self.get(s, "bad"), c[1]):
                    self.set(s, bad=NONE)
        else:
            c = self.classify_write(I, s, args[0], args[1])
            self.count("write_" + c[0], callctx)
            if c[0] == "marker":
                self.before_marker(I, s, callctx, c[1], c[2])
                if c[1] == "start":
                    if self.state_of(s, c[2]) is OPEN:
                        self.set(s, spot=(add(args[0], WS), c[2]), mine=(add(args[0], WS), c[2]))
                    self.learn(s, c[2], PARTIAL, True)
                else:
                    self.learn(s, c[2], CLOSED, True)
            elif c[0] == "header":
                if c[3] is k(0):
                    self.erase_header(I, s, callctx, c)
                else:
                    self.new_item(I, s, callctx, c)
            else:
                self.data_write(I, s, callctx, c)
        return out

    def flash_read(self, I, s, callctx, args):
        d = I.as_slice(s, args[1])
        a, ln = args[0], d.args[3]
        c = self.classify_read(s, a, ln)
        if c:
            self.set(s, **{"rs" if c[0] == "start" else "re": c[1]})
            if c[0] == "start":
                self.set(s, re=NONE)
            return
        if not s.same(ln, HDR):
            return
        self.set(s, rs=NONE, re=NONE)
        root, path, lo = d.args[0], d.args[1], d.args[2]

        def field(o, n):
            v = I.content(s, sl(root, path, add(lo, k(o)), k(n)))
            if v.tag == "arr" and not v.args[2]:
                v = v.args[0]
            return mk("app", "from_le_bytes", k(n), v)

        h = I.content(s, d)
        crc, ln2 = field(0, 4), field(4, 2)
        self.set(s, lh=(a, crc, ln2))
        w = list(self.get(s, "walks"))
        base, p, off = split_addr(a)
        started = None
        if off is WS and self.is_start(base):
            for i, x in enumerate(w):
                if self.samepage(s, x[WP], p) and x[WST] is RUN and x[WN] is NONE:
                    started = i
            if started is None:
                started = self.start_walk(s, p, a)
                w = list(self.get(s, "walks"))
        self.count("header_read", callctx)
        for i, x in enumerate(w):
            if i == started or (x[WST] in (RUN, LIVE, PEND) and x[WN] is not NONE and s.same(x[WN], a)) or \
                    (x[WST] is PEND and s.same(x[WA], a)):
                if x[WST] is LIVE and i != started:
                    w[i] = self.passed_live(s, x)
                else:
                    w[i] = (x[WP], a, PEND, a, crc, ln2, h)
        self.set(s, walks=tuple(w))

    def passed_live(self, s, x):
        return (x[WP], x[WN], DIRTY) + NOWALK[3:]

    # ------------------------------------------------------------ hooks of the rules
    def next_of(self, s, q, p):
        """p is the page after q."""
        return p.tag == "rem" and s.same(p.args[0], add(q, k(1)))

    def permitted(self, s):
        """Page that may be erased because nothing in it is needed any more, or because the caller said so."""
        for x in self.get(s, "walks"):
            if x[WST] is DONE and x[WP] is not NONE:
                return x[WP]
        if any(s.truth(c) is True for c in self.get(s, "consent")):
            ps = [p for p in (self.get(s, "kw"), self.get(s, "kp")) if p is not NONE]
            c = self.get(s, "kc")
            if c is not NONE and any(self.next_of(s, q, c) for q in ps):
                return c
            for p in ps:
                if self.next_of(s, p, p):
                    return p
        return None

    def before_erase(self, I, s, callctx, c):
        if c[0] != "page":
            self.count("erase_range", callctx)
            self.report("erase-range", callctx, "something other than one whole page is erased", s)
            return
        p = c[1]
        self.count("erase_page", callctx)
        if self.samepage(s, self.get(s, "bad"), p):
            self.count("erase_bad", callctx)
        elif self.samepage(s, self.get(s, "permit"), p) or self.samepage(s, self.permitted(s) or NONE, p):
            self.count("erase_permitted", callctx)
        elif self.get(s, "ph") is RETRY and self.state_of(s, p) is PARTIAL and self.not_open_after(s, p):
            self.count("erase_half_migrated", callctx)
        else:
            self.report("erase-needed", callctx, "a page is erased that is not known to hold nothing needed: " + show(p, 9), s)

    def not_open_after(self, s, p):
        return any(q is not NONE and self.next_of(s, p, q) for q in (self.get(s, "kc"), self.get(s, "kp")))

    def before_marker(self, I, s, callctx, which, p):
        st = self.state_of(s, p)
        if which == "start":
            if st is not OPEN:
                self.report("remark-start", callctx, "the start marker is written on a page that is not known to be erased", s)
            if any(self.get(s, n) is not NONE and not self.samepage(s, self.get(s, n), p) for n in ("kp", "kw")):
                self.report("second-partial", callctx, "a page is opened for writing while another one is still partially open", s)
        else:
            if st is not PARTIAL:
                self.report("remark-end", callctx, "the end marker is written on a page that is not known to be partially open", s)
            if not self.next_of(s, p, self.get(s, "ko")):
                self.report("closed-without-successor", callctx, "a page is closed although the page after it is not known to be erased", s)

    def spot_page(self, s, a):
        """Page of a free spot, if the address is one."""
        self.finished_walks(s)
        for n in ("spot", "mine"):
            b, p = self.get(s, n)
            if b is not NONE and s.same(a, b):
                return p
        return None

    def erase_header(self, I, s, callctx, c):
        out = []
        for x in self.get(s, "walks"):
            if x[WST] is LIVE and s.same(x[WA], c[1]):
                x = (x[WP], x[WN], RUN) + NOWALK[3:]
            out.append(x)
        self.set(s, walks=tuple(out))

    def new_item(self, I, s, callctx, c):
        _, a, ln, crc, lcrc = c
        p = self.spot_page(s, a)
        self.before_item(I, s, callctx, c, p)
        la, lc, ll = self.get(s, "lh")
        out = []
        for x in self.get(s, "walks"):
            if x[WST] is LIVE and s.same(la, x[WA]) and (crc is lc or s.same(crc, lc)) and s.same(ln, ll):
                self.count("migrated", callctx)
                x = (x[WP], x[WN], RUN) + NOWALK[3:]
            elif p is not None and self.samepage(s, x[WP], p):
                x = NOWALK
            out.append(x)
        self.set(s, walks=tuple(out), hw=(a, ln, k(0)))
        if p is not None:
            if self.samepage(s, self.get(s, "permit"), p):
                self.set(s, permit=NONE)
            e = add(add(a, HDR), next_multiple_of(ln, WS))
            self.set(s, spot=(e, p), mine=(e, p))

    def before_item(self, I, s, callctx, c, p):
        if p is None:
            self.report("not-free", callctx, "an item is written at a place not known to be free: " + show(c[1], 9), s)
        elif self.state_of(s, p) is not PARTIAL:
            self.report("item-in-wrong-page", callctx, "an item is written into a page that is not known to be partially open", s)

    def data_write(self, I, s, callctx, c):
        a, ln, w = self.get(s, "hw")
        if a is NONE or not s.same(c[1], add(add(a, HDR), w)):
            self.report("data-outside-item", callctx, "data is written somewhere else than in the item whose header was just written", s)
        else:
            self.set(s, hw=(a, ln, add(w, c[2])))


def contains(x, y):
    if x is y:
        return True
    if not isinstance(x, T):
        if isinstance(x, tuple):
            return any(contains(z, y) for z in x)
        return False
    return any(contains(z, y) for z in x.args if isinstance(z, (T, tuple)))


def page_counts(s):
    """Terms for the number of pages."""
    out, seen = [], set()

    def walk(x):
        if isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.tag == "div" and x.args[1] is ES:
                out.append(x)
            walk(x.args)
    for f in s.facts:
        if f.tag == "lt0":
            walk(f)
    return out + [max_(x, k(1)) for x in out]
