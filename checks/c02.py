"""C02: the cache is told exactly what happens to the flash before it is trusted again."""
from flashmon import *

MAXP = 2
NONE = mk("sym", "none", None)


def st_(name):
    return mk("sym", "state:" + name, None)


YES = mk("sym", "yes", None)


# monitor value: tuple of slots, see IDX
IDX = {n: i for i, n in enumerate(("d", "empty", "rs", "re", "ds", "dp", "pn", "pm", "om", "itn", "itm", "kn", "km", "ke", "lo"))}
# d: dirty term; empty: kinds known empty; rs/re: page whose start/end marker was read last; ds/dp: state and page just discovered
# pn/pm: page changes announced but not made / made but not announced; om: page erases the pointer cache has not heard of
# lo: the page last announced open to the pointer cache
# itn/itm: item headers announced / written; kn: last announced key location; km: written items without key location; ke: key announced erased


class Monitor(FlashMonitor):
    NAME = "C02"
    map_entries = ()

    @property
    def is_map(self):
        return self.entry in self.map_entries

    def init(self):
        return (None, frozenset(), NONE, NONE, NONE, NONE, (), (), (), (), (), NONE, (), NONE, NONE)

    def get(self, s, n):
        return s.mon[IDX[n]]

    def set(self, s, **kw):
        m = list(s.mon)
        for n, v in kw.items():
            m[IDX[n]] = v
        s.mon = tuple(m)

    def take(self, s, slot, pred):
        """Remove the first matching entry of a pending list."""
        xs = self.get(s, slot)
        for i, x in enumerate(xs):
            if pred(x):
                self.set(s, **{slot: xs[:i] + xs[i + 1:]})
                return True
        return False

    def push(self, s, slot, x, cctx, what):
        xs = self.get(s, slot)
        if len(xs) >= MAXP:
            self.report("out-of-step", cctx, f"{what}: more than {MAXP} flash changes and cache updates that do not match", s)
            xs = ()
        self.set(s, **{slot: xs + (x,)})

    # ------------------------------------------------------------ cache object
    def after_cache(self, I, s, cctx, fr, args, pre, post, ret):
        empty = self.get(s, "empty")
        allempty = all(k_ in empty for k_ in KINDS)
        if post is not pre and s.truth(post) is False and s.truth(pre) is not False and not allempty:
            self.checkpoint(s, cctx, "when the dirty mark is cleared")
        self.set(s, d=post)

    def checkpoint(self, s, cctx, when):
        self.count("checkpoint", cctx)
        m = {"pn": "a page state change was announced to the cache but not made in flash",
             "pm": "a page state was changed in flash but the cache was not told the new state",
             "om": "a page was erased but the cached item pointers were not told",
             "itn": "an item was announced as written or erased but its header was not written",
             "itm": "an item header was written but the cached item pointers were not told (with the same address, length and kind)",
             "km": "an item was written or erased but the key cache was not told"}
        for n, txt in m.items():
            if self.get(s, n):
                st = self.get(s, n)[0][0]
                self.report("out-of-step", cctx, f"{txt} ({st}) {when}", s, extra_key=f"{n}:{st}")
        self.set(s, **{n: () for n in m})

    def on_prim(self, I, s, cctx, fr, args, dty):
        kind = kind_of(fr.path)
        if kind is None:
            return None
        n = fr.name
        empty = self.get(s, "empty")
        if n.startswith("invalidate"):
            self.set(s, empty=empty | {kind})
            if kind == "page":
                self.set(s, pn=(), pm=(), ds=NONE)
            elif kind == "ptr":
                self.set(s, om=(), itn=(), itm=())
            else:
                self.set(s, km=(), kn=NONE)
            return None
        # from here on the code is held to the full rule again
        self.set(s, empty=empty & {"key"} if kind != "key" and self.is_map else frozenset())
        if not n.startswith("notice"):
            late = {"page": ("pm",), "ptr": ("om", "itm"), "key": ("km",)}[kind]
            if any(self.get(s, x) for x in late):
                self.report("consulted-late", self.caller(cctx), f"cached {n} is used after a flash change the cache has not been told about", s)
            if kind == "page":
                out = self.split_result(I, s, cctx, n, dty)
                for ns, v in out:
                    if v.tag == "adt" and v.args[1] == 1:
                        self.set(ns, ds=st_(self.state_name(ns, v.args[2][0]) or "?"), dp=args[1])
                return out
            return None
        if n == "notice_page_state":
            p, st = args[1], self.state_name(s, args[2]) or "?"
            if kind == "page":
                I.note(s, f"{self.caller(cctx).span}: cache told page is {st}")
                rs, re = self.get(s, "rs"), self.get(s, "re")
                if rs is not NONE and re is not NONE and s.same(rs, p) and s.same(re, p):
                    self.set(s, rs=NONE, re=NONE, ds=st_(st), dp=p)
                    self.count("discovered", self.caller(cctx))
                elif self.get(s, "ds") is st_(st) and s.same(self.get(s, "dp"), p):
                    pass
                elif not self.take(s, "pm", lambda x: (st == "?" or x[0] == st) and s.same(x[1], p)):
                    self.push(s, "pn", (st, p), self.caller(cctx), "page")
                    self.set(s, ds=NONE)
            elif st == "Open":
                if not self.take(s, "om", lambda x: s.same(x[1], p)):
                    self.set(s, lo=p)
        elif n in ("notice_item_written", "notice_item_erased"):
            kind_ = "written" if n.endswith("written") else "erased"
            a = args[-2]
            h = I.deref(s, args[-1])
            ln = project_f(h, 0, 0) if h.tag != "adt" else h.args[2][0]
            I.note(s, f"{self.caller(cctx).span}: cache told item {kind_}")
            if not self.take(s, "itm", lambda x: x[0] == kind_ and s.same(x[1], a) and s.same(x[2], ln)):
                self.push(s, "itn", (kind_, a, ln), self.caller(cctx), "item")
        elif n == "notice_key_location":
            a = args[-1]
            self.take(s, "km", lambda x: x[0] == "written" and s.same(x[1], a))
            self.set(s, kn=a, ke=NONE)
        elif n == "notice_key_erased":
            self.set(s, ke=YES, km=tuple(x for x in self.get(s, "km") if x[0] != "erased"))
        return None

    # ------------------------------------------------------------ flash
    def on_flash(self, I, s, cctx, callctx, op, args):
        out = self.flash_outcomes(I, s, cctx, callctx, op, args)[:1]
        s = out[0][0]
        empty = self.get(s, "empty")
        if op == "read":
            d = I.as_slice(s, args[1])
            c = self.classify_read(s, args[0], d.args[3])
            if c:
                self.set(s, **{"rs" if c[0] == "start" else "re": c[1]})
            return out
        if op == "erase":
            c = self.classify_erase(s, args[0], args[1])
            if c[0] == "page":
                self.count("page_erase", callctx)
                self.page_change(I, s, callctx, "Open", c[1], empty)
                if "ptr" not in empty:
                    lo = self.get(s, "lo")
                    if lo is NONE or not s.same(lo, c[1]):
                        self.push(s, "om", ("Open", c[1]), callctx, "erase")
            else:
                self.count("range_erase", callctx)
                for kind, slot in (("page", "pm"), ("ptr", "om"), ("key", "km")):
                    if kind not in empty:
                        self.push(s, slot, ("everything", args[0]), callctx, "erase")
            return out
        c = self.classify_write(I, s, args[0], args[1])
        self.count("write_" + c[0], callctx)
        if c[0] == "marker":
            self.page_change(I, s, callctx, "PartialOpen" if c[1] == "start" else "Closed", c[2], empty)
        elif c[0] == "header":
            kind_ = "erased" if c[3] is k(0) else "written"
            I.note(s, f"{callctx.span}: item header {kind_}")
            if "ptr" not in empty or self.get(s, "itn"):
                if not self.take(s, "itn", lambda x: x[0] == kind_ and s.same(x[1], c[1]) and s.same(x[2], c[2])) and "ptr" not in empty:
                    self.push(s, "itm", (kind_, c[1], c[2]), callctx, "item header")
            if self.is_map and "key" not in empty:
                if kind_ == "written":
                    kn = self.get(s, "kn")
                    if kn is NONE or not s.same(kn, c[1]):
                        self.push(s, "km", ("written", c[1]), callctx, "key")
                elif self.get(s, "ke") is not YES:
                    self.push(s, "km", ("erased", c[1]), callctx, "key")
        return out

    def page_change(self, I, s, callctx, st, p, empty):
        I.note(s, f"{callctx.span}: page becomes {st} in flash")
        if self.get(s, "ds") is st_(st) and s.same(self.get(s, "dp"), p):
            pass  # the cache believes this state already
        elif not self.take(s, "pn", lambda x: (x[0] == st or x[0] == "?") and s.same(x[1], p)) and "page" not in empty:
            self.push(s, "pm", (st, p), callctx, "page")
        self.set(s, ds=NONE, rs=NONE, re=NONE)

    def at_exit(self, I, s, v, root):
        d = self.get(s, "d")
        if d is not None and s.truth(d) is False:
            self.checkpoint(s, root, "when the operation returns with the cache trusted")


class C02(Check):
    """Every public storage entry point is interpreted over all control-flow paths (flash errors end the path: C01 and C03 cover
    them).  Ghost state pairs each flash mutation, classified from its address and content terms (page erase, start marker, end
    marker, live or erased item header), with the announcement the cache received for the same page or address.  Rules: when
    the dirty mark is cleared, or the operation returns with it clear, nothing is unpaired on either side; a page state is
    announced without a mutation only directly after both of that page's markers were read; a cached answer is not used while a
    mutation is unannounced."""
    ID = "C02"
    MONITOR = Monitor

    def monitor(self, F, name):
        m = Monitor(F)
        m.map_entries = getattr(F, "_map_entries", None)
        if m.map_entries is None:
            m.map_entries = F._map_entries = set(entries_reaching(F, lambda q: q.split("::")[-1] == "notice_key_location"))
        return m

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"page erase sites": (1, n("page_erase")), "page marker writes": (2, n("write_marker")), "item header writes": (1, n("write_header")),
                "trust checkpoints": (6, n("checkpoint")), "page state discoveries": (1, n("discovered"))}


CHECK = C02()
