"""C17: a configuration is accepted exactly when it can work."""
from cachemon import *
from flashmon import ES, WS, HDR

RANGE = "core::ops::Range"
# what the documentation of the error says is wrong -> condition
NAMES = {"StartRangeNotAtPageBoundary": "start", "EndRangeNotAtPageBoundary": "end", "RangeTooSmall": "size", "PagesTooSmall": "page", "WordSizeTooLarge": "word"}
PAGES = {"map": 2, "queue": 1}
MAXW = 32


def is_range(F, ty):
    t = F.ty(ty)
    return t.get("k") == "adt" and t["p"] == RANGE


def result_of(F, b):
    t = F.ty(b.locals[0]["ty"])
    if t.get("k") == "adt" and t["p"] == RES:
        return F.ty(t["args"][0]), F.ty(t["args"][1])
    return t, None


def config_types(F):
    """Types made from nothing but an address range by a public function."""
    out = set()
    for p in api_entries(F):
        b = F.bodies[p]
        if b.argc == 1 and is_range(F, b.locals[1]["ty"]):
            t, _ = result_of(F, b)
            if t.get("k") == "adt" and t["p"].startswith("crate"):
                out.add(t["p"])
    return out


class Monitor(StorageMonitor):
    NAME = "C17"

    def setup(self, I, st, body, args, opts):
        self.args = args
        self.body = body
        self.n = PAGES["map" if "map" in opts["cfg"] else "queue"]
        v = args[0]
        self.start, self.end = project_f(v, 0, 0), project_f(v, 0, 1)
        st.mon = (self.start, self.end)
        # a flash with empty pages or words does not exist
        st.facts[eq0(ES)] = FALSE
        st.facts[eq0(WS)] = FALSE

    def init(self):
        return (UNIT, UNIT)

    def key(self, s):
        """Paths stay apart."""
        return tuple(sorted((f.nid, v.nid) for f, v in s.facts.items()))

    def conditions(self, st):
        s, e = st.mon
        return {"start": eq0(tm.rem(s, ES)), "end": eq0(tm.rem(e, ES)), "size": ("not", lt0(sub(sub(e, s), scale(ES, self.n)))),
                "page": ("not", lt0(sub(ES, add(scale(WS, 3), HDR)))), "word": ("not", lt0(sub(k(MAXW), WS)))}

    def derive(self, s):
        """What comparisons of quotients and of the clamped size say about the size itself."""
        s = s.copy()
        for f, val in list(s.facts.items()):
            if f.tag not in ("lt0", "eq0") or val.tag != "b":
                continue
            c, d = tm._lin(f.args[0])
            if len(d) != 1:
                continue
            (m, q), = d.items()
            if f.tag == "eq0" and c == 0 and len(m) == 1 and m[0].tag == "rem" and m[0].args[1] is ES:
                # a sum with multiples of the page size is one exactly when the rest is
                for m2, q2 in tm._lin(m[0].args[0])[1].items():
                    if q2 < 0 and len(m2) == 1 and s.truth(eq0(tm.rem(m2[0], ES))) is True:
                        s.facts[eq0(tm.rem(add(m[0].args[0], m2[0]), ES))] = val
                continue
            if len(m) != 1 or m[0].tag != "div" or q not in (1, -1):
                continue
            x, y = m[0].args
            if f.tag == "lt0" and val is TRUE and q == 1:      # x/y < -c
                s.facts[lt0(sub(x, scale(y, -c)))] = TRUE
            elif f.tag == "lt0" and val is FALSE and q == 1:   # x/y >= -c
                s.facts[lt0(sub(x, scale(y, -c)))] = FALSE
            elif f.tag == "lt0" and val is TRUE and q == -1:   # x/y > c
                s.facts[lt0(sub(x, scale(y, c + 1)))] = FALSE
            elif f.tag == "lt0" and val is FALSE and q == -1:  # x/y <= c
                s.facts[lt0(sub(x, scale(y, c + 1)))] = TRUE
            elif f.tag == "eq0" and val is TRUE and c == 0:
                s.facts[lt0(sub(x, y))] = TRUE
        return s

    def holds(self, s, c):
        if isinstance(c, tuple):
            r = s.truth(c[1])
            return None if r is None else not r
        return s.truth(c)

    def judge(self, s, accepted, root, what=None):
        s = self.derive(s)
        conds = self.conditions(s)
        if accepted:
            self.count("accepted", root)
            for n, c in conds.items():
                if self.holds(s, c) is not True:
                    self.report("accepts-bad", root, f"a range is accepted that is not known to satisfy '{n}'", s, extra_key=n)
        elif what is not None:
            self.count("rejected", root)
            if self.holds(s, conds[what]) is not False:
                self.report("rejects-good", root, f"a range is rejected because of '{what}' although nothing is known to be wrong with that", s, extra_key=what)
        else:
            self.count("rejected", root)
            if not any(self.holds(s, c) is False for c in conds.values()):
                self.report("rejects-good", root, "a range is rejected although nothing is known to be wrong with it", s)

    def on_diverge(self, s, cctx):
        self.judge(s, False, cctx)

    def on_panic(self, s, cctx, fr):
        self.judge(s, False, cctx)

    def on_assert(self, s, cctx, msg, c):
        if c.tag == "ovf" and c.args[0] == "Sub" and not s.atmost(c.args[2], c.args[1]):
            self.report("rejects-good", cctx, "a subtraction on the way may overflow", s)

    def ranges(self, s, v, out, n=0):
        v = s.resolve(v)
        if v.tag == "adt":
            if v.args[0] == RANGE:
                out.append(v)
            elif n < 5:
                for x in v.args[2]:
                    self.ranges(s, x, out, n + 1)
        return out

    def at_exit(self, I, s, v, root):
        v = s.resolve(v)
        okv = v
        if v.tag == "adt" and v.args[0] == RES:
            if v.args[1] == 1:
                e = s.resolve(v.args[2][0])
                name = self.F.adts[e.args[0]]["variants"][e.args[1]]["name"] if e.tag == "adt" and e.args[0] in self.F.adts else None
                self.judge(s, False, root, NAMES.get(name))
                return
            okv = v.args[2][0]
        self.judge(s, True, root)
        okv = s.resolve(okv)
        if okv is self.args[0]:
            return
        got = []
        for x in (okv.args[2] if okv.tag == "adt" else ()):
            x = s.resolve(x)
            if x is self.args[0]:
                got.append((self.start, self.end))
            elif x.tag == "adt" and x.args[0] == RANGE:
                got.append(tuple(s.resolve(y) for y in x.args[2][:2]))
        if got != [(self.start, self.end)]:
            self.report("range-changed", root, "the configuration does not hold exactly the range it was made from", s)


class C17(Check):
    """Every public function that makes a configuration from an address range is interpreted for all ranges and all flash
    geometries (erase and word size symbolic).  Rules: where it succeeds, the facts collected on the path entail every documented
    condition; where it fails, they refute the condition its error names (for the panicking form: one of them); and the
    configuration holds the range it was given."""
    ID = "C17"
    MONITOR = Monitor
    ASSUME = ["the models of core/std functions in engine/models.py match their documentation",
              "erase and word size are not zero and fit in u32"]

    def entries(self, F):
        cfg = config_types(F)
        return sorted(p for p in api_entries(F) if F.bodies[p].argc == 1 and is_range(F, F.bodies[p].locals[1]["ty"]) and result_of(F, F.bodies[p])[0].get("p") in cfg)

    def jobs(self, F, tier):
        return [("main", p, {"cfg": result_of(F, F.bodies[p])[0]["p"]}) for p in self.entries(F)]

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"constructors": (4, len(self.entries(list(Fs.values())[0]))), "accepting exits": (4, n("accepted")), "rejections": (4, n("rejected"))}


CHECK = C17()
