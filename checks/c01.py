"""C01: cached knowledge is never used or trusted across a cancelled or failed operation."""
from cachemon import *


# monitor value: (status, dirty term, dirty untouched since entry, kinds known to be empty)
# status: U = the caller's cache, not yet validated; V = validated in this call; F = a flash mutation failed since
class Monitor(CacheMonitor):
    NAME = "C01"
    EMPTY0 = frozenset()

    def init(self):
        return ("U", None, True, frozenset())

    def setup(self, I, st, body, args, opts):
        if opts.get("held"):
            st.mon = ("V", None, True, frozenset())

    def norm(self, s):
        status, d, orig, empty = s.mon
        if status == "U" and orig and d is not None and s.truth(d) is False:
            s.mon = ("V", FALSE, False, empty)
        return s.mon

    def before_cache(self, I, s, cctx, fr, args, pre):
        status, d, orig, empty = s.mon
        if d is None:
            d = pre
        s.mon = (status, d, orig, empty)
        self.norm(s)

    def after_cache(self, I, s, cctx, fr, args, pre, post, ret):
        status, d, orig, empty = s.mon
        allempty = all(k_ in empty for k_ in KINDS)
        if allempty and status in ("U", "F"):
            status = "V"
            I.note(s, f"{cctx.span}: cache invalidated")
        if post is not pre:
            orig = False
            if s.truth(post) is False and s.truth(pre) is not False and not allempty and status != "V":
                why = "a flash mutation that failed or was cut short" if status == "F" else "an earlier call that may have been cancelled or failed"
                self.report("dirty-mark-cleared", cctx, f"the cache's dirty mark is cleared while the cache may disagree with flash after {why}", s)
            elif s.truth(post) is False and s.truth(pre) is not False:
                I.note(s, f"{cctx.span}: dirty mark cleared")
            elif s.truth(post) is True:
                I.note(s, f"{cctx.span}: dirty mark set ({fr.name})")
        if status != "U":
            orig = False
        s.mon = (status, post, orig, empty if allempty else frozenset())
        self.norm(s)

    def on_prim(self, I, s, cctx, fr, args, dty):
        k_ = kind_of(fr.path)
        if k_ is None:
            return None
        status, d, orig, empty = self.norm(s)
        n = fr.name
        if n.startswith("invalidate"):
            s.mon = (status, d, orig, empty | {k_})
        elif n.startswith("notice"):
            s.mon = (status, d, orig, empty - {k_})
        else:
            self.count("consult", cctx)
            if status != "V" and k_ not in empty:
                why = {"U": "without having checked that the cache is not dirty (or invalidating it)",
                       "F": "after a flash mutation failed, without invalidating it"}[status]
                self.report("unvalidated-consult", self.caller(cctx), f"cached {n} is used {why}", s, extra_key=status)
        return None

    def on_flash(self, I, s, cctx, callctx, op, args):
        status, d, orig, empty = self.norm(s)
        if op == "read":
            return None
        dirty = d is not None and s.truth(d) is True
        allempty = all(k_ in empty for k_ in KINDS)
        self.count("mutation", callctx)
        if not dirty and not allempty:
            self.report("unmarked-mutation", callctx,
                        f"flash {op} is started while the cache is neither marked dirty nor empty: if it is cancelled or fails the next call trusts a stale cache",
                        s)
        I.note(s, f"{callctx.span}: flash {op} (dirty={dirty})")
        out = self.flash_outcomes(I, s, cctx, callctx, op, args)
        for i, (ns, v) in enumerate(out):
            if v.tag == "adt" and v.args[1] == 1:
                st = "V" if allempty else "F"
                ns.mon = (st, d, orig, empty)
        return out

    def at_exit(self, I, s, v, root):
        self.exit_status = getattr(self, "exit_status", set())
        st = self.norm(s)[0]
        okv = v.tag == "adt" and v.args[0].endswith("Result") and v.args[1] == 0
        self.exit_status.add((okv, st))

    def export(self):
        return sorted(getattr(self, "exit_status", set()))


class C01(Check):
    """Every public entry point is interpreted over all control-flow paths (all outcomes of every flash call, every loop to a
    fixpoint, callees by summary) with a typestate for the cache object: unvalidated -> validated by a dirty test that came out
    false or by invalidating all three sub-caches -> failed when a flash write/erase returns an error.  Rules: (1) a cached
    answer is consulted only when validated; (2) at every flash write/erase the dirty mark is set (or the cache is empty), so
    that dropping the future or an error there leaves a marked cache; (3) the dirty mark is only cleared when validated and no
    mutation has failed since.  Iterator types are checked inductively: what their constructor establishes is assumed by the
    methods of types no method of which mutates flash."""
    ID = "C01"
    MONITOR = Monitor

    def held_types(self, F):
        """Iterator-like ADTs: methods that do not mutate through &mut self; entry status is what their creation establishes."""
        go = closure(F)
        types = {}
        for p in storage_entries(F):
            b = F.bodies[p]
            t = F.ty(b.impl_self) if isinstance(b.impl_self, int) else None
            if not t or t.get("k") != "adt":
                continue
            types.setdefault(t["p"], []).append(p)
        out = set()
        for a, ps in types.items():
            ad = F.adts.get(a)
            if not ad or not any(f["ty"] is not None and F.ty(f["ty"]).get("k") == "ref" for f in ad["variants"][0]["fields"]):
                continue
            bad = False
            for p in ps:
                b = F.bodies[p]
                byref = F.ty(b.locals[1]["ty"]).get("k") == "ref"
                if byref and any(is_flash_path(q) and q.split("::")[-1] != "read" for q in go(p)):
                    bad = True
            if not bad:
                out.add(a)
        return out

    def jobs(self, F, tier):
        held = self.held_types(F)
        js = []
        for e in self.entries(F):
            b = F.bodies[e]
            t = F.ty(b.impl_self) if isinstance(b.impl_self, int) else {}
            js.append(("main", e, {"held": t.get("p") in held}))
        return js

    def floors(self, Fs, events, results):
        return {"cache consultation sites": (4, len(events.get("consult", ()))), "flash mutation sites": (4, len(events.get("mutation", ()))),
                "storage entry points": (15, len({r["job"][2] for r in results})),
                "cache dirty mark": (1, sum(1 for F in Fs.values() if CacheShape(F).dirty) // max(1, len(Fs)))}

    def extra(self, Fs, tier, results):
        return {"evidence": {"iterator_types_by_induction": sorted({a for F in Fs.values() for a in self.held_types(F)})}}


CHECK = C01()
