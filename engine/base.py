"""Shared monitor behaviour: the flash operations, the generic sub-caches and the user's key/value serializers as events."""
import time
from terms import *
from interp import *
import models


def flat_trace(t):
    """Notes along a path, oldest first; those of analysed callees are nested."""
    out, stack = [], [t]
    while stack and len(out) < 200:
        t = stack.pop()
        if t is None:
            continue
        if isinstance(t, str):
            out.append(t)
            continue
        prev, item = t
        stack.append(prev)
        if isinstance(item, tuple) and item and item[0] == "sub":
            stack.append(item[1])
        else:
            out.append(item)
    return out[::-1]


class StorageMonitor(NullMonitor):
    NAME = "base"
    known = frozenset()

    def __init__(self, F):
        self.F = F
        self.events = {}
        self.violations = {}
        self.entry = None
        # local traits with more than one local implementation that are used generically: their calls are events
        self.prim = {}
        for ti, items in F.trait_items.items():
            if len(items) > 1 and ti.startswith("crate"):
                self.prim[ti] = items
        self.classify()

    # ------------------------------------------------------------ anchors
    def classify(self):
        self.kind = {}
        for ti in self.prim:
            n = ti.split("::")[-1]
            self.kind[ti] = n

    def init(self):
        return ()

    def setup(self, I, st, body, args, opts):
        pass

    def at_exit(self, I, s, v, root):
        pass

    def finish(self, I):
        pass

    def export(self):
        return None

    def count(self, name, cctx):
        d = self.events.setdefault(name, set())
        d.add((cctx.body, cctx.block, cctx.callee))

    def report(self, rule, cctx, msg, s=None, extra_key=""):
        fn = short(cctx.body)
        key = f"{rule}|{fn}|{short(str(cctx.callee))}|{extra_key}"
        if key not in self.violations:
            if self.I.stop_at is None and key not in self.known:
                self.I.stop_at = time.time() + 20
            tr = flat_trace(s.trace if s is not None else None)
            self.violations[key] = {
                "rule": rule, "function": cctx.body, "callee": cctx.callee, "span": cctx.span, "entry": self.entry, "message": msg,
                "call_path": [f"{sp}: {short(str(b))} -> {short(str(c))}" for b, sp, c in cctx.chain()],
                "trace": tr[-60:],
            }

    # ------------------------------------------------------------ primitives
    def intercept(self, I, s, cctx, fr, args, dty):
        if fr.path in self.prim and fr.trait and (fr.self_generic or self.generic_self(I, fr)):
            self.count(fr.name, cctx)
            return self.primitive(I, s, cctx, fr, args, dty)
        return None

    def generic_self(self, I, fr):
        return not (fr.resolved and fr.resolved in I.F.bodies)

    def primitive(self, I, s, cctx, fr, args, dty):
        r = self.on_prim(I, s, cctx, fr, args, dty)
        if r is not None:
            return r
        return self.split_result(I, s, cctx, fr.name, dty)

    def on_prim(self, I, s, cctx, fr, args, dty):
        return None

    def split_result(self, I, s, cctx, name, dty):
        """All outcomes of an opaque call, by return type."""
        t = I.F.ty(dty) if dty is not None else {}
        if t.get("k") == "tuple" and not t["args"]:
            return [(s, UNIT)]
        if t.get("k") == "adt" and t["p"] == OPT:
            inner = I.enum_info(t["args"][0])
            out = [(s.copy(), none())]
            if inner:
                for i, (dd, nf) in enumerate(inner[1]):
                    out.append((s.copy(), some(adt(inner[0], i, [mk("sym", f"{name}.{i}.{j}", cctx) for j in range(nf)]))))
            else:
                out.append((s.copy(), some(mk("sym", name, cctx))))
            return out
        if t.get("k") == "adt" and t["p"] == RES:
            o = I.F.ty(t["args"][0])
            v = mk("sym", name, cctx)
            if o.get("k") == "tuple":
                v = tup(*[mk("sym", f"{name}.{i}", cctx) for i in range(len(o["args"]))])
            return [(s.copy(), ok(v)), (s.copy(), err(mk("sym", name + ".err", cctx)))]
        return [(s, I.fresh(cctx, name, dty))]

    # ------------------------------------------------------------ flash
    def flash(self, I, s, cctx, depth, fut):
        op, callctx = fut.args[0], fut.args[1]
        self.count("flash_" + op, callctx)
        args = fut.args[3:]
        r = self.on_flash(I, s, cctx, callctx, op, args)
        if r is not None:
            return r
        return self.flash_outcomes(I, s, cctx, callctx, op, args)

    def on_flash(self, I, s, cctx, callctx, op, args):
        return None

    def flash_outcomes(self, I, s, cctx, callctx, op, args):
        bad = s.copy()
        if op == "read":
            d = I.as_slice(s, args[1])
            I.write_slice(s, d, mk("flash", args[0], d.args[3], mk("sym", "rd", cctx)))
            d = I.as_slice(bad, args[1])
            I.write_slice(bad, d, mk("sym", "rdfail", cctx))
        e = mk("sym", "flasherr", cctx)
        return [(s, ok(UNIT)), (bad, err(e))]


def short(p):
    """crate::map::MapStorage::<K, S, C>::store_item_inner::{closure#0} -> map::MapStorage::store_item_inner"""
    out = []
    depth = 0
    cur = ""
    for ch in p:
        if ch == "<" and cur == "" and depth == 0 and False:
            pass
        cur += ch
    import re
    q = re.sub(r"::\{closure#\d+\}", "", p)
    q = re.sub(r"::<[^<>]*(<[^<>]*>)?[^<>]*>", "", q)
    return q.replace("crate::", "", 1)


def api_entries(F, names=None):
    """Public methods and functions of the crate (reachable from outside), not tests."""
    out = []
    for p, b in F.bodies.items():
        if b.kind not in ("Fn", "AssocFn"):
            continue
        if not (b.pub and b.reachable):
            continue
        out.append(p)
    return out
