"""Tracking of the cache object: which abstract state the dirty mark and the sub-caches are in."""
from base import *
from terms import *
from interp import *
from common import *

KINDS = ("page", "ptr", "key")


def kind_of(trait_path):
    t = trait_path.rsplit("::", 1)[0].split("::")[-1]
    if "PageStates" in t:
        return "page"
    if "PagePointers" in t:
        return "ptr"
    if "KeyPointers" in t:
        return "key"
    return None


class CacheShape:
    """Where the cache object keeps its dirty mark, found from the types and impls."""

    def __init__(self, F):
        self.F = F
        go = {}
        self.adt = None
        self.traits = set()
        for im in F.impls:
            tr = im.get("trait")
            if not tr or not tr.startswith("crate"):
                continue
            if any(len(F.trait_items.get(it["trait_item"], [])) != 1 for it in im["items"] if it.get("trait_item")):
                continue
            t = F.ty(im["self"])
            if t.get("k") != "adt" or not t["p"].startswith("crate"):
                continue
            hit = False
            for it in im["items"]:
                b = F.bodies.get(it["item"])
                if b is not None and any(self._prim(q) for q in direct_calls(b)):
                    hit = True
            if hit:
                self.adt = t["p"]
                self.traits.add(tr)
        # traits implemented by the same type
        for im in F.impls:
            tr = im.get("trait")
            if tr and tr.startswith("crate"):
                t = F.ty(im["self"])
                if t.get("k") == "adt" and t["p"] == self.adt:
                    self.traits.add(tr)
        self.dirty = None
        if self.adt:
            found = []
            self._bools(self.adt, (), found, 0)
            if len(found) == 1:
                self.dirty = found[0]

    def _prim(self, q):
        return kind_of(q) is not None and len(self.F.trait_items.get(q, [])) > 1

    def _bools(self, path, pre, out, d):
        a = self.F.adts.get(path)
        if a is None or d > 4 or len(a["variants"]) != 1:
            return
        for i, f in enumerate(a["variants"][0]["fields"]):
            if f["ty"] is None:
                continue
            t = self.F.ty(f["ty"])
            if t.get("k") == "bool":
                out.append(pre + (("f", 0, i),))
            elif t.get("k") == "adt" and t["p"].startswith("crate"):
                self._bools(t["p"], pre + (("f", 0, i),), out, d + 1)


def direct_calls(b):
    out = set()
    for blk in b.blocks:
        t = blk["t"]
        if t["t"] == "call":
            c = t["f"].get("c") or {}
            if c.get("k") == "fn":
                out.add(c["path"])
                if c.get("resolved"):
                    out.add(c["resolved"])
    return out


class CacheMonitor(StorageMonitor):
    """Base of the monitors that follow the cache object."""
    _shape = {}

    def __init__(self, F):
        super().__init__(F)
        sh = CacheMonitor._shape.get(id(F))
        if sh is None:
            sh = CacheMonitor._shape[id(F)] = CacheShape(F)
        self.shape = sh

    def is_cache_call(self, fr):
        return bool(fr.trait) and any(fr.path.startswith(t + "::") for t in self.shape.traits) and len(self.F.trait_items.get(fr.path, [])) == 1

    def dirty_of(self, I, s, selfarg):
        r = selfarg
        n = 0
        path = self.shape.dirty or ()
        if r.tag == "ref":
            v = I.load(s, r.args[0], r.args[1])
            while v.tag == "ref" and n < 4:
                r = v
                v = I.load(s, r.args[0], r.args[1])
                n += 1
            return I.load(s, r.args[0], tuple(r.args[1]) + path)
        return I.load(s, ("D", r), path)

    def intercept(self, I, s, cctx, fr, args, dty):
        if self.is_cache_call(fr) and args:
            self.count("cache:" + fr.name, cctx)
            pre = self.dirty_of(I, s, args[0])
            self.before_cache(I, s, cctx, fr, args, pre)
            b = I.resolve_fn(fr)
            out = []
            for ns, v in I.run(b, cctx, cctx.depth, args, s):
                self.after_cache(I, ns, cctx, fr, args, pre, self.dirty_of(I, ns, args[0]), v)
                out.append((ns, v))
            return out
        return super().intercept(I, s, cctx, fr, args, dty)

    def caller(self, cctx):
        """The storage-side call that led into the cache object."""
        c = cctx
        while True:
            p = c.parent or c.parent_hint
            b = self.F.bodies.get(c.body)
            inside = b is not None and any(str(b.trait_item or "").startswith(t + "::") for t in self.shape.traits)
            if not inside or p is None:
                return c
            c = p

    def before_cache(self, I, s, cctx, fr, args, pre):
        pass

    def after_cache(self, I, s, cctx, fr, args, pre, post, ret):
        pass
