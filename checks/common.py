"""What the checks share: entry-point selection and the Check base class."""
from base import *
from terms import *
from interp import *


def closure(F):
    """Call graph over local bodies (calls, closures, coroutines, function items) and the external/trait paths each body names."""
    direct = {}
    for p, b in F.bodies.items():
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "fn":
                    for q in (x.get("resolved"), x.get("path")):
                        if q:
                            out.add(q)
                            for it, _ in F.trait_items.get(q, []):
                                out.add(it)
                for q in ("clo", "cor", "def", "body"):
                    if isinstance(x.get(q), str):
                        out.add(x[q])
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
            elif isinstance(x, str) and x in F.bodies:
                out.add(x)
        walk(b.blocks)
        direct[p] = out
    reach = {}

    def go(p):
        if p in reach:
            return reach[p]
        seen = set()
        st = [p]
        while st:
            q = st.pop()
            if q in seen:
                continue
            seen.add(q)
            st.extend(direct.get(q, ()))
        reach[p] = seen
        return seen
    return go


def entries_reaching(F, pred):
    """Public API entry points from which a name satisfying `pred` is reachable in the call graph."""
    go = closure(F)
    out = []
    for p in api_entries(F):
        if any(pred(q) for q in go(p)):
            out.append(p)
    return sorted(out)


def is_flash_path(q):
    return "nor_flash" in q and q.split("::")[-1] in ("read", "write", "erase")


def storage_entries(F):
    return [p for p in entries_reaching(F, is_flash_path)]


class Check:
    ID = "?"
    MONITOR = None
    ASSUME = [
        "the flash driver honours the NorFlash contract (erase sets bytes to ones, writes only clear bits, constants are truthful)",
        "user Key/Value implementations are pure and self-consistent",
        "the models of core/std functions in engine/models.py match their documentation",
    ]

    def configs(self, tier):
        return ["full"] if tier == "quick" else ["full", "bare", "alloc"]

    def monitor(self, F, name):
        return self.MONITOR(F)

    def entries(self, F):
        return storage_entries(F)

    def jobs(self, F, tier):
        return [("main", e, {}) for e in self.entries(F)]

    def weight(self, entry):
        for i, w in enumerate(("store_item", "drain", "push", "fetch_item", "remove", "iter", "pop", "peek")):
            if w in entry:
                return 20 - i
        return 0

    def extra(self, Fs, tier, results):
        return None

    def floors(self, Fs, events, results):
        return {}

    def assumptions(self):
        return self.ASSUME

    def explanation(self):
        return (self.__doc__ or "").strip()
