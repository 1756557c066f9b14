"""C13: the built-in keys and values: no panic, no access outside the buffer, and what was encoded is what is decoded."""
import re
import terms as tm
from common import *

CONT = re.compile(r"(^|[<:])(String|StringInner|Vec|VecInner|ArrayVec|ArrayString)(::<|<|::|$)")
TRAITS = ("crate::map::Key", "crate::map::Value")
SER, DE, LEN = "serialize_into", "deserialize_from", "get_len"


def bytes_of(r):
    """The bytes a container behind reference r holds."""
    b = mk("app", "derefs", r)
    return sl(("D", b), (), k(0), mk("len", b))


def coll(c, n):
    return mk("app", "coll", c, n)


SERR = "crate::map::SerializationError"
EMPTY = coll(mk("sym", "empty", None), k(0))


class Monitor(StorageMonitor):
    NAME = "C13"
    decoding = False  # running a decoder on what an encoder wrote

    def container(self, fr):
        for p in (fr.resolved, fr.path):
            if p and not p.startswith("crate") and "slice" not in p.split("::")[:2]:
                q = p
                if " as " in q and q.startswith("<"):
                    q = q[1:q.index(" as ")]
                else:
                    q = q.rsplit("::", 1)[0]
                if CONT.search(q):
                    return True
        return False

    def intercept(self, I, s, cctx, fr, args, dty):
        n = fr.name
        if fr.trait in TRAITS and not (fr.resolved and fr.resolved in self.F.bodies):
            return self.generic(I, s, cctx, n, args)
        if n.endswith("e_bytes") and n[:3] in ("to_", "fro"):
            self.orders.setdefault(n[:2], set()).add((n.split("_")[-2], models.width(fr)))
        if n in ("to_le_bytes", "to_be_bytes", "to_ne_bytes", "from_le_bytes", "from_be_bytes", "from_ne_bytes") and re.search(r"<impl f\d+>", fr.path):
            return (models.i_tole if n.startswith("to") else models.i_fromle)(I, s, cctx, 0, fr, args, dty)
        if n == "from_utf8":
            out = [(s, ok(args[0]))]
            if not self.decoding:
                out.append((s.copy(), err(mk("sym", "utf8err", cctx))))
            return out
        if not self.container(fr):
            return None
        if n == "len":
            return [(s, bytes_of(args[0]).args[3])]
        if n in ("as_slice", "as_bytes", "as_str", "deref", "as_ref", "borrow"):
            return [(s, bytes_of(args[0]))]
        if n in ("new", "with_capacity"):
            return [(s, EMPTY)]
        res = self.F.ty(dty).get("p") == RES
        if n in ("extend_from_slice", "push_str", "try_extend_from_slice", "try_push_str"):
            src = I.as_slice(s, args[1])
            bad = s.copy()
            old = I.deref(s, args[0])
            I.set_deref(s, args[0], coll(I.content(s, src), src.args[3]) if old is EMPTY else mk("sym", "mixed", cctx))
            if not res:
                return [(s, UNIT)]
            return self.fallible(I, s, bad, cctx, src, UNIT)
        if n in ("from", "try_from", "from_str", "to_vec", "to_owned", "into", "try_into", "from_slice") and args:
            src = I.as_slice(s, args[0])
            v = coll(I.content(s, src), src.args[3])
            if not res:
                return [(s, v)]
            return self.fallible(I, s, s.copy(), cctx, src, v)
        return None

    def fallible(self, I, s, bad, cctx, src, v):
        if self.decoding:
            # the bytes of a value of the same type: they fit and are well formed (that they are those bytes is checked in the end)
            return [(s, ok(v))]
        return [(s, ok(v)), (bad, err(mk("sym", "full", cctx)))]

    def generic(self, I, s, cctx, n, args):
        """A key or value nested in another one keeps the contract itself."""
        if n == SER:
            d = I.as_slice(s, args[1])
            m = mk("sym", "inner_len", cctx)
            bad = s.copy()
            s = I.assume(s, le(m, d.args[3]), True)
            s.mon = (mk("sym", "inner", None),)
            root, path, lo, ln = d.args
            v = I.deref(s, args[0])
            I.write_slice(s, sl(root, path, lo, m), mk("app", "ser", v))
            return [(s, ok(m)), (bad, err(mk("sym", "inner_err", cctx)))]
        if n == DE:
            d = I.as_slice(s, args[0])
            c = I.content(s, d)
            if c.tag == "app" and c.args[0] == "ser":
                return [(s, ok(tup(c.args[1], d.args[3])))]
            m = mk("sym", "inner_len", cctx)
            s2 = s.copy()
            s = I.assume(s, le(m, d.args[3]), True)
            return [(s, ok(tup(mk("sym", "inner", cctx), m))), (s2, err(mk("sym", "inner_err", cctx)))]
        return None

    # ------------------------------------------------------------ panics
    def on_index(self, s, cctx, lo, hi, ln):
        self.count("index", cctx)
        if not (s.truth(le(lo, hi)) is True and s.truth(le(hi, ln)) is True):
            self.report("out-of-range", cctx, f"a range that is not known to lie within the buffer is accessed: {show(lo, 6)}..{show(hi, 6)} of {show(ln, 6)}", s)

    def on_copy(self, s, cctx, dst, src, content):
        self.count("copy", cctx)

    def on_panic(self, s, cctx, fr):
        self.report("panic", cctx, "an unwrap or expect may fail", s)

    def on_diverge(self, s, cctx):
        self.report("panic", cctx, "a panic can be reached", s)

    def on_assert(self, s, cctx, msg, c):
        # sums and products of lengths don't overflow, differences might
        if c.tag == "ovf" and (c.args[0] != "Sub" or s.atmost(c.args[2], c.args[1])):
            return
        self.report("panic", cctx, "a check of the compiler may fail: " + re.sub(r"\(.*", "", msg), s, re.sub(r"\(.*", "", msg))

    # ------------------------------------------------------------ encode, then decode
    def setup(self, I, st, body, args, opts):
        self.opts = opts
        self.orders = {}
        self.args = args

    def on_ret(self, s, body, v):
        """A buffer found too short is reported as such."""
        v = s.resolve(v)
        if v.tag == "adt" and v.args[0] == RES and v.args[1] == 1 and body.path == self.entry:
            e = s.resolve(v.args[2][0])
            if e.tag == "adt" and e.args[0] == SERR and self.F.adts[SERR]["variants"][e.args[1]]["name"] != "BufferTooSmall":
                for f, val in s.facts.items():
                    if f.tag == "lt0" and val is TRUE and any(
                            q > 0 and len(m) == 1 and m[0].tag == "len" and m[0].args[0].tag not in ("app", "deref") for m, q in tm._lin(f.args[0])[1].items()):
                        self.report("wrong-error", self.I.root, "a buffer that was found too short is reported as another error: " + show(f, 6), s)

    def at_exit(self, I, s, v, root):
        if not self.opts:
            self.at_exit_decode(I, s, v, root)
            return
        v = s.resolve(v)
        if not (v.tag == "adt" and v.args[0] == RES and v.args[1] == 0):
            return
        n = v.args[2][0]
        self.count("encoded", root)
        selfv = self.args[0]
        val = I.deref(s, selfv)
        b = I.as_slice(s, self.args[1])
        if not s.atmost(n, b.args[3]):
            self.report("encoded-length", root, "the encoded length may exceed the buffer: " + show(n, 7), s)
        key = self.opts["trait"].endswith("Key")
        whole = sl(b.args[0], b.args[1], k(0), b.args[3] if key else n)
        cb = bytes_of(selfv)
        self.back = mk("deref", mk("app", "derefs", selfv))
        if self.opts.get(LEN):
            for s2, r in self.sub(I, s, self.opts[LEN], [whole]):
                r = s2.resolve(r)
                if not (r.tag == "adt" and r.args[1] == 0 and s2.same(r.args[2][0], n)):
                    self.report("length-differs", root, "the length found in an encoded key is not the length that was encoded: " + show(r, 7), s2)
        for s2, r in self.sub(I, s, self.opts[DE], [whole]):
            r = s2.resolve(r)
            if not (r.tag == "adt" and r.args[1] == 0):
                self.report("not-decoded", root, "decoding what was just encoded may fail: " + show(r, 6), s2)
                continue
            x, m = r.args[2][0].args[2]
            if not s2.same(m, n):
                self.report("length-differs", root, f"decoding uses {show(m, 6)} bytes where {show(n, 6)} were encoded", s2)
            if self.opts.get("array") and self.orders.get("to") != self.orders.get("fr"):
                self.report("byte-order", root, f"numbers are encoded as {sorted(self.orders.get('to', ()))} and decoded as {sorted(self.orders.get('fr', ()))} (byte order, width)", s2)
            if not self.opts.get("content"):
                continue
            self.count("roundtrip", root)
            if not self.equal(I, s2, x, selfv, cb):
                self.report("value-differs", root, "what is decoded is not known to be what was encoded: " + show(x, 8), s2)

    def sub(self, I, s, path, args):
        b = self.F.bodies[path]
        self.decoding = True
        I.memo.clear()
        ctx = I.root.child("decode", b.span, path, path)
        return I.run(b, ctx, 1, args, s.copy())

    def at_exit_decode(self, I, s, v, root):
        v = s.resolve(v)
        if not (v.tag == "adt" and v.args[0] == RES and v.args[1] == 0):
            return
        x = s.resolve(v.args[2][0])
        if x.tag == "adt" and len(x.args[2]) == 2:
            self.count("decoded", root)
            n = x.args[2][1]
            if not s.atmost(n, I.as_slice(s, self.args[0]).args[3]):
                self.report("decoded-length", root, "decoding claims to have used more bytes than it was given: " + show(n, 7), s)

    def equal(self, I, s, x, selfv, cb):
        x = s.resolve(x)
        if x.tag == "app" and x.args[0] == "coll":
            return x.args[1] is self.back and s.same(x.args[2], cb.args[3])
        val = s.resolve(I.deref(s, selfv))
        if self.eqv(I, s, x, val):
            return True
        if x.tag in ("sl", "ref"):
            a, b = I.as_slice(s, x), I.as_slice(s, val)
            return s.same(a.args[3], b.args[3]) and I.content(s, a) is I.content(s, b)
        return False

    def eqv(self, I, s, x, y):
        x, y = s.resolve(x), s.resolve(y)
        if x is y or x is UNIT:
            return True
        if x.tag == "not" and x.args[0].tag == "eq0" and x.args[0].args[0] is y:
            return True  # a bool that went through a number
        if x.tag == "adt" and y.tag == "adt" and x.args[:2] == y.args[:2]:
            return all(self.eqv(I, s, p, q) for p, q in zip(x.args[2], y.args[2]))
        if x.tag == "arr" and not x.args[2]:
            return self.eqv(I, s, x.args[0], y)
        tx = s.truth(x) if x.tag in ("b", "not", "eq0", "lt0") else None
        if tx is not None:
            ty = s.truth(y)
            if ty is None:
                f = s.facts.get(y)
                ty = f.args[0] if f is not None and f.tag == "b" else None
            return tx is ty
        return s.same(x, y)


class C13(Check):
    """Every implementation of the crate's Key and Value traits is interpreted for all values and all buffers.  Rules: no range
    outside the buffer and no panic (index, unwrap, overflow) is reachable; an Ok length never exceeds the buffer; and decoding run on the memory
    that encoding left behind gives Ok with the same length and, except for arrays of numbers and postcard types, the same value."""
    ID = "C13"
    MONITOR = Monitor
    ASSUME = [
        "the models of core/std functions in engine/models.py match their documentation",
        "heapless, arrayvec and alloc containers hold the bytes they are given and accept any value of their own type",
        "nested keys and values keep the same contract",
    ]

    def impls(self, F):
        out = {}
        for t in TRAITS:
            for m in (SER, DE, LEN):
                for it, info in F.trait_items.get(f"{t}::{m}", []):
                    out.setdefault((t, info["span"], info["self_s"]), {})[m] = it
        return out

    def entries(self, F):
        return sorted(x for d in self.impls(F).values() for x in d.values())

    def jobs(self, F, tier):
        out = []
        for (t, _, ty), d in self.impls(F).items():
            for m in (DE, LEN):
                if m in d:
                    out.append(("main", d[m], {}))
            if SER in d and DE in d:
                if "PostcardValue" in ty or ty == "T":
                    out.append(("main", d[SER], {}))
                    continue
                o = dict(d, trait=t, array=ty.startswith("["), content=not (ty.startswith("[") and ty != "[u8; N]" or (ty.startswith("[") and t.endswith("Value"))))
                out.append(("main", d[SER], o))
        return out

    def floors(self, Fs, events, results):
        n = lambda x: len(events.get(x, ()))
        return {"index sites": (20, n("index")), "encoders": (50, n("encoded")), "round trips": (35, n("roundtrip"))}


CHECK = C13()
