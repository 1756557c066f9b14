"""Hash-consed terms and abstract values.

Every abstract value is a node T(tag, args).  Integer terms are kept in a polynomial normal form:
  k(n)            constant
  lin(c, ((mono, coeff), ...))   c + sum coeff*mono, mono = tuple of atoms
Everything else that denotes an integer or an unknown value is an atom.
"""
from functools import lru_cache


class T:
    __slots__ = ("tag", "args", "nid", "_syms", "_stale", "_roots")

    def __repr__(self):
        return show(self)


_intern = {}
_count = [0]
EMPTY = frozenset()


def mk(tag, *args):
    key = (tag, args)
    t = _intern.get(key)
    if t is None:
        t = T()
        t.tag = tag
        t.args = args
        _count[0] += 1
        t.nid = _count[0]
        t._syms = None
        t._stale = None
        t._roots = None
        _intern[key] = t
    return t


OLDER = mk("older")
# "stale" nodes denote the value a symbol had before its site was last re-executed; they are symbols of their own.
SYMTAGS = ("sym", "phi", "stale")


def syms_of(x):
    """All sym/phi nodes occurring in x (T, tuple, frozenset or plain)."""
    if isinstance(x, T):
        s = x._syms
        if s is None:
            if x.tag in SYMTAGS:
                acc = {x}
            else:
                acc = set()
                for a in x.args:
                    if isinstance(a, (T, tuple, frozenset)):
                        acc |= syms_of(a)
            s = frozenset(acc) if acc else EMPTY
            x._syms = s
        return s
    if isinstance(x, (tuple, frozenset)):
        acc = set()
        for a in x:
            if isinstance(a, (T, tuple, frozenset)):
                acc |= syms_of(a)
        return frozenset(acc) if acc else EMPTY
    return EMPTY


def roots_of(x):
    """Local storage roots referenced by x."""
    if x.__class__ is T:
        s = x._roots
        if s is None:
            acc = set()
            if x.tag in SYMTAGS:
                pass
            else:
                if x.tag in ("ref", "sl") and x.args[0][0] != "D":
                    acc.add(x.args[0])
                for a in x.args:
                    if a.__class__ is T or a.__class__ is tuple:
                        acc |= roots_of(a)
            s = frozenset(acc) if acc else EMPTY
            x._roots = s
        return s
    if x.__class__ is tuple or x.__class__ is frozenset:
        acc = set()
        for a in x:
            if isinstance(a, (T, tuple, frozenset)):
                acc |= roots_of(a)
        return acc
    return EMPTY


def has_stale(x):
    if isinstance(x, T):
        if x._stale is None:
            x._stale = x.tag == "older" or any(has_stale(a) for a in x.args)
        return x._stale
    if isinstance(x, (tuple, frozenset)):
        return any(has_stale(a) for a in x)
    return False


def subst(x, m, memo=None, ks=None):
    """Replace nodes of x that are keys of m (dict T->T), rebuilding normal forms."""
    if not m:
        return x
    if memo is None:
        memo = {}
    if ks is None:
        ks = memo.get(0)
        if ks is None:
            ks = set()
            for a in m:
                ks |= syms_of(a)
            memo[0] = ks
    return _subst(x, m, memo, ks)


def _subst(x, m, memo, ks):
    if x.__class__ is T:
        s = x._syms
        if s is None:
            s = syms_of(x)
        if ks.isdisjoint(s):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = m.get(x)
        if r is None:
            if x.tag in SYMTAGS:
                r = x
            else:
                ch = False
                na = []
                for a in x.args:
                    c = a.__class__
                    if c is T or c is tuple:
                        n = _subst(a, m, memo, ks)
                        if n is not a:
                            ch = True
                        na.append(n)
                    else:
                        na.append(a)
                r = rebuild(x.tag, tuple(na)) if ch else x
        memo[x] = r
        return r
    if x.__class__ is tuple:
        ch = False
        na = []
        for a in x:
            c = a.__class__
            if c is T or c is tuple or c is frozenset:
                n = _subst(a, m, memo, ks)
                if n is not a:
                    ch = True
                na.append(n)
            else:
                na.append(a)
        return tuple(na) if ch else x
    if x.__class__ is frozenset:
        return frozenset(_subst(a, m, memo, ks) if isinstance(a, (T, tuple, frozenset)) else a for a in x)
    return x


def rebuild(tag, args):
    if tag == "lin":
        r = k(args[0])
        for mono, c in args[1]:
            p = k(c)
            for a in mono:
                p = mul(p, a)
            r = add(r, p)
        return r
    if tag == "div":
        return div(*args)
    if tag == "rem":
        return rem(*args)
    if tag == "lt0":
        return lt0(args[0])
    if tag == "eq0":
        return eq0(args[0])
    if tag == "not":
        return not_(args[0])
    if tag == "max":
        return max_(*args)
    if tag == "min":
        return min_(*args)
    if tag == "nmo":
        return next_multiple_of(*args)
    if tag == "fld":
        return project_f(*args)
    if tag == "and":
        return and_(*args)
    if tag == "eqv":
        a, b = args
        if a.tag in ("b",) and b.tag == "b":
            return TRUE if a is b else FALSE
        if a.tag == "b" or b.tag == "b":
            x, y = (a, b) if a.tag == "b" else (b, a)
            return y if x.args[0] else not_(y)
        return mk("eqv", *sorted(args, key=lambda z: z.nid))
    if tag == "discr":
        v = args[0]
        if v.tag == "adt" or v.tag == "var":
            return k(v.args[1])
        return mk("discr", v)
    return mk(tag, *args)


def project_f(v, var, idx):
    """Field idx of variant var of value v."""
    g = v.tag
    if g == "adt":
        if v.args[1] == var and idx < len(v.args[2]):
            return v.args[2][idx]
        if v.args[1] != var:
            return mk("undef")
    elif g in ("clo", "cor"):
        if idx < len(v.args[1]):
            return v.args[1][idx]
    elif g == "upd":
        for (kv, ki), val in v.args[1]:
            if kv == var and ki == idx:
                return val
        return project_f(v.args[0], var, idx)
    elif g == "var":
        return project_f(v.args[0], var, idx)
    return mk("fld", v, var, idx)


# ---------------------------------------------------------------- integers
@lru_cache(None)
def k(n):
    return mk("k", n)


TRUE, FALSE = mk("b", True), mk("b", False)


def is_k(t):
    return isinstance(t, T) and t.tag == "k"


def _lin(t):
    """(const, {mono: coeff})"""
    if t.tag == "k":
        return t.args[0], {}
    if t.tag == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}


def _mklin(c, d):
    items = tuple(sorted(((m, q) for m, q in d.items() if q != 0), key=lambda mq: tuple(a.nid for a in mq[0])))
    if not items:
        return k(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    return mk("lin", c, items)


INTISH = True


def add(a, b):
    ca, da = _lin(a)
    cb, db = _lin(b)
    for m, q in db.items():
        da[m] = da.get(m, 0) + q
    return _mklin(ca + cb, da)


def scale(a, n):
    c, d = _lin(a)
    return _mklin(c * n, {m: q * n for m, q in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    ca, da = _lin(a)
    cb, db = _lin(b)
    out = {}
    c = ca * cb
    for m, q in da.items():
        if cb:
            out[m] = out.get(m, 0) + q * cb
    for m, q in db.items():
        if ca:
            out[m] = out.get(m, 0) + q * ca
    for m, q in da.items():
        for m2, q2 in db.items():
            mm = tuple(sorted(m + m2, key=lambda a: a.nid))
            out[mm] = out.get(mm, 0) + q * q2
    return _mklin(c, out)


def monos(t):
    c, d = _lin(t)
    return c, list(d.items())


# Atoms known to be smaller than others: filled by the interpreter (name based symbols of the flash geometry).
SMALLER = set()  # pairs (a, b): 0 <= a < b


def div(a, b):
    if is_k(a) and is_k(b) and b.args[0] != 0:
        return k(a.args[0] // b.args[0])
    if is_k(b) and b.args[0] == 1:
        return a
    if is_k(a) and a.args[0] == 0:
        return a
    if b.tag not in ("k", "lin"):
        c, d = _lin(a)
        q, r = {}, {}
        for m, co in d.items():
            if b in m:
                mm = list(m)
                mm.remove(b)
                mm = tuple(mm)
                q[mm] = q.get(mm, 0) + co
            else:
                r[m] = co
        if q:
            rest = _mklin(c, r)
            qc = q.pop((), 0)
            qq = _mklin(qc, q)
            if rest is k(0) or (rest, b) in SMALLER:
                return qq
            return add(qq, mk("div", rest, b))
        if (a, b) in SMALLER:
            return k(0)
    return mk("div", a, b)


def rem(a, b):
    if is_k(a) and is_k(b) and b.args[0] != 0:
        return k(a.args[0] % b.args[0])
    if b.tag not in ("k", "lin"):
        c, d = _lin(a)
        if c == 0 and all(b in m for m in d):
            return k(0)
    return mk("rem", a, b)


def max_(a, b):
    if is_k(a) and is_k(b):
        return k(max(a.args[0], b.args[0]))
    if a is b:
        return a
    if is_k(a) and a.args[0] == 0:
        return b
    if is_k(b) and b.args[0] == 0:
        return a
    return mk("max", *sorted((a, b), key=lambda x: x.nid))


def min_(a, b):
    if is_k(a) and is_k(b):
        return k(min(a.args[0], b.args[0]))
    if a is b:
        return a
    return mk("min", *sorted((a, b), key=lambda x: x.nid))


def next_multiple_of(a, b):
    if is_k(a) and a.args[0] == 0:
        return a
    if is_k(a) and is_k(b) and b.args[0]:
        return k(-(-a.args[0] // b.args[0]) * b.args[0])
    if a.tag == "nmo" and a.args[1] is b:
        return a
    # multiples of b can be pulled out
    if b.tag not in ("k", "lin"):
        c, d = _lin(a)
        out, keep = {}, {}
        for m, q in d.items():
            (out if b in m else keep)[m] = q
        if out:
            return add(_mklin(0, out), next_multiple_of(_mklin(c, keep), b))
    return mk("nmo", a, b)


# ---------------------------------------------------------------- booleans
def lt0(x):
    if is_k(x):
        return TRUE if x.args[0] < 0 else FALSE
    return mk("lt0", x)


def eq0(x):
    if is_k(x):
        return TRUE if x.args[0] == 0 else FALSE
    c, d = _lin(x)
    first = sorted(d.items(), key=lambda mq: tuple(a.nid for a in mq[0]))[0]
    if first[1] < 0:
        x = scale(x, -1)
    return mk("eq0", x)


def is_b(t):
    return isinstance(t, T) and t.tag == "b"


def not_(x):
    if x.tag == "b":
        return FALSE if x.args[0] else TRUE
    if x.tag == "not":
        return x.args[0]
    return mk("not", x)


def lt(a, b):
    if has_stale(a) or has_stale(b):
        return mk("unkb", "lt", a, b)
    return lt0(sub(a, b))


def le(a, b):
    if has_stale(a) or has_stale(b):
        return mk("unkb", "le", a, b)
    return not_(lt0(sub(b, a)))


def eq(a, b):
    if has_stale(a) or has_stale(b):
        return mk("unkb", "eq", a, b)
    if a is b:
        return TRUE
    return eq0(sub(a, b))


def and_(a, c):
    if a is FALSE or c is FALSE:
        return FALSE
    if a is TRUE:
        return c
    if c is TRUE:
        return a
    if a is c:
        return a
    return mk("and", *sorted((a, c), key=lambda z: z.nid))


def or_(a, c):
    return not_(and_(not_(a), not_(c)))


# ---------------------------------------------------------------- aggregates
def adt(path, variant, fields):
    return mk("adt", path, variant, tuple(fields))


def tup(*f):
    return adt("()", 0, f)


def subarr(base, lo, ln):
    """Part of some content."""
    if base.tag == "subarr":
        return mk("subarr", base.args[0], add(base.args[1], lo), ln)
    return mk("subarr", base, lo, ln)


UNIT = adt("()", 0, ())
UNDEF = mk("undef")
OPT = "core::option::Option"
RES = "core::result::Result"
POLL = "core::task::Poll"
CF = "core::ops::ControlFlow"


def none():
    return adt(OPT, 0, ())


def some(v):
    return adt(OPT, 1, (v,))


def ok(v):
    return adt(RES, 0, (v,))


def err(v):
    return adt(RES, 1, (v,))


def ref(root, path=()):
    return mk("ref", root, tuple(path))


def sl(root, path, lo, ln):
    return mk("sl", root, tuple(path), lo, ln)


# ---------------------------------------------------------------- printing
def show(t, depth=7):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(show(x, depth) for x in t)) + "}"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    g = t.tag
    a = t.args
    if g in ("k", "b"):
        return str(a[0])
    if g == "lin":
        s = []
        for m, q in a[1]:
            ms = "*".join(show(x, d) for x in m)
            s.append((f"{q}*" if q not in (1, -1) else ("-" if q == -1 else "")) + ms)
        if a[0]:
            s.append(str(a[0]))
        return "(" + " + ".join(s).replace("+ -", "- ") + ")"
    if g == "sym":
        return str(a[0])
    if g == "phi":
        return f"φ{t.nid}"
    if g == "stale":
        return f"old({show(a[0], d)})"
    if g == "fld":
        return f"{show(a[0], d)}.{a[2]}" + (f"@{a[1]}" if a[1] else "")
    if g == "deref":
        return f"*{show(a[0], d)}"
    if g == "adt":
        n = a[0].split("::")[-1]
        return f"{n}#{a[1]}({', '.join(show(x, d) for x in a[2])})"
    if g == "lt0":
        return f"[{show(a[0], d)} < 0]"
    if g == "eq0":
        return f"[{show(a[0], d)} == 0]"
    if g in ("div", "rem"):
        return f"({show(a[0], d)} {'/' if g == 'div' else '%'} {show(a[1], d)})"
    return f"{g}({', '.join(show(x, d) for x in a)})"
