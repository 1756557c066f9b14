"""Abstract semantics of the core/std functions the crate calls.

Every handler takes (I, state, cctx, depth, fn, args, dty) and returns [(state, value)] (or None: not modelled).
"""
from terms import *
import terms as tm

OPTI = (OPT, [(0, 0), (1, 1)])
RESI = (RES, [(0, 1), (1, 1)])
RANGE = "core::ops::Range"

TABLE = {}
BY_NAME = {}


def model(*paths):
    def deco(f):
        for p in paths:
            TABLE[p] = f
        return f
    return deco


class Models:
    def __init__(self):
        self.table = dict(TABLE)

    def lookup(self, fr):
        h = self.table.get(fr.path)
        if h is None and fr.resolved:
            h = self.table.get(fr.resolved)
        if h is None:
            # integer inherent methods:  core::num::<impl u32>::checked_sub
            p = fr.path
            if p.startswith("core::num::<impl "):
                h = self.table.get("int::" + p.split("::")[-1])
            elif p.startswith("core::slice::<impl ") or p.startswith("core::array::<impl "):
                h = self.table.get("slice::" + p.split("::")[-1])
            elif p.startswith("core::option::Option::"):
                h = self.table.get("opt::" + p.split("::")[-1])
            elif p.startswith("core::result::Result::"):
                h = self.table.get("res::" + p.split("::")[-1])
            elif p.startswith("core::iter::Iterator::") or p.startswith("core::iter::DoubleEndedIterator::"):
                h = self.table.get("iter::" + p.split("::")[-1])
        return h


# ---------------------------------------------------------------- identity-like
@model("core::convert::From::from", "core::convert::Into::into")
def m_from(I, s, c, d, fr, a, dty):
    x = a[0]
    if dty is not None:
        t = I.F.ty(dty)
        if t.get("k") in ("int", "uint"):
            if x.tag == "b":
                return [(s, k(int(x.args[0])))]
            return [(s, x)]
    if fr.resolved and ("<T as core::convert::From<T>>" in fr.resolved or "Into<U>" in fr.resolved):
        return [(s, x)]
    return [(s, mk("app", "from", x))]


@model("core::clone::Clone::clone")
def m_clone(I, s, c, d, fr, a, dty):
    return [(s, I.deref(s, a[0]))]


@model("core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref", "core::convert::identity",
       "core::mem::ManuallyDrop::<T>::new", "core::hint::black_box")
def m_id(I, s, c, d, fr, a, dty):
    return [(s, a[0])]


@model("core::mem::drop", "core::mem::forget")
def m_drop(I, s, c, d, fr, a, dty):
    return [(s, UNIT)]


@model("core::future::IntoFuture::into_future", "core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new",
       "core::pin::Pin::<&'a mut T>::get_unchecked_mut", "core::pin::Pin::<&'a mut T>::get_mut", "core::pin::pin")
def m_pin(I, s, c, d, fr, a, dty):
    return [(s, a[0])]


@model("core::future::get_context")
def m_ctx(I, s, c, d, fr, a, dty):
    return [(s, mk("sym", "cx", None))]


@model("core::future::Future::poll")
def m_poll(I, s, c, d, fr, a, dty):
    return [(ns, adt(POLL, 0, (v,))) for ns, v in I.poll(s, c, d, a[0], dty)]


@model("core::mem::discriminant", "core::intrinsics::discriminant_value")
def m_discr(I, s, c, d, fr, a, dty):
    v = I.deref(s, a[0])
    ty = fr.targs[0] if fr.targs else None
    r = I.discr_of(s, v, ty)
    if fr.name == "discriminant":
        return [(s, adt("core::mem::Discriminant", 0, (r,)))]
    return [(s, r)]


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_eq(I, s, c, d, fr, a, dty):
    x, y = I.deref(s, a[0]), I.deref(s, a[1])
    n = 0
    while x.tag == "ref" and y.tag == "ref" and n < 3:
        x, y = I.deref(s, x), I.deref(s, y)
        n += 1
    # derived equality on a local type: run it
    r = generic_eq(I, s, x, y, fr)
    if fr.name == "ne":
        r = not_(r)
    return [(s, r)]


def generic_eq(I, s, x, y, fr=None):
    x, y = s.resolve(x), s.resolve(y)
    if x.tag == "adt" and y.tag == "adt":
        return I.struct_eq(s, x, y)
    for p, q in ((x, y), (y, x)):
        if p.tag == "adt" and q.tag != "adt":
            a = I.F.adts.get(p.args[0])
            isenum = (a and a["kind"] == "enum") or p.args[0] in (OPT, RES)
            if isenum:
                if q not in I.discr_info or I.discr_info[q] is None:
                    if a:
                        I.discr_info[q] = (p.args[0], [(int(v["discr"]) if v.get("discr") is not None else i, len(v["fields"])) for i, v in enumerate(a["variants"])])
                    else:
                        I.discr_info[q] = OPTI if p.args[0] == OPT else RESI
                r = eq(mk("discr", q), I.discr_of(s, p, None))
                for i, f in enumerate(p.args[2]):
                    r = and_(r, generic_eq(I, s, f, project_f(q, p.args[1], i)))
                return r
    return I.eqv(s, x, y)


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def m_cmp(I, s, c, d, fr, a, dty):
    x, y = I.deref(s, a[0]), I.deref(s, a[1])
    return [(s, I.binop(s, fr.name.capitalize(), x, y))]


@model("core::cmp::Ord::max", "core::cmp::max")
def m_max(I, s, c, d, fr, a, dty):
    return [(s, max_(a[0], a[1]))]


@model("core::cmp::Ord::min", "core::cmp::min")
def m_min(I, s, c, d, fr, a, dty):
    return [(s, min_(a[0], a[1]))]


@model("core::default::Default::default")
def m_default(I, s, c, d, fr, a, dty):
    t = I.F.ty(dty) if dty is not None else {}
    if t.get("k") in ("int", "uint"):
        return [(s, k(0))]
    if t.get("k") == "bool":
        return [(s, FALSE)]
    if t.get("k") == "adt" and t["p"] == OPT:
        return [(s, none())]
    return None


@model("core::mem::size_of")
def m_size_of(I, s, c, d, fr, a, dty):
    t = I.F.tystr(fr.targs[0]) if fr.targs else "?"
    sz = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "u128": 16, "i128": 16, "usize": 8}.get(t)
    return [(s, k(sz) if sz else mk("sym", "size_of:" + t, None))]


@model("core::mem::replace")
def m_replace(I, s, c, d, fr, a, dty):
    old = I.deref(s, a[0])
    I.set_deref(s, a[0], a[1])
    return [(s, old)]


@model("core::mem::take")
def m_mtake(I, s, c, d, fr, a, dty):
    old = I.deref(s, a[0])
    t = I.F.ty(dty) if dty is not None else {}
    new = none() if t.get("k") == "adt" and t["p"] == OPT else mk("sym", "default", c)
    I.set_deref(s, a[0], new)
    return [(s, old)]


@model("core::mem::swap")
def m_swap(I, s, c, d, fr, a, dty):
    x, y = I.deref(s, a[0]), I.deref(s, a[1])
    I.set_deref(s, a[0], y)
    I.set_deref(s, a[1], x)
    return [(s, UNIT)]


# ---------------------------------------------------------------- `?`
@model("core::ops::Try::branch")
def m_branch(I, s, c, d, fr, a, dty):
    v = a[0]
    isopt = fr.resolved and "option::Option" in fr.resolved
    out = []
    for s2, var, p in I.split(s, v, OPTI if isopt else RESI):
        if isopt:
            out.append((s2, adt(CF, 0, (p,)) if var == 1 else adt(CF, 1, (none(),))))
        else:
            out.append((s2, adt(CF, 0, (p,)) if var == 0 else adt(CF, 1, (err(p),))))
    return out


@model("core::ops::FromResidual::from_residual")
def m_residual(I, s, c, d, fr, a, dty):
    v = s.resolve(a[0])
    isopt = fr.resolved and "option::Option" in fr.resolved
    if isopt:
        return [(s, none())]
    e = v.args[2][0] if v.tag == "adt" else project_f(v, 1, 0)
    # error conversion through From
    conv = I.mon_from(s, c, d, fr, e, dty) if hasattr(I, "mon_from") else None
    src, dst = residual_types(I, fr, dty, a)
    if src is not None and dst is not None and src != dst:
        out = []
        for ns, v2 in convert(I, s, c, d, e, src, dst):
            out.append((ns, err(v2)))
        return out
    return [(s, err(e))]


def residual_types(I, fr, dty, a):
    """(error type of the residual, error type of the result) as type indices."""
    try:
        t = I.F.ty(dty)
        dst = t["args"][1] if "args" in t else t["a"][1]
        if len(fr.targs) >= 2:
            r = I.F.ty(fr.targs[1])
            src = (r.get("args") or r.get("a"))[1]
            return src, dst
    except Exception:
        pass
    return None, None


def convert(I, s, c, d, e, src, dst):
    """From<src> for dst: a local impl if there is one."""
    ss, ds = I.F.tystr(src), I.F.tystr(dst)
    for it, im in I.F.trait_items.get("core::convert::From::from", []):
        b = I.F.bodies.get(it)
        if b is None:
            continue
        at = I.F.ty(b.locals[1]["ty"])
        st_ = I.F.ty(im["self"]) if isinstance(im["self"], int) else {}
        if I.F.tystr(b.locals[1]["ty"]) == ss and st_.get("p") == I.F.ty(dst).get("p"):
            return I.run(b, c.child("from", b.span, it, it), d + 1, [e], s)
    return [(s, e if ss == ds else mk("app", "from", e))]


# ---------------------------------------------------------------- Option
def opt(I, s, v):
    return I.split(s, v, OPTI)


def rs(I, s, v):
    return I.split(s, v, RESI)


def callf(I, s, c, d, f, args):
    return I.call_value(s, c, d, f, args)


@model("opt::is_some", "opt::is_none")
def o_is(I, s, c, d, fr, a, dty):
    v = I.deref(s, a[0])
    return [(s2, TRUE if (var == 1) == (fr.name == "is_some") else FALSE) for s2, var, p in opt(I, s, v)]


@model("opt::is_some_and", "opt::is_none_or")
def o_isand(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 0:
            out.append((s2, FALSE if fr.name == "is_some_and" else TRUE))
        else:
            out += callf(I, s2, c, d, a[1], [p])
    return out


@model("opt::unwrap", "opt::expect", "opt::unwrap_unchecked")
def o_unwrap(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 1:
            out.append((s2, p))
        else:
            I.mon.on_panic(s2, c, fr)
    return out


@model("opt::unwrap_or", "opt::unwrap_or_default", "opt::unwrap_or_else")
def o_unwrap_or(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 1:
            out.append((s2, p))
        elif fr.name == "unwrap_or":
            out.append((s2, a[1]))
        elif fr.name == "unwrap_or_else":
            out += callf(I, s2, c, d, a[1], [])
        else:
            r = m_default(I, s2, c, d, fr, [], dty)
            out += r if r else [(s2, mk("sym", "default", c))]
    return out


@model("opt::map")
def o_map(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 0:
            out.append((s2, none()))
        else:
            out += [(s3, some(v)) for s3, v in callf(I, s2, c, d, a[1], [p])]
    return out


@model("opt::map_or", "opt::map_or_else")
def o_map_or(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 1:
            out += callf(I, s2, c, d, a[2], [p])
        elif fr.name == "map_or":
            out.append((s2, a[1]))
        else:
            out += callf(I, s2, c, d, a[1], [])
    return out


@model("opt::and_then")
def o_and_then(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 1:
            out += callf(I, s2, c, d, a[1], [p])
        else:
            out.append((s2, none()))
    return out


@model("opt::or", "opt::or_else")
def o_or(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 1:
            out.append((s2, some(p)))
        elif fr.name == "or":
            out.append((s2, a[1]))
        else:
            out += callf(I, s2, c, d, a[1], [])
    return out


@model("opt::filter")
def o_filter(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 0:
            out.append((s2, none()))
            continue
        root = ("X", "flt", c)
        s2.mem[root] = p
        for s3, v in callf(I, s2, c, d, a[1], [ref(root)]):
            s3.mem.pop(root, None)
            for val in (True, False):
                s4 = I.assume(s3.copy(), v, val)
                if s4:
                    out.append((s4, some(p) if val else none()))
    return out


@model("opt::ok_or", "opt::ok_or_else")
def o_ok_or(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 1:
            out.append((s2, ok(p)))
        elif fr.name == "ok_or":
            out.append((s2, err(a[1])))
        else:
            out += [(s3, err(v)) for s3, v in callf(I, s2, c, d, a[1], [])]
    return out


@model("opt::as_ref", "opt::as_mut", "opt::as_deref", "opt::as_deref_mut")
def o_as_ref(I, s, c, d, fr, a, dty):
    r = a[0]
    v = I.deref(s, r)
    out = []
    for s2, var, p in opt(I, s, v):
        if var == 0:
            out.append((s2, none()))
        else:
            root, path = (r.args[0], r.args[1]) if r.tag == "ref" else (("D", r), ())
            # the referent now is the known variant
            cur = I.load(s2, root, path)
            if cur.tag != "adt":
                I.store(s2, root, path, some(p))
            out.append((s2, some(ref(root, path + (("f", 1, 0),)))))
    return out


@model("opt::take")
def o_take(I, s, c, d, fr, a, dty):
    v = I.deref(s, a[0])
    I.set_deref(s, a[0], none())
    return [(s, v)]


@model("opt::replace", "opt::insert")
def o_replace(I, s, c, d, fr, a, dty):
    v = I.deref(s, a[0])
    I.set_deref(s, a[0], some(a[1]))
    if fr.name == "insert":
        r = a[0]
        root, path = (r.args[0], r.args[1]) if r.tag == "ref" else (("D", r), ())
        return [(s, ref(root, path + (("f", 1, 0),)))]
    return [(s, v)]


@model("opt::get_or_insert_with", "opt::get_or_insert")
def o_goi(I, s, c, d, fr, a, dty):
    r = a[0]
    root, path = (r.args[0], r.args[1]) if r.tag == "ref" else (("D", r), ())
    out = []
    for s2, var, p in opt(I, s, I.deref(s, r)):
        res = [(s2, p)] if var == 1 else ([(s2, a[1])] if fr.name == "get_or_insert" else callf(I, s2, c, d, a[1], []))
        for s3, v in res:
            I.store(s3, root, path, some(v))
            out.append((s3, ref(root, path + (("f", 1, 0),))))
    return out


@model("opt::copied", "opt::cloned")
def o_copied(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        out.append((s2, none() if var == 0 else some(I.deref(s2, p))))
    return out


@model("opt::flatten")
def o_flatten(I, s, c, d, fr, a, dty):
    return [(s2, none() if var == 0 else p) for s2, var, p in opt(I, s, a[0])]


@model("opt::transpose")
def o_transpose(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in opt(I, s, a[0]):
        if var == 0:
            out.append((s2, ok(none())))
        else:
            for s3, v3, q in rs(I, s2, p):
                out.append((s3, ok(some(q)) if v3 == 0 else err(q)))
    return out


@model("opt::ok")
def o_ok(I, s, c, d, fr, a, dty):
    return None


# ---------------------------------------------------------------- Result
@model("res::is_ok", "res::is_err")
def r_is(I, s, c, d, fr, a, dty):
    v = I.deref(s, a[0])
    return [(s2, TRUE if (var == 0) == (fr.name == "is_ok") else FALSE) for s2, var, p in rs(I, s, v)]


@model("res::is_ok_and", "res::is_err_and")
def r_isand(I, s, c, d, fr, a, dty):
    out = []
    want = 0 if fr.name == "is_ok_and" else 1
    for s2, var, p in rs(I, s, a[0]):
        if var != want:
            out.append((s2, FALSE))
        else:
            out += callf(I, s2, c, d, a[1], [p])
    return out


@model("res::map")
def r_map(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in rs(I, s, a[0]):
        if var == 0:
            out += [(s3, ok(v)) for s3, v in callf(I, s2, c, d, a[1], [p])]
        else:
            out.append((s2, err(p)))
    return out


@model("res::map_err")
def r_map_err(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in rs(I, s, a[0]):
        if var == 0:
            out.append((s2, ok(p)))
        else:
            out += [(s3, err(v)) for s3, v in callf(I, s2, c, d, a[1], [p])]
    return out


@model("res::and_then")
def r_and_then(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in rs(I, s, a[0]):
        if var == 0:
            out += callf(I, s2, c, d, a[1], [p])
        else:
            out.append((s2, err(p)))
    return out


@model("res::or_else")
def r_or_else(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in rs(I, s, a[0]):
        if var == 1:
            out += callf(I, s2, c, d, a[1], [p])
        else:
            out.append((s2, ok(p)))
    return out


@model("res::map_or", "res::map_or_else")
def r_map_or(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in rs(I, s, a[0]):
        if var == 0:
            out += callf(I, s2, c, d, a[2], [p])
        elif fr.name == "map_or":
            out.append((s2, a[1]))
        else:
            out += callf(I, s2, c, d, a[1], [p])
    return out


@model("res::ok")
def r_ok(I, s, c, d, fr, a, dty):
    return [(s2, some(p) if var == 0 else none()) for s2, var, p in rs(I, s, a[0])]


@model("res::err")
def r_err(I, s, c, d, fr, a, dty):
    return [(s2, some(p) if var == 1 else none()) for s2, var, p in rs(I, s, a[0])]


@model("res::unwrap", "res::expect", "res::unwrap_err", "res::expect_err")
def r_unwrap(I, s, c, d, fr, a, dty):
    out = []
    want = 1 if fr.name.endswith("_err") else 0
    for s2, var, p in rs(I, s, a[0]):
        if var == want:
            out.append((s2, p))
        else:
            I.mon.on_panic(s2, c, fr)
    return out


@model("res::unwrap_or", "res::unwrap_or_default", "res::unwrap_or_else")
def r_unwrap_or(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in rs(I, s, a[0]):
        if var == 0:
            out.append((s2, p))
        elif fr.name == "unwrap_or":
            out.append((s2, a[1]))
        elif fr.name == "unwrap_or_else":
            out += callf(I, s2, c, d, a[1], [p])
        else:
            r = m_default(I, s2, c, d, fr, [], dty)
            out += r if r else [(s2, mk("sym", "default", c))]
    return out


@model("res::as_ref", "res::as_mut")
def r_as_ref(I, s, c, d, fr, a, dty):
    r = a[0]
    root, path = (r.args[0], r.args[1]) if r.tag == "ref" else (("D", r), ())
    out = []
    for s2, var, p in rs(I, s, I.deref(s, r)):
        cur = I.load(s2, root, path)
        if cur.tag != "adt":
            I.store(s2, root, path, adt(RES, var, (p,)))
        out.append((s2, adt(RES, var, (ref(root, path + (("f", var, 0),)),))))
    return out


@model("res::transpose")
def r_transpose(I, s, c, d, fr, a, dty):
    out = []
    for s2, var, p in rs(I, s, a[0]):
        if var == 1:
            out.append((s2, some(err(p))))
        else:
            for s3, v3, q in opt(I, s2, p):
                out.append((s3, none() if v3 == 0 else some(ok(q))))
    return out


@model("core::ops::ControlFlow::<B, C>::is_break", "core::ops::ControlFlow::<B, C>::is_continue")
def cf_is(I, s, c, d, fr, a, dty):
    v = I.deref(s, a[0])
    return [(s2, TRUE if (var == 1) == (fr.name == "is_break") else FALSE) for s2, var, p in I.split(s, v, (CF, [(0, 1), (1, 1)]))]


# ---------------------------------------------------------------- integers
@model("int::checked_sub", "int::checked_add", "int::checked_mul", "int::checked_div", "int::checked_rem")
def i_checked(I, s, c, d, fr, a, dty):
    if fr.name == "checked_sub":
        t = lt(a[0], a[1])
        out = []
        for bad in (False, True):
            s2 = I.assume(s.copy(), t, bad)
            if s2:
                out.append((s2, none() if bad else some(sub(a[0], a[1]))))
        return out
    r = {"checked_add": add, "checked_mul": mul, "checked_div": div, "checked_rem": rem}[fr.name](a[0], a[1])
    return [(s.copy(), none()), (s, some(r))]


@model("int::saturating_sub")
def i_satsub(I, s, c, d, fr, a, dty):
    t = lt(a[0], a[1])
    out = []
    for less in (False, True):
        s2 = I.assume(s.copy(), t, less)
        if s2:
            out.append((s2, k(0) if less else sub(a[0], a[1])))
    return out


@model("int::saturating_add", "int::wrapping_add")
def i_satadd(I, s, c, d, fr, a, dty):
    if fr.name == "saturating_add":
        return [(s, add(a[0], a[1]))]
    return [(s, mk("wrap", "add", a[0], a[1]))]


@model("int::wrapping_sub", "int::wrapping_mul", "int::wrapping_shl", "int::wrapping_shr", "int::rotate_left", "int::rotate_right",
       "int::count_zeros", "int::count_ones", "int::leading_zeros", "int::swap_bytes", "int::pow")
def i_opq(I, s, c, d, fr, a, dty):
    return [(s, mk("app", fr.name, *a))]


@model("int::abs_diff")
def i_absdiff(I, s, c, d, fr, a, dty):
    t = lt(a[0], a[1])
    out = []
    for less in (False, True):
        s2 = I.assume(s.copy(), t, less)
        if s2:
            out.append((s2, sub(a[1], a[0]) if less else sub(a[0], a[1])))
    return out


@model("int::is_multiple_of")
def i_mult(I, s, c, d, fr, a, dty):
    return [(s, eq(rem(a[0], a[1]), k(0)))]


@model("int::next_multiple_of")
def i_nmo(I, s, c, d, fr, a, dty):
    return [(s, next_multiple_of(a[0], a[1]))]


@model("int::div_ceil")
def i_divceil(I, s, c, d, fr, a, dty):
    return [(s, div(next_multiple_of(a[0], a[1]), a[1]))]


@model("int::min_value", "int::max_value")
def i_mm(I, s, c, d, fr, a, dty):
    return [(s, mk("const", fr.path))]


@model("int::to_le_bytes", "int::to_be_bytes", "int::to_ne_bytes")
def i_tole(I, s, c, d, fr, a, dty):
    w = width(fr)
    if w is None:
        return None
    return [(s, mk("le" if "_le_" in fr.name else fr.name, k(w), a[0]))] if "_le_" in fr.name else [(s, mk("arr", mk("app", fr.name, a[0]), k(w), ()))]


@model("int::from_le_bytes", "int::from_be_bytes", "int::from_ne_bytes")
def i_fromle(I, s, c, d, fr, a, dty):
    v = a[0]
    if v.tag == "arr" and not v.args[2]:
        v = v.args[0]
    if fr.name == "from_le_bytes" and v.tag == "le":
        return [(s, v.args[1])]
    return [(s, mk("app", fr.name, k(width(fr) or 0), v))]


def width(fr):
    import re
    m = re.search(r"<impl [uif](\d+)>", fr.path)
    return int(m.group(1)) // 8 if m else None


@model("core::num::NonZero::<T>::new")
def nz_new(I, s, c, d, fr, a, dty):
    out = []
    for z in (False, True):
        s2 = I.assume(s.copy(), eq(a[0], k(0)), z)
        if s2:
            out.append((s2, none() if z else some(a[0])))
    return out


@model("core::num::NonZero::<T>::get", "core::num::NonZero::<T>::new_unchecked")
def nz_get(I, s, c, d, fr, a, dty):
    return [(s, a[0])]


@model("core::ops::Rem::rem", "core::ops::Div::div", "core::ops::Add::add", "core::ops::Sub::sub", "core::ops::Mul::mul")
def ops_arith(I, s, c, d, fr, a, dty):
    x, y = a
    if x.tag == "ref":
        x = I.deref(s, x)
    if y.tag == "ref":
        y = I.deref(s, y)
    return [(s, I.binop(s, fr.name.capitalize(), x, y))]


@model("core::ops::AddAssign::add_assign", "core::ops::SubAssign::sub_assign")
def ops_assign(I, s, c, d, fr, a, dty):
    x = I.deref(s, a[0])
    I.set_deref(s, a[0], I.binop(s, fr.name[:3].capitalize(), x, a[1]))
    return [(s, UNIT)]


@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def m_try_into(I, s, c, d, fr, a, dty):
    x = a[0]
    t = I.F.ty(dty)
    args = t.get("args") or t.get("a") or []
    tt = I.F.ty(args[0]) if args else {}
    if tt.get("k") == "ref" and I.F.ty(tt["t"]).get("k") == "array":
        tt = {"k": "sliceref"}
    if tt.get("k") == "array":
        if x.tag in ("sl", "ref") or True:
            ct = I.content(s, x)
            n = I.as_slice(s, x).args[3]
            val = ct if ct.tag in ("le",) else (ct if ct.tag == "arr" else mk("arr", ct, n, ()))
            bad = s.copy()
            out = [(s, ok(val))]
            want = str(tt.get("n"))
            fits = is_k(n) and str(n.args[0]) == want or n.tag == "const" and str(n.args[0]) == want
            if is_k(n) and want.isdigit() and not fits:
                return [(bad, err(mk("sym", "TryFromSlice", c)))]
            if not fits:
                out.append((bad, err(mk("sym", "TryFromSlice", c))))
            return out
    if tt.get("k") in ("int", "uint"):
        s2 = s.copy()
        return [(s, ok(x)), (s2, err(mk("sym", "TryFromInt", c)))]
    return [(s, ok(mk("sym", "tryinto", c))), (s.copy(), err(mk("sym", "tryerr", c)))]


# ---------------------------------------------------------------- ranges, slices
def range_bounds(I, s, r, n):
    r = s.resolve(r)
    p = r.args[0] if r.tag == "adt" else None
    f = r.args[2] if r.tag == "adt" else ()
    if p == RANGE:
        return f[0], f[1]
    if p and p.endswith("RangeTo"):
        return k(0), f[0]
    if p and p.endswith("RangeFrom"):
        return f[0], n
    if p and p.endswith("RangeFull"):
        return k(0), n
    if p and p.endswith("RangeToInclusive"):
        return k(0), add(f[0], k(1))
    if p and p.endswith("RangeInclusive"):
        return f[0], add(f[1], k(1))
    if r.tag == "const" and "RangeFull" in str(r.args):
        return k(0), n
    return None


@model("core::ops::Index::index", "core::ops::IndexMut::index_mut")
def m_index(I, s, c, d, fr, a, dty):
    base = I.as_slice(s, a[0]) if not (fr.resolved and "vec::Vec" in fr.resolved) else I.as_slice(s, a[0])
    root, path, lo, ln = base.args
    r = s.resolve(a[1])
    b = range_bounds(I, s, r, ln)
    if b is None:
        if r.tag == "adt":
            return None
        I.mon.on_index(s, c, r, add(r, k(1)), ln)
        s2 = I.assume(s, lt(r, ln), True)
        return [(s2, ref(root, path + (("i", add(lo, r)),)))] if s2 else []
    x, y = b
    I.mon.on_index(s, c, x, y, ln)
    s2 = I.assume(s, le(x, y), True)
    s2 = I.assume(s2, le(y, ln), True) if s2 else None
    return [(s2, sl(root, path, add(lo, x), sub(y, x)))] if s2 else []


@model("slice::get", "slice::get_mut")
def m_get(I, s, c, d, fr, a, dty):
    base = I.as_slice(s, a[0])
    root, path, lo, ln = base.args
    r = s.resolve(a[1])
    b = range_bounds(I, s, r, ln)
    out = []
    if b is None:
        if r.tag == "adt":
            return None
        for good in (True, False):
            s2 = I.assume(s.copy(), lt(r, ln), good)
            if s2:
                out.append((s2, some(ref(root, path + (("i", add(lo, r)),))) if good else none()))
        return out
    x, y = b
    s1 = I.assume(s.copy(), le(x, y), True)
    s1 = I.assume(s1, le(y, ln), True) if s1 else None
    if s1:
        out.append((s1, some(sl(root, path, add(lo, x), sub(y, x)))))
    for t, first in ((le(x, y), True), (le(y, ln), False)):
        s2 = s.copy()
        if not first:
            s2 = I.assume(s2, le(x, y), True)
        s2 = I.assume(s2, t, False) if s2 else None
        if s2:
            out.append((s2, none()))
    return out


@model("slice::split_at", "slice::split_at_mut")
def m_split_at(I, s, c, d, fr, a, dty):
    root, path, lo, ln = I.as_slice(s, a[0]).args
    m = a[1]
    I.mon.on_index(s, c, k(0), m, ln)
    s2 = I.assume(s, le(m, ln), True)
    return [(s2, tup(sl(root, path, lo, m), sl(root, path, add(lo, m), sub(ln, m))))] if s2 else []


@model("slice::split_at_checked", "slice::split_at_mut_checked")
def m_split_at_c(I, s, c, d, fr, a, dty):
    root, path, lo, ln = I.as_slice(s, a[0]).args
    m = a[1]
    out = []
    for good in (True, False):
        s2 = I.assume(s.copy(), le(m, ln), good)
        if s2:
            out.append((s2, some(tup(sl(root, path, lo, m), sl(root, path, add(lo, m), sub(ln, m)))) if good else none()))
    return out


@model("slice::len", "core::str::<impl str>::len")
def m_len(I, s, c, d, fr, a, dty):
    return [(s, I.as_slice(s, a[0]).args[3])]


@model("slice::is_empty", "core::str::<impl str>::is_empty")
def m_is_empty(I, s, c, d, fr, a, dty):
    return [(s, eq(I.as_slice(s, a[0]).args[3], k(0)))]


@model("slice::as_slice", "slice::as_mut_slice", "slice::as_ref", "core::str::<impl str>::as_bytes")
def m_as_slice(I, s, c, d, fr, a, dty):
    return [(s, a[0])]


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copy(I, s, c, d, fr, a, dty):
    src, dst = I.as_slice(s, a[1]), I.as_slice(s, a[0])
    s2 = I.assume(s, eq(src.args[3], dst.args[3]), True)
    if not s2:
        return []
    ct = I.content(s2, src)
    I.mon.on_copy(s2, c, dst, src, ct)
    I.write_slice(s2, sl(dst.args[0], dst.args[1], dst.args[2], src.args[3]) if False else dst, ct)
    return [(s2, UNIT)]


@model("slice::fill")
def m_fill(I, s, c, d, fr, a, dty):
    dst = I.as_slice(s, a[0])
    I.write_slice(s, dst, mk("repc", a[1], dst.args[3]))
    return [(s, UNIT)]


@model("slice::first", "slice::last")
def m_first(I, s, c, d, fr, a, dty):
    root, path, lo, ln = I.as_slice(s, a[0]).args
    out = []
    for e in (True, False):
        s2 = I.assume(s.copy(), eq(ln, k(0)), e)
        if s2:
            i = lo if fr.name == "first" else sub(add(lo, ln), k(1))
            out.append((s2, none() if e else some(ref(root, path + (("i", i),)))))
    return out


@model("core::ops::RangeInclusive::<Idx>::new")
def m_ri(I, s, c, d, fr, a, dty):
    return [(s, adt("core::ops::RangeInclusive", 0, (a[0], a[1], FALSE)))]


@model("core::ops::Range::<Idx>::contains")
def m_contains(I, s, c, d, fr, a, dty):
    r = I.deref(s, a[0])
    x = I.deref(s, a[1])
    return [(s, and_(le(project_f(r, 0, 0), x), lt(x, project_f(r, 0, 1))))]


@model("core::ops::Range::<Idx>::is_empty")
def m_rempty(I, s, c, d, fr, a, dty):
    r = I.deref(s, a[0])
    return [(s, not_(lt(project_f(r, 0, 0), project_f(r, 0, 1))))]


# ---------------------------------------------------------------- iterators
def it(kind, *f):
    return adt("iter::" + kind, 0, f)


@model("core::iter::IntoIterator::into_iter")
def m_into_iter(I, s, c, d, fr, a, dty):
    x = a[0]
    v = s.resolve(x)
    if v.tag in ("sl",):
        return [(s, it("Slice", v))]
    if v.tag == "ref":
        tgt = I.load(s, v.args[0], v.args[1])
        if tgt.tag == "arr":
            return [(s, it("Slice", I.as_slice(s, v)))]
        return [(s, v)]
    if v.tag == "arr":
        return [(s, it("Opaque", v))]
    if fr.resolved and "slice::iter" in fr.resolved:
        return [(s, it("Slice", I.as_slice(s, v)))]
    return [(s, v)]


@model("slice::iter", "slice::iter_mut")
def m_iter(I, s, c, d, fr, a, dty):
    return [(s, it("Slice", I.as_slice(s, a[0])))]


@model("slice::chunks_exact", "slice::chunks_exact_mut", "slice::chunks", "slice::chunks_mut")
def m_chunks(I, s, c, d, fr, a, dty):
    return [(s, it("Chunks", I.as_slice(s, a[0]), a[1]))]


def wrap1(kind):
    def h(I, s, c, d, fr, a, dty):
        return [(s, it(kind, *a))]
    return h


for _n, _k in (("map", "Map"), ("filter", "Filter"), ("enumerate", "Enumerate"), ("zip", "Zip"), ("take", "Take"), ("skip", "Skip"),
               ("rev", "Rev"), ("flatten", "Flatten"), ("filter_map", "FilterMap"), ("copied", "Copied"), ("cloned", "Copied"),
               ("chain", "Chain"), ("take_while", "TakeWhile"), ("skip_while", "SkipWhile"), ("peekable", "Opaque"), ("step_by", "StepBy"),
               ("cycle", "Cycle"), ("inspect", "Inspect"), ("by_ref", "ByRef"), ("flat_map", "Opaque"), ("map_while", "Opaque")):
    if _n != "by_ref":
        TABLE["iter::" + _n] = wrap1(_k)


def next_(I, s, c, d, itref, back=False):
    """[(state, None | item)]; the iterator behind itref is advanced."""
    v = I.deref(s, itref)
    n = 0
    while v.tag == "ref" and n < 3:
        itref = v
        v = I.deref(s, v)
        n += 1
    if v.tag == "adt" and v.args[0] == RANGE:
        lo, hi = v.args[2]
        out = []
        for more in (True, False):
            s2 = I.assume(s.copy(), lt(lo, hi), more)
            if not s2:
                continue
            if not more:
                out.append((s2, None))
            elif back:
                I.set_deref(s2, itref, adt(RANGE, 0, (lo, sub(hi, k(1)))))
                out.append((s2, sub(hi, k(1))))
            else:
                I.set_deref(s2, itref, adt(RANGE, 0, (add(lo, k(1)), hi)))
                out.append((s2, lo))
        return out
    if v.tag == "adt" and v.args[0] == "core::ops::RangeFrom":
        lo = v.args[2][0]
        I.set_deref(s, itref, adt(v.args[0], 0, (add(lo, k(1)),)))
        return [(s, lo)]
    if v.tag == "adt" and v.args[0] == "core::ops::RangeInclusive":
        lo, hi, ex = v.args[2]
        out = []
        t = and_(not_(ex), le(lo, hi)) if isinstance(ex, T) else le(lo, hi)
        for more in (True, False):
            s2 = I.assume(s.copy(), t, more)
            if not s2:
                continue
            if not more:
                out.append((s2, None))
            else:
                I.set_deref(s2, itref, adt(v.args[0], 0, (add(lo, k(1)), hi, FALSE)))
                out.append((s2, lo))
        return out
    if v.tag == "adt" and v.args[0].startswith("iter::"):
        kind = v.args[0][6:]

        def subref(i):
            if itref.tag == "ref":
                return ref(itref.args[0], itref.args[1] + (("f", 0, i),))
            return ref(("D", itref), (("f", 0, i),))

        if kind == "Map":
            out = []
            for s2, x in next_(I, s, c, d, subref(0), back):
                if x is None:
                    out.append((s2, None))
                else:
                    f = I.deref(s2, subref(1))
                    out += I.call_value(s2, c.child("m", c.span, "map", None), d, subref(1) if f.tag == "clo" else f, [x])
            return out
        if kind == "Rev":
            return next_(I, s, c, d, subref(0), not back)
        if kind in ("Inspect", "ByRef", "Take", "StepBy", "TakeWhile", "SkipWhile"):
            out = next_(I, s, c, d, subref(0), back)
            if kind in ("Take", "TakeWhile"):
                out.append((s.copy(), None))
            return out
        if kind == "Copied":
            return [(s2, None if x is None else I.deref(s2, x)) for s2, x in next_(I, s, c, d, subref(0), back)]
        if kind == "Enumerate":
            return [(s2, None if x is None else tup(mk("sym", "enum_idx", c), x)) for s2, x in next_(I, s, c, d, subref(0), back)]
        if kind == "Zip":
            out = []
            for s2, x in next_(I, s, c, d, subref(0), back):
                if x is None:
                    out.append((s2, None))
                    continue
                for s3, y in next_(I, s2, c.child("z", c.span, "zip", None), d, subref(1), back):
                    out.append((s3, None if y is None else tup(x, y)))
            return out
        if kind == "Filter":
            out = []
            for s2, x in next_(I, s, c, d, subref(0), back):
                if x is None:
                    out.append((s2, None))
                    continue
                root = ("X", "flt", c)
                s2.mem[root] = x
                f = I.deref(s2, subref(1))
                for s3, r in I.call_value(s2, c.child("m", c.span, "filter", None), d, subref(1) if f.tag == "clo" else f, [ref(root)]):
                    s3.mem.pop(root, None)
                    s4 = I.assume(s3.copy(), r, True)
                    if s4:
                        out.append((s4, x))
            out.append((s.copy(), None))
            return out
        if kind == "Chain":
            return next_(I, s.copy(), c, d, subref(0), back) + next_(I, s, c.child("c", c.span, "chain", None), d, subref(1), back)
        if kind == "Slice":
            root, path, lo, ln = v.args[2][0].args
            i = mk("sym", "i", c)
            s1 = s.copy()
            i_ok = I.assume(s1, lt(i, ln), True)
            return [(s, None)] + ([(i_ok, ref(root, path + (("i", add(lo, i)),)))] if i_ok else [])
        if kind == "Chunks":
            root, path, lo, ln = v.args[2][0].args
            return [(s.copy(), None), (s, sl(root, path, add(lo, mk("sym", "chunk", c)), v.args[2][1]))]
    return [(s.copy(), None), (s, mk("sym", "item", c))]


@model("iter::next", "iter::next_back")
def m_next(I, s, c, d, fr, a, dty):
    # a local Iterator implementation
    return [(s2, none() if x is None else some(x)) for s2, x in next_(I, s, c, d, a[0], fr.name == "next_back")]


def drain(I, s, c, d, itv, body, rounds=2):
    """Run an iterator consumer: `body(state, item) -> [(state, stop value | None)]`; yields [(state, stop value | None)]."""
    root = ("X", "it", c)
    s.mem[root] = itv
    done = []
    cur = [s]
    for n in range(rounds):
        nxt = []
        for s1 in cur:
            for s2, x in next_(I, s1, c, d, ref(root)):
                if x is None:
                    done.append((s2, None))
                else:
                    for s3, stop in body(s2, x):
                        if stop is not None:
                            done.append((s3, stop))
                        else:
                            nxt.append(s3)
        cur = nxt
    for s1 in cur:
        done.append((s1, None))
    for s1, _ in done:
        s1.mem.pop(root, None)
    return done


@model("iter::count", "iter::sum", "iter::max", "iter::min", "iter::last", "iter::product")
def it_reduce(I, s, c, d, fr, a, dty):
    v = a[0]
    if v.tag == "ref":
        v = I.deref(s, v)
    if fr.name == "count":
        w = v
        while w.tag == "adt" and w.args[0] in ("iter::Map", "iter::Rev", "iter::Enumerate", "iter::Copied"):
            w = w.args[2][0]
        if w.tag == "adt" and w.args[0] == RANGE:
            return [(s, sub(w.args[2][1], w.args[2][0]))]
        if w.tag == "adt" and w.args[0] == "iter::Slice":
            return [(s, w.args[2][0].args[3])]
    return [(s, I.fresh(c, fr.name, dty))]


@model("core::iter::ExactSizeIterator::len")
def it_len(I, s, c, d, fr, a, dty):
    v = I.deref(s, a[0])
    if v.tag == "adt" and v.args[0] == RANGE:
        return [(s, sub(v.args[2][1], v.args[2][0]))]
    lo, hi = project_f(v, 0, 0), project_f(v, 0, 1)
    return [(s, sub(hi, lo))]


@model("iter::all", "iter::any", "iter::find", "iter::position", "iter::fold", "iter::for_each", "iter::find_map", "iter::try_for_each",
       "iter::max_by_key", "iter::min_by_key", "iter::nth", "iter::max_by", "iter::min_by", "iter::rposition", "iter::rfind")
def it_consume(I, s, c, d, fr, a, dty):
    v = a[0]
    if v.tag == "ref":
        v = I.deref(s, v)
    n = fr.name
    f = a[-1]
    cc = c.child("f", c.span, n, None)

    def body(s_, x):
        if n in ("find", "rfind", "max_by_key", "min_by_key"):
            root = ("X", "fi", c)
            s_.mem[root] = x
            args = [ref(root)]
        elif n == "fold":
            args = [mk("sym", "acc", c), x]
        elif n in ("nth", "max_by", "min_by"):
            return [(s_, None)]
        else:
            args = [x]
        out = []
        for s2, r in I.call_value(s_, cc, d, f, args):
            s2.mem.pop(("X", "fi", c), None)
            if n in ("all", "any", "find", "rfind", "position", "rposition"):
                for val in (True, False):
                    s3 = I.assume(s2.copy(), r, val)
                    if not s3:
                        continue
                    if n == "all":
                        out.append((s3, None if val else FALSE))
                    elif n == "any":
                        out.append((s3, TRUE if val else None))
                    elif n in ("find", "rfind"):
                        out.append((s3, some(x) if val else None))
                    else:
                        out.append((s3, some(mk("sym", "pos", c)) if val else None))
            elif n == "find_map":
                for s3, var, p in opt(I, s2, r):
                    out.append((s3, some(p) if var == 1 else None))
            elif n == "try_for_each":
                out.append((s2, r) if r.tag == "adt" and r.args[1] == 1 else (s2, None))
            else:
                out.append((s2, None))
        return out

    default = {"all": TRUE, "any": FALSE, "find": none(), "rfind": none(), "position": none(), "rposition": none(), "find_map": none(),
               "for_each": UNIT}.get(n)
    out = []
    rounds = 1
    blank = all_ff(I, s, cc, d, v, f, n) if n in ("all", "any") else None
    for s2, stop in drain(I, s, c, d, v, body, rounds):
        r = stop if stop is not None else (default if default is not None else I.fresh(c, n, dty))
        if blank is not None:
            s2.facts[blank[0]] = TRUE if blank[1] and r is (TRUE if n == "all" else FALSE) else FALSE
        out.append((s2, r))
    return out


def it_slice(s, v):
    """The slice an iterator runs over, if it is one from its start."""
    v = s.resolve(v)
    if v.tag == "sl":
        return v
    if v.tag != "adt":
        return None
    if v.args[0] == "iter::Slice":
        return v.args[2][0]
    if v.args[0] in ("iter::Copied", "iter::Cloned"):
        return it_slice(s, v.args[2][0])
    if v.args[0] == "iter::Take":
        b = it_slice(s, v.args[2][0])
        if b is not None and s.truth(le(v.args[2][1], b.args[3])) is True:
            return sl(b.args[0], b.args[1], b.args[2], v.args[2][1])
    return None


def all_ff(I, s, cc, d, v, f, n):
    """Is this "all"/"any" a test of a slice for being all 0xFF?  (fact term, whether it is)"""
    b = it_slice(s, v)
    if b is None:
        return None
    byval = s.resolve(v).args[0] in ("iter::Copied", "iter::Cloned")
    good = True
    for x in (0xFF, 0, 0x7F, 0xFE):
        s1 = s.copy()
        root = ("X", "probe", cc)
        s1.mem[root] = k(x)
        rs = {r for _, r in I.call_value(s1, cc, d, f, [k(x) if byval else ref(root)])}
        want = (x == 0xFF) == (n == "all")
        good = good and rs == {TRUE if want else FALSE}
    return mk("app", "allff", k(0), I.content(s, b)), good


# ---------------------------------------------------------------- closures called through the Fn traits
@model("core::ops::Fn::call", "core::ops::FnMut::call_mut", "core::ops::FnOnce::call_once")
def m_fncall(I, s, c, d, fr, a, dty):
    args = a[1]
    al = list(args.args[2]) if args.tag == "adt" else [args]
    return I.call_value(s, c, d, a[0], al, dty)


# ---------------------------------------------------------------- smart pointers, cells
@model("core::ops::Deref::deref", "core::ops::DerefMut::deref_mut")
def m_deref(I, s, c, d, fr, a, dty):
    """Deref of a wrapper: the wrapped place, one per wrapper place."""
    r = a[0]
    v = I.deref(s, r)
    if v.tag == "adt" and v.args[0] in ("guard",):
        return [(s, v.args[2][0])]
    if fr.resolved and ("vec::Vec" in fr.resolved or "Vec" in fr.resolved or "String" in fr.resolved):
        return [(s, sl(("D", mk("app", "derefs", r)), (), k(0), mk("len", mk("app", "derefs", r))))]
    return [(s, mk("app", "derefs", r))]


@model("core::cell::RefCell::<T>::borrow", "core::cell::RefCell::<T>::borrow_mut", "core::cell::RefCell::<T>::get_mut", "core::cell::RefCell::<T>::try_borrow_mut")
def m_borrow(I, s, c, d, fr, a, dty):
    return [(s, adt("guard", 0, (mk("app", "cell", a[0]),)))]


@model("embassy_sync::blocking_mutex::Mutex::<R, T>::lock")
def m_lock(I, s, c, d, fr, a, dty):
    inner = mk("app", "locked", a[0])
    sts = I.mon.on_lock(I, s, c, a[0])
    out = []
    for s1 in sts:
        for s2, v in I.call_value(s1, c, d, a[1], [inner]):
            I.mon.on_unlock(I, s2, c, a[0])
            out.append((s2, v))
    return out


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new")
def m_fmt(I, s, c, d, fr, a, dty):
    return [(s, mk("const", "fmt"))]


# ---------------------------------------------------------------- flash
FLASH = {
    "embedded_storage_async::nor_flash::ReadNorFlash::read": "read",
    "embedded_storage_async::nor_flash::NorFlash::write": "write",
    "embedded_storage_async::nor_flash::NorFlash::erase": "erase",
}


def _mkflash(kind):
    def h(I, s, c, d, fr, a, dty):
        return [(s, mk("fut", kind, c, *a))]
    return h


for _p, _k in FLASH.items():
    TABLE[_p] = _mkflash(_k)


@model("embedded_storage_async::nor_flash::ReadNorFlash::capacity")
def m_cap(I, s, c, d, fr, a, dty):
    return [(s, mk("sym", "capacity", None))]
