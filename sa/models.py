"""Models of the standard library at the level of ropes and scalars, and of the harness primitives."""
import re
from . import lin as L
from .lin import Lin, K, A, ZERO, ONE, atom, irange
from . import num as N
from .num import c_le, c_eq, c_ne, c_not, c_and, c_or
from .interp import Split, Dead, Unmodelled, seglen, ISIZE_MAX

MODELS = {}
PATTERNS = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


def match(f):
    d = f["def"]
    for rx, m in PATTERNS:
        if rx.search(d):
            return m
    return None


def unit(I):
    return ("st", I.unit_ty, ())


def deref(I, st, r):
    r = I.expand(r)
    if r[0] == "ref":
        return I.expand(I.read(st, r[1], r[2]))
    raise Unmodelled("deref of %s" % r[0])


def store(I, st, r, v):
    r = I.expand(r)
    I.write(st, r[1], r[2], v)


def seq_of(I, st, r):
    v = deref(I, st, r)
    if v[0] == "uninit":
        raise Unmodelled("uninitialised vector")
    if v[0] != "seq":
        raise Unmodelled("vector is %s" % v[0])
    return v


def as_slice(I, st, r):
    """Slice reference from a reference to a vector, array or slice."""
    r = I.expand(r)
    if r[0] == "sl":
        return r
    v = seq_of(I, st, r)
    return ("sl", r[1], r[2], ZERO, I.seq_len(v))


def opt(I, ty, v=None):
    return ("en", ty, 0, ()) if v is None else ("en", ty, 1, (v,))


# ---------------------------------------------------------------- vectors
@model("std::vec::Vec::<T>::new", "<std::vec::Vec<T> as std::default::Default>::default")
def vec_new(I, st, f, a, at, dty):
    return [(("seq", f["args"][0], ()), st)]


@model("std::vec::Vec::<T>::with_capacity")
def vec_cap(I, st, f, a, at, dty):
    return [(("seq", f["args"][0], ()), st)]


@model("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::push_mut")
def vec_push(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    segs = v[2] + (("c", a[1]),)
    store(I, st, a[0], ("seq", v[1], segs))
    r = I.expand(a[0])
    if f["def"].endswith("push_mut"):
        return [(("ref", r[1], r[2] + (("ix", n),), None), st)]
    return [(unit(I), st)]


@model("std::vec::Vec::<T, A>::pop")
def vec_pop(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    if I.decide(st, c_eq(n)):
        return [(opt(I, dty), st)]
    x = I.seq_get(st, v, n - 1)
    l, _ = I.split_at(st, v[2], n - 1)
    store(I, st, a[0], ("seq", v[1], l))
    return [(opt(I, dty, x), st)]


@model("std::vec::Vec::<T, A>::len")
def vec_len(I, st, f, a, at, dty):
    return [(I.seq_len(seq_of(I, st, a[0])), st)]


@model("std::vec::Vec::<T, A>::is_empty")
def vec_is_empty(I, st, f, a, at, dty):
    return [(c_eq(I.seq_len(seq_of(I, st, a[0]))), st)]


@model("std::vec::Vec::<T, A>::capacity")
def vec_capacity(I, st, f, a, at, dty):
    n = I.seq_len(seq_of(I, st, a[0]))
    return [(n + I.unknown(dty, "cap"), st)]


@model("std::vec::Vec::<T, A>::clear")
def vec_clear(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    store(I, st, a[0], ("seq", v[1], ()))
    return [(unit(I), st)]


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::vec::Vec::<T, A>::shrink_to_fit")
def vec_reserve(I, st, f, a, at, dty):
    return [(unit(I), st)]


@model("std::vec::Vec::<T, A>::set_len")
def vec_set_len(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    m = I.as_lin(st, a[1])
    if I.decide(st, c_le(m - n)):
        segs, _ = I.split_at(st, v[2], m)
        store(I, st, a[0], ("seq", v[1], segs))
        return [(unit(I), st)]
    # goes on with arbitrary elements where this is not looked at
    I.oblige(st, False, "unsafe", "Vec::set_len makes elements of memory that was never written")
    store(I, st, a[0], ("seq", v[1], v[2] + (("s", ("uninit", L.fresh("raw")), ZERO, m - n),)))
    return [(unit(I), st)]


@model("std::mem::MaybeUninit::<T>::uninit", "std::mem::uninitialized")
def uninit(I, st, f, a, at, dty):
    v = I.unknown(dty, "uninit")
    if f["name"].startswith("std::mem::uninit"):
        I.oblige(st, False, "unsafe", "a value is made of memory that was never written")
    else:
        I.uninit.append(v)
    return [(v, st)]


@model("std::mem::MaybeUninit::<T>::assume_init")
def assume_init(I, st, f, a, at, dty):
    if any(a[0] == v for v in I.uninit):
        I.oblige(st, False, "unsafe", "a value is made of memory that was never written")
    return [(a[0], st)]


@model("std::hint::unreachable_unchecked", "intrinsic:unreachable")
def unreachable(I, st, f, a, at, dty):
    I.oblige(st, False, "unsafe", "code declared unreachable is reached")
    return []


@model("std::vec::Vec::<T, A>::resize")
def vec_resize(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    m = I.as_lin(st, a[1])
    if I.decide(st, c_le(n - m)):
        d = m - n
        segs = I.norm_segs(v[2] + (("f", a[2], d),))
    else:
        segs, _ = I.split_at(st, v[2], m)
    store(I, st, a[0], ("seq", v[1], segs))
    return [(unit(I), st)]


@model("std::vec::from_elem")
def vec_from_elem(I, st, f, a, at, dty):
    return [(("seq", I.elem_ty(dty), I.norm_segs((("f", a[0], I.as_lin(st, a[1])),))), st)]


@model("std::vec::Vec::<T, A>::truncate")
def vec_truncate(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    m = I.as_lin(st, a[1])
    if not I.decide(st, c_le(n - m)):
        segs, _ = I.split_at(st, v[2], m)
        store(I, st, a[0], ("seq", v[1], segs))
    return [(unit(I), st)]


@model("std::vec::Vec::<T, A>::extend_from_slice")
def vec_extend(I, st, f, a, at, dty):
    sl = as_slice(I, st, a[1])
    _, segs = I.slice_segs(st, sl)
    v = seq_of(I, st, a[0])
    store(I, st, a[0], ("seq", v[1], I.norm_segs(v[2] + segs)))
    return [(unit(I), st)]


@model("std::vec::Vec::<T, A>::append")
def vec_append(I, st, f, a, at, dty):
    w = seq_of(I, st, a[1])
    v = seq_of(I, st, a[0])
    store(I, st, a[0], ("seq", v[1], I.norm_segs(v[2] + w[2])))
    store(I, st, a[1], ("seq", v[1], ()))
    return [(unit(I), st)]


@model("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend")
def vec_extend_iter(I, st, f, a, at, dty):
    it = I.expand(a[1])
    v = seq_of(I, st, a[0])
    if it[0] == "sit":
        segs = I.slice_segs(st, ("sl", it[1], it[2], it[3], it[4] - it[3]))[1]
    elif it[0] == "vit":
        segs = it[1][2]
    elif it[0] in ("sl",):
        segs = I.slice_segs(st, it)[1]
    elif it[0] == "ref":
        segs = seq_of(I, st, it)[2]
    elif it[0] == "seq":
        segs = it[2]
    else:
        return None
    store(I, st, a[0], ("seq", v[1], I.norm_segs(v[2] + segs)))
    return [(unit(I), st)]


@model("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "<std::vec::Vec<T, A> as std::ops::Deref>::deref",
       "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref",
       "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow")
def vec_deref(I, st, f, a, at, dty):
    return [(as_slice(I, st, a[0]), st)]


@model("std::vec::Vec::<T, A>::into_boxed_slice")
def vec_boxed(I, st, f, a, at, dty):
    root = new_heap(I, st, a[0])
    return [(("sl", root, (), ZERO, I.seq_len(I.expand(a[0]))), st)]


def new_heap(I, st, v):
    root = ("h", st.nh)
    st.nh += 1
    st.mem[root] = v
    return root


@model("<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "std::slice::<impl [T]>::to_vec", "<[T] as std::borrow::ToOwned>::to_owned",
       "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from", "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from")
def slice_to_vec(I, st, f, a, at, dty):
    ety, segs = I.slice_segs(st, as_slice(I, st, a[0]))
    return clone_segs(I, st, f, ety, segs)


@pattern(r"^std::boxed::convert::<impl std::convert::From<&(mut )?\[T\]> for std::boxed::Box<\[T\]>>::from$")
def slice_to_box(I, st, f, a, at, dty):
    ety, segs = I.slice_segs(st, as_slice(I, st, a[0]))
    return [y for v, s in clone_segs(I, st, f, ety, segs) for y in vec_boxed(I, s, f, [v], at, dty)]


@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone")
def vec_clone(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    return clone_segs(I, st, f, v[1], v[2])


def plain(I, ty, depth=0):
    """Types whose clone is a copy of the value (no boxes, no user-written Clone)."""
    t = I.T[ty]
    k = t["k"]
    if depth > 8:
        return False
    if k in ("int", "bool", "char", "float", "never", "fndef"):
        return True
    if k == "ref":
        return True
    if k == "tuple":
        return all(plain(I, x, depth + 1) for x in t["of"])
    if k == "array":
        return plain(I, t["of"], depth + 1)
    if k == "adt":
        if I.is_vec(ty):
            return plain(I, t["args"][0], depth + 1)
        if t["name"].startswith("mpegts::") or t["name"].startswith("roots::"):
            return False
        if t["name"] == "std::boxed::Box":
            return False
        return all(plain(I, f[1], depth + 1) for v in t["variants"] for f in v["fields"])
    return False


def clone_segs(I, st, f, ety, segs):
    if plain(I, ety):
        return [(("seq", ety, segs), st)]
    # element-wise clone through the element's Clone implementation
    out = [((), st)]
    for s in segs:
        nxt = []
        for done, s0 in out:
            if s[0] == "c":
                nxt.extend((done + (("c", v),), s1) for v, s1 in clone_value(I, s0, s[1], ety))
                continue
            n = seglen(s)
            if n.const and n.c <= 2 and s[0] == "s":
                cur = [(done, s0)]
                for i in range(n.c):
                    cur = [(dd + (("c", v),), s1) for dd, ss in cur
                           for v, s1 in clone_value(I, ss, I.elem(ss, ety, s[1], s[2] + i), ety)]
                nxt.extend(cur)
            elif s[0] == "s" and clone_is_copy(I, s0, s, ety):
                nxt.append((done + (s,), s0))
            else:
                s0 = s0.copy()
                s0.approx = True
                nxt.append((done + (("s", ("cloned", I.fresh_key("cl"), s[1]), s[2], n),), s0))
        out = nxt
    return [(("seq", ety, d), s) for d, s in out]


def clone_is_copy(I, st, s, ety):
    """Does cloning an arbitrary element of the run of elements give the same value?"""
    i = A(atom(I.fresh_key("rep"), 0, ISIZE_MAX))
    e = I.elem(st, ety, s[1], s[2] + i)
    I.trial += 1
    try:
        return all(same_value(I, e, v) for v, _ in clone_value(I, st, e, ety))
    finally:
        I.trial -= 1


def same_value(I, a, b, depth=0):
    if a == b:
        return True
    if depth > 8 or not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    a, b = I.expand(a), I.expand(b)
    if a == b:
        return True
    if a[0] == b[0] == "st" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return all(same_value(I, x, y, depth + 1) for x, y in zip(a[2], b[2]))
    return False


def clone_fn(I, ty):
    if not hasattr(I, "_clones"):
        I._clones = {}
        for i, g in enumerate(I.F):
            if g["method"] == "clone" and g.get("sig"):
                pass
            if g["method"] == "clone" and g["body"] and g["body"]["argc"] == 1:
                I._clones.setdefault(g["body"]["locals"][0], i)
    return I._clones.get(ty)


@model("std::vec::Vec::<T, A>::drain")
def vec_drain(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    lo, hi = range_bounds(I, st, a[1], at[1], n)
    out = []
    for s in I.oblige(st, c_and(c_le(lo - hi), c_le(hi - n)), "panic", "drain range out of bounds"):
        def go(s, i):
            l, r = I.split_at(s, v[2], lo)
            m, r = I.split_at(s, r, hi - lo)
            store(I, s, a[0], ("seq", v[1], I.norm_segs(l + r)))
            return [(("vit", ("seq", v[1], m)), s)]
        out.extend(split_run(I, s, go))
    return out


@model("std::vec::Vec::<T, A>::splice")
def vec_splice(I, st, f, a, at, dty):
    raise Unmodelled("splice")


@model("std::vec::Vec::<T, A>::split_off")
def vec_split_off(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    k = I.as_lin(st, a[1])
    out = []
    for s in I.oblige(st, c_le(k - n), "panic", "split_off index out of bounds"):
        def go(s, i):
            l, r = I.split_at(s, v[2], k)
            store(I, s, a[0], ("seq", v[1], l))
            return [(("seq", v[1], r), s)]
        out.extend(split_run(I, s, go))
    return out


@model("std::vec::Vec::<T, A>::insert")
def vec_insert(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    k = I.as_lin(st, a[1])
    out = []
    for s in I.oblige(st, c_le(k - n), "panic", "insert index out of bounds"):
        def go(s, i):
            l, r = I.split_at(s, v[2], k)
            store(I, s, a[0], ("seq", v[1], l + (("c", a[2]),) + r))
            return [(unit(I), s)]
        out.extend(split_run(I, s, go))
    return out


@model("std::vec::Vec::<T, A>::remove")
def vec_remove(I, st, f, a, at, dty):
    v = seq_of(I, st, a[0])
    n = I.seq_len(v)
    k = I.as_lin(st, a[1])
    out = []
    for s in I.oblige(st, c_le(k - n + 1), "panic", "remove index out of bounds"):
        def go(s, i):
            x = I.seq_get(s, v, k)
            l, r = I.split_at(s, v[2], k)
            _, r = I.split_at(s, r, ONE)
            store(I, s, a[0], ("seq", v[1], I.norm_segs(l + r)))
            return [(x, s)]
        out.extend(split_run(I, s, go))
    return out


def split_run(I, st, go):
    """Run a model step under local case splits."""
    work = [st]
    out = []
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 200:
            raise Unmodelled("too many cases")
        try:
            s2 = s.copy()
            out.extend(go(s2, 0))
        except Split as e:
            for c in (e.cond, c_not(e.cond)):
                work.extend(s.refine(c))
        except Dead:
            pass
    return out


# ---------------------------------------------------------------- indexing
def range_bounds(I, st, v, ty, n):
    v = I.expand(v)
    nm = I.T[ty]["name"] if I.T[ty]["k"] == "adt" else None
    fs = v[2] if v[0] == "st" else ()
    g = lambda i: I.as_lin(st, fs[i])
    if nm in ("std::ops::Range", "std::range::Range"):
        return g(0), g(1)
    if nm in ("std::ops::RangeFrom", "std::range::RangeFrom"):
        return g(0), n
    if nm == "std::ops::RangeTo":
        return ZERO, g(0)
    if nm == "std::ops::RangeFull":
        return ZERO, n
    if nm == "std::ops::RangeInclusive":
        return g(0), g(1) + 1
    if nm == "std::ops::RangeToInclusive":
        return ZERO, g(0) + 1
    raise Unmodelled("range type %s" % nm)


def do_index(I, st, base, idx, ity, kind="panic"):
    sl = as_slice(I, st, base)
    if I.T[ity]["k"] == "int":
        i = I.as_lin(st, idx)
        return [(("ref", sl[1], sl[2] + (("ix", sl[3] + i),), None), s)
                for s in I.oblige(st, c_le(i - sl[4] + 1), kind, "index out of bounds")]
    lo, hi = range_bounds(I, st, idx, ity, sl[4])
    c = c_and(c_le(lo - hi), c_le(hi - sl[4]))
    return [(("sl", sl[1], sl[2], sl[3] + lo, hi - lo), s) for s in I.oblige(st, c, kind, "slice range out of bounds")]


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
       "core::array::<impl std::ops::Index<I> for [T; N]>::index", "core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut")
def index(I, st, f, a, at, dty):
    return do_index(I, st, a[0], a[1], at[1])


@pattern(r"^core::str::traits::<impl std::ops::Index(Mut)?<I> for str>::index")
def str_index(I, st, f, a, at, dty):
    return do_index(I, st, a[0], a[1], at[1])


@pattern(r"std::slice::SliceIndex<\[T\]>>::index(_mut)?$")
def slice_index(I, st, f, a, at, dty):
    return do_index(I, st, a[1], a[0], at[0])


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def slice_get(I, st, f, a, at, dty):
    sl = as_slice(I, st, a[0])
    if I.T[at[1]]["k"] == "int":
        i = I.as_lin(st, a[1])
        if I.decide(st, c_le(i - sl[4] + 1)):
            return [(opt(I, dty, ("ref", sl[1], sl[2] + (("ix", sl[3] + i),), None)), st)]
        return [(opt(I, dty), st)]
    lo, hi = range_bounds(I, st, a[1], at[1], sl[4])
    if I.decide(st, c_le(lo - hi)) and I.decide(st, c_le(hi - sl[4])):
        return [(opt(I, dty, ("sl", sl[1], sl[2], sl[3] + lo, hi - lo)), st)]
    return [(opt(I, dty), st)]


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def slice_get_unchecked(I, st, f, a, at, dty):
    return do_index(I, st, a[0], a[1], at[1], "unsafe")


@model("core::slice::<impl [T]>::len", "core::str::<impl str>::len")
def slice_len(I, st, f, a, at, dty):
    return [(as_slice(I, st, a[0])[4], st)]


@model("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def slice_is_empty(I, st, f, a, at, dty):
    return [(c_eq(as_slice(I, st, a[0])[4]), st)]


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def slice_first(I, st, f, a, at, dty):
    sl = as_slice(I, st, a[0])
    if I.decide(st, c_eq(sl[4])):
        return [(opt(I, dty), st)]
    return [(opt(I, dty, ("ref", sl[1], sl[2] + (("ix", sl[3]),), None)), st)]


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def slice_last(I, st, f, a, at, dty):
    sl = as_slice(I, st, a[0])
    if I.decide(st, c_eq(sl[4])):
        return [(opt(I, dty), st)]
    return [(opt(I, dty, ("ref", sl[1], sl[2] + (("ix", sl[3] + sl[4] - 1),), None)), st)]


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def slice_split_at(I, st, f, a, at, dty):
    sl = as_slice(I, st, a[0])
    k = I.as_lin(st, a[1])
    return [(("st", dty, (("sl", sl[1], sl[2], sl[3], k), ("sl", sl[1], sl[2], sl[3] + k, sl[4] - k))), s)
            for s in I.oblige(st, c_le(k - sl[4]), "panic", "split_at index out of bounds")]


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last",
       "core::slice::<impl [T]>::split_first_mut", "core::slice::<impl [T]>::split_last_mut")
def slice_split_first(I, st, f, a, at, dty):
    sl = as_slice(I, st, a[0])
    if I.decide(st, c_eq(sl[4])):
        return [(opt(I, dty), st)]
    tt = I.T[dty]["args"][0]
    if "first" in f["def"]:
        t = ("st", tt, (("ref", sl[1], sl[2] + (("ix", sl[3]),), None), ("sl", sl[1], sl[2], sl[3] + 1, sl[4] - 1)))
    else:
        t = ("st", tt, (("ref", sl[1], sl[2] + (("ix", sl[3] + sl[4] - 1),), None), ("sl", sl[1], sl[2], sl[3], sl[4] - 1)))
    return [(opt(I, dty, t), st)]


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def slice_copy(I, st, f, a, at, dty):
    d, s_ = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    out = []
    for s in I.oblige(st, c_eq(d[4] - s_[4]), "panic", "slice length mismatch"):
        def go(s, i):
            _, segs = I.slice_segs(s, s_)
            v = I.expand(I.read(s, d[1], d[2]))
            I.write(s, d[1], d[2], I.seq_replace(s, v, d[3], d[4], segs))
            return [(unit(I), s)]
        out.extend(split_run(I, s, go))
    return out


@model("core::slice::<impl [T]>::fill")
def slice_fill(I, st, f, a, at, dty):
    d = as_slice(I, st, a[0])
    v = I.expand(I.read(st, d[1], d[2]))
    I.write(st, d[1], d[2], I.seq_replace(st, v, d[3], d[4], (("f", a[1], d[4]),)))
    return [(unit(I), st)]


@model("core::slice::<impl [T]>::swap")
def slice_swap(I, st, f, a, at, dty):
    d = as_slice(I, st, a[0])
    i, j = I.as_lin(st, a[1]), I.as_lin(st, a[2])
    out = []
    for s in I.oblige(st, c_and(c_le(i - d[4] + 1), c_le(j - d[4] + 1)), "panic", "index out of bounds"):
        def go(s, _):
            v = I.expand(I.read(s, d[1], d[2]))
            x, y = I.seq_get(s, v, d[3] + i), I.seq_get(s, v, d[3] + j)
            v = I.seq_set(s, v, d[3] + i, y)
            v = I.seq_set(s, v, d[3] + j, x)
            I.write(s, d[1], d[2], v)
            return [(unit(I), s)]
        out.extend(split_run(I, s, go))
    return out


@model("core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::as_str",
       "<std::string::String as std::ops::Deref>::deref", "std::string::String::as_mut_str")
def str_bytes(I, st, f, a, at, dty):
    r = I.expand(a[0])
    if r[0] == "sl":
        ety, segs = I.slice_segs(st, r)
        if I.T[ety]["k"] == "char" and f["def"].endswith("as_bytes"):
            segs = utf8_of(I, st, segs)
            n = sum((seglen(x) for x in segs), ZERO)
            h = new_heap(I, st, ("seq", I.u8(), segs))
            return [(("sl", h, (), ZERO, n), st)]
        return [(r, st)]
    v = deref(I, st, r)
    if v[0] == "st":
        return [(as_slice(I, st, ("ref", r[1], r[2] + (("f", 0),), None)), st)]
    raise Unmodelled("string")


@model("std::string::String::new")
def string_new(I, st, f, a, at, dty):
    return [(("st", dty, (("seq", I.u8(), ()),)), st)]


def seg_eq(I, st, a, b, unlike=None):
    """Condition that two segment lists (of equal known total length) have equal elements, or None.

    Pieces that cannot be compared are added to unlike, when given, and otherwise left out."""
    a, b = list(a), list(b)
    cond = True
    n = 0
    while a and b:
        n += 1
        if n > 600:
            return None
        x, y = a[0], b[0]
        lx, ly = seglen(x), seglen(y)
        if lx == ly:
            m = lx
        else:
            d = lx - ly
            if d.const:
                m = ly if d.c > 0 else lx
            else:
                m = ly if not I.decide(st, c_le(d)) else lx
        r = piece_eq(I, st, x, y, m)
        if r is None:
            if unlike is None:
                return None
            unlike.append((x, y, m))
            r = True
        cond = c_and(cond, r)
        if cond is False:
            return False
        a = rest(I, st, a, m)
        b = rest(I, st, b, m)
    return cond


def rest(I, st, a, m):
    x = a[0]
    n = seglen(x) - m
    if not n.const and I.ent(st, c_eq(n)):
        n = ZERO
    if n.const and n.c == 0:
        return a[1:]
    return [I.cut(x, m, n)] + a[1:]


def piece_eq(I, st, x, y, m):
    ety = None
    if x[0] == "s" and y[0] == "s" and (x[1] == y[1] or I.key_eq(st, x[1], y[1])):
        if I.ent(st, c_eq(x[2] - y[2])):
            return True
    if x[0] == "t" and y[0] == "t" and x[1] == y[1] and x[2] == y[2]:
        return True
    if x[0] == "f" and y[0] == "f":
        return c_eq(x[1] - y[1])
    if m.const and m.c <= 400:
        c = True
        for i in range(m.c):
            u, v = piece_at(I, st, x, K(i)), piece_at(I, st, y, K(i))
            if not (isinstance(u, Lin) and isinstance(v, Lin)):
                return None
            c = c_and(c, c_eq(u - v))
            if c is False:
                return False
        return c
    # unequal representations of unknown length
    return None


def piece_at(I, st, s, i):
    if s[0] in ("c", "f"):
        return s[1]
    if s[0] == "t":
        return I.table(st, s[1], s[2] + i)
    return I.elem(st, I.u8(), s[1], s[2] + i)


@pattern(r"^std::(vec|slice|array)::.*PartialEq<.*>::(eq|ne)$|^core::(slice|array)::.*PartialEq.*>::(eq|ne)$|^std::vec::partial_eq::.*::(eq|ne)$|^core::str::traits::<impl std::cmp::PartialEq for str>::eq$|^<std::string::String as std::cmp::PartialEq.*>::(eq|ne)$")
def vec_eq(I, st, f, a, at, dty):
    def sl(r):
        r = I.expand(r)
        while True:
            if r[0] == "sl":
                return r
            v = deref(I, st, r)
            if v[0] == "seq":
                return as_slice(I, st, r)
            if v[0] == "st" and len(v[2]) == 1:
                r = ("ref", r[1], r[2] + (("f", 0),), None)
                continue
            r = v
    x, y = sl(a[0]), sl(a[1])
    neg = f["def"].endswith("::ne")
    if not I.decide(st, c_eq(x[4] - y[4])):
        return [(neg, st)]
    ex, sx = I.slice_segs(st, x)
    ey, sy = I.slice_segs(st, y)
    if I.T[ex]["k"] not in ("int", "char"):
        if sx == sy:
            return [(not neg, st)]
        return None
    unlike = []
    c = seg_eq(I, st, sx, sy, unlike)
    if unlike and c is not False or c is None:
        out = []
        q = c_eq(A(atom(("beq",) + tuple(sorted((sx, sy), key=repr)), 0, 1)) - 1)
        if q in st.facts.set or c_not(q) in st.facts.set:
            return [((q in st.facts.set) != neg, st)]
        for u, v, m in unlike[:2]:
            # unequal at the first element of a piece
            u, v = piece_at(I, st, u, ZERO), piece_at(I, st, v, ZERO)
            if isinstance(u, Lin) and isinstance(v, Lin):
                out.extend((neg, s) for s in st.refine(c_and(c_and(c_le(K(1) - m), c_not(c_eq(u - v))), c_not(q))))
        c = q
        st.approx = True
        return out + [(c_not(c) if neg else c, st)]
    return [(c_not(c) if neg else c, st)]


@model("core::slice::<impl [T]>::starts_with")
def slice_starts(I, st, f, a, at, dty):
    x, y = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    if not I.decide(st, c_le(y[4] - x[4])):
        return [(False, st)]
    _, sx = I.slice_segs(st, ("sl", x[1], x[2], x[3], y[4]))
    _, sy = I.slice_segs(st, y)
    c = seg_eq(I, st, sx, sy)
    if c is None:
        raise Unmodelled("starts_with")
    return [(c, st)]


@model("core::slice::<impl [T]>::contains")
def slice_contains(I, st, f, a, at, dty):
    x = as_slice(I, st, a[0])
    y = deref_any(I, st, a[1])
    if not x[4].const or x[4].c > 300 or not isinstance(y, Lin):
        return None
    v = I.expand(I.read(st, x[1], x[2]))
    c = False
    for i in range(x[4].c):
        e = I.seq_get(st, v, x[3] + i)
        c = c_or(c, c_eq(I.as_lin(st, e) - I.as_lin(st, y)))
    return [(c, st)]


def deref_any(I, st, r):
    r = I.expand(r)
    return I.read(st, r[1], r[2])


# ---------------------------------------------------------------- slice iterators
def sit(sl):
    return ("sit", sl[1], sl[2], sl[3], sl[3] + sl[4])


def as_sit(it):
    """A slice iterator, also one put together from its two pointers."""
    if it[0] == "st" and len(it[2]) == 3:
        x, y = it[2][0], it[2][1]
        if x[0] == y[0] == "ref" and x[1] == y[1] and x[2] and y[2] and x[2][:-1] == y[2][:-1] and x[2][-1][0] == y[2][-1][0] == "ix":
            return ("sit", x[1], x[2][:-1], K(0) + x[2][-1][1], K(0) + y[2][-1][1])
    if it[0] != "sit":
        raise Unmodelled("iterator is %s" % it[0])
    return it


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter", "std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new")
def slice_iter(I, st, f, a, at, dty):
    return [(sit(as_slice(I, st, a[0])), st)]


@pattern(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$")
def iter_next(I, st, f, a, at, dty):
    it = as_sit(deref(I, st, a[0]))
    if not I.decide(st, c_le(it[3] - it[4] + 1)):
        return [(opt(I, dty), st)]
    r = ("ref", it[1], it[2] + (("ix", it[3]),), None)
    store(I, st, a[0], ("sit", it[1], it[2], it[3] + 1, it[4]))
    return [(opt(I, dty, r), st)]


@pattern(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::next_back$")
def iter_next_back(I, st, f, a, at, dty):
    it = as_sit(deref(I, st, a[0]))
    if not I.decide(st, c_le(it[3] - it[4] + 1)):
        return [(opt(I, dty), st)]
    r = ("ref", it[1], it[2] + (("ix", it[4] - 1),), None)
    store(I, st, a[0], ("sit", it[1], it[2], it[3], it[4] - 1))
    return [(opt(I, dty, r), st)]


@pattern(r"^<std::slice::Iter(Mut)?<'_?a?, T> as std::iter::(Iterator>::size_hint|ExactSizeIterator>::len)$|^<std::slice::Iter(Mut)?<'_, T> as std::iter::ExactSizeIterator>::len$")
def iter_len(I, st, f, a, at, dty):
    it = as_sit(deref(I, st, a[0]))
    n = it[4] - it[3]
    if f["def"].endswith("::len"):
        return [(n, st)]
    oty = I.T[dty]["of"][1]
    return [(("st", dty, (n, opt(I, oty, n))), st)]


@pattern(r"^<std::slice::Iter<'_, T> as std::clone::Clone>::clone$")
def iter_clone(I, st, f, a, at, dty):
    return [(deref(I, st, a[0]), st)]


@pattern(r"^std::slice::Iter(Mut)?::<'a, T>::(as_slice|into_slice|as_mut_slice|make_slice)$")
def iter_as_slice(I, st, f, a, at, dty):
    it = I.expand(a[0])
    if it[0] == "ref":
        it = deref(I, st, a[0])
    return [(("sl", it[1], it[2], it[3], it[4] - it[3]), st)]


@pattern(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::__iterator_get_unchecked$")
def iter_get(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    return [(("ref", it[1], it[2] + (("ix", it[3] + I.as_lin(st, a[1])),), None), st)]


@pattern(r"^<std::slice::Iter(Mut)?<'a, T> as std::iter::(DoubleEnded)?Iterator>::(?!_)\w+$")
def iter_default(I, st, f, a, at, dty):
    d = dflt(I, f)
    if d is None or I.F[d]["body"] is None:
        return None
    return I.call_body(d, a, st)


def dflt(I, f):
    if not hasattr(I, "_dflt"):
        I._dflt = {}
        for t in I.T:
            if t["k"] == "fndef" and t.get("dflt") is not None and t.get("fn") is not None:
                I._dflt[t["fn"]] = t["dflt"]
        I._fid = {id(g): i for i, g in enumerate(I.F)}
    return I._dflt.get(I._fid[id(f)])


# chunks
@model("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::windows",
       "core::slice::<impl [T]>::chunks_mut", "core::slice::<impl [T]>::chunks_exact_mut")
def slice_chunks(I, st, f, a, at, dty):
    sl = as_slice(I, st, a[0])
    n = I.as_lin(st, a[1])
    kind = f["def"].split("::")[-1].replace("_mut", "")
    return [(("chk", kind, sl[1], sl[2], sl[3], sl[3] + sl[4], n), s)
            for s in I.oblige(st, c_le(1 - n), "panic", "chunk size is zero")]


@pattern(r"^<std::slice::(Chunks|ChunksExact|Windows|ChunksMut|ChunksExactMut)<'a, T> as std::iter::Iterator>::next$")
def chunks_next(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    _, kind, root, path, pos, end, n = it
    if kind == "windows":
        if not I.decide(st, c_le(pos + n - end)):
            return [(opt(I, dty), st)]
        store(I, st, a[0], ("chk", kind, root, path, pos + 1, end, n))
        return [(opt(I, dty, ("sl", root, path, pos, n)), st)]
    if I.decide(st, c_le(pos + n - end)):
        store(I, st, a[0], ("chk", kind, root, path, pos + n, end, n))
        return [(opt(I, dty, ("sl", root, path, pos, n)), st)]
    if kind == "chunks_exact" or I.decide(st, c_le(end - pos)):
        return [(opt(I, dty), st)]
    store(I, st, a[0], ("chk", kind, root, path, end, end, n))
    return [(opt(I, dty, ("sl", root, path, pos, end - pos)), st)]


@pattern(r"^<std::slice::(Chunks|ChunksExact|Windows|ChunksMut|ChunksExactMut)<'a, T> as std::iter::DoubleEndedIterator>::next_back$")
def chunks_next_back(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    _, kind, root, path, pos, end, n = it
    if kind == "windows":
        if not I.decide(st, c_le(pos + n - end)):
            return [(opt(I, dty), st)]
        store(I, st, a[0], ("chk", kind, root, path, pos, end - 1, n))
        return [(opt(I, dty, ("sl", root, path, end - n, n)), st)]
    if I.decide(st, c_eq(end - pos)) or kind == "chunks_exact" and not I.decide(st, c_le(pos + n - end)):
        return [(opt(I, dty), st)]
    r = L.mod(end - pos, I.concretize(st, n))
    if kind == "chunks_exact":
        end, r = end - r, n
    elif I.decide(st, c_eq(r)):
        r = n
    store(I, st, a[0], ("chk", kind, root, path, pos, end - r, n))
    return [(opt(I, dty, ("sl", root, path, end - r, r)), st)]


@pattern(r"^<std::slice::(Chunks|ChunksExact|Windows|ChunksMut|ChunksExactMut)<'(a|_), T> as std::iter::(Iterator>::size_hint|ExactSizeIterator>::len)$")
def chunks_hint(I, st, f, a, at, dty):
    _, kind, root, path, pos, end, n = deref(I, st, a[0])
    m = end - pos
    if kind == "windows":
        c = ZERO if I.decide(st, c_le(m - n + 1)) else m - n + 1
    else:
        c = L.div(m + (n - 1 if kind == "chunks" else ZERO), I.concretize(st, n))
    if f["def"].endswith("::len"):
        return [(c, st)]
    return [(("st", dty, (c, opt(I, I.T[dty]["of"][1], c))), st)]


@pattern(r"^<std::slice::(Chunks|ChunksExact|Windows|ChunksMut|ChunksExactMut)<'a, T> as std::iter::Iterator>::__iterator_get_unchecked$")
def chunks_get(I, st, f, a, at, dty):
    _, kind, root, path, pos, end, n = deref(I, st, a[0])
    i = I.as_lin(st, a[1])
    if kind == "windows":
        return [(("sl", root, path, pos + i, n), st)]
    p = pos + i * I.concretize(st, n)
    if kind == "chunks_exact" or I.decide(st, c_le(p + n - end)):
        return [(("sl", root, path, p, n), st)]
    return [(("sl", root, path, p, end - p), st)]


@pattern(r"^<std::slice::(Chunks|ChunksExact|Windows|ChunksMut|ChunksExactMut)<'a, T> as std::iter::(DoubleEnded)?Iterator>::(?!_)\w+$")
def chunks_default(I, st, f, a, at, dty):
    return iter_default(I, st, f, a, at, dty)


@pattern(r"^std::slice::ChunksExact::<'a, T>::remainder$")
def chunks_rem(I, st, f, a, at, dty):
    _, kind, root, path, pos, end, n = deref(I, st, a[0])
    while I.decide(st, c_le(pos + n - end)):
        pos = pos + n
    return [(("sl", root, path, pos, end - pos), st)]


# owned iterators
@pattern(r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^(std|core)::array::(iter::)?<impl std::iter::IntoIterator for \[T; N\]>::into_iter$")
def vec_into_iter(I, st, f, a, at, dty):
    v = I.expand(a[0])
    return [(("vit", v), st)]


@pattern(r"^<std::vec::(IntoIter|Drain)<.*> as std::iter::Iterator>::next$|^<std::array::IntoIter<T, N> as std::iter::Iterator>::next$")
def vit_next(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    v = it[1]
    n = I.seq_len(v)
    if I.decide(st, c_eq(n)):
        return [(opt(I, dty), st)]
    x = I.seq_get(st, v, ZERO)
    _, r = I.split_at(st, v[2], ONE)
    store(I, st, a[0], ("vit", ("seq", v[1], r)))
    return [(opt(I, dty, x), st)]


@pattern(r"^<std::(vec::(IntoIter|Drain)|array::IntoIter)<.*> as std::iter::DoubleEndedIterator>::next_back$")
def vit_next_back(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    v = it[1]
    n = I.seq_len(v)
    if I.decide(st, c_eq(n)):
        return [(opt(I, dty), st)]
    x = I.seq_get(st, v, n - 1)
    l, _ = I.split_at(st, v[2], n - 1)
    store(I, st, a[0], ("vit", ("seq", v[1], l)))
    return [(opt(I, dty, x), st)]


@pattern(r"^<std::(vec::(IntoIter|Drain)|array::IntoIter)<.*> as std::iter::(Iterator>::size_hint|ExactSizeIterator>::len)$")
def vit_hint(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    n = I.seq_len(it[1])
    if f["def"].endswith("::len"):
        return [(n, st)]
    return [(("st", dty, (n, opt(I, I.T[dty]["of"][1], n))), st)]


@pattern(r"^<std::(vec::(IntoIter|Drain)|array::IntoIter)<.*> as std::iter::(DoubleEnded)?Iterator>::(?!_)\w+$")
def vit_default(I, st, f, a, at, dty):
    return iter_default(I, st, f, a, at, dty)


# ranges
@pattern(r"^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$|^<std::ops::Range<T> as std::iter::range::RangeIteratorImpl>::spec_next$")
def range_next(I, st, f, a, at, dty):
    v = deref(I, st, a[0])
    s, e = I.as_lin(st, v[2][0]), I.as_lin(st, v[2][1])
    if not I.decide(st, c_le(s - e + 1)):
        return [(opt(I, dty), st)]
    store(I, st, a[0], ("st", v[1], (s + 1, v[2][1])))
    return [(opt(I, dty, s), st)]


@pattern(r"^std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$")
def range_next_back(I, st, f, a, at, dty):
    v = deref(I, st, a[0])
    s, e = I.as_lin(st, v[2][0]), I.as_lin(st, v[2][1])
    if not I.decide(st, c_le(s - e + 1)):
        return [(opt(I, dty), st)]
    store(I, st, a[0], ("st", v[1], (s, e - 1)))
    return [(opt(I, dty, e - 1), st)]


@pattern(r"^std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next$")
def rangei_next(I, st, f, a, at, dty):
    v = deref(I, st, a[0])
    s, e, ex = I.as_lin(st, v[2][0]), I.as_lin(st, v[2][1]), v[2][2]
    if I.decide(st, I.as_cond(ex)) or not I.decide(st, c_le(s - e)):
        return [(opt(I, dty), st)]
    if I.decide(st, c_le(s - e + 1)):
        store(I, st, a[0], ("st", v[1], (s + 1, v[2][1], False)))
    else:
        store(I, st, a[0], ("st", v[1], (s, v[2][1], True)))
    return [(opt(I, dty, s), st)]


# ---------------------------------------------------------------- boxes, moves
@model("std::boxed::Box::<T>::new")
def box_new(I, st, f, a, at, dty):
    return [(("ref", new_heap(I, st, a[0]), (), None), st)]


@model("std::boxed::Box::<T>::new_uninit")
def box_uninit(I, st, f, a, at, dty):
    return [(("ref", new_heap(I, st, ("uninit",)), (), None), st)]


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec")
def box_into_vec(I, st, f, a, at, dty):
    b = I.expand(a[0])
    if b[0] == "sl":
        v = I.expand(I.read(st, b[1], b[2]))
        return [(("seq", v[1], I.subsegs(st, v[2], b[3], b[4])), st)]
    return [(deref(I, st, b), st)]


@model("std::ptr::copy_nonoverlapping", "std::ptr::copy", "intrinsic:copy_nonoverlapping", "intrinsic:copy")
def ptr_copy(I, st, f, a, at, dty):
    I.copy_elems(st, a[0], a[1], a[2])
    return [(unit(I), st)]


@model("std::mem::swap")
def mem_swap(I, st, f, a, at, dty):
    x, y = deref_any(I, st, a[0]), deref_any(I, st, a[1])
    store(I, st, a[0], y)
    store(I, st, a[1], x)
    return [(unit(I), st)]


@model("std::mem::replace")
def mem_replace(I, st, f, a, at, dty):
    x = deref_any(I, st, a[0])
    store(I, st, a[0], a[1])
    return [(x, st)]


@model("std::mem::forget", "std::mem::drop", "std::ptr::drop_glue", "std::ptr::drop_in_place")
def mem_drop(I, st, f, a, at, dty):
    return [(unit(I), st)]


@pattern(r"^<std::boxed::Box<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|^<std::boxed::Box<T, A> as std::convert::As(Ref|Mut)<T>>::as_(ref|mut)$")
def box_deref(I, st, f, a, at, dty):
    return [(deref(I, st, a[0]), st)]


@pattern(r"^<\(?dyn std::any::Any.*::downcast_(ref|mut)$")
def downcast(I, st, f, a, at, dty):
    r = I.expand(a[0])
    if r[0] == "ref" and r[3] and r[3][0] == "dyn":
        if r[3][1] == f["args"][0]:
            return [(opt(I, dty, ("ref", r[1], r[2], None)), st)]
        return [(opt(I, dty), st)]
    raise Unmodelled("downcast")


@pattern(r"^std::clone::impls::<impl std::clone::Clone for|^std::clone::Clone::clone$")
def prim_clone(I, st, f, a, at, dty):
    v = deref_any(I, st, a[0])
    if I.is_scalar(dty):
        return [(v, st)]
    if f["kind"] == "shim":
        return clone_value(I, st, v, dty)
    return [(v, st)]


def clone_value(I, st, v, ty):
    if plain(I, ty):
        return [(v, st)]
    t = I.T[ty]
    if t["k"] == "tuple":
        out = [((), st)]
        v = I.expand(v)
        for x, xt in zip(v[2], t["of"]):
            nxt = []
            for done, s in out:
                for y, s2 in clone_value(I, s, x, xt):
                    nxt.append((done + (y,), s2))
            out = nxt
        return [(("st", ty, d), s) for d, s in out]
    if I.is_vec(ty):
        v = I.expand(v)
        return clone_segs(I, st, None, v[1], v[2])
    cf = clone_fn(I, ty)
    if cf is None:
        raise Unmodelled("clone of " + t["d"])
    st = st.copy()
    root = new_heap(I, st, v)
    return I.invoke(st, cf, [("ref", root, (), None)], [None], ty)


@pattern(r"^std::ops::Fn(Once|Mut)?::call(_once|_mut)?$|^std::ops::function::impls::<impl std::ops::Fn")
def fn_call(I, st, f, a, at, dty):
    c = I.expand(a[0])
    while c[0] == "ref":
        c = I.expand(I.read(st, c[1], c[2]))
    tup = I.expand(a[1])
    if c[0] == "fn":
        return I.invoke(st, I.T[c[1]]["fn"], list(tup[2]), [None] * len(tup[2]), dty)
    if c[0] == "fnid":
        return I.invoke(st, c[1], list(tup[2]), [None] * len(tup[2]), dty)
    if c[0] == "st" and I.T[c[1]]["k"] == "closure":
        return call_closure(I, st, c, a[0], tup, f)
    return None


def call_closure(I, st, c, recv, tup, f):
    t = I.T[c[1]]
    for k in ("fn_mut", "fn_fn", "fn_once"):
        fid = t.get(k)
        if fid is not None and I.F[fid]["body"] is not None:
            break
    else:
        raise Unmodelled("closure without a body")
    body = I.F[fid]["body"]
    selfty = body["locals"][1]
    if I.T[selfty]["k"] == "ref":
        r = I.expand(recv)
        if r[0] != "ref":
            r = ("ref", new_heap(I, st, c), (), None)
        else:
            # unwrap references to references
            x = I.expand(I.read(st, r[1], r[2]))
            while x[0] == "ref":
                r = x
                x = I.expand(I.read(st, r[1], r[2]))
        return I.call_body(fid, [r] + list(tup[2]), st)
    return I.call_body(fid, [c] + list(tup[2]), st)


# ---------------------------------------------------------------- numbers
def minmax(lt):
    def m(I, st, f, a, at, dty):
        if not isinstance(I.expand(a[0]), Lin):
            return None
        x, y = I.as_lin(st, a[0]), I.as_lin(st, a[1])
        c = c_le(x - y)
        return [((x if I.decide(st, c) else y) if lt else (y if I.decide(st, c) else x), st)]
    return m


MODELS["std::cmp::min"] = minmax(True)
MODELS["std::cmp::max"] = minmax(False)
MODELS["std::cmp::Ord::min"] = minmax(True)
MODELS["std::cmp::Ord::max"] = minmax(False)
MODELS["intrinsic:integer_min"] = minmax(True)
MODELS["intrinsic:integer_max"] = minmax(False)
PATTERNS.append((re.compile(r"^std::cmp::impls::<impl std::cmp::Ord for \w+>::min$"), minmax(True)))
PATTERNS.append((re.compile(r"^std::cmp::impls::<impl std::cmp::Ord for \w+>::max$"), minmax(False)))


def arith(op, how):
    def m(I, st, f, a, at, dty):
        ty = dty
        if how == "overflowing":
            ty = I.T[dty]["of"][0]
        if how == "checked":
            ty = I.T[dty]["args"][0]
        x, y = I.as_lin(st, a[0]), I.as_lin(st, a[1])
        r = x + y if op == "add" else x - y if op == "sub" else x * y
        lo, hi = I.trange(ty)
        if how == "unchecked":
            return [(r, st)]
        if how == "wrapping":
            return [(I.wrap(st, r, ty), st)]
        if how == "saturating":
            if not I.decide(st, c_le(r - hi)):
                return [(K(hi), st)]
            if not I.decide(st, c_le(lo - r)):
                return [(K(lo), st)]
            return [(r, st)]
        ok = c_and(c_le(lo - r), c_le(r - hi))
        if how == "overflowing":
            o = not I.decide(st, ok)
            return [(("st", dty, (I.wrap(st, r, ty), o)), st)]
        if how == "checked":
            return [(opt(I, dty, r) if I.decide(st, ok) else opt(I, dty), st)]
    return m


for _op in ("add", "sub", "mul"):
    MODELS["intrinsic:wrapping_" + _op] = arith(_op, "wrapping")
    MODELS["intrinsic:saturating_" + _op] = arith(_op, "saturating")
    MODELS["intrinsic:unchecked_" + _op] = arith(_op, "unchecked")
    MODELS["intrinsic:" + _op + "_with_overflow"] = arith(_op, "overflowing")
    PATTERNS.append((re.compile(r"^core::num::<impl \w+>::wrapping_%s$" % _op), arith(_op, "wrapping")))
    PATTERNS.append((re.compile(r"^core::num::<impl \w+>::saturating_%s$" % _op), arith(_op, "saturating")))
    PATTERNS.append((re.compile(r"^core::num::<impl \w+>::overflowing_%s$" % _op), arith(_op, "overflowing")))
    PATTERNS.append((re.compile(r"^core::num::<impl u\w+>::checked_%s$" % _op), arith(_op, "checked")))
    PATTERNS.append((re.compile(r"^core::num::<impl i\w+>::checked_%s$" % _op), arith(_op, "checked")))


@pattern(r"^core::num::<impl u\w+>::pow$")
def pow_(I, st, f, a, at, dty):
    x, y = I.as_lin(st, a[0]), I.as_lin(st, a[1])
    if x.const and y.const:
        return [(I.wrap(st, K(x.c ** y.c), dty), st)]
    raise Unmodelled("pow")


@pattern(r"^core::num::<impl u\w+>::abs_diff$")
def abs_diff(I, st, f, a, at, dty):
    x, y = I.as_lin(st, a[0]), I.as_lin(st, a[1])
    return [(x - y if I.decide(st, c_le(y - x)) else y - x, st)]


def unchecked(op):
    def m(I, st, f, a, at, dty):
        return [(I.binop(st, op, a[0], a[1], dty), st)]
    return m


for _n, _o in (("unchecked_shl", "Shl"), ("unchecked_shr", "Shr"), ("unchecked_div", "Div"), ("unchecked_rem", "Rem"), ("exact_div", "Div")):
    MODELS["intrinsic:" + _n] = unchecked(_o)


@model("intrinsic:bswap")
def bswap(I, st, f, a, at, dty):
    x = I.as_lin(st, a[0])
    w = I.T[dty]["bits"] // 8
    r = ZERO
    for i in range(w):
        r = r + L.mod(L.div(x, 1 << (8 * i)), 256).scale(1 << (8 * (w - 1 - i)))
    return [(r, st)]


@model("intrinsic:rotate_left", "intrinsic:rotate_right")
def rotate(I, st, f, a, at, dty):
    x = I.as_lin(st, a[0])
    w = I.T[dty]["bits"]
    n = I.concretize(st, I.as_lin(st, a[1])) % w
    if f["def"].endswith("right"):
        n = (w - n) % w
    if n == 0:
        return [(x, st)]
    return [(L.shl(x, n, w) + L.div(x, 1 << (w - n)), st)]


@model("intrinsic:ctlz", "intrinsic:cttz", "intrinsic:ctlz_nonzero", "intrinsic:cttz_nonzero")
def zeros(I, st, f, a, at, dty):
    x = I.as_lin(st, a[0])
    w = I.T[at[0]]["bits"]
    for n in range(w):
        c = c_le((1 << (w - 1 - n)) - x) if "ctlz" in f["intrinsic"] else c_ne(L.mod(x, 1 << (n + 1)))
        if I.decide(st, c):
            return [(K(n), st)]
    return [(K(w), st)]


@model("intrinsic:bitreverse")
def bitreverse(I, st, f, a, at, dty):
    w = I.T[at[0]]["bits"]
    r = ZERO
    for i, b in enumerate(L.bits(I.as_lin(st, a[0]), w)):
        r = r + L.bit_lin(b).scale(1 << (w - 1 - i))
    return [(r, st)]


@model("intrinsic:ctpop")
def ctpop(I, st, f, a, at, dty):
    x = I.as_lin(st, a[0])
    w = I.T[at[0]]["bits"] if at[0] is not None else 64
    r = ZERO
    for b in L.bits(x, w):
        r = r + L.bit_lin(b)
    return [(r, st)]


@model("intrinsic:cold_path", "intrinsic:assert_inhabited", "intrinsic:assert_zero_valid", "intrinsic:assert_mem_uninitialized_valid", "intrinsic:forget")
def nop(I, st, f, a, at, dty):
    return [(unit(I), st)]


@model("intrinsic:likely", "intrinsic:unlikely", "intrinsic:black_box", "std::hint::black_box")
def ident(I, st, f, a, at, dty):
    return [(a[0], st)]


@model("intrinsic:three_way_compare")
def three_way(I, st, f, a, at, dty):
    return [(I.binop(st, "Cmp", a[0], a[1], at[0], dty), st)]


@model("intrinsic:discriminant_value")
def discr_value(I, st, f, a, at, dty):
    return [(I.discr(st, deref_any(I, st, a[0])), st)]


@model("intrinsic:ub_checks", "intrinsic:overflow_checks")
def no_checks(I, st, f, a, at, dty):
    return [(False, st)]


@model("std::char::from_u32_unchecked")
def char_unchecked(I, st, f, a, at, dty):
    x = I.as_lin(st, a[0])
    c = c_and(c_le(x - 0x10FFFF), c_or(c_le(x - 0xD7FF), c_le(0xE000 - x)))
    return [(x, s) for s in I.oblige(st, c, "unsafe", "char::from_u32_unchecked on a value that is not a scalar value")]


@model("std::char::from_u32", "std::char::methods::<impl char>::from_u32", "core::char::convert::from_u32")
def char_from_u32(I, st, f, a, at, dty):
    x = I.as_lin(st, a[0])
    c = c_and(c_le(x - 0x10FFFF), c_or(c_le(x - 0xD7FF), c_le(0xE000 - x)))
    return [(opt(I, dty, x) if I.decide(st, c) else opt(I, dty), st)]


# ---------------------------------------------------------------- characters of a string: an opaque sequence of scalar values
@model("core::str::<impl str>::chars")
def str_chars(I, st, f, a, at, dty):
    sl = I.expand(a[0])
    v = I.expand(I.read(st, sl[1], sl[2]))
    s = v[2]
    if I.T[v[1]]["k"] == "char":
        return [(("chsl",) + sl, st)]
    key = ("chars", s, sl[3], sl[4])
    n = A(atom(("len", key), 0, ISIZE_MAX))
    if sl[4].const and sl[4].c == 0:
        n = ZERO
    return [(("chit", key, ZERO, n), st)]


@model("<std::str::Chars<'a> as std::iter::Iterator>::next")
def chars_next(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    if it[0] == "chsl":
        if not I.decide(st, c_le(1 - it[5])):
            return [(opt(I, dty), st)]
        c = I.seq_get(st, I.expand(I.read(st, it[2], it[3])), it[4])
        store(I, st, a[0], it[:4] + (it[4] + 1, it[5] - 1))
        return [(opt(I, dty, c), st)]
    if it[0] != "chit":
        raise Unmodelled("chars iterator")
    if not I.decide(st, c_le(it[2] - it[3] + 1)):
        return [(opt(I, dty), st)]
    c = A(atom(("el", it[1], it[2]), 0, 0x10FFFF))
    store(I, st, a[0], ("chit", it[1], it[2] + 1, it[3]))
    return [(opt(I, dty, c), st)]


@model("<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def chars_next_back(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    if it[0] != "chsl":
        raise Unmodelled("chars iterator")
    if not I.decide(st, c_le(1 - it[5])):
        return [(opt(I, dty), st)]
    c = I.seq_get(st, I.expand(I.read(st, it[2], it[3])), it[4] + it[5] - 1)
    store(I, st, a[0], it[:5] + (it[5] - 1,))
    return [(opt(I, dty, c), st)]


@pattern(r"^<std::str::Chars<'a> as std::iter::(DoubleEnded)?Iterator>::(?!size_hint)\w+$")
def chars_default(I, st, f, a, at, dty):
    return iter_default(I, st, f, a, at, dty)


@pattern(r"^<std::str::Chars<'a> as std::iter::Iterator>::size_hint$")
def chars_hint(I, st, f, a, at, dty):
    it = deref(I, st, a[0])
    n = it[5] if it[0] == "chsl" else A(atom(("hint", I.fresh_key("h")), 0, ISIZE_MAX))
    return [(("st", dty, (n, opt(I, I.T[dty]["of"][1], n))), st)]


# ---------------------------------------------------------------- formatting
def ok_unit(I, dty):
    return ("en", dty, 0, (unit(I),))


def debug_values(I, st, vals):
    """Interpret the Debug implementations of the trait objects among the arguments; resulting states."""
    out = [st]
    for v in vals:
        v = I.expand(v)
        if not isinstance(v, tuple):
            continue
        todo = []
        if v[0] == "ref" and v[3] and v[3][0] == "dyn":
            todo = [v]
        elif v[0] == "sl":
            ety, segs = I.slice_segs(st, v)
            todo = [I.expand(s[1]) for s in segs if s[0] == "c"]
            todo = [x for x in todo if isinstance(x, tuple) and x[0] == "ref" and x[3] and x[3][0] == "dyn"]
        for r in todo:
            fid = I.vt_method(r[3][1], "dyn std::fmt::Debug", 3)
            if fid is None:
                continue
            g = I.F[fid]
            if not g.get("sig"):
                continue
            nxt = []
            for s in out:
                fm = I.sym(g["sig"][0][1], ("in", "formatter"))
                for _, s2 in I.invoke(s.copy(), fid, [("ref", r[1], r[2], None), fm], [g["sig"][0][0], g["sig"][0][1]], g["sig"][1]):
                    nxt.append(s2)
            out = dedupe(nxt)
    return out


def dedupe(states):
    """Formatting has no effect on memory: keep one state per set of facts."""
    seen = {}
    for s in states:
        seen.setdefault(s.facts.set, s)
    out = list(seen.values())
    # a state whose facts are implied by another's is redundant
    return [s for s in out if not any(o is not s and o.facts.set < s.facts.set for o in out)]


@pattern(r"^std::fmt::Formatter::<'a>::(debug_struct_fields?\w*_finish|debug_tuple_field\w*_finish)$")
def fmt_derived(I, st, f, a, at, dty):
    return [(ok_unit(I, dty), s) for s in debug_values(I, st, a[1:])]


@pattern(r"^std::fmt::Formatter::<'a>::(pad|pad_integral|write_fmt|debug_c_like_enum_write_str)$|^std::fmt::Debug(Struct|List|Tuple|Set|Map)::<'a, 'b>::finish\w*$")
def fmt_finish(I, st, f, a, at, dty):
    st.out = st.out + (("any", None),)
    return [(ok_unit(I, dty), st)]


@pattern(r"^std::fmt::Formatter::<'a>::debug_(struct|list|tuple|set|map)$")
def fmt_builder(I, st, f, a, at, dty):
    return [(("fmtb",), st)]


@pattern(r"^std::fmt::Debug(Struct|List|Tuple|Set|Map)::<'a, 'b>::(field|entry)$")
def fmt_field(I, st, f, a, at, dty):
    return [(a[0], s) for s in debug_values(I, st, a[1:])]


@pattern(r"^<(bool|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|str|char|\(\)) as std::fmt::(Debug|Display|LowerHex|UpperHex)>::fmt$|^(core|std)::fmt::.*<impl std::fmt::\w+ for \w+>::fmt$|^<std::string::String as std::fmt::(Debug|Display)>::fmt$")
def fmt_prim(I, st, f, a, at, dty):
    st.out = st.out + (("any", None),)
    return [(ok_unit(I, dty), st)]


@pattern(r"^std::fmt::Formatter::<'a>::write_str$|^<std::fmt::Formatter<'_> as std::fmt::Write>::write_(str|char)$")
def fmt_write(I, st, f, a, at, dty):
    st.out = st.out + ((f["def"].split("_")[-1], a[1]),)
    return [(ok_unit(I, dty), st)]


def utf8_of(I, st, segs):
    """Byte segments of a string of the characters."""
    out = ()
    for x in segs:
        if x[0] == "c" and isinstance(x[1], Lin) and I.ent(st, c_le(x[1] - 0x7F)):
            out += (x,)
        else:
            out += (("s", ("utf8", (x,)), ZERO, A(atom(("len", ("utf8", (x,))), 1 if x[0] == "c" else 0, 4 if x[0] == "c" else ISIZE_MAX))),)
    return out


def chars_of(I, segs):
    """Character segments of the string with these bytes, or None."""
    out = ()
    for x in segs:
        if x[0] == "c" and isinstance(x[1], Lin) and irange(x[1])[1] is not None and irange(x[1])[1] < 0x80:
            out += (x,)
        elif x[0] == "s" and isinstance(x[1], tuple) and x[1][0] == "utf8" and x[2] == ZERO and x[3] == A(atom(("len", x[1]), 0, ISIZE_MAX)):
            out += x[1][1]
        else:
            return None
    return out


@pattern(r"^std::string::String::push(_str)?$|^<std::string::String as std::fmt::Write>::write_(str|char)$")
def string_push(I, st, f, a, at, dty):
    v = deref(I, st, a[0])
    if v[0] != "st" or v[2][0][0] != "seq":
        raise Unmodelled("string")
    if f["def"].endswith("str"):
        ety, segs = I.slice_segs(st, I.expand(a[1]))
        if I.T[ety]["k"] == "char":
            segs = utf8_of(I, st, segs)
    else:
        segs = utf8_of(I, st, (("c", I.as_lin(st, a[1])),))
    store(I, st, a[0], ("st", v[1], (("seq", v[2][0][1], v[2][0][2] + segs),)))
    return [(ok_unit(I, dty) if "Write" in f["def"] else unit(I), st)]


@model("std::string::String::from_utf8_lossy")
def utf8_lossy(I, st, f, a, at, dty):
    # a borrowed view of the bytes when valid, an owned repair otherwise
    sl = I.expand(a[0])
    t = I.T[dty]
    key = ("utf8", I.slice_segs(st, sl)[1])
    vn = [v["name"] for v in t["variants"]]
    return [(("en", dty, vn.index("Borrowed"), (("sl", sl[1], sl[2], sl[3], sl[4]),)), st)]


# ---------------------------------------------------------------- harness primitives
def h_nd(I, st, f, a, at, dty):
    name = I.const_str(st, I.expand(a[0])) if a else "v"
    root = ("nd", name)
    n = st.mem.get(root, 0)
    st.mem[root] = n + 1
    key = ("in", name if n == 0 else "%s#%d" % (name, n))
    return [(I.sym(dty, key), st)]


def h_assume(I, st, f, a, at, dty):
    return [(unit(I), s) for s in st.refine(I.as_cond(a[0]))]


def h_claim(I, st, f, a, at, dty):
    name = I.const_str(st, I.expand(a[0]))
    c = I.as_cond(a[1])
    if not I.trial:
        I.claims[name] = I.claims.get(name, 0) + 1
    return [(unit(I), s) for s in I.oblige(st, c, "claim", name)]


def h_reach(I, st, f, a, at, dty):
    name = I.const_str(st, I.expand(a[0]))
    if not I.trial:
        I.reached.add(name)
    return [(unit(I), st)]


def h_havoc(I, st, f, a, at, dty):
    """Overwrite a byte slice with fresh input bytes."""
    d = as_slice(I, st, a[0])
    name = I.const_str(st, I.expand(a[1]))
    v = I.expand(I.read(st, d[1], d[2]))
    root = ("nd", name)
    n = st.mem.get(root, 0)
    key = ("in", name if n == 0 else "%s#%d" % (name, n))
    nv = I.seq_replace(st, v, d[3], d[4], (("s", key, ZERO, d[4]),))
    st.mem[root] = n + 1
    I.write(st, d[1], d[2], nv)
    return [(unit(I), st)]


def h_read_from(I, st, f, a, at, dty):
    """Provenance: the bytes a value was read from, as recorded by the contracts."""
    from . import contracts as C
    want = C.slice_of(I, st, a[1])
    k = C.list_key(I, st, a[0])
    if k == ("none",):
        have = ()
    else:
        if not (isinstance(k, tuple) and k[0] in ("parsed", "dvb")):
            k = C.text_key(I, st, a[0])
        if isinstance(k, tuple) and k[0] == "parsed" and k[1] == ("none",):
            have = k[2]
        elif isinstance(k, tuple) and k[0] == "dvb":
            have = k[1]
        else:
            raise Unmodelled("provenance of a value")
    n = sum((seglen(x) for x in have), ZERO)
    m = sum((seglen(x) for x in want), ZERO)
    if not I.decide(st, c_eq(n - m)):
        return [(False, st)]
    if have == want or (n.const and n.c == 0):
        return [(True, st)]
    if len(have) == 1 and len(want) == 1 and have[0][0] == "s" and want[0][0] == "s" and have[0][1] == want[0][1]:
        return [(N.c_or(c_eq(n), c_eq(have[0][2] - want[0][2])), st)]
    c = seg_eq(I, st, have, want)
    if c is None:
        raise Unmodelled("provenance of a value")
    return [(c, st)]


def h_str_of(I, st, f, a, at, dty):
    """A string of the given characters."""
    return [(as_slice(I, st, a[0]), st)]


def h_written(I, st, f, a, at, dty):
    """The characters written to the formatter so far."""
    ety = I.elem_ty(dty)
    segs = ()
    for how, v in st.out:
        if how == "any":
            raise Unmodelled("formatted text")
        if how == "char":
            segs += (("c", v),)
            continue
        t, s = I.slice_segs(st, I.expand(v))
        c = s if I.T[t]["k"] == "char" else chars_of(I, s)
        segs += c if c is not None else (("s", ("text", s), ZERO, A(atom(("len", ("text", s)), 0, ISIZE_MAX))),)
    st.out = ()
    return [(("seq", ety, segs), st)]


HOOKS = {"str_of": h_str_of, "written": h_written, "read_from": h_read_from, "nd": h_nd, "assume": h_assume, "claim": h_claim, "reach": h_reach, "havoc": h_havoc}
