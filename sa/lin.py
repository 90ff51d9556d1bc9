"""Integer value domain: canonical linear expressions over interned atoms.

A value is an integer-coefficient linear expression over atoms.  Atoms are inputs (bytes of an input
buffer, fields of an input structure, lengths), floor-division atoms div(L, c) and opaque applications.
Shifts, masks and casts are expressed with floor divisions, so bit fields have one canonical form:
bit i of L is div(L, 2^i) - 2*div(L, 2^(i+1)), and adjacent bits telescope.
"""
from math import gcd

INF = None
_atoms = {}
_list = []


class Atom:
    __slots__ = ("key", "id", "lo", "hi", "kind", "args", "exact", "deps", "name")

    def __repr__(self):
        return fmt_key(self.key)


def fmt_key(k):
    if isinstance(k, tuple):
        if k and k[0] == "el":
            return "%s[%s]" % (fmt_key(k[1]), k[2]) + ("." + ".".join(map(str, k[3])) if len(k) > 3 and k[3] else "")
        if k and k[0] == "div":
            return "(%s / %d)" % (k[1], k[2])
        if k and k[0] == "f":
            return "%s.%s" % (fmt_key(k[1]), k[2])
        if k and k[0] == "len":
            return "len(%s)" % fmt_key(k[1])
        if k and k[0] == "in":
            return str(k[1])
        return "%s(%s)" % (fmt_key(k[0]) if k else "", ", ".join(fmt_key(x) for x in k[1:]))
    if isinstance(k, frozenset):
        return "{" + ", ".join(sorted(fmt_key(x) for x in k)) + "}"
    return str(k)


def _deps_of(x, out):
    if isinstance(x, Lin):
        for a, _ in x.t:
            out.add(a)
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            _deps_of(y, out)


def atom(key, lo, hi, exact=True):
    """Interned atom; lo/hi are intrinsic bounds (None = unbounded); exact=False marks an imprecise value."""
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.key = key
        a.id = len(_list)
        a.lo = lo
        a.hi = hi
        a.kind = key[0] if isinstance(key, tuple) else "in"
        a.args = key
        d = set()
        _deps_of(key, d)
        a.deps = frozenset(d)
        a.exact = exact and all(_list[i].exact for i in d)
        _atoms[key] = a
        _list.append(a)
    return a


_skel = {}


def skel(a):
    """Shape of an atom's key with the linear forms in it taken out, and those forms."""
    r = _skel.get(a.id)
    if r is None:
        holes = []

        def go(x):
            if isinstance(x, Lin):
                return ("hole", _hole(x))
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x

        def _hole(x):
            holes.append(x)
            return len(holes)
        s = go(a.key)
        r = _skel[a.id] = (s, tuple(holes))
    return r


_shape = {}


def shape(i):
    """Shape of an element-like atom, None for others."""
    r = _shape.get(i, 0)
    if r == 0:
        a = _list[i]
        r = None
        if a.kind not in ("div", "mul", "quot", "rem", "and", "or", "xor"):
            k, h = skel(a)
            r = k if h else None
        _shape[i] = r
    return r


def get_atom(i):
    return _list[i]


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = []
        for i, k in self.t:
            n = repr(_list[i])
            s.append(n if k == 1 else "-" + n if k == -1 else "%d*%s" % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s).replace("+ -", "- ")

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        return add(self, o if isinstance(o, Lin) else K(o))

    def __radd__(self, o):
        return add(K(o), self)

    def __sub__(self, o):
        return add(self, (o if isinstance(o, Lin) else K(o)).scale(-1))

    def __rsub__(self, o):
        return add(K(o), self.scale(-1))

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        return mul(self, o)

    __rmul__ = __mul__

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((i, v * k) for i, v in self.t))

    def coef(self, aid):
        for i, v in self.t:
            if i == aid:
                return v
        return 0

    def atoms(self):
        return [i for i, _ in self.t]


def K(n):
    return Lin(n)


ZERO = Lin(0)
ONE = Lin(1)


def A(a):
    return Lin(0, ((a.id, 1),))


def add(x, y):
    if not x.t:
        return y if x.c == 0 else Lin(x.c + y.c, y.t)
    if not y.t:
        return x if y.c == 0 else Lin(x.c + y.c, x.t)
    d = dict(x.t)
    for i, v in y.t:
        n = d.get(i, 0) + v
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return Lin(x.c + y.c, tuple(sorted(d.items())))


def mk(c, d):
    return Lin(c, tuple(sorted((i, v) for i, v in d.items() if v)))


def exact(L):
    return all(_list[i].exact for i, _ in L.t)


def all_atoms(L, out=None):
    """Atoms of L, with the atoms inside the definitions of its atoms."""
    if out is None:
        out = set()
    st = [i for i, _ in L.t]
    while st:
        i = st.pop()
        if i in out:
            continue
        out.add(i)
        st.extend(_list[i].deps)
    return out


# ---------------------------------------------------------------- intrinsic ranges
_rng = {}


def irange(L):
    """Interval of L from the intrinsic bounds of atoms, recognising x - c*div(x, c) as a remainder."""
    r = _rng.get(L)
    if r is not None:
        return r
    r = _irange(L)
    _rng[L] = r
    return r


def _depth(X):
    """Nesting depth of division atoms in X."""
    r = 0
    for i, _ in X.t:
        a = _list[i]
        if a.kind == "div":
            r = max(r, 1 + _depth(a.args[1]))
    return r


_dig = {}


def digits(L):
    """L as const + sum of k*digit: chains X, X/a, X/ab, ... become independent mixed-radix digits.
    Returns (const, [(k, Lin, lo, hi)])."""
    r = _dig.get(L)
    if r is None:
        r = _digits(L)
        _dig[L] = r
    return r


def _digits(L):
    const = L.c
    out = []
    d = dict(L.t)
    groups = {}
    for i in d:
        a = _list[i]
        if a.kind == "div":
            groups.setdefault(a.args[1], []).append(i)
    for X in sorted(groups, key=lambda X: (-_depth(X), -len(X.t))):
        ids = sorted((i for i in groups[X] if i in d), key=lambda i: -_list[i].args[2])
        if not ids:
            continue
        chain = [ids[0]]
        for i in ids[1:]:
            if _list[chain[-1]].args[2] % _list[i].args[2] == 0:
                chain.append(i)
        chain.reverse()
        cs = [_list[i].args[2] for i in chain]
        ks = [d[i] for i in chain]
        ls = [A(_list[i]) for i in chain]
        # the multiple of X itself that takes part in the chain
        m = 0
        top = max(X.t, key=lambda t: (_list[t[0]].args[2] if _list[t[0]].kind == "div" else 0, t[0]))
        if top[0] in d and d[top[0]] % top[1] == 0:
            m = d[top[0]] // top[1]
        if m:
            for a, v in X.t:
                n = d.get(a, 0) - m * v
                if n:
                    d[a] = n
                else:
                    d.pop(a, None)
            const -= m * X.c
            cs.insert(0, 1)
            ks.insert(0, m)
            ls.insert(0, X)
        for i in chain:
            d.pop(i, None)
        k = 0
        for n, c in enumerate(cs):
            k = ks[n] + (k * (c // cs[n - 1]) if n else 0)
            if not k:
                continue
            if n + 1 < len(cs):
                f = cs[n + 1] // c
                out.append((k, ls[n] - ls[n + 1].scale(f), 0, f - 1))
            else:
                b = _list[chain[-1]]
                out.append((k, ls[n], b.lo, b.hi))
    for i, v in d.items():
        a = _list[i]
        out.append((v, A(a), a.lo, a.hi))
    return const, out


def _drange(const, ds):
    lo = hi = const
    for k, _, l, h in ds:
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def _irange(L):
    return _drange(*digits(L))


# ---------------------------------------------------------------- floor division
_divc = {}


def div(L, c):
    if c == 1:
        return L
    r = _divc.get((L, c))
    if r is None:
        r = _div(L, c)
        _divc[(L, c)] = r
    return r


def _div(L, c):
    q, r = divmod(L.c, c)
    if not L.t:
        return K(q)
    lo, hi = irange(L)
    if lo is not None and hi is not None and lo // c == hi // c:
        return K(lo // c)
    # exact quotient in digit form
    k0, ds = digits(L)
    hi_d = [x for x in ds if x[0] % c == 0]
    if hi_d:
        q, r = divmod(k0, c)
        lo, hi = _drange(r, [x for x in ds if x[0] % c])
        if lo is not None and hi is not None and lo >= 0 and hi < c:
            out = K(q)
            for k, D, _, _ in hi_d:
                out = out + D.scale(k // c)
            return out
    q, r = divmod(L.c, c)
    Q = {}
    R = {}
    for i, v in L.t:
        if v % c == 0:
            Q[i] = v // c
        else:
            R[i] = v
    out = mk(q, Q)
    if not R:
        return out
    X = mk(r, R)
    return out + _div2(X, c)


def _div2(X, c):
    lo, hi = irange(X)
    if lo is not None and hi is not None and lo // c == hi // c:
        return K(lo // c)
    # drop a low part: X = g*Y + B with 0 <= B < g, g | c
    k0, ds = digits(X)
    gs = set(gcd(x[0], c) for x in ds) - {1, c}
    for g in sorted(gs, reverse=True):
        if c % g:
            continue
        Y = [x for x in ds if x[0] % g == 0]
        q, r = divmod(k0, g)
        lo, hi = _drange(r, [x for x in ds if x[0] % g])
        if Y and lo is not None and hi is not None and lo >= 0 and hi < g:
            out = K(q)
            for k, D, _, _ in Y:
                out = out + D.scale(k // g)
            return div(out, c // g)
    if len(X.t) == 1:
        i, v = X.t[0]
        a = _list[i]
        if v == 1 and a.kind == "div":
            # floor((floor(Y/d)+k)/c) = floor((Y + k*d)/(d*c))
            return div(a.args[1] + X.c * a.args[2], a.args[2] * c)
    if X.t and all(v < 0 for _, v in X.t):
        # floor((k - Y)/c) = -floor((Y - k + c - 1)/c)
        return div(X.scale(-1) + (c - 1), c).scale(-1)
    lo, hi = irange(X)
    a = atom(("div", X, c), None if lo is None else lo // c, None if hi is None else hi // c)
    return A(a)


def mod(L, c):
    return L - div(L, c) * c


# ---------------------------------------------------------------- nonlinear, opaque
def app(name, *args, lo=0, hi=None, exact=True):
    return A(atom((name,) + args, lo, hi, exact))


def mul(x, y):
    if x.const:
        return y.scale(x.c)
    if y.const:
        return x.scale(y.c)
    if repr(x) > repr(y):
        x, y = y, x
    (a, b), (c, d) = irange(x), irange(y)
    lo = a * c if a is not None and c is not None and a >= 0 and c >= 0 else None
    hi = b * d if b is not None and d is not None and lo is not None else None
    return app("mul", x, y, lo=lo, hi=hi)


def divl(x, y):
    if y.const and y.c > 0:
        return div(x, y.c)
    lo, hi = irange(x)
    return app("quot", x, y, lo=0 if lo is not None and lo >= 0 else None, hi=hi)


def reml(x, y):
    if y.const and y.c > 0:
        return mod(x, y.c)
    return app("rem", x, y, lo=0, hi=None)


# ---------------------------------------------------------------- bits
# a bit is 0, 1, or ("x", frozenset of bit-Lins, const): the xor of the set and the constant
def _bitval(L, i):
    return div(L, 1 << i) - div(L, 1 << (i + 1)).scale(2)


_bits = {}


def bits(L, w):
    """The w low bits of the (non-negative) value L."""
    k = (L, w)
    r = _bits.get(k)
    if r is None:
        r = tuple(_mkbit(_bitval(L, i)) for i in range(w))
        _bits[k] = r
    return r


def _mkbit(B):
    if not B.t:
        return B.c & 1
    if len(B.t) == 1:
        i, v = B.t[0]
        a = _list[i]
        if a.kind == "xor":
            if v == 1 and B.c == 0:
                return ("x", a.args[1], 0)
            if v == -1 and B.c == 1:
                return ("x", a.args[1], 1)
        if v == -1 and B.c == 1 and (a.lo, a.hi) == (0, 1):
            return ("x", frozenset([A(a)]), 1)
    N = 1 - B
    # canonical polarity: prefer the form without constant 1
    if N.c == 0 and B.c == 1:
        return ("x", frozenset([N]), 1)
    return ("x", frozenset([B]), 0)


def bit_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1 and b == 1:
        return 0
    if a == 1:
        a, b = b, a
    if b == 1:
        return ("x", a[1], a[2] ^ 1)
    s = a[1] ^ b[1]
    c = a[2] ^ b[2]
    if not s:
        return c
    return ("x", s, c)


def bit_lin(b):
    if b == 0:
        return ZERO
    if b == 1:
        return ONE
    if len(b[1]) == 1:
        (v,) = b[1]
    else:
        v = A(atom(("xor", b[1]), 0, 1))
    return 1 - v if b[2] else v


def _bit2(op, a, b):
    x, y = bit_lin(a), bit_lin(b)
    k = frozenset([x, y])
    return _mkbit(A(atom((op, k), 0, 1)))


def bit_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if bit_xor(a, b) == 1:
        return 0
    return _bit2("and", a, b)


def bit_or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return a
    if bit_xor(a, b) == 1:
        return 1
    return _bit2("or", a, b)


def from_bits(bs):
    r = ZERO
    for i, b in enumerate(bs):
        if b != 0:
            r = r + bit_lin(b).scale(1 << i)
    return r


def bitop(op, x, y, w, kx=None, ky=None):
    """Bitwise operation on unsigned w-bit values; kx and ky bound the number of significant bits when known."""
    if x.const and y.const:
        m = (1 << w) - 1
        a, b = x.c & m, y.c & m
        return K(a & b if op == "and" else a | b if op == "or" else a ^ b)
    if op == "and":
        if y.const and _lowmask(y.c):
            return mod(x, y.c + 1)
        if x.const and _lowmask(x.c):
            return mod(y, x.c + 1)
    bx, by = bits(x, w), bits(y, w)
    if kx is not None:
        bx = [b if i < kx else bits(ZERO, 1)[0] for i, b in enumerate(bx)]
    if ky is not None:
        by = [b if i < ky else bits(ZERO, 1)[0] for i, b in enumerate(by)]
    f = {"and": bit_and, "or": bit_or, "xor": bit_xor}[op]
    return from_bits([f(a, b) for a, b in zip(bx, by)])


def _lowmask(n):
    return n >= 0 and (n & (n + 1)) == 0


def shl(x, k, w):
    """(x << k) mod 2^w for 0 <= x < 2^w"""
    return mod(x, 1 << (w - k)).scale(1 << k) if k < w else ZERO


def subst(L, m):
    """Replace atoms (by id) with Lins at the top level and inside division atoms."""
    r = K(L.c)
    for i, v in L.t:
        r = r + subst_atom(i, m).scale(v)
    return r


def subst_atom(i, m):
    if i in m:
        return m[i]
    a = _list[i]
    if not a.deps or not (all_atoms(A(a)) & m.keys()):
        return A(a)
    if a.kind == "div":
        return div(subst(a.args[1], m), a.args[2])
    k = subst_key(a.key, m)
    return A(atom(k, a.lo, a.hi, a.exact))


def subst_key(k, m):
    if isinstance(k, Lin):
        return subst(k, m)
    if isinstance(k, tuple):
        return tuple(subst_key(x, m) for x in k)
    if isinstance(k, frozenset):
        return frozenset(subst_key(x, m) for x in k)
    return k


_fresh = [0]


def fresh(tag="n"):
    _fresh[0] += 1
    return "%s%d" % (tag, _fresh[0])
