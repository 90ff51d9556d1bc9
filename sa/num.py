"""Relational numeric domain: conjunctions of linear (in)equalities and disequalities over atoms.

Inclusion and emptiness tests are exact: equality elimination with gcd tightening, bound propagation on
integers, then rational simplex with a small integer branch step.  'unsat' answers are sound; 'sat'
answers come with an integral point; otherwise 'maybe'.
"""
from fractions import Fraction
from math import gcd
from .lin import Lin, K, A, get_atom, add, mk, ZERO
from . import lin as _lin

stats = {"queries": 0, "hits": 0, "simplex": 0, "branch": 0}

# ---------------------------------------------------------------- conditions
# True | False | ("le", L) | ("eq", L) | ("ne", L) | ("and", a, b) | ("or", a, b)


def c_le(L):
    if L.const:
        return L.c <= 0
    lo, hi = _lin.irange(L)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    x = _preimage(L, lambda v: v <= 0)
    if x is not None:
        return x
    return ("le", _norm_le(L))


def _norm_le(L):
    g = 0
    for _, v in L.t:
        g = gcd(g, v)
    if g > 1:
        return Lin(-((-L.c) // g), tuple((i, v // g) for i, v in L.t))
    return L


def c_eq(L):
    if L.const:
        return L.c == 0
    g = 0
    for _, v in L.t:
        g = gcd(g, v)
    if L.c % g:
        return False
    lo, hi = _lin.irange(L)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if lo == 0 and hi == 0:
        return True
    x = _preimage(L, lambda v: v == 0)
    if x is not None:
        return x
    s = -1 if L.t[0][1] < 0 else 1
    g *= s
    L = Lin(L.c // g, tuple((i, v // g) for i, v in L.t))
    return ("eq", L)


def _preimage(L, p):
    """Condition on the index under which a sum of entries of constant tables (at one index) satisfies p."""
    d = None
    vals = None
    for i, v in L.t:
        a = get_atom(i)
        if a.kind != "tbl" or not isinstance(a.key[1], tuple):
            return None
        if d is None:
            d, vals = a.key[2], [L.c] * len(a.key[1])
        elif d != a.key[2] or len(vals) != len(a.key[1]):
            return None
        vals = [x + v * y for x, y in zip(vals, a.key[1])]
    runs = []
    for i, x in enumerate(vals):
        if p(x):
            if runs and runs[-1][1] == i - 1:
                runs[-1][1] = i
            else:
                runs.append([i, i])
    if len(runs) > 48:
        return None
    c = False
    for lo, hi in runs:
        if lo == hi:
            r = c_eq(d - lo)
        else:
            r = c_and(lo == 0 or c_le(lo - d), hi == len(vals) - 1 or c_le(d - hi))
        c = c_or(c, r)
    return c


def c_ne(L):
    return c_not(c_eq(L))


def c_not(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == "le":
        return c_le(1 - c[1])
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return c_or(c_not(c[1]), c_not(c[2]))
    return c_and(c_not(c[1]), c_not(c[2]))


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ("or", a, b)


def c_exact(c):
    if c is True or c is False:
        return True
    if c[0] in ("and", "or"):
        return c_exact(c[1]) and c_exact(c[2])
    return _lin.exact(c[1])


def c_subst(c, m):
    if c is True or c is False:
        return c
    if c[0] == "and":
        return c_and(c_subst(c[1], m), c_subst(c[2], m))
    if c[0] == "or":
        return c_or(c_subst(c[1], m), c_subst(c[2], m))
    f = {"le": c_le, "eq": c_eq, "ne": c_ne}[c[0]]
    return f(_lin.subst(c[1], m))


# ---------------------------------------------------------------- definitional closure
_nac = {}


def num_atoms(L):
    r = _nac.get(L)
    if r is None:
        out = set()
        st = [i for i, _ in L.t]
        while st:
            i = st.pop()
            if i in out:
                continue
            out.add(i)
            a = get_atom(i)
            if a.kind == "div":
                st.extend(j for j, _ in a.args[1].t)
            for x in _extra_axioms(a):
                st.extend(j for j, _ in x[1].t)
        r = frozenset(out)
        _nac[L] = r
    return r


# axioms attached to atoms by the models: atom id -> list of conditions (atomic)
_axioms = {}


def add_axiom(a, conds):
    _axioms[a.id] = tuple(c for c in conds if c is not True)
    _nac.clear()


def _extra_axioms(a):
    r = _axioms.get(a.id)
    if r is None:
        r = ()
        if a.kind in ("and", "or", "xor") and isinstance(a.key[1], frozenset) and len(a.key[1]) == 2:
            r = _bit_axioms(a)
        _axioms[a.id] = r
    return r


def _bit_axioms(a):
    """The values of a bit operation on two bits."""
    x, y = a.key[1]
    z = A(a)
    if a.kind == "and":
        cs = [c_le(z - x), c_le(z - y), c_le(x + y - z - 1)]
    elif a.kind == "or":
        cs = [c_le(x - z), c_le(y - z), c_le(z - x - y)]
    else:
        cs = [c_le(x - y - z), c_le(y - x - z), c_le(z - x - y), c_le(z + x + y - 2)]
    return tuple(c for c in cs if c is not True)


def _axiom_list(ids):
    out = []
    groups = {}
    for i in ids:
        a = get_atom(i)
        out.extend(_extra_axioms(a))
        if a.kind == "div":
            X, c = a.args[1], a.args[2]
            d = A(a).scale(c) - X
            out.append(("le", d))                 # c*d <= X
            out.append(("le", X - A(a).scale(c) - (c - 1)))
            groups.setdefault(X, []).append(a)
    for X, g in groups.items():
        g.sort(key=lambda a: a.args[2])
        for n in range(1, len(g)):
            for m in range(n - 1, -1, -1):
                if g[n].args[2] % g[m].args[2] == 0:
                    f = g[n].args[2] // g[m].args[2]
                    D = A(g[m]) - A(g[n]).scale(f)
                    out.append(("le", D.scale(-1)))
                    out.append(("le", D - (f - 1)))
                    break
    return out


class Facts:
    __slots__ = ("items", "set", "h")

    def __init__(self, items=(), s=None):
        self.items = items
        self.set = s if s is not None else frozenset(items)
        self.h = None

    def __len__(self):
        return len(self.items)

    def with_(self, c):
        if c in self.set:
            return self
        return Facts(self.items + (c,), self.set | {c})

    def component(self, atoms):
        """Facts connected to the atoms."""
        seen = set(atoms)
        todo = [(c, num_atoms(c[1])) for c in self.items]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c, s in todo:
                if not s.isdisjoint(seen):
                    out.append(c)
                    if not s <= seen:
                        seen |= s
                        ch = True
                else:
                    rest.append((c, s))
            todo = rest
        return out, seen


_cache = {}


def check(facts, extra, want_model=False):
    """Satisfiability of facts (component connected to extra) and extra."""
    if any(isinstance(c, tuple) and c[0] in ("and", "or") for c in extra):
        return _check_cases(facts, extra)
    ats = set()
    for c in extra:
        if c is False:
            return ("unsat", None)
        if c is not True:
            ats |= num_atoms(c[1])
    extra = [c for c in extra if c is not True]
    comp, ats = facts.component(ats)
    key = (frozenset(comp), frozenset(extra))
    stats["queries"] += 1
    r = _cache.get(key)
    if r is not None:
        stats["hits"] += 1
        return r
    r = _solve(list(comp) + list(extra), ats)
    if len(_cache) > 200000:
        _cache.clear()
    _cache[key] = r
    return r


def _check_cases(facts, extra):
    flat = [x for c in extra for x in _conj(c)]
    for i, c in enumerate(flat):
        if isinstance(c, tuple) and c[0] == "or":
            r = [check(facts, flat[:i] + [x] + flat[i + 1:]) for x in c[1:]]
            return next((x for x in r if x[0] == "sat"), None) or next((x for x in r if x[0] == "maybe"), r[0])
    return check(facts, flat)


def entails(facts, c):
    if c is True:
        return True
    if c is False:
        return check(facts, [])[0] == "unsat"
    if c[0] == "and":
        return entails(facts, c[1]) and entails(facts, c[2])
    if c[0] == "or":
        # not (a or b) = not a and not b
        n = [x for x in _conj(c_not(c))]
        if any(isinstance(x, tuple) and x[0] == "or" for x in n):
            return entails(facts, c[1]) or entails(facts, c[2])
        return check(facts, n)[0] == "unsat"
    if c in facts.set:
        return True
    r = check(facts, [c_not(c)])[0]
    if r == "maybe" and c[0] == "eq":
        return entails(facts, c_le(c[1])) and entails(facts, c_le(ZERO - c[1]))
    return r == "unsat"


def _conj(c):
    if c is True:
        return []
    if isinstance(c, tuple) and c[0] == "and":
        return _conj(c[1]) + _conj(c[2])
    return [c]


def positions(L):
    """Two parts of a sum, zero exactly if the sum is: digits of a number and a multiple of their base."""
    ts = sorted(L.t, key=lambda x: abs(x[1]))
    for k in range(1, len(ts)):
        g = 0
        for _, v in ts[k:]:
            g = gcd(g, v)
        if g <= abs(ts[k - 1][1]):
            continue
        lo, hi = _lin.irange(mk(0, dict(ts[:k])))
        if lo is None or hi is None:
            continue
        c = L.c % g
        if lo + c <= -g or hi + c >= g:
            c -= g
        if lo + c > -g and hi + c < g:
            return mk(c, dict(ts[:k])), mk(L.c - c, dict(ts[k:]))
    return None


def assume(facts, c):
    """Facts refined by c: a list of disjuncts (empty if contradictory)."""
    if isinstance(c, tuple) and c[0] == "eq" and len(c[1].t) > 1:
        p = positions(c[1])
        if p is not None:
            c = c_and(c_eq(p[0]), c_eq(p[1]))
    if c is True:
        return [facts]
    if c is False:
        return []
    if c[0] == "and":
        out = []
        for f in assume(facts, c[1]):
            out.extend(assume(f, c[2]))
        return out
    if c[0] == "or":
        out = assume(facts, c[1])
        for f in assume(facts, c_not(c[1])):
            out = out + assume(f, c[2])
        return out
    if c in facts.set:
        return [facts]
    if check(facts, [c])[0] == "unsat":
        return []
    # strengthen a disequality at a bound
    if c[0] == "ne":
        L = c[1]
        if check(facts, [c_le(L + 1)])[0] == "unsat":
            n = c_le(1 - L)
            return assume(facts, n) if n is not False else []
        if check(facts, [c_le(1 - L)])[0] == "unsat":
            n = c_le(L + 1)
            return assume(facts, n) if n is not False else []
    return [facts.with_(c)]


# ---------------------------------------------------------------- solver
class _Unsat(Exception):
    pass


def _solve(conds, ats, depth=0):
    eqs, les, nes = [], [], []
    for c in list(conds) + _axiom_list(ats):
        if c is True:
            continue
        if c is False:
            return ("unsat", None)
        if c[0] == "eq":
            eqs.append(c[1])
        elif c[0] == "le":
            les.append(c[1])
        elif c[0] == "ne":
            nes.append(c[1])
        else:
            raise ValueError(c)
    ids = set()
    for L in eqs + les + nes:
        ids.update(i for i, _ in L.t)
    ids |= set(ats)
    lo = {}
    hi = {}
    for i in ids:
        a = get_atom(i)
        lo[i] = a.lo
        hi[i] = a.hi
    budget = [60]
    try:
        m = _search(eqs, les, nes, lo, hi, budget)
    except _Unsat:
        return ("unsat", None)
    if m is None:
        return ("maybe", None)
    return ("sat", m)


def _search(eqs, les, nes, lo, hi, budget):
    """Returns an integral model, None for unknown, or raises _Unsat."""
    st = _Sys(eqs, les, lo, hi)
    st.simplify()
    m = st.lp()
    if m is None:
        return None
    full = st.complete(m)
    # integrality
    frac = None
    for i, v in full.items():
        if isinstance(v, Fraction) and v.denominator != 1:
            frac = (i, v)
            break
    if frac is None:
        bad = None
        for L in nes:
            s = L.c
            for i, v in L.t:
                s += v * full.get(i, 0)
            if s == 0:
                bad = L
                break
        if bad is None:
            return {i: int(v) for i, v in full.items()}
        branches = [bad + 1, 1 - bad]
    else:
        i, v = frac
        f = v.numerator // v.denominator
        x = A(get_atom(i))
        branches = [x - f, (f + 1) - x]
    budget[0] -= 1
    stats["branch"] += 1
    if budget[0] <= 0:
        return None
    unknown = False
    for b in branches:
        try:
            r = _search(eqs, les + [b], nes, lo, hi, budget)
        except _Unsat:
            continue
        if r is not None:
            return r
        unknown = True
    if unknown:
        return None
    raise _Unsat()


class _Sys:
    def __init__(self, eqs, les, lo, hi):
        self.eqs = [self._d(L) for L in eqs]
        self.les = [self._d(L) for L in les]
        self.lo = dict(lo)
        self.hi = dict(hi)
        self.elim = []

    @staticmethod
    def _d(L):
        return (L.c, dict(L.t))

    @staticmethod
    def _sub(e, i, r):
        """substitute var i := r = (c, d) in e"""
        c, d = e
        k = d.get(i)
        if not k:
            return e
        d = dict(d)
        del d[i]
        c += k * r[0]
        for j, v in r[1].items():
            n = d.get(j, 0) + k * v
            if n:
                d[j] = n
            else:
                d.pop(j, None)
        return (c, d)

    def simplify(self):
        # eliminate equalities having a unit coefficient
        eqs = self.eqs
        out = []
        while eqs:
            e = eqs.pop()
            c, d = e
            if not d:
                if c != 0:
                    raise _Unsat()
                continue
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if c % g:
                raise _Unsat()
            if g > 1:
                c //= g
                d = {i: v // g for i, v in d.items()}
            u = None
            for i, v in d.items():
                if v == 1 or v == -1:
                    u = i
                    # prefer eliminating variables with no finite bounds
                    if self.lo.get(i) is None or self.hi.get(i) is None or self.hi[i] > 1 << 40:
                        break
            if u is None:
                out.append((c, d))
                continue
            k = d[u]
            r = (-c * k, {j: -v * k for j, v in d.items() if j != u})
            self.elim.append((u, r))
            eqs = [self._sub(x, u, r) for x in eqs]
            out = [self._sub(x, u, r) for x in out]
            self.les = [self._sub(x, u, r) for x in self.les]
            # bounds of the eliminated variable
            if self.lo.get(u) is not None:
                self.les.append((self.lo[u] - r[0], {j: -v for j, v in r[1].items()}))
            if self.hi.get(u) is not None:
                self.les.append((r[0] - self.hi[u], dict(r[1])))
            self.lo.pop(u, None)
            self.hi.pop(u, None)
            if out and any(1 in x[1].values() or -1 in x[1].values() for x in out):
                eqs = eqs + out
                out = []
        for c, d in out:
            if not d:
                if c:
                    raise _Unsat()
                continue
            self.les.append((c, d))
            self.les.append((-c, {i: -v for i, v in d.items()}))
        self.norm()
        if self.cuts():
            self.norm()
        self.propagate()

    def cuts(self):
        """Sums of two inequalities whose coefficients have a common factor, rounded to integers."""
        if len(self.les) > 80:
            return False
        up, down = {}, {}
        for c, d in self.les:
            if len(d) < 2:
                continue
            units = frozenset(i for i, v in d.items() if v == 1 or v == -1)
            for i in units:
                (up if d[i] == 1 else down).setdefault(i, []).append((c, d, units))
        new = []
        for i in up:
            if i not in down:
                continue
            for c, d, u in up[i]:
                for c2, d2, u2 in down[i]:
                    # a unit coefficient that stays leaves no common factor
                    if not (u <= d2.keys() and u2 <= d.keys()):
                        continue
                    s = dict(d)
                    for j, v in d2.items():
                        n = s.get(j, 0) + v
                        if n:
                            s[j] = n
                        else:
                            s.pop(j, None)
                    g = 0
                    for v in s.values():
                        g = gcd(g, v)
                    if g > 1 and (c + c2) % g:
                        new.append((c + c2, s))
        self.les.extend(new)
        return bool(new)

    def norm(self):
        best = {}
        for c, d in self.les:
            if not d:
                if c > 0:
                    raise _Unsat()
                continue
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if g > 1:
                c = -((-c) // g)
                d = {i: v // g for i, v in d.items()}
            if len(d) == 1:
                ((i, v),) = d.items()
                if v > 0:
                    b = (-c) // v
                    h = self.hi.get(i)
                    if h is None or b < h:
                        self.hi[i] = b
                else:
                    b = -((-c) // (-v))  # x >= ceil(c/-v)... c + v x <= 0, v<0: x >= c/(-v)
                    b = -(-c // (-v))
                    l = self.lo.get(i)
                    if l is None or b > l:
                        self.lo[i] = b
                self._chk(i)
                continue
            k = tuple(sorted(d.items()))
            if k not in best or best[k] < c:
                best[k] = c
        self.les = [(c, dict(k)) for k, c in best.items()]

    def _chk(self, i):
        l, h = self.lo.get(i), self.hi.get(i)
        if l is not None and h is not None and l > h:
            raise _Unsat()

    def propagate(self):
        lo, hi = self.lo, self.hi
        for rnd in range(12):
            ch = False
            for c, d in self.les:
                # minimum of the sum
                s = c
                ninf = 0
                inf_i = None
                for i, v in d.items():
                    b = lo.get(i) if v > 0 else hi.get(i)
                    if b is None:
                        ninf += 1
                        inf_i = i
                        if ninf > 1:
                            break
                    else:
                        s += v * b
                if ninf > 1:
                    continue
                if ninf == 0 and s > 0:
                    raise _Unsat()
                for i, v in d.items():
                    if ninf == 1 and i != inf_i:
                        continue
                    b = lo.get(i) if v > 0 else hi.get(i)
                    rest = s - (v * b if b is not None else 0)
                    # v*x <= -rest
                    if v > 0:
                        n = (-rest) // v
                        h = hi.get(i)
                        if h is None or n < h:
                            hi[i] = n
                            self._chk(i)
                            ch = True
                    else:
                        n = -((-rest) // (-v))
                        l = lo.get(i)
                        if l is None or n > l:
                            lo[i] = n
                            self._chk(i)
                            ch = True
            if not ch:
                break

    def complete(self, m):
        full = dict(m)
        for i in list(self.lo.keys()) + list(self.hi.keys()):
            if i not in full:
                l, h = self.lo.get(i), self.hi.get(i)
                full[i] = l if l is not None else h if h is not None else 0
        for u, (c, d) in reversed(self.elim):
            s = c
            for j, v in d.items():
                if j not in full:
                    full[j] = 0
                s += v * full[j]
            full[u] = s
        return full

    def lp(self):
        """Rational feasibility by the bounded-variable simplex; returns a point or raises _Unsat."""
        stats["simplex"] += 1
        lo, hi = self.lo, self.hi
        rows = []
        vars_ = set()
        for c, d in self.les:
            # redundant?
            s = c
            ok = True
            for i, v in d.items():
                b = hi.get(i) if v > 0 else lo.get(i)
                if b is None:
                    ok = False
                    break
                s += v * b
            if ok and s <= 0:
                continue
            rows.append((c, d))
            vars_.update(d)
        val = {}
        for i in vars_:
            l, h = lo.get(i), hi.get(i)
            val[i] = l if l is not None else h if h is not None else 0
        if not rows:
            return val
        # slack s_r = sum d*x  <= -c
        tab = {}
        L = {}
        H = {}
        for i in vars_:
            L[i] = lo.get(i)
            H[i] = hi.get(i)
        for n, (c, d) in enumerate(rows):
            s = ("s", n)
            tab[s] = {i: Fraction(v) for i, v in d.items()}
            L[s] = None
            H[s] = -c
            val[s] = sum(v * val[i] for i, v in d.items())
        order = {}
        for n, v in enumerate(sorted(vars_)):
            order[v] = n
        for n in range(len(rows)):
            order[("s", n)] = len(vars_) + n
        it = 0
        while True:
            it += 1
            if it > 2000:
                return None
            b = None
            for x in tab:
                v = val[x]
                if (L[x] is not None and v < L[x]) or (H[x] is not None and v > H[x]):
                    if b is None or order[x] < order[b]:
                        b = x
            if b is None:
                return val_only(val, vars_)
            row = tab[b]
            low = L[b] is not None and val[b] < L[b]
            target = L[b] if low else H[b]
            p = None
            for x, a in row.items():
                if low:
                    ok = (a > 0 and (H[x] is None or val[x] < H[x])) or (a < 0 and (L[x] is None or val[x] > L[x]))
                else:
                    ok = (a < 0 and (H[x] is None or val[x] < H[x])) or (a > 0 and (L[x] is None or val[x] > L[x]))
                if ok and (p is None or order[x] < order[p]):
                    p = x
            if p is None:
                raise _Unsat()
            # pivot b <-> p
            a = row[p]
            theta = (target - val[b]) / a
            val[b] = target
            val[p] = val[p] + theta
            for x, r in tab.items():
                if x != b:
                    k = r.get(p)
                    if k:
                        val[x] = val[x] + k * theta
            # p = (b - sum others)/a
            new = {b: 1 / a}
            for x, k in row.items():
                if x != p:
                    new[x] = -k / a
            del tab[b]
            for x, r in tab.items():
                k = r.pop(p, None)
                if k:
                    for y, w in new.items():
                        n = r.get(y, 0) + k * w
                        if n:
                            r[y] = n
                        else:
                            r.pop(y, None)
            tab[p] = new


def val_only(val, vars_):
    return {i: val[i] for i in vars_}


def bounds(facts, L):
    """Integer bounds of L under facts (by bisection on emptiness), None if not found within intrinsics."""
    return None
