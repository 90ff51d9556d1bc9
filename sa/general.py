"""Loops generalised to an inductive invariant.

A state at the head of a loop and the states its body leads back to are joined by least general
generalisation: what differs becomes a fresh value, vectors keep their common beginning.  Linear
relations that hold on entry are then kept as long as the body keeps them (a greatest fixpoint), and
the loop is left from the generalised state.  Everything derived from it is inexact, so that it can
show a claim but never refute one.
"""
from . import lin as L
from . import num as N
from .lin import Lin, A, ZERO, atom, get_atom
from .num import c_le, c_eq, Facts
from .interp import St, seglen

MAX_CANDIDATES = 400


class Fail(Exception):
    pass


def run(I, fr, head, loop, states):
    from . import loops
    exits, rets = {}, []
    work = [(s, 0, 0) for s in states]
    rest = []
    while work:
        s, u, n = work.pop(0)
        backs, ex, rs = I.run_region(fr, {head: [s]}, loop, head)
        rets.extend(rs)
        for t, ss in ex.items():
            exits.setdefault(t, []).extend(ss)
        if backs:
            u2 = u + 1 if (ex or rs or len(backs) > 1) else u
            if u2 > I.unroll or n > 5000 or len(work) > 200 + len(states):
                rest.extend(backs)
                continue
            work.extend((b, u2, n + 1) for b in backs)
    if rest:
        for e, r in close(I, fr, head, loop, loops.merge_states(I, fr, head, rest)):
            rets.extend(r)
            for t, ss in e.items():
                exits.setdefault(t, []).extend(ss)
    return exits, rets


def close(I, fr, head, loop, states):
    """Leave a loop from states that were not unrolled further, together if they are many."""
    out = []
    for g in [[s] for s in states] if len(states) <= I.apart else [states]:
        try:
            out.append(generalise(I, fr, head, loop, g))
        except Fail as e:
            cut(I, fr, head, e)
    return out


def cut(I, fr, head, e):
    from . import loops
    if not I.trial:
        I.cuts.add(loops.loop_key(I, fr, head) + (str(e),))


def is_cond(v):
    return v is True or v is False or isinstance(v, tuple) and len(v) > 1 and v[0] in ("le", "eq", "ne", "and", "or")


class Gen:
    """Fresh values of one loop, named by where they are."""

    def __init__(self, I):
        self.frames = {f[1]: f[0] for f in I.stack}
        self.I = I
        self.tag = L.fresh("loop")
        self.fresh = {}       # atom id -> where

    def num(self, path):
        lo, hi = self.range(path)
        a = atom(("gen", self.tag, path), lo, hi, exact=False)
        self.fresh[a.id] = path
        return A(a)

    def range(self, path):
        """The range the type of a place gives."""
        k = path[0]
        if path[-1] == "len":
            return 0, (1 << 63) - 1
        if k[0] == "l" and len(path) == 1 and k[1] in self.frames:
            r = self.I.trange(self.I.F[self.frames[k[1]]]["body"]["locals"][k[2]])
            if r:
                return r
        return None, None

    def flag(self, path):
        a = atom(("gen", self.tag, path), 0, 1, exact=False)
        self.fresh[a.id] = path
        return c_eq(A(a) - 1)

    def lgg(self, I, v, w, path):
        if v == w:
            return v
        if isinstance(v, Lin) and isinstance(w, Lin):
            return self.num(path)
        if is_cond(v) and is_cond(w):
            return self.flag(path)
        if not (isinstance(v, tuple) and isinstance(w, tuple)):
            raise Fail("values of different kinds")
        if v and v[0] == "sym":
            v = I.expand(v)
        if w and w[0] == "sym":
            w = I.expand(w)
        if v == w:
            return v
        if not v or not w or len(v) != len(w):
            raise Fail("values of different kinds")
        if not isinstance(v[0], str):
            return tuple(self.lgg(I, x, y, path + (i,)) for i, (x, y) in enumerate(zip(v, w)))
        if v[0] != w[0]:
            raise Fail("values of different kinds")
        if v[0] == "seq":
            if v[1] != w[1]:
                raise Fail("vectors of different kinds")
            return self.seq(I, v, w, path)
        if v[0] == "en" and v[2] != w[2]:
            raise Fail("different variants")
        if v[0] == "ref" and v[1:] != w[1:]:
            raise Fail("different places")
        return (v[0],) + tuple(self.lgg(I, x, y, path + (i,)) for i, (x, y) in enumerate(zip(v[1:], w[1:])))

    def seq(self, I, v, w, path):
        pre = []
        for x, y in zip(v[2], w[2]):
            if x != y or x[0] == "s" and isinstance(x[1], tuple) and x[1][0] == "genseq":
                break
            pre.append(x)
        tail = ("genseq", A(atom(("gen", self.tag, path + ("key",)), None, None, exact=False)))
        n = self.num(path + ("len",))
        return ("seq", v[1], tuple(pre) + (("s", tail, ZERO, n),))

    # values of the fresh atoms that make the general value v become w
    def match(self, I, v, w, path, out):
        if isinstance(v, Lin):
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0] in self.fresh:
                if not isinstance(w, Lin):
                    raise Fail("values of different kinds")
                old = out.setdefault(v.t[0][0], w)
                return
            if v != w:
                raise Fail("not general enough")
            return
        if is_cond(v):
            if isinstance(v, tuple) and v[0] == "eq" and len(v[1].t) == 1 and v[1].t[0][0] in self.fresh:
                if not is_cond(w):
                    raise Fail("values of different kinds")
                out.setdefault(v[1].t[0][0], w)
                return
            if v != w:
                raise Fail("not general enough")
            return
        if v == w and not (isinstance(v, tuple) and self.mentions(v)):
            return
        if not (isinstance(v, tuple) and isinstance(w, tuple)):
            if v != w:
                raise Fail("not general enough")
            return
        if v and v[0] == "sym":
            v = I.expand(v)
        if w and w[0] == "sym":
            w = I.expand(w)
        if len(v) != len(w):
            raise Fail("not general enough")
        if not v or not isinstance(v[0], str):
            for i, (x, y) in enumerate(zip(v, w)):
                self.match(I, x, y, path + (i,), out)
            return
        if v[0] != w[0]:
            raise Fail("not general enough")
        if v[0] == "seq":
            n = len(v[2]) - 1
            last = v[2][-1] if v[2] else None
            if last and last[0] == "s" and isinstance(last[1], tuple) and last[1][0] == "genseq" and last[3].t and last[3].t[0][0] in self.fresh:
                if v[2][:n] != w[2][:n]:
                    raise Fail("not general enough")
                total = ZERO
                for x in w[2][n:]:
                    total = total + seglen(x)
                out.setdefault(last[3].t[0][0], total)
                return
            if v != w:
                raise Fail("not general enough")
            return
        for i, (x, y) in enumerate(zip(v[1:], w[1:])):
            self.match(I, x, y, path + (i,), out)

    def mentions(self, v):
        if isinstance(v, Lin):
            return any(i in self.fresh for i in L.all_atoms(v))
        if isinstance(v, (tuple, list)):
            return any(self.mentions(x) for x in v)
        return False


def state_keys(I, fr, head, s):
    from . import loops
    m = loops.live_mem(I, fr, head, s)
    d = fr[1]
    # places of finished calls are of no account
    return {k: v for k, v in m.items() if not (k[0] == "l" and k[1] > d)}


def value(I, mem, k):
    """Value of a place, read from its origin if it was never touched."""
    v = mem.get(k)
    if v is None and k[0] in ("in", "k"):
        s = St()
        v = I.load_root(s, k)
    return v


def join(I, G, mem, bm):
    """Generalise mem so that it covers bm; None if it does already."""
    out = dict(mem)
    changed = False
    for k in set(mem) | set(bm):
        if k[0] == "l" and (k not in mem or k not in bm):
            if k in out:
                del out[k]
                changed = True
            continue
        if k[0] == "nd" and mem.get(k) != bm.get(k):
            raise Fail("new inputs in the loop")
        x, y = value(I, mem, k), value(I, bm, k)
        if x is None or y is None:
            if k in out and k[0] not in ("in", "k"):
                del out[k]
                changed = True
            continue
        v = G.lgg(I, x, y, (k,))
        if v != x:
            out[k] = v
            changed = True
    return out if changed else None


def matching(I, G, mem, bm):
    m = {}
    for k, v in mem.items():
        w = value(I, bm, k)
        if w is None:
            raise Fail("not general enough")
        G.match(I, v, w, (k,), m)
    return m


def generalise(I, fr, head, loop, states):
    G = Gen(I)
    bases = [state_keys(I, fr, head, s) for s in states]
    common = set.intersection(*[set(s.facts.set) for s in states])
    facts = Facts(tuple(c for c in states[0].facts.items if c in common))
    if any(s.out != states[0].out for s in states):
        raise Fail("different output")
    cur = states[0].copy()
    cur.nh = max(s.nh for s in states)
    mem = bases[0]
    for b in bases[1:]:
        mem = join(I, G, mem, b) or mem
    for rnd in range(8):
        cur = cur.copy()
        cur.mem = dict(mem)
        cur.approx = True
        cur.facts = facts
        backs = trial(I, fr, head, loop, cur)
        old = mem
        for b in backs:
            if b.out != cur.out:
                raise Fail("output in a loop")
            mem = join(I, G, mem, state_keys(I, fr, head, b)) or mem
        if mem is old:
            break
    else:
        raise Fail("no general shape")
    starts = [matching(I, G, mem, b) for b in bases]
    cands = candidates(I, fr, head, G, mem, list(zip(starts, [s.facts for s in states])), backs)
    for rnd in range(30):
        st = cur.copy()
        st.facts = Facts(facts.items + tuple(cands))
        keep = cands
        backs = trial(I, fr, head, loop, st)
        for b in backs:
            m = matching(I, G, mem, state_keys(I, fr, head, b))
            keep = [c for c in keep if holds(b.facts, c, m)]
        if len(keep) == len(cands):
            break
        cands = keep
    else:
        raise Fail("no invariant")
    if not I.trial:
        from . import loops
        k = loops.loop_key(I, fr, head)
        I.general.add((k[0], k[1], len(G.fresh), len(cands)))
    if len(states) == 1:
        for old, new in laws(I, fr, head, G, mem, starts[0], backs):
            st.mem = {k: replace(v, old, new) for k, v in st.mem.items()}
    _, ex, rs = I.run_region(fr, {head: [st]}, loop, head)
    return ex, rs


def laws(I, fr, head, G, mem, start, backs):
    """Vectors that get one element a pass, the same function of what grows evenly: (tail, tail with known elements)."""
    mems = [state_keys(I, fr, head, b) for b in backs]
    steps = [matching(I, G, mem, m) for m in mems]
    even = {}
    for i in G.fresh:
        ds = set()
        for m in steps:
            d = m.get(i)
            ds.add(d - A(get_atom(i)) if isinstance(d, Lin) else None)
        if len(ds) == 1 and None not in ds and isinstance(start.get(i), Lin):
            even[i] = ds.pop()
    out = []

    def walk(v, ws):
        if not isinstance(v, tuple) or not G.mentions(v):
            return
        if v and v[0] == "seq":
            last = v[2][-1]
            n = len(v[2])
            if last[0] == "s" and last[1][0] == "genseq" and start[last[3].t[0][0]] == ZERO \
                    and all(w[0] == "seq" and len(w[2]) == n + 1 and w[2][:n] == v[2] and w[2][n][0] == "c" for w in ws):
                es = {w[2][n][1] for w in ws}
                if len(es) == 1:
                    e = es.pop()
                    used = {i for i in G.fresh if mentions(e, i)}
                    if all(i in even and even[i].const for i in used):
                        out.append((last[1], law(I, e, {i: (start[i], even[i].c) for i in used})))
            return
        for j, x in enumerate(v):
            if all(isinstance(w, tuple) and len(w) == len(v) for w in ws):
                walk(x, [w[j] for w in ws])
    for k, v in mem.items():
        ws = [value(I, m, k) for m in mems]
        if None not in ws:
            walk(v, [I.expand(w) for w in ws])
    return out


def law(I, e, even):
    name = L.fresh("law")

    def at(I, st, ety, arr, idx):
        return subst_val(e, {i: x0 + idx.scale(d) for i, (x0, d) in even.items()})
    I.acc[name] = at
    return ("acc", name)


def mentions(v, i):
    if isinstance(v, Lin):
        return i in L.all_atoms(v)
    return isinstance(v, tuple) and any(mentions(x, i) for x in v)


def subst_val(v, m):
    if isinstance(v, Lin):
        return L.subst(v, m)
    if is_cond(v):
        return N.c_subst(v, m)
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    return v


def replace(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        return tuple(replace(x, old, new) for x in v)
    return v


def trial(I, fr, head, loop, s):
    I.trial += 1
    try:
        backs, _, _ = I.run_region(fr, {head: [s.copy()]}, loop, head)
    finally:
        I.trial -= 1
    return backs


def subst(c, m):
    """A condition with values for fresh atoms."""
    lin = {i: v for i, v in m.items() if isinstance(v, Lin)}
    return N.c_subst(c, lin)


def holds(facts, c, m):
    for i in L.all_atoms(c[1]):
        v = m.get(i)
        if v is not None and not isinstance(v, Lin):
            return True      # flags carry no relations
    return N.entails(facts, subst(c, m))


def lens(v, out):
    if isinstance(v, Lin):
        if not v.const:
            out.add(v)
    elif isinstance(v, tuple):
        if v and v[0] == "sl":
            lens(v[3], out)
            lens(v[4], out)
            out.add(v[3] + v[4])
        elif v and v[0] == "seq":
            n = ZERO
            for s in v[2]:
                n = n + seglen(s)
            lens(n, out)
        elif v and v[0] in ("st", "en"):
            for x in v[2:]:
                lens(x, out)
        elif v and not isinstance(v[0], str):
            for x in v:
                lens(x, out)


def bitwise(x):
    """Is a value made by bit operations, which no linear relation describes?"""
    return any(get_atom(i).kind in ("xor", "and", "or", "tbl") for i in L.all_atoms(x))


def candidates(I, fr, head, G, mem, starts, backs):
    """Linear relations between fresh and other values that hold on entry."""
    pool = set()
    for v in mem.values():
        lens(v, pool)
    fixed = [p for p in pool if not G.mentions(p) and not bitwise(p)]
    fresh = [i for i, p in G.fresh.items() if all(isinstance(m.get(i), Lin) and not bitwise(m[i]) for m, _ in starts)]
    out = []
    seen = set()

    def add(c):
        if c is True or c is False or c in seen or c[0] in ("and", "or"):
            return
        seen.add(c)
        if len(out) < MAX_CANDIDATES and all(holds(f, c, m) for m, f in starts):
            out.append(c)
    steps = [matching(I, G, mem, state_keys(I, fr, head, b)) for b in backs]
    m0 = starts[0][0]
    for i in fresh:
        x, x0 = A(get_atom(i)), m0[i]
        add(c_le(x0 - x))
        add(c_le(x - x0))
        add(c_le(ZERO - x))
        for b in (255, 65535, (1 << 32) - 1, (1 << 63) - 1):
            add(c_le(x - b))
        for p in fixed:
            add(c_le(x - p))
            add(c_le(p - x))
    # how the values change together
    deltas = {}
    for m in steps:
        for i in fresh:
            d = m.get(i)
            d = d - A(get_atom(i)) if isinstance(d, Lin) else None
            deltas.setdefault(i, set()).add(d.c if d is not None and d.const else None)
    for n, i in enumerate(fresh):
        for j in fresh[:n]:
            x, y, x0, y0 = A(get_atom(i)), A(get_atom(j)), m0[i], m0[j]
            add(c_eq((x - x0) - (y - y0)))
            add(c_eq((x - x0) + (y - y0)))
            add(c_le(x - y))
            add(c_le(y - x))
            for p in fixed:
                add(c_le(x + y - p))
            dx, dy = deltas.get(i, ()), deltas.get(j, ())
            if len(dx) == 1 and len(dy) == 1:
                (a,), (b,) = dx, dy
                if a and b:
                    add(c_eq((x - x0).scale(b) - (y - y0).scale(a)))
    return out
