"""What the contracts guarantee of the values they stand for."""
from . import lin as L
from .lin import A, ZERO, ONE
from .num import c_le, c_eq


def seg_total(segs):
    return sum((ONE if x[0] == "c" else x[3] if x[0] in ("s", "t") else x[2] for x in segs), ZERO)


def length_of(k):
    """Number of descriptors in the list of the key, if it is spoken of."""
    if k == ("none",):
        return ZERO
    a = L._atoms.get(("len", ("f", k, "0")))
    return None if a is None else A(a)


_axioms = {}


def axioms(a):
    """What is known of sizes and lengths of descriptor lists: pairs of a condition, or True, and what follows."""
    if a.kind not in ("dsize", "len"):
        return ()
    r = _axioms.get(a.id)
    if r is None:
        r = ()
        if a.kind == "dsize":
            n = length_of(a.key[1])
            if n is None:
                return ()
            # a descriptor takes at most 257 bytes, or none if it is larger
            r = ((True, c_le(A(a) - n * 257)), (c_eq(n), c_eq(A(a))))
        elif isinstance(a.key[1], tuple) and a.key[1][0] == "f" and isinstance(a.key[1][1], tuple) and a.key[1][1][0] == "parsed":
            _, k, segs = a.key[1][1]
            n, m = length_of(k), seg_total(segs)
            if n is None:
                return ()
            r = ((True, c_le(n - A(a))), (True, c_le(A(a) + A(a) - n - n - m)), (c_le(m - 1), c_eq(A(a) - n)))
            r = tuple(x for x in r if x[1] is not True and x[0] is not False)
        _axioms[a.id] = r
    return r


def axiom_atoms(c):
    """Atoms of the contracts that a condition speaks of or bears on."""
    if not isinstance(c, tuple):
        return ()
    if c[0] in ("and", "or"):
        return axiom_atoms(c[1]) + axiom_atoms(c[2])
    out = ()
    for i in L.all_atoms(c[1]):
        a = L.get_atom(i)
        if a.kind == "dsize":
            out += (i,)
        elif a.kind == "len" and isinstance(a.key[1], tuple) and a.key[1][0] == "f":
            b = L._atoms.get(("dsize", a.key[1][1]))
            out += (i,) if b is None else (i, b.id)
    return out
