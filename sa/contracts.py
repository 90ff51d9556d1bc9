"""Contracts of functions that are checked on their own and used modularly elsewhere."""
from . import lin as L
from .lin import Lin, K, A, ZERO, ONE, atom
from .num import c_le
from . import axioms as X
from . import models as M


def crc(I, st, f, a, at, dty):
    """crc32b as an uninterpreted function of the bytes (its algorithm is property P19)."""
    r = a[0]
    v = I.expand(r)
    while v[0] == "ref":
        x = I.expand(I.read(st, v[1], v[2]))
        if x[0] == "seq":
            v = M.as_slice(I, st, v)
            break
        v = x
    if v[0] == "seq":
        segs = v[2]
    elif v[0] == "sl":
        segs = I.slice_segs(st, v)[1]
    else:
        return None
    return [(A(atom(("crc", segs), 0, 0xFFFFFFFF)), st)]



CRC = {r"mpegts::.*\bcrc32b$": crc}


def slice_of(I, st, v):
    """Segments of a byte slice argument."""
    v = I.expand(v)
    while v[0] == "ref":
        x = I.expand(I.read(st, v[1], v[2]))
        if x[0] == "seq":
            return x[2]
        v = x
    if v[0] == "seq":
        return v[2]
    if v[0] == "sl":
        return I.slice_segs(st, v)[1]
    return None


def list_key(I, st, r):
    """Key that identifies the contents of a descriptor list."""
    v = I.expand(r)
    if v[0] != "ref":
        return None
    x = I.read(st, v[1], v[2])
    if x[0] == "sym":
        return x[2]
    if x[0] != "st":
        return None
    y = x[2][0]
    if y[0] == "sym":
        return y[2][1] if y[2][0] == "f" else ("of", y[2])
    s = I.expand(y)
    if s[0] != "seq":
        return None
    if not s[2]:
        return ("none",)
    if len(s[2]) == 1 and s[2][0][0] == "s":
        k = s[2][0][1]
        return k[1] if k[0] == "f" and s[2][0][2].const else ("of", s[2][0])
    return None


def descs_parse(I, st, f, a, at, dty):
    """Descriptors::parse as an uninterpreted function of the list and the bytes (properties P23, P24)."""
    k = list_key(I, st, a[0])
    segs = slice_of(I, st, a[1])
    if k is None or segs is None:
        return None
    if I.ent(st, c_le(X.seg_total(segs) - 1)):
        return [(("st", dty, ()), st)]
    r = I.expand(a[0])
    ty = I.pointee(at[0])
    I.write(st, r[1], r[2], I.sym(ty, ("parsed", k, segs)))
    return [(("st", dty, ()), st)]


def descs_size(I, st, f, a, at, dty):
    """Descriptors::size as an uninterpreted function of the list (property P26)."""
    k = list_key(I, st, a[0])
    if k is None:
        return None
    if k == ("none",):
        return [(ZERO, st)]
    return [(A(atom(("dsize", k), 0, (1 << 31))), st)]


def descs_assemble(I, st, f, a, at, dty):
    """Descriptors::assemble appends size() bytes that depend on the list only (properties P25, P26)."""
    k = list_key(I, st, a[0])
    if k is None:
        return None
    if k == ("none",):
        return [(ZERO, st)]
    n = A(atom(("dsize", k), 0, (1 << 31)))
    r = I.expand(a[1])
    v = I.expand(I.read(st, r[1], r[2]))
    if v[0] != "seq":
        return None
    I.write(st, r[1], r[2], ("seq", v[1], v[2] + (("s", ("dasm", k), ZERO, n),)))
    return [(n, st)]


DESCS = {
    r"mpegts::.*\bDescriptors::parse$": descs_parse,
    r"mpegts::.*\bDescriptors::size$": descs_size,
    r"mpegts::.*\bDescriptors::assemble$": descs_assemble,
}

TABLES = dict(CRC, **DESCS)


def text_key(I, st, r):
    """Key that identifies a DVB text."""
    v = I.expand(r)
    if v[0] != "ref":
        return None
    x = I.read(st, v[1], v[2])
    if x[0] == "sym":
        return x[2]
    if x[0] != "st":
        return None
    ks = set()
    for y in x[2]:
        if isinstance(y, Lin):
            k = L.get_atom(y.t[0][0]).key if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1 else None
        elif y[0] == "sym":
            k = y[2]
        elif y[0] == "seq" and len(y[2]) == 1 and y[2][0][0] == "s" and y[2][0][2].const:
            k = y[2][0][1]
        else:
            return None
        if not (isinstance(k, tuple) and k[0] == "f"):
            return None
        ks.add(k[1])
    return ks.pop() if len(ks) == 1 else None


def text_from(I, st, f, a, at, dty):
    """StringDVB::from(bytes) as an uninterpreted function of the bytes (property P31)."""
    segs = slice_of(I, st, a[0])
    if segs is None:
        return None
    return [(I.sym(dty, ("dvb", segs)), st)]


def text_size(I, st, f, a, at, dty):
    k = text_key(I, st, a[0])
    if k is None:
        return None
    return [(A(atom(("tsize", k), 0, (1 << 31))), st)]


def text_assemble(I, st, f, a, at, dty):
    """StringDVB::assemble appends size() bytes that depend on the text only (property P31)."""
    k = text_key(I, st, a[0])
    if k is None:
        return None
    n = A(atom(("tsize", k), 0, (1 << 31)))
    r = I.expand(a[1])
    v = I.expand(I.read(st, r[1], r[2]))
    if v[0] != "seq":
        return None
    I.write(st, r[1], r[2], ("seq", v[1], v[2] + (("s", ("tasm", k), ZERO, n),)))
    return [(("st", dty, ()), st)]


TEXT = {
    r"<mpegts::.*\bStringDVB as std::convert::From<&.*\[u8\]>>::from$": text_from,
    r"mpegts::.*\bStringDVB::size$": text_size,
    r"mpegts::.*\bStringDVB::assemble$": text_assemble,
}
