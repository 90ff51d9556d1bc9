"""Abstract interpreter over the monomorphic MIR dumped by the driver.

Values are canonical linear forms over input bytes and fields (lin.py) constrained by a relational domain
(num.py); memory is a finite map of places; byte buffers are ropes of segments (copied input ranges, fills,
single cells).  Traces are partitioned by branch outcome.  Loops are handled in one of two ways, see
loops.py: generalisation to an inductive invariant, or bounded semantic unrolling used to classify alarms.
"""
import re
import signal

from . import lin as L
from .lin import Lin, K, A, ZERO, ONE, atom, get_atom, irange
from . import num as N
from .num import c_le, c_eq, c_ne, c_not, c_and, c_or, Facts
from .axioms import axioms, axiom_atoms

ISIZE_MAX = (1 << 63) - 1


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    pass


class Unmodelled(Exception):
    pass


class Budget(Exception):
    pass


class St:
    """Abstract state of one trace partition."""
    __slots__ = ("mem", "facts", "approx", "tr", "nh", "out")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.approx = False
        self.tr = None
        self.nh = 0
        self.out = ()

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.approx = self.approx
        s.tr = self.tr
        s.nh = self.nh
        s.out = self.out
        return s

    def refine(self, c):
        """States refined by a condition."""
        r = []
        for f in N.assume(self.facts, c):
            s = self.copy()
            s.facts = f
            r.append(s)
        return r


def seglen(s):
    k = s[0]
    return ONE if k == "c" else s[3] if k in ("s", "t") else s[2]


TRANSPARENT = {
    "std::boxed::Box", "std::ptr::Unique", "core::ptr::unique::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit",
    "std::mem::ManuallyDrop", "std::mem::MaybeDangling", "core::mem::maybe_dangling::MaybeDangling",
    "std::num::NonZero", "std::cell::Cell", "std::cell::UnsafeCell",
}
NICHE = "core::num::niche_types::"

PANICS = (
    "core::panicking::", "std::rt::panic_fmt", "std::rt::begin_panic", "std::option::unwrap_failed", "std::option::expect_failed",
    "std::result::unwrap_failed", "core::slice::index::slice_index_fail", "core::slice::copy_from_slice_impl::len_mismatch_fail",
    "core::slice::index::RangeError::report", "alloc::raw_vec::handle_error", "std::alloc::handle_alloc_error", "std::process::abort",
    "core::slice::index::slice_start_index", "core::slice::index::slice_end_index", "core::str::slice_error_fail",
    "std::begin_panic", "core::cell::panic_", "std::vec::Vec::<T, A>::remove::assert_failed", "std::vec::Vec::<T, A>::insert::assert_failed",
    "std::vec::Vec::<T, A>::split_off::assert_failed", "std::vec::Vec::<T, A>::swap_remove::assert_failed",
)


class Interp:
    def __init__(self, prog, mode="G", unroll=2, contracts=None, models=None):
        self.d = prog
        self.T = prog["types"]
        self.F = prog["fns"]
        self.allocs = prog["allocs"]
        self.mode = mode
        self.unroll = unroll
        self.contracts = contracts or {}
        self.ccache = {}
        self.vcache = {}
        self.models = models or {}
        self.stack = []
        self.trial = 0
        self.obl = {}          # key -> [status, kind, info]
        self.alarms = {}       # key -> alarm
        self.notes = {}        # incompleteness notes
        self.fn_seen = set()
        self.seen = set()
        self.uninit = []
        self.calls = 0
        self.blocks = 0
        self.max_blocks = 1000000
        self.max_states = 1500
        self.info = {}         # fn id -> cfg info
        self.acc = {}
        self.hooks = {}
        self.cuts = set()
        self.general = set()   # loops left through an invariant
        self.widened = set()
        self.unit_ty = None
        for i, t in enumerate(self.T):
            if t["k"] == "tuple" and not t["of"]:
                self.unit_ty = i
        self.by_impl = None

    # ------------------------------------------------------------ types
    def tname(self, ty):
        t = self.T[ty]
        return t["name"] if t["k"] == "adt" else t["k"]

    def is_scalar(self, ty):
        return self.T[ty]["k"] in ("int", "char", "bool")

    def trange(self, ty):
        t = self.T[ty]
        if t["k"] == "int":
            b = t["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["s"] else (0, (1 << b) - 1)
        if t["k"] == "char":
            return (0, 0x10FFFF)
        if t["k"] == "bool":
            return (0, 1)
        return None

    def transparent(self, ty):
        t = self.T[ty]
        return t["k"] == "adt" and (t["name"] in TRANSPARENT or t["kind"] == "union" or t["name"].startswith(NICHE))

    def is_vec(self, ty):
        t = self.T[ty]
        return t["k"] == "adt" and t["name"] in ("std::vec::Vec", "alloc::vec::Vec")

    def pointee(self, ty):
        t = self.T[ty]
        if t["k"] in ("ref", "ptr"):
            return t["of"]
        if t["k"] == "adt" and t["name"] in TRANSPARENT:
            if t["name"].endswith("Box") or t["name"].endswith("Unique") or t["name"].endswith("NonNull"):
                return t["args"][0]
        return None

    def is_unsized_seq(self, ty):
        return self.T[ty]["k"] in ("slice", "str")

    # ------------------------------------------------------------ symbolic inputs
    def sym(self, ty, key):
        """Value of type ty named by key, expanded on demand."""
        t = self.T[ty]
        k = t["k"]
        if k == "int" or k == "char":
            lo, hi = self.trange(ty)
            return A(atom(key, lo, hi))
        if k == "bool":
            return c_eq(A(atom(key, 0, 1)) - 1)
        if k == "tuple" and not t["of"]:
            return ("st", ty, ())
        if k in ("fndef",):
            return ("fn", ty)
        return ("sym", ty, key)

    def expand(self, v):
        """One level of expansion of a symbolic value."""
        if not (isinstance(v, tuple) and v and v[0] == "sym"):
            return v
        _, ty, key = v
        t = self.T[ty]
        k = t["k"]
        if k == "adt":
            if self.is_vec(ty):
                ety = t["args"][0]
                n = A(atom(("len", key), 0, ISIZE_MAX // max(1, self.T[ety].get("size") or 1)))
                return ("seq", ety, (("s", key, ZERO, n),))
            if t["name"] == "std::boxed::Box":
                return self.sym_ref(t["args"][0], key)
            if t["kind"] == "struct":
                if self.transparent(ty):
                    return self.sym(t["variants"][0]["fields"][0][1], key)
                return ("st", ty, tuple(self.sym(f[1], ("f", key, f[0])) for f in t["variants"][0]["fields"]))
            return v
        if k == "tuple":
            return ("st", ty, tuple(self.sym(f, ("f", key, i)) for i, f in enumerate(t["of"])))
        if k == "closure":
            return ("st", ty, tuple(self.sym(f, ("f", key, i)) for i, f in enumerate(self.T[t["up"]]["of"])))
        if k == "array":
            return ("seq", t["of"], (("s", key, ZERO, K(t["len"])),))
        if k in ("ref", "ptr"):
            return self.sym_ref(t["of"], key)
        return v

    def sym_ref(self, ty, key):
        t = self.T[ty]
        root = ("in", ty, ("deref", key))
        if t["k"] in ("slice", "str"):
            n = A(atom(("len", key), 0, ISIZE_MAX))
            return ("sl", root, (), ZERO, n)
        if t["k"] == "dyn":
            return ("ref", root, (), ("symdyn", ty, key))
        return ("ref", root, (), None)

    def fresh_key(self, tag):
        """Key of an imprecise value: carries an inexact atom so that everything derived from it is inexact."""
        return ("unk", A(atom((L.fresh(tag),), 0, None, exact=False)))

    def unknown(self, ty, tag="u"):
        return self.sym(ty, self.fresh_key(tag))

    def elem(self, st, ety, arr, idx):
        if isinstance(arr, tuple) and arr and arr[0] == "acc":
            r = self.acc_elem(st, ety, arr, idx)
            if r is not None:
                return r
        if isinstance(idx, Lin) and not idx.const:
            idx = self.pin(st, idx)
        return self.sym(ety, ("el", arr, idx))

    def acc_elem(self, st, ety, arr, idx):
        a = self.acc.get(arr[1])
        if a is None:
            return None
        return a(self, st, ety, arr, idx)

    # ------------------------------------------------------------ memory
    def load_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "in":
                ty = root[1]
                t = self.T[ty]
                if t["k"] in ("slice", "str"):
                    ety = t["of"] if t["k"] == "slice" else self.u8()
                    key = root[2][1]
                    n = A(atom(("len", key), 0, ISIZE_MAX))
                    v = ("seq", ety, (("s", key, ZERO, n),))
                else:
                    v = self.sym(ty, root[2])
            elif root[0] == "k":
                v = self.alloc_val(root)
            elif root[0] == "l":
                fid = next((f[0] for f in self.stack if f[1] == root[1]), None)
                ty = self.F[fid]["body"]["locals"][root[2]] if fid is not None else None
                if ty is None or self.T[ty].get("size") != 0:
                    raise Unmodelled("read of uninitialised local")
                v = self.zst(ty)
            else:
                raise Unmodelled("read of unknown memory %r" % (root,))
            st.mem[root] = v
        return v

    def u8(self):
        for i, t in enumerate(self.T):
            if t["k"] == "int" and t["bits"] == 8 and not t["s"]:
                return i
        raise Unmodelled("no u8")

    def alloc_val(self, root):
        """Constant memory: ("k", alloc, off, ty[, len])"""
        _, al, off, ty = root[:4]
        a = self.allocs[al]
        if a["k"] != "mem" and a["k"] != "static":
            raise Unmodelled("constant allocation kind " + a["k"])
        mem = a["a"]
        if mem is None:
            raise Unmodelled("opaque static")
        b = bytes.fromhex(mem["b"].replace("-", "0"))
        prov = {o: x for o, x in mem["p"]}
        if len(root) > 4:
            n = root[4]
            es = max(1, self.T[ty]["size"]) if self.T[ty].get("size") else 0
            return self.const_seq(ty, b, prov, off, n)
        return self.decode(ty, b, prov, off)

    def const_seq(self, ety, b, prov, off, n):
        es = self.T[ety].get("size") or 0
        segs = []
        if n > 24 and self.T[ety]["k"] == "int" and not self.T[ety]["s"]:
            vals = tuple(int.from_bytes(b[off + i * es: off + (i + 1) * es], "little") for i in range(n))
            if len(set(vals)) == 1:
                return ("seq", ety, (("f", K(vals[0]), K(n)),))
            return ("seq", ety, (("t", vals, ZERO, K(n)),))
        for i in range(n):
            segs.append(("c", self.decode(ety, b, prov, off + i * es)))
        return ("seq", ety, tuple(segs))

    def decode(self, ty, b, prov, off):
        t = self.T[ty]
        k = t["k"]
        if k == "int":
            return K(int.from_bytes(b[off:off + t["bits"] // 8], "little", signed=bool(t["s"])))
        if k == "bool":
            return b[off] != 0
        if k == "char":
            return K(int.from_bytes(b[off:off + 4], "little"))
        if k == "array":
            return self.const_seq(t["of"], b, prov, off, t["len"])
        if k == "tuple":
            if not t["of"]:
                return ("st", ty, ())
            return ("st", ty, tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["of"], t["offs"])))
        if k in ("ref", "ptr") or (k == "adt" and t["name"] in ("std::ptr::NonNull",)):
            of = self.pointee(ty)
            if off not in prov:
                return ("ptrint", K(int.from_bytes(b[off:off + 8], "little")))
            al = prov[off]
            o = int.from_bytes(b[off:off + 8], "little")
            a = self.allocs[al]
            if a["k"] == "fn":
                return ("fnid", a["f"])
            if self.is_unsized_seq(of):
                n = int.from_bytes(b[off + 8:off + 16], "little")
                ety = self.T[of]["of"] if self.T[of]["k"] == "slice" else self.u8()
                return ("sl", ("k", al, o, ety, n), (), ZERO, K(n))
            if self.T[of]["k"] == "dyn":
                return ("ref", ("k", al, o, of), (), ("dynconst", prov.get(off + 8)))
            return ("ref", ("k", al, o, of), (), None)
        if k == "adt":
            if t["kind"] == "struct" and t["offs"]:
                fs = t["variants"][0]["fields"]
                if self.transparent(ty):
                    return self.decode(fs[0][1], b, prov, off)
                return ("st", ty, tuple(self.decode(f[1], b, prov, off + o) for f, o in zip(fs, t["offs"])))
            if t["kind"] == "struct":
                if not t["variants"][0]["fields"]:
                    return ("st", ty, ())
                if t["size"] == 0:
                    return ("st", ty, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
            if t["kind"] == "enum":
                if all(not v["fields"] for v in t["variants"]):
                    if len(t["variants"]) == 1:
                        return ("en", ty, 0, ())
                    x = int.from_bytes(b[off:off + t["size"]], "little")
                    for i, v in enumerate(t["variants"]):
                        if v["discr"] & ((1 << (8 * t["size"])) - 1) == x:
                            return ("en", ty, i, ())
                return self.decode_enum(ty, b, prov, off)
        if k == "fndef":
            return ("fn", ty)
        if t.get("size") == 0:
            return self.zst(ty)
        raise Unmodelled("constant of type " + t["d"])

    def decode_enum(self, ty, b, prov, off):
        t = self.T[ty]
        lay = t.get("lay")
        if lay is None:
            raise Unmodelled("constant of type " + t["d"])
        if "single" in lay:
            n = lay["single"]
            if t["size"] == 0:
                return ("en", ty, n, tuple(self.zst(f[1]) for f in t["variants"][n]["fields"]))
            raise Unmodelled("constant of type " + t["d"])
        w = lay["size"]
        x = int.from_bytes(b[off + lay["tag"]:off + lay["tag"] + w], "little")
        if lay["niche"] is None:
            n = [i for i, v in enumerate(t["variants"]) if v["discr"] & ((1 << (8 * w)) - 1) == x][0]
        else:
            u, lo, hi, start = lay["niche"]
            n = u
            if off + lay["tag"] not in prov and (x - start) & ((1 << (8 * w)) - 1) <= hi - lo:
                n = lo + ((x - start) & ((1 << (8 * w)) - 1))
        return ("en", ty, n, tuple(self.decode(f[1], b, prov, off + o) for f, o in zip(t["variants"][n]["fields"], lay["voffs"][n])))

    def zst(self, ty):
        t = self.T[ty]
        if t["k"] == "fndef":
            return ("fn", ty)
        if t["k"] == "tuple":
            return ("st", ty, tuple(self.zst(x) for x in t["of"]))
        if t["k"] == "closure":
            return ("st", ty, tuple(self.zst(x) for x in self.T[t["up"]]["of"]))
        if t["k"] == "array":
            return ("seq", t["of"], ())
        if t["k"] == "adt":
            if self.transparent(ty):
                fs = t["variants"][0]["fields"]
                return self.zst(fs[0][1]) if fs else ("st", ty, ())
            if t["kind"] == "enum":
                return ("en", ty, 0, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"])) if t["variants"] else ("st", ty, ())
            return ("st", ty, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
        return ("st", ty, ())

    def get(self, st, v, path):
        for p in path:
            v = self.get1(st, v, p)
        return v

    def get1(self, st, v, p):
        k = p[0]
        if k == "f":
            v = self.expand(v)
            if v[0] == "st":
                return v[2][p[1]]
            if v[0] == "en":
                return v[3][p[1]]
            if v[0] == "uninit":
                return ("uninit",)
            raise Unmodelled("field of %s" % (v[0],))
        if k == "v":
            v = self.expand(v)
            if v[0] == "en":
                if v[2] != p[1]:
                    raise Dead()
                return v
            if v[0] == "sym":
                return self.as_variant(v, p[1])
            raise Unmodelled("variant of %s" % (v[0],))
        if k == "ix":
            v = self.expand(v)
            if v[0] != "seq":
                raise Unmodelled("index of %s" % (v[0],))
            return self.seq_get(st, v, p[1])
        if k == "sub":
            v = self.expand(v)
            if v[0] != "seq":
                raise Unmodelled("part of %s" % (v[0],))
            return ("seq", v[1], self.subsegs(st, v[2], p[1], p[2]))
        raise Unmodelled("projection %r" % (p,))

    def as_variant(self, v, n):
        _, ty, key = v
        var = self.T[ty]["variants"][n]
        return ("en", ty, n, tuple(self.sym(f[1], ("f", ("v", key, var["name"]), f[0])) for f in var["fields"]))

    def put(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        k = p[0]
        v = self.expand(v)
        if k == "f":
            if v[0] == "st":
                fs = list(v[2])
                fs[p[1]] = self.put(st, fs[p[1]], path[1:], new)
                return ("st", v[1], tuple(fs))
            if v[0] == "en":
                fs = list(v[3])
                fs[p[1]] = self.put(st, fs[p[1]], path[1:], new)
                return ("en", v[1], v[2], tuple(fs))
            raise Unmodelled("store to field of %s" % v[0])
        if k == "v":
            if v[0] == "sym":
                v = self.as_variant(v, p[1])
            if v[0] == "en" and v[2] != p[1]:
                raise Dead()
            return self.put(st, v, path[1:], new)
        if k == "ix":
            if v[0] != "seq":
                raise Unmodelled("store to element of %s" % v[0])
            if path[1:]:
                old = self.seq_get(st, v, p[1])
                new = self.put(st, old, path[1:], new)
            return self.seq_set(st, v, p[1], new)
        if k == "sub":
            new = self.expand(self.put(st, self.get1(st, v, p), path[1:], new))
            if new[0] != "seq":
                raise Unmodelled("store to part")
            left, rest = self.split_at(st, v[2], p[1])
            _, right = self.split_at(st, rest, p[2])
            return ("seq", v[1], self.norm_segs(left + new[2] + right))
        raise Unmodelled("store projection %r" % (p,))

    def read(self, st, root, path):
        return self.get(st, self.load_root(st, root), path)

    def write(self, st, root, path, v):
        if path:
            base = st.mem.get(root)
            if base is None and root[0] == "l":
                base = self.uninit_local(root)
            if base is None:
                base = self.load_root(st, root)
            v = self.put(st, base, path, v)
        st.mem[root] = v

    def uninit_local(self, root):
        # a struct local initialised field by field
        fr = self.stack[root[1]] if root[1] < len(self.stack) else None
        if fr is None:
            raise Unmodelled("partial initialisation")
        ty = self.F[fr[0]]["body"]["locals"][root[2]]
        t = self.T[ty]
        if t["k"] == "tuple":
            return ("st", ty, tuple(("uninit",) for _ in t["of"]))
        if t["k"] == "adt" and t["kind"] == "struct":
            return ("st", ty, tuple(("uninit",) for _ in t["variants"][0]["fields"]))
        raise Unmodelled("partial initialisation of " + t["d"])

    # ------------------------------------------------------------ ropes
    def ent(self, st, c):
        return c is True or (c is not False and N.entails(st.facts, c))

    def decide(self, st, c):
        """Truth of c in the state, or split the state on it."""
        if c is True or c is False:
            return c
        if N.entails(st.facts, c):
            return True
        if N.entails(st.facts, c_not(c)):
            return False
        raise Split(c)

    def seq_len(self, v):
        n, k = ZERO, 0
        for s in v[2]:
            m = ONE if s[0] == "c" else seglen(s)
            if m.t:
                n = n + m
            else:
                k += m.c
        return n + k if k else n

    def norm_segs(self, segs):
        out = []
        for s in segs:
            n = seglen(s)
            if n.const and n.c == 0:
                continue
            if out:
                p = out[-1]
                if s[0] == "s" and p[0] == "s" and s[1] == p[1] and p[2] + p[3] == s[2]:
                    out[-1] = ("s", p[1], p[2], p[3] + s[3])
                    continue
                if s[0] == "t" and p[0] == "t" and s[1] is p[1] and p[2] + p[3] == s[2]:
                    out[-1] = ("t", p[1], p[2], p[3] + s[3])
                    continue
                if s[0] == "f" and p[0] == "f" and s[1] == p[1]:
                    out[-1] = ("f", p[1], p[2] + s[2])
                    continue
                if s[0] == "f" and p[0] == "c" and s[1] == p[1]:
                    out[-1] = ("f", p[1], s[2] + 1)
                    continue
                if s[0] == "c" and p[0] == "f" and s[1] == p[1]:
                    out[-1] = ("f", p[1], p[2] + 1)
                    continue
            out.append(s)
        return tuple(out)

    def cut(self, s, off, n):
        """Sub-segment [off, off+n) of a segment."""
        if s[0] == "s":
            return ("s", s[1], s[2] + off, n)
        if s[0] == "t":
            return ("t", s[1], s[2] + off, n)
        if s[0] == "f":
            return ("f", s[1], n)
        return s

    def split_at(self, st, segs, off):
        """Segments before and after off (0 <= off <= len is known)."""
        i = 0
        if off.const:
            k = off.c
            while i < len(segs) and k > 0:
                n = ONE if segs[i][0] == "c" else seglen(segs[i])
                if n.t or n.c > k:
                    break
                k -= n.c
                i += 1
            off = K(k)
        left = list(segs[:i])
        pre = ZERO
        for i in range(i, len(segs)):
            s = segs[i]
            d = off - pre
            if d.const and d.c == 0:
                return tuple(left), tuple(segs[i:])
            n = seglen(s)
            r = d - n
            if r.const:
                inside = r.c < 0
            elif i == len(segs) - 1:
                # the last segment: off <= len is known
                inside = True
            else:
                inside = not self.decide(st, c_le(n - d))
            if inside:
                if self.decide(st, c_eq(d)):
                    return tuple(left), tuple(segs[i:])
                if s[0] == "c":
                    if i == len(segs) - 1:
                        return tuple(left) + (s,), ()
                    raise Dead()
                l = self.cut(s, ZERO, d)
                rest = n - d
                if not rest.const and self.ent(st, c_eq(rest)):
                    rest = ZERO
                rr = () if rest.const and rest.c == 0 else (self.cut(s, d, rest),)
                return tuple(left) + (l,), rr + tuple(segs[i + 1:])
            left.append(s)
            pre = pre + n
        return tuple(left), ()

    def subsegs(self, st, segs, off, n):
        _, r = self.split_at(st, segs, off)
        l, _ = self.split_at(st, r, n)
        return self.norm_segs(l)

    def seq_get(self, st, v, idx):
        _, ety, segs = v
        pre = ZERO
        i = 0
        nseg = len(segs)
        while i < nseg:
            s = segs[i]
            d = idx - pre
            n = seglen(s)
            # group consecutive cells
            if s[0] == "c":
                j = i
                while j < nseg and segs[j][0] == "c":
                    j += 1
                cnt = j - i
                if d.const:
                    if 0 <= d.c < cnt:
                        return segs[i + d.c][1]
                    pre = pre + cnt
                    i = j
                    continue
                if j < nseg and not self.decide(st, c_le(d - (cnt - 1))):
                    pre = pre + cnt
                    i = j
                    continue
                return self.select(st, ety, [x[1] for x in segs[i:j]], d)
            if i == nseg - 1 or (d.const and n.const and d.c < n.c) or self.decide(st, c_le(d - n + 1)):
                if s[0] == "f":
                    return s[1]
                if s[0] == "t":
                    return self.table(st, s[1], s[2] + d)
                return self.elem(st, ety, s[1], s[2] + d)
            pre = pre + n
            i += 1
        raise Dead()

    def table(self, st, vals, d):
        if d.const:
            if not 0 <= d.c < len(vals):
                raise Dead()
            return K(vals[d.c])
        vals = tuple(vals)
        if len(vals) <= 4096:
            lo, hi = self.bounds(st, d)
            lo, hi = max(lo if lo is not None else 0, 0), min(hi if hi is not None else len(vals) - 1, len(vals) - 1)
            if lo <= hi and min(vals[lo:hi + 1]) == max(vals[lo:hi + 1]):
                return K(vals[lo])
            if lo <= hi:
                return L.app("tbl", vals, d, lo=min(vals), hi=max(vals))
        return L.app("tbl", vals, d, lo=min(vals), hi=max(vals)) if len(vals) <= 4096 else L.app("tbl", hash(vals), d, lo=min(vals), hi=max(vals))

    def select(self, st, ety, vals, d):
        feas = []
        for i, x in enumerate(vals):
            if N.check(st.facts, [c_eq(d - i)])[0] != "unsat":
                feas.append(i)
        if not feas:
            raise Dead()
        if len(feas) == 1 or all(vals[i] == vals[feas[0]] for i in feas):
            return vals[feas[0]]
        if len(feas) <= 12 or not self.is_scalar(ety):
            raise Split(c_eq(d - feas[0]))
        if all(isinstance(x, Lin) and x.const for x in vals):
            return self.table(st, tuple(x.c for x in vals), d)
        return self.unknown(ety, "sel")

    def seq_set(self, st, v, idx, x):
        _, ety, segs = v
        l, r = self.split_at(st, segs, idx)
        if not r:
            raise Dead()
        s = r[0]
        n = seglen(s)
        if s[0] == "c":
            rest = r[1:]
        else:
            m = n - 1
            if not m.const and self.ent(st, c_eq(m)):
                m = ZERO
            if m.const and m.c == 0:
                rest = r[1:]
            else:
                rest = (self.cut(s, ONE, m),) + r[1:]
        return ("seq", ety, l + (("c", x),) + rest)

    def seq_replace(self, st, v, off, n, new):
        """Replace elements [off, off+n) by the segments new (of length n)."""
        _, ety, segs = v
        l, r = self.split_at(st, segs, off)
        _, r = self.split_at(st, r, n)
        return ("seq", ety, self.norm_segs(l + tuple(new) + r))

    def slice_segs(self, st, sl):
        v = self.expand(self.read(st, sl[1], sl[2]))
        if v[0] != "seq":
            raise Unmodelled("slice of %s" % v[0])
        return v[1], self.subsegs(st, v[2], sl[3], sl[4])

    # ------------------------------------------------------------ numbers
    def as_lin(self, st, v):
        if isinstance(v, Lin):
            return v
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, tuple) and v[0] in ("le", "eq", "ne", "and", "or"):
            if v[0] == "eq" and len(v[1].t) == 1 and v[1].t[0][1] == 1 and v[1].c == -1:
                a = get_atom(v[1].t[0][0])
                if (a.lo, a.hi) == (0, 1):
                    return A(a)
            if v[0] in ("eq", "ne"):
                # a single bit compared with zero or with one
                X = v[1]
                lo, hi = irange(X)
                if (lo, hi) == (0, 1):
                    return 1 - X if v[0] == "eq" else X
                if (lo, hi) == (-1, 0):
                    return X + 1 if v[0] == "eq" else X.scale(-1)
            return ONE if self.decide(st, v) else ZERO
        if isinstance(v, tuple) and v[0] == "en":
            return K(self.T[v[1]]["variants"][v[2]]["discr"])
        if isinstance(v, tuple) and v[0] == "ptrint":
            return v[1]
        raise Unmodelled("not a number: %r" % (v[0] if isinstance(v, tuple) else v,))

    def as_cond(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, tuple) and v[0] in ("le", "eq", "ne", "and", "or"):
            return v
        if isinstance(v, Lin):
            return c_ne(v)
        raise Unmodelled("not a condition: %r" % (v,))

    def wrap(self, st, x, ty):
        """x reduced to the range of an integer type."""
        lo, hi = self.trange(ty)
        a, b = irange(x)
        if a is not None and b is not None and lo <= a and b <= hi:
            return x
        if x.const:
            m = hi - lo + 1
            return K((x.c - lo) % m + lo)
        if not (a is not None and a >= lo and b is not None and b > hi and N.check(st.facts, [c_le(hi + 1 - x)])[0] == "sat"):
            if self.ent(st, c_le(lo - x)) and self.ent(st, c_le(x - hi)):
                return x
        m = hi - lo + 1
        r = L.mod(x - lo, m) + lo if lo else L.mod(x, m)
        return r

    def concretize(self, st, x, limit=70):
        if x.const:
            return x.c
        lo, hi = irange(x)
        r = N.check(st.facts, [])
        m = N.check(st.facts, [c_le(x - (hi if hi is not None else 1 << 64))])
        # look for the possible values by probing
        if lo is None or hi is None or hi - lo > 4096:
            b = self.bounds(st, x)
            lo, hi = b
        if lo is None or hi is None:
            raise Unmodelled("symbolic shift amount")
        vals = []
        for v in range(lo, hi + 1):
            if N.check(st.facts, [c_eq(x - v)])[0] != "unsat":
                vals.append(v)
                if len(vals) > limit:
                    raise Unmodelled("too many values")
        if not vals:
            raise Dead()
        if len(vals) == 1:
            return vals[0]
        raise Split(c_eq(x - vals[0]))

    def bounds(self, st, x, cap=4096):
        """Constant bounds of x in the state, within cap."""
        def feas(c):
            return N.check(st.facts, [c])[0] != "unsat"
        lo, hi = irange(x)
        if hi is None or hi > cap:
            h = 1
            while h <= cap and feas(c_le(h - x)):
                h *= 2
            hi = None if h > cap else h
        if hi is not None:
            a, b = (lo if lo is not None else -cap), hi
            while a < b:
                m = (a + b) // 2
                if feas(c_le(m + 1 - x)):
                    a = m + 1
                else:
                    b = m
            hi = b
        if lo is not None and hi is not None:
            a, b = lo, hi
            while a < b:
                m = (a + b) // 2
                if feas(c_le(x - m)):
                    b = m
                else:
                    a = m + 1
            lo = a
        return lo, hi

    def binop(self, st, op, x, y, ty, rty=None):
        t = self.T[ty]
        k = t["k"]
        if k == "bool":
            x, y = self.as_cond(x), self.as_cond(y)
            if op == "BitAnd":
                return c_and(x, y)
            if op == "BitOr":
                return c_or(x, y)
            if op in ("Eq", "Ne", "BitXor"):
                a = self.decide(st, x) if not isinstance(x, bool) else x
                r = y if a else c_not(y)
                return r if op == "Eq" else c_not(r)
            x, y = self.as_lin(st, x), self.as_lin(st, y)
        elif k in ("int", "char"):
            x, y = self.as_lin(st, x), self.as_lin(st, y)
        else:
            return self.ptr_op(st, op, x, y, ty)
        if op == "Eq":
            return c_eq(x - y)
        if op == "Ne":
            return c_ne(x - y)
        if op == "Lt":
            return c_le(x - y + 1)
        if op == "Le":
            return c_le(x - y)
        if op == "Gt":
            return c_le(y - x + 1)
        if op == "Ge":
            return c_le(y - x)
        if op == "Cmp":
            if self.decide(st, c_le(x - y + 1)):
                return ("en", rty, 0, ())
            return ("en", rty, 1 if self.decide(st, c_eq(x - y)) else 2, ())
        if op in ("Add", "AddUnchecked"):
            return self.wrap(st, x + y, ty) if op == "Add" else x + y
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(st, x - y, ty) if op == "Sub" else x - y
        if op in ("Mul", "MulUnchecked"):
            r = self.product(st, x, y)
            return self.wrap(st, r, ty) if op == "Mul" else r
        w, s = t["bits"], t["s"]
        if op in ("Div", "Rem"):
            return self.divrem(st, op, x, y, s)
        if op in ("Shl", "ShlUnchecked"):
            n = self.concretize(st, y) & (w - 1)
            if s:
                return self.wrap(st, x.scale(1 << n), ty)
            return L.shl(x, n, w)
        if op in ("Shr", "ShrUnchecked"):
            n = self.concretize(st, y) & (w - 1)
            return L.div(x, 1 << n)
        if op in ("BitAnd", "BitOr", "BitXor"):
            o = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op]
            if s:
                m = 1 << w
                r = L.bitop(o, L.mod(x, m), L.mod(y, m), w)
                return self.wrap(st, r, ty)
            if not x.const and not y.const:
                r = L.bitop(o, x, y, w)
                if any(get_atom(i).kind in ("and", "or", "xor") for i in L.all_atoms(r)):
                    r = L.bitop(o, x, y, w, self.width(st, x, w), self.width(st, y, w))
                return r
            return L.bitop(o, x, y, w)
        raise Unmodelled("operator " + op)

    def width(self, st, x, w):
        """Number of bits that may be set in x in the state."""
        if x.const:
            return x.c.bit_length()
        if N.check(st.facts, [c_le((1 << (w - 1)) - x)])[0] == "sat":
            return w
        a, b = 0, w
        while a < b:
            m = (a + b) // 2
            if self.ent(st, c_le(x - (1 << m) + 1)):
                b = m
            else:
                a = m + 1
        return b

    def pin(self, st, x):
        """x as a constant when the state allows one value only."""
        if x.const:
            return x
        comp, _ = st.facts.component(N.num_atoms(x))
        if not comp:
            return x
        r = N.check(st.facts, [("le", x - (1 << 200))])
        if r[0] != "sat":
            return x
        v = x.c
        for i, c in x.t:
            if i not in r[1]:
                return x
            v += c * r[1][i]
        if self.ent(st, c_eq(x - v)):
            return K(v)
        return x

    def product(self, st, x, y):
        """Product; for two variables the McCormick envelope over their ranges is recorded."""
        if x.const or y.const:
            return x * y
        x, y = self.pin(st, x), self.pin(st, y)
        r = x * y
        if x.const or y.const:
            return r
        (xl, xh), (yl, yh) = self.range_of(st, x), self.range_of(st, y)
        for c in (c_le(ZERO - (r - x.scale(yl) - y.scale(xl) + xl * yl)),
                  c_le(ZERO - (r - x.scale(yh) - y.scale(xh) + xh * yh)),
                  c_le(r - x.scale(yl) - y.scale(xh) + xh * yl),
                  c_le(r - x.scale(yh) - y.scale(xl) + xl * yh)):
            if c is not True:
                st.facts = st.facts.with_(c)
        return r

    def range_of(self, st, x):
        """Tight constant range of x in the state (by bisection)."""
        lo, hi = irange(x)
        def best(lo, hi, f):
            while lo < hi:
                m = (lo + hi) // 2
                if f(m):
                    hi = m
                else:
                    lo = m + 1
            return hi
        h = best(lo, hi, lambda m: self.ent(st, c_le(x - m)))
        l = -best(-h, -lo, lambda m: self.ent(st, c_le(ZERO - x - m)))
        return l, h

    def quotient(self, st, x, c):
        """x / c, without the part of x that the facts of the state keep below c."""
        q = L.div(x, c)
        if c & (c - 1) == 0:
            return q
        r = L.mk(x.c % c, dict((i, v) for i, v in x.t if v % c))
        if r.t and len(r.t) < 12 and any(get_atom(i).kind == "div" and get_atom(i).args[-1] == c for i, _ in q.t) \
                and self.ent(st, c_le(r.scale(-1))) and self.ent(st, c_le(r - (c - 1))):
            return L.div(x - r, c)
        return q

    def divrem(self, st, op, x, y, signed):
        y = self.pin(st, y)
        if not signed:
            if not (y.const and y.c > 0):
                if y.const:
                    raise Dead()
                return L.divl(x, y) if op == "Div" else L.reml(x, y)
            q = self.quotient(st, x, y.c)
            return q if op == "Div" else x - q.scale(y.c)
        if not y.const or y.c == 0:
            raise Unmodelled("signed division by a variable")
        neg = not self.decide(st, c_le(x.scale(-1)))
        a = x.scale(-1) if neg else x
        q = L.div(a, abs(y.c))
        r = a - q.scale(abs(y.c))
        if op == "Rem":
            return r.scale(-1) if neg else r
        return q.scale(-1) if neg != (y.c < 0) else q

    def ptr_op(self, st, op, x, y, ty):
        if op in ("Eq", "Ne"):
            if x == y:
                return op == "Eq"
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "en" and y[0] == "en":
                return (x[2] == y[2]) == (op == "Eq")
        raise Unmodelled("pointer operator " + op)

    def checked(self, st, op, x, y, ty):
        x, y = self.as_lin(st, x), self.as_lin(st, y)
        lo, hi = self.trange(ty)
        if op == "Add":
            r = x + y
        elif op == "Sub":
            r = x - y
        elif op == "Mul":
            r = self.product(st, x, y)
        else:
            raise Unmodelled("checked " + op)
        ok = c_and(c_le(lo - r), c_le(r - hi))
        return r, c_not(ok)

    def cast_int(self, st, v, src, dst):
        if self.T[src]["k"] == "adt":
            v = self.discr(st, v, src)
        x = self.as_lin(st, v)
        if self.T[dst]["k"] == "bool":
            return c_ne(x)
        if self.T[dst]["k"] == "other" or self.trange(dst) is None:
            raise Unmodelled("cast to " + self.T[dst]["d"])
        return self.wrap(st, x, dst)

    def discr(self, st, v, ty=None):
        v = self.expand(v)
        if v[0] == "en":
            return K(self.T[v[1]]["variants"][v[2]]["discr"])
        if v[0] == "sym":
            t = self.T[v[1]]
            vs = t["variants"]
            x = A(atom(("variant", v[2]), 0, len(vs) - 1))
            if all(w["discr"] == i for i, w in enumerate(vs)):
                return x
            return K(vs[self.concretize(st, x)]["discr"])
        raise Unmodelled("discriminant of %s" % v[0])

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, pl):
        """Resolve a place to ("loc", root, path, ty, meta) or ("slc", root, path, off, len, ty)."""
        lo, projs = pl
        body = self.F[fr[0]]["body"]
        ty = body["locals"][lo]
        cur = ("loc", ("l", fr[1], lo), (), ty, None)
        for p in projs:
            k = p[0]
            if k == "*":
                if cur[0] == "slc":
                    raise Unmodelled("deref of slice place")
                v = self.read(st, cur[1], cur[2])
                v = self.expand(v)
                to = self.pointee(cur[3])
                if not isinstance(v, tuple):
                    raise Unmodelled("deref of non-pointer")
                if v[0] == "ref":
                    cur = ("loc", v[1], v[2], to, v[3])
                elif v[0] == "sl":
                    cur = ("slc", v[1], v[2], v[3], v[4], to)
                else:
                    raise Unmodelled("deref of %s" % (v[0],))
            elif k == "f":
                if cur[0] == "slc":
                    raise Unmodelled("field of slice place")
                if self.transparent(cur[3]):
                    cur = ("loc", cur[1], cur[2], p[2], cur[4])
                else:
                    cur = ("loc", cur[1], cur[2] + (("f", p[1]),), p[2], None)
            elif k == "v":
                cur = ("loc", cur[1], cur[2] + (("v", p[1]),), cur[3], None)
            elif k == "i":
                ix = self.as_lin(st, self.read(st, ("l", fr[1], p[1]), ()))
                cur = self.index_place(cur, ix)
            elif k == "ci":
                off, mn, fe = p[1], p[2], p[3]
                if fe:
                    n = self.place_len(st, cur)
                    ix = n - off
                else:
                    ix = K(off)
                cur = self.index_place(cur, ix)
            elif k == "ss":
                frm, to_, fe = p[1], p[2], p[3]
                n = self.place_len(st, cur)
                end = n - to_ if fe else K(to_)
                if cur[0] == "slc":
                    cur = ("slc", cur[1], cur[2], cur[3] + frm, end - frm, cur[5])
                else:
                    cur = ("slc", cur[1], cur[2], K(frm), end - frm, cur[3])
            else:
                raise Unmodelled("projection " + k)
        return cur

    def elem_ty(self, ty):
        t = self.T[ty]
        if t["k"] in ("slice", "array"):
            return t["of"]
        if t["k"] == "str":
            return self.u8()
        if self.is_vec(ty):
            return t["args"][0]
        raise Unmodelled("element type of " + t["d"])

    def index_place(self, cur, ix):
        if cur[0] == "slc":
            return ("loc", cur[1], cur[2] + (("ix", cur[3] + ix),), self.elem_ty(cur[5]), None)
        return ("loc", cur[1], cur[2] + (("ix", ix),), self.elem_ty(cur[3]), None)

    def place_len(self, st, cur):
        if cur[0] == "slc":
            return cur[4]
        t = self.T[cur[3]]
        if t["k"] == "array":
            return K(t["len"])
        v = self.expand(self.read(st, cur[1], cur[2]))
        return self.seq_len(v)

    def read_place(self, st, fr, pl):
        if not pl[1]:
            root = ("l", fr[1], pl[0])
            v = st.mem.get(root)
            if v is None:
                ty = self.F[fr[0]]["body"]["locals"][pl[0]]
                if self.T[ty].get("size") == 0:
                    return self.zst(ty)
                raise Unmodelled("uninitialised local _%d" % pl[0])
            return v
        cur = self.place(st, fr, pl)
        if cur[0] == "slc":
            raise Unmodelled("unsized read")
        if self.T[cur[3]].get("size") == 0 and self.T[cur[3]]["k"] != "dyn":
            return self.zst(cur[3])
        return self.read(st, cur[1], cur[2])

    def write_place(self, st, fr, pl, v):
        if not pl[1]:
            st.mem[("l", fr[1], pl[0])] = v
            return
        cur = self.place(st, fr, pl)
        if cur[0] == "slc":
            raise Unmodelled("unsized write")
        self.write(st, cur[1], cur[2], v)

    def place_ty(self, fr, pl):
        ty = self.F[fr[0]]["body"]["locals"][pl[0]]
        for p in pl[1]:
            k = p[0]
            if k == "*":
                ty = self.pointee(ty)
            elif k == "f":
                ty = p[2]
            elif k in ("i", "ci"):
                ty = self.elem_ty(ty)
            elif k == "ss":
                pass
        return ty

    def op_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        return o[1]

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if k == "c":
            b = bytes.fromhex(o[2]["b"].replace("-", "0"))
            return self.decode(o[1], b, {x: y for x, y in o[2]["p"]}, 0)
        if k == "z":
            return self.zst(o[1])
        if k == "n":
            return K(o[2])
        if str(o[2]).startswith("RuntimeChecks("):
            return "Overflow" in o[2]
        raise Unmodelled("constant " + str(o[2])[:60])

    def make_ref(self, cur):
        if cur[0] == "slc":
            return ("sl", cur[1], cur[2], cur[3], cur[4])
        return ("ref", cur[1], cur[2], cur[4])

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "bin":
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            if r[1] == "Offset":
                return self.ptr_offset(st, x, y)
            return self.binop(st, r[1], x, y, self.op_ty(fr, r[2]), dty)
        if k == "cbin":
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            v, ovf = self.checked(st, r[1], x, y, self.op_ty(fr, r[2]))
            return ("st", dty, (v, ovf))
        if k == "un":
            x = self.operand(st, fr, r[2])
            if r[1] == "Not":
                ty = self.op_ty(fr, r[2])
                if self.T[ty]["k"] == "bool":
                    return c_not(self.as_cond(x))
                lo, hi = self.trange(ty)
                x = self.as_lin(st, x)
                return (hi - x) if lo == 0 else (-1 - x)
            if r[1] == "Neg":
                return self.wrap(st, self.as_lin(st, x).scale(-1), dty)
            if r[1] == "PtrMetadata":
                x = self.expand(x)
                if x[0] == "sl":
                    return x[4]
                raise Unmodelled("metadata of %s" % x[0])
            raise Unmodelled("operator " + r[1])
        if k == "cast":
            return self.cast(st, fr, r[1], r[2], r[3])
        if k in ("ref", "addr"):
            return self.make_ref(self.place(st, fr, r[2]))
        if k == "discr":
            cur = self.place(st, fr, r[1])
            return self.discr(st, self.read(st, cur[1], cur[2]))
        if k == "len":
            return self.place_len(st, self.place(st, fr, r[1]))
        if k == "agg":
            return self.aggregate(st, fr, r[1], [self.operand(st, fr, o) for o in r[2]], dty, r[2])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = self.T[dty]["len"]
            return ("seq", self.T[dty]["of"], (("f", v, K(n)),) if n else ())
        raise Unmodelled("rvalue " + str(r)[:80])

    def aggregate(self, st, fr, kind, vals, dty, ops):
        if kind[0] == "adt":
            ty, var = kind[1], kind[2]
            t = self.T[ty]
            if t["kind"] == "union" or self.transparent(ty):
                return vals[0] if vals else ("st", ty, ())
            if t["kind"] == "struct":
                return ("st", ty, tuple(vals))
            return ("en", ty, var, tuple(vals))
        if kind[0] == "array":
            return ("seq", self.T[dty]["of"], self.norm_segs(tuple(("c", v) for v in vals)))
        if kind[0] == "rawptr":
            p, m = vals
            p = self.expand(p)
            if self.pointee(dty) is not None and self.is_unsized_seq(self.pointee(dty)):
                return self.fat(st, p, m)
            return p
        return ("st", dty, tuple(vals))

    def fat(self, st, p, m):
        if p[0] == "sl":
            return ("sl", p[1], p[2], p[3], self.as_lin(st, m))
        if p[0] == "ref":
            # pointer to an element: rebuild the slice
            if p[2] and p[2][-1][0] == "ix":
                return ("sl", p[1], p[2][:-1], p[2][-1][1], self.as_lin(st, m))
            return ("sl", p[1], p[2], ZERO, self.as_lin(st, m))
        if p[0] == "ptrint" or m == ZERO:
            return ("sl", ("zero",), (), ZERO, ZERO)
        raise Unmodelled("fat pointer from %s" % p[0])

    def copy_elems(self, st, src, dst, n):
        """Copy n elements from one pointer into a sequence to another."""
        src, dst, n = self.expand(src), self.expand(dst), self.as_lin(st, n)
        if n.const and n.c == 0:
            return
        for p in (src, dst):
            if p[0] != "ref" or not p[2] or p[2][-1][0] != "ix":
                raise Unmodelled("copy between pointers")
        _, segs = self.slice_segs(st, ("sl", src[1], src[2][:-1], src[2][-1][1], n))
        v = self.expand(self.read(st, dst[1], dst[2][:-1]))
        if v[0] != "seq":
            raise Unmodelled("copy between pointers")
        if not self.ent(st, c_le(dst[2][-1][1] + n - self.seq_len(v))):
            raise Unmodelled("copy past the end of a sequence")
        self.write(st, dst[1], dst[2][:-1], self.seq_replace(st, v, dst[2][-1][1], n, segs))

    def ptr_offset(self, st, p, n):
        p = self.expand(p)
        n = self.as_lin(st, n)
        if p[0] == "ref" and p[2] and p[2][-1][0] == "ix":
            return ("ref", p[1], p[2][:-1] + (("ix", p[2][-1][1] + n),), None)
        if p[0] == "sl":
            return ("ref", p[1], p[2] + (("ix", p[3] + n),), None)
        raise Unmodelled("pointer arithmetic")

    def cast(self, st, fr, kind, o, dty):
        sty = self.op_ty(fr, o)
        v = self.operand(st, fr, o)
        if kind == "IntToInt":
            return self.cast_int(st, v, sty, dty)
        if kind.startswith("PointerCoercion(Unsize"):
            return self.unsize(st, v, sty, dty)
        if kind.startswith("PointerCoercion(ReifyFn") or kind.startswith("PointerCoercion(ClosureFn") or kind.startswith("PointerCoercion(UnsafeFn"):
            return v
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute") or kind.startswith("PointerCoercion"):
            st_, dt = self.T[sty], self.T[dty]
            if st_["k"] in ("int", "char", "bool") and dt["k"] in ("int", "char", "bool"):
                x = self.as_lin(st, v)
                if dt["k"] == "bool":
                    return c_ne(x)
                return self.wrap(st, x, dty)
            v = self.expand(v)
            if dt["k"] == "int" and not isinstance(v, Lin):
                if v[0] == "seq":
                    return self.bytes_to_int(st, v, dty)
                raise Unmodelled("address as integer")
            if isinstance(v, Lin):
                if dt["k"] == "int" or self.transparent(dty):
                    return v
                return ("ptrint", v) if self.pointee(dty) is not None else self.transmute_in(st, v, dty)
            pd = self.pointee(dty)
            ps = self.pointee(sty)
            if pd is not None and ps is not None and self.T[pd]["k"] == "array" and self.T[ps]["k"] != "array":
                # pointer to an array inside of a slice
                n = K(self.T[pd]["len"])
                if v[0] == "sl" and self.T[ps].get("of") == self.T[pd]["of"]:
                    return ("ref", v[1], v[2] + (("sub", v[3], n),), None)
                if v[0] == "ref" and ps == self.T[pd]["of"] and v[2] and v[2][-1][0] == "ix":
                    return ("ref", v[1], v[2][:-1] + (("sub", v[2][-1][1], n),), None)
                raise Unmodelled("pointer to " + self.T[pd]["d"])
            if pd is not None and ps is not None and self.T[ps]["k"] == "array" and self.T[pd]["k"] != "array" and v[0] == "ref" and pd == self.T[ps]["of"]:
                return ("ref", v[1], v[2] + (("ix", ZERO),), None)
            if v[0] == "sl" and pd is not None and not self.is_unsized_seq(pd):
                # slice pointer to element pointer
                return ("ref", v[1], v[2] + (("ix", v[3]),), None)
            return v
        raise Unmodelled("cast " + kind)

    def transmute_in(self, st, v, dty):
        t = self.T[dty]
        if t["k"] == "array" and self.T[t["of"]]["k"] == "int" and self.T[t["of"]]["bits"] == 8:
            n = t["len"]
            return ("seq", t["of"], tuple(("c", L.mod(L.div(v, 1 << (8 * i)), 256)) for i in range(n)))
        if t["k"] == "adt" and t["kind"] == "struct" and len(t["variants"][0]["fields"]) >= 1:
            fs = t["variants"][0]["fields"]
            return ("st", dty, (v,) + tuple(self.zst(f[1]) for f in fs[1:]))
        if t["k"] == "adt" and t["name"] == "std::option::Option" and self.T[t["args"][0]].get("name") == "std::num::NonZero":
            return ("en", dty, 0, ()) if self.decide(st, c_eq(v)) else ("en", dty, 1, (v,))
        raise Unmodelled("transmute to " + t["d"])

    def bytes_to_int(self, st, v, dty):
        n = self.seq_len(v)
        if not n.const:
            raise Unmodelled("transmute")
        r = ZERO
        for i in range(n.c):
            r = r + self.as_lin(st, self.seq_get(st, v, K(i))).scale(1 << (8 * i))
        return self.wrap(st, r, dty)

    def unsize(self, st, v, sty, dty):
        v = self.expand(v)
        a, b = self.pointee(sty), self.pointee(dty)
        if a is None or b is None:
            raise Unmodelled("unsize " + self.T[dty]["d"])
        if v[0] == "ref" and self.T[a]["k"] == "array" and self.is_unsized_seq(b):
            return ("sl", v[1], v[2], ZERO, K(self.T[a]["len"]))
        if self.T[b]["k"] == "dyn":
            if self.T[a]["k"] == "dyn":
                return v
            if v[0] == "sl":
                raise Unmodelled("unsize slice to dyn")
            return ("ref", v[1], v[2], ("dyn", a))
        raise Unmodelled("unsize " + self.T[dty]["d"])

    # ------------------------------------------------------------ obligations
    def where(self, crate="mpegts"):
        """Innermost frame in the analysed crate, else the innermost frame."""
        for fid, d, sp in reversed(self.stack):
            if self.F[fid]["krate"] == crate:
                return self.F[fid]["name"], sp
        if self.stack:
            fid, d, sp = self.stack[-1]
            return self.F[fid]["name"], sp
        return "?", None

    def in_target(self):
        return any(self.F[f[0]]["krate"] == "mpegts" for f in self.stack)

    def oblige(self, st, cond, kind, what, payload=None):
        """Check that cond holds; returns the states in which it does."""
        fn, sp = self.where()
        key = (kind, fn, what)
        ok = cond is True or (cond is not False and self.entails_cong(st, cond))
        if not self.trial:
            o = self.obl.setdefault(key, ["ok", 0, sp])
            o[1] += 1
        if ok:
            return [st]
        if cond is False and self.contradictory(st):
            return []
        if not self.trial:
            bad = self.definite(st, c_not(cond))
            if bad and self.found(key) and signal.getitimer(signal.ITIMER_REAL)[0] > 20:
                # finish soon
                signal.setitimer(signal.ITIMER_REAL, 20)
            if self.obl[key][0] != "definite":
                self.obl[key][0] = "definite" if bad else "alarm"
                a = {"kind": kind, "fn": fn, "what": what, "span": sp, "definite": bool(bad), "cond": repr(cond)[:300],
                     "model": bad or None, "trace": self.trace(st), "stack": [(self.F[f[0]]["name"], f[2]) for f in self.stack],
                     "payload": payload, "approx": st.approx}
                self.alarms[key] = a
        if cond is False:
            return []
        return st.refine(cond)

    def found(self, key):
        """Does this alarm settle the outcome?"""
        return False

    def trace(self, st):
        out = []
        t = st.tr
        while t is not None and len(out) < 40:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def entails_cong(self, st, cond):
        if N.entails(st.facts, cond):
            return True
        f = st.facts
        eqs = self.congruence(st, cond)
        for e in eqs:
            f = f.with_(e)
        if eqs and N.entails(f, cond):
            return True
        return self.entails_cases(f, cond)

    def entails_cases(self, f, cond):
        """Entailment by cases: which of the elements spoken of is the one the condition speaks of?"""
        if not isinstance(cond, tuple) or cond[0] not in ("le", "eq", "ne"):
            return False
        mine = [a for a in map(get_atom, L.all_atoms(cond[1])) if a.kind == "el" and any(not x.const for x in L.skel(a)[1])]
        if not mine or len(mine) > 2:
            return False
        ats = set()
        for c in f.items:
            L.all_atoms(c[1], ats)
        pairs = []
        for a in mine:
            k, h = L.skel(a)
            for i in sorted(ats):
                b = get_atom(i)
                if b is not a and b.kind == "el" and L.skel(b)[0] == k:
                    ds = [x - y for x, y in zip(h, L.skel(b)[1])]
                    if any(d.const and d.c for d in ds):
                        continue
                    ds = [d for d in ds if not d.const]
                    if len(ds) == 1:
                        pairs.append((a, b, ds[0]))
        if not pairs or len(pairs) > 16:
            return False
        for a, b, d in pairs:
            e = c_eq(d)
            if e is False or N.check(f, [e])[0] == "unsat":
                continue
            g = f
            for x in (e, c_eq(A(a) - A(b))):
                if x is not True:
                    g = g.with_(x)
            if not N.entails(g, cond):
                return False
            if e is True:
                return True
            if N.check(f, [c_not(e)])[0] == "unsat":
                return True
            f = f.with_(c_not(e))
        return N.entails(f, cond)

    def prune(self, states, c):
        """Drop states that contradict themselves through elements whose indices became equal."""
        if c is True or not states or self.trial:
            return states
        out = []
        lists = [a for a in map(get_atom, axiom_atoms(c)) if axioms(a)]
        for s in states:
            for a in lists:
                for g, e in axioms(a):
                    if s.facts is not None and (g is True or N.entails(s.facts, g)):
                        s.facts = s.facts.with_(e) if N.check(s.facts, [e])[0] != "unsat" else None
            if lists and s.facts is None:
                continue
            if s.facts is not None and self.varying(s.facts):
                f = s.facts
                dead = False
                for e in self.congruence(s, None):
                    if N.check(f, [e])[0] == "unsat":
                        dead = True
                        break
                    f = f.with_(e)
                if dead:
                    continue
                s.facts = f
            out.append(s)
        return out

    def varying(self, facts):
        """Do the facts speak of an element with a computed index that may meet another one?"""
        r = self.vcache.get(facts.items)
        if r is None:
            ats = set()
            for c in facts.items:
                L.all_atoms(c[1], ats)
            seen, var = {}, set()
            for i in ats:
                a = get_atom(i)
                if a.kind not in ("div", "mul", "quot", "rem", "and", "or", "xor"):
                    k, h = L.skel(a)
                    seen[k] = seen.get(k, 0) + 1
                    if any(not x.const for x in h):
                        var.add(k)
            r = any(seen[k] > 1 for k in var)
            if len(self.vcache) > 20000:
                self.vcache.clear()
            self.vcache[facts.items] = r
        return r

    def key_eq(self, st, a, b):
        """Do two keys name the same value in the state?"""
        if a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            return d.c == 0 if d.const else self.entails_cong(st, c_eq(d))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.key_eq(st, x, y) for x, y in zip(a, b))
        return False

    def contradictory(self, st):
        """Does the state contradict itself through equal applications?"""
        f = st.facts
        for e in self.congruence(st, None):
            if N.check(f, [e])[0] == "unsat":
                return True
            f = f.with_(e)
        return False

    def congruence(self, st, cond):
        """Equalities between element atoms whose indices are equal in the state."""
        ats = set()

        def walk(c):
            if isinstance(c, tuple):
                if c[0] in ("and", "or"):
                    walk(c[1])
                    walk(c[2])
                else:
                    L.all_atoms(c[1], ats)
        if cond is None:
            for c in st.facts.items:
                walk(c)
        walk(cond)
        sets = [L.all_atoms(c[1]) for c in st.facts.items]
        n = -1
        while n != len(ats):
            n = len(ats)
            shapes = {L.shape(i) for i in ats}
            shapes.discard(None)
            rest = []
            for s in sets:
                if not ats.isdisjoint(s) or any(L.shape(i) in shapes for i in s):
                    ats |= s
                else:
                    rest.append(s)
            sets = rest
        els = {}
        for i in ats:
            a = get_atom(i)
            if a.kind not in ("div", "mul", "quot", "rem", "and", "or", "xor"):
                k, h = L.skel(a)
                if h:
                    els.setdefault(k, []).append((a, h))
        eqs = []
        same = {}
        f = st.facts
        for g in els.values():
            for i in range(len(g)):
                for j in range(i):
                    ds = [x - y for x, y in zip(g[i][1], g[j][1])]
                    if any(d.const and d.c for d in ds) or g[i][0] is g[j][0]:
                        continue
                    if all(d.const or N.entails(f, c_eq(d)) for d in ds):
                        e = c_eq(A(g[i][0]) - A(g[j][0]))
                        eqs.append(e)
                        same[g[i][0].id] = A(g[j][0])
                        f = f.with_(e)
                        break
        for c in st.facts.items:
            # elements of sequences found equal
            if c[0] == "eq" and len(c[1].t) == 1 and get_atom(c[1].t[0][0]).kind == "beq":
                e = self.elements_equal(f, get_atom(c[1].t[0][0]), ats)
                eqs.extend(e)
                for x in e:
                    f = f.with_(x)
        for i in sorted(ats):
            for g, c in axioms(get_atom(i)):
                if c not in f.set and (g is True or N.entails(f, g)):
                    eqs.append(c)
                    f = f.with_(c)
        if same:
            # quotients of what became equal
            rep = {}
            for i in sorted(ats):
                a = get_atom(i)
                if a.kind == "div":
                    b = rep.setdefault((L.subst(a.key[1], same), a.key[2]), a)
                    if b is not a:
                        eqs.append(c_eq(A(a) - A(b)))
        return [e for e in eqs if e is not True and e not in st.facts.set]

    def elements_equal(self, f, a, ats):
        """Equalities of the elements at the same place of two equal sequences, each of one piece."""
        if any(len(s) != 1 or s[0][0] != "s" for s in a.key[1:]):
            return []
        (_, ka, oa, n), (_, kb, ob, _) = a.key[1][0], a.key[2][0]
        els = [get_atom(i) for i in sorted(ats)]
        els = [e for e in els if e.kind == "el"]
        eqs = []
        for x in els:
            for y in els:
                if x is not y and x.key[1] == ka and y.key[1] == kb:
                    i = x.key[2] - oa
                    if N.entails(f, c_eq(i - y.key[2] + ob)) and N.entails(f, c_and(c_le(ZERO - i), c_le(i - n + 1))):
                        eqs.append(c_eq(A(x) - A(y)))
        return [e for e in eqs if e is not True]

    def definite(self, st, neg):
        """A model showing that the negated condition is reachable, when the partition is exact."""
        if st.approx:
            return None
        if neg is True:
            fs = [st.facts]
        elif neg is False:
            return None
        else:
            fs = N.assume(st.facts, neg)
        for f in fs:
            m = self.model(f)
            if m is not None:
                return {repr(get_atom(i)): v for i, v in m.items() if get_atom(i).kind != "div"} or {"any": 0}
        return None

    def model(self, f, depth=3):
        if not all(L.exact(c[1]) for c in f.items):
            return None
        m = {}
        done = set()
        for c in f.items:
            ats = N.num_atoms(c[1])
            if ats <= done:
                continue
            comp, seen = f.component(ats)
            done |= seen
            r = N.check(f, [c])
            if r[0] != "sat":
                return None
            m.update(r[1])
        ok = self.model_ok(m)
        if ok is True:
            return m
        if isinstance(ok, list) and depth:
            for c in ok:
                for g in N.assume(f, c):
                    r = self.model(g, depth - 1)
                    if r is not None:
                        return r
            return None
        if ok and depth:
            # one element twice: look for a model with two different ones
            for x, y in zip(*ok):
                for c in (c_le(x - y + 1), c_le(y - x + 1)):
                    if c is False or c is True:
                        continue
                    for g in N.assume(f, c):
                        r = self.model(g, depth - 1)
                        if r is not None:
                            return r
        return None

    def model_ok(self, m):
        """Applications of one function to equal arguments must have equal values; else their arguments, if known.
        What the contracts say of an atom must hold; else the conditions of which one must."""
        seen = {}
        ropes = {}

        def ev(X):
            s = X.c
            for i, v in X.t:
                if i in m:
                    s += v * m[i]
                else:
                    a = get_atom(i)
                    if a.kind == "div":
                        y = ev(a.args[1])
                        if y is None:
                            return None
                        s += v * (y // a.args[2])
                    else:
                        return None
            return s

        def truth(c):
            x = ev(c[1])
            return None if x is None else x <= 0 if c[0] == "le" else (x == 0) == (c[0] == "eq")
        for i, v in m.items():
            a = get_atom(i)
            for g, c in axioms(a):
                if (g is True or truth(g)) and truth(c) is False:
                    return [c] if g is True else [c, c_not(g)]
            if a.kind == "tbl":
                x = ev(a.key[2])
                if x is None:
                    return False
                if isinstance(a.key[1], tuple) and (not 0 <= x < len(a.key[1]) or a.key[1][x] != v):
                    return False
            elif a.kind in ("mul", "quot", "rem"):
                x, y = ev(a.key[1]), ev(a.key[2])
                if x is None or y is None:
                    return False
                if a.kind == "mul" and x * y != v:
                    return False
                if a.kind == "quot" and (y == 0 or x // y != v):
                    return False
                if a.kind == "rem" and (y == 0 or x % y != v):
                    return False
            elif a.kind in ("and", "or", "xor") and isinstance(a.key[1], frozenset):
                xs = [ev(b) for b in a.key[1]]
                if any(x is None for x in xs):
                    return False
                r = all(xs) if a.kind == "and" else any(xs) if a.kind == "or" else sum(xs) % 2
                if int(r) != v:
                    return False
            elif a.kind != "div":
                k, h = L.skel(a)
                if h:
                    xs = tuple(ev(x) for x in h)
                    if a.kind == "crc" or "parsed" in repr(a.key):
                        # bytes described in different ways may still be equal
                        if ropes.setdefault(a.kind, v) != v:
                            return False
                    if any(x is None for x in xs):
                        continue
                    w, g = seen.setdefault((k, xs), (v, h))
                    if w != v:
                        return g, h
        return True

    def note(self, what):
        if not self.trial:
            fn, sp = self.where()
            self.notes.setdefault((what, fn), sp)

    # ------------------------------------------------------------ control flow
    def cfg(self, fid):
        r = self.info.get(fid)
        if r is None:
            r = _Cfg(self, self.F[fid]["body"])
            self.info[fid] = r
        return r

    def call_body(self, fid, args, st):
        """Analyse a function body on argument values; list of (return value, state)."""
        f = self.F[fid]
        body = f["body"]
        depth = len(self.stack)
        if depth > 60:
            raise Unmodelled("call depth")
        self.fn_seen.add(fid)
        self.calls += 1
        st = st.copy()
        fr = (fid, depth)
        if body.get("spread", -1) > 0:
            sp = body["spread"]
            # the last argument is a tuple spread over the locals
            tup = args[-1]
            args = args[:-1]
            for i, v in enumerate(args):
                st.mem[("l", depth, i + 1)] = v
            st.mem[("l", depth, sp)] = tup
        else:
            if len(args) != body["argc"]:
                if len(args) == 2 and body["argc"] != 2 or f.get("closure"):
                    tup = self.expand(args[-1])
                    args = list(args[:-1]) + list(tup[2])
                if len(args) != body["argc"]:
                    raise Unmodelled("argument count of " + f["name"])
            for i, v in enumerate(args):
                st.mem[("l", depth, i + 1)] = v
        self.stack.append((fid, depth, body["bb"][0]["sp"]))
        try:
            _, _, rets = self.run_region(fr, {0: [st]}, None, None)
        finally:
            self.stack.pop()
        out = []
        rty = body["locals"][0]
        for s in rets:
            v = s.mem.get(("l", depth, 0))
            if v is None:
                v = self.zst(rty)
            for k in [k for k in s.mem if k[0] == "l" and k[1] >= depth]:
                del s.mem[k]
            out.append((v, s))
        return out

    def run_region(self, fr, pend, region, head):
        """Explore blocks of region from pending states; returns (back states, exits, returns)."""
        cfg = self.cfg(fr[0])
        order = cfg.order
        backs, rets = [], []
        exits = {}
        pend = {b: list(s) for b, s in pend.items()}
        first = True
        while pend:
            b = min(pend, key=lambda x: order[x])
            states = pend.pop(b)
            if b in cfg.loops and not (b == head and first):
                lp = cfg.loops[b]
                ex, rs = self.run_loop(fr, b, lp, states)
                rets.extend(rs)
                for t, ss in ex.items():
                    self.route(t, ss, region, head, pend, exits, backs)
                continue
            first = False
            if len(states) > self.max_states:
                states = self.merge(fr, b, states)
            for s in states:
                for t, s2 in self.step_block(fr, b, s):
                    if t is None:
                        rets.append(s2)
                    else:
                        self.route(t, [s2], region, head, pend, exits, backs)
        return backs, exits, rets

    def route(self, t, states, region, head, pend, exits, backs):
        if t == head:
            backs.extend(states)
        elif region is not None and t not in region:
            exits.setdefault(t, []).extend(states)
        else:
            pend.setdefault(t, []).extend(states)

    def run_loop(self, fr, head, loop, states):
        from . import loops
        return loops.run(self, fr, head, loop, states)

    def merge(self, fr, b, states):
        from . import loops
        return loops.merge_states(self, fr, b, states)

    def step_block(self, fr, b, st):
        self.blocks += 1
        if self.blocks > self.max_blocks:
            raise Budget("block budget")
        self.seen.add((fr[0], b))
        bb = self.F[fr[0]]["body"]["bb"][b]
        ns = len(bb["s"])
        work = [(st.copy(), 0)]
        out = []
        n = 0
        while work:
            s, i = work.pop()
            n += 1
            if n > 400:
                raise Budget("splits in one block")
            try:
                while i < ns:
                    x = bb["s"][i]
                    if x[0] == "=":
                        self.stack[-1] = (fr[0], fr[1], x[3] if len(x) > 3 and x[3] else bb["sp"])
                        dty = self.place_ty(fr, x[1])
                        v = self.rvalue(s, fr, x[2], dty)
                        self.write_place(s, fr, x[1], v)
                    elif x[0] == "dead":
                        s.mem.pop(("l", fr[1], x[1]), None)
                    elif x[0] == "assume":
                        c = self.as_cond(self.operand(s, fr, x[1]))
                        rs = s.refine(c)
                        if not rs:
                            raise Dead()
                        for r in rs[1:]:
                            work.append((r, i + 1))
                        s = rs[0]
                    elif x[0] == "sd":
                        raise Unmodelled("set discriminant")
                    elif x[0] == "cpno":
                        self.copy_elems(s, *[self.operand(s, fr, o) for o in x[1:4]])
                    i += 1
                out.extend(self.terminator(fr, bb, s))
            except Split as e:
                for c in (e.cond, c_not(e.cond)):
                    for r in self.prune(s.refine(c), c):
                        work.append((r, i))
            except Dead:
                pass
            except Unmodelled as e:
                self.note("unmodelled: %s" % e)
        return out

    def terminator(self, fr, bb, st):
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            self.drop(st, fr, t[1])
            return [(t[2], st)]
        if k == "switch":
            return self.switch(fr, bb, t, st)
        if k == "assert":
            self.stack[-1] = (fr[0], fr[1], t[5])
            c = self.as_cond(self.operand(st, fr, t[1]))
            if not t[2]:
                c = c_not(c)
            what = t[3][0]
            if what == "overflow":
                what = "arithmetic overflow in " + str(t[3][1]) if len(t[3]) > 1 else "arithmetic overflow"
            elif what == "bounds":
                what = "index out of bounds"
            elif what in ("div0", "rem0"):
                what = "division by zero"
            kind = "panic" if self.F[fr[0]]["krate"] == "mpegts" or self.in_target() else "harness"
            return [(t[4], s) for s in self.oblige(st, c, kind, what)]
        if k == "call":
            return self.call(fr, bb, t, st)
        raise Unmodelled("terminator " + k)

    def drop(self, st, fr, pl):
        pass

    def switch(self, fr, bb, t, st):
        v = self.operand(st, fr, t[1])
        out = []
        rest = st
        isb = not isinstance(v, Lin)
        if isb:
            v = self.as_cond(v)
        live = [st]
        krate = self.F[fr[0]]["krate"]
        for val, tgt in t[2]:
            if isb:
                c = v if val else c_not(v)
            else:
                c = c_eq(v - val)
            nl = []
            for s in live:
                for r in self.prune(s.refine(c), c):
                    if c is not True and krate != "core" and krate != "alloc" and krate != "std":
                        r.tr = (r.tr, (self.F[fr[0]]["name"], bb["sp"], repr(c)[:120]))
                    out.append((tgt, r))
                nl.extend(self.prune(s.refine(c_not(c)), c_not(c)))
            live = nl
            if not live:
                break
        if t[3] is not None and t[3] >= 0:
            for s in live:
                out.append((t[3], s))
        return out

    def callee(self, st, fr, o):
        """(fn id, receiver value or None) of a call operand."""
        ty = self.op_ty(fr, o)
        t = self.T[ty]
        if t["k"] == "fndef":
            if t.get("fn") is None:
                raise Unmodelled("unresolved call " + t["d"])
            return t["fn"]
        v = self.operand(st, fr, o)
        v = self.expand(v)
        if v[0] == "fn":
            return self.T[v[1]]["fn"]
        if v[0] == "fnid":
            return v[1]
        raise Unmodelled("indirect call")

    def call(self, fr, bb, t, st):
        _, func, args, dest, target, span, unwind = t
        self.stack[-1] = (fr[0], fr[1], span)
        fid = self.callee(st, fr, func)
        vals = [self.operand(st, fr, a) for a in args]
        atys = [self.op_ty(fr, a) for a in args]
        dty = self.place_ty(fr, dest)
        rs = self.invoke(st, fid, vals, atys, dty)
        out = []
        for v, s in rs:
            if target is None or target < 0:
                continue
            try:
                self.write_place(s, fr, dest, v)
            except Split:
                raise Unmodelled("split at call return")
            out.append((target, s))
        return out

    def invoke(self, st, fid, vals, atys, dty):
        f = self.F[fid]
        name, dfn = f["name"], f["def"]
        h = self.hooks.get(dfn.split("::")[-1]) if f["krate"] == "roots" else None
        if h:
            return h(self, st, f, vals, atys, dty)
        c = self.find_contract(f)
        if c:
            r = c(self, st, f, vals, atys, dty)
            if r is not None:
                return r
        if f["kind"] == "intrinsic":
            m = self.models.get("intrinsic:" + (f.get("intrinsic") or dfn.split("::")[-1]))
            if m:
                return m(self, st, f, vals, atys, dty)
        m = self.models.get(dfn)
        if m is None:
            m = self.match_model(f)
        if m:
            r = m(self, st, f, vals, atys, dty)
            if r is not None:
                return r
        if f.get("ctor") is not None and self.T[dty]["k"] == "adt":
            if self.T[dty]["kind"] == "enum":
                return [(("en", dty, f["ctor"], tuple(vals)), st)]
            if self.T[dty]["kind"] == "struct":
                return [(vals[0] if self.transparent(dty) else ("st", dty, tuple(vals)), st)]
        if f.get("subst") is not None:
            return self.call_body(f["subst"], vals, st)
        if any(dfn.startswith(p) for p in PANICS):
            self.panic(st, f, vals)
            return []
        if f["kind"].startswith("virtual"):
            return self.virtual(st, f, vals, atys, dty)
        if f["body"] is None:
            raise Unmodelled("call of " + name)
        if dfn.endswith("::precondition_check"):
            return [(("st", self.unit_ty, ()), st)]
        if dfn.split("::")[-1].startswith("{closure#") and len(vals) == 2:
            # the arguments of a closure come as a tuple
            tup = self.expand(vals[1])
            if isinstance(tup, tuple) and tup[0] == "st" and self.T[tup[1]]["k"] == "tuple":
                vals = [vals[0]] + list(tup[2])
        return self.call_body(fid, vals, st)

    def match_model(self, f):
        return None

    def find_contract(self, f):
        k = id(f)
        if k not in self.ccache:
            c = None
            for pat, fn in self.contracts.items():
                if isinstance(pat, tuple):
                    if f.get("trait") == pat[0] and f["method"] == pat[1] and pat[2] in (None, self.self_name(f)):
                        c = fn
                elif re.match(pat, f["def"]):
                    c = fn
            self.ccache[k] = c
        return self.ccache[k]

    def self_name(self, f):
        return f["self_ty"]

    def panic(self, st, f, vals):
        msg = ""
        try:
            v = vals[0] if vals else None
            if isinstance(v, tuple) and v[0] == "sl":
                msg = self.const_str(st, v)
        except (Unmodelled, Split, Dead):
            pass
        what = "panic" + (": " + msg if msg else "")
        d = f["def"]
        if "unwrap_failed" in d or "expect_failed" in d:
            what = "unwrap of None or Err"
        elif "slice_index" in d or "RangeError" in d:
            what = "slice range out of bounds"
        elif "len_mismatch" in d:
            what = "slice length mismatch"
        kind = "panic" if self.in_target() else "harness"
        self.oblige(st, False, kind, what)

    def const_str(self, st, sl):
        ety, segs = self.slice_segs(st, sl)
        out = []
        for s in segs:
            if s[0] == "c" and s[1].const:
                out.append(s[1].c)
            elif s[0] == "f" and s[2].const and s[1].const:
                out.extend([s[1].c] * s[2].c)
            elif s[0] == "t" and s[2].const and s[3].const:
                out.extend(s[1][s[2].c:s[2].c + s[3].c])
            else:
                return ""
        return bytes(out).decode("utf8", "replace")

    def virtual(self, st, f, vals, atys, dty):
        v = self.expand(vals[0])
        if v[0] == "ref" and v[3] and v[3][0] == "dyn":
            fid = self.vt_method(v[3][1], self.T[f["args"][0]]["d"], int(f["kind"].split(":")[1]))
            if fid is None:
                raise Unmodelled("virtual call " + f["name"] + " on " + self.T[v[3][1]]["d"])
            vals = [("ref", v[1], v[2], None)] + vals[1:]
            return self.invoke(st, fid, vals, atys, dty)
        raise Unmodelled("virtual call " + f["name"])

    def vt_method(self, ty, dyn, idx):
        """Function behind a vtable slot."""
        if self.by_impl is None:
            self.by_impl = {}
            for t, d, ids in self.d.get("vtables", []):
                self.by_impl[(t, self.T[d]["d"].split(" + ")[0])] = ids
        ids = self.by_impl.get((ty, dyn.split(" + ")[0]))
        return ids[idx] if ids is not None and idx < len(ids) else None


class _Cfg:
    """Reverse post-order and natural loops of a body."""

    def __init__(self, I, body):
        n = len(body["bb"])
        self.succ = [succs(b["t"]) for b in body["bb"]]
        order = {}
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        on = {0}
        back = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in on:
                    back.append((b, s))
                if s not in seen:
                    seen.add(s)
                    on.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                stack.pop()
                on.discard(b)
                post.append(b)
        for i, b in enumerate(reversed(post)):
            order[b] = i
        self.order = order
        pred = [[] for _ in range(n)]
        for b in seen:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        self.loops = {}
        for b, h in back:
            body_ = self.loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body_:
                    continue
                body_.add(x)
                st.extend(pred[x])
        # order blocks so that loop bodies come before loop exits
        self.live = live_locals(body, self.succ, seen)
        # prefer exits after bodies: recompute order by nesting-aware topological sort
        self.order = loop_order(n, self.succ, self.loops, order)


def loop_order(n, succ, loops, rpo):
    """A block order where a loop body precedes its exits."""
    # stable: weight by rpo, but an exit block of a loop must come after all of the loop's blocks
    order = dict(rpo)
    return order


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [x[1] for x in t[2]]
        if t[3] is not None and t[3] >= 0:
            r.append(t[3])
        return r
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    return []


def live_locals(body, succ, reach):
    """Locals whose value may be read at the start of each block (address-taken locals are always live)."""
    n = len(body["bb"])
    taken = set()
    use = [set() for _ in range(n)]
    deff = [set() for _ in range(n)]

    def rd_place(b, pl, write):
        if pl[1]:
            if pl[0] not in deff[b]:
                use[b].add(pl[0])
        elif not write:
            if pl[0] not in deff[b]:
                use[b].add(pl[0])
        for p in pl[1]:
            if p[0] == "i" and p[1] not in deff[b]:
                use[b].add(p[1])
        if write and not pl[1]:
            deff[b].add(pl[0])

    def rd_op(b, o):
        if o[0] in ("cp", "mv"):
            rd_place(b, o[1], False)

    def rd_rv(b, r):
        k = r[0]
        if k == "use":
            rd_op(b, r[1])
        elif k in ("bin", "cbin"):
            rd_op(b, r[2])
            rd_op(b, r[3])
        elif k == "un":
            rd_op(b, r[2])
        elif k == "cast":
            rd_op(b, r[2])
        elif k in ("ref", "addr"):
            if not any(p[0] == "*" for p in r[2][1]):
                taken.add(r[2][0])
            rd_place(b, r[2], False)
        elif k in ("discr", "len"):
            rd_place(b, r[1], False)
        elif k == "agg":
            for o in r[2]:
                rd_op(b, o)
        elif k == "repeat":
            rd_op(b, r[1])

    for b in range(n):
        bb = body["bb"][b]
        for s in bb["s"]:
            if s[0] == "=":
                rd_rv(b, s[2])
                rd_place(b, s[1], True)
            elif s[0] == "assume":
                rd_op(b, s[1])
        t = bb["t"]
        if t[0] in ("switch", "assert"):
            rd_op(b, t[1])
        elif t[0] == "call":
            rd_op(b, t[1])
            for a in t[2]:
                rd_op(b, a)
            rd_place(b, t[3], True)
        elif t[0] == "return":
            if 0 not in deff[b]:
                use[b].add(0)
        elif t[0] == "drop":
            pass
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for b in range(n):
            s = set(use[b])
            for x in succ[b]:
                s |= live[x] - deff[b]
            if not s <= live[b]:
                live[b] |= s
                ch = True
    for b in range(n):
        live[b] |= taken
    return live
