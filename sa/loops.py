"""Loops: bounded semantic unrolling (mode "E") and generalisation to an inductive invariant (mode "G")."""
from . import lin as L
from . import num as N
from .num import c_le, c_eq, c_not, Facts
from .interp import Budget


def run(I, fr, head, loop, states):
    if I.mode == "E":
        return unroll(I, fr, head, loop, states)
    from . import general
    return general.run(I, fr, head, loop, states)


def loop_key(I, fr, head):
    f = I.F[fr[0]]
    sp = f["body"]["bb"][head]["sp"]
    return (f["name"], sp[1] if sp else head)


def unroll(I, fr, head, loop, states):
    exits, rets = {}, []
    work = [(s, 0, 0) for s in states]
    done = 0
    while work:
        s, u, n = work.pop(0)
        backs, ex, rs = I.run_region(fr, {head: [s]}, loop, head)
        if backs and not I.trial and I.in_target():
            backs = [b for b in backs if progress(I, fr, head, loop, s, b)]
        rets.extend(rs)
        for t, ss in ex.items():
            exits.setdefault(t, []).extend(ss)
        if backs:
            u2 = u + 1 if (ex or rs or len(backs) > 1) else u
            done += 1
            if u2 > I.unroll or n > 5000 or done > I.steps or len(work) > I.breadth + len(states):
                if not I.trial:
                    I.cuts.add(loop_key(I, fr, head))
                continue
            work.extend((b, u2, n + 1) for b in backs)
    return exits, rets


GROWING = ("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push", "std::string::String::push_str")
_cones = {}


def progress(I, fr, head, loop, s, b):
    """Can the loop end after coming from s to b?  Not if nothing that decides its course has changed."""
    k = (id(I), fr[0], head)
    cone = _cones.get(k)
    if cone is None:
        cone = _cones[k] = deciding(I, fr[0], loop) & I.cfg(fr[0]).live[head]
    if any(b.mem[x] != s.mem.get(x) for x in b.mem if x[0] == "nd"):
        return True
    seen = set()
    for x in cone:
        key = ("l", fr[1], x)
        if not same_reach(s, b, key, seen):
            return True
    sp = I.F[fr[0]]["body"]["bb"][head]["sp"]
    I.stack[-1] = (fr[0], fr[1], sp)
    return bool(I.oblige(b, False, "endless", "a loop runs forever"))


def same_reach(s, b, key, seen):
    """Do a place and everything its value refers to hold the same in both states?"""
    if key in seen:
        return True
    seen.add(key)
    v, w = s.mem.get(key), b.mem.get(key)
    if v != w:
        return False
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) and isinstance(x[0], str) and x in s.mem and not same_reach(s, b, x, seen):
                return False
            todo.extend(x)
    return True


def deciding(I, fid, loop):
    """Locals that the branches of a loop, and what its calls do, depend on."""
    body = I.F[fid]["body"]
    cone = set()
    deps = []          # (local, locals it depends on)

    def place(pl):
        return {pl[0]} | {p[1] for p in pl[1] if p[0] == "i"}

    def op(o):
        return place(o[1]) if o[0] in ("cp", "mv") else set()

    def ops(x):
        r = set()
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ("cp", "mv"):
                return op(x)
            for y in x:
                r |= ops(y)
        return r

    for n in loop:
        bb = body["bb"][n]
        for st in bb["s"]:
            if st[0] == "=":
                rv = st[2]
                if rv[0] in ("ref", "addr"):
                    src = place(rv[2])
                    deps.append((rv[2][0], {st[1][0]}))
                elif rv[0] in ("discr", "len"):
                    src = place(rv[1])
                else:
                    src = ops(rv)
                deps.append((st[1][0], src | place(st[1])))
            elif st[0] == "assume":
                cone |= op(st[1])
            elif st[0] == "cpno":
                for o in st[1:4]:
                    cone |= op(o)
        t = bb["t"]
        if t[0] in ("switch", "assert"):
            cone |= op(t[1])
        elif t[0] == "call":
            args = set()
            for a in t[2]:
                args |= op(a)
            if grows(I, fid, t):
                first = op(t[2][0])
                for x in first:
                    deps.append((x, args))
            else:
                cone |= args | op(t[1])
            deps.append((t[3][0], args | place(t[3])))
    ch = True
    while ch:
        ch = False
        for x, d in deps:
            if x in cone and not d <= cone:
                cone |= d
                ch = True
    return cone


def grows(I, fid, t):
    """A call that only adds to a vector or string, whatever is in it."""
    ty = I.T[I.op_ty((fid, 0), t[1])]
    return ty["k"] == "fndef" and ty.get("fn") is not None and I.F[ty["fn"]]["def"] in GROWING


def live_mem(I, fr, b, s):
    live = I.cfg(fr[0]).live[b]
    d = fr[1]
    return {k: v for k, v in s.mem.items() if not (k[0] == "l" and k[1] == d and k[2] not in live)}


def merge_states(I, fr, b, states):
    """Merge partitions with the same memory; keep at most max_states."""
    groups = {}
    out = []
    for s in states:
        m = live_mem(I, fr, b, s)
        s.mem = m
        k = (frozenset(m.items()), s.out)
        g = groups.get(k)
        if g is None:
            groups[k] = s
            out.append(s)
        else:
            common = g.facts.set & s.facts.set
            items = tuple(c for c in g.facts.items if c in common)
            if len(items) != len(g.facts.items) or len(items) != len(s.facts.items):
                g.approx = True
            g.facts = Facts(items)
    lim = I.max_states * 4
    if len(out) > lim:
        if I.mode == "E":
            if not I.trial:
                I.cuts.add((I.F[fr[0]]["name"], "partitions"))
            out = out[:lim]
        else:
            raise Budget("too many partitions")
    return out
