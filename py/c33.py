"""C33: the Python package against a model written in Python, on all small machines, call histories and configurations."""
import itertools, os, shutil, struct, sys, tempfile
from engine import *
import rustfst
from rustfst import *
from rustfst.weight import weight_one, weight_zero
from rustfst.algorithms import acceptor, transducer, epsilon_machine
from rustfst.algorithms.compose import *
from rustfst.algorithms.concat import concat, concat_list
from rustfst.algorithms.connect import connect
from rustfst.algorithms.determinize import *
from rustfst.algorithms.isomorphic import isomorphic
from rustfst.algorithms.minimize import *
from rustfst.algorithms.optimize import optimize, optimize_in_log
from rustfst.algorithms.project import project, ProjectType
from rustfst.algorithms.randgen import randgen
from rustfst.algorithms.replace import replace
from rustfst.algorithms.reverse import reverse
from rustfst.algorithms.rm_epsilon import rm_epsilon
from rustfst.algorithms.shortest_path import *
from rustfst.algorithms.top_sort import top_sort
from rustfst.algorithms.tr_sort import tr_sort
from rustfst.algorithms.tr_unique import tr_unique
from rustfst.algorithms.union import union, union_list

INF = float("inf")
SCRATCH = tempfile.mkdtemp(prefix="c33-", dir=os.environ["C33_SCRATCH"])
MAIN = os.getpid()


def tmp(n):
    return f"{SCRATCH}/{os.getpid()}-{n}"


# ---------------------------------------------------------------- the model
class A:
    """n states, start or None, finals {state: weight}, arcs per state [(i, o, w, d)]"""

    def __init__(self, n, start, fin, arcs):
        self.n, self.start, self.fin = n, start, dict(fin)
        self.arcs = [[] for _ in range(n)]
        for s, i, o, w, d in arcs:
            self.arcs[s].append((i, o, w, d))

    def __repr__(self):
        return f"A(n={self.n} start={self.start} fin={self.fin} arcs={self.arcs})"

    def __eq__(self, b):
        return (self.n, self.start, self.fin, self.arcs) == (b.n, b.start, b.fin, b.arcs)

    def clone(self):
        b = A(self.n, self.start, self.fin, [])
        b.arcs = [list(x) for x in self.arcs]
        return b

    def all_arcs(self):
        return [(s,) + t for s in range(self.n) for t in self.arcs[s]]

    def acyclic(self):
        reach = [{t[3] for t in self.arcs[s]} for s in range(self.n)]
        for _ in range(self.n):
            for s in range(self.n):
                for d in list(reach[s]):
                    reach[s] |= reach[d]
        return all(s not in reach[s] for s in range(self.n))

    def reach(self, fwd=True):
        seen = set() if self.start is None and fwd else ({self.start} if fwd else set(self.fin))
        todo = list(seen)
        while todo:
            s = todo.pop()
            for a, _, _, _, d in self.all_arcs():
                x, y = (a, d) if fwd else (d, a)
                if x == s and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def useful(self):
        return self.reach(True) & self.reach(False)

    def det(self):
        return all(len({t[0] for t in x}) == len(x) for x in self.arcs)


def build(a):
    f = VectorFst()
    for _ in range(a.n):
        f.add_state()
    if a.start is not None:
        f.set_start(a.start)
    for s, w in a.fin.items():
        f.set_final(s, w)
    for s, i, o, w, d in a.all_arcs():
        f.add_tr(s, Tr(i, o, w, d))
    return f


def read(f, n=None):
    n = f.num_states() if n is None else n
    C.states += n
    fin, arcs = {}, []
    for s in range(n):
        w = f.final(s)
        if w is not None:
            fin[s] = w
        need(f.is_final(s) == (w is not None), lambda: f"is_final({s}) and final({s})={w} disagree")
        k = 0
        for t in f.trs(s):
            arcs.append((s, t.ilabel, t.olabel, t.weight, t.next_state))
            k += 1
        need(f.num_trs(s) == k, lambda: f"num_trs({s}) is not the number of transitions")
    C.transitions += len(arcs)
    return A(n, f.start(), fin, arcs)


def same(what, f, a):
    b = read(f)
    need(b == a, lambda: f"{what}: read back {b}, expected {a}")


def rel(a, L=4):
    """best weight of every pair of label strings up to length L (non-negative cycles)"""
    best = {}
    if a.start is None:
        return {}
    todo = [((a.start, (), ()), 0.0)]
    while todo:
        k, w = todo.pop()
        if best.get(k, INF) <= w:
            continue
        best[k] = w
        s, x, y = k
        for i, o, v, d in a.arcs[s]:
            x2, y2 = x + ((i,) if i else ()), y + ((o,) if o else ())
            if len(x2) <= L and len(y2) <= L:
                todo.append(((d, x2, y2), w + v))
    r = {}
    for (s, x, y), w in best.items():
        if s in a.fin:
            r[x, y] = min(r.get((x, y), INF), w + a.fin[s])
    return r


def near(p, q):
    return set(p) == set(q) and all(abs(p[k] - q[k]) < 0.01 for k in p)


def same_rel(what, f, want, L=4):
    got = rel(read(f), L)
    need(near(got, want), lambda: f"{what}: relation {got}, expected {want}")


def rejects(what, fn):
    try:
        fn()
    except ValueError:
        C.traces += 1
        return
    raise Bad(f"{what}: no ValueError")


def paths(a, cap=2000):
    """all accepting paths of an acyclic machine: (input labels, output labels, weight)"""
    out = []

    def go(s, x, y, w):
        if s in a.fin:
            out.append((x, y, w + a.fin[s]))
        for i, o, v, d in a.arcs[s]:
            go(d, x + ((i,) if i else ()), y + ((o,) if o else ()), w + v)

    if a.start is not None:
        go(a.start, (), (), 0.0)
    return sorted(out)


def nontrivial():
    C.nontrivial += 1


# ---------------------------------------------------------------- machines
def machines(n, k, pairs, ws, fws, starts, forward=False):
    arcs = [(s, i, o, w, d) for s in range(n) for i, o in pairs for w in ws for d in range(n) if not forward or s < d]
    for m in range(k + 1):
        for c in itertools.combinations_with_replacement(arcs, m):
            for f in itertools.product([None] + fws, repeat=n):
                for st in starts:
                    yield A(n, st, {s: w for s, w in enumerate(f) if w is not None}, c)


def symt(syms):
    t = SymbolTable()
    for s in syms:
        t.add_symbol(s)
    return t


TAB = ["a", "b", "c", "d"]


# ---------------------------------------------------------------- reading, copying, storing
def const_bytes(a):
    def st(x):
        return struct.pack("<i", len(x)) + x

    arcs = a.all_arcs()
    b = struct.pack("<i", 2125659606) + st(b"const") + st(b"standard") + struct.pack("<iiQqqq", 2, 0, 3, -1 if a.start is None else a.start, a.n, len(arcs))
    pos = 0
    for s in range(a.n):
        x = a.arcs[s]
        b += struct.pack("<fiiii", a.fin.get(s, INF), pos, len(x), sum(t[0] == 0 for t in x), sum(t[1] == 0 for t in x))
        pos += len(x)
    for _, i, o, w, d in arcs:
        b += struct.pack("<iifi", i, o, w, d)
    return b


def basic(a):
    f = build(a)
    same("machine", f, a)
    need(list(f.states()) == list(range(a.n)), "states() does not list the states")
    for s in range(a.n):
        need(f.is_start(s) == (s == a.start), f"is_start({s})")
        it = f.trs(s)
        x = [(t.ilabel, t.olabel, t.weight, t.next_state) for t in it]
        need(it.done(), "iterator not done at the end")
        it.reset()
        y = []
        while not it.done():
            t = next(it)
            y.append((t.ilabel, t.olabel, t.weight, t.next_state))
        need(x == y == a.arcs[s], "iteration after reset differs")
    for bad in (a.n, a.n + 7):
        rejects("final", lambda: f.final(bad))
        rejects("is_final", lambda: f.is_final(bad))
        rejects("num_trs", lambda: f.num_trs(bad))
        rejects("trs", lambda: f.trs(bad))
        rejects("mutable_trs", lambda: f.mutable_trs(bad))
        rejects("set_start", lambda: f.set_start(bad))
        rejects("set_final", lambda: f.set_final(bad, 1.0))
        rejects("unset_final", lambda: f.unset_final(bad))
        rejects("add_tr", lambda: f.add_tr(bad, Tr(1, 1, 1.0, 0)))
    same("machine after rejected calls", f, a)
    # copies
    g = f.copy()
    same("copy", g, a)
    need(f == g and g.equals(f), "a copy is not equal")
    x = g.add_state()
    need(x == a.n, "add_state returns the wrong number")
    g.set_final(x)
    g.set_start(x)
    for s in range(a.n):
        g.add_tr(s, Tr(7, 7, 1.0, x))
    same("original after editing the copy", f, a)
    need(not f == g, "different machines are equal")
    same("edited copy", g, A(a.n + 1, x, {**a.fin, x: 0.0}, a.all_arcs() + [(s, 7, 7, 1.0, x) for s in range(a.n)]))
    # symbol tables
    h = f.copy()
    need(h.input_symbols() is None and h.output_symbols() is None, "tables out of nowhere")
    t, u = symt(TAB), symt(TAB[:2])
    h.set_input_symbols(t)
    need(h.input_symbols() == t and h.output_symbols() is None, "set_input_symbols")
    h.set_output_symbols(u)
    need(h.input_symbols() == t and h.output_symbols() == u, "set_output_symbols")
    k = h.copy()
    need(k.input_symbols() == t and k.output_symbols() == u, "tables of a copy")
    # files and bytes
    for who, m in (("with tables", h), ("without", f)):
        p = tmp("x.fst")
        m.write(p)
        r = VectorFst.read(p)
        same(f"file {who}", r, a)
        need((r.input_symbols() is None) == (m.input_symbols() is None) and (r.output_symbols() is None) == (m.output_symbols() is None), f"tables {who} after reload")
        if m is h:
            need(r.input_symbols() == t and r.output_symbols() == u, "tables after reload exchanged or changed")
        need(r == m, f"reloaded machine {who} differs")
        rejects("read of a vector file as const", lambda: ConstFst.read(p))
        b = m.to_bytes()
        r = VectorFst.from_bytes(b)
        same(f"bytes {who}", r, a)
        need(b == open(p, "rb").read(), "to_bytes and write differ")
        for cut in (0, 1, 9, len(b) // 2, len(b) - 1):
            rejects(f"bytes cut at {cut}", lambda: VectorFst.from_bytes(b[:cut]))
    h.set_input_symbols(None)
    need(h.input_symbols() is None and h.output_symbols() == u, "unset input symbols")
    h.set_output_symbols(None)
    need(h.output_symbols() is None, "unset output symbols")
    need(k.input_symbols() == t, "tables of a copy after unsetting")
    rejects("read of a missing file", lambda: VectorFst.read(tmp("nothing")))
    rejects("write to a missing folder", lambda: f.write(tmp("no/such/file")))
    # text
    lines = sorted(x for x in str(f).split("\n") if x)
    want = []
    for s, i, o, w, d in a.all_arcs():
        want.append("\t".join([str(s), str(d), str(i), str(o)] + ([] if w == 0 else [num(w)])))
    for s, w in a.fin.items():
        want.append("\t".join([str(s)] + ([] if w == 0 else [num(w)])))
    if a.start is not None:
        got = sorted(norm(x) for x in lines if not (a.start is not None and a.start not in a.fin and norm(x) == f"{a.start}\tinf"))
        need([x for x in got if x] == sorted(want), lambda: f"text {got}, expected {want}")
    # the immutable machine
    p = tmp("c.fst")
    open(p, "wb").write(const_bytes(a))
    c = ConstFst.read(p)
    need(read(c, a.n) == a, lambda: f"immutable machine read as {read(c, a.n)}")
    for bad in (a.n, a.n + 7):
        rejects("const final", lambda: c.final(bad))
        rejects("const trs", lambda: c.trs(bad))
    for s in range(a.n):
        need(c.is_start(s) == (s == a.start), "const is_start")
    e = c.copy()
    need(read(e, a.n) == a and e == c, "copy of an immutable machine")
    c.write(p)
    e = ConstFst.read(p)
    need(read(e, a.n) == a and e == c, "immutable machine after reload")
    need(sorted(str(c).split("\n")) == sorted(str(f).split("\n")), "text of the immutable machine differs")
    rejects("const as vector", lambda: VectorFst.read(p))
    f.delete_states()
    same("after delete_states", f, A(0, None, {}, []))
    if a.all_arcs():
        nontrivial()


def num(w):
    return repr(float(w))


def norm(line):
    x = line.split("\t")
    n = 5 if len(x) > 2 else 2
    if len(x) == n:
        w = float(x[-1])
        x = x[:-1] + ([] if w == 0 else [num(w)])
    return "\t".join(x)


# ---------------------------------------------------------------- edit histories
def edits():
    E = []
    E.append(("add_state", lambda f, a: (need(f.add_state() == a.n, "add_state"), a.arcs.append([]), setattr(a, "n", a.n + 1))))
    for s in (0, 1):
        E.append((f"start {s}", lambda f, a, s=s: ed(s < a.n, lambda: f.set_start(s), lambda: setattr(a, "start", s))))
        E.append((f"final {s}", lambda f, a, s=s: ed(s < a.n, lambda: f.set_final(s, 1.5), lambda: a.fin.__setitem__(s, 1.5))))
        E.append((f"nofinal {s}", lambda f, a, s=s: ed(s < a.n, lambda: f.unset_final(s), lambda: a.fin.pop(s, None))))
        for t in ((1, 2, 0.5, 0), (0, 1, 1.0, 1)):
            E.append((f"tr {s} {t}", lambda f, a, s=s, t=t: ed(s < a.n, lambda: need(f.add_tr(s, Tr(*t)) is f, "add_tr does not return the machine"), lambda: a.arcs[s].append(t))))
        E.append((f"rewrite {s}", lambda f, a, s=s: ed(s < a.n, lambda: rewrite(f, s), lambda: a.arcs.__setitem__(s, [(i + 1, o, w + 1, d) for i, o, w, d in a.arcs[s]]))))
    E.append(("isort", lambda f, a: (f.tr_sort(True), setattr(a, "arcs", [sorted(x, key=lambda t: t[0]) for x in a.arcs]))))
    E.append(("osort", lambda f, a: (f.tr_sort(ilabel_cmp=False), setattr(a, "arcs", [sorted(x, key=lambda t: t[1]) for x in a.arcs]))))
    E.append(("delete", lambda f, a: (f.delete_states(), a.__init__(0, None, {}, []))))
    return E


def ed(valid, do, model):
    if valid:
        do()
        model()
    else:
        rejects("edit of a missing state", do)


def rewrite(f, s):
    it = f.mutable_trs(s)
    k = 0
    while not it.done():
        t = it.value()
        it.set_value(Tr(t.ilabel + 1, t.olabel, t.weight + 1, t.next_state))
        v = it.value()
        need((v.ilabel, v.weight) == (t.ilabel + 1, t.weight + 1), "value after set_value")
        next(it)
        k += 1
    it.reset()
    need(it.done() == (k == 0), "mutable iterator after reset")


EDITS = edits()


def history(seq):
    f, a = VectorFst(), A(0, None, {}, [])
    snap = []
    for e in seq:
        snap.append((f.copy(), a.clone()))
        EDITS[e][1](f, a)
        if all(t[3] < a.n for x in a.arcs for t in x):
            g, b = read(f), a.clone()
            if "sort" in EDITS[e][0]:
                for x in g.arcs, b.arcs:
                    for y in x:
                        y.sort()
            need(g == b, lambda: f"after {[EDITS[x][0] for x in seq]}: {g}, expected {a}")
            a.arcs = [list(x) for x in read(f).arcs]
    for g, b in snap:
        same("earlier copy", g, b) if all(t[3] < b.n for x in b.arcs for t in x) else None
    nontrivial()


# ---------------------------------------------------------------- one-operand algorithms
def unary(a):
    f = build(a)
    f.set_input_symbols(symt(TAB))
    R = rel(a)
    acyc = a.acyclic()
    done = lambda: same("operand", f, a)
    # in place
    for name, op in (("method", lambda g: g.connect()), ("function", connect)):
        g = f.copy()
        need(op(g) is g, "connect does not return the machine")
        m = read(g)
        need(m.n == len(a.useful()) and m.useful() == set(range(m.n)), lambda: f"connect {name}: {m}")
        need(near(rel(m), R), "connect relation")
    for op in (lambda g: g.rm_epsilon() or g, lambda g: rm_epsilon(g)):
        g = f.copy()
        r = op(g)
        for what, x in (("in place", g), ("returned", r)):
            m = read(x)
            need(near(rel(m), R), lambda: f"rm_epsilon {what}: {m}")
            need(a.start is None or not any(t[0] == t[1] == 0 for y in m.arcs for t in y), lambda: f"rm_epsilon {what} left an epsilon: {m}")
    for i in (True, False):
        for op in (lambda g: g.tr_sort(i), lambda g: tr_sort(g, i), lambda g: g.tr_sort(ilabel_cmp=i)):
            g = f.copy()
            op(g)
            m = read(g)
            k = 0 if i else 1
            need([sorted(x) for x in m.arcs] == [sorted(x) for x in a.arcs] and all(x[j][k] <= x[j + 1][k] for x in m.arcs for j in range(len(x) - 1)), lambda: f"tr_sort {i}: {m}")
    g = f.copy()
    g.tr_sort()
    need(all(x[j][0] <= x[j + 1][0] for x in read(g).arcs for j in range(len(x) - 1)), "tr_sort default")
    for op in (lambda g: g.tr_unique(), tr_unique):
        g = f.copy()
        op(g)
        m = read(g)
        need([sorted(x) for x in m.arcs] == [sorted(set(x)) for x in a.arcs] and (m.n, m.start, m.fin) == (a.n, a.start, a.fin), lambda: f"tr_unique: {m}")
    for p, op in (
        (0, lambda g: g.project()),
        (0, lambda g: g.project(ProjectType.PROJECT_INPUT)),
        (1, lambda g: g.project(ProjectType.PROJECT_OUTPUT)),
        (0, lambda g: project(g, ProjectType.PROJECT_INPUT)),
        (1, lambda g: project(g, ProjectType.PROJECT_OUTPUT)),
    ):
        g = f.copy()
        need(op(g) is g, "project does not return the machine")
        m = read(g)
        need(m.arcs == [[(t[p], t[p], t[2], t[3]) for t in x] for x in a.arcs] and (m.n, m.start, m.fin) == (a.n, a.start, a.fin), lambda: f"project {p}: {m}")
    for op in (lambda g: g.top_sort(), top_sort):
        g = f.copy()
        if acyc:
            r = op(g)
            for what, x in (("in place", g), ("returned", r)):
                m = read(x)
                need(m.n == a.n and near(rel(m), R) and all(t[3] > s for s in range(m.n) for t in m.arcs[s]), lambda: f"top_sort {what}: {m}")
        else:
            try:
                op(g)
            except ValueError:
                pass
            same("machine that cannot be sorted", g, a)
    # new machines
    for op in (lambda: f.reverse(), lambda: reverse(f)):
        r = op()
        same_rel("reverse", r, {(x[::-1], y[::-1]): w for (x, y), w in R.items()})
        done()
    best = min([w for w in R.values()], default=None)
    for op in (lambda: f.shortest_path(), lambda: shortestpath(f), lambda: f.shortest_path(ShortestPathConfig()), lambda: shortestpath_with_config(f, ShortestPathConfig(1))):
        if best is None and not acyc:
            continue
        m = rel(read(op()), 6)
        if acyc or m:
            need((best is None and not m) or (len(m) == 1 and near(m, {k: w for k, w in R.items() if k in m}) and list(m.values()) == [best]), lambda: f"shortest_path: {m}, expected weight {best}")
        done()
    if acyc:
        P = paths(a)
        ws = sorted(p[2] for p in P)
        for n in (1, 2, 3):
            r = read(shortestpath_with_config(f, ShortestPathConfig(nshortest=n)))
            Q = paths(r)
            need(sorted(p[2] for p in Q) == ws[:n], lambda: f"{n} shortest paths: {Q} of {P}")
            need(all(p in P for p in Q), lambda: f"{n} shortest paths: {Q} of {P}")
        noeps = all(t[0] == t[1] != 0 for x in a.arcs for t in x)
        if noeps:
            for n in (1, 2):
                r = read(shortestpath_with_config(f, ShortestPathConfig(n, True)))
                need(sorted(p[2] for p in paths(r)) == sorted(R.values())[:n], lambda: f"{n} shortest unique: {r}")
        ieps = any(t[0] == 0 for x in a.arcs for t in x)
        u = a.useful()
        trim = len(u) == a.n
        functional = len({x for x, _ in R}) == len(R)
        acceptor_ = all(t[0] == t[1] for x in a.arcs for t in x)
        if trim and not ieps:
            D = DeterminizeType
            for name, want, op in (
                ("default", R, lambda: f.determinize()),
                ("function", R, lambda: determinize(f)),
                ("functional", R, lambda: f.determinize(DeterminizeConfig(D.DETERMINIZE_FUNCTIONAL))),
                ("nonfunctional", R, lambda: determinize_with_config(f, DeterminizeConfig(D.DETERMINIZE_NON_FUNCTIONAL, 0.001))),
            ):
                if not functional and name != "nonfunctional":
                    rejects(f"determinize {name} of a non-functional machine", op)
                else:
                    m = read(op())
                    need(near(rel(m), want), lambda: f"determinize {name}: {m}")
                    need(not (acceptor_ or functional) or all(len([t for t in x if t[0]]) == len({t[0] for t in x if t[0]}) for x in m.arcs), lambda: f"determinize {name}: not deterministic {m}")
                done()
            m = rel(read(f.determinize(DeterminizeConfig(D.DETERMINIZE_DISAMBIGUATE))))
            b = {}
            for (x, y), w in R.items():
                b[x] = min(b.get(x, INF), w)
            need({x: w for (x, _), w in m.items()} == b and len(m) == len(b) and all(R.get(k) == w for k, w in m.items()), lambda: f"determinize disambiguate: {m} of {R}")
        for name, op in (("method", lambda g: g.minimize()), ("function", minimize), ("config", lambda g: g.minimize(MinimizeConfig())), ("config function", lambda g: minimize_with_config(g, MinimizeConfig(allow_nondet=False)))):
            g = f.copy()
            if a.det() and not ieps:
                need(op(g) is g, "minimize does not return the machine")
                same_rel(f"minimize {name}", g, R)
            elif not a.det() and acceptor_ and trim:
                rejects(f"minimize {name} of a non-deterministic machine", lambda: op(g))
        for op in (lambda g: g.minimize(MinimizeConfig(None, True)), lambda g: minimize_with_config(g, MinimizeConfig(allow_nondet=True))):
            g = f.copy()
            op(g)
            same_rel("minimize allowing nondeterminism", g, R)
        for op in (lambda g: g.optimize(), lambda g: optimize(g) or g):
            g = f.copy()
            r = op(g)
            need(r is g, "optimize does not return the machine")
            same_rel("optimize", g, R)
        for op in (lambda g: g.optimize_in_log(), lambda g: optimize_in_log(g) or g):
            g = f.copy()
            r = op(g)
            m = rel(read(r))
            need(set(m) == set(R) and (len(P) != len(R) or near(m, R)), lambda: f"optimize_in_log: {m} of {R}")
        # strings
        g = f.copy()
        g.set_output_symbols(symt(["x", "y", "z"]))
        got = []
        it = g.string_paths()
        need(it.done() == (not P), "string_paths().done() at the beginning")
        for p in it:
            got.append((p.istring(), p.ostring(), p.weight()))
        need(it.done(), "string_paths().done() at the end")
        want = sorted((" ".join(TAB[i - 1] for i in x), " ".join("xyz"[o - 1] for o in y), w) for x, y, w in P)
        need(sorted(got) == want, lambda: f"string_paths: {got}, expected {want}")
        if a.n and a.start is not None and len(u) == a.n:
            for seed in range(3):
                for npath in (1, 2, 3):
                    m = read(randgen(f, npath, seed))
                    Q = paths(m)
                    need(1 <= len(Q) <= npath and (len(Q) == npath or a.start in a.fin) and all(any(q[:2] == p[:2] for p in P) for q in Q), lambda: f"randgen {npath}: {Q} of {P}")
                m = read(randgen(f, npath=4, seed=seed, weight=True))
                need(all(any((x, y) == p[:2] for p in P) for x, y, w in paths(m)), lambda: f"randgen weighted {m}")
            need(not paths(read(randgen(f, npath=2, seed=1, max_length=0))) or any(not (x or y) for x, y, _ in P) or a.start in a.fin, "randgen beyond the maximal length")
        rejects("randgen with an unknown distribution", lambda: randgen(f, select="other"))
    done()
    need(isomorphic(f, f.copy()) and f.isomorphic(f), "a machine is not isomorphic to itself")
    if R:
        nontrivial()


# ---------------------------------------------------------------- two operands
def comp_rel(P, Q):
    r = {}
    for (x, y), w in P.items():
        for (y2, z), v in Q.items():
            if y == y2:
                r[x, z] = min(r.get((x, z), INF), w + v)
    return r


FILTERS = [ComposeFilter.AUTOFILTER, ComposeFilter.SEQUENCEFILTER, ComposeFilter.ALTSEQUENCEFILTER, ComposeFilter.MATCHFILTER, ComposeFilter.TRIVIALFILTER]


def cat_rel(P, Q):
    r = {}
    for (x, y), w in P.items():
        for (x2, y2), v in Q.items():
            k = (x + x2, y + y2)
            r[k] = min(r.get(k, INF), w + v)
    return r


def or_rel(P, Q):
    return {k: min(P.get(k, INF), Q.get(k, INF)) for k in {*P, *Q}}


def binary(ab):
    a, b = ab
    f, g = build(a), build(b)
    P, Q = rel(a, 6), rel(b, 6)
    C_ = comp_rel(P, Q)
    f2, g2 = f.copy(), g.copy()
    f2.tr_sort(False)
    g2.tr_sort(True)
    sa, sb = read(f2), read(g2)
    for op in (lambda: f2.compose(g2), lambda: compose(f2, g2), lambda: f2 * g2):
        same_rel("compose", op(), C_, 6)
    for flt in FILTERS + ([ComposeFilter.NULLFILTER] if all(t[1] for x in a.arcs for t in x) and all(t[0] for x in b.arcs for t in x) else []):
        for con in (True, False):
            for op in (lambda c: f2.compose(g2, c), lambda c: compose_with_config(f2, g2, c)):
                r = op(ComposeConfig(flt, con))
                same_rel(f"compose {flt} {con}", r, C_, 6)
                m = read(r)
                need(not con or len(m.useful()) == m.n, lambda: f"compose {flt} not trimmed: {m}")
    same("first operand of compose", f2, sa)
    same("second operand of compose", g2, sb)
    for name, want, ops in (
        ("union", or_rel(P, Q), [(True, lambda x: x.union(g)), (True, lambda x: union(x, g)), (False, lambda x: x | g), (False, lambda x: union_list([x, g]))]),
        ("concat", cat_rel(P, Q), [(True, lambda x: x.concat(g)), (True, lambda x: concat(x, g)), (False, lambda x: x + g), (False, lambda x: concat_list([x, g]))]),
    ):
        for inplace, op in ops:
            x = f.copy()
            r = op(x)
            same_rel(name, r, want, 8)
            if inplace:
                need(r is x, f"{name} does not return the machine")
            else:
                same(f"first operand of {name}", x, a)
            same(f"second operand of {name}", g, b)
    same_rel("union_list of three", union_list([f, g, f]), or_rel(P, Q), 8)
    same_rel("concat_list of three", concat_list([f, g, f]), cat_rel(cat_rel(P, Q), P), 12)
    same_rel("concat_list of one", concat_list([f]), P, 6)
    same_rel("union_list of one", union_list([g]), Q, 6)
    need((f == g) == (a == b) and f.equals(g) == (a == b), lambda: "equality answers wrongly")
    def view(m):
        r = m.reach()
        return m.start is not None, len(r)
    perm = None
    if a.n == b.n:
        for p in itertools.permutations(range(a.n)):
            if (None if a.start is None else p[a.start]) == b.start and {p[s]: w for s, w in a.fin.items()} == b.fin and all(sorted((i, o, w, p[d]) for i, o, w, d in a.arcs[s]) == sorted(b.arcs[p[s]]) for s in range(a.n)):
                perm = p
    full = len(a.reach()) == a.n and len(b.reach()) == b.n
    amb = any(len({t[:3] for t in x}) < len(x) for m in (a, b) for x in m.arcs)
    if full and not amb:
        need(isomorphic(f, g) == f.isomorphic(g) == (perm is not None), lambda: f"isomorphic({a}, {b})")
    if C_:
        nontrivial()


def sigma(x):
    a, b, lab, mode, allowed, side = x
    f, g = build(a), build(b)
    f.tr_sort(False)
    g.tr_sort(True)
    cfg = MatcherConfig(lab, mode, allowed) if allowed is not None else MatcherConfig(lab, mode)
    plain, sig = (a, b) if side == 2 else (b, a)
    acc = all(t[0] == t[1] for y in sig.arcs for t in y)
    both = {MatcherRewriteMode.AUTO: acc, MatcherRewriteMode.ALWAYS: True, MatcherRewriteMode.NEVER: False}[mode]
    k = 0 if side == 2 else 1
    labels = {t[1 if side == 2 else 0] for y in plain.arcs for t in y} - {0, lab}
    if allowed:
        labels &= set(allowed)
    arcs = []
    for s, i, o, w, d in sig.all_arcs():
        t = [i, o]
        if t[k] == lab:
            for l in labels:
                u = list(t)
                u[k] = l
                if both and u[1 - k] == lab:
                    u[1 - k] = l
                arcs.append((s, u[0], u[1], w, d))
        else:
            arcs.append((s, i, o, w, d))
    e = A(sig.n, sig.start, sig.fin, arcs)
    P, Q = (rel(plain), rel(e)) if side == 2 else (rel(e), rel(plain))
    kw = dict(compose_filter=ComposeFilter.SEQUENCEFILTER)
    c = ComposeConfig(matcher2_config=cfg, **kw) if side == 2 else ComposeConfig(matcher1_config=cfg, **kw)
    same_rel("compose with sigma", f.compose(g, c), comp_rel(P, Q))
    if arcs:
        nontrivial()


def repl(x):
    root, rule, eps = x
    f, g = build(root), build(rule)
    NT = 9
    arcs = []
    n = root.n
    fin = dict(root.fin)
    tot = n
    for s, i, o, w, d in root.all_arcs():
        if o == NT:
            if rule.start is None:
                continue
            off = tot
            tot += rule.n
            arcs.append((s, 0 if eps else i, 0, w, off + rule.start))
            arcs += [(off + p, q, r, v, off + t) for p, q, r, v, t in rule.all_arcs()]
            arcs += [(off + p, 0, 0, v, d) for p, v in rule.fin.items()]
        else:
            arcs.append((s, i, o, w, d))
    e = A(tot, root.start, fin, arcs)
    for op in (lambda: f.replace(100, [(NT, g)], eps), lambda: replace(100, [(100, f), (NT, g)], eps), lambda: f.replace(100, [(NT, g)], epsilon_on_replace=eps)):
        same_rel("replace", op(), rel(e, 6), 6)
    if not eps:
        same_rel("replace with default", f.replace(100, [(NT, g)]), rel(e, 6), 6)
    same("root", f, root)
    same("rule", g, rule)
    nontrivial()


# ---------------------------------------------------------------- symbol tables and strings
SYMS = ["<eps>", "a", "b", "é"]
OTHER = {"o1": ["b", "z"], "o2": [], "o3": ["q", "a", "é"]}


def symtabs(seq):
    t, m = SymbolTable(), ["<eps>"]
    copies = []
    for k in seq:
        if k < 4:
            s = SYMS[k]
            if s not in m:
                m.append(s)
            need(t.add_symbol(s) == m.index(s), lambda: f"add_symbol {s}")
        elif k < 7:
            o = OTHER[f"o{k - 3}"]
            u = symt(o)
            t.add_table(u)
            for s in ["<eps>"] + o:
                if s not in m:
                    m.append(s)
            need(u.num_symbols() == 1 + len(o), "add_table changed its argument")
        else:
            copies.append((t.copy(), list(m)))
        check_tab(t, m)
    for c, w in copies:
        check_tab(c, w)
        c.add_symbol("fresh")
        need(not t.member("fresh"), "editing a copy changes the original")
        need((c == t) == (w + ["fresh"] == m), "equality of tables")
    for text in (False, True):
        p = tmp("s.txt")
        (t.write_text if text else t.write)(p)
        check_tab((SymbolTable.read_text if text else SymbolTable.read)(p), m)
    need(t == t.copy() and t.equals(SymbolTable.from_symbols(m[1:])), "equality with a rebuilt table")
    rejects("reading a missing table", lambda: SymbolTable.read(tmp("no")))
    rejects("reading a missing table", lambda: SymbolTable.read_text(tmp("no")))
    if len(m) > 2:
        nontrivial()


def check_tab(t, m):
    need(t.num_symbols() == len(m), lambda: f"num_symbols {t.num_symbols()} of {m}")
    need(list(iter_tab(t)) == list(enumerate(m)), "iteration")
    for i, s in enumerate(m):
        need(t.find(i) == s and t.find(s) == i and t.member(i) and t.member(s), f"lookup of {s}")
    for x in (len(m), len(m) + 3, "nope", ""):
        need(not t.member(x), f"member {x!r}")
        rejects("find of a missing symbol", lambda: t.find(x))


def iter_tab(t):
    it = iter(t)
    while True:
        try:
            yield next(it)
        except StopIteration:
            return


def strings(x):
    i, o = x
    T, U = symt(TAB), symt(["x", "y"])
    si, so = " ".join(i), " ".join(o)
    known_i, known_o = all(s in TAB for s in i), all(s in "xy" for s in o)
    for w in (None, 0.5):
        v = 0.0 if w is None else w
        mk = (lambda: acceptor(si, T, w)) if w is not None else (lambda: acceptor(si, T))
        if known_i:
            r = mk()
            l = tuple(TAB.index(s) + 1 for s in i)
            m = read(r)
            need(rel(m, 6) == {(l, l): v} and m.n == len(i) + 1, lambda: f"acceptor {si!r}: {m}")
        else:
            rejects("acceptor with an unknown symbol", mk)
        mk = (lambda: transducer(si, so, T, U, w)) if w is not None else (lambda: transducer(si, so, T, U))
        if known_i and known_o:
            r = mk()
            l, k = tuple(TAB.index(s) + 1 for s in i), tuple("xy".index(s) + 1 for s in o)
            need(rel(read(r), 6) == {(l, k): v}, lambda: f"transducer {si!r} {so!r}: {read(r)}")
        else:
            rejects("transducer with an unknown symbol", mk)
        e = epsilon_machine(w) if w is not None else epsilon_machine()
        same("epsilon_machine", e, A(1, 0, {0: v}, []))
    nontrivial()


def relabel(x):
    a, old, new, att_i, att_o, passed = x
    f = build(a)
    I, O = symt(old), symt(old[::-1])
    J, K = symt(new), symt(new[::-1])
    if not passed:
        f.set_input_symbols(I)
        f.set_output_symbols(O)
    ol, oo, nl, no = ["<eps>"] + old, ["<eps>"] + old[::-1], ["<eps>"] + new, ["<eps>"] + new[::-1]
    kw = dict(old_isymbols=I, old_osymbols=O) if passed else {}
    call = lambda: f.relabel_tables(new_isymbols=J, new_osymbols=K, attach_new_isymbols=att_i, attach_new_osymbols=att_o, **kw)
    try:
        want = A(a.n, a.start, a.fin, [(s, nl.index(ol[i]), no.index(oo[o]), w, d) for s, i, o, w, d in a.all_arcs()])
    except (ValueError, IndexError):
        want = None
    if want is None:
        rejects("relabel_tables with a missing symbol", call)
    elif all(s in new for s in old):
        need(call() is f, "relabel_tables does not return the machine")
        same("relabel_tables", f, want)
        if att_i:
            need(f.input_symbols() == J, "new input symbols not attached")
        if att_o:
            need(f.output_symbols() == K, "new output symbols not attached")
    nontrivial()


# ---------------------------------------------------------------- transitions
def tr(x):
    i, o, w, d = x
    t = Tr(i, o, w, d)
    need((t.ilabel, t.olabel, t.weight, t.next_state) == x, "fields")
    u = Tr(i, o, w, d)
    need(t == u, "equality")
    for k, (n, v) in enumerate((("ilabel", 5), ("olabel", 6), ("weight", 7.5), ("next_state", 8))):
        setattr(u, n, v)
        got = [u.ilabel, u.olabel, u.weight, u.next_state]
        want = [5, 6, 7.5, 8][:k + 1] + list(x)[k + 1:]
        need(got == want and not t == u, lambda: f"after setting {n}: {got}")
    need(Tr(i, o, None, d).weight == 0.0, "default weight")
    need(repr(t) == f"<Tr ilabel={i}, olabel={o}, weight={w}, next_state={d}>", "repr")
    need(weight_one() == 0.0 and weight_zero() == INF, "weight constants")
    nontrivial()


def trs(seq):
    t, m = Trs(), []
    for k in seq:
        if k < 3:
            t.push(Tr(k, k + 1, float(k), k))
            m.append(k)
        elif k < 6:
            i = k - 3
            if i < len(m):
                r = t.remove(i)
                x = m.pop(i)
                need((r.ilabel, r.olabel, r.weight, r.next_state) == (x, x + 1, float(x), x), "removed transition")
            else:
                rejects("remove past the end", lambda: t.remove(i))
        else:
            c = t.shallow_clone()
            need(c.len() == len(m), "length of a clone")
            c.push(Tr(1, 1, 1.0, 1))
            need(c.len() == len(m) + 1, "clone after push")
        need(t.len() == len(m), lambda: f"length {t.len()} of {m}")
        need(isinstance(repr(t), str), "repr")
    nontrivial()


# ---------------------------------------------------------------- drawing
def draw(x):
    a, acc, port, vert, one, pw, syms = x
    f = build(a)
    p = tmp("d.dot")
    if os.path.exists(p):
        os.remove(p)
    T, U = symt(TAB), symt(["x", "y", "z"])
    cfg = DrawingConfig(acceptor=acc, title="ttl", portrait=port, vertical=vert, show_weight_one=one, print_weight=pw, width=3.0, height=4.0, ranksep=0.25, nodesep=0.5, fontsize=17)
    c = None
    q = tmp("dc.fst")
    open(q, "wb").write(const_bytes(a))
    c = ConstFst.read(q)
    outs = []
    for m in (f, c):
        m.draw(p, T if syms else None, U if syms else None, cfg)
        outs.append(open(p).read())
    need(outs[0] == outs[1], "vector and immutable machine are drawn differently")
    s = outs[0]
    edges = sorted(l for l in s.split("\n") if "->" in l)
    want = []
    for st, i, o, w, d in a.all_arcs():
        li = (["<eps>"] + TAB)[i] if syms else str(i)
        lo = (["<eps>", "x", "y", "z"])[o] if syms else str(o)
        want.append((st, d, li if acc else f"{li}:{lo}", w))
    need(len(edges) == len(want), lambda: f"{len(edges)} edges drawn, {len(want)} expected")
    import re
    got = []
    for l in edges:
        m = re.match(r'\s*(\d+) -> (\d+) \[label = "([^"/]*)(?:/([^"]*))?"(.*)$', l)
        need(m is not None, f"edge {l!r}")
        got.append((int(m[1]), int(m[2]), m[3], m[4], "17" in m[5]))
    for g in got:
        need(g[4], "fontsize not used")
    if a.start is not None:
        need(sorted(g[:3] for g in got) == sorted(w[:3] for w in want), lambda: f"edges {got}, expected {want}")
        ww = sorted((w[3] if pw and (one or w[3] != 0) else None) is None for w in want)
        need(sorted(g[3] is None for g in got) == ww, lambda: f"weights drawn {got}, expected {want} (show one {one}, print {pw})")
        need(sorted(float(g[3]) for g in got if g[3] is not None) == sorted(w[3] for w in want if pw and (one or w[3] != 0)), "drawn weights")
    need("ttl" in s and "17" in s if a.start is not None else True, "title or font size missing")
    nontrivial()


def methods(name):
    f = build(A(2, 0, {1: 0.0}, [(0, 1, 2, 0.0, 1)]))
    if name in ("remove_input_symbols", "remove_output_symbols"):
        getattr(f, name)([1])


def main():
    m = Mc("C33")
    p = [(1, 1), (1, 2), (0, 1), (2, 0), (0, 0)]
    tiny = [A(0, None, {}, [])] + list(machines(1, 1, p, [0.5], [0.0, 2.0], [0, None]))
    two = list(machines(2, 2, p, [0.5], [1.0], [0, 1, None]))
    three = list(machines(3, 2, p[:2], [1.0], [0.0], [0], True))
    m.family("reading", "all machines of <=1 state, all 2-state machines with <=2 transitions over 5 label pairs, any start: every reading method, copies, tables, files, bytes, text, the immutable type, and calls on missing states", tiny + two + m.pick([], list(machines(3, 2, p, [0.5], [1.0], [0, 2]))), basic)
    m.family("histories", "all sequences of <=3 (4) edits out of 16", [s for k in range(m.pick(4, 5)) for s in itertools.product(range(len(EDITS)), repeat=k)], history)
    w2 = list(machines(2, 2, p, [0.0, 1.5], [0.0], [0]))
    m.family("one operand", "all machines of <=1 state, 2-state machines with <=2 transitions over 5 label pairs and 2 weights, 3-state acyclic ones: every algorithm, as method, function and with every configuration", tiny + w2 + two + three + list(machines(3, 3, [(1, 1)], [1.0, 2.0], [0.0], [0], True)) + m.pick([], list(machines(3, 3, [(1, 1), (0, 2)], [1.0, 2.0], [0.0], [0], True))), unary)
    ops = [A(0, None, {}, []), A(1, None, {0: 0.0}, []), A(1, 0, {0: 1.0}, [])] + [x for x in machines(2, 1, p, [0.5], [1.0], [0, 1], True)] + [x for x in machines(3, 2, p[1:4], [1.0], [2.0], [0], True) if len(x.fin) == 1 and 2 in x.fin and len(x.all_arcs()) == 2]
    m.family("two operands", "all pairs of a set of acyclic machines: composition with every filter and option, union, concatenation, lists, operators, equality, isomorphism", list(itertools.product(ops, ops)), binary)
    S = 7
    pl = [x for x in machines(2, 2, [(1, 1), (2, 3), (0, 1)], [0.5], [0.0], [0], True) if x.all_arcs() and 1 in x.fin and 0 not in x.fin]
    sg = [x for x in machines(2, 2, [(S, S), (1, S), (S, 1), (1, 1)], [1.0], [0.0], [0], True) if x.all_arcs() and 1 in x.fin and 0 not in x.fin]
    m.family("any-label arcs", "composition with a sigma matcher on either side x rewrite modes x allowed lists", [(a, b, S, mode, al, side) for side in (1, 2) for x in pl for y in sg for mode in MatcherRewriteMode for al in (None, [1], [1, 2, 3], [5]) for a, b in [((x, y) if side == 2 else (y, x))]], sigma)
    roots = [x for x in machines(2, 2, [(1, 9), (2, 2)], [0.5], [1.0], [0], True) if x.fin and any(t[1] == 9 for y in x.arcs for t in y)]
    rules = list(machines(2, 1, p[:4], [1.0], [0.0, 2.0], [0], True)) + [A(0, None, {}, [])]
    m.family("replacement", "all roots with calls x all small rules x both label options", list(itertools.product(roots, rules, (False, True))), repl)
    m.family("symbol tables", "all sequences of <=4 (5) additions, merges and copies", [s for k in range(m.pick(5, 6)) for s in itertools.product(range(8), repeat=k)], symtabs)
    ws = [x for k in (1, 2, 3) for x in itertools.product(["a", "c", "no"], repeat=k)]
    os_ = [x for k in (1, 2) for x in itertools.product(["x", "y", "no"], repeat=k)]
    m.family("strings", "all strings of <=3 symbols, known or not, as acceptors and transducers", list(itertools.product(ws, os_)), strings)
    rl = list(machines(2, 2, [(1, 2), (2, 1), (0, 1), (2, 2)], [0.5], [1.0], [0], True))
    m.family("relabelling", "machines x old and new tables x attach options x old tables passed or attached", list(itertools.product(rl, (["a", "b"], ["b", "a"]), (["b", "a"], ["z", "a", "b"], ["a"]), (True, False), (True, False), (True, False))), relabel)
    m.family("transitions", "field values incl. the largest label", list(itertools.product((0, 1, 2**32 - 2), (0, 3), (0.0, 1.5, INF), (0, 2))), tr)
    m.family("transition lists", "all sequences of <=4 (6) pushes, removals and clones", [s for k in range(m.pick(5, 7)) for s in itertools.product(range(7), repeat=k)], trs)
    dm = [x for x in machines(2, 2, [(1, 1), (1, 2), (0, 3)], [0.0, 1.5], [0.0], [0]) if len(x.fin) == 1 and len(x.all_arcs()) >= m.pick(2, 0)]
    m.family("drawing", "machines x every combination of drawing options, vector and immutable", list(itertools.product(dm, *[(True, False)] * 6)), draw)
    m.family("methods", "methods that no other family calls", ["remove_input_symbols", "remove_output_symbols"], methods)
    m.assumptions = ["weights are multiples of 1/2; relations of cyclic machines compared up to string length 4", "non-determinizable machines are outside the property"]
    shutil.rmtree(SCRATCH, ignore_errors=True)
    m.finish()


main()
