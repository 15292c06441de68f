# Executes operations, one JSON line at a time, through the Python package under test.
import ctypes
import json
import math
import os
import struct
import sys

from rustfst import ConstFst, DrawingConfig, SymbolTable, Tr, Trs, VectorFst
from rustfst.algorithms import acceptor, epsilon_machine, transducer
from rustfst.algorithms.compose import (
    ComposeConfig, ComposeFilter, MatcherConfig, MatcherRewriteMode, compose, compose_with_config,
)
from rustfst.algorithms.concat import concat, concat_list
from rustfst.algorithms.connect import connect
from rustfst.algorithms.determinize import DeterminizeConfig, DeterminizeType, determinize, determinize_with_config
from rustfst.algorithms.isomorphic import isomorphic
from rustfst.algorithms.minimize import MinimizeConfig, minimize, minimize_with_config
from rustfst.algorithms.optimize import optimize, optimize_in_log
from rustfst.algorithms.project import ProjectType, project
from rustfst.algorithms.randgen import randgen
from rustfst.algorithms.replace import replace
from rustfst.algorithms.reverse import reverse
from rustfst.algorithms.rm_epsilon import rm_epsilon
from rustfst.algorithms.shortest_path import ShortestPathConfig, shortestpath, shortestpath_with_config
from rustfst.algorithms.top_sort import top_sort
from rustfst.algorithms.tr_sort import tr_sort
from rustfst.algorithms.tr_unique import tr_unique
from rustfst.algorithms.union import union, union_list
from rustfst.ffi_utils import check_ffi_error, lib
from rustfst.weight import weight_one, weight_zero

F, S = {}, {}


def bits(w):
    return None if w is None else struct.unpack("<I", struct.pack("<f", w))[0]


def wt(b):
    return None if b is None else struct.unpack("<f", struct.pack("<I", b))[0]


def dtr(t):
    return None if t is None else [t.ilabel, t.olabel, bits(t.weight), t.next_state]


def mtr(t):
    w = wt(t[2])
    if w == 0 and math.copysign(1, w) > 0 and (t[0] + t[3]) % 2:
        return Tr(t[0], t[1], nextstate=t[3])  # no weight means weight one
    return Tr(t[0], t[1], w, t[3])


def dsym(s):
    return None if s is None else [[k, v] for k, v in s]


def dump(f):
    if isinstance(f, VectorFst):
        n = f.num_states()
        assert list(f.states()) == list(range(n))
    else:
        n = 0
        while True:
            try:
                f.num_trs(n)
            except ValueError:
                break
            n += 1
    st = [
        [bits(f.final(s)), f.is_final(s), f.is_start(s), f.num_trs(s), [dtr(t) for t in f.trs(s)]]
        for s in range(n)
    ]
    return {"n": n, "start": f.start(), "st": st, "is": dsym(f.input_symbols()), "os": dsym(f.output_symbols())}


def caught(f, *a):
    try:
        return f(*a)
    except ValueError:
        return "error"


def drawcfg(c):
    return DrawingConfig(
        acceptor=c[0], title=c[1], width=c[2], height=c[3], portrait=c[4], vertical=c[5], ranksep=c[6], nodesep=c[7],
        fontsize=c[8], show_weight_one=c[9], print_weight=c[10],
    )


def sy(i):
    return None if i is None else S[i]


def mcfg(m):
    if m is None:
        return None
    return MatcherConfig(m[0], MatcherRewriteMode(m[1]), m[2])


def ccfg(c):
    if c[2] is None and c[3] is None and c[4]:
        return ComposeConfig(ComposeFilter(c[0]), c[1])
    return ComposeConfig(ComposeFilter(c[0]), c[1], mcfg(c[2]), mcfg(c[3]))


def o_query(f, s):
    f = F[f]
    return [
        caught(lambda: bits(f.final(s))), caught(f.is_final, s), caught(f.is_start, s), caught(f.num_trs, s),
        caught(lambda: [dtr(t) for t in f.trs(s)]), f.start(),
    ]


def o_walk(f, s, k):
    it = F[f].trs(s)
    out = []
    for _ in range(k):
        if it.done():
            break
        out.append(dtr(next(it)))
    it.reset()
    rest = [dtr(t) for t in it]
    end = it.done()
    try:
        next(it)
        stop = False
    except StopIteration:
        stop = True
    return [out, rest, end, stop, temporary(F[f], s)]


def temporary(f, s):
    """Iterators outlive the variable that held their machine."""
    g = f.copy()
    it = g.trs(s)
    mt = g.copy().mutable_trs(s) if isinstance(g, VectorFst) else None
    st = g.copy().states() if mt is not None else []
    n = g.num_states() if mt is not None else 0
    del g
    junk = []
    for k in range(4):
        h = VectorFst()
        for _ in range(n):
            h.add_state()
        for x in range(n):
            h.add_tr(x, Tr(777, 778, 7.0, 0))
        junk.append(h)
    a = [dtr(t) for t in it]
    b = []
    while mt is not None and not mt.done():
        b.append(dtr(mt.value()))
        next(mt)
    return [a, a if mt is None else b, list(st) == list(range(n))]


def o_mut(f, s, steps):
    it = F[f].mutable_trs(s)
    out = []
    for st in steps:
        if st[0] == "v":
            out.append([it.done(), dtr(it.value())])
        elif st[0] == "n":
            next(it)
        elif st[0] == "r":
            it.reset()
        else:
            out.append(caught(it.set_value, mtr(st[1])))
    return out


def o_paths(f, k):
    it = F[f].string_paths()
    out = []
    while len(out) < k:
        d = it.done()
        if d:
            try:
                next(it)
                out.append("more after done")
            except StopIteration:
                out.append("done")
            break
        p = next(it)
        out.append([caught(p.istring), caught(p.ostring), bits(p.weight())])
    return out


def o_trs(steps):
    t = Trs()
    out = []
    for st in steps:
        if st[0] == "push":
            t.push(mtr(st[1]))
        elif st[0] == "remove":
            out.append(caught(lambda: dtr(t.remove(st[1]))))
        elif st[0] == "len":
            out.append(t.len())
        elif st[0] == "repr":
            out.append(repr(t))
        elif st[0] == "clone":
            u = t.shallow_clone()
            out.append(repr(u))
            if st[1]:
                u.push(mtr(st[1]))
                out.append(repr(u))
                out.append(repr(t))
    return out


def o_tr(t, sets):
    t = mtr(t)
    for k, v in sets:
        setattr(t, k, wt(v) if k == "weight" else v)
    u = mtr(dtr(t))
    return [dtr(t), t == u]


def o_lazyconcat(f, g):
    p = ctypes.pointer(ctypes.c_void_p())
    check_ffi_error(lib.concat_fst_new(ctypes.byref(p), F[f].ptr, F[g].ptr), "new")
    try:
        check_ffi_error(lib.concat_fst_compute(ctypes.byref(p)), "compute")
    except ValueError:
        raise
    return VectorFst(ptr=p)


def put(i, f):
    F[i] = f


def o_compose(h, f, g, cfg, how):
    if cfg is None:
        put(h, [compose, VectorFst.compose, VectorFst.__mul__][how](F[f], F[g]))
    elif how == 0:
        put(h, compose_with_config(F[f], F[g], ccfg(cfg)))
    else:
        put(h, F[f].compose(F[g], ccfg(cfg)))


def same(x, f):
    # in-place operations hand back the object they worked on
    if x is not F[f]:
        return "another object"


def o_det(h, f, cfg, how):
    if cfg is None:
        put(h, (determinize if how else VectorFst.determinize)(F[f]))
    else:
        c = DeterminizeConfig(DeterminizeType(cfg[0]), wt(cfg[1]))
        put(h, (determinize_with_config if how else VectorFst.determinize)(F[f], c))


def o_min(f, cfg, how):
    if cfg is None:
        return same((minimize if how else VectorFst.minimize)(F[f]), f)
    c = MinimizeConfig(wt(cfg[0]), cfg[1])
    return same((minimize_with_config if how else VectorFst.minimize)(F[f], c), f)


def o_sp(h, f, cfg, how):
    if cfg is None:
        put(h, (shortestpath if how else VectorFst.shortest_path)(F[f]))
    else:
        c = ShortestPathConfig(cfg[0], cfg[1], wt(cfg[2]))
        put(h, (shortestpath_with_config if how else VectorFst.shortest_path)(F[f], c))


def o_project(f, t, how):
    if t == 0 and how == 1:
        return same(F[f].project(), f)
    if how == 2:
        return same(F[f].project(ProjectType(t)), f)
    return same(project(F[f], ProjectType(t)), f)


def o_draw(f, path, si, so, cfg):
    F[f].draw(path, sy(si), sy(so), drawcfg(cfg))
    with open(path, encoding="utf8") as x:
        return x.read()


def o_opt(f, how):
    if how == 0:
        optimize(F[f])
    else:
        return same(F[f].optimize(), f)


def o_optlog(f, how):
    if how == 0:
        optimize_in_log(F[f])
    else:
        return same(F[f].optimize_in_log(), f)


def o_replace(h, root, pairs, eps, how):
    if how and pairs and pairs[0][0] == root:
        put(h, F[pairs[0][1]].replace(root, [(l, F[f]) for l, f in pairs[1:]], eps))
    else:
        put(h, replace(root, [(l, F[f]) for l, f in pairs], eps))


def o_sfind(s, k):
    return S[s].find(k)


def sof(t, f, o):
    x = (F[f].output_symbols if o else F[f].input_symbols)()
    # a second name for an object that has a name is not a second object
    S[t] = x.copy() if any(x is y for y in S.values()) else x


OPS = {
    "new": lambda f: put(f, VectorFst()),
    "add_state": lambda f: F[f].add_state(),
    "add_tr": lambda f, s, t: same(F[f].add_tr(s, mtr(t)), f),
    "set_start": lambda f, s: F[f].set_start(s),
    "set_final": lambda f, s, w: F[f].set_final(s, wt(w)) if w is not None else F[f].set_final(s),
    "unset_final": lambda f, s: F[f].unset_final(s),
    "delete_states": lambda f: F[f].delete_states(),
    "query": o_query,
    "walk": o_walk,
    "mut": o_mut,
    "eq": lambda f, g: [F[f].equals(F[g]), F[f] == F[g]],
    "copy": lambda h, f: put(h, F[f].copy()),
    "symi": lambda f, s: same(F[f].set_input_symbols(sy(s)), f),
    "symo": lambda f, s: same(F[f].set_output_symbols(sy(s)), f),
    "relabel": lambda f, oi, ni, ai, oo, no, ao: same(
        F[f].relabel_tables(
            old_isymbols=sy(oi), new_isymbols=S[ni], attach_new_isymbols=ai,
            old_osymbols=sy(oo), new_osymbols=S[no], attach_new_osymbols=ao,
        ), f),
    "draw": o_draw,
    "write": lambda f, p: F[f].write(p),
    "read": lambda f, p: put(f, VectorFst.read(p)),
    "cread": lambda f, p: put(f, ConstFst.read(p)),
    "tobytes": lambda f: F[f].to_bytes().hex(),
    "frombytes": lambda f, b: put(f, VectorFst.from_bytes(bytes.fromhex(b))),
    "str": lambda f: str(F[f]),
    "paths": o_paths,
    "compose": o_compose,
    "concat": lambda f, g, how: same((concat if how else VectorFst.concat)(F[f], F[g]), f),
    "union": lambda f, g, how: same((union if how else VectorFst.union)(F[f], F[g]), f),
    "add": lambda h, f, g: put(h, F[f] + F[g]),
    "or": lambda h, f, g: put(h, F[f] | F[g]),
    "concat_list": lambda h, l: put(h, concat_list([F[f] for f in l])),
    "union_list": lambda h, l: put(h, union_list([F[f] for f in l])),
    "lazyconcat": lambda h, f, g: put(h, o_lazyconcat(f, g)),
    "connect": lambda f, how: same((connect if how else VectorFst.connect)(F[f]), f),
    "det": o_det,
    "iso": lambda f, g, how: (isomorphic if how else VectorFst.isomorphic)(F[f], F[g]),
    "min": o_min,
    "opt": o_opt,
    "optlog": o_optlog,
    "project": o_project,
    "randgen": lambda h, f, n, seed, ml, w, r: put(
        h, randgen(F[f], npath=n, seed=seed, weight=w, remove_total_weight=r)
        if ml is None else randgen(F[f], n, seed, "uniform", ml, w, r)),
    "replace": o_replace,
    "reverse": lambda h, f, how: put(h, (reverse if how else VectorFst.reverse)(F[f])),
    "rmeps": lambda f, how: same(rm_epsilon(F[f]), f) if how else F[f].rm_epsilon(),
    "sp": o_sp,
    "topsort": lambda f, how: same((top_sort if how else VectorFst.top_sort)(F[f]), f),
    "trsort": lambda f, b, how: [tr_sort(F[f], b), None][1] if how else F[f].tr_sort(b),
    "trunique": lambda f, how: (tr_unique if how else VectorFst.tr_unique)(F[f]),
    "acceptor": lambda h, a, s, w: put(h, acceptor(a, S[s], wt(w)) if w is not None else acceptor(a, S[s])),
    "epsmachine": lambda h, w: put(h, epsilon_machine(wt(w)) if w is not None else epsilon_machine()),
    "transducer": lambda h, a, b, s, t, w: put(
        h, transducer(a, b, S[s], S[t], wt(w)) if w is not None else transducer(a, b, S[s], S[t])),
    "trs": o_trs,
    "tr": o_tr,
    "weights": lambda: [bits(weight_one()), bits(weight_zero())],
    "snew": lambda s: S.__setitem__(s, SymbolTable()),
    "sfrom": lambda s, l: S.__setitem__(s, SymbolTable.from_symbols(l)),
    "sadd": lambda s, x: S[s].add_symbol(x),
    "saddt": lambda s, t: S[s].add_table(S[t]),
    "scopy": lambda t, s: S.__setitem__(t, S[s].copy()),
    "sof": sof,
    "sfind": lambda s, k: S[s].find(k),
    "smember": lambda s, k: S[s].member(k),
    "snum": lambda s: S[s].num_symbols(),
    "seq": lambda s, t: [S[s].equals(S[t]), S[s] == S[t]],
    "swrite": lambda s, p, b: (S[s].write if b else S[s].write_text)(p),
    "sread": lambda s, p, b: S.__setitem__(s, (SymbolTable.read if b else SymbolTable.read_text)(p)),
}


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        if req["op"] == "reset":
            F.clear()
            S.clear()
            res = {}
        else:
            res = {}
            try:
                res["r"] = OPS[req["op"]](*req["a"])
            except ValueError as e:
                res["e"] = str(e)[:300]
            except Exception as e:  # anything else is not how errors are reported
                res["x"] = "%s: %s" % (type(e).__name__, str(e)[:300])
            try:
                res["F"] = {str(i): dump(F[i]) for i in req["f"] if i in F}
                res["S"] = {str(i): dsym(S[i]) for i in req["s"] if S.get(i) is not None}
                if req.get("b"):
                    res["b"] = {str(i): F[i].to_bytes().hex() for i in req["f"] if i in F}
            except Exception as e:
                res["x"] = "while looking at the objects: %s: %s" % (type(e).__name__, str(e)[:300])
        out.write(json.dumps(res) + "\n")
        out.flush()


main()
