"""Assumed contracts of the language runtime and standard library, as used by the repository.

Each handler states what the callable does on symbolic values; concrete arguments run the real thing.  Every use is
recorded in World.assumed and reported as an assumption."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import itertools
import re
import types
import typing

import z3

from . import kinds as K
from .engine import _MISSING, Raised, Run, mk_str, uf
from .prover import concat, is_concat, is_unit
from .values import (
    Bot, Bound, Builtin, Obj, PDict, PExc, PFun, PGen, PList, PObj, PRange, PSet, PIter, PTake, SeqV, Sym, Unsupported,
)

HOST = (str, int, float, bool, type(None))


def install(w):
    def lib(f, name=None):
        def deco(h):
            label = name or getattr(f, "__qualname__", str(f))

            def handler(run, args, kwargs):
                run.w.assumed.add(label)
                return h(run, args, kwargs)

            w.lib[id(f)] = handler
            w.keep.append(f)
            return h

        return deco

    def meth(tn, *names):
        def deco(h):
            for n in names:

                def handler(run, args, kwargs, n=n):
                    run.w.assumed.add(f"{tn}.{n}")
                    if args and all(isinstance(a, HOST) for a in args) and tn == "str" and not kwargs:
                        try:
                            r = getattr(str, n)(*args)
                        except Exception as e:
                            run.raise_(type(e))
                        return wrap(run, r)
                    return h(run, args, kwargs) if h.__code__.co_argcount == 3 else h(run, args, kwargs, n)

                w.methods[(tn, n)] = handler
            return h

        return deco

    w.keep = []

    # ---------------------------------------------------------------- builtins
    @lib(len)
    def _(run, a, k):
        return run.length(a[0])

    @lib(isinstance)
    def _(run, a, k):
        return run.isinstance_(a[0], a[1])

    @lib(callable)
    def _(run, a, k):
        return isinstance(a[0], (PFun, Bound, Builtin)) or callable(a[0])

    @lib(str)
    def _(run, a, k):
        return run.to_str(a[0]) if a else ""

    @lib(repr)
    def _(run, a, k):
        return run.fresh_str("repr", a[0])

    @lib(bool)
    def _(run, a, k):
        return run.truth(a[0]) if a else False

    @lib(int)
    def _(run, a, k):
        if not a:
            return 0
        v = run.resolve(a[0])
        if isinstance(v, HOST) and v is not None:
            try:
                return int(v)
            except Exception as e:
                run.raise_(type(e))
        if isinstance(v, Sym) and v.kind == K.Real:  # truncation towards zero
            return run.norm(K.Int, z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if isinstance(v, Sym) and v.kind in (K.Int, K.Bool):
            return Sym(K.Int, run.lift(v, K.Int))
        raise Unsupported("int()")

    @lib(float)
    def _(run, a, k):
        v = run.resolve(a[0]) if a else 0.0
        if isinstance(v, HOST) and v is not None:
            try:
                return float(v)
            except Exception as e:
                run.raise_(type(e))
        if isinstance(v, Sym) and v.kind in (K.Int, K.Real, K.Bool):
            return Sym(K.Real, run.lift(Sym(K.Int, run.lift(v, K.Int)) if v.kind == K.Bool else v, K.Real))
        if run.is_str(v):
            ok = uf("float_ok", z3.StringSort(), z3.BoolSort())(run.lift(v, K.Str))
            if not run.branch(ok):
                run.raise_(ValueError)
            return Sym(K.Real, uf("float_of", z3.StringSort(), z3.RealSort())(run.lift(v, K.Str)))
        run.raise_(TypeError)

    @lib(list)
    def _(run, a, k):
        return PList(run, run.iter_seq(a[0]) if a else SeqV())

    @lib(tuple)
    def _(run, a, k):
        sv = run.iter_seq(a[0]) if a else SeqV()
        return tuple(sv.items()) if sv.concrete() else sv

    @lib(set)
    def _(run, a, k):
        s = PSet(run, [])
        if a:
            run.loop(run.iter_seq(a[0]), lambda x: run.set_add(s, x))
        return s

    @lib(dict)
    def _(run, a, k):
        d = PDict(run, {})
        if a:
            v = run.resolve(a[0])
            if isinstance(v, PDict) or isinstance(v, Sym) and isinstance(v.kind, K.Map):
                d = run.dict_copy(v)
            else:
                run.dict_update(d, v)
        for kk, vv in k.items():
            run.dict_set(d, kk, vv)
        return d

    @lib(range)
    def _(run, a, k):
        a = [run.resolve(x) for x in a]
        if len(a) == 1:
            return PRange(0, a[0])
        return PRange(*a)

    @lib(min)
    @lib(max)
    def _(run, a, k):
        raise Unsupported("min/max")

    def minmax(is_min):
        def h(run, a, k):
            if len(a) == 1:
                sv = run.iter_seq(a[0])
                if not sv.concrete() or not sv.segs:
                    raise Unsupported("min of symbolic sequence")
                a = sv.items()
            if k:
                raise Unsupported("min key")
            a = [run.resolve(x) for x in a]
            if all(isinstance(x, (int, float)) for x in a):
                return min(a) if is_min else max(a)
            ts = [run.num(x) for x in a]
            kind = K.Int if all(t[1] == K.Int for t in ts) else K.Real
            ts = [z3.ToReal(t) if kd == K.Int and kind == K.Real else t for t, kd in ts]
            r = ts[0]
            for t in ts[1:]:
                r = z3.If(t < r, t, r) if is_min else z3.If(t > r, t, r)
            return run.norm(kind, r)

        return h

    lib(min)(minmax(True))
    lib(max)(minmax(False))

    @lib(abs)
    def _(run, a, k):
        t, kd = run.num(a[0])
        return run.norm(kd, z3.If(t < 0, -t, t))

    @lib(sorted)
    def _(run, a, k):
        key, rev = k.get("key"), k.get("reverse", False)
        sv = run.iter_seq(a[0])
        if sv.concrete() and len(sv.segs) == 2 and key is None and rev is False:
            x, y = sv.items()
            if run.truth(run.compare(ast.Lt(), y, x)):
                x, y = y, x
            return PList(run, SeqV.of([x, y]))
        if sv.concrete() and len(sv.segs) <= 1:
            return PList(run, sv)
        ek = run.elem_kind(sv)
        t = run.seq_term(sv, ek)
        tag = "none"
        if key is not None:
            if key is str:
                tag = "str"
            else:
                x = z3.Const("!sk", ek.sort())
                kv = run.call(key, [run.value_of(ek, x)], {})
                tag = "k" + str(abs(hash(run.lift(kv, run.kind_of(kv)).sexpr())))
        if not isinstance(rev, bool):
            rev = run.truth(rev)
        f = uf(f"sorted_{tag}_{rev}_{ek.key}", t.sort(), t.sort())
        run.reg.rules.setdefault(f.name(), [lambda t: [z3.Length(t) == z3.Length(t.arg(0)), z3.Implies(z3.Length(t.arg(0)) == 1, t == t.arg(0))]])
        return PList(run, SeqV.sym(Sym(K.Seq(ek), f(t))))

    @lib(enumerate)
    def _(run, a, k):
        sv = run.iter_seq(a[0])
        start = a[1] if len(a) > 1 else k.get("start", 0)
        if sv.concrete():
            return PGen(run, trace=SeqV.of([(run.binop(ast.Add(), start, i), x) for i, x in enumerate(sv.items())]))
        ek = run.elem_kind(sv)
        t = run.seq_term(sv, ek)
        tk = K.Tup(K.Int, ek)
        idx = run.range_seq(PRange(0, run.length(PList(run, sv)))).segs
        i = z3.Const(f"!i{next(run.reg.fresh_n)}", z3.IntSort())
        st, _k = run.num(start)
        r = run.reg.mk_fm(idx[0][1].t, i, z3.Unit(tk.make([i + st, t[i]])))
        return PGen(run, trace=SeqV.sym(Sym(K.Seq(tk), r)))

    @lib(zip)
    def _(run, a, k):
        if len(a) == 1 and type(a[0]).__name__ == "_StarSeq":  # zip(*rows) of a sequence of tuples: its columns
            sv = a[0].sv
            ek = run.elem_kind(sv)
            if not isinstance(ek, K.Tup):
                raise Unsupported("zip(*rows)")
            t = run.seq_term(sv, ek)
            if run.branch(z3.Length(t) == 0):
                return PGen(run, trace=SeqV())
            x = z3.FreshConst(ek.sort(), "row")
            cols = [SeqV.sym(Sym(K.Seq(c, "tuple"), run.reg.mk_fm(t, x, z3.Unit(ek.get(x, j))))) for j, c in enumerate(ek.ks)]
            return PGen(run, trace=SeqV.of([run.value_of(K.Seq(c, "tuple"), s.segs[0][1].t) for c, s in zip(ek.ks, cols)]))
        its = [run.resolve(x) for x in a]
        if any(run.endless(x) for x in its):
            if all(run.endless(x) for x in its):
                return PIter(run, lambda r: tuple(r.next_(x) for x in its), "zip")
            raise Unsupported("zip of a never-ending generator and a sequence")
        svs = [run.iter_seq(x) for x in its]
        if all(s.concrete() for s in svs):
            return PGen(run, trace=SeqV.of([tuple(t) for t in zip(*[s.items() for s in svs])]))
        ks = [run.elem_kind(s) for s in svs]
        ts = [run.seq_term(s, kk) for s, kk in zip(svs, ks)]
        # zip of two maps of one sequence is a map of pairs
        def under(t):  # a map of one value each: (the sequence it maps, element of the map at an index within bounds)
            fm = run.reg.fms.get(t.decl().name()) if z3.is_app(t) else None
            if fm is not None and is_unit(fm.body):
                xs, at = under(t.arg(0))
                return xs, lambda i: fm.inst(at(i), [t.arg(j) for j in range(1, t.num_args())]).arg(0)
            return t, lambda i: t[i]

        us = [under(t) for t in ts]
        n = z3.Length(us[0][0])
        for t, _at in us[1:]:
            if not t.eq(us[0][0]):
                n = z3.If(z3.Length(t) < n, z3.Length(t), n)
        tk = K.Tup(*ks)
        i = z3.Const(f"!i{next(run.reg.fresh_n)}", z3.IntSort())
        idx = run.range_seq(PRange(0, run.norm(K.Int, n)))
        if idx.concrete():
            return PGen(run, trace=SeqV.of([tuple(run.value_of(kk, t[j]) for kk, t in zip(ks, ts)) for j in range(len(idx.segs))]))
        r = run.reg.mk_fm(idx.segs[0][1].t, i, z3.Unit(tk.make([at(i) for _t, at in us])))
        return PGen(run, trace=SeqV.sym(Sym(K.Seq(tk), r)))

    @lib(iter)
    def _(run, a, k):
        return run.iter_(a[0])

    @lib(next)
    def _(run, a, k):
        return run.next_(*a)

    def anyall(is_any):
        def h(run, a, k):
            sv = run.iter_seq(a[0])
            if sv.concrete():
                for x in sv.items():
                    if run.truth(x) == is_any:
                        return is_any
                return not is_any
            cs = []
            for tag, x in sv.segs:
                if tag == "i":
                    if run.truth(x) == is_any:
                        return is_any
                else:
                    if x.kind.elem != K.Bool:
                        raise Unsupported("any/all")
                    c = z3.Contains(x.t, z3.Unit(z3.BoolVal(is_any)))
                    cs.append(c if is_any else z3.Not(c))
            return run.mkbool(z3.Or(*cs) if is_any else z3.And(*cs))

        return h

    lib(any)(anyall(True))
    lib(all)(anyall(False))

    @lib(sum)
    def _(run, a, k):
        acc = [a[1] if len(a) > 1 else 0]
        box = PList(run, SeqV.of([acc[0]]))

        def add(x):
            cur = box.f["v"].items()[0]
            run.set(box, "v", SeqV.of([run.binop(ast.Add(), cur, x)]))

        sv = run.iter_seq(a[0])
        if not sv.concrete():
            ek = run.elem_kind(sv)
            return Sym(ek, uf("sum_" + ek.key, z3.SeqSort(ek.sort()), ek.sort())(run.seq_term(sv, ek)))
        run.loop(sv, add)
        return box.f["v"].items()[0]

    @lib(getattr)
    def _(run, a, k):
        if len(a) == 3:
            o = run.resolve(a[0])
            if run.is_str(o):
                return a[2] if not hasattr(str, a[1]) else run.getattr_(o, a[1])
            try:
                return run.getattr_(o, a[1])
            except Raised as r:
                if issubclass(r.exc.cls, AttributeError):
                    return a[2]
                raise
        return run.getattr_(a[0], a[1])

    @lib(hasattr)
    def _(run, a, k):
        try:
            run.getattr_(a[0], a[1])
            return True
        except Raised as r:
            if issubclass(r.exc.cls, AttributeError):
                return False
            raise

    @lib(type)
    def _(run, a, k):
        return run.class_of(run.resolve(a[0]))

    @lib(map)
    def _(run, a, k):
        if len(a) != 2:
            raise Unsupported("map")
        out = PList(run, SeqV())
        it = run.resolve(a[1])

        def thunk():
            run.loop(run.iter_seq(it), lambda x: run.append(out, run.call(a[0], [x], {})))
            return out.f["v"]

        return PGen(run, thunk, label="map")

    @lib(filter)
    def _(run, a, k):
        out = PList(run, SeqV())
        it = run.resolve(a[1])

        def step(x):
            if run.truth(x if a[0] is None else run.call(a[0], [x], {})):
                run.append(out, x)

        def thunk():
            run.loop(run.iter_seq(it), step)
            return out.f["v"]

        return PGen(run, thunk, label="filter")

    def rev_f(run, ek, t):
        f = uf("rev_" + ek.key, t.sort(), t.sort())
        run.reg.rules.setdefault(f.name(), [lambda t: [z3.Length(t) == z3.Length(t.arg(0)), z3.Implies(z3.Length(t.arg(0)) == 1, t == t.arg(0))]])
        return f(t)

    @lib(reversed)
    def _(run, a, k):
        sv = run.iter_seq(a[0])
        if sv.concrete():
            return PGen(run, trace=SeqV.of(list(reversed(sv.items()))))
        ek = run.elem_kind(sv)
        t = run.seq_term(sv, ek)
        return PGen(run, trace=SeqV.sym(Sym(K.Seq(ek), rev_f(run, ek, t))))

    @lib(round)
    def _(run, a, k):
        ts = [run.num(x)[0] for x in a]
        return Sym(K.Real, uf(f"round{len(ts)}", *[t.sort() for t in ts], z3.RealSort())(*ts))

    @lib(typing.cast)
    def _(run, a, k):
        return a[1]

    @lib(dataclasses.replace)
    def _(run, a, k):
        return run.dc_replace(a[0], k)

    @lib(object.__setattr__)
    def _(run, a, k):
        if not isinstance(a[0], PObj):
            raise Unsupported("object.__setattr__")
        run.set(a[0], a[1], a[2])

    # ---------------------------------------------------------------- itertools
    @lib(itertools.islice)
    def _(run, a, k):
        it = run.resolve(a[0])
        n = run.resolve(a[1]) if len(a) == 2 else None
        if len(a) != 2:
            raise Unsupported("islice with start")
        if n is None:
            return it
        if run.truth(run.compare(ast.Lt(), n, 0)):
            run.raise_(ValueError)
        if run.endless(it):
            def take():
                out = PList(run, SeqV())
                run.loop(run.iter_seq(PRange(0, g.f["left"])), lambda _x: run.append(out, run.next_(it)))
                return out.f["v"]

            g = PTake(run, take, it, n)
            return g
        if isinstance(it, PTake) and isinstance(n, int) and n <= 4 and it.f["rest"] is None:
            def few():
                out = PList(run, SeqV())
                for _ in range(n):
                    x = run.next_(it, None)
                    if x is None:
                        break
                    run.append(out, x)
                return out.f["v"]

            return PGen(run, few, label="islice")
        if not isinstance(it, PGen):
            it = run.iter_(it)

        def thunk():
            sv = run.force(it)
            if not sv.segs:
                return sv
            lst = PList(run, sv)
            r = run.as_seq(run.getslice(lst, slice(None, n)))
            run.set(it, "rest", run.as_seq(run.getslice(lst, slice(n, None))))
            return r

        return PGen(run, thunk, label="islice")

    @lib(itertools.chain)
    def _(run, a, k):
        def thunk():
            sv = SeqV()
            for x in a:
                sv = sv + run.iter_seq(x)
            return sv

        return PGen(run, thunk, label="chain")

    def acc_f(run, ek, t):
        f = uf("accumulate_" + ek.key, t.sort(), t.sort())
        run.reg.rules.setdefault(f.name(), [lambda t: [z3.Length(t) == z3.Length(t.arg(0)), z3.Implies(z3.Length(t.arg(0)) == 1, t == t.arg(0))]])
        return f(t)

    @lib(itertools.accumulate)
    def _(run, a, k):
        sv = run.iter_seq(a[0])
        ek = run.elem_kind(sv)
        if ek is Bot:
            return PGen(run, trace=SeqV())
        t = run.seq_term(sv, ek)
        return PGen(run, trace=SeqV.sym(Sym(K.Seq(ek), acc_f(run, ek, t))))

    @lib(itertools.cycle)
    def _(run, a, k):
        return run.cycle_(a[0])

    # ---------------------------------------------------------------- re
    def re_fn(kind, run, pat, *ts, ret):
        ts = [run.lift(t, K.Str) for t in ts]
        f = uf(f"re_{kind}<{pat}>", *[t.sort() for t in ts], ret.sort())
        return f(*ts)

    @lib(re.sub)
    def _(run, a, k):
        if not isinstance(a[0], str):
            raise Unsupported("re.sub pattern")
        flags = k.get("flags", 0)
        if all(isinstance(x, str) for x in a[:3]):
            return re.sub(*a, **k)
        if not run.is_str(a[1]):
            raise Unsupported("re.sub callable")
        return Sym(K.Str, re_fn("sub%d" % flags, run, a[0], a[1], a[2], ret=K.Str))

    @lib(re.findall)
    def _(run, a, k):
        if not isinstance(a[0], str) or k:
            raise Unsupported("re.findall pattern")
        n = re.compile(a[0]).groups
        kind = K.Seq(K.Tup(*[K.Str] * n) if n > 1 else K.Str)
        return PList(run, SeqV.sym(Sym(kind, re_fn("findall", run, a[0], a[1], ret=kind))))

    @lib(pow)
    def _(run, a, k):
        if all(isinstance(x, (int, float)) for x in a):
            return pow(*a)
        ts = [run.lift(x, K.Real) for x in a]
        return Sym(K.Real, uf("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())(*ts))

    @lib(str.maketrans)
    def _(run, a, k):
        if not all(isinstance(x, str) for x in a):
            raise Unsupported("str.maketrans")
        return PDict(run, str.maketrans(*a))

    import fnmatch as _fn

    @lib(_fn.fnmatch)
    def _(run, a, k):
        return run.mkbool(uf("fnmatch", z3.StringSort(), z3.StringSort(), z3.BoolSort())(run.lift(a[0], K.Str), run.lift(a[1], K.Str)))

    MATCH = K.Opaque("re_Match")

    def search(which):
        def h(run, a, k):
            pat, s = a[0], a[1]
            if isinstance(pat, re.Pattern):
                pat = pat.pattern
            s = run.resolve(s)
            if isinstance(s, str):
                m = getattr(re, which)(pat, s)
                return m
            ok = K.Opt(MATCH)
            t = re_fn(which, run, pat, s, ret=ok)
            st = re_fn(which + "_start", run, pat, s, ret=K.Int)
            en = re_fn(which + "_end", run, pat, s, ret=K.Int)
            # a match lies inside the string
            run.assume(z3.Implies(z3.Not(ok.is_none(t)), z3.And(0 <= st, st <= en, en <= z3.Length(run.lift(s, K.Str)))))
            m = run.resolve(Sym(ok, t))
            if m is None:
                return None
            o = PObj(run, _Match, {"_start": run.norm(K.Int, st), "_end": run.norm(K.Int, en), "_s": s, "_pat": pat})
            return o

        return h

    for nm in ("search", "match", "fullmatch"):
        lib(getattr(re, nm))(search(nm))
        w.methods[("Pattern", nm)] = search(nm)

    @lib(_Match.start)
    def _(run, a, k):
        return a[0].f["_start"]

    @lib(_Match.end)
    def _(run, a, k):
        return a[0].f["_end"]

    @lib(re.compile)
    def _(run, a, k):
        if all(isinstance(x, HOST) for x in a):
            return re.compile(*a)
        raise Unsupported("re.compile")

    # ---------------------------------------------------------------- str
    def S(run, v):
        return run.lift(v, K.Str)

    @meth("str", "startswith", "endswith")
    def _(run, a, k, n):
        p = run.resolve(a[1])
        f = z3.PrefixOf if n == "startswith" else z3.SuffixOf
        if isinstance(p, tuple):
            return run.mkbool(z3.Or(*[f(S(run, x), S(run, a[0])) for x in p]))
        if not run.is_str(p):
            run.raise_(TypeError)
        if len(a) > 2:
            raise Unsupported("startswith range")
        return run.mkbool(f(S(run, p), S(run, a[0])))

    @meth("str", "removeprefix", "removesuffix")
    def _(run, a, k, n):
        s, p = S(run, a[0]), S(run, a[1])
        if n == "removeprefix":
            return run.norm(K.Str, z3.If(z3.PrefixOf(p, s), z3.SubString(s, z3.Length(p), z3.Length(s) - z3.Length(p)), s))
        return run.norm(K.Str, z3.If(z3.SuffixOf(p, s), z3.SubString(s, z3.IntVal(0), z3.Length(s) - z3.Length(p)), s))

    @meth("str", "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase", "expandtabs", "zfill")
    def _(run, a, k, n):
        ts = [S(run, x) for x in a]
        return Sym(K.Str, uf(f"str_{n}{len(ts)}", *[t.sort() for t in ts], z3.StringSort())(*ts))

    @meth("str", "isdigit", "isspace", "isalpha", "isalnum", "isidentifier", "isupper", "islower", "isnumeric", "isdecimal")
    def _(run, a, k, n):
        return run.mkbool(uf("str_" + n, z3.StringSort(), z3.BoolSort())(S(run, a[0])))

    @meth("str", "translate")
    def _(run, a, k):
        d = a[1].f["v"] if isinstance(a[1], PDict) else None
        if not isinstance(d, dict) or not all(isinstance(x, (int, str)) or x is None for x in d.values()):
            raise Unsupported("str.translate table")
        return Sym(K.Str, uf(f"str_translate<{sorted(d.items(), key=repr)!r}>", z3.StringSort(), z3.StringSort())(S(run, a[0])))

    @meth("str", "replace")
    def _(run, a, k):
        ts = [S(run, x) for x in a[:3]]
        return Sym(K.Str, uf("str_replace_all", *[t.sort() for t in ts], z3.StringSort())(*ts))

    @meth("str", "split", "splitlines", "rsplit")
    def _(run, a, k, n):
        ts = [run.lift(x, run.kind_of(x)) for x in a if x is not None]
        f = uf(f"str_{n}{len(ts)}_" + "_".join(t.sort().name() for t in ts), *[t.sort() for t in ts], z3.SeqSort(z3.StringSort()))
        t = f(*ts)
        if n == "split" and len(ts) == 2:
            run.assume(z3.Length(t) >= 1)
        return PList(run, SeqV.sym(Sym(K.Seq(K.Str), t)))

    @meth("str", "partition", "rpartition")
    def _(run, a, k, n):
        s, p = S(run, a[0]), S(run, a[1])
        if n == "partition":
            i = z3.IndexOf(s, p, z3.IntVal(0))
        else:
            i = z3.LastIndexOf(s, p)
        if run.branch(i < 0):
            return (a[0], "", "") if n == "partition" else ("", "", a[0])
        return (
            run.norm(K.Str, z3.SubString(s, z3.IntVal(0), i)), a[1],
            run.norm(K.Str, z3.SubString(s, i + z3.Length(p), z3.Length(s) - i - z3.Length(p))),
        )

    @meth("str", "find")
    def _(run, a, k):
        return run.norm(K.Int, z3.IndexOf(S(run, a[0]), S(run, a[1]), z3.IntVal(0)))

    @meth("str", "join")
    def _(run, a, k):
        sep = a[0]
        sv = run.iter_seq(a[1])
        if sv.concrete():
            items = sv.items()
            if not items:
                return ""
            r = items[0]
            for x in items[1:]:
                r = run.binop(ast.Add(), run.binop(ast.Add(), r, sep), x)
            return r
        t = run.seq_term(sv, K.Str)
        return Sym(K.Str, uf("str_join", z3.StringSort(), t.sort(), z3.StringSort())(S(run, sep), t))

    @meth("str", "format", "encode", "count")
    def _(run, a, k, n):
        raise Unsupported("str." + n)

    def join_facts(t):
        sep, xs = t.arg(0), t.arg(1)
        out = [z3.Implies(z3.Length(xs) == 0, t == z3.StringVal("")), z3.Implies(z3.Length(xs) == 1, t == xs[0])]
        if is_unit(xs):
            out = [t == xs.arg(0)]
        elif z3.is_string_value(sep) and sep.as_string() == "" and is_concat(xs):  # "".join(a + b) == "".join(a) + "".join(b)
            out.append(t == concat(*[x.arg(0) if is_unit(x) else t.decl()(sep, x) for x in xs.children()]))
        return out

    w.reg.rules.setdefault("str_join", []).append(join_facts)

    def range_facts(t):
        a, b = t.arg(0), t.arg(1)
        return [z3.Length(t) == z3.If(b > a, b - a, z3.IntVal(0))]

    w.reg.rules.setdefault("py_range", []).append(range_facts)

    # ---------------------------------------------------------------- list
    def L(run, v):
        if isinstance(v, PList):
            return v
        raise Unsupported("mutation of a symbolic list value")

    @meth("list", "append")
    def _(run, a, k):
        run.append(L(run, a[0]), a[1])

    @meth("list", "extend")
    def _(run, a, k):
        lst = L(run, a[0])
        sv = run.iter_seq(a[1])
        run.set(lst, "v", lst.f["v"] + sv)

    @meth("list", "copy")
    def _(run, a, k):
        return PList(run, run.as_seq(a[0]))

    @meth("list", "clear")
    def _(run, a, k):
        run.set(L(run, a[0]), "v", SeqV())

    @meth("list", "pop")
    def _(run, a, k):
        return run.list_pop(L(run, a[0]), a[1] if len(a) > 1 else -1)

    @meth("list", "insert")
    def _(run, a, k):
        lst = L(run, a[0])
        if a[1] == 0:
            run.set(lst, "v", SeqV.of([a[2]]) + lst.f["v"])
        else:
            pre = run.as_seq(run.getslice(lst, slice(None, a[1])))
            post = run.as_seq(run.getslice(lst, slice(a[1], None)))
            run.set(lst, "v", pre + SeqV.of([a[2]]) + post)

    @meth("list", "index")
    def _(run, a, k):
        sv = run.as_seq(a[0])
        if sv.concrete():
            for i, x in enumerate(sv.items()):
                if run.truth(run.mkbool(run.eq(x, a[1]))):
                    return i
            run.raise_(ValueError)
        ek = run.elem_kind(sv)
        t = run.seq_term(sv, ek)
        i = z3.IndexOf(t, z3.Unit(run.lift(a[1], ek)), z3.IntVal(0))
        if run.branch(i < 0):
            run.raise_(ValueError)
        return run.norm(K.Int, i)

    @meth("list", "sort")
    def _(run, a, k):
        lst = L(run, a[0])
        r = run.call(sorted, [PList(run, lst.f["v"])], k)
        run.set(lst, "v", r.f["v"])

    @meth("list", "remove")
    def _(run, a, k):
        lst = L(run, a[0])
        i = run.call(run.getattr_(lst, "index"), [a[1]], {})
        run.list_pop(lst, i)

    @meth("list", "reverse")
    def _(run, a, k):
        lst = L(run, a[0])
        run.set(lst, "v", run.force(run.call(reversed, [PList(run, lst.f["v"])], {})))

    # ---------------------------------------------------------------- dict / set
    @meth("dict", "get")
    def _(run, a, k):
        return run.dict_getitem(a[0], a[1], a[2] if len(a) > 2 else None, True)

    @meth("dict", "items")
    def _(run, a, k):
        return PList(run, run.dict_items(a[0]))

    @meth("dict", "keys")
    def _(run, a, k):
        return PList(run, run.dict_keys(a[0]))

    @meth("dict", "values")
    def _(run, a, k):
        sv = run.dict_items(a[0])
        out = PList(run, SeqV())
        run.loop(sv, lambda p: run.append(out, run.getitem(p, 1)))
        return out

    @meth("dict", "copy")
    def _(run, a, k):
        return run.dict_copy(a[0])

    @meth("dict", "clear")
    def _(run, a, k):
        if not isinstance(a[0], PDict):
            raise Unsupported("clear")
        v = a[0].f["v"]
        run.set(a[0], "v", Sym(v.kind, v.kind.empty()) if isinstance(v, Sym) else {})

    @meth("dict", "update")
    def _(run, a, k):
        for x in a[1:]:
            run.dict_update(a[0], x)
        for kk, vv in k.items():
            run.dict_set(a[0], kk, vv)

    @meth("dict", "pop")
    def _(run, a, k):
        if len(a) > 2:
            if not run.truth(run.contains(a[1], a[0])):
                return a[2]
        return run.dict_pop(a[0], a[1])

    @meth("dict", "setdefault")
    def _(run, a, k):
        if not run.truth(run.contains(a[1], a[0])):
            run.dict_set(a[0], a[1], a[2] if len(a) > 2 else None)
        return run.dict_getitem(a[0], a[1])

    @lib(dict.fromkeys, "dict.fromkeys")
    def _(run, a, k):
        sv = run.iter_seq(a[0])
        if sv.concrete() and all(isinstance(x, HOST) for x in sv.items()):
            return PDict(run, dict.fromkeys(sv.items(), a[1] if len(a) > 1 else None))
        ek = run.elem_kind(sv)
        t = run.seq_term(sv, ek)
        # only its key order is modelled: first occurrences, in order
        f = uf("first_occurrences_" + ek.key, t.sort(), t.sort())
        run.reg.rules.setdefault(
            f.name(),
            [lambda t: [z3.Length(t) <= z3.Length(t.arg(0)), z3.Implies(z3.Length(t.arg(0)) > 0, z3.Length(t) > 0), z3.Implies(z3.Length(t.arg(0)) == 1, t == t.arg(0))]],
        )
        return PList(run, SeqV.sym(Sym(K.Seq(ek), f(t))))

    fk = w.lib.pop(id(w.keep.pop()))
    w.methods[("type", "fromkeys")] = lambda run, a, k: fk(run, a[1:], k)

    @meth("set", "add")
    def _(run, a, k):
        run.set_add(a[0], a[1])

    @meth("set", "copy")
    def _(run, a, k):
        v = a[0].f["v"]
        return PSet(run, v if isinstance(v, Sym) else list(v))

    @meth("set", "union")
    def _(run, a, k):
        return run.set_union(a[0], a[1])

    @meth("set", "update")
    def _(run, a, k):
        for x in a[1:]:
            run.loop(run.iter_seq(x), lambda y: run.set_add(a[0], y))


class _Match:
    def start(self):
        raise NotImplementedError

    def end(self):
        raise NotImplementedError


def wrap(run, v):
    if isinstance(v, list):
        return PList(run, SeqV.of([wrap(run, x) for x in v]))
    return v
