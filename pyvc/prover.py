"""Obligation prover: z3 plus ground saturation for sequence combinators (flat-map, fold, recursive specs)
and goal-time extensionality for them.  Everything it adds to a query is either the definition of a combinator
instantiated on ground terms, or an equality whose own proof obligation was discharged recursively."""
from __future__ import annotations

import itertools
import time

import z3

UN = z3.Z3_OP_UNINTERPRETED


def free_consts(t, acc=None, seen=None):
    """Uninterpreted constants in term (in order of first occurrence)."""
    if acc is None:
        acc, seen = [], set()
    stack = [t]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            stack.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == UN:
                acc.append(e)
            else:
                stack.extend(reversed(e.children()))
    return acc


def contains_any(t, ids):
    seen = set()
    stack = [t]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(e):
            stack.append(e.body())
        elif z3.is_app(e):
            stack.extend(e.children())
    return False


def subst(t, pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    return z3.substitute(t, *pairs) if pairs else t


def is_empty_seq(t):
    if not z3.is_app(t):
        return False
    if t.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return True
    return z3.is_string_value(t) and t.as_string() == ""


def is_unit(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT


def is_concat(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT


def is_ite(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def concat(*ts):
    ts = [t for t in ts if not is_empty_seq(t)] or [ts[0]]
    flat = []
    for t in ts:
        if is_concat(t):
            flat.extend(seq_parts(t))
        else:
            flat.append(t)
    return flat[0] if len(flat) == 1 else z3.Concat(*flat)


def seq_parts(t):
    return [p for c in t.children() for p in seq_parts(c)] if is_concat(t) else [t]


def lin(e, sign=1, acc=None):
    """Linear form over sequence lengths: ({id: (atom, coeff)}, const) or None."""
    if acc is None:
        acc = [{}, 0]
    if z3.is_int_value(e):
        acc[1] += sign * e.as_long()
        return acc
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        for c in e.children():
            if lin(c, sign, acc) is None:
                return None
        return acc
    if k == z3.Z3_OP_SUB:
        if lin(e.arg(0), sign, acc) is None:
            return None
        for c in e.children()[1:]:
            if lin(c, -sign, acc) is None:
                return None
        return acc
    if k == z3.Z3_OP_UMINUS:
        return lin(e.arg(0), -sign, acc)
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        return lin(e.arg(1), sign * e.arg(0).as_long(), acc)
    if k == z3.Z3_OP_SEQ_LENGTH:
        for q in seq_parts(e.arg(0)):
            if is_unit(q):
                acc[1] += sign
            elif is_empty_seq(q):
                pass
            elif is_concat(q):
                lin(z3.Length(q), sign, acc)
            elif z3.is_string_value(q):
                acc[1] += sign * z3.simplify(z3.Length(q)).as_long()
            else:
                a, c = acc[0].get(q.get_id(), (q, 0))
                acc[0][q.get_id()] = (q, c + sign)
        return acc
    return None


def decide(c):
    """Truth of a comparison of lengths that follows from their being non-negative, else None."""
    k = c.decl().kind()
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if k == z3.Z3_OP_NOT:
        r = decide(c.arg(0))
        return None if r is None else not r
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        rs = [decide(x) for x in c.children()]
        stop = k == z3.Z3_OP_OR
        if stop in rs:
            return stop
        return (not stop) if None not in rs else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or k == z3.Z3_OP_EQ and z3.is_int(c.arg(0)):
        acc = lin(c.arg(0))
        acc = acc and lin(c.arg(1), -1, acc)
        if acc is None:
            return None
        cs = [v for _, v in acc[0].values() if v]
        lo = acc[1] if all(v > 0 for v in cs) else None
        hi = acc[1] if all(v < 0 for v in cs) else None
        if k == z3.Z3_OP_EQ:
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            return True if lo == 0 and hi == 0 else None
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            lo, hi = (-hi if hi is not None else None), (-lo if lo is not None else None)
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if lo is not None and (lo >= 0 if strict else lo > 0):
            return False
        if hi is not None and (hi < 0 if strict else hi <= 0):
            return True
    return None


def same_len(a, b):
    acc = lin(a)
    acc = acc and lin(b, -1, acc)
    return acc is not None and acc[1] == 0 and all(v == 0 for _, v in acc[0].values())


def fold_seq(t, memo=None, reg=None):
    """Rewrite nth / extract / length comparisons over sequences whose first elements are visible."""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    r = t
    if z3.is_app(t) and t.num_args():
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = fold_seq(t.arg(0), memo, reg)
            d = decide(c)
            if d is not None:
                r = fold_seq(t.arg(1) if d else t.arg(2), memo, reg)
                memo[i] = (t, r)
                return r
        ch = [fold_seq(c, memo, reg) for c in t.children()]
        if any(not a.eq(b) for a, b in zip(ch, t.children())):
            if is_concat(t):
                r = concat(*ch)
            else:
                r = t.decl()(*ch) if k != z3.Z3_OP_ITE else z3.If(*ch)
        elif is_concat(t) and any(is_concat(c) for c in ch):
            r = concat(*ch)
        k = r.decl().kind()
        if reg is not None and k == UN and r.decl().name() in reg.fms:
            q = reg.reduce_fm(reg.fms[r.decl().name()], r.arg(0), [r.arg(j) for j in range(1, r.num_args())])
            memo[i] = (t, q)
            return q
        if reg is not None and k == UN and r.decl().name() in reg.folds:
            fo, j = reg.folds[r.decl().name()]
            x0 = reg.norm(r.arg(0))
            if is_unit(x0) or is_concat(x0) or is_empty_seq(x0):
                ns = len(fo.states)
                q = reg.reduce_fold(fo, x0, [r.arg(j2) for j2 in range(1, 1 + ns)], [r.arg(j2) for j2 in range(1 + ns, r.num_args())])[j]
                memo[i] = (t, q)
                return q
        if k in (z3.Z3_OP_SEQ_NTH, z3.Z3_OP_SEQ_AT) or r.decl().name() in ("seq.nth", "seq.nth_i"):
            ps, n = seq_parts(r.arg(0)), r.arg(1)
            if z3.is_int_value(n) and 0 <= n.as_long() < len(ps) and all(is_unit(q) for q in ps[: n.as_long() + 1]) and r.decl().kind() != z3.Z3_OP_SEQ_AT:
                r = ps[n.as_long()].arg(0)
        elif k == z3.Z3_OP_SEQ_EXTRACT:
            ps, a, b = seq_parts(r.arg(0)), r.arg(1), r.arg(2)
            if z3.is_int_value(a) and 0 <= a.as_long() <= len(ps) and all(is_unit(q) for q in ps[: a.as_long()]):
                if same_len(b, z3.Length(r.arg(0)) - a):
                    rest = ps[a.as_long():]
                    r = concat(*rest) if rest else z3.Empty(r.sort())
    memo[i] = (t, r)
    return r


def is_def(f, pairs):
    return z3.is_eq(f) and any(a.eq(f.arg(0)) and b.eq(f.arg(1)) or a.eq(f.arg(1)) and b.eq(f.arg(0)) for a, b in pairs if z3.is_string_value(b))


def eliminate(fs, reg=None):
    """Substitute constants that are defined as a concatenation by an equation among the formulas."""
    pairs = []
    for f in fs:
        while z3.is_not(f) and z3.is_not(f.arg(0)):
            f = f.arg(0).arg(0)
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_LE and z3.is_int_value(f.arg(1)) and f.arg(1).as_long() == 0 and f.arg(0).decl().kind() == z3.Z3_OP_SEQ_LENGTH:
            x = f.arg(0).arg(0)
            if z3.is_const(x) and x.decl().kind() == UN:
                pairs.append((x, z3.Empty(x.sort())))
                continue
        if z3.is_eq(f):
            a, b = f.arg(0), f.arg(1)
            if z3.is_const(a) and a.decl().kind() == UN and is_concat(b) and b.arg(0).num_args() == 1 and z3.is_const(b.arg(0).arg(0)):
                if b.arg(0).arg(0).decl().name().startswith("hd$"):
                    pairs.append((a, b))
            elif z3.is_string_value(a) and z3.is_app(b) and b.decl().kind() == UN:
                pairs.append((b, a))
            elif z3.is_string_value(b) and z3.is_app(a) and a.decl().kind() == UN:
                pairs.append((a, b))
    if not pairs:
        return list(fs)
    for _ in range(3):
        pairs = [(a, z3.substitute(b, *[p for p in pairs if not p[0].eq(a)])) for a, b in pairs]
    return [f if is_def(f, pairs) else fold_seq(z3.substitute(f, *pairs), reg=reg) for f in fs]


def refuted(c):
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(c)
    return s.check() == z3.unsat


class FM:
    """flat-map combinator: fm(xs) = concatenation of body(x) for x in xs."""

    def __init__(self, name, x, params, body, reg=None):
        self.reg = reg
        self.name, self.x, self.params, self.body = name, x, params, body
        self.f = z3.Function(name, z3.SeqSort(x.sort()), *[p.sort() for p in params], body.sort())

    def apply(self, xs, actuals):
        return self.f(xs, *actuals)

    def inst(self, x, actuals):
        return fold_seq(subst(self.body, [(self.x, x), *zip(self.params, actuals)]), reg=self.reg)

    @property
    def is_map(self):
        return is_unit(self.body)


class FOLD:
    """left fold over several state components."""

    def __init__(self, name, x, states, params, outs, reg=None):
        self.reg = reg
        self.name, self.x, self.states, self.params, self.outs = name, x, states, params, outs
        sig = [z3.SeqSort(x.sort()), *[s.sort() for s in states], *[p.sort() for p in params]]
        self.fs = [z3.Function(f"{name}_{j}", *sig, s.sort()) for j, s in enumerate(states)]

    def apply(self, j, xs, inits, actuals):
        return self.fs[j](xs, *inits, *actuals)

    def inst(self, j, x, inits, actuals):
        return fold_seq(subst(self.outs[j], [(self.x, x), *zip(self.states, inits), *zip(self.params, actuals)]), reg=self.reg)


class REC:
    """Recursive spec function with lazily computed one-step unfolding."""

    def __init__(self, name, f, unfold):
        self.name, self.f, self.unfold = name, f, unfold


class Registry:
    def __init__(self):
        self.fms: dict[str, FM] = {}
        self.folds: dict[str, tuple[FOLD, int]] = {}
        self.recs: dict[str, REC] = {}
        self.simp: dict[str, object] = {}  # decl name -> callable(term) -> equal term or None
        self.rules: dict[str, list] = {}  # decl name -> [callable(term) -> facts]
        self.by_key: dict = {}
        self.n = itertools.count()
        self.fresh_n = itertools.count()

    # --- construction with syntactic hash-consing -------------------------------------------------
    def mk_fm(self, xs, x, body):
        body = fold_seq(z3.simplify(body), reg=self)
        params = [c for c in free_consts(body) if not c.eq(x)]
        canon = [(x, z3.Const("!x", x.sort()))] + [
            (p, z3.Const(f"!p{i}", p.sort())) for i, p in enumerate(params)
        ]
        key = ("fm", str(x.sort()), subst(body, canon).sexpr())
        if key not in self.by_key:
            fm = FM(f"fm{next(self.n)}", x, params, body, self)
            self.by_key[key] = fm
            self.fms[fm.name] = fm
        fm = self.by_key[key]
        return self.reduce_fm(fm, xs, params)

    def reduce_fm(self, fm, xs, actuals):
        """Apply fm to xs, pushing through visible structure."""
        xs = self.norm(xs)
        if is_empty_seq(xs):
            return z3.Empty(fm.body.sort())
        if is_unit(xs):
            return fm.inst(xs.arg(0), actuals)
        if is_concat(xs):
            return concat(*[self.reduce_fm(fm, a, actuals) for a in xs.children()])
        if is_ite(xs):
            return z3.If(xs.arg(0), self.reduce_fm(fm, xs.arg(1), actuals), self.reduce_fm(fm, xs.arg(2), actuals))
        if is_unit(fm.body) and fm.body.arg(0).eq(fm.x):
            return xs
        inner = self.fms.get(xs.decl().name()) if z3.is_app(xs) else None
        if inner is not None:  # fusion: fm_g(fm_f(ys)) = fm_{x. fm_g(f x)}(ys)
            y = z3.Const(f"!y{next(self.fresh_n)}", inner.x.sort())
            ibody = inner.inst(y, [xs.arg(i) for i in range(1, xs.num_args())])
            return self.mk_fm(xs.arg(0), y, self.reduce_fm(fm, ibody, actuals))
        return fm.apply(xs, actuals)

    def mk_fold(self, xs, x, states, outs, inits):
        """returns list of result terms (one per state component)."""
        outs = [fold_seq(z3.simplify(o), reg=self) for o in outs]
        skip = {x.get_id()} | {s.get_id() for s in states}
        params = []
        for o in outs:
            for c in free_consts(o):
                if c.get_id() not in skip and all(not c.eq(p) for p in params):
                    params.append(c)
        canon = (
            [(x, z3.Const("!x", x.sort()))]
            + [(s, z3.Const(f"!s{i}", s.sort())) for i, s in enumerate(states)]
            + [(p, z3.Const(f"!p{i}", p.sort())) for i, p in enumerate(params)]
        )
        key = ("fold", str(x.sort()), tuple(subst(o, canon).sexpr() for o in outs))
        if key not in self.by_key:
            fo = FOLD(f"fold{next(self.n)}", x, states, params, outs, self)
            self.by_key[key] = fo
            for j, f in enumerate(fo.fs):
                self.folds[f.name()] = (fo, j)
        fo = self.by_key[key]
        return self.reduce_fold(fo, xs, inits, params)

    def norm(self, xs):
        for _ in range(8):
            f = self.simp.get(xs.decl().name()) if z3.is_app(xs) else None
            r = f(xs) if f is not None else None
            if r is None:
                break
            xs = r
        return xs

    def unfold1(self, t):
        """One unfolding of a recursive spec function, if its case is visible."""
        r = self.recs[t.decl().name()].unfold([t.arg(i) for i in range(t.num_args())])
        r = fold_seq(r)
        while is_ite(r):
            c = z3.simplify(r.arg(0))
            if z3.is_true(c):
                r = r.arg(1)
            elif z3.is_false(c):
                r = r.arg(2)
            elif refuted(c):
                r = r.arg(2)
            elif refuted(z3.Not(c)):
                r = r.arg(1)
            else:
                return None
        return r

    def reduce_fold(self, fo, xs, inits, actuals):
        xs = self.norm(xs)
        if is_empty_seq(xs):
            return list(inits)
        if is_unit(xs):
            return [fo.inst(j, xs.arg(0), inits, actuals) for j in range(len(inits))]
        if is_concat(xs):
            st = list(inits)
            for a in xs.children():
                st = self.reduce_fold(fo, a, st, actuals)
            return st
        if is_ite(xs):
            a = self.reduce_fold(fo, xs.arg(1), inits, actuals)
            b = self.reduce_fold(fo, xs.arg(2), inits, actuals)
            return [z3.If(xs.arg(0), p, q) for p, q in zip(a, b)]
        inner = self.fms.get(xs.decl().name()) if z3.is_app(xs) else None
        if inner is not None:  # fold(fm_g(ys)) = fold_{s,y. fold(g y, s)}(ys)
            y = z3.Const(f"!y{next(self.fresh_n)}", inner.x.sort())
            ibody = inner.inst(y, [xs.arg(i) for i in range(1, xs.num_args())])
            ss = [z3.Const(f"!t{next(self.fresh_n)}", s.sort()) for s in fo.states]
            outs = self.reduce_fold(fo, ibody, ss, actuals)
            return self.mk_fold(xs.arg(0), y, ss, outs, list(inits))
        return [fo.apply(j, xs, inits, actuals) for j in range(len(inits))]


def subterms(ts, limit=20000):
    seen, out = set(), []
    stack = list(ts)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            continue  # terms under binders are not ground
        if z3.is_app(e):
            out.append(e)
            stack.extend(e.children())
        if len(out) > limit:
            break
    return out


class Prover:
    def __init__(self, reg: Registry, timeout_ms=8000):
        self.reg = reg
        self.timeout_ms = timeout_ms
        self.stats = {"queries": 0, "time": 0.0, "ext": 0}
        self.memo = {}
        self.deadline = None

    # ------------------------------------------------------------------------------------------
    def check(self, fs, timeout=None):
        s = z3.Solver()
        to = timeout or self.timeout_ms
        if self.deadline is not None:
            left = int((self.deadline - time.time()) * 1000)
            to = max(50, min(to, left))
        s.set("timeout", to)
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.stats["queries"] += 1
        self.stats["time"] += time.time() - t0
        return r, s

    def saturate(self, fs, rounds=4, fuel=2, light=False):
        """Instantiate combinator definitions on the ground terms of fs."""
        facts: list = []
        self._keep = getattr(self, "_keep", [])
        done = set()
        recdepth: dict[int, int] = {}
        frontier = list(fs)
        for _ in range(rounds):
            new = []
            for t in subterms(frontier):
                if t.get_id() in done or t.num_args() == 0 and t.decl().kind() == UN:
                    continue
                done.add(t.get_id())
                self._keep.append(t)
                name = t.decl().name()
                if t.decl().kind() == UN:
                    if name in self.reg.fms:
                        new += self._sat_fm(self.reg.fms[name], t)
                    elif name in self.reg.folds:
                        fo, j = self.reg.folds[name]
                        new += self._sat_fold(fo, j, t)
                    elif self.reg.recs.get(name) is not None:
                        d = recdepth.get(t.get_id(), 0)
                        if d < fuel:
                            rec = self.reg.recs[name]
                            r = rec.unfold([t.arg(i) for i in range(t.num_args())])
                            if r is not None:
                                for u in subterms([r]):
                                    if u.decl().kind() == UN and u.decl().name() in self.reg.recs:
                                        recdepth.setdefault(u.get_id(), d + 1)
                                        self._keep.append(u)
                                new.append(t == r)
                    for rule in self.reg.rules.get(name, ()):
                        new += rule(t)
                else:
                    if name in ("seq.nth", "seq.nth_i", "nth"):
                        new += self._sat_nth(t)
                    for rule in self.reg.rules.get("#%d" % t.decl().kind(), ()):
                        new += rule(t)
            new = [n for n in new if not z3.is_true(n)]
            if not new:
                break
            facts += new
            frontier = new
            if len(facts) > 1500:
                break
        return facts

    def _sat_fm(self, fm, t):
        xs = t.arg(0)
        actuals = [t.arg(i) for i in range(1, t.num_args())]
        out = []
        r = self.reg.reduce_fm(fm, xs, actuals)
        if not r.eq(t):
            out.append(t == r)
        if fm.is_map:
            out.append(z3.Length(t) == z3.Length(xs))
        else:
            out.append(z3.Implies(z3.Length(xs) == 0, z3.Length(t) == 0))
        return out

    def _sat_nth(self, t):
        """xs[i] for combinator sequences"""
        xs, i = t.arg(0), t.arg(1)
        if not z3.is_app(xs) or xs.decl().kind() != UN:
            return []
        n = xs.decl().name()
        if n == "py_range":
            a, b = xs.arg(0), xs.arg(1)
            return [z3.Implies(z3.And(0 <= i, a + i < b), t == a + i)]
        fm = self.reg.fms.get(n)
        if fm is not None and fm.is_map:
            ys = xs.arg(0)
            body = fm.inst(ys[i], [xs.arg(k) for k in range(1, xs.num_args())])
            return [z3.Implies(z3.And(0 <= i, i < z3.Length(ys)), t == body.arg(0) if is_unit(body) else z3.Unit(t) == body)]
        return []

    def _sat_fold(self, fo, j, t):
        n = len(fo.states)
        xs = t.arg(0)
        inits = [t.arg(i) for i in range(1, 1 + n)]
        actuals = [t.arg(i) for i in range(1 + n, t.num_args())]
        r = self.reg.reduce_fold(fo, xs, inits, actuals)[j]
        out = []
        if not r.eq(t):
            out.append(t == r)
        out.append(z3.Implies(z3.Length(xs) == 0, t == inits[j]))
        return out

    # ------------------------------------------------------------------------------------------
    def prove(self, hyps, goal, depth=3, timeout=None):
        """returns ('proved', None) | ('failed', model-or-None) | ('unknown', reason)"""
        self._keep = getattr(self, "_keep", [])
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", None
        key = (tuple(sorted(h.get_id() for h in hyps)), goal.get_id(), depth)
        if key in self.memo:
            return self.memo[key]
        self._keep.extend(hyps)
        self._keep.append(goal)
        r = self._prove(hyps, goal, depth, timeout)
        self.memo[key] = r
        return r

    def _prove(self, hyps, goal, depth, timeout):
        hg = eliminate([*hyps, goal], self.reg)
        hyps, goal = [h for h in hg[:-1] if not z3.is_true(z3.simplify(h))], hg[-1]
        fs = list(hyps) + [z3.Not(goal)]
        facts = self.saturate(fs)
        r, s = self.check(fs + facts, timeout)
        if r == z3.unsat:
            return "proved", None
        if depth > 0:
            eqs = self.extensional(hyps, fs + facts, depth)
            if eqs:
                facts2 = self.saturate(fs + facts + eqs)
                r, s = self.check(fs + facts + eqs + facts2, timeout)
                if r == z3.unsat:
                    return "proved", None
                eqs2 = self.extensional(hyps, fs + facts + eqs + facts2, depth, done=eqs)
                if eqs2:
                    r, s = self.check(fs + facts + eqs + facts2 + eqs2, timeout)
                    if r == z3.unsat:
                        return "proved", None
        if r == z3.sat:
            return "failed", s.model()
        return "unknown", s.reason_unknown()

    def extensional(self, hyps, fs, depth, done=()):
        """Equalities between flat-map / fold terms that provably agree element-wise."""
        eqs = []
        doneids = {frozenset((e.arg(0).get_id(), e.arg(1).get_id())) for e in done}
        fm_terms, fold_terms = [], []
        for t in subterms(fs):
            if t.decl().kind() != UN:
                continue
            n = t.decl().name()
            if n in self.reg.fms:
                fm_terms.append(t)
            elif n in self.reg.folds:
                fold_terms.append(t)
        for a, b in itertools.combinations(fm_terms, 2):
            if a.sort() != b.sort() or a.arg(0).sort() != b.arg(0).sort():
                continue
            if frozenset((a.get_id(), b.get_id())) in doneids or a.eq(b):
                continue
            fa, fb = self.reg.fms[a.decl().name()], self.reg.fms[b.decl().name()]
            if not self.same_seq(hyps, a.arg(0), b.arg(0), eqs + list(done), depth):
                continue
            x = z3.Const(f"!e{next(self.reg.fresh_n)}", fa.x.sort())
            ga = fa.inst(x, [a.arg(i) for i in range(1, a.num_args())])
            gb = fb.inst(x, [b.arg(i) for i in range(1, b.num_args())])
            h = list(hyps) + eqs + [z3.Contains(a.arg(0), z3.Unit(x))]
            self.stats["ext"] += 1
            if self.prove(h, ga == gb, depth - 1, timeout=min(self.timeout_ms, 4000))[0] == "proved":
                eqs.append(a == b)
        # folds: compare whole applications
        groups = {}
        for t in fold_terms:
            fo, j = self.reg.folds[t.decl().name()]
            args = tuple(t.arg(i).get_id() for i in range(t.num_args()))
            groups.setdefault((fo.name, args), (fo, [t.arg(i) for i in range(t.num_args())]))
        gl = list(groups.values())
        for (fa, aa), (fb, ab) in itertools.combinations(gl, 2):
            if aa[0].sort() != ab[0].sort():
                continue
            if len(fa.states) < len(fb.states):
                fa, aa, fb, ab = fb, ab, fa, aa
            na, nb = len(fa.states), len(fb.states)
            if not self.same_seq(hyps, aa[0], ab[0], eqs + list(done), depth):
                continue
            ia, pa = aa[1 : 1 + na], aa[1 + na :]
            ib, pb = ab[1 : 1 + nb], ab[1 + nb :]
            x = z3.Const(f"!e{next(self.reg.fresh_n)}", fa.x.sort())
            sa = [z3.Const(f"!s{next(self.reg.fresh_n)}", s.sort()) for s in fa.states]
            for inj in itertools.permutations(range(na), nb):
                if any(fa.states[inj[k]].sort() != fb.states[k].sort() for k in range(nb)):
                    continue
                if not all(
                    self.quick_eq(hyps + eqs, ia[inj[k]], ib[k]) for k in range(nb)
                ):
                    continue
                sb = [sa[inj[k]] for k in range(nb)]
                goal = z3.And(
                    *[fa.inst(inj[k], x, sa, pa) == fb.inst(k, x, sb, pb) for k in range(nb)]
                )
                h = list(hyps) + eqs + [z3.Contains(aa[0], z3.Unit(x))]
                self.stats["ext"] += 1
                if self.prove(h, goal, depth - 1, timeout=min(self.timeout_ms, 4000))[0] == "proved":
                    for k in range(nb):
                        eqs.append(fa.fs[inj[k]](*aa) == fb.fs[k](*ab))
                    break
        return eqs

    def same_seq(self, hyps, a, b, eqs, depth):
        if a.eq(b):
            return True
        return self.quick_eq(list(hyps) + list(eqs), a, b)

    def quick_eq(self, hyps, a, b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        key = ("qe", tuple(sorted(h.get_id() for h in hyps)), a.get_id(), b.get_id())
        if key not in self.memo:
            self._keep.extend(hyps)
            self._keep.extend([a, b])
            fs = list(hyps) + [a != b]
            r, _ = self.check(fs + self.saturate(fs, rounds=2), timeout=1500)
            self.memo[key] = r == z3.unsat
        return self.memo[key]

    # ------------------------------------------------------------------------------------------
    def refute(self, hyps, goal, sizes=(1, 2, 0, 3), deadline=None):
        """A counterexample in which every sequence looped over has a small concrete length, so that no combinator is
        left uninterpreted: description, or None."""
        t_end = time.time() + 20 if deadline is None else deadline
        hg = eliminate([*hyps, z3.Not(goal)], self.reg)
        work = [(hg, [], 0)]
        tried = 0
        while work and time.time() < t_end and tried < 60:
            fs, eqs, d = work.pop(0)
            fs = [fold_seq(f, reg=self.reg) for f in fs]
            fs = [self.unfold_all(f) for f in fs]
            atom = self.loop_atom(fs)
            if atom is None:
                tried += 1
                facts = self.saturate(fs + eqs, rounds=3)
                if self.loop_atom(facts) is not None:
                    facts = [f for f in facts if self.loop_atom([f]) is None]
                r, s = self.check(fs + eqs + facts, timeout=3000)
                if r == z3.sat and any(self.reg.recs.get(t.decl().name()) is not None for t in subterms(fs) if t.decl().kind() == UN):
                    continue  # a recursive function is left without its definition here
                if r == z3.sat:
                    return "; ".join(f"{k} = {s.model()[k]}" for k in list(s.model().decls())[:12])[:1500]
                continue
            if d >= 4:
                continue
            for n in sizes:
                units = [z3.Const(f"!c{next(self.reg.fresh_n)}", atom.sort().basis()) for _ in range(n)]
                if z3.is_app(atom) and atom.decl().name() == "py_range":
                    a, b = atom.arg(0), atom.arg(1)
                    extra = [b - a == n] + [u == a + i for i, u in enumerate(units)]
                    if n == 0:
                        extra = [b <= a]
                else:
                    extra = []
                val = z3.Empty(atom.sort()) if n == 0 else concat(*[z3.Unit(u) for u in units])
                new = [z3.substitute(f, (atom, val)) for f in fs]
                ne = [e if z3.is_eq(e) and e.arg(0).eq(atom) else z3.substitute(e, (atom, val)) for e in eqs]
                work.append((new, ne + extra + ([atom == val] if not extra else []), d + 1))
        return None

    def unfold_all(self, t):
        """Unfold recursive spec functions whose case is visible."""
        for _ in range(6):
            pairs = []
            for u in subterms([t]):
                if u.decl().kind() == UN and self.reg.recs.get(u.decl().name()) is not None:
                    r = self.reg.unfold1(u)
                    if r is not None:
                        pairs.append((u, r))
            if not pairs:
                break
            t = fold_seq(z3.substitute(t, *pairs), reg=self.reg)
        return t

    def loop_atom(self, fs):
        """A sequence a combinator still ranges over (innermost first)."""
        best = None
        for t in subterms(fs):
            if t.decl().kind() == UN and (t.decl().name() in self.reg.fms or t.decl().name() in self.reg.folds):
                x = t.arg(0)
                if is_unit(x) or is_concat(x) or is_empty_seq(x) or is_ite(x):
                    continue
                if any(u.decl().kind() == UN and (u.decl().name() in self.reg.fms or u.decl().name() in self.reg.folds) for u in subterms([x])):
                    continue
                best = x
        return best
