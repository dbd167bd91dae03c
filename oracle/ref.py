"""Independent reference semantics over template ASTs (written from the property statements)."""
from __future__ import annotations

import itertools
import re

from .ast import norm_bounds

MARK = re.compile("[\u1801\u2026\u22ee\u22ef\u22f0\u22f1\ufe19]+|\\.{3,}")


def ref_join(texts, sep):
    if len(texts) == 1:
        return texts[0]
    out = ""
    for i, t in enumerate(texts):
        out += (sep if i else "") + t
    if sep:
        if out[: len(sep)] == sep:
            out = out[len(sep) :]
        if len(out) >= len(sep) and out[len(out) - len(sep) :] == sep:
            out = out[: len(out) - len(sep)]
    return out


def ref_wrap(w, inner):
    i = 0
    # leftmost match, longest run
    while i < len(w):
        if w[i] in "\u1801\u2026\u22ee\u22ef\u22f0\u22f1\ufe19":
            j = i
            while j < len(w) and w[j] in "\u1801\u2026\u22ee\u22ef\u22f0\u22f1\ufe19":
                j += 1
            return w[:i] + inner + w[j:]
        if w[i : i + 3] == "...":
            j = i
            while j < len(w) and w[j] == ".":
                j += 1
            return w[:i] + inner + w[j:]
        i += 1
    return w + inner


class Undefined(Exception):
    pass


class Cyclic(Exception):
    pass


class Ctx:
    """wildcards: path -> list of (text-ast, weight)"""

    def __init__(self, wildcards, variables=None, busy=frozenset(), unknown=None):
        self.wildcards, self.vars, self.busy, self.unknown = wildcards, variables or {}, busy, unknown

    def define(self, d):
        return Ctx(self.wildcards, {**self.vars, **d}, self.busy, self.unknown)

    def sampling(self, name):
        if name in self.busy:
            raise Cyclic(name)
        return Ctx(self.wildcards, self.vars, self.busy | {name}, self.unknown)


def assignments(parts, ctx, first):
    rest = []
    for p in parts:
        if p[0] != "asg":
            rest.append(p)
            continue
        _, name, value, imm, keep = p
        if keep and name in ctx.vars:
            continue
        if imm:
            value = ["lit", first(value, ctx)]
        ctx = ctx.define({name: value})
    return rest, ctx


def lookup(node, ctx):
    v = ctx.vars.get(node[1])
    if v is None:
        v = node[2]
    if v is None:
        v = ctx.unknown
    if v is None:
        raise Undefined(node[1])
    return v


STEPS = [0]
MAX_STEPS = 40000


def step():
    STEPS[0] += 1
    if STEPS[0] > MAX_STEPS:
        from .core import Skip

        raise Skip("enumeration too large for a bounded case")


def combos(n, ctx):
    """All outputs of a template in combinatorial generation, in order (lazy)."""
    step()
    t = n[0]
    if t == "lit":
        yield n[1]
    elif t == "seq":
        rest, ctx = assignments(n[1], ctx, lambda v, c: next(combos(v, c)))
        yield from product(rest, ctx)
    elif t == "grp":
        yield from group(n, ctx)
    elif t == "wc":
        c = ctx.define(n[3])
        for val, w in ctx.wildcards[n[2]]:
            for _ in range(int(w)):
                yield from combos(val, c)
    elif t == "acc":
        v = lookup(n, ctx)
        yield from combos(v, ctx.sampling(n[1]))
    elif t == "wrap":
        for w in combos(n[1], ctx):
            for i in combos(n[2], ctx):
                yield ref_wrap(w, i)
    else:
        raise ValueError(t)


def product(parts, ctx):
    step()
    if not parts:
        yield ""
        return
    for a in combos(parts[0], ctx):
        for b in product(parts[1:], ctx):
            yield a + b


def selections(options, k):
    """Ordered selections of k pairwise different options, lexicographic by position."""
    for idx in itertools.permutations(range(len(options)), k):
        if all(options[i] != options[j] for i, j in itertools.combinations(idx, 2)):
            yield [options[i] for i in idx]


def texts_product(opts, ctx):
    step()
    if not opts:
        yield ()
        return
    for a in combos(opts[0], ctx):
        for b in texts_product(opts[1:], ctx):
            yield (a, *b)


def group(n, ctx):
    _, _m, b, sep, os = n
    lo, hi = norm_bounds(b, len(os))
    options = [o for _, o in os]
    sep = "," if sep is None else sep
    if len(options) == 1 and options[0][0] == "wc":
        w = options[0]
        options = [v for v, wt in ctx.wildcards[w[2]] for _ in range(int(wt))]
        nv = len(ctx.wildcards[w[2]])
        lo, hi = min(lo, nv), min(hi, nv)
        ctx = ctx.define(w[3])
        if len(options) == 1 and options[0][0] == "wc":
            yield from group(["grp", None, ["lo-hi", lo, hi], sep, [[None, options[0]]]], ctx)
            return
    lo, hi = min(lo, len(options)), min(hi, len(options))
    seen = set()
    if not options:
        return
    for k in range(lo, hi + 1):
        for sel in selections(options, k):
            for ts in texts_product(sel, ctx):
                if len(set(ts)) == k and ts not in seen:
                    seen.add(ts)
                    yield ref_join(list(ts), sep) if ts else ""
