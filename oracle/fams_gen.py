"""C01-C08: generators and samplers."""
from __future__ import annotations

import itertools
import json
import random
import re
import string
from itertools import islice

from . import ast as A
from . import ref
from .ast import render
from .core import Skip, family
from .util import WILD, differ, manager, refctx, take

LIM = 300


def comb_gen(wcs, **kw):
    from dynamicprompts.generators import CombinatorialPromptGenerator

    return CombinatorialPromptGenerator(manager(wcs), **kw)


def rand_gen(wcs, **kw):
    from dynamicprompts.generators import RandomPromptGenerator

    return RandomPromptGenerator(manager(wcs), **kw)


def comb_ctx(wcs, unknown=None):
    return context(wcs, "!", unknown)


def context(wcs, m, unknown=None, rand=None):
    from dynamicprompts.sampling_context import SamplingContext

    kw = {} if rand is None else {"rand": rand}
    return SamplingContext(A.method(m), manager(wcs), unknown_variable_value=unknown, **kw)


# ---------------------------------------------------------------------------------------------------- C01
C01_FIX = [
    ["grp", None, ["n", 2], None, [[None, ["lit", x]] for x in "abc"]],
    ["grp", None, ["lo-hi", 0, 2], " ", [[None, ["lit", x]] for x in "aba"]],
    ["grp", None, ["n", 2], "|", [[None, ["grp", None, None, None, [[None, ["lit", "a"]], [None, ["lit", "b"]]]]], [None, ["lit", "b"]], [None, ["lit", "c"]]]],
    ["grp", None, ["lo-hi", 0, 0], None, [[None, ["lit", "a"]]]],
    ["grp", None, ["n", 5], None, [[None, ["lit", x]] for x in ["a", "b", "c", "d"]]],
    ["grp", None, ["lo-hi", 1, 3], "-", [[None, ["lit", x]] for x in ["a", "b", "a", "b"]]],
    ["grp", None, ["lo-hi", 3, 1], "-", [[None, ["lit", x]] for x in ["a", "b", "c"]]],
    ["grp", None, ["n", 2], None, [[None, ["wc", None, "w1", {}]]]],
    ["grp", None, ["lo-hi", 1, 2], "/", [[None, ["wc", None, "d/w2", {}]]]],
    ["grp", None, ["n", 2], None, [[None, ["wc", None, "tmpl", {}]]]],
    ["grp", None, ["n", 2], " ", [[None, ["grp", None, ["n", 2], "+", [[None, ["lit", x]] for x in "ab"]]], [None, ["lit", "a+b"]], [None, ["lit", "c"]]]],
    ["grp", None, ["n", 2], " & ", [[None, ["wc", None, "usesx", {"x": ["lit", "p1"]}]]]],
    ["grp", None, ["lo-hi", 1, 2], None, [[None, ["wc", None, "usesx", {"x": ["grp", None, None, None, [[None, ["lit", "p"]], [None, ["lit", "q"]]]]}]], [None, ["lit", "plain"]]]],
    ["grp", None, ["n", 3], "", [[None, ["lit", x]] for x in "abc"]],
    ["grp", None, ["n", 2], ",", [[None, ["lit", ","]], [None, ["lit", "x"]]]],
    ["grp", None, ["n", 2], "a", [[None, ["lit", "aa"]], [None, ["lit", "b"]], [None, ["seq", []]]]],
]


def g01(rng, i):
    if i < len(C01_FIX):
        return {"t": C01_FIX[i]}
    cfg = {"weights": rng.random() < 0.3, "wildcards": ["w1", "d/w2", "one", "tmpl", "usesx"] if rng.random() < 0.4 else None, "params": rng.random() < 0.5}
    return {"t": A.group(rng, 2 if rng.random() < 0.6 else 1, cfg, opts=rng.choice([None, None, 4]))}


@family("C01", g01, 700, 12000)
def group_enumeration(c):
    t = c["t"]
    exp = take(ref.combos(t, refctx(WILD)), LIM)
    text = render(t)
    if "$$$$" in text:
        got = [str(r) for r in islice(comb_ctx(WILD).sample_prompts(A.command(t)), LIM)]
    else:
        got = comb_gen(WILD).generate(text, LIM)
    return differ(text, got, exp)


@family("C01", g01, 300, 6000)
def group_enumeration_commands(c):
    t = c["t"]
    exp = take(ref.combos(t, refctx(WILD)), LIM)
    got = [str(r) for r in islice(comb_ctx(WILD).sample_prompts(A.command(t)), LIM)]
    return differ(render(t), got, exp)


def g01c(rng, i):
    n = rng.randint(0, 5)
    return {"vals": [rng.choice("abcde") for _ in range(n)], "k": rng.randint(-1, 4), "lo": rng.randint(-3, 6), "hi": rng.randint(-3, 6)}


@family("C01", g01c, 300, 4000)
def value_combinations(c):
    from dynamicprompts.commands import VariantCommand

    v = VariantCommand.from_literals_and_weights(c["vals"], min_bound=c["lo"], max_bound=c["hi"])
    lo, hi = sorted((c["lo"], c["hi"]))
    lo, hi = max(0, lo), max(0, hi)
    r = differ("bounds", [v.min_bound, v.max_bound], [lo, hi])
    if r:
        return r
    a = v.adjust_range()
    n = len(c["vals"])
    r = differ("adjusted bounds", [a.min_bound, a.max_bound, len(a), a.separator], [min(lo, n), min(hi, n), n, v.separator])
    if r:
        return r
    if not hasattr(v, "get_value_combinations"):
        raise Skip
    got = [[x.literal for x in sel] for sel in v.get_value_combinations(c["k"])]
    return differ("selections", got, list(ref.selections(c["vals"], max(0, c["k"]))))


# ---------------------------------------------------------------------------------------------------- C02
def g02(rng, i):
    fixed = [
        ["seq", [["lit", "a "], ["grp", None, None, None, [[None, ["lit", "x"]], [None, ["lit", "y"]]]], ["lit", " , "], ["grp", None, None, None, [[None, ["lit", "1"]], [None, ["lit", "2"]]]]]],
        ["seq", [["wc", None, "d/w2", {}], ["lit", " "], ["wc", None, "tmpl", {}]]],
        ["wrap", ["grp", None, None, None, [[None, ["lit", "A…B"]], [None, ["lit", "C"]]]], ["grp", None, None, None, [[None, ["lit", "x"]], [None, ["lit", "y"]]]]],
        ["seq", [["lit", "p "], ["wc", None, "zero", {}], ["lit", " q"]]],
        ["seq", [["wc", None, "zero", {}], ["grp", None, None, None, [[None, ["lit", "x"]], [None, ["lit", "y"]]]]]],
        ["seq", [["wc", None, "w1", {}], ["lit", "-"], ["wc", None, "w1", {}], ["lit", "-"], ["wc", None, "w1", {}]]],
        ["wc", None, "w1", {}],
        ["lit", "just, text  with   spaces"],
        ["seq", [["lit", " a"], ["grp", None, None, None, [[None, ["seq", []]], [None, ["lit", "b "]]]], ["lit", "c "]]],
    ]
    if i < len(fixed):
        return {"t": fixed[i]}
    cfg = {"wildcards": ["w1", "d/w2", "one", "tmpl", "zero", "usesx"], "params": rng.random() < 0.4, "wrap": True, "methods": [None, None, None, None, "!"]}
    if rng.random() < 0.3:
        cfg["vars"] = ["x", "y"]
        cfg["asg"] = True
    return {"t": strip_undef(A.template(rng, cfg))}


W2 = {**WILD, "zero": [[["lit", "nil"], 0]]}


def ref_or_error(t, wcs, n=LIM, unknown=None):
    try:
        return take(ref.combos(t, refctx(wcs, unknown)), n), None
    except ref.Undefined:
        return None, KeyError
    except ref.Cyclic:
        return None, RecursionError
    except StopIteration:
        return None, StopIteration
    except RuntimeError:
        return None, RuntimeError


def self_ref(t):
    """Some definition of the template uses a variable: possibly circular (C07's business)."""
    return t[0] == "seq" and any(p[0] == "asg" and '"acc"' in json.dumps(p[2]) for p in t[1])


@family("C02", g02, 700, 12000)
def template_product(c):
    t = c["t"]
    exp, err = ref_or_error(t, W2)
    text = render(t)
    g = comb_gen(W2)
    if err is not None or "$$$$" in text or self_ref(t):
        return None
    r = differ(text, g.generate(text, LIM), exp)
    if r:
        return r
    k = len(exp) // 2
    return differ(text + f" limited to {k}", g.generate(text, k), exp[:k])


@family("C02", g02, 250, 5000)
def template_product_commands(c):
    t = c["t"]
    exp, err = ref_or_error(t, W2)
    if err is not None or self_ref(t):
        return None
    got = [str(r) for r in islice(comb_ctx(W2).sample_prompts(A.command(t)), LIM)]
    return differ(render(t), got, exp)


def g02s(rng, i):
    n = rng.randint(0, 4)
    return {"parts": [A.lit(rng) if rng.random() < 0.5 else A.group(rng, 1, {}, 2) for _ in range(n)], "sep": rng.choice(["", "", ", ", " ", "a"])}


@family("C02", g02s, 150, 3000)
def sequence_command_separator(c):
    """A sequence command with a separator joins the texts of its parts with it."""
    from dynamicprompts.commands import SequenceCommand

    if c["sep"] and len(c["parts"]) == 0:
        return None
    # the sampler brackets the parts with two empty texts, whose separators are stripped again
    exp = []
    ctx = refctx({})
    for ts in itertools.product(*[list(ref.combos(p, ctx)) for p in c["parts"]]):
        exp.append(c["sep"].join(ts))
    cmd = SequenceCommand([A.command(p) for p in c["parts"]], separator=c["sep"])
    got = [str(r) for r in comb_ctx({}).sample_prompts(cmd)]
    return differ(repr(c), got, exp)


# ---------------------------------------------------------------------------------------------------- C03
RT = ["a", "{a|b|c}", "x {2$$a|b|c} y", "__w1__", "{@a|b} __@w1__", "${x={a|b}}${x} ${x}", "{0-1$$a}", "%{a … b$${x|y}}", "{!a|b|c} z", "__tmpl__", "{a}", "{1$$a|b|c|d}", "a  b", " ", "\n", "\t ", "# only a comment\n"]


def g03r(rng, i):
    n = rng.choice([0, 1, 1, 2, 3, 7, 20, 51, 101, 130]) if i % 20 else rng.choice([999, 1000, 1001, 1203])
    tt = None
    if i >= 2 * len(RT):
        tt = (A.template(rng, {"wildcards": ["w1", "d/w2", "tmpl"], "methods": [None, None, "~", "@", "!"], "wrap": rng.random() < 0.2, "weights": True, "dups": False}))
        if wc_only_group(tt):
            return None
    c = {"t": RT[i % len(RT)] if tt is None else render(tt), "n": n, "ws": rng.random() < 0.3, "seed": rng.choice([None, 0, 1, 77])}
    if "$$$$" in c["t"] or ("%{" in c["t"] and "@" in c["t"]):
        return None
    if c["seed"] is not None and rng.random() < 0.4 and n:
        c["seeds"] = rng.choice([5, 0, [9], [rng.randrange(99) for _ in range(n)]])
    return c


@family("C03", g03r, 240, 4000)
def random_count(c):
    g = rand_gen(WILD, seed=c["seed"], ignore_whitespace=c["ws"])
    kw = {"seeds": c["seeds"]} if "seeds" in c else {}
    got = g.generate(c["t"], c["n"], **kw)
    if len(got) != c["n"] or not all(isinstance(p, str) for p in got):
        return f"{c['t']!r}: asked for {c['n']}, got {len(got)}"
    r2 = g.generate(c["t"], num_images=c["n"], **kw)
    if len(r2) != c["n"]:
        return f"{c['t']!r}: second call asked for {c['n']}, got {len(r2)}"
    if len(g.generate(c["t"])) != 1:
        return "default number of prompts is not 1"


def g03c(rng, i):
    t = A.template(rng, {"wildcards": ["w1", "d/w2", "tmpl", "one"], "wrap": True, "methods": [None, None, "!"]})
    return {"t": t, "n": rng.choice([0, 1, 2, 3, 5, 10, 50, 101, 150, 250]), "ws": rng.random() < 0.3, "b": rng.choice([0, 1, 2, 3, 5]), "pre": rng.random() < 0.5}


@family("C03", g03c, 400, 6000)
def combinatorial_limit(c):
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator

    text = render(c["t"])
    if "$$$$" in text:
        return None
    total = take(ref.combos(c["t"], refctx(WILD)), LIM)
    if c["ws"]:
        total = [" ".join(p.split()) for p in total]
    g = comb_gen(WILD, ignore_whitespace=c["ws"])
    if c["ws"] and "%{" in text:
        total = g.generate(text, LIM)  # both sides of a wrap are squashed on their own: only the limit is claimed
    if c["pre"]:
        g.generate(text, 3)
    exp = total[: c["n"]]
    r = differ(f"{text} limited to {c['n']}", g.generate(text, c["n"]), exp)
    if r:
        return r
    if len(total) < LIM:
        r = differ(text + " default limit", g.generate(text), total) or differ(text + " unlimited", g.generate(text, None), total)
        if r:
            return r
    b = BatchedCombinatorialPromptGenerator(g, batches=c["b"])
    return differ("batched", b.generate(text, c["n"]), exp * c["b"]) or differ("batched kw", b.generate(text, max_prompts=c["n"]), exp * c["b"])


def g03big(rng, i):
    return {"n": [None, 1000, 999, 1001, 1200, 1331, 2000][i % 7]}


@family("C03", g03big, 2, 7)
def combinatorial_large(c):
    text = "-".join(["{" + "|".join("abcdefghijk") + "}"] * 3)
    total = ["-".join(p) for p in itertools.product("abcdefghijk", repeat=3)]
    g = comb_gen({})
    if c["n"] is None:
        return differ("default limit", g.generate(text), total[:1000]) or differ("unlimited", g.generate(text, None), total)
    return differ(f"limit {c['n']}", g.generate(text, c["n"]), total[: c["n"]])


class Fake:
    def __init__(self):
        self.calls = []

    def generate(self, template, max_prompts=3, **kw):
        self.calls.append((template, max_prompts, kw))
        k = len(self.calls)
        return [f"{template}/{k}/{j}" for j in range(max_prompts)]


def g03b(rng, i):
    return {"b": rng.randint(0, 6), "n": rng.randint(0, 5), "t": rng.choice(["", "x", "a {b|c}"]), "d": rng.randint(0, 5)}


@family("C03", g03b, 120, 600)
def batched_and_dummy(c):
    from dynamicprompts.generators import BatchedCombinatorialPromptGenerator, DummyGenerator

    f = Fake()
    got = BatchedCombinatorialPromptGenerator(f, c["b"]).generate(c["t"], c["n"])
    exp = [f"{c['t']}/{k}/{j}" for k in range(1, c["b"] + 1) for j in range(c["n"])]
    return differ("batched", got, exp) or differ("dummy", DummyGenerator().generate(c["t"], c["d"]), [c["t"]] * c["d"]) or differ(
        "dummy default", DummyGenerator().generate(c["t"]), [c["t"]],
    )


JT = [
    ("plain text", lambda: ["plain text"], False),
    ("{% prompt %}a{% endprompt %}{% prompt %}b{% endprompt %}", lambda: ["a", "b"], True),
    ("{% for x in ['u','v','w'] %}{% prompt %}c {{x}}{% endprompt %}{% endfor %}", lambda: ["c u", "c v", "c w"], True),
    ("{% for x in wildcard('__w1__') %}{% prompt %}{{ x }}  z{% endprompt %}{% endfor %}", lambda: ["wa  z", "wb  z", "wc  z"], True),
    ("{% for x in all_combinations('{a|b} {c|d}') %}{% prompt %}{{ x }}{% endprompt %}{% endfor %}", lambda: ["a c", "a d", "b c", "b d"], True),
    ("{% for x in permutations(['p','q','r'], 1, 2) %}{% prompt %}{{ x|join('+') }}{% endprompt %}{% endfor %}",
     lambda: ["p", "q", "r", "p+q", "p+r", "q+p", "q+r", "r+p", "r+q"], True),
    ("{% for x in permutations(['p','q','r'], 2) %}{% prompt %}{{ x|join('+') }}{% endprompt %}{% endfor %}",
     lambda: ["p+q", "p+r", "q+p", "q+r", "r+p", "r+q"], True),
    ("{{ k }} {{ m }}", lambda: ["K0 M0"], False),
    ("x{% prompt %}{% endprompt %}y", lambda: [""], True),
]


def g03j(rng, i):
    return {"j": rng.randrange(len(JT)), "n": rng.choice([0, 1, 1, 2, 3, 6]), "limit": rng.random() < 0.5, "ws": rng.random() < 0.3, "twice": rng.random() < 0.4}


@family("C03", g03j, 160, 800)
def jinja_count(c):
    try:
        import jinja2  # noqa: F401
    except ImportError:
        raise Skip
    from dynamicprompts.generators import JinjaGenerator

    text, f, _ = JT[c["j"]]
    g = JinjaGenerator(manager(WILD), context={"k": "K0", "m": "M0"}, limit_prompts=c["limit"], ignore_whitespace=c["ws"])
    exp = f() * c["n"]
    if c["limit"]:
        exp = exp[: c["n"]]
    if c["ws"]:
        exp = [" ".join(p.split()) for p in exp]
    if c["twice"]:
        g.generate(text, 2)
    return differ(f"jinja {text!r} n={c['n']}", list(g.generate(text, c["n"])), exp)


# ---------------------------------------------------------------------------------------------------- C04
class Spy(random.Random):
    """A real Random; records nothing, only usable for isolation checks."""


def g04(rng, i):
    n = rng.randint(1, 5)
    ws = [rng.choice([0, 1, 1, 1, 0.5, 2, 3.5, 100]) for _ in range(n)]
    if rng.random() < 0.3:
        ws = [1] * n
    if rng.random() < 0.2:
        ws = [rng.choice([0, 0, 0, 5, 1]) for _ in range(n)]
    lo, hi = sorted((rng.randint(0, 4), rng.randint(0, 6)))
    return {"w": ws, "lo": lo, "hi": hi, "sep": rng.choice([",", " ", "; ", "-"]), "seed": rng.randrange(10**6), "dup": rng.random() < 0.2}


@family("C04", g04, 220, 3000)
def random_groups(c):
    ws, n = c["w"], len(c["w"])
    lo, hi = min(c["lo"], n), min(c["hi"], n)
    pos = sum(1 for w in ws if w > 0)
    if hi > pos:
        return None  # fewer positive weights than draws: outside the claim
    if n == 1 and lo > 0 and pos == 0:
        return None
    names = [string.ascii_lowercase[k] * (k + 1) for k in range(n)]
    from dynamicprompts.commands import LiteralCommand, VariantCommand, VariantOption

    opts = [VariantOption(LiteralCommand(x), float(w)) for x, w in zip(names, ws)]
    cmd = VariantCommand(opts, c["lo"], c["hi"], c["sep"])
    before = list(cmd.variants)
    ctx = context({}, "~", rand=random.Random(c["seed"]))
    N = 240
    got = [str(r) for r in islice(ctx.sample_prompts(cmd), N)]
    if len(got) != N:
        return f"random group stopped after {len(got)}"
    sizes = {}
    for g in got:
        parts = g.split(c["sep"]) if g else []
        if len(set(parts)) != len(parts) or any(p not in names for p in parts):
            return f"{g!r} is not a selection of distinct options of {names}"
        if not lo <= len(parts) <= hi:
            return f"{g!r}: {len(parts)} options, bounds {lo}-{hi}"
        for p in parts:
            if ws[names.index(p)] == 0:
                return f"{g!r}: option {p!r} has weight 0 but was drawn while positive options remained"
        sizes[len(parts)] = sizes.get(len(parts), 0) + 1
    want = set(range(lo, hi + 1))
    if set(sizes) != want:  # each size has probability >= 1/6 per draw: missing one in 240 draws has probability < 1e-18
        return f"sizes seen {sorted(sizes)}, admissible {sorted(want)}"
    if cmd.variants != before or [o.weight for o in cmd.variants] != [float(w) for w in ws]:
        return "the option list was changed"


def g04w(rng, i):
    n = rng.randint(2, 4)
    eq = rng.random() < 0.3
    return {"w": [1 if eq else rng.choice([1, 2, 5, 10, 0.25, 1]) for _ in range(n)], "k": rng.randint(1, n), "seed": rng.randrange(10**6),
            "via": rng.choice(["group", "util", "util", "template"]), "vals": rng.choice(["distinct", "equal"])}


def seq_probs(ws, k):
    out = {}

    def go(done, p, left):
        if len(done) == k:
            out[tuple(done)] = out.get(tuple(done), 0) + p
            return
        tot = sum(ws[j] for j in left)
        for j in left:
            go([*done, j], p * ws[j] / tot, [x for x in left if x != j])

    go([], 1.0, list(range(len(ws))))
    return out


@family("C04", g04w, 70, 900, chunk=10)
def draw_distribution(c):
    """Frequencies of ordered selections against successive weighted draws without replacement."""
    ws, k, n = c["w"], c["k"], len(c["w"])
    names = [string.ascii_lowercase[j] * (j + 1) for j in range(n)]
    N = 2500
    rnd = random.Random(c["seed"])
    vals, wl = list(names), [float(w) for w in ws]
    if c["via"] == "util":
        try:
            from dynamicprompts.utils import choose_without_replacement
        except ImportError:
            raise Skip
        if c["vals"] == "equal" and n > 2:
            vals = ["a"] * (n - 1) + ["z"]
        keep = (list(vals), list(wl))
        sels = [choose_without_replacement(vals, weights=wl, num_choices=k, rand=rnd) for _ in range(N)]
        if (vals, wl) != keep:
            return "the lists passed in were changed"
    else:
        t = "{%d$$-$$%s}" % (k, "|".join(f"{w}::{x}" for w, x in zip(ws, names)))
        if c["via"] == "template":
            g = rand_gen({}, seed=c["seed"])
            sels = [s.split("-") for s in g.generate(t, N)]
        else:
            ctx = context({}, "~", rand=rnd)
            sels = [str(s).split("-") for s in islice(ctx.sample_prompts(t), N)]
    exp = {}
    for idx, p in seq_probs(ws, k).items():
        key = tuple(vals[j] for j in idx)
        exp[key] = exp.get(key, 0) + p
    cnt = {}
    for s in sels:
        cnt[tuple(s)] = cnt.get(tuple(s), 0) + 1
    for s in cnt:
        if s not in exp:
            return f"weights {ws}, {k} draws: selection {s} is impossible"
    for s, p in exp.items():
        sd = (N * p * (1 - p)) ** 0.5
        if abs(cnt.get(s, 0) - N * p) > 6.5 * sd + 6:
            return f"weights {ws}, {k} draws: selection {s} drawn {cnt.get(s, 0)} times of {N}, expected about {N * p:.0f}"


def g04u(rng, i):
    n = rng.randint(0, 5)
    return {"n": n, "w": rng.choice([None, n, n, n + 1]), "k": rng.randint(0, 6), "seed": rng.randrange(1000)}


@family("C04", g04u, 150, 800)
def choose_errors(c):
    try:
        from dynamicprompts.utils import choose_without_replacement
    except ImportError:
        raise Skip
    vals = [f"v{j}" for j in range(c["n"])]
    ws = [] if c["w"] is None else [1.0 + j for j in range(c["w"])]
    bad = c["k"] > c["n"] or (ws and len(ws) != c["n"])
    try:
        r = choose_without_replacement(vals, weights=ws, num_choices=c["k"], rand=random.Random(c["seed"]))
    except ValueError:
        return None if bad else "refused a possible selection"
    if bad:
        return f"accepted {c}"
    if len(r) != c["k"] or len(set(r)) != c["k"] or not set(r) <= set(vals):
        return f"{r} is not a selection of {c['k']} of {vals}"


# ---------------------------------------------------------------------------------------------------- C05
def g05(rng, i):
    cfg = {"wildcards": ["w1", "d/w2", "tmpl", "one"], "methods": [None, None, "~"], "wrap": rng.random() < 0.3, "weights": True, "vars": ["x", "y"], "asg": rng.random() < 0.5}
    t = A.template(rng, cfg)
    return {"t": t, "seed": rng.choice([0, 1, 42, -7, 2**40, rng.randrange(10**6)]), "n": rng.randint(1, 8),
            "seeds": [rng.choice([0, 1, 1, rng.randrange(1000)]) for _ in range(8)], "amb": [rng.randrange(100), rng.randrange(100)], "nimg": rng.randint(1, 5)}


def has_imm(n):
    if n[0] == "asg":
        return n[3]
    if n[0] == "seq":
        return any(has_imm(x) for x in n[1])
    return False


def strip_undef(t):
    """Give every variable use a default, so that generation cannot fail."""
    if t[0] == "acc":
        return ["acc", t[1], t[2] or ["lit", "dd"]]
    if t[0] == "seq":
        return ["seq", [strip_undef(x) for x in t[1]]]
    if t[0] == "grp":
        return [*t[:4], [[w, strip_undef(o)] for w, o in t[4]]]
    if t[0] == "asg":
        return ["asg", t[1], strip_undef(t[2]), t[3], t[4]]
    if t[0] == "wrap":
        return ["wrap", strip_undef(t[1]), strip_undef(t[2])]
    return t


@family("C05", g05, 260, 4000)
def seeded(c):
    from dynamicprompts.constants import DEFAULT_RANDOM

    t = strip_undef(c["t"])
    text = render(t)
    if "$$$$" in text:
        return None

    def run(ambient, f):
        random.seed(ambient)
        DEFAULT_RANDOM.seed(ambient)
        s1, s2 = random.getstate(), DEFAULT_RANDOM.getstate()
        try:
            r = f()
        except RecursionError:
            r = "RecursionError"
            if f is not two_calls:
                raise Skip("self-referring variable") from None
        if random.getstate() != s1 or DEFAULT_RANDOM.getstate() != s2:
            raise Disturbed(text)
        return r

    class Disturbed(Exception):
        pass

    def two_calls():
        g = rand_gen(WILD, seed=c["seed"])
        return [g.generate(text, c["n"]), g.generate("{a|b|c|d} {1|2|3}", 4), g.generate(text, 2)]

    try:
        a = run(c["amb"][0], two_calls)
        b = run(c["amb"][1], two_calls)
        if a != b:
            return f"same seed {c['seed']}, different prompts for {text!r}: {a!r} / {b!r}"
        if a == "RecursionError" or has_imm(t):
            return None
        n = c["n"]
        seeds = c["seeds"][:n]
        full = run(c["amb"][0], lambda: rand_gen(WILD, seed=c["seed"]).generate(text, n, seeds=seeds))
        if len(full) != n:
            return f"{len(full)} prompts for {n} seeds"
        for i in (0, n - 1, n // 2):
            one = run(c["amb"][1], lambda: rand_gen(WILD, seed=c["amb"][1]).generate(text, 1, seeds=[seeds[i]]))
            if [full[i]] != one:
                return f"{text!r}: prompt {i} of seeds {seeds} is {full[i]!r}, but seed {seeds[i]} alone gives {one!r}"
        s = seeds[0]
        k = c["nimg"]
        for form in (s, [s]):
            same = run(c["amb"][0], lambda: rand_gen(WILD, seed=3).generate(text, k, seeds=form))
            ref1 = run(c["amb"][0], lambda: rand_gen(WILD, seed=4).generate(text, k, seeds=[s] * k))
            if same != ref1 or len(set(same)) != 1:
                return f"{text!r}: single seed {form!r} applied to {k} prompts gives {same!r}, {ref1!r}"
    except Disturbed:
        return f"generating {text!r} disturbed the process-wide random source"


def g05b(rng, i):
    return {"n": rng.randint(0, 5), "k": rng.randint(0, 6), "same": rng.random() < 0.3, "t": rng.choice(["{a|b}", "x", "", "__w1__"])}


@family("C05", g05b, 80, 400)
def seed_list_length(c):
    g = rand_gen(WILD, seed=1)
    seeds = [7] * c["k"] if c.get("same") else list(range(c["k"]))
    bad = c["k"] not in (1, c["n"])
    try:
        r = g.generate(c["t"], c["n"], seeds=seeds)
    except ValueError:
        return None if bad else f"refused {c['k']} seeds for {c['n']} prompts"
    if bad:
        return f"accepted {c['k']} seeds for {c['n']} prompts"
    return None if len(r) == (c["n"] if c["t"] else 0) else f"{c}: {len(r)} prompts"


def g05d(rng, i):
    return {"t": rng.choice(["{a|b|c|d|e|f|g|h}", "__w1__ {a|b|c|d}", "{2$$a|b|c|d|e} {1|2|3|4}", "__d/w2__ {x|y|z|w}"]), "seed": i}


@family("C05", g05d, 30, 200)
def seeds_matter(c):
    """The source really is seeded: different prompts within a run, and a fresh generator replays them."""
    a = rand_gen(WILD, seed=c["seed"]).generate(c["t"], 40)
    if len(set(a)) < 2:
        return f"{c['t']!r}: 40 prompts all equal"
    b = rand_gen(WILD, seed=c["seed"])
    got = [b.generate(c["t"], 1)[0] for _ in range(1)]
    return differ("first prompt", got, a[:1])


# ---------------------------------------------------------------------------------------------------- C06
def cyc_stream(t, wcs):
    """Reference n-th values of cyclical generation (restricted to finite cyclical parts)."""
    k = t[0]
    if k == "lit":
        while True:
            yield t[1]
    elif k == "seq":
        gens = [cyc_stream(x, wcs) for x in t[1]]
        while True:
            yield "".join(next(g) for g in gens)
    elif k == "wc":
        vals = [v for v, w in sorted(wcs[t[2]], key=lambda p: render(p[0])) for _ in range(int(w))]
        gens = [cyc_stream(v, wcs) for v in vals]
        for g in itertools.cycle(gens):
            yield next(g)
    elif k == "grp":
        _, _m, b, sep, os = t
        lo, hi = A.norm_bounds(b, len(os))
        sep = "," if sep is None else sep
        opts = [o for _, o in os]
        if len(opts) == 1 and opts[0][0] == "wc":
            nv = len(wcs[opts[0][2]])
            lo, hi = min(lo, nv), min(hi, nv)
            opts = [v for v, w in sorted(wcs[opts[0][2]], key=lambda p: render(p[0])) for _ in range(int(w))]
        lo, hi = min(lo, len(opts)), min(hi, len(opts))
        sels = [s for n in range(lo, hi + 1) for s in ref.selections(opts, n)]
        if not sels:
            return
        gens = [[cyc_stream(o, wcs) for o in s] for s in sels]
        for gs in itertools.cycle(gens):
            yield ref.ref_join([next(g) for g in gs], sep) if gs else ""


def g06(rng, i):
    fixed = [
        ["grp", "@", None, None, [[None, ["lit", x]] for x in "abc"]],
        ["wc", "@", "w1", {}],
        ["wc", "@", "d/w2", {}],
        ["seq", [["wc", "@", "w1", {}], ["lit", "-"], ["grp", "@", None, None, [[None, ["lit", x]] for x in "xyz"]]]],
        ["grp", "@", ["lo-hi", 0, 2], "+", [[None, ["lit", x]] for x in "abc"]],
        ["grp", "@", ["n", 2], None, [[None, ["wc", None, "w1", {}]]]],
        ["seq", [["wc", "@", "w1", {}], ["wc", "@", "w1", {}]]],
    ]
    n = rng.choice([7, 20, 41])
    m = rng.choice(["~", "@"])
    if i < 2 * len(fixed):
        return {"t": fixed[i // 2], "n": 41, "m": "~@"[i % 2]}

    def part():
        r = rng.random()
        if r < 0.35:
            return ["wc", "@", rng.choice(["w1", "d/w2", "one", "w1"]), {}]
        if r < 0.8:
            g = A.group(rng, rng.choice([1, 1, 2]), {"methods": ["@"], "dups": False, "wildcards": ["w1", "d/w2"] if rng.random() < 0.3 else None})
            return g
        return A.lit(rng)

    ps = []
    for _ in range(rng.randint(1, 4)):
        p = part()
        if ps and p[0] == "lit" and ps[-1][0] == "lit":
            continue
        ps.append(p)
    if not any(p[0] != "lit" for p in ps):
        return None
    return {"t": ps[0] if len(ps) == 1 else ["seq", ps], "n": n, "m": m}


@family("C06", g06, 500, 8000)
def cyclical_order(c):
    t = c["t"]
    text = render(t)
    if "$$$$" in text:
        return None
    try:
        exp = take(cyc_stream(t, WILD), c["n"])
    except RuntimeError:
        return None
    if len(exp) < c["n"]:
        return None
    got = [str(r) for r in islice(context(WILD, c["m"], rand=random.Random(1)).sample_prompts(text), c["n"])]
    r = differ(text, got, exp)
    if r:
        return r
    if c["m"] == "~":
        g = rand_gen(WILD, seed=5)
        return differ(text + " via generator", g.generate(text, c["n"]), exp) or differ(text + " again", g.generate(text, 3), exp[:3])


def g06l(rng, i):
    k = rng.randint(2, 5)
    return {"a": [f"a{j}" for j in range(k)], "b": [f"b{j}" for j in range(k)], "mid": rng.choice(["{x|y}", "__w1__", "{~p|q|r}", "lit"]), "m": rng.choice(["~", "@", "!"]), "n": rng.choice([9, 23, 60])}


@family("C06", g06l, 150, 1500)
def lockstep(c):
    """Equally long cyclical parts stay in sync whatever stands between them."""
    text = "{@%s} %s {@%s}" % ("|".join(c["a"]), c["mid"], "|".join(c["b"]))
    got = [str(r) for r in islice(context(WILD, c["m"], rand=random.Random(3)).sample_prompts(text), c["n"])]
    k = len(c["a"])
    for i, g in enumerate(got):
        x, _, y = g.split(" ")
        if x != f"a{i % k}" or y != f"b{i % k}":
            return f"{text!r} prompt {i}: {g!r}"


# ---------------------------------------------------------------------------------------------------- C07
W7 = {
    **WILD,
    "defs": [[["seq", [["asg", "x", ["lit", "leak"], False, False], ["lit", "D"], ["acc", "x", None]]], 1]],
    "keeps": [[["seq", [["asg", "x", ["lit", "kept?"], False, True], ["lit", "K"], ["acc", "x", None]]], 1]],
    "usesy": [[["seq", [["lit", "Y="], ["acc", "y", ["lit", "noy"]]]], 1]],
}


def g07(rng, i):
    lf = lambda s: ["lit", s]
    ab = ["grp", None, None, None, [[None, lf("a")], [None, lf("b")]]]
    fixed = [
        ["seq", [["asg", "x", ab, False, False], lf("u "), ["acc", "x", None], lf(" "), ["acc", "x", None]]],
        ["seq", [["asg", "x", ab, True, False], lf("u "), ["acc", "x", None], lf(" "), ["acc", "x", None]]],
        ["seq", [["asg", "x", lf("1"), False, False], ["asg", "x", lf("2"), False, False], lf("u "), ["acc", "x", None]]],
        ["seq", [["asg", "x", lf("1"), False, False], ["asg", "x", lf("2"), False, True], lf("u "), ["acc", "x", None]]],
        ["seq", [["asg", "x", lf("2"), False, True], lf("u "), ["acc", "x", None]]],
        ["seq", [["acc", "x", lf("d")], lf(" t")]],
        ["seq", [["acc", "x", None], lf(" t")]],
        ["seq", [["asg", "x", ["acc", "y", None], False, False], ["asg", "y", lf("late"), False, False], ["acc", "x", None], lf("!")]],
        ["seq", [["asg", "y", lf("early"), False, False], ["asg", "x", ["acc", "y", None], True, False], ["asg", "y", lf("late"), False, False], ["acc", "x", None], ["acc", "y", None]]],
        ["seq", [["asg", "x", ["acc", "x", None], False, False], lf("s "), ["acc", "x", None]]],
        ["seq", [["asg", "x", ["acc", "y", None], False, False], ["asg", "y", ["acc", "x", None], False, False], lf("s "), ["acc", "x", None]]],
        ["seq", [["wc", None, "defs", {}], lf(" "), ["acc", "x", lf("outer")]]],
        ["seq", [["asg", "x", lf("mine"), False, False], ["wc", None, "defs", {}], lf(" "), ["acc", "x", None]]],
        ["seq", [["asg", "x", lf("mine"), False, False], ["wc", None, "keeps", {}]]],
        ["seq", [["asg", "x", lf("mine"), False, False], ["wc", None, "usesx", {"x": lf("param")}], ["acc", "x", None]]],
        ["grp", None, ["n", 2], None, [[None, ["wc", None, "usesx", {"x": ab}]]]],
        ["seq", [["wc", None, "usesx", {}], ["acc", "x", lf("z")]]],
        ["grp", None, None, None, [[None, ["acc", "x", lf("q")]], [None, ["acc", "y", None]]]],
    ]
    if i < len(fixed):
        return {"t": fixed[i], "unknown": [None, "UNK"][i % 2], "strict": True}
    if i < 2 * len(fixed):
        return {"t": fixed[i - len(fixed)], "unknown": ["UNK", None][i % 2], "strict": True}
    cfg = {"vars": ["x", "y", "z-1"], "asg": True, "wildcards": ["usesx", "usesy", "defs", "keeps", "w1"], "params": True, "depth": 2, "empty_opt": False}
    return {"t": A.template(rng, cfg, 5), "unknown": rng.choice([None, None, "UNK", "", ["cmd", "CMDUNK"], ["cmd", ""]])}


@family("C07", g07, 800, 12000)
def variables_combinatorial(c):
    from dynamicprompts.commands import LiteralCommand

    t, u = c["t"], c["unknown"]
    text = render(t)
    if "$$$$" in text:
        return None
    uk = u if u is None else ["lit", u if isinstance(u, str) else u[1]]
    exp, err = ref_or_error(t, W7, LIM, uk)
    if err is StopIteration or err is RuntimeError:
        return None
    ctx = comb_ctx(W7, unknown=u if not isinstance(u, list) else LiteralCommand(u[1]))
    try:
        got = [str(r) for r in islice(ctx.sample_prompts(text), LIM)]
    except (KeyError, RecursionError) as e:
        if err is None and not exp:
            return None  # a template without output may still evaluate its other parts
        if err is None:
            return f"{text!r}: unexpected {e!r}, expected {exp[:5]!r}"
        # a template with both kinds of error may report either
        return None if isinstance(e, err) or not c.get("strict") else f"{text!r}: {e!r} instead of {err.__name__}"
    if err is not None:
        return f"{text!r}: gave {got[:4]!r} instead of {err.__name__}"
    r = differ(text, got, exp)
    if r:
        return r
    again = [str(r) for r in islice(ctx.sample_prompts("${x:fresh}${y:fresh}"), 3)]
    return differ("definitions leaked out of the template", again, ["freshfresh"])


def g07r(rng, i):
    return {"kind": i % 9, "m": "~@"[i // 9 % 2], "seed": i}


@family("C07", g07r, 72, 400)
def variables_random(c):
    N = 40
    wcs = {**W7, "many": [[["lit", f"v{j}"], 1] for j in range(6)]}
    opts = ["o%d" % j for j in range(6)]
    grp = "{" + "|".join(opts) + "}"

    def run(text, n=N, unknown=None):
        return [str(r) for r in islice(context(wcs, c["m"], unknown, random.Random(c["seed"])).sample_prompts(text), n)]

    k = c["kind"]
    if k == 0:
        got = run("${x=!%s}${x} ${x} ${x}" % grp)
        if len({p for g in got for p in g.split()}) != 1:
            return f"immediate variable not evaluated once: {got[:6]}"
    elif k == 1 and c["m"] == "~":
        got = run("${x=%s}${x} ${x}" % grp)
        if len(set(got)) < 5 or all(len(set(g.split())) == 1 for g in got):
            return f"plain variable not evaluated anew: {got[:6]}"
    elif k == 2:
        got = run("${x=%s}${x?=zz}${x}" % grp)
        if any(g not in opts for g in got):
            return f"?= replaced a defined value: {got[:4]}"
    elif k == 3:
        got = run("${x?=zz}${x}")
        return differ("?= on undefined", got[:3], ["zz"] * 3)
    elif k == 4:
        try:
            got = run("${nope} x")
        except KeyError:
            return None
        return f"undefined variable gave {got[:3]}"
    elif k == 5:
        return differ("fallback", run("${nope} x", 3, "FB"), ["FB x"] * 3) or differ("default first", run("${nope:dd} x", 3, "FB"), ["dd x"] * 3)
    elif k == 6:
        for text in ("${x=a ${x}}${x} t", "${x=${y}}${y=${x}}q ${x}", "${x=!{b ${x}|c ${x}}}${x} t"):
            try:
                got = run(text, 3)
            except (RecursionError, KeyError):
                continue
            return f"{text!r} gave {got!r} instead of an error"
    elif k == 7:
        got = run("${x=out}__defs__ __usesx(x=P)__ ${x}", 60)
        for g in got:
            if not re.fullmatch(r"Dleak (X=P|plain) out", g):
                return f"scoping: {g!r}"
    elif k == 8:
        got = run("{1$$__usesx(x=P)__} ${x:out}", 60)
        for g in got:
            if not re.fullmatch(r"(X=P|plain) out", g):
                return f"group over a wildcard with parameters: {g!r}"


# ---------------------------------------------------------------------------------------------------- C08
def expect_re(t, m, wcs):
    """Regular expression of the texts a part can take under method m (any admissible draw)."""
    k = t[0]
    if k == "lit":
        return re.escape(t[1])
    if k == "seq":
        return "".join(expect_re(x, m, wcs) for x in t[1])
    if k == "wc":
        return "(?:" + "|".join(expect_re(v, m, wcs) for v, w in wcs[t[2]] if w > 0) + ")"
    if k == "grp":
        _, _m, b, sep, os = t
        sep = "," if sep is None else sep
        lo, hi = A.norm_bounds(b, len(os))
        lo, hi = min(lo, len(os)), min(hi, len(os))
        alts = []
        for n in range(lo, hi + 1):
            for sel in itertools.permutations([o for _, o in os], n):
                alts.append(re.escape(sep).join(expect_re(o, m, wcs) for o in sel))
        return "(?:" + "|".join(alts) + ")"
    raise ValueError(k)


def g08(rng, i):
    """Combinatorial template with random/cyclical parts standing directly in it."""
    parts = []
    many = i % 40 == 39
    for j in range(rng.randint(9, 14) if many else rng.randint(2, 4)):
        r = rng.random()
        if many and j not in (2, 11):
            r = 0.6 + 0.4 * r
        if r < 0.45:
            parts.append(["grp", rng.choice([None, None, "!"]), None, None, [[None, ["lit", f"c{j}{k}"]] for k in range(rng.randint(2, 3))]])
        elif r < 0.6:
            parts.append(["wc", None, "w1", {}])
        elif r < 0.85:
            inner = ["grp", rng.choice([None, "!", "~"]), None, None, [[None, ["lit", f"i{j}0"]], [None, ["lit", f"i{j}1"]]]]
            last = rng.choice([["lit", f"r{j}2"]] * 3 + [["seq", []], ["wc", None, "blank", {}], ["lit", "\u00a0"]])
            parts.append(["grp", rng.choice(["~", "@"]), rng.choice([None, None, ["lo-hi", 1, 2]]), rng.choice([None, "+"]), [[None, ["lit", f"r{j}0"]], [None, inner], [None, last]]])
        else:
            parts.append(["wc", rng.choice(["~", "@"]), rng.choice(["d/w2", "d/w2", "blank"]), {}])
    out = []
    for p in parts:
        if p[0] == "grp" and p[2] is None:
            p[3] = None
        out += [p, ["lit", "; "]]
    return {"parts": out[:-1], "seed": rng.randrange(1000), "cyc": rng.random() < 0.3}


W8 = {**WILD, "blank": [[["lit", " "], 1], [["lit", "\t"], 1]]}


def is_fill(p):
    return p[0] in ("grp", "wc") and p[1] in ("~", "@")


@family("C08", g08, 400, 6000)
def nested_in_combinatorial(c):
    parts = c["parts"]
    text = render(["seq", parts])
    fin = [p for p in parts if p[0] != "lit"]
    finite = [p for p in fin if not is_fill(p)]
    exp = list(itertools.product(*[list(ref.combos(p, refctx(W8))) for p in finite])) if finite else [()]
    lim = 400
    got = [str(r) for r in islice(context(W8, "!", rand=random.Random(c["seed"])).sample_prompts(text), lim)]
    if not finite:
        if len(got) != 1:
            return f"{text!r}: {len(got)} prompts instead of one"
    cycs = {id(p): cyc_stream(p, W8) for p in fin if is_fill(p) and p[1] == "@" and simple_cyc(p)}
    if len(got) != min(lim, len(exp)):
        return f"{text!r}: {len(got)} prompts, expected {len(exp)}"
    dup = len({render(p) for p in fin if is_fill(p)}) < sum(1 for p in fin if is_fill(p))
    for i, (g, e) in enumerate(zip(got, exp)):
        pat, k = "", 0
        for p in parts:
            if p[0] == "lit":
                pat += re.escape(p[1])
            elif is_fill(p):
                pat += "(?:" + expect_re(p, p[1], W8) + ")"
            else:
                pat += re.escape(e[k])
                k += 1
        if not re.fullmatch(pat, g):
            return f"{text!r} prompt {i}: {g!r} does not fill in combination {e!r}"
        if cycs and not dup:
            toks = g.split("; ")
            for p, tok in zip(fin, toks):
                if id(p) in cycs and tok != next(cycs[id(p)]):
                    return f"{text!r} prompt {i}: cyclical part out of order: {g!r}"


def g08g(rng, i):
    """A combinatorial group some of whose options are random or cyclical."""
    opts = []
    for j in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.5:
            opts.append(["lit", f"c{j}"])
        elif r < 0.65:
            opts.append(["grp", None, None, None, [[None, ["lit", f"g{j}0"]], [None, ["lit", f"g{j}1"]]]])
        elif r < 0.9:
            opts.append(["grp", rng.choice("~@"), None, None, [[None, ["lit", f"r{j}{k}"]] for k in range(rng.randint(1, 3))]])
        else:
            opts.append(["seq", [["lit", f"s{j} "], ["grp", rng.choice("~@"), None, None, [[None, ["lit", f"t{j}{k}"]] for k in range(2)]]]])
    sep = rng.choice([None, " & ", "-", "|"])
    b = rng.choice([None, None, ["n", 2], ["lo-hi", 1, 2], ["lo-hi", 0, 3], ["n", 7]])
    return {"t": ["grp", rng.choice([None, "!"]), b, sep if b else None, [[None, o] for o in opts]], "seed": rng.randrange(1000)}


@family("C08", g08g, 250, 4000)
def nonfinite_options_in_combinatorial_group(c):
    t = c["t"]
    text = render(t)

    def outs(o):  # texts enumerated by the option; None for a filled-in one
        if o[0] == "grp" and o[1] in ("~", "@"):
            return [None]
        if o[0] == "seq":
            return [None]
        return list(ref.combos(o, refctx({})))

    def fill(o):
        return "(?:" + (expect_re(o, "~", {})) + ")"

    opts = [o for _, o in t[4]]
    lo, hi = A.norm_bounds(t[2], len(opts))
    lo, hi = min(lo, len(opts)), min(hi, len(opts))
    sep = re.escape("," if t[3] is None else t[3])
    exp = []
    for n in range(lo, hi + 1):
        for sel in ref.selections(opts, n):
            for ts in itertools.product(*[outs(o) for o in sel]):
                exp.append(sep.join(fill(o) if x is None else re.escape(x) for o, x in zip(sel, ts)))
    uniq = []
    for e in exp:
        uniq.append(e)
    got = [str(r) for r in islice(context({}, "!", rand=random.Random(c["seed"])).sample_prompts(text), LIM)]
    single = all(o[0] == "lit" or (o[0] == "grp" and o[1] is None) for o in opts)
    k = 0
    for g in got:  # a filled-in text that came up before is left out; the order of the rest is kept
        while k < len(uniq) and not re.fullmatch(uniq[k], g):
            if single:
                break
            k += 1
        if k >= len(uniq) or not re.fullmatch(uniq[k], g):
            return f"{text!r}: {g!r} is not the text of the next selection (of {len(uniq)}); got {got[:10]!r}"
        k += 1
    if len(set(got)) != len(got):
        return f"{text!r}: a selection twice in {got!r}"
    if len(got) == LIM:
        return None
    if single and len(got) != len(uniq):
        return f"{text!r}: {len(got)} of {len(uniq)} selections"
    have = {g for g in got}
    for e in uniq:
        if "(?:" not in e and not any(re.fullmatch(e, g) for g in have):
            return f"{text!r}: selection {e!r} is missing in {got!r}"
    for e in uniq:  # every selection contributes at least one text unless it came up before
        if not any(re.fullmatch(e, g) for g in have):
            return f"{text!r}: no text for selection {e!r} in {got!r}"


def simple_cyc(p):
    return p[0] == "wc" or all(o[0] == "lit" for _, o in p[4])


def g08r(rng, i):
    """Random or cyclical surroundings containing combinatorial requests."""
    cfg = {"methods": [None, "!", "~", "@"], "wildcards": ["w1", "d/w2", "tmpl"], "dups": False, "empty_opt": False, "seps": [" + ", "+"], "pos": True}
    parts = []
    for _ in range(rng.randint(1, 3)):
        p = A.group(rng, 2, cfg) if rng.random() < 0.7 else A.wc(rng, cfg)
        parts += [p, ["lit", "; "]]
    return {"t": ["seq", parts], "m": rng.choice("~@"), "seed": rng.randrange(99), "n": rng.choice([5, 37, 80])}


@family("C08", g08r, 350, 5000)
def combinatorial_in_nonfinite(c):
    text = render(c["t"])
    if "$$$$" in text or wc_only_group(c["t"]):
        return None
    got = [str(r) for r in islice(context(WILD, c["m"], rand=random.Random(c["seed"])).sample_prompts(text), c["n"])]
    if len(got) != c["n"]:
        return f"{text!r}: never-ending surroundings stopped after {len(got)} of {c['n']}"
    pat = re.compile(expect_re(c["t"], c["m"], WILD))
    for g in got:
        if not pat.fullmatch(g):
            return f"{text!r}: {g!r} is not an admissible text"


def wc_only_group(t):
    if t[0] == "wrap":
        return wc_only_group(t[1]) or wc_only_group(t[2])
    if t[0] == "seq":
        return any(wc_only_group(x) for x in t[1])
    if t[0] == "grp":
        return (len(t[4]) == 1 and t[4][0][1][0] == "wc") or any(wc_only_group(o) for _, o in t[4])
    return False


def g08i(rng, i):
    return {"k": i % 8, "seed": i}


@family("C08", g08i, 48, 200)
def inheritance(c):
    """Parts inside a part inherit its method."""
    s = c["seed"]

    def run(m, text, n):
        return [str(r) for r in islice(context(WILD, m, rand=random.Random(s)).sample_prompts(text), n)]

    k = c["k"]
    if k == 0:  # cyclical outside -> nested group cyclical
        return differ("@ outer", run("~", "{@{a|b|c}|x}", 12), ["a", "x", "b", "x", "c", "x"] * 2)
    if k == 1:
        return differ("@ wildcard value", run("~", "__@tmpl__", 8), ["k u,v", "m", "k v,u", "n"] * 2)
    if k == 2:  # random inside cyclical keeps random
        got = run("@", "{~a|b|c|d}", 60)
        if sorted(set(got)) != list("abcd") or got == list("abcd") * 15:
            return f"~ in cyclical surroundings: {got[:12]}"
    if k == 3:  # combinatorial in random: stays random, endless
        got = run("~", "{!a|b|c|d}", 80)
        if len(got) != 80 or got == list("abcd") * 20 or sorted(set(got)) != list("abcd"):
            return f"! in random surroundings: {got[:12]}"
    if k == 4:
        return differ("! in cyclical surroundings", run("@", "{!a|b|c}", 9), list("abc") * 3)
    if k == 5:  # inside ~ in combinatorial: nested group is random, so exactly one prompt per combination
        got = run("!", "{1|2} {~{a|b|c|d}|e}", 50)
        return None if [g[0] for g in got] == ["1", "2"] else f"{got}"
    if k == 6:
        return differ("@ in combinatorial", run("!", "{1|2|3} {@a|b}", 50), ["1 a", "2 b", "3 a"])
    if k == 7:
        got = run("~", "{@{~a|b|c|d}|x}", 80)
        if [g for g in got[1::2]] != ["x"] * 40 or sorted(set(got[0::2])) != list("abcd"):
            return f"~ inside @: {got[:12]}"
