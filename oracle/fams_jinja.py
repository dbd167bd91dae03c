"""C19: what a Jinja template may call, and how its prompt blocks become prompts."""
from __future__ import annotations

import itertools
import random

from . import ast as A
from . import ref
from .ast import render
from .core import Skip, family
from .fams_gen import W2 as _W2, g02, ref_or_error, self_ref
from .util import differ, manager, refctx, take

LIM = 200
# a value that may come out empty, and one with white space only
W2 = {**_W2, "opt": [[["grp", None, None, None, [[None, ["lit", "x"]], [None, ["seq", []]]]], 1], [["lit", "\u00a0"], 1]]}
ITEMS = ["a", "b", "c", "a", "", " x", "é", "<&>", "1", "A"]


def jinja(**kw):
    try:
        import jinja2  # noqa: F401
    except ImportError:
        raise Skip
    from dynamicprompts.generators import JinjaGenerator

    return JinjaGenerator(manager(W2), **kw)


def called(expr, n=1, **context):
    """The values `expr` has inside a template, one per rendering."""
    got = []

    def rec(x):
        got.append(x)
        return ""

    jinja(context={"rec": rec, **context}).generate("{{ rec(" + expr + ") }}", n)
    return got


def gperm(rng, i):
    items = [rng.choice(ITEMS) for _ in range(rng.randint(0, 4))]
    lo = rng.randint(0, 4)
    return {"items": items, "lo": lo, "hi": rng.choice([None, None, lo, lo + 1, lo + 2, lo - 1, 0, len(items)])}


def selections(items, k):
    if k == 0:
        return [()]
    return [(x, *rest) for i, x in enumerate(items) for rest in selections(items[:i] + items[i + 1:], k - 1)]


@family("C19", gperm, 150, 1500)
def permutations(c):
    hi = c["lo"] if c["hi"] is None else c["hi"]
    exp = [p for k in range(c["lo"], hi + 1) for p in selections(c["items"], k)]
    args = "items, lo" + ("" if c["hi"] is None else ", hi")
    got = called(f"permutations({args})", items=c["items"], lo=c["lo"], hi=c["hi"])
    return differ(f"permutations {c}", [[tuple(p) for p in g] for g in got], [exp])


def gwild(rng, i):
    return {"name": rng.choice(["w1", "d/w2", "one", "tmpl", "zero", "usesx", "opt"]), "wrapped": rng.random() < 0.5, "n": rng.choice([1, 1, 2])}


@family("C19", gwild, 60, 300)
def wildcards(c):
    name = c["name"]
    exp = take(ref.combos(["wc", None, name, {}], refctx(W2)), LIM)
    got = called("wildcard(name)", c["n"], name=f"__{name}__" if c["wrapped"] else name)
    return differ(f"wildcard {c}", [list(g) for g in got], [exp] * c["n"])


def gall(rng, i):
    return {**g02(rng, rng.randrange(12) if i < 30 else i + 100), "n": rng.choice([1, 1, 2])}


@family("C19", gall, 150, 2500)
def all_combinations(c):
    t = c["t"]
    exp, err = ref_or_error(t, W2, LIM + 1)
    text = render(t)
    if err is not None or "$$$$" in text or self_ref(t) or len(exp) > LIM:
        return None
    got = called("all_combinations(text)", c["n"], text=text)
    return differ(f"all_combinations({text!r})", [list(g) for g in got], [exp] * c["n"])


SAMPLES = [
    ("{red|blue} {rose|daisy}", ["red rose", "red daisy", "blue rose", "blue daisy"]),
    ("__w1__", ["wa", "wb", "wc"]),
    ("{2$$-$$a|b|c}", ["a-b", "a-c", "b-a", "b-c", "c-a", "c-b"]),
    ("{a|0::b|c}", ["a", "c"]),
    ("plain", ["plain"]),
    ("__d/w2__", ["ta x", "tb"]),
    ("{|x}", ["", "x"]),
]


def gsample(rng, i):
    return {"s": i % len(SAMPLES), "n": 40, "seed": rng.randrange(10**6)}


@family("C19", gsample, 24, 160)
def random_samples(c):
    text, exp = SAMPLES[c["s"]]
    random.seed(c["seed"])
    got = called("random_sample(text)", c["n"], text=text)
    bad = [g for g in got if g not in exp]
    if bad or len(got) != c["n"]:
        return f"random_sample({text!r}): got {bad[:3]!r}, expected one of {exp!r}"
    if len(exp) > 1 and len(set(got)) == 1:  # chance below 2 ** -39 with two outcomes (weights are at most 2.7 : 1, then 1e-5 ** 1)
        return None if text == "__d/w2__" else f"random_sample({text!r}): always {got[0]!r}"
    return None


def gchoice(rng, i):
    k = rng.randint(1, 5)
    return {"items": rng.sample(["a", "b", "", "é x", "0", "zz", "A"], k), "ws": [rng.choice([0, 0, 1, 1, 2, 0.5]) for _ in range(k)], "seed": rng.randrange(10**6)}


@family("C19", gchoice, 60, 600)
def choices(c):
    random.seed(c["seed"])
    got = called("choice(*items)", 120, items=c["items"])
    if set(got) != set(c["items"]):  # five items: an item is missing with a chance below 1e-10
        return f"choice of {c['items']!r} over 120 draws gave {sorted(set(got))!r}"
    if sum(c["ws"]) <= 0:
        return None
    got = called("weighted_choice(*pairs)", 250, pairs=list(zip(c["items"], c["ws"])))
    exp = {x for x, w in zip(c["items"], c["ws"]) if w > 0}
    if not set(got) <= exp:
        return f"weighted_choice of {list(zip(c['items'], c['ws']))!r} gave {sorted(set(got))!r}"
    if set(got) != exp:  # the smallest share is 0.5 of 8.5: missed with a chance below 1e-6
        return f"weighted_choice of {list(zip(c['items'], c['ws']))!r} over 250 draws only gave {sorted(set(got))!r}"
    return None


def gblock(rng, i):
    parts = []
    for _ in range(rng.randint(0, 4)):
        parts.append(rng.choice([
            ["text", rng.choice(["", "t ", "x\n", " … "])],
            ["block", [rng.choice(["b", "", " c  d ", "<i>"]) for _ in range(rng.randint(0, 2))]],
            ["loop", rng.randint(0, 3), rng.choice(["p", "", "q "])],
            ["tick", rng.choice(["n", ""])],
            ["if", rng.choice(["b1", ""])],
        ]))
    return {"parts": parts, "n": rng.choice([0, 1, 1, 2, 3]), "limit": rng.random() < 0.4, "ws": rng.random() < 0.3, "before": rng.random() < 0.3}


@family("C19", gblock, 160, 1600)
def blocks(c):
    def rendering(i):
        text, found = "", []
        for p in c["parts"]:
            if p[0] == "text":
                text += p[1]
            elif p[0] == "block":
                b = "".join(p[1])
                text += b
                found.append(b)
            elif p[0] == "loop":
                for k in range(p[1]):
                    b = f"{p[2]}{k}"
                    text += b
                    found.append(b)
            elif p[0] == "tick":
                b = f"{p[1]}{i}"
                text += b
                found.append(b)
            elif i % 2:
                text += p[1]
                found.append(p[1])
        return (text[:-1] if text.endswith("\n") and src.endswith("\n") else text), found

    src = ""
    for p in c["parts"]:
        if p[0] == "text":
            src += p[1]
        elif p[0] == "block":
            src += "{% prompt %}" + "".join(p[1]) + "{% endprompt %}"
        elif p[0] == "loop":
            src += "{% for k in range(" + str(p[1]) + ") %}{% prompt %}" + p[2] + "{{ k }}{% endprompt %}{% endfor %}"
        elif p[0] == "tick":
            src += "{% prompt %}" + p[1] + "{{ t }}{% endprompt %}"
        else:
            src += "{% if t % 2 %}{% prompt %}" + p[1] + "{% endprompt %}{% endif %}"
    src = "{% set t = tick() %}" + src
    n = itertools.count(0)
    g = jinja(context={"tick": lambda: next(n)}, limit_prompts=c["limit"], ignore_whitespace=c["ws"])
    if c["before"]:
        g.generate("{% prompt %}old{% endprompt %}", 2)
    got = list(g.generate(src, c["n"]))
    rs = [rendering(i) for i in range(c["n"])]
    exp = [b for _t, bs in rs for b in bs] or [t for t, _bs in rs]
    if c["limit"]:
        exp = exp[: c["n"]]
    if c["ws"]:
        exp = [" ".join(p.split()) for p in exp]
    return differ(f"{src!r} n={c['n']}", got, exp)


BAD = ["{% for %}", "{{ a", "{% prompt %}x", "{% if x %}", "{% endprompt %}", "{{ 1 + }}", "{% nosuch %}"]


def gbad(rng, i):
    return {"s": BAD[i % len(BAD)], "n": rng.choice([1, 2])}


@family("C19", gbad, 7, 14)
def syntax_errors(c):
    from dynamicprompts.generators.promptgenerator import GeneratorException

    try:
        got = jinja().generate(c["s"], c["n"])
    except GeneratorException:
        return None
    return f"template {c['s']!r}: expected a GeneratorException, got {got!r}"


def gopts(rng, i):
    return {"kind": i % 4, "n": rng.choice([7, 11, 101, 130]), "ws": rng.random() < 0.5}


@family("C19", gopts, 24, 80)
def options_reach_the_functions(c):
    """Large enumerations are complete; the generator's own options and parser settings hold inside its functions."""
    from dynamicprompts.generators import JinjaGenerator
    from dynamicprompts.parser.config import ParserConfig

    got, kw = [], {"ignore_whitespace": c["ws"]}
    wcs = {"big": [[["lit", f"v{k:03}  x"], 1] for k in range(c["n"])]}
    sq = (lambda t: " ".join(t.split())) if c["ws"] else (lambda t: t)
    vals = [sq(f"v{k:03}  x") for k in range(c["n"])]
    if c["kind"] == 0:
        expr, exp = "wildcard('big')", vals
    elif c["kind"] == 1:
        expr, exp = "all_combinations('{a|b}  __big__')", [sq(f"{x}  v{k:03}  x") for x in "ab" for k in range(c["n"])]
    elif c["kind"] == 2:
        expr, exp = "all_combinations('<a|b>  (x:y) **big**')", [sq(f"{x}  (x:y) {v}") for x in "ab" for v in [f"v{k:03}  x" for k in range(c["n"])]]
        kw["parser_config"] = ParserConfig(variant_start="<", variant_end=">", wildcard_wrap="**")
    else:
        expr, exp = "[random_sample('{a}  {b}')]", [sq("a  b")]

    def rec(x):
        got.extend(x)
        return ""

    m = manager(wcs, wildcard_wrap="**") if c["kind"] == 2 else manager(wcs)
    try:
        import jinja2  # noqa: F401
    except ImportError:
        raise Skip
    JinjaGenerator(m, context={"rec": rec}, **kw).generate("{{ rec(" + expr + ") }}")
    return differ(f"{expr} {kw}", got, exp)
