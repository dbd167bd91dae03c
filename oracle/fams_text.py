"""C13-C15: weights, wrapping, joining."""
from __future__ import annotations

import random
from itertools import islice

from . import ast as A
from . import ref
from .ast import render
from .core import Skip, family
from .util import WILD, differ, manager, refctx, take

TEXTS = ["red", "blue", "a b", "é", "x", "y", "red", "10", "z."]
WEIGHTS = [None, None, 1.0, 2.0, 3.0, 0.0, 0.5, 1.9, 2.999999, 7, 1, 10.5, 0.999, 100.25]


def gitems(rng, lo=0, hi=6, ws=WEIGHTS):
    same = rng.random() < 0.25
    w0 = rng.choice([w for w in ws if w])
    return [[rng.choice(TEXTS), w0 if same else rng.choice(ws)] for _ in range(rng.randint(lo, hi))]


def mkitem(x):
    from dynamicprompts.wildcards.item import WildcardItem

    if x[1] is None:
        return x[0]
    return WildcardItem(content=x[0], weight=x[1])


def mkvalues(items):
    from dynamicprompts.wildcards.values import WildcardValues

    return WildcardValues.from_items([mkitem(x) for x in items])


def weight(x):
    return 1 if x[1] is None else x[1]


def g13(rng, i):
    return {"it": gitems(rng), "ops": rng.random() < 0.5}


@family("C13", g13, 600, 12000, chunk=200)
def finite_weights(c):
    v = mkvalues(c["it"])
    exp = [t for t, w in c["it"] for _ in range(int(weight([t, w])))]
    r = differ(f"{c['it']}: weighted iteration", list(v.iterate_string_values_weighted()), exp)
    r = r or differ("again", list(v.iterate_string_values_weighted()), exp)
    r = r or differ("string values", list(v.string_values), [t for t, _ in c["it"]])
    r = r or differ("varied weights", bool(v.has_varied_weights), len({weight(x) for x in c["it"]}) > 1)
    r = r or differ("items", [(str(x), getattr(x, "weight", 1)) for x in v], [(x[0], weight(x)) for x in c["it"]])
    if not r and c["ops"]:
        w = v + mkvalues([["tail", 2.0]])
        r = differ("sum", list(w.iterate_string_values_weighted()), [*exp, "tail", "tail"]) or differ("copy", list(v.copy().iterate_string_values_weighted()), exp)
        s = v.shuffled(random.Random(3))
        r = r or differ("shuffled", sorted((str(x), getattr(x, "weight", 1)) for x in s), sorted((x[0], weight(x)) for x in c["it"]))
        r = r or differ("original after shuffling", list(v.iterate_string_values_weighted()), exp)
    return r


def g13t(rng, i):
    it = gitems(rng, 1, 4)
    it = list({t: w for t, w in it if t != "z."}.items())
    return {"it": [[t, w] for t, w in it], "m": rng.choice(["!", "@"]), "n": rng.randint(1, 20), "nest": rng.random() < 0.3}


@family("C13", g13t, 300, 5000, chunk=100)
def finite_templates(c):
    from .fams_gen import context

    items = sorted(c["it"], key=lambda p: p[0])
    exp = [t for t, w in items for _ in range(int(weight([t, w])))]
    if not exp:
        return None
    wcs = {"w": [[["lit", t], 1 if w is None else w] for t, w in c["it"]]}
    t = "<__w__>"
    if c["m"] == "!":
        got = [str(p) for p in context(wcs, "!").sample_prompts(t)]
        return differ(f"{t} over {c['it']}", got, [f"<{e}>" for e in exp])
    got = [str(p) for p in context(wcs, "@").sample_prompts(t, 3 * len(exp) + 2)]
    return differ(f"cyclical {t} over {c['it']}", got, [f"<{e}>" for e in (exp * 6)[: 3 * len(exp) + 2]])


RW = [None, None, 1.0, 2.0, 3.0, 0.0, 0.5, 5.0, 10.0, 0.1, 25]


def g13r(rng, i):
    it = gitems(rng, 1, 6, RW)
    if not any(weight(x) for x in it):
        it.append(["pos", 1.0])
    return {"it": it, "seed": rng.randrange(10**6), "how": rng.choice(["values", "template", "restart"])}


@family("C13", g13r, 120, 1500, chunk=20)
def random_weights(c):
    from .fams_gen import context

    it = c["it"]
    N = 4000
    rng = random.Random(c["seed"])
    if c["how"] == "template":
        if len({t for t, _ in it}) != len(it) or any(t == "z." for t, _ in it):
            return None
        wcs = {"w": [[["lit", t], 1 if w is None else w] for t, w in it]}
        got = [str(p)[1:-1] for p in context(wcs, "~", rand=rng).sample_prompts("<__w__>", N)]
    elif c["how"] == "restart":
        v = mkvalues(it)
        N = 1500
        got = [next(iter(v.get_weighted_random_generator(rng))) for _ in range(N)]
    else:
        got = take(mkvalues(it).get_weighted_random_generator(rng), N)
    if len(got) != N:
        return f"{it}: the random generator ends after {len(got)} values"
    tot = sum(weight(x) for x in it)
    prob = {}
    for x in it:
        prob[x[0]] = prob.get(x[0], 0) + weight(x) / tot
    for t in set(got):
        if prob.get(t, 0) == 0:
            return f"{it}: {t!r} was drawn"
    for t, p in prob.items():
        if p >= 1:
            continue
        sd = (N * p * (1 - p)) ** 0.5
        k = got.count(t)
        if abs(k - N * p) > 6.5 * sd + 3:
            return f"{it}: {t!r} drawn {k} times of {N}, expected about {N * p:.0f}"


# ------------------------------------------------------------------------------------------------- C14
MARKS = ["…", "...", "⋯", "⋮", "⋰", "⋱", "︙", "᠁", "....", "……", "…⋯", "...…"]


def gwrapper(rng):
    s = ""
    for _ in range(rng.randint(0, 6)):
        s += rng.choice(["a", " ", "x y", ".", "..", ". . .", "\n", "é", "(", "$", "\\", "{", *MARKS])
    return s


def g14(rng, i):
    fixed = ["", "…", "...", "..", "....", ". ..", "a", "…a", "a…", "a…b…c", "a...b…c", "a…b...c", "..…", "…..", "...…...", "⋯⋮", "a.....b", "..a...b", "︙x", "᠁", "\u2025", "\u22ef\u2026", "a…\n…b"]
    return {"w": fixed[i] if i < len(fixed) else gwrapper(rng), "i": rng.choice(["", "in", " in ", "…", "...", "a…b", "x\ny", ".", "..", "é"])}


@family("C14", g14, 1500, 40000, chunk=500)
def wrapper_texts(c):
    from dynamicprompts.commands.wrap_command import split_wrapper_string
    from dynamicprompts.sampling_result import SamplingResult

    w, i = c["w"], c["i"]
    exp = ref.ref_wrap(w, i)
    fn = SamplingResult(text=w).as_wrapper()
    r = differ(f"wrapping {i!r} with {w!r}", fn(SamplingResult(text=i)).text, exp)
    r = r or differ("reused wrapper", [fn(SamplingResult(text=x)).text for x in ("", i, "q")], [ref.ref_wrap(w, x) for x in ("", i, "q")])
    p, s = split_wrapper_string(w)
    return r or differ(f"split of {w!r}", p + "\0" + s, ref.ref_wrap(w, "\0"))


def g14t(rng, i):
    def side(marks):
        def text():
            return "".join(rng.choice(["a", "b c", ". ", "é", *(MARKS if marks else ["x"])]) for _ in range(rng.randint(1, 4))).strip() or "a"

        if rng.random() < 0.5:
            return ["lit", text()]
        return ["grp", None, None, None, [[None, ["lit", text()]] for _ in range(rng.randint(1, 3))]]

    return {"w": side(True), "i": side(rng.random() < 0.3), "pre": rng.choice([None, "p "]), "post": rng.choice([None, " q"]), "how": rng.choice(["!", "!cmd", "~", "~cmd"]), "seed": rng.randrange(9999)}


@family("C14", g14t, 500, 9000, chunk=100)
def wrap_templates(c):
    from .fams_gen import context

    node = ["wrap", c["w"], c["i"]]
    parts = [node]
    if c["pre"]:
        parts.insert(0, ["lit", c["pre"]])
    if c["post"]:
        parts.append(["lit", c["post"]])
    t = ["seq", parts] if len(parts) > 1 else node
    m = c["how"][0]
    ctx = context({}, m, rand=random.Random(c["seed"]))
    tpl = A.command(t) if c["how"].endswith("cmd") else render(t)
    exp = take(ref.combos(t, refctx({})), 400)
    if m == "!":
        return differ(f"{render(t)}", [str(p) for p in ctx.sample_prompts(tpl)], exp)
    got = [str(p) for p in ctx.sample_prompts(tpl, 200)]
    if len(got) != 200:
        return f"{render(t)}: {len(got)} random prompts instead of 200"
    bad = set(got) - set(exp)
    if bad:
        return f"{render(t)}: {sorted(bad)[:2]} is not a wrapper output with an inner output, those give {exp[:6]}"
    if set(exp) - set(got):  # at most 9 equally likely pairs: 200 draws miss one with probability < 1e-9
        return f"{render(t)}: the pair {sorted(set(exp) - set(got))[:2]} never occurs in 200 prompts"


# ------------------------------------------------------------------------------------------------- C15
PT = ["a", "b", "", " ", ",", ", ", ",a", "a,", ",,", "a,b", "x ", " x", "é", "and", " and ", "-", "--", "\n", "aa", "aXb"]
SEP = [",", ", ", "", " ", "-", "and", " and ", "a", "aa", ",,", "X", "\n"]


def g15(rng, i):
    return {"p": [rng.choice(PT) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))], "s": rng.choice(SEP), "how": rng.choice(["list", "gen", "tuple", "rot"])}


@family("C15", g15, 1500, 40000, chunk=500)
def joining(c):
    from dynamicprompts.sampling_result import SamplingResult

    rs = [SamplingResult(text=p) for p in c["p"]]
    exp = ref.ref_join(c["p"], c["s"]) if c["p"] else ""
    if c["how"] == "rot":
        from dynamicprompts.utils import rotate_and_join

        gens = [iter([r, SamplingResult(text="!")]) for r in rs]
        got = rotate_and_join(gens, separator=c["s"])
        if any(next(g).text != "!" for g in gens):
            return "a part advanced by more than one value"
    else:
        arg = {"list": list, "gen": lambda x: (y for y in x), "tuple": tuple}[c["how"]](rs)
        got = SamplingResult.joined(arg, separator=c["s"])
        if [r.text for r in rs] != c["p"]:
            return "joining changed a part"
    return differ(f"join of {c['p']} with {c['s']!r}", got.text, exp) or differ("str", str(got), exp)


def g15w(rng, i):
    ws = [" ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u3000", "\x0b", "\u2003", "\x1c", "\x85"]
    s = ""
    for _ in range(rng.randint(0, 9)):
        s += rng.choice(["a", "bc", "é", ",", ".", "", "x-y", "\u200b"]) + rng.choice(ws + [""])
    return {"s": rng.choice(["", " "]) + s}


@family("C15", g15w, 500, 10000, chunk=200)
def squashing(c):
    from dynamicprompts.sampling_result import SamplingResult
    from dynamicprompts.utils import squash_whitespace

    words, cur = [], ""
    for ch in c["s"]:
        if ch.isspace():
            if cur:
                words.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        words.append(cur)
    exp = " ".join(words)
    return differ(f"squash of {c['s']!r}", squash_whitespace(c["s"]), exp) or differ("result", SamplingResult(text=c["s"]).whitespace_squashed().text, exp)


def g15t(rng, i):
    t = A.template(rng, {"wildcards": ["w1"], "depth": 2, "seps": [" ", ", ", "  ", " and "]})
    return {"t": t, "seed": rng.randrange(999)}


@family("C15", g15t, 250, 4000, chunk=50)
def squashed_templates(c):
    from .fams_gen import comb_gen, rand_gen

    text = render(c["t"])
    if "$$$$" in text:
        return None
    exp = [" ".join(p.split()) for p in take(ref.combos(c["t"], refctx(WILD)), 200)]
    if not exp:
        return None
    r = differ(f"squashed {text}", comb_gen(WILD, ignore_whitespace=True).generate(text, 200), exp)
    if r:
        return r
    a = rand_gen(WILD, seed=c["seed"], ignore_whitespace=True).generate(text, 5)
    b = rand_gen(WILD, seed=c["seed"]).generate(text, 5)
    return differ(f"random squashed {text}", a, [" ".join(p.split()) for p in b])
