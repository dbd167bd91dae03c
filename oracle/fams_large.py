"""Large inputs: the guarantees do not end at a size (many options, parts, variables, values, lines, long texts)."""
from __future__ import annotations

import itertools
import random
from itertools import islice

from .core import family
from .fams_gen import context, rand_gen
from .fams_wild import Scratch
from .util import differ


def size(rng, i):
    return {"n": rng.choice([9, 11, 16, 17, 21, 26, 33, 40, 65]), "k": rng.randint(0, 2), "seed": i}


def names(n, p="o"):
    return [f"{p}{j}" for j in range(n)]


@family("C01", size, 9, 60)
def many_options(c):
    ops = names(c["n"])
    text = "{" + "|".join(ops) + "}"
    exp = ops
    if c["k"] == 1 and c["n"] <= 40:
        text, exp = "{2$$+$$" + text[1:], ["+".join(p) for p in itertools.permutations(ops, 2)]
    if c["k"] == 2:
        text, exp = "{0-1$$" + text[1:], ["", *ops]
    return differ(f"{text!r}", [str(r) for r in islice(context({}, "!").sample_prompts(text), len(exp) + 5)], exp)


@family("C02", size, 9, 60)
def many_parts(c):
    n = c["n"]
    parts, exp = [], [[]]
    for j in range(n):
        two = j in (1, n - 2) or (c["k"] == 1 and j == n // 2)
        os = [f"a{j}", f"b{j}"] if two else [f"c{j}"]
        parts.append("{" + "|".join(os) + "}")
        exp = [e + [o] for e in exp for o in os]
    sep = " " if c["k"] else "; "
    text = sep.join(parts)
    return differ(f"{text!r}", [str(r) for r in islice(context({}, "!").sample_prompts(text), len(exp) + 5)], [sep.join(e) for e in exp])


@family("C04", size, 9, 60)
def many_random_options(c):
    ops = names(c["n"])
    n = c["n"]
    lo, hi = [(1, 1), (n - 2, n), (2, n // 2)][c["k"]]
    text = "{" + (f"{lo}-{hi}$$+$$" if c["k"] else "") + "|".join(ops) + "}"
    got = rand_gen({}, seed=c["seed"]).generate(text, n * 25)
    seen = set()
    for g in got:
        xs = g.split("+")
        if not lo <= len(xs) <= hi or len(set(xs)) != len(xs) or not set(xs) <= set(ops):
            return f"{text!r}: {g!r}"
        seen |= set(xs)
    return None if seen == set(ops) else f"{text!r}: {sorted(set(ops) - seen)} never drawn in {n * 25} prompts"


@family("C06", size, 9, 60)
def many_in_turn(c):
    ops = names(c["n"])
    if c["k"] == 0:
        text, one, wcs = "{@" + "|".join(ops) + "}", ops, {}
    elif c["k"] == 1:
        text, one, wcs = "__@long__", ops, {"long": [[["lit", o], 1] for o in ops]}
        one = sorted(ops)
    else:
        ops = ops[:12]
        text, one, wcs = "{@2$$+$$" + "|".join(ops) + "}", ["+".join(p) for p in itertools.permutations(ops, 2)], {}
    got = [str(r) for r in islice(context(wcs, "~", rand=random.Random(1)).sample_prompts(text), 2 * len(one))]
    return differ(f"{text!r}", got, one * 2)


@family("C07", size, 9, 60)
def many_variables(c):
    n = min(c["n"], 9 if c["k"] == 2 else 26)  # nested combinatorial texts take time exponential in the depth
    text = "${v0=x}" + "".join("${v%d=%s${v%d}}" % (j, j, j - 1) for j in range(1, n)) + "${v%d} ${v0}" % (n - 1)
    text = text if c["k"] else "${v0=x}" + "".join("${v%d=!%s${v%d}}" % (j, j, j - 1) for j in range(1, n)) + "${v%d} ${v0}" % (n - 1)
    exp = "".join(str(j) for j in range(n - 1, 0, -1)) + "x x"
    m = "!" if c["k"] == 2 else "~"
    return differ(f"{text!r}", [str(r) for r in context({}, m, rand=random.Random(1)).sample_prompts(text, 1)], [exp])


@family("C08", size, 9, 60)
def many_filled_in(c):
    n = min(c["n"], 33)
    text = "{1|2} " + " ".join("{%s%s|y%d}" % ("~" if c["k"] else "@", f"x{j}", j) for j in range(n))
    got = [str(r) for r in islice(context({}, "!", rand=random.Random(c["seed"])).sample_prompts(text), 5)]
    if len(got) != 2:
        return f"{text!r}: {len(got)} prompts, expected 2"
    for d, g in zip("12", got):
        xs = g.split(" ")
        if xs[0] != d or [x[1:] for x in xs[1:]] != [str(j) for j in range(n)] or {x[0] for x in xs[1:]} - {"x", "y"}:
            return f"{text!r}: {g!r}"
    return None if c["k"] else differ(f"{text!r}", [g.split(" ")[1][0] for g in got], ["x", "y"])


@family("C10", size, 9, 60)
def many_values(c):
    from .util import manager

    n = c["n"] * 30
    vals = names(n)
    random.Random(c["seed"]).shuffle(vals)
    m = manager({"long": [[["lit", v], 1] for v in vals], "d/other": [[["lit", v], 1] for v in vals[: n // 2]]})
    r = differ("values", list(m.get_values("long").string_values), sorted(vals)) or differ("all", list(m.get_values("*").string_values), sorted(vals))
    for j in range(130 if c["k"] == 0 else 0):  # more names than the cache keeps
        r = r or differ(f"unknown {j}", list(m.get_values(f"none{j}")), [])
    return r or differ("again", list(m.get_values("long").string_values), sorted(vals)) or differ("fallback", list(m.get_values("other").string_values), sorted(vals[: n // 2]))


@family("C12", size, 9, 60)
def long_files(c):
    from dynamicprompts.wildcards.collection import WildcardTextFile
    from dynamicprompts.wildcards.collection.structured import parse_structured_file

    n = c["n"] * 40
    vals = [f"line {j} w" + "w" * (j % 300) for j in range(n)]
    with Scratch() as d:
        if c["k"]:
            import json

            (d / "f.json").write_text(json.dumps({"a": {"b": vals}, "w": [f"{j % 7}.5::{v}" for j, v in enumerate(vals)]}))
            got = dict(parse_structured_file(d / "f.json"))
            return differ("entries", list(got["a/b"].get_values()), vals) or differ(
                "weights", [(i.content, i.weight) for i in got["w"].get_values()], [(v, j % 7 + 0.5) for j, v in enumerate(vals)])
        (d / "f.txt").write_text("\n# c\n".join(vals))
        return differ("lines", list(WildcardTextFile(d / "f.txt").get_values()), vals)


@family("C13", size, 9, 60)
def many_weights(c):
    from dynamicprompts.wildcards.item import WildcardItem
    from dynamicprompts.wildcards.values import WildcardValues

    n = c["n"]
    v = WildcardValues.from_items([WildcardItem(content=f"v{j}", weight=(j % 5) * (1 if c["k"] else 1.5)) for j in range(n)] + ["plain"] * (c["k"] == 2))
    exp = [f"v{j}" for j in range(n) for _ in range(int((j % 5) * (1 if c["k"] else 1.5)))] + ["plain"] * (c["k"] == 2)
    r = differ("repeated by weight", list(v.iterate_string_values_weighted()), exp)
    if r:
        return r
    got = set(islice(v.get_weighted_random_generator(random.Random(c["seed"])), n * 120))
    ok = set(exp) | {f"v{j}" for j in range(n) if (j % 5)}
    return None if got == ok else f"{n} weighted values: drawn but not expected {sorted(got - ok)}, never drawn {sorted(ok - got)}"


@family("C14", size, 9, 60)
def long_wraps(c):
    n = c["n"] * 20
    pre, inner, suf = "p" * n, " ".join(names(c["n"] * 5)), "s" * (n + 1)
    mark = "…"
    text = "%{" + pre + mark + suf + "$$" + inner + "}"
    return differ("wrapped", [str(r) for r in islice(context({}, "~!"[c["k"] % 2], rand=random.Random(1)).sample_prompts(text), 1)], [pre + inner + suf])


@family("C16", size, 9, 60)
def large_templates(c):
    from dynamicprompts.commands import LiteralCommand, SequenceCommand, VariantCommand, WildcardCommand
    from dynamicprompts.parser.parse import parse

    n = c["n"]
    if c["k"] == 0:
        got = parse("{" + "|".join(f"{j}.25::o{j}" for j in range(n)) + "}")
        return None if isinstance(got, VariantCommand) and [(o.value, o.weight) for o in got.variants] == [(LiteralCommand(f"o{j}"), j + 0.25) for j in range(n)] else f"{n} options: {got!r}"[:300]
    if c["k"] == 1:
        got = parse("".join(f"t{j} __w{j}__" for j in range(n)))
        exp = SequenceCommand([x for j in range(n) for x in (LiteralCommand(f"t{j} "), WildcardCommand(f"w{j}"))])
        return None if got == exp else f"{n} wildcards: {got!r}"[:300]
    depth = min(n, 17) // 3
    text = "x"
    for j in range(depth):
        text = "{%s|d%d}" % (text, j)
    got, ds = parse(text), []
    while isinstance(got, VariantCommand):
        ds.append(got.variants[1].value)
        got = got.variants[0].value
    return None if got == LiteralCommand("x") and ds == [LiteralCommand(f"d{j}") for j in reversed(range(depth))] else f"{text!r}: {got!r} {ds!r}"


@family("C17", size, 9, 60)
def many_collections(c):
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection
    from dynamicprompts.wildcards.tree import WildcardTree

    src = {"/".join(f"d{(j >> b) % 3}" for b in range(j % 7)) + ("/" if j % 7 else "") + f"n{j}": ListWildcardCollection([str(j)]) for j in range(c["n"] * 4)}
    t = WildcardTree.from_map(dict(src))
    for k, v in src.items():
        if t.get_collection(k) is not v or list(t.match_collections(k)) != [v]:
            return f"{len(src)} collections: {k!r} is not found"
    w = list(t.root.walk_items())
    return None if len(w) == len(src) and all(src.get(k) is v for k, v in w) else f"walking {len(src)} collections gives {len(w)}"
