"""C16: parsing keeps every detail."""
from __future__ import annotations

import itertools
import random
import re

from . import ast as A
from .ast import Cfg, command, describe, render
from .core import Skip, family
from .util import differ

CFGS = [
    {}, {}, {}, {"vs": "<<", "ve": ">>"}, {"vs": "[", "ve": "]"}, {"ww": "§§"}, {"ww": "§"}, {"vs": "<<", "ve": ">>", "ww": "++"}, {"vs": "[", "ve": "}"},
    {"as_": "&{"}, {"ws": "^{"}, {"vs": "«", "ve": "»", "as_": "$«", "ae": "»", "ws": "%«", "we": "»"},
]
CFG = {"wildcards": ["w1", "d/w2", "a-b/c_d", "**/x", "x y"], "wrap": True, "methods": [None, None, "~", "!", "@"], "weights": True, "zero": True, "vars": ["x", "y_1", "long-name"], "asg": True, "params": True, "depth": 3}


FANCY = [
    "--", "e--f", ";", "\\", "a/b", "`x`", "1e3", "-1", "+2", "10.5", "&amp", "^", "=", "a=b", "?", "[k]", "]", "(y", "z)", "::", "x::2::y", "4::w", "1-2", "3$".replace("$", ""),
    "A", "ÀÉ", "e\u0301", "\u00a0", "\u200b", "😀", "'", '"', "\\n", "a_b", "w_", "*", "**", "~", "@", "!", ",", ".", "...", "a,b", " ,", "&", "<!--", "%".replace("%", "°"), "\r", "\x0b", "\u2028", "0", "00", "a  b", "tab\tx", "nl\nx",
]
WFORMS = ["2.", ".5", "007", "1.50", "0.333", "1.005", "0.0001", "123456789", "0.125", "3", "0", "0.0", "99.99", "+1.5", "1.0000001"]
NAMES = ["x", "X", "y_1", "long-name", "_u", "-d", "A1b2", "n__".rstrip("_"), "Value", "é".replace("é", "ee"), "x1y"]
PATHS = ["w1", "W1", " a", "a ", " a/b ", "[ab]?", "a.b", "A-b/*", "1", "x'y", "d/w2", "a,b", "a:b", "é/ü", "deep/er/and/deeper", "a\\b", "./a", "~".replace("~", "a~"), "a-", "a=b"]


def fancy(rng, t):
    """Replace details of a template by unusual ones."""
    k = t[0]
    if k == "lit":
        s = t[1]
        if rng.random() < 0.4:
            w = rng.choice(FANCY)
            s = rng.choice([w, w + s, s + w, s + " " + w, s + " " + w + " " + s])
        return ["lit", s]
    if k == "seq":
        return ["seq", [fancy(rng, x) for x in t[1]]]
    if k == "grp":
        return [*t[:4], [[rng.choice(WFORMS) if w is not None and rng.random() < 0.5 else w, fancy(rng, o)] for w, o in t[4]]]
    if k == "wc":
        ps = {rng.choice(NAMES): (["lit", rng.choice(["a=b", "1", "v w", "A", "0.5", "x-y", "é", "a:b", "=", "yes!", "==b", "b = c"])] if rng.random() < 0.6 else v) for v in t[3].values()}
        return ["wc", t[1], rng.choice(PATHS) if rng.random() < 0.5 else t[2], ps]
    if k == "acc":
        return ["acc", rng.choice(NAMES), t[2] and fancy(rng, t[2])]
    if k == "asg":
        return ["asg", rng.choice(NAMES), fancy(rng, t[2]), t[3], t[4]]
    return ["wrap", fancy(rng, t[1]), fancy(rng, t[2])]


def bad_chars(t, c):
    """Literal texts must not contain characters that are special under the configuration."""
    special = set("#$|" + c.vs + c.ve + c.as_ + c.ae + c.ws + c.we) | set("%")

    def go(n):
        if n[0] == "lit":
            return bool(special & set(n[1])) or c.ww in n[1] or n[1][:1] in c.ww or n[1][-1:] in c.ww
        if n[0] == "seq":
            return any(map(go, n[1]))
        if n[0] == "grp":
            return any(go(o) for _, o in n[4]) or bool(n[3] and special & set(n[3]) - {"|"})
        if n[0] == "wc":
            return any(map(go, n[3].values())) or bool(special & set(n[2])) or c.ww in n[2]
        if n[0] == "acc":
            return n[2] is not None and go(n[2])
        if n[0] == "asg":
            return go(n[2])
        return go(n[1]) or go(n[2])

    return go(t)


def unrenderable(t, top=True, inside=False):
    """Shapes whose text reads differently (leading white space of an option, ambiguous heads, wildcard params with commas ...)."""

    def lit_head(n):
        if n[0] == "lit":
            return n[1]
        if n[0] == "seq" and n[1]:
            return lit_head(n[1][0])
        return None

    def head_bad(n):
        h = lit_head(n)
        if h is None:
            return False
        return h[:1].isspace() or h == "" or h[:1] in "~!@/" or h[:1] in "=?:" or re.match(r"[+-]?[0-9.]*::", h)

    k = t[0]
    if k == "lit":
        return t[1] == "" or (top and t[1][:2] == "//") or "//" in t[1] or "/*" in t[1]
    if k == "seq":
        return any(unrenderable(x, top) for x in t[1]) or (len(t[1]) == 1 and t[1][0][0] != "asg")
    if k == "grp":
        return any(head_bad(o) or unrenderable(o, False) for _, o in t[4]) or t[3] == ""
    if k == "wc":
        return any(unrenderable(v, False) or v[0] != "lit" and "," in render(v) or "," in render(v) or ")" in render(v) for v in t[3].values())
    if k == "acc":
        return t[2] is not None and (head_bad(t[2]) or unrenderable(t[2], False))
    if k == "asg":
        return head_bad(t[2]) or unrenderable(t[2], False)
    return head_bad(t[1]) or head_bad(t[2]) or unrenderable(t[1], False) or unrenderable(t[2], False)


def g16(rng, i):
    for _ in range(30):
        cfg = CFGS[rng.randrange(len(CFGS))]
        c = Cfg(**cfg)
        gc = {**CFG, "depth": rng.choice([1, 2, 3])}
        if c.ve != c.ae or c.ve != c.we:
            # text inside variables and wraps ends at the group's closing string only: unclaimed
            gc.update(vars=None, asg=None, wrap=None)
        t = A.template(rng, gc, 5)
        if rng.random() < 0.6:
            t = fancy(rng, t)
        if rng.random() < 0.2:
            cfg = {**cfg, "sp": rng.choice([" ", "\n", "  ", "\t"])}
        if not unrenderable(t) and not bad_chars(t, Cfg(**cfg)):
            return {"t": t, "cfg": cfg, "warm": rng.random() < 0.5}
    return None


@family("C16", g16, 900, 15000, chunk=50)
def round_trip(c):
    from dynamicprompts.parser.parse import parse

    cfg = Cfg(**c["cfg"])
    text = render(c["t"], cfg)
    exp = describe(command(c["t"]))
    pc = cfg.parser_config()
    if c["warm"]:
        other = Cfg(vs="<<", ve=">>", ww="++")
        for s in (text, "<<a|b>>", "plain", "++w++"):
            try:
                parse(s, parser_config=other.parser_config())
            except Exception:
                pass
            try:
                parse(s)
            except Exception:
                pass
    got = describe(parse(text, parser_config=pc) if c["cfg"] else parse(text))
    r = differ(f"parse({text!r}) with {c['cfg']}", got, exp)
    if r:
        return r
    return differ("parsing again", describe(parse(text, parser_config=cfg.parser_config())), exp)


L = lambda s: ["lit", None, s]  # noqa: E731


def V(opts, lo=1, hi=1, sep=",", m=None):
    return ["grp", m, lo, hi, sep, [[L(o) if isinstance(o, str) else o[0], 1.0 if isinstance(o, str) else o[1]] for o in opts]]


def S(*x):
    return ["seq", None, "", list(x)]


def ACC(n, d=None):
    return ["acc", None, n, d]


FIX = [
    ("", S()), ("a", L("a")), ("a b", L("a b")), (" a ", L(" a ")), ("a\nb", L("a\nb")), ("a\tb", L("a\tb")), ("{a|b}", V("ab")),
    ("{2$$a|b}", V("ab", 2, 2)), ("{1-2$$a|b}", V("ab", 1, 2)), ("{2-1$$a|b}", V("ab", 1, 2)), ("{-2$$a|b|c}", V("abc", 1, 2)), ("{2-$$a|b|c}", V("abc", 2, 3)),
    ("{0$$a|b}", V("ab", 0, 0)), ("{0-1$$a|b}", V("ab", 0, 1)), ("{0-$$a|b}", V("ab", 0, 2)), ("{7$$a|b}", V("ab", 7, 7)), ("{12$$a|b}", V("ab", 12, 12)), ("{5-$$a|b}", V("ab", 2, 5)),
    ("{-1$$a|b}", V("ab", 1, 1)), ("{10-20$$a|b}", V("ab", 10, 20)), ("{1-$$a}", V("a", 1, 1)),
    ("{2$$ and $$a|b}", V("ab", 2, 2, " and ")), ("{2$$|$$a|b}", V("ab", 2, 2, "|")), ("{2$$, $$a|b}", V("ab", 2, 2, ", ")), ("{2$$ $$a|b}", V("ab", 2, 2, " ")), ("{2$$1$$a|b}", V("ab", 2, 2, "1")),
    ("{1-2$$;$$a|b}", V("ab", 1, 2, ";")), ("{2-$$;$$a|b}", V("ab", 2, 2, ";")), ("{-2$$;$$a|b}", V("ab", 1, 2, ";")), ("{0-0$$;$$a|b}", V("ab", 0, 0, ";")),
    ("{2::a|b}", V([(L("a"), 2.0), "b"])), ("{0.5::a|3::b}", V([(L("a"), 0.5), (L("b"), 3.0)])), ("{0::a|b}", V([(L("a"), 0.0), "b"])), ("{1::a|1.0::b}", V("ab")), ("{10::a|0.25::b c}", V([(L("a"), 10.0), (L("b c"), 0.25)])),
    ("{~a|b}", V("ab", m="RANDOM")), ("{!a|b}", V("ab", m="COMBINATORIAL")), ("{@a|b}", V("ab", m="CYCLICAL")), ("{@2$$-$$3::a|b}", V([(L("a"), 3.0), "b"], 2, 2, "-", "CYCLICAL")), ("{~0-1$$a}", V("a", 0, 1, m="RANDOM")),
    ("{a|{b|c}}", V(["a", (V("bc"), 1.0)])), ("{a|2::{b|c}}", V(["a", (V("bc"), 2.0)])), ("{|a}", V([(S(), 1.0), "a"])), ("{a|}", V(["a", (S(), 1.0)])), ("{a||b}", V(["a", (S(), 1.0), "b"])), ("{}", V([(S(), 1.0)])),
    ("{a|a}", V("aa")), ("{a b | c d}", V(["a b ", "c d"])), ("x{a|b}y", S(L("x"), V("ab"), L("y"))), ("{a}{b}", S(V("a"), V("b"))), ("{a} {b}", S(V("a"), L(" "), V("b"))),
    ("__w__", ["wc", None, "w", []]), ("__a/b__", ["wc", None, "a/b", []]), ("__~a/b__", ["wc", "RANDOM", "a/b", []]), ("__!w__", ["wc", "COMBINATORIAL", "w", []]), ("__@w__", ["wc", "CYCLICAL", "w", []]), ("__**/w*__", ["wc", None, "**/w*", []]),
    ("a __w__ b", S(L("a "), ["wc", None, "w", []], L(" b"))), ("__a____b__", S(["wc", None, "a", []], ["wc", None, "b", []])),
    ("__w(x=1)__", ["wc", None, "w", [["x", L("1")]]]), ("__w(x=1, y=b c)__", ["wc", None, "w", [["x", L("1")], ["y", L("b c")]]]), ("__w(x={a|b})__", ["wc", None, "w", [["x", V("ab")]]]), ("__@w(x=1)__", ["wc", "CYCLICAL", "w", [["x", L("1")]]]),
    ("__a/${x}__", ["wc", None, S(L("a/"), ACC("x", L("x"))), []]), ("__${x:d}/b__", ["wc", None, S(ACC("x", L("d")), L("/b")), []]),
    ("${x}", ACC("x")), ("${x:d}", ACC("x", L("d"))), ("${x:{a|b}}", ACC("x", V("ab"))), ("${ x }", ACC("x")), ("a ${x} b", S(L("a "), ACC("x"), L(" b"))), ("${x}${y}", S(ACC("x"), ACC("y"))),
    ("${x=a}", ["asg", None, "x", L("a"), False, True]), ("${x=!a}", ["asg", None, "x", L("a"), True, True]), ("${x?=a}", ["asg", None, "x", L("a"), False, False]), ("${x?=!{a|b}}", ["asg", None, "x", V("ab"), True, False]),
    ("${x=!{a|b}}z${x}", S(["asg", None, "x", V("ab"), True, True], L("z"), ACC("x"))), ("${x={a|b} c}${x}", S(["asg", None, "x", S(V("ab"), L(" c")), False, True], ACC("x"))), ("${x=__w__}", ["asg", None, "x", ["wc", None, "w", []], False, True]),
    ("%{a…b$$c}", ["wrap", None, L("a…b"), L("c")]), ("%{{a…|b…}$${c|d}}", ["wrap", None, V(["a…", "b…"]), V("cd")]), ("x %{…y$$z} w", S(L("x "), ["wrap", None, L("…y"), L("z")], L(" w"))), ("{%{…a$$b}|c}", V([(["wrap", None, L("…a"), L("b")], 1.0), "c"])),
    ("a, b; c. d! e? (f:1.2) <g:h> 'i' \"j\" [k] @l ~m", L("a, b; c. d! e? (f:1.2) <g:h> 'i' \"j\" [k] @l ~m")), ("a|b", L("a|b")), ("a}b", L("a}b")), ("1::a", L("1::a")), ("2-3", L("2-3")), ("a_b", L("a_b")), ("_a_", L("_a_")),
    ("日本 é", L("日本 é")), ("3 cats", L("3 cats")), ("{3 cats|4 dogs}", V(["3 cats", "4 dogs"])), ("{a::b|c}", V(["a::b", "c"])), ("{a-b|c}", V(["a-b", "c"])), ("{1|2|3}", V("123")), ("{1-2|3}", V(["1-2", "3"])), ("{2$$1|2}", V("12", 2, 2)), ("{2$$-$$1|2}", V("12", 2, 2, "-")),
    ("{2.::a|.5::b|007::c|1.50::d}", V([(L("a"), 2.0), (L("b"), 0.5), (L("c"), 7.0), (L("d"), 1.5)])), ("{0.333::a|1.005::b}", V([(L("a"), 0.333), (L("b"), 1.005)])), ("{1e3::a|b}", V(["1e3::a", "b"])), ("{-1::a|b}", V(["-1::a", "b"])),
    ("{2 ::a|b}", V(["2 ::a", "b"])), ("{-a|+1}", V(["-a", "+1"])), ("-- a -- b", L("-- a -- b")), ("__ a/b __", ["wc", None, " a/b ", []]), ("__[ab]?__", ["wc", None, "[ab]?", []]), ("__{a|b}/x__", ["wc", None, S(V("ab"), L("/x")), []]),
    ("__w( X = 1 , My-v= b=c )__", ["wc", None, "w", [["X", L("1")], ["My-v", L("b=c")]]]), ("${-x}", ACC("-x")), ("${_X:Q}", ACC("_X", L("Q"))), ("${-x=1}z", S(["asg", None, "-x", L("1"), False, True], L("z"))), ("{2$$ , $$a|b}", V("ab", 2, 2, " , ")),
    ("{\n  a\n| b}", V(["a\n", "b"])), ("{a|b}::", S(V("ab"), L("::"))), ("{a:b|c}", V(["a:b", "c"])), ("1 2", L("1 2")), ("A\u00a0b", L("A\u00a0b")), ("a\\b", L("a\\b")),
    ("{1.5|2}", V(["1.5", "2"])), ("http", L("http")),
]


def g16f(rng, i):
    return {"i": i} if i < len(FIX) else None


@family("C16", g16f, len(FIX), len(FIX))
def fixed_forms(c):
    from dynamicprompts.parser.parse import parse

    text, exp = FIX[c["i"]]
    return differ(f"parse({text!r})", describe(parse(text)), exp)


def g16c(rng, i):
    """Mutable results: parsing again after using or changing an earlier result."""
    return {"t": rng.randrange(len(FIX)), "o": rng.randrange(len(FIX)), "u": rng.randrange(3)}


@family("C16", g16c, 200, 1000, chunk=100)
def independent_parses(c):
    from dynamicprompts.parser.config import ParserConfig
    from dynamicprompts.parser.parse import parse

    text, exp = FIX[c["t"]]
    a = parse(text)
    if c["u"] == 1:
        for attr in ("variants", "tokens"):
            if hasattr(a, attr):
                getattr(a, attr).append(None)
        if hasattr(a, "variables"):
            a.variables["zz"] = None
    elif c["u"] == 2:
        try:
            parse("{broken", parser_config=ParserConfig(variant_start="{", variant_end="}"))
        except Exception:
            pass
        parse(FIX[c["o"]][0])
    return differ(f"parse({text!r}) again", describe(parse(text)), exp) or differ("with an equal configuration", describe(parse(text, parser_config=ParserConfig())), exp)


def g16n(rng, i):
    fmt = rng.choice(["n", "lo-hi", "lo-", "-hi"])
    return {"fmt": fmt, "a": rng.choice([0, 1, 2, 3, 5, 10, 99, 150]), "b": rng.choice([0, 1, 2, 3, 4, 11, 120, 1000]), "n": rng.randint(1, 5), "sep": rng.choice([None, ",", ", ", " ", "|", "::", "and", "1", "-", "!", "~", "a|b", ". ", "(", "x=", "?"]), "m": rng.choice([None, "~", "!", "@"]), "w": [rng.choice([None, 0, 1, 2, 0.5, 10, 1.25, 100, 3.0]) for _ in range(5)]}


@family("C16", g16n, 400, 6000, chunk=100)
def group_heads(c):
    from dynamicprompts.parser.parse import parse

    b = {"n": ["n", c["a"]], "lo-hi": ["lo-hi", c["a"], c["b"]], "lo-": ["lo-", c["a"]], "-hi": ["-hi", max(1, c["b"])]}[c["fmt"]]
    t = ["grp", c["m"], b, c["sep"], [[w, ["lit", f"o{j}"]] for j, w in zip(range(c["n"]), c["w"])]]
    text = render(t)
    return differ(f"parse({text!r})", describe(parse(text)), describe(command(t)))


def g16v(rng, i):
    safe = "!&'*+-./:;<>?@[]^`~\"=ab 1é"
    vals = {}
    for n in rng.sample(NAMES, rng.randint(1, 3)):
        v = "".join(rng.choice(safe) for _ in range(rng.randint(1, 6))).strip()
        vals[n] = v if v and "//" not in v and "/*" not in v else "a;b"
    return {"v": vals, "path": rng.choice(["w1", "d/w2"]), "m": rng.choice([None, "~", "@"])}


@family("C16", g16v, 300, 5000, chunk=100)
def parameter_texts(c):
    from dynamicprompts.parser.parse import parse

    t = ["wc", c["m"], c["path"], {n: ["lit", v] for n, v in c["v"].items()}]
    text = render(t)
    return differ(f"parse({text!r})", describe(parse(text)), describe(command(t)))


def g16u(rng, i):
    return {"w": ["_", "___", "_-_", "-"][i % 4], "pre": rng.choice(["", "x", "A9"]), "name": rng.choice(["name", "w1", "A"]), "post": rng.choice(["", "y", "7"])}


@family("C16", g16u, 24, 60)
def wildcard_markers(c):
    from dynamicprompts.commands import LiteralCommand, SequenceCommand, WildcardCommand
    from dynamicprompts.parser.config import ParserConfig
    from dynamicprompts.parser.parse import parse

    text = c["pre"] + c["w"] + c["name"] + c["w"] + c["post"]
    parts = [LiteralCommand(x) for x in [c["pre"]] if x] + [WildcardCommand(c["name"])] + [LiteralCommand(x) for x in [c["post"]] if x]
    exp = parts[0] if len(parts) == 1 else SequenceCommand(parts)
    got = parse(text, parser_config=ParserConfig(wildcard_wrap=c["w"]))
    return None if got == exp else f"parse({text!r}) with wildcard marker {c['w']!r}: {got!r}"
