"""Template ASTs (JSON-able nested lists), random generation, rendering to template text and to command objects.

node ::= ["lit", text] | ["seq", [node...]] | ["grp", method, bounds, sep, [[weight, node]...]]
       | ["wc", method, path, {name: node}] | ["acc", name, default|None]
       | ["asg", name, node, immediate, preserve] | ["wrap", wrapper, inner]
bounds ::= None | ["n", k] | ["lo-hi", a, b] | ["lo-", a] | ["-hi", b]        method ::= None | "~" | "!" | "@"
"""
from __future__ import annotations

WORDS = ["a", "b", "cd", "E f", "x-1", "q.", "z, w", "(m:1.2)", "é", "日本", "<lora:k:0.5>", "T'", "n0", "12", "v;", "a b  c"]
SEPS = [None, None, ", ", " and ", "-", "|", "x", "..", " ", "a"]


def near(rng, text):
    """A different text that a sloppy comparison would take for the same."""
    alts = [text.upper(), text.swapcase(), text + " ", text + "\u00a0", text.replace(" ", "  "), text + ".", text + text, text[:-1], text.replace("é", "e\u0301"), text.replace("1", "\uff11")]
    alts = [x for x in alts if x != text and x.strip()]
    return rng.choice(alts or [text + "1"])


def lit(rng, plain=False):
    w = rng.choice(WORDS)
    if not plain and rng.random() < 0.3:
        w += rng.choice([" ", " and ", ", ", "!", "~ ", "@", ".", "\t"]) + rng.choice(WORDS)
    return ["lit", w]


def top_lit(rng):
    w = lit(rng)[1]
    if rng.random() < 0.4:
        w = rng.choice([" ", "  ", "\n", ", "]) + w
    if rng.random() < 0.4:
        w = w + rng.choice([" ", "  ", "\n", ", ", "|", ")"])
    return ["lit", w]


def bounds(rng, n):
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.6:
        return ["n", rng.choice([0, 1, 1, 2, 2, 3, 7])]
    if r < 0.8:
        return ["lo-hi", rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 2, 2, 3, 5])]
    if r < 0.9:
        return ["lo-", rng.choice([0, 1, 2, 4])]
    return ["-hi", rng.choice([1, 2, 3, 6])]


def norm_bounds(b, n):
    """(lo, hi) as declared (sorted, non-negative), not clamped."""
    if b is None:
        return 1, 1
    if b[0] == "n":
        lo = hi = b[1]
    elif b[0] == "lo-hi":
        lo, hi = b[1], b[2]
    elif b[0] == "lo-":
        lo, hi = b[1], n
    else:
        lo, hi = 1, b[1]
    lo, hi = min(lo, hi), max(lo, hi)
    return max(0, lo), max(0, hi)


def group(rng, depth, cfg, opts=None, bnd=True):
    n = opts or rng.choice([1, 2, 2, 3, 3, 4])
    if depth > 1:
        n = min(n, 3)
    os = []
    for _ in range(n):
        w = None
        if cfg.get("weights") and rng.random() < 0.4:
            w = rng.choice([0.5, 2, 3, 10, 1, 1.5] + ([0] if cfg.get("zero") else []))
        o = option(rng, depth - 1, cfg)
        if cfg.get("dups", True) is False:
            for _ in range(20):
                if all(o != p for _, p in os):
                    break
                o = option(rng, depth - 1, cfg)
            else:
                continue
        os.append([w, o])
    n = len(os)
    if cfg.get("dups", True) and n > 1 and rng.random() < 0.2:
        os[-1] = [os[-1][0], os[0][1]]
    elif n > 1 and rng.random() < 0.2:
        j = rng.randrange(n - 1)
        if os[j][1][0] == "lit":
            o = ["lit", near(rng, os[j][1][1])]
            if cfg.get("dups", True) or all(o != p for _, p in os):
                os[-1] = [os[-1][0], o]
    m = rng.choice(cfg["methods"]) if cfg.get("methods") else None
    b = bounds(rng, n) if bnd else None
    if b is not None and cfg.get("pos"):
        b = [b[0], *[max(1, x) for x in b[1:]]]
    sep = None if b is None else rng.choice(cfg.get("seps", SEPS))
    return ["grp", m, b, sep, os]


def option(rng, depth, cfg):
    r = rng.random()
    if depth <= 0 or r < 0.62:
        if cfg.get("empty_opt", True) and rng.random() < 0.05:
            return ["seq", []]
        return lit(rng)
    if r < 0.75:
        return group(rng, depth, cfg)
    if r < 0.85:
        return ["seq", [lit(rng), group(rng, depth, cfg)]]
    return leaf(rng, depth, cfg)


def leaf(rng, depth, cfg):
    ch = []
    if cfg.get("wildcards"):
        ch += ["wc"] * 2
    if cfg.get("vars"):
        ch += ["acc"] * 2
    if cfg.get("wrap"):
        ch += ["wrap"]
    if not ch:
        return lit(rng)
    c = rng.choice(ch)
    if c == "wc":
        return wc(rng, cfg)
    if c == "acc":
        return acc(rng, depth, cfg)
    return wrap(rng, depth, cfg)


def wc(rng, cfg):
    m = rng.choice(cfg["methods"]) if cfg.get("methods") else None
    params = {}
    if cfg.get("params") and rng.random() < 0.4:
        for nme in rng.sample(["x", "y"], rng.choice([1, 1, 2])):
            params[nme] = rng.choice([["lit", "p1"], ["seq", []], ["lit", "p2 z"], ["grp", None, None, None, [[None, ["lit", "p3"]], [None, ["lit", "p4"]]]]])
    return ["wc", m, rng.choice(cfg["wildcards"]), params]


def acc(rng, depth, cfg):
    d = None
    if rng.random() < 0.5:
        d = rng.choice([["lit", "dflt"], ["seq", []], group(rng, 1, {**cfg, "vars": None, "wildcards": None, "wrap": None}, 2)])
    return ["acc", rng.choice(cfg["vars"]), d]


def wrap(rng, depth, cfg):
    w = rng.choice(
        [
            ["lit", "pre … post"], ["lit", "a...b...c"], ["lit", "no marker"], ["lit", "…"], ["lit", "x……y…z"], ["lit", "....q"],
            ["grp", None, None, None, [[None, ["lit", "A…B"]], [None, ["lit", "C ... D"]]]],
            ["grp", None, None, None, [[None, ["lit", "n"]], [None, ["lit", "⋯"]]]],
        ],
    )
    i = rng.choice([["lit", "in"], ["lit", "i … n"], group(rng, 1, {**cfg, "wrap": None}, 2)])
    return ["wrap", w, i]


def template(rng, cfg, maxparts=4):
    parts = []
    n = rng.randint(1, maxparts)
    for _ in range(n):
        r = rng.random()
        if r < 0.3 and (not parts or parts[-1][0] != "lit"):
            parts.append(top_lit(rng))
        elif r < 0.7:
            parts.append(group(rng, cfg.get("depth", 2), cfg))
        else:
            l = leaf(rng, cfg.get("depth", 2), cfg)
            if l[0] == "lit" and parts and parts[-1][0] == "lit":
                l = group(rng, 1, cfg)
            parts.append(l)
    if cfg.get("asg"):
        for _ in range(rng.randint(0, 3)):
            v = option(rng, 1, {**cfg, "wrap": None})
            if v == ["seq", []]:
                v = ["lit", "val"]
            if cfg.get("empty_def", True) and rng.random() < 0.15:
                v = ["seq", []]
            parts.insert(
                rng.randint(0, len(parts)),
                ["asg", rng.choice(cfg["vars"]), v, rng.random() < 0.3, rng.random() < 0.3],
            )
    # adjacent literals would be one literal
    out = []
    for p in parts:
        if out and p[0] == "lit" and out[-1][0] == "lit":
            out[-1] = ["lit", out[-1][1] + p[1]]
        else:
            out.append(p)
    return out[0] if len(out) == 1 and out[0][0] != "asg" else ["seq", out]


# ------------------------------------------------------------------------------------------------ rendering
class Cfg:
    def __init__(self, vs="{", ve="}", ww="__", as_="${", ae="}", ws="%{", we="}", sp=""):
        self.sp = sp  # white space put where the syntax ignores it
        self.vs, self.ve, self.ww, self.as_, self.ae, self.ws, self.we = vs, ve, ww, as_, ae, ws, we

    def parser_config(self):
        from dynamicprompts.parser.config import ParserConfig

        return ParserConfig(
            variant_start=self.vs, variant_end=self.ve, wildcard_wrap=self.ww, variable_start=self.as_,
            variable_end=self.ae, wrap_start=self.ws, wrap_end=self.we,
        )


DEFAULT = Cfg()


def num(w):
    return w if isinstance(w, str) else repr(w)


def render(n, c=DEFAULT):
    t = n[0]
    if t == "lit":
        return n[1]
    if t == "seq":
        return "".join(render(x, c) for x in n[1])
    if t == "grp":
        _, m, b, sep, os = n
        s = c.vs + (m or "")
        if b is not None:
            s += {"n": "{}", "lo-hi": "{}-{}", "lo-": "{}-", "-hi": "-{}"}[b[0]].format(*b[1:]) + "$$"
            if sep is not None:
                s += sep + "$$"
        return s + "|".join(c.sp + ("" if w is None else num(w) + "::") + render(o, c) for w, o in os) + c.ve
    if t == "wc":
        _, m, p, ps = n
        s = c.ww + (m or "") + p
        if ps:
            s += "(" + ", ".join(f"{k}={render(v, c)}" for k, v in ps.items()) + ")"
        return s + c.ww
    if t == "acc":
        return c.as_ + c.sp + n[1] + c.sp + (":" + c.sp + render(n[2], c) if n[2] is not None else "") + c.ae
    if t == "asg":
        return c.as_ + c.sp + n[1] + c.sp + ("?" if n[4] else "") + "=" + ("!" if n[3] else "") + c.sp + render(n[2], c) + c.ae
    if t == "wrap":
        return c.ws + c.sp + render(n[1], c) + "$$" + c.sp + render(n[2], c) + c.we
    raise ValueError(t)


def method(m):
    from dynamicprompts.enums import SamplingMethod as S

    return {None: None, "~": S.RANDOM, "!": S.COMBINATORIAL, "@": S.CYCLICAL}[m]


def command(n):
    """Expected command object."""
    from dynamicprompts.commands import (
        LiteralCommand, SequenceCommand, VariantCommand, VariantOption, WildcardCommand, WrapCommand,
    )
    from dynamicprompts.commands.variable_commands import VariableAccessCommand, VariableAssignmentCommand

    t = n[0]
    if t == "lit":
        return LiteralCommand(n[1])
    if t == "seq":
        return SequenceCommand([command(x) for x in n[1]])
    if t == "grp":
        _, m, b, sep, os = n
        lo, hi = norm_bounds(b, len(os))
        return VariantCommand(
            [VariantOption(command(o), 1.0 if w is None else float(w)) for w, o in os],
            lo, hi, "," if sep is None else sep, method(m),
        )
    if t == "wc":
        return WildcardCommand(n[2], method(n[1]), {k: command(v) for k, v in n[3].items()})
    if t == "acc":
        return VariableAccessCommand(n[1], None if n[2] is None else command(n[2]))
    if t == "asg":
        return VariableAssignmentCommand(n[1], command(n[2]), n[3], not n[4])
    if t == "wrap":
        return WrapCommand(command(n[1]), command(n[2]))
    raise ValueError(t)


def describe(c):
    """Structural description of a command object, independent of dataclass equality/repr."""
    from dynamicprompts.commands import (
        LiteralCommand, SequenceCommand, VariantCommand, WildcardCommand, WrapCommand,
    )
    from dynamicprompts.commands.variable_commands import VariableAccessCommand, VariableAssignmentCommand

    if c is None or isinstance(c, str):
        return c
    m = getattr(c.sampling_method, "name", None)
    if isinstance(c, LiteralCommand):
        return ["lit", m, c.literal]
    if isinstance(c, SequenceCommand):
        return ["seq", m, c.separator, [describe(t) for t in c.tokens]]
    if isinstance(c, VariantCommand):
        return ["grp", m, c.min_bound, c.max_bound, c.separator, [[describe(o.value), float(o.weight)] for o in c.variants]]
    if isinstance(c, WildcardCommand):
        return ["wc", m, describe(c.wildcard), [[k, describe(v)] for k, v in c.variables.items()]]
    if isinstance(c, VariableAccessCommand):
        return ["acc", m, c.name, describe(c.default)]
    if isinstance(c, VariableAssignmentCommand):
        return ["asg", m, c.name, describe(c.value), bool(c.immediate), bool(c.overwrite)]
    if isinstance(c, WrapCommand):
        return ["wrap", m, describe(c.wrapper), describe(c.inner)]
    return ["?", repr(c)]
