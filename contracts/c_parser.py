"""From matched text to commands: the parse actions and the entry point of the parser.

The grammar itself is data handed to pyparsing, which no contract here reaches: what it matches is checked by the
bounded search (oracle/fams_parse.py).  Here: given the named parts pyparsing found, which command is built."""
from __future__ import annotations

from dynamicprompts.parser import parse as P
from dynamicprompts.parser.config import default_parser_config
from pyvc.contract import Contract
from pyvc.values import PDict, PList, SeqV, Sym, Unsupported

from .model import *  # noqa


class Parts(dict):
    """Concrete stand-in for pyparsing.ParseResults with named parts."""

    def as_dict(self):
        return dict(self)


def keyed(name, /, **keys):
    """An opaque mapping: each of `keys` may be present, then with a value of the given kind."""
    kind = Opaque(name, Parts)

    def part(run, a):
        key = a[1]
        if not isinstance(key, str):
            raise Unsupported(f"{name}[{key!r}]")
        if key not in keys:
            return None, None
        return keys[key], uf(f"{name}.{key}", kind.sort(), Opt(keys[key]).sort())(run.lift(a[0], kind))

    def has(run, a, k):
        vk, t = part(run, a)
        return False if vk is None else Sym(Bool, z3.Not(Opt(vk).is_none(t)))

    def get(run, a, k):
        vk, t = part(run, a)
        if vk is None or run.branch(Opt(vk).is_none(t)):
            return a[2] if len(a) > 2 else k.get("default")
        return run.value_of(vk, Opt(vk).val(t))

    def item(run, a, k):
        vk, t = part(run, a)
        if vk is None or run.branch(Opt(vk).is_none(t)):
            run.raise_(KeyError)
        return run.value_of(vk, Opt(vk).val(t))

    kind.methods = {"__contains__": has, "get": get, "__getitem__": item, "as_dict": lambda run, a, k: a[0]}
    kind.concrete = lambda g: Parts({n: g.value(vk) for n, vk in keys.items() if g.rng.random() < 0.6})
    return kind


Symbol = Str
Range = keyed("RangeParts", exact=Int, lower=Int, upper=Int)
Bound = keyed("BoundParts", range=Range, separator=Seq(Str))
OptionParts = keyed("OptionParts", val=Cmd, weight=Seq(Real))
Group = keyed("GroupParts", sampling_method=Str, variants=Seq(OptionParts), bound_expr=Seq(Bound))
Access = keyed("AccessParts", name=Str, default=Cmd)
Assign = keyed("AssignParts", name=Str, value=Cmd, preserve_existing_value=Str, immediate=Str)
Wrap = keyed("WrapParts", inner=Cmd, wrapper=Cmd)
Wild = keyed("WildcardParts", path=CmdOrStr, sampling_method=Str, variable_spec=Str)
OptionParts.concrete = lambda g: Parts(val=g.value(Cmd), weight=[g.value(Real)])
Bound.concrete = lambda g: Parts(range=g.value(Range), separator=[g.value(Str)])


def s_method(sampling_method_symbol):
    if sampling_method_symbol is None:
        return None
    if sampling_method_symbol == "~":
        return SamplingMethod.RANDOM
    if sampling_method_symbol == "!":
        return SamplingMethod.COMBINATORIAL
    if sampling_method_symbol == "@":
        return SamplingMethod.CYCLICAL
    raise ValueError


def r_bound(expr):
    if len(expr) != 1:
        return False
    return good_bound(expr[0])


def good_bound(e):
    return "separator" not in e or len(e["separator"]) == 1


def bounds(e, max_options):
    """(least, most, separator) of a bound expression; an open end means one, or all options."""
    lo, hi, sep = 1, max_options, ","
    if "range" in e:
        r = e["range"]
        if "exact" in r:
            lo = hi = r["exact"]
        else:
            lo = r.get("lower", 1)
            hi = r.get("upper", max_options)
    if "separator" in e:
        sep = e["separator"][0]
    return lo, hi, sep


def s_bound(expr, max_options):
    return bounds(expr[0], max_options)


def good_option(v):
    if "val" not in v or "weight" not in v:
        return False
    return len(v["weight"]) == 1


def r_group(parse_result):
    if len(parse_result) != 1:
        return False
    p = parse_result[0]
    if "variants" not in p:
        return False
    if "bound_expr" in p:
        e = p["bound_expr"]
        if len(e) != 1:
            return False
        if not good_bound(e[0]):
            return False
    return all(good_option(v) for v in p["variants"])


def s_group(parse_result):
    p = parse_result[0]
    method = P._parse_sampling_method(p.get("sampling_method"))
    options = [VariantOption(value=v["val"], weight=float(v["weight"][0])) for v in p["variants"]]
    if "bound_expr" in p:
        lo, hi, sep = P._parse_bound_expr(p["bound_expr"], len(options))
    else:
        lo, hi, sep = 1, 1, ","
    return VariantCommand(options, lo, hi, sep, method)


def fuzz_group(g):
    p = Parts(variants=[g.value(OptionParts) for _ in range(g.rng.choice([1, 2, 3]))])
    if g.rng.random() < 0.6:
        p["sampling_method"] = g.rng.choice("~!@~!@x")
    if g.rng.random() < 0.6:
        p["bound_expr"] = [g.value(Bound)]
    return dict(parse_result=[p])


def r_named(parse_result):
    if len(parse_result) != 1:
        return False
    return "name" in parse_result[0]


def s_access(parse_result):
    p = parse_result[0]
    return VariableAccessCommand(name=p["name"], default=p.get("default"))


def r_wild_access(parse_result):
    if len(parse_result) != 1:
        return False
    p = parse_result[0]
    if "name" not in p:
        return False
    return "default" not in p or isinstance(p["default"], LiteralCommand)


def s_wild_access(parse_result):
    p = parse_result[0]
    text = p["default"].literal if "default" in p else p["name"]
    return VariableAccessCommand(name=p["name"], default=LiteralCommand(text.strip()))


def fuzz_wild_access(g):
    p = Parts(name=g.value(Str))
    if g.rng.random() < 0.6:
        p["default"] = LiteralCommand(g.value(Str))
    return dict(parse_result=[p])


def r_assign(parse_result):
    if len(parse_result) != 1:
        return False
    return conj("name" in parse_result[0], "value" in parse_result[0])


def s_assign(parse_result):
    p = parse_result[0]
    return VariableAssignmentCommand(
        name=p["name"], value=p["value"], overwrite=not_("preserve_existing_value" in p), immediate="immediate" in p,
    )


def r_wrap(parse_result):
    if len(parse_result) != 1:
        return False
    return conj("inner" in parse_result[0], "wrapper" in parse_result[0])


def s_wrap(parse_result):
    p = parse_result[0]
    return WrapCommand(wrapper=p["wrapper"], inner=p["inner"])


def s_literal(parse_result):
    return LiteralCommand(" ".join(parse_result))


def s_sequence(parse_result):
    if len(parse_result) == 1:
        return parse_result[0]
    return SequenceCommand(tokens=list(parse_result))


def s_spec(variable_spec, parser_config):
    for pair in variable_spec.split(","):
        key, _, value = pair.partition("=")
        yield key.strip(), P.parse(value.strip(), parser_config=parser_config)


def r_wildcard(parse_result):
    return "path" in parse_result


def s_wildcard(parse_result, parser_config):
    method = P._parse_sampling_method(parse_result.get("sampling_method"))
    spec = parse_result.get("variable_spec")
    if spec is None or spec == "":
        variables = {}
    else:
        variables = dict(P._parse_variable_spec(spec, parser_config=parser_config))
    path = parse_result["path"]
    if isinstance(path, LiteralCommand):
        path = path.literal
    return WildcardCommand(wildcard=path, sampling_method=method, variables=variables)


def fuzz_wildcard(g):
    p = Parts(path=g.rng.choice([LiteralCommand("a/b"), "x", VariantCommand.from_literals_and_weights(["a", "b"])]))
    if g.rng.random() < 0.5:
        p["sampling_method"] = g.rng.choice("~!@x")
    if g.rng.random() < 0.6:
        p["variable_spec"] = ",".join(g.rng.choice(["a", " b ", "c-d"]) + g.rng.choice(["=", " = ", ""]) + g.rng.choice(["x", "{p|q}", " a b ", "", "__w__"]) for _ in range(g.rng.choice([1, 2, 3])))
    return dict(parse_result=p, parser_config=default_parser_config)


# ------------------------------------------------------------------------------------------------ the entry point
Parser = Opaque("Parser")
CACHE = getattr(P, "_parser_cache", None)


def _parse_string(run, a, k):
    if sorted(k) != ["parse_all"] or k["parse_all"] is not True or len(a) != 2:
        raise Unsupported("parse_string with other arguments")
    run.w.assumed.add("pyparsing: parse_string fails, or gives a list of commands determined by the grammar and the text")
    ts = [run.lift(a[0], Parser), run.lift(a[1], Str)]
    if run.branch(uf("GRAMMAR.rejects", Parser.sort(), z3.StringSort(), z3.BoolSort())(*ts)):
        run.raise_(P.pp.ParseException)
    return PList(run, SeqV.sym(Sym(Seq(Cmd), uf("GRAMMAR", Parser.sort(), z3.StringSort(), Seq(Cmd).sort())(*ts))))


Parser.methods = {"parse_string": _parse_string}


def prep_parser(w):
    def create(run, a, k):
        run.w.assumed.add("create_parser: a grammar determined by the configuration; ParserConfig compares by its fields")
        return Sym(Parser, uf("CREATE_PARSER", Cfg.sort(), Parser.sort())(run.lift(k["parser_config"], Cfg)))

    w.lib[id(P.create_parser)] = create
    w.keep.append(P.create_parser)
    if CACHE is not None:
        w.state_of[id(CACHE)] = lambda run: run.world.f["parsers"]


def parser_world(run):
    world(run)
    m = Map(Cfg, Parser)
    run.world.f["parsers"] = PDict(run, Sym(m, z3.Const("world_parsers", m.sort())))


def inv_cache(key):
    return agrees(CACHE, key, P.create_parser(parser_config=key))


def r_cached(parser_config, key):
    return conj(inv_cache(parser_config), inv_cache(key))


def s_cached(parser_config):
    return P.create_parser(parser_config=parser_config)


def e_cached(result, key):
    return inv_cache(key)


def s_parse(prompt, parser_config):
    if prompt.isalnum():
        return LiteralCommand(prompt)
    tokens = P.get_cached_parser(parser_config).parse_string(prompt, parse_all=True)
    if len(tokens) != 1:
        raise ValueError
    return tokens[0]


def s_from_literals(cls, values, separator, sampling_method):
    out = []
    for v in values:
        out.append(LiteralCommand(v, sampling_method=sampling_method) if isinstance(v, str) else v)
    return SequenceCommand(tokens=out, separator=separator, sampling_method=sampling_method)


Cfg.concrete = lambda g: default_parser_config
M = "dynamicprompts.parser.parse:"
one = dict(internal=True, at_call=False)
CONTRACTS = [
    Contract(M + "_parse_sampling_method", dict(sampling_method_symbol=Opt(Str)), spec=s_method, props=["C08", "C16"], internal=True,
             call=fun_call("SAMPLING_METHOD", dict(sampling_method_symbol=Opt(Str)), Opt(Method), raises=ValueError)),
    Contract(M + "_parse_bound_expr", dict(expr=Seq(Bound), max_options=Int), requires=r_bound, spec=s_bound, props=["C01", "C16"], internal=True,
             call=fun_call("BOUNDS", dict(expr=Seq(Bound), max_options=Int), Tup(Int, Int, Str))),
    Contract(M + "_parse_variant_command", dict(parse_result=Seq(Group)), requires=r_group, spec=s_group, props=["C16"], fuzz=fuzz_group, **one),
    Contract(M + "_parse_variable_access_command", dict(parse_result=Seq(Access)), requires=r_named, spec=s_access, props=["C07", "C16"], **one),
    Contract(M + "_parse_wildcard_variable_access_command", dict(parse_result=Seq(Access)), requires=r_wild_access, spec=s_wild_access, props=["C16"], fuzz=fuzz_wild_access, **one),
    Contract(M + "_parse_variable_assignment_command", dict(parse_result=Seq(Assign)), requires=r_assign, spec=s_assign, props=["C07", "C16"], **one),
    Contract(M + "_parse_wrap_command", dict(parse_result=Seq(Wrap)), requires=r_wrap, spec=s_wrap, props=["C14", "C16"], **one),
    Contract(M + "_parse_literal_command", dict(parse_result=Seq(Str)), spec=s_literal, props=["C16"], **one),
    Contract(M + "_parse_sequence_or_single_command", dict(parse_result=Seq(Cmd)), spec=s_sequence, props=["C16"], **one),
    Contract(M + "_parse_variable_spec", dict(variable_spec=Str, parser_config=Cfg), spec=s_spec, props=["C16"], internal=True,
             call=fun_call("SPEC", dict(variable_spec=Str, parser_config=Cfg), Seq(Tup(Str, Cmd), "gen"))),
    Contract(M + "_parse_wildcard_command", dict(parse_result=Wild, parser_config=Cfg), requires=r_wildcard, spec=s_wildcard, props=["C16"], fuzz=fuzz_wildcard, **one),
    Contract(M + "get_cached_parser", dict(parser_config=Cfg), ghost=dict(key=Cfg), requires=r_cached, spec=s_cached, ensures=dict(invariant=e_cached), props=["C16"], internal=True,
             world=parser_world, prepare=prep_parser, n_fuzz=0, call=fun_call("CACHED_PARSER", dict(parser_config=Cfg), Parser)),
    Contract(M + "parse", dict(prompt=Str, parser_config=Cfg), spec=s_parse, props=["C16"], prepare=prep_parser, at_call=False, internal=True),
]
