"""Combinatorial sampler: every output, in order, nothing else."""
from __future__ import annotations

import dataclasses

from dynamicprompts.commands import Command, LiteralCommand, SequenceCommand, VariantCommand, VariantOption, WildcardCommand, WrapCommand
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.parser.parse import parse
from dynamicprompts.samplers.combinatorial import CombinatorialSampler
from dynamicprompts.samplers.command_collection import CommandCollection
from dynamicprompts.sampling_result import SamplingResult

from pyvc.contract import Const, Contract, register_rec
from pyvc.interp import rec
from pyvc.prover import concat
from pyvc.values import Builtin, PObj, Sym

from .c_commands import combos
from .c_text import s_joined, s_split_wrapper
from .c_context import s_squashed
from .model import *  # noqa

CombK = Opaque("CombinatorialSampler", CombinatorialSampler)


@rec([Ctx, Seq(Cmd)], Seq(Seq(SR)))
def product_(ctx, commands):
    """All ways to take one output of each command, the last one varying fastest."""
    if len(commands) == 0:
        return [[]]
    return [[p] + r for p in outputs(ctx, commands[0]) for r in product_(ctx, commands[1:])]


@rec([Ctx, Seq(Cmd), SR], Seq(Seq(SR)))
def product_end(ctx, commands, last):
    return [p + [last] for p in product_(ctx, commands)]


def product_with_last(ctx, commands, text):
    """Lemma: a literal at the end of a sequence adds its text to every choice (induction over the sequence)."""
    if len(commands) > 0:
        commands = [commands[0]] + commands[1:]
    else:
        commands = []
    return product_(ctx, commands + [LiteralCommand(text)])


def s_product_with_last(ctx, commands, text):
    return product_end(ctx, commands, SamplingResult(text=text))


def s_combo_to_prompt(sampling_context, combo):
    return product_(sampling_context, combo)


def s_sequence(self, command, context):
    tokens, ctx = context.process_variable_assignments(command.tokens)
    for rs in product_(ctx, tokens):
        yield SamplingResult(text="".join([r.text for r in rs]))


def no_separator(command):
    return command.separator == ""


def s_dedupe(arr, key):
    seen = set()
    out = []
    for x in arr:
        k = key(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return tuple(out)


def same_key(a, b):
    return a.dedupe_key == b.dedupe_key


def s_same_key(a, b):
    """Two results are taken for the same exactly when their texts are equal."""
    return a.text == b.text


def s_variant(self, variant_command, context):
    """{lo-hi$$sep$$a|b|..}: for each size, each ordered selection of that many different options, each way to sample
    them; results with repeated text dropped, and none twice.  {lo-hi$$sep$$__w__}: the same over the values of w."""
    options = [o.value for o in variant_command.variants]
    if len(options) == 0:
        return
    if len(options) == 1 and isinstance(options[0], WildcardCommand):
        w = options[0]
        v = s_wildcard_to_variant(w, context, variant_command.min_bound, variant_command.max_bound, variant_command.separator)
        yield from self._get_variant(v, dataclasses.replace(context, variables={**context.variables, **w.variables}))
        return
    lo = min(variant_command.min_bound, len(options))
    hi = min(variant_command.max_bound, len(options))
    seen = set()
    for k in range(lo, hi + 1):
        for combo in combos(k, options):
            for parts in product_(context, combo):
                distinct = s_dedupe(parts, lambda r: (r.text,))
                if len(distinct) == k and distinct not in seen:
                    seen.add(distinct)
                    yield SamplingResult.joined(distinct, separator=variant_command.separator)


def bounds_inv(variant_command):
    return variant_command.min_bound >= 0 and variant_command.min_bound <= variant_command.max_bound


def first_text(ctx, prompt):
    """Text of the first prompt sampled from `prompt` in `ctx`."""
    return next(iter(ctx.sample_prompts(prompt, 1))).text


def s_wildcard_to_variant(command, context, min_bound, max_bound, separator):
    values = context.wildcard_manager.get_values(first_text(context, command.wildcard))
    n = len(values)
    return VariantCommand(
        [VariantOption(parse(v, parser_config=context.parser_config)) for v in values.iterate_string_values_weighted()],
        min(min_bound, n), min(max_bound, n), separator, command.sampling_method,
    )


def s_fallback(command, context):
    """The reference itself, for ever."""
    text = first_text(context, command.wildcard) if isinstance(command.wildcard, Command) else command.wildcard
    r = SamplingResult(text=context.wildcard_manager.to_wildcard(text))
    while True:
        yield r


def s_wildcard(self, command, context):
    values = context.wildcard_manager.get_values(first_text(context, command.wildcard))
    inner = dataclasses.replace(context, variables={**context.variables, **command.variables})
    if len(values) == 0:
        yield from s_fallback(command, inner)
        return
    for v in values.iterate_string_values_weighted():
        for r in inner.sample_prompts(v):
            yield r


def s_literal(self, command, context):
    return [SamplingResult(text=command.literal)]


def s_wrap(self, command, context):
    out = []
    for w in context.sample_prompts(command.wrapper):
        left, right = s_split_wrapper(w.text)
        for i in context.sample_prompts(command.inner):
            out.append(SamplingResult(text=left + i.text + right))
    return out


def s_as_wrapper_applied(self, inner):
    left, right = s_split_wrapper(self.text)
    return SamplingResult(text=left + inner.text + right)


def s_dispatch(self, command, context):
    if isinstance(command, LiteralCommand):
        return self._get_literal(command, context)
    if isinstance(command, SequenceCommand):
        return self._get_sequence(command, context)
    if isinstance(command, VariantCommand):
        return self._get_variant(command, context)
    if isinstance(command, WildcardCommand):
        return self._get_wildcard(command, context)
    if isinstance(command, VariableAccessCommand):
        return self._get_variable(command, context)
    if isinstance(command, WrapCommand):
        return self._get_wrap(command, context)
    raise NotImplementedError


def combinatorial_only(w):
    """Scope: every command is unmarked or marked combinatorial (mixed templates: C08)."""
    comb = Method.const(SamplingMethod.COMBINATORIAL)
    w.reg.rules.setdefault("Cmd.sampling_method", []).append(lambda t: [z3.Or(OptMethod.is_none(t), OptMethod.val(t) == comb)])
    w.lib[id(CommandCollection)] = lambda run, a, k: PObj(run, CommandCollection)
    w.assumed.add("CommandCollection(...) of a combinatorial context has no effect on later sampling")
    lit = "mkc_LiteralCommand"

    def literal_output(t):
        c = t.arg(1)
        if z3.is_app(c) and c.decl().name() == lit:
            return z3.Unit(SR.make([c.arg(0)]))
        return None

    def product_step(t):
        xs = parts_of(t.arg(1))
        if xs[0].decl().kind() in (z3.Z3_OP_SEQ_UNIT, z3.Z3_OP_SEQ_EMPTY):
            register_rec(w, product_)
            return w.reg.unfold1(product_.decl()(t.arg(0), concat(*xs)))
        last = xs[-1]
        if len(xs) < 2 or last.decl().kind() != z3.Z3_OP_SEQ_UNIT or last.arg(0).decl().name() != lit:
            return None
        rest = xs[:-1]
        if w.lemma and not all(z3.is_const(r) and r.decl().name().startswith("tl$") for r in rest):
            return None  # while the lemma itself is proved: induction hypothesis only
        register_rec(w, product_end)
        return w.reg.unfold1(product_end.decl()(t.arg(0), concat(*rest), SR.make([last.arg(0).arg(0)])))

    w.lemma = getattr(w, "lemma", False)
    w.reg.simp["rec_product_"] = product_step
    w.reg.simp["rec_OUT"] = literal_output
    w.reg.rules.setdefault("rec_OUT", []).append(lambda t: [t == r for r in [literal_output(t)] if r is not None])
    w.assumed.add("generator_from_command of a LiteralCommand is CombinatorialSampler._get_literal (both under contract)")


def variant_world(w):
    combinatorial_only(w)
    with_call(w, SamplingResult.joined.__func__, fun_call("JOINED", dict(results=Seq(SR), separator=Str), SR))


def parts_of(t):
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in parts_of(c)]
    return [t]


def proving_lemma(w):
    w.lemma = True
    combinatorial_only(w)


def comb_context(context):
    return context.default_sampling_method is SamplingMethod.COMBINATORIAL


def comb_context_c(ctx):
    return ctx.default_sampling_method is SamplingMethod.COMBINATORIAL


def comb_context_s(sampling_context):
    return sampling_context.default_sampling_method is SamplingMethod.COMBINATORIAL


def clo_product(run, f, args):
    """Contract of the nested recursive function: product of the outputs in the context it closes over."""
    e = f.env
    found = None
    while e is not None and found is None:
        for n, v in e.f.items():
            if n.startswith("%"):
                continue
            k = v.kind if isinstance(v, Sym) else None
            if k == Ctx or isinstance(v, PObj) and v.cls is SamplingContext:
                found = v
        e = e.parent
    if found is None:
        raise Unsupported("no context in the closure")
    return run.call(product_, [found, *args], {})


def key_fn(run, name):
    f = uf("key_fn", SR.sort(), z3.StringSort())
    return Builtin(lambda r, a, k: Sym(Str, f(r.lift(a[0], SR))), "key")


def r_variant(variant_command, context):
    return bounds_inv(variant_command) and comb_context(context)


def r_sequence(command, context):
    return no_separator(command) and comb_context(context)


CS = "dynamicprompts.samplers.combinatorial:CombinatorialSampler."
def g_two_results(g):
    return dict(a=SamplingResult(g.rng.choice(g.pool)), b=SamplingResult(g.rng.choice(g.pool)))


COMB = dict(prepare=combinatorial_only, world=world)
CONTRACTS = [
    Contract("contracts.c_combinatorial:product_with_last", dict(ctx=Ctx, commands=Seq(Cmd), text=Str), spec=s_product_with_last, requires=comb_context_c, props=["C02"], prepare=proving_lemma, world=world, lemma=True),
    Contract("dynamicprompts.utils:dedupe", dict(arr=Seq(SR), key=key_fn), spec=s_dedupe, props=["C01"], internal=True),
    Contract("contracts.c_combinatorial:same_key", dict(a=SR, b=SR), spec=s_same_key, props=["C01"], internal=True, lemma=True, fuzz=g_two_results),
    Contract("dynamicprompts.samplers.combinatorial:_combo_to_prompt", dict(sampling_context=Ctx, combo=Seq(Cmd)), requires=comb_context_s, spec=s_combo_to_prompt, props=["C01", "C02"], internal=True, **COMB),
    Contract(CS + "_get_sequence", dict(self=CombK, command=cmd(SequenceCommand), context=Ctx), requires=r_sequence, spec=s_sequence, props=["C02", "C01"],
             rec_closure=([Seq(Cmd)], clo_product), **COMB),
    Contract(CS + "_get_variant", dict(self=CombK, variant_command=cmd(VariantCommand), context=Ctx), requires=r_variant, spec=s_variant, props=["C01", "C02"],
             call=fun_call("COMB_VARIANT", dict(variant_command=Cmd, context=Ctx), Seq(SR, "gen")), prepare=variant_world, world=world),
    Contract("dynamicprompts.samplers.utils:wildcard_to_variant", dict(command=cmd(WildcardCommand), context=Ctx, min_bound=Int, max_bound=Int, separator=Str), spec=s_wildcard_to_variant, props=["C01", "C02", "C04", "C06"], world=world),
    Contract("dynamicprompts.samplers.utils:get_wildcard_not_found_fallback", dict(command=cmd(WildcardCommand), context=Ctx), spec=s_fallback, props=["C10"], world=world),
    Contract(CS + "_get_wildcard", dict(self=CombK, command=cmd(WildcardCommand), context=Ctx), requires=comb_context, spec=s_wildcard, props=["C02", "C10", "C07"], **COMB),
    Contract(CS + "_get_literal", dict(self=CombK, command=cmd(LiteralCommand), context=Ctx), spec=s_literal, props=["C02"], world=world),
    Contract(CS + "_get_wrap", dict(self=CombK, command=cmd(WrapCommand), context=Ctx), requires=comb_context, spec=s_wrap, props=["C14", "C02"], **COMB),
]
