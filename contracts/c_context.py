"""SamplingContext: choice of sampler, scoping of variables, entry point."""
from __future__ import annotations

import dataclasses
import itertools

from dynamicprompts.commands import Command, LiteralCommand
from dynamicprompts.commands.variable_commands import VariableAccessCommand, VariableAssignmentCommand
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.parser.parse import parse
from dynamicprompts.sampling_context import SamplingContext
from dynamicprompts.sampling_result import SamplingResult

from pyvc.contract import Const, Contract
from pyvc.interp import rec

from .model import *  # noqa


def s_with_sampling_method(self, sampling_method):
    return dataclasses.replace(self, default_sampling_method=sampling_method)


def s_with_variables(self, variables):
    return dataclasses.replace(self, variables={**self.variables, **variables})


def s_for_sampling_variable(self, variable):
    if variable in self._variables_being_sampled:
        raise RecursionError
    return dataclasses.replace(self, _variables_being_sampled=self._variables_being_sampled | {variable})


def s_effective_method(self, command):
    if command.sampling_method is None:
        return self.default_sampling_method
    return command.sampling_method


def s_sampler_and_context(self, command):
    m = effective(self, command)
    return (self.samplers[m], dataclasses.replace(self, default_sampling_method=m))


def s_generator_from_command(self, command):
    m = effective(self, command)
    return self.samplers[m].generator_from_command(command, dataclasses.replace(self, default_sampling_method=m))


def s_squashed(r):
    return SamplingResult(text=" ".join(r.text.split()))


def s_sample_prompts(self, prompt, num_prompts):
    if isinstance(prompt, str):
        if prompt == "":
            return []
        prompt = parse(prompt, parser_config=self.parser_config)
    gen = self.generator_from_command(prompt)
    if self.ignore_whitespace:
        gen = (s_squashed(r) for r in gen)
    if num_prompts is None:
        return gen
    return itertools.islice(gen, num_prompts)


def s_assignment(self, command):
    if not command.overwrite and command.name in self.variables:
        return self.variables[command.name]
    if not command.immediate or isinstance(command.value, LiteralCommand):
        return command.value
    return LiteralCommand(next(self.generator_from_command(command.value)).text)


def s_assignments(self, commands):
    ctx = self
    rest = []
    for c in commands:
        if isinstance(c, VariableAssignmentCommand):
            ctx = dataclasses.replace(ctx, variables={**ctx.variables, c.name: ctx.process_variable_assignment(c)})
        else:
            rest.append(c)
    return (rest, ctx)


def s_variable(self, command, context):
    if command.name in context.variables:
        value = context.variables[command.name]
    elif command.default is not None:
        value = command.default
    elif context.unknown_variable_value is None:
        raise KeyError
    elif isinstance(context.unknown_variable_value, str):
        value = LiteralCommand(context.unknown_variable_value)
    else:
        value = context.unknown_variable_value
    if command.name in context._variables_being_sampled:
        raise RecursionError
    inner = dataclasses.replace(context, _variables_being_sampled=context._variables_being_sampled | {command.name})
    return inner.generator_from_command(value)


def _sampler_gen(run, a, k):
    cmd_ = a[1] if len(a) > 1 else k["command"]
    ctx = a[2] if len(a) > 2 else k["context"]
    return Sym(GenV, uf("SAMPLER_GEN", SamplerK.sort(), Cmd.sort(), Ctx.sort(), GenV.sort())(run.lift(a[0], SamplerK), run.lift(cmd_, Cmd), run.lift(ctx, Ctx)))


GenV = Opaque("ResultGen")
SamplerK.methods = {"generator_from_command": _sampler_gen}

C = "dynamicprompts.sampling_context:SamplingContext."
VAR = ["C07", "C02", "C08"]
SAMPLED = ["C01", "C02", "C03", "C04", "C06", "C07", "C08", "C14"]
CONTRACTS = [
    Contract(C + "with_sampling_method", dict(self=Ctx, sampling_method=Method), spec=s_with_sampling_method, props=["C08"]),
    Contract(C + "with_variables", dict(self=Ctx, variables=Map(Str, Cmd)), spec=s_with_variables, props=VAR),
    Contract(C + "for_sampling_variable", dict(self=Ctx, variable=Str), spec=s_for_sampling_variable, props=["C07"]),
    Contract(C + "get_effective_sampling_method", dict(self=Ctx, command=Cmd), spec=s_effective_method, props=["C08", "C02"], internal=True),
    Contract(C + "get_sampler_and_context", dict(self=Ctx, command=Cmd), spec=s_sampler_and_context, props=["C08"], internal=True),
    Contract(C + "generator_from_command", dict(self=Ctx, command=Cmd), spec=s_generator_from_command, props=["C08"],
             call=lambda run, b: gen_of(run, b["self"], b["command"])),
    Contract(C + "sample_prompts", dict(self=Ctx, prompt=CmdOrStr, num_prompts=Opt(Int)), spec=s_sample_prompts, props=["C03", "C07", "C14", "C15"], world=world, call=prompts_of),
    Contract(C + "process_variable_assignment", dict(self=Ctx, command=cmd(VariableAssignmentCommand)), spec=s_assignment, props=["C07"], world=world),
    Contract(C + "process_variable_assignments", dict(self=Ctx, commands=Seq(Cmd)), spec=s_assignments, props=["C07"], world=world,
             call=fun_call("ASSIGN", dict(self=Ctx, commands=Seq(Cmd)), (Seq(Cmd), Ctx), raises=StopIteration, world=True,
                           facts=lambda c, xs, *r: [Ctx.get(r[-1], n) == Ctx.get(c, n) for n, _ in Ctx.fields if n != "variables"])),
    Contract("dynamicprompts.samplers.base:Sampler._get_variable", dict(self=SamplerK, command=cmd(VariableAccessCommand), context=Ctx), spec=s_variable, props=["C07"], world=world),
]
