"""Constructors and small accessors the other contracts rely on."""
from __future__ import annotations

from dynamicprompts.commands import Command, LiteralCommand, SequenceCommand, VariantCommand, VariantOption, WildcardCommand
from dynamicprompts.sampling_context import SamplingContext
from dynamicprompts.samplers.combinatorial import CombinatorialSampler
from dynamicprompts.samplers.cycle import CyclicalSampler
from dynamicprompts.samplers.random import RandomSampler
from dynamicprompts.enums import SamplingMethod
from dynamicprompts.samplers.command_collection import CommandCollection
from dynamicprompts.wildcards.collection import WildcardTextFile

from pyvc.contract import Const, Contract
from pyvc.kinds import ObjK

from .c_samplers import COLLECTION
from .c_wild import PathK
from .model import *  # noqa

P = "dynamicprompts."
Seqs = cmd(SequenceCommand)
Vars = cmd(VariantCommand)


def s_from_literals(values, separator, sampling_method):
    parts = []
    for v in values:
        if isinstance(v, Command):
            parts.append(v)
        else:
            parts.append(LiteralCommand(v, sampling_method=sampling_method))
    return SequenceCommand(tokens=parts, separator=separator, sampling_method=sampling_method)


def s_len_tokens(self):
    return len(self.tokens)


def s_token(self, index):
    return self.tokens[index]


def r_token(self, index):
    return 0 <= index and index < len(self.tokens)


def s_tokens(self):
    return self.tokens


def s_len_variants(self):
    return len(self.variants)


def s_variants(self):
    return self.variants


def s_variant(self, index):
    return self.variants[index]


def r_variant(self, index):
    return 0 <= index and index < len(self.variants)


def s_default_sampler(self):
    return self.samplers[self.default_sampling_method]


def s_is_nonfinite(self):
    return self is not SamplingMethod.COMBINATORIAL


def s_dedupe_key(self):
    return (self.text,)


def s_name_parts(a, b):
    return (a + "/" + b).strip("/")


def s_items(self):
    return self.items


def s_item(self, item):
    return self.items[item]


def r_item(self, item):
    return 0 <= item and item < len(self.items)


def s_text_file(self, path, encoding):
    self._path = path
    self._encoding = encoding
    self._cache = None


def s_all_values(self, wildcard):
    return list(self.get_values(wildcard).string_values)


def r_collection(context):
    return context.default_sampling_method is not SamplingMethod.COMBINATORIAL


def s_collection(self, commands, context):
    """One stream for every command, in order; the first value of each is taken, in order, once all streams exist."""
    self._commands = list(commands)
    self._generators = [context.generator_from_command(c) for c in commands]
    self._values = [next(g) for g in self._generators]


def e_samplers(result):
    """Each method has a sampler, of its own class."""
    return (
        len(result) == 3 and isinstance(result[SamplingMethod.COMBINATORIAL], CombinatorialSampler)
        and isinstance(result[SamplingMethod.CYCLICAL], CyclicalSampler) and isinstance(result[SamplingMethod.RANDOM], RandomSampler)
    )


TXT = ObjK(WildcardTextFile, _path=PathK, _encoding=Str, _cache=Opt(Seq(Str)))
CONTRACTS = [
    Contract(P + "commands.sequence_command:SequenceCommand.from_literals", dict(cls=Const(SequenceCommand), values=Seq(CmdOrStr), separator=Str, sampling_method=Opt(Method)), spec=s_from_literals, props=["C16"], at_call=False),
    Contract(P + "commands.sequence_command:SequenceCommand.__len__", dict(self=Seqs), spec=s_len_tokens, props=["C02"], at_call=False),
    Contract(P + "commands.sequence_command:SequenceCommand.__getitem__", dict(self=Seqs, index=Int), requires=r_token, spec=s_token, props=["C02"], at_call=False),
    Contract(P + "commands.sequence_command:SequenceCommand.__iter__", dict(self=Seqs), spec=s_tokens, props=["C02"], at_call=False),
    Contract(P + "commands.variant_command:VariantCommand.__len__", dict(self=Vars), spec=s_len_variants, props=["C01"], at_call=False),
    Contract(P + "commands.variant_command:VariantCommand.__getitem__", dict(self=Vars, index=Int), requires=r_variant, spec=s_variant, props=["C01"], at_call=False),
    Contract(P + "commands.variant_command:VariantCommand.__iter__", dict(self=Vars), spec=s_variants, props=["C01"], at_call=False),
    Contract(P + "sampling_context:SamplingContext.default_sampler", dict(self=Ctx), spec=s_default_sampler, props=["C08"], at_call=False),
    Contract(P + "enums:SamplingMethod.is_nonfinite", dict(self=Method), spec=s_is_nonfinite, props=["C08"], at_call=False),
    Contract(P + "sampling_result:SamplingResult.dedupe_key", dict(self=SR), spec=s_dedupe_key, props=["C01"], internal=True, at_call=False),
    Contract(P + "wildcards.values:WildcardValues.__iter__", dict(self=Values), spec=s_items, props=["C12"], at_call=False),
    Contract(P + "wildcards.values:WildcardValues.__getitem__", dict(self=Values, item=Int), requires=r_item, spec=s_item, props=["C12"], at_call=False),
    Contract(P + "wildcards.collection.text_file:WildcardTextFile.__init__", dict(self=TXT, path=PathK, encoding=Str), spec=s_text_file, frame=("self",), props=["C12", "C11"], at_call=False, internal=True),
    Contract(P + "samplers.command_collection:CommandCollection.__init__", dict(self=COLLECTION, commands=Seq(Cmd), context=Ctx), requires=r_collection, spec=s_collection, frame=("self",), world=world, props=["C08"], at_call=False, internal=True),
    Contract(P + "sampling_context:_build_default_samplers", dict(), ensures=dict(samplers=e_samplers), props=["C08"], at_call=False, internal=True, n_fuzz=0),
    Contract(P + "wildcards.wildcard_manager:WildcardManager.get_all_values", dict(self=WM, wildcard=Str), spec=s_all_values, props=["C10"], at_call=False),
]
