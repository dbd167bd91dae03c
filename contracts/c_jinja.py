"""The functions and blocks a Jinja template may use."""
from __future__ import annotations

import ast
import itertools
import random

from dynamicprompts.constants import MAX_IMAGES
from dynamicprompts.jinja_extensions import PromptExtension
from jinja2 import Environment
from pyvc.contract import Contract, Made
from pyvc.kinds import ObjK
from pyvc.values import PDict, PGen, PList, SeqV, Sym, Unsupported

from dynamicprompts.generators.combinatorial import CombinatorialPromptGenerator
from dynamicprompts.generators.jinjagenerator import JinjaGenerator
from dynamicprompts.generators.randomprompt import RandomPromptGenerator

from .c_generators import IState, Inner, StubGenerator, _inner_generate, inner_world, prep_random, rand_world
from .c_text import MGR
from .model import *  # noqa

J = "dynamicprompts.jinja_extensions:"
Caller = Opaque("BlockBody")


class StubBody:
    def __init__(self, text):
        self.text = text

    def __norm__(self):
        return ("StubBody", self.text)

    def __call__(self):
        return self.text


Caller.concrete = lambda g: StubBody(g.value(Str))


def _body(run, a, k):
    run.w.assumed.add("the body of a prompt block renders to a text determined by the body and the state of what it uses")
    st, t = run.lift(run.world.f["inner"], IState), run.lift(a[0], Caller)
    run.set(run.world, "inner", Sym(IState, uf("BODY_state", Caller.sort(), IState.sort(), IState.sort())(t, st)))
    return Sym(Str, uf("BODY", Caller.sort(), IState.sort(), z3.StringSort())(t, st))


Caller.methods = {"__call__": _body}


def sub_generator(label, limit_name, limit):
    """The template's own random or combinatorial generator: generate(template, <limit> = its default)."""
    kind = Opaque(label)

    def generate(run, a, k):
        k = dict(k)
        a = list(a)
        for n in ("template", limit_name)[len(a) - 1:]:
            a.append(k.pop(n, limit))
        if k or len(a) != 3:
            raise Unsupported("generator call with other arguments")
        return _inner_generate(run, a, {})

    kind.methods = {"generate": generate}
    kind.concrete = lambda g: Limited(g.value(Inner).plan, limit)
    return kind


class Limited(StubGenerator):
    def __init__(self, plan, limit):
        super().__init__(plan)
        self.limit = limit

    def __norm__(self):
        return ("Limited", self.plan)

    def generate(self, template, max_prompts=..., num_images=...):
        n = next((x for x in (max_prompts, num_images) if x is not ...), self.limit)
        return super().generate(template, n)


RandomGen, CombGen = sub_generator("RandomSubGenerator", "num_images", 1), sub_generator("CombinatorialSubGenerator", "max_prompts", MAX_IMAGES)


def _globals(run, name):
    from pyvc.contract import make_param

    gens = {m: make_param(run, kk, f"{name}.{m}") for m, kk in (("random", RandomGen), ("combinatorial", CombGen))}
    return PDict(run, {"wildcard_manager": make_param(run, MGR, f"{name}.wm"), "prompt_blocks": make_param(run, Seq(Str), f"{name}.blocks"),
                       "generators": PDict(run, gens)})


def _concrete_globals(g):
    return {"wildcard_manager": g.value(MGR), "prompt_blocks": g.value(Seq(Str)), "generators": {m: g.value(kk) for m, kk in (("random", RandomGen), ("combinatorial", CombGen))}}


ENV = ObjK(Environment, globals=Made(_globals, _concrete_globals))


def permutations_of(run, items, n):
    """itertools.permutations(items, n): an unknown function of the two; ValueError for negative n."""
    if run.truth(run.compare(ast.Lt(), n, 0)):
        run.raise_(ValueError)
    sv = run.iter_seq(items)
    ek = run.elem_kind(sv)
    t, k = run.seq_term(sv, ek), Seq(Seq(ek, "tuple"))
    return PGen(run, trace=SeqV.sym(Sym(k, uf("PERMUTATIONS_" + ek.key, t.sort(), z3.IntSort(), k.sort())(t, run.lift(n, Int)))))


def prep_jinja_ext(w):
    def perms(run, a, k):
        run.w.assumed.add("itertools.permutations(items, n): determined by items and n, ValueError if n < 0")
        return permutations_of(run, a[0], a[1])

    w.lib[id(itertools.permutations)] = perms
    w.keep.append(itertools.permutations)


def s_permutation(items, low, high):
    out = []
    top = low if high is None else high
    for n in range(low, top + 1):
        for p in itertools.permutations(items, n):
            out.append(p)
    return out


def s_wildcard(environment, wildcard_name):
    ref = environment.globals["wildcard_manager"].to_wildcard(wildcard_name)
    return [r for r in environment.globals["generators"]["combinatorial"].generate(ref)]


def s_all(environment, prompt):
    return [r for r in environment.globals["generators"]["combinatorial"].generate(prompt)]


def s_random_sample(environment, prompt):
    for r in environment.globals["generators"]["random"].generate(prompt):
        return r
    raise StopIteration


def s_choice(items):
    return random.choice(items)


def x_choice(items):
    from dynamicprompts.jinja_extensions import choice

    return choice(*items)


def s_weighted(items):
    if len(items) == 0:
        raise ValueError
    return random.choices([i[0] for i in items], weights=[i[1] for i in items])[0]


def x_weighted(items):
    from dynamicprompts.jinja_extensions import weighted_choice

    return weighted_choice(*items)


def s_prompt(self, caller):
    text = caller()
    self.environment.globals["prompt_blocks"].append(text)
    return text


def s_init(self, wildcard_manager, context, parser_config, unlink_seed_from_prompt, ignore_whitespace, limit_prompts):
    self._wildcard_manager = wildcard_manager
    self._parser_config = parser_config
    self._unlink_seed_from_prompt = unlink_seed_from_prompt
    self._generators = {
        "random": RandomPromptGenerator(wildcard_manager, parser_config=parser_config, unlink_seed_from_prompt=unlink_seed_from_prompt, ignore_whitespace=ignore_whitespace),
        "combinatorial": CombinatorialPromptGenerator(wildcard_manager, parser_config=parser_config, ignore_whitespace=ignore_whitespace),
    }
    self._context = {} if context is None else context
    self._limit_prompts = limit_prompts
    self._ignore_whitespace = ignore_whitespace


def _no_generators(run, name):
    return PDict(run, {})


SELF = ObjK(JinjaGenerator, _wildcard_manager=WM, _parser_config=Cfg, _unlink_seed_from_prompt=Bool, _ignore_whitespace=Bool, _limit_prompts=Bool,
            _generators=Made(_no_generators, lambda g: {}), _context=Map(Str, Str))

CONTRACTS = [
    Contract("dynamicprompts.generators.jinjagenerator:JinjaGenerator.__init__",
             dict(self=SELF, wildcard_manager=WM, context=Opt(Map(Str, Str)), parser_config=Cfg, unlink_seed_from_prompt=Bool, ignore_whitespace=Bool, limit_prompts=Bool),
             spec=s_init, props=["C19", "C15"], world=rand_world, prepare=prep_random, frame=("self",), internal=True, at_call=False),
    Contract(J + "permutation", dict(items=Seq(Str), low=Int, high=Opt(Int)), spec=s_permutation, props=["C19"], prepare=prep_jinja_ext),
    Contract(J + "wildcard", dict(environment=ENV, wildcard_name=Str), spec=s_wildcard, props=["C19"], world=inner_world),
    Contract(J + "combinatorial_sample", dict(environment=ENV, prompt=Str), spec=s_all, props=["C19"], world=inner_world),
    Contract(J + "random_sample", dict(environment=ENV, prompt=Str), spec=s_random_sample, props=["C19"], world=inner_world),
    Contract(J + "choice", dict(items=Seq(Str, "tuple")), spec=s_choice, real=x_choice, props=["C19"], world=inner_world),
    Contract(J + "weighted_choice", dict(items=Seq(Tup(Str, Real), "tuple")), spec=s_weighted, real=x_weighted, props=["C19"], world=inner_world),
    Contract(J + "PromptExtension._prompt", dict(self=ObjK(PromptExtension, environment=ENV), caller=Caller), spec=s_prompt, props=["C19"], world=inner_world, frame=("self",), at_call=False),
]
for _c in CONTRACTS:
    if _c.real is not None:  # *items: executed as it is proved
        _c.real_concrete = _c.real
