"""The generators: how many prompts, from which samples, with which seeds."""
from __future__ import annotations

import random
import re
from itertools import islice

from dynamicprompts.constants import DEFAULT_RANDOM
from dynamicprompts.generators.attentiongenerator import AttentionGenerator, find_noun_chunks
from dynamicprompts.generators.batched_combinatorial import BatchedCombinatorialPromptGenerator
from dynamicprompts.generators.combinatorial import CombinatorialPromptGenerator
from dynamicprompts.generators.dummygenerator import DummyGenerator
from dynamicprompts.generators.feelinglucky import FeelingLuckyGenerator, query_lexica
from dynamicprompts.generators.jinjagenerator import JinjaGenerator
from dynamicprompts.generators.magicprompt import MagicPromptGenerator, clean_up_magic_prompt
from dynamicprompts.generators.promptgenerator import GeneratorException, PromptGenerator
from dynamicprompts.generators.randomprompt import RandomPromptGenerator
from pyvc.contract import Const, Contract
from pyvc.kinds import ObjK
from pyvc.values import PList, SeqV, Sym, Unsupported

from .model import *  # noqa

# an arbitrary inner generator: its state and the arguments determine what it returns
Inner = Opaque("PromptGenerator", PromptGenerator)
IState = Opaque("GeneratorStates")


class StubGenerator(PromptGenerator):
    def __init__(self, plan):
        self.plan, self.calls = plan, 0

    def __norm__(self):
        return ("StubGenerator", self.plan)

    def generate(self, template, n=1, **kw):
        self.calls += 1
        return [f"{template}{x}{self.calls}{n}" for x in self.plan[: n if n is not None and n >= 0 else None]]


Inner.concrete = lambda g: StubGenerator([g.value(Str) for _ in range(g.rng.choice([0, 1, 2, 3]))])


def _inner_generate(run, a, k):
    if k or not 2 <= len(a) <= 3:
        raise Unsupported("inner generator call with other arguments")
    ts = [run.lift(a[0], a[0].kind), run.lift(run.world.f["inner"], IState), run.lift(a[1], Str), run.lift(a[2] if len(a) > 2 else None, Opt(Int))]
    run.w.assumed.add("an inner generator's generate(): a list of texts determined by the generator, its state and the arguments")
    of = "" if a[0].kind == Inner else "_" + a[0].kind.key
    out = uf("INNER" + of, *[t.sort() for t in ts], Seq(Str).sort())(*ts)
    run.set(run.world, "inner", Sym(IState, uf("INNER_state" + of, *[t.sort() for t in ts], IState.sort())(*ts)))
    return PList(run, SeqV.sym(Sym(Seq(Str), out)))


Inner.methods = {"generate": _inner_generate}


def inner_world(run):
    world(run)
    run.world.f["inner"] = Sym(IState, z3.Const("world_inner", IState.sort()))


def s_dummy(self, template, num_images):
    return [template for _ in range(num_images)]


def s_batched(self, template, max_prompts):
    out = []
    for _ in range(self._batches):
        for p in self._generator.generate(template, max_prompts):
            out.append(p)
    return out


def s_combinatorial(self, template, max_prompts):
    if template is None:
        template = ""
    return [r.text for r in self._context.sample_prompts(template, max_prompts)]


def s_random(self, template, num_images, seeds):
    if template is None:
        template = ""
    if seeds is None:
        return [r.text for r in self._context.sample_prompts(template, num_images)]
    if isinstance(seeds, int):
        seeds = [seeds]
    if len(seeds) == 1:
        seeds = seeds * num_images
    if len(seeds) != num_images:
        raise ValueError
    gen = self._context.sample_prompts(template, num_images)
    gen = iter(gen)
    out = []
    for s in seeds:
        self._context.rand.seed(s)
        for r in islice(gen, 1):
            out.append(r.text)
    return out


def r_random(self):
    return self._context.default_sampling_method is not SamplingMethod.COMBINATORIAL  # as the constructor makes it


def _new_random(run, a, k):
    """Random(x): a new source, seeded with x unless x is None."""
    n = run.lift(run.world.f["nrands"], Int)
    r = Sym(Rand, uf("new_Random", z3.IntSort(), Rand.sort())(n))
    run.set(run.world, "nrands", Sym(Int, z3.simplify(n + 1)))
    run.w.assumed.add("random.Random(x): a new source, its state a function of x; unpredictable without x")
    x = run.resolve(a[0]) if a else None
    if x is not None:
        run.call(run.getattr_(r, "seed"), [x], {})
    return r


def rand_world(run):
    inner_world(run)
    run.world.f["nrands"] = Sym(Int, z3.Int("world_nrands"))


def prep_random(w):
    w.lib[id(random.Random)] = _new_random
    w.keep.append(random.Random)


def s_get_random(seed, unlink_seed_from_prompt):
    if unlink_seed_from_prompt:
        return DEFAULT_RANDOM
    r = random.Random()
    if seed is not None:
        r.seed(seed)
    return r


def fuzz_get_random(g):
    unlink = g.value(Bool)
    return dict(seed=g.value(Opt(Int)) if unlink else g.value(Int), unlink_seed_from_prompt=unlink)


def s_random_init(self, wildcard_manager, seed, unlink_seed_from_prompt, ignore_whitespace, parser_config):
    self._context = SamplingContext(
        wildcard_manager=wildcard_manager, default_sampling_method=SamplingMethod.RANDOM, ignore_whitespace=ignore_whitespace,
        parser_config=parser_config, rand=s_get_random(seed, unlink_seed_from_prompt),
    )


def s_combinatorial_init(self, wildcard_manager, ignore_whitespace, parser_config):
    self._context = SamplingContext(
        wildcard_manager=wildcard_manager, default_sampling_method=SamplingMethod.COMBINATORIAL, ignore_whitespace=ignore_whitespace,
        parser_config=parser_config,
    )


# ------------------------------------------------------------------------------------------------ post-processing
Resp = Opaque("PipelineResponse")
Pipe = Opaque("Pipeline")
Regex = Opaque("Blocklist", re.Pattern)
Hit = Opaque("Match", re.Match)


def _pipe_call(run, a, k):
    if sorted(k) != ["batch_size", "max_length", "temperature"] or len(a) != 2:
        raise Unsupported("pipeline called with other arguments")
    ts = [run.lift(a[0], Pipe), run.lift(run.world.f["inner"], IState), run.lift(a[1], Seq(Str)), run.lift(k["max_length"], Int), run.lift(k["temperature"], Real), run.lift(k["batch_size"], Int)]
    run.w.assumed.add("the text-generation pipeline answers one response per prompt, determined by its state and arguments")
    out = uf("PIPE", *[t.sort() for t in ts], Seq(Resp).sort())(*ts)
    run.set(run.world, "inner", Sym(IState, uf("PIPE_state", *[t.sort() for t in ts], IState.sort())(*ts)))
    if "calls" in run.world.f:
        run.set(run.world, "calls", Sym(Int, z3.simplify(run.lift(run.world.f["calls"], Int) + 1)))
    return PList(run, SeqV.sym(Sym(Seq(Resp), out)))


def _resp_item(run, a, k):
    if a[1] == 0:
        return a[0]
    if a[1] == "generated_text":
        return Sym(Str, uf("generated_text", Resp.sort(), z3.StringSort())(run.lift(a[0], Resp)))
    raise Unsupported(f"response[{a[1]!r}]")


def _search(run, a, k):
    t = uf("BLOCKED", Regex.sort(), z3.StringSort(), Opt(Hit).sort())(run.lift(a[0], Regex), run.lift(a[1], Str))
    return Sym(Opt(Hit), t)


Pipe.methods = {"__call__": _pipe_call}
Resp.methods = {"__getitem__": _resp_item}
Regex.methods = {"search": _search}


class StubPipeline:
    def __init__(self, words):
        self.words, self.n = words, 0

    def __norm__(self):
        return ("StubPipeline", self.words)

    def __call__(self, prompts, **kw):
        out = []
        for p in prompts:
            self.n += 1
            out.append([{"generated_text": p + " " + self.words[self.n % len(self.words)] + str(self.n)}])
        return out


Pipe.concrete = lambda g: StubPipeline([g.rng.choice(["bad", "good", "fine", "b"]) for _ in range(g.rng.choice([1, 2, 3]))])
Regex.concrete = lambda g: re.compile(g.rng.choice(["bad", "b", "good 2", "1"]), re.I)
MAGIC = ObjK(MagicPromptGenerator, _generator=Pipe, _prompt_generator=Inner, _max_prompt_length=Int, _temperature=Real, _batch_size=Int, _blocklist_regex=Opt(Regex))


def prep_magic(w):
    def clean(run, a, k):
        run.w.assumed.add("clean_up_magic_prompt: a function of the original and the generated text")
        f = uf("CLEAN_UP", z3.StringSort(), z3.StringSort(), z3.StringSort())
        return Sym(Str, f(run.lift(a[0] if a else k["orig_prompt"], Str), run.lift(a[1] if len(a) > 1 else k["prompt"], Str)))

    w.lib[id(clean_up_magic_prompt)] = clean
    w.reg.rules.setdefault("PIPE", []).append(lambda t: [z3.Length(t) == z3.Length(t.arg(2))])


def s_magic(self, orig_prompts):
    raw = self._generator(orig_prompts, max_length=self._max_prompt_length, temperature=self._temperature, batch_size=self._batch_size)
    return [clean_up_magic_prompt(o, r[0]["generated_text"]) for o, r in zip(orig_prompts, raw)]


def e_magic_len(result, orig_prompts):
    return len(result) == len(orig_prompts)


def r_regenerate(original_prompts, magic_prompts):
    return len(original_prompts) == len(magic_prompts)


def s_regenerate(self, original_prompts, magic_prompts, max_attempts):
    if self._blocklist_regex is None:
        return magic_prompts
    for _ in range(max_attempts):
        blocked = [i for i, p in enumerate(magic_prompts) if self._blocklist_regex.search(p)]
        if not blocked:
            break
        again = self._generate_magic_prompts([original_prompts[i] for i in blocked])
        for i, p in zip(blocked, again):
            magic_prompts[i] = p
    return magic_prompts


def derived(original, result):
    """The result comes from cleaning up some generated text for the original prompt (what it looks like: s_magic)."""
    return True


def is_blocked(self, text):
    return self._blocklist_regex is not None and bool(self._blocklist_regex.search(text))


def pipeline_calls():
    """How often the pipeline was called."""
    return 10**9


DERIVED = uf("DERIVED", z3.StringSort(), z3.StringSort(), z3.BoolSort())


def blocked_term(run, a, k):
    rx, O = run.lift(a[0].f["_blocklist_regex"], Opt(Regex)), Opt(Regex)
    hit = uf("BLOCKED", Regex.sort(), z3.StringSort(), Opt(Hit).sort())(O.val(rx), run.lift(a[1], Str))
    return Sym(Bool, z3.And(z3.Not(O.is_none(rx)), z3.Not(Opt(Hit).is_none(hit))))


def prep_regenerate(w):
    prep_magic(w)
    w.lib[id(derived)] = lambda run, a, k: Sym(Bool, DERIVED(run.lift(a[0], Str), run.lift(a[1], Str)))
    w.lib[id(nth)] = lambda run, a, k: Sym(Str, run.lift(a[0], Seq(Str))[run.lift(a[1], Int)])
    w.lib[id(is_blocked)] = blocked_term
    w.lib[id(pipeline_calls)] = lambda run, a, k: run.world.f["calls"]
    w.reg.rules.setdefault("CLEAN_UP", []).append(lambda t: [DERIVED(t.arg(0), t)])


def calls_world(run):
    inner_world(run)
    run.world.f["calls"] = Sym(Int, z3.IntVal(0))


def nth(xs, k):
    """The element at position k, anything if there is none."""
    return xs[k] if 0 <= k < len(xs) else ""


def inside(k, xs):
    return conj(0 <= k, k < len(xs))


def r_regen(original_prompts, magic_prompts, k):
    return conj(len(original_prompts) == len(magic_prompts), disj(not_(inside(k, original_prompts)), derived(nth(original_prompts, k), nth(magic_prompts, k))))


def e_regen_len(result, original_prompts):
    return len(result) == len(original_prompts)


def blocked_pairs(regex, prompts):
    return [(i, prompt) for i, prompt in enumerate(prompts) if regex.search(prompt)]


def _blk(run, m, k):
    """(the term the code's list of blocked positions has, is position k blocked, what the list says about position k)"""
    self = run.frames[0].f["self"]
    rx = run.lift(self.f["_blocklist_regex"], Opt(Regex))
    r = Opt(Regex).val(rx)
    pairs = run.lift(run.call(blocked_pairs, [self.f["_blocklist_regex"], Sym(Seq(Str), m)], {}), Seq(Tup(Int, Str)))
    hit = z3.Not(Opt(Hit).is_none(uf("BLOCKED", Regex.sort(), z3.StringSort(), Opt(Hit).sort())(r, m[k])))
    run.assume(z3.Implies(z3.And(0 <= k, k < z3.Length(m), hit), z3.Length(pairs) > 0))  # a flat-map is no shorter than what position k adds
    return pairs, hit


def i_attempts(run, xs, p, original_prompts, magic_prompts, init_magic_prompts, indexed_prompts_to_regenerate, world_calls, k, done):
    """Between attempts: as many results as prompts, each derived from its prompt, unblocked ones untouched; attempts end
    early only when nothing is blocked."""
    o, k, m, m0 = run.lift(original_prompts, Seq(Str)), k.t, magic_prompts, init_magic_prompts
    n = z3.Length(o)
    ok = z3.And(0 <= k, k < n)
    pairs, hit = _blk(run, m, k)
    _p, hit0 = _blk(run, m0, k)
    return z3.And(
        z3.Length(m) == n, z3.Implies(ok, DERIVED(o[k], m[k])), z3.Implies(z3.And(ok, z3.Not(hit0)), m[k] == m0[k]),
        z3.Or(done == 0, done == 1), z3.Implies(done == 0, world_calls == z3.Length(p.t)),
        z3.Implies(done == 1, z3.And(indexed_prompts_to_regenerate == pairs, z3.Length(pairs) == 0)),
    )


def i_replacing(run, xs, p, original_prompts, magic_prompts, init_magic_prompts, regenerated_prompts, k, done):
    """While replacing: only blocked results are replaced, by results derived from the prompt at their own position."""
    o, k, m, m0 = run.lift(original_prompts, Seq(Str)), k.t, magic_prompts, init_magic_prompts
    _p, hit0 = _blk(run, m0, k)
    ok = z3.And(0 <= k, k < z3.Length(m0))
    return z3.And(done == 0, z3.Length(m) == z3.Length(m0), z3.Implies(ok, z3.Or(m[k] == m0[k], z3.And(hit0, DERIVED(o[k], m[k])))))


def e_regen_derived(result, original_prompts, k):
    return disj(not_(inside(k, original_prompts)), derived(nth(original_prompts, k), nth(result, k)))


def e_regen_kept(self, result, magic_prompts, k):
    return disj(not_(inside(k, magic_prompts)), is_blocked(self, nth(magic_prompts, k)), nth(result, k) == nth(magic_prompts, k))


def e_regen_clean(self, result, max_attempts, k):
    return disj(not_(inside(k, result)), not_(is_blocked(self, nth(result, k))), pipeline_calls() >= max_attempts)


def fuzz_regenerate(g):
    o = [g.rng.choice(["a", "bad", "x 1"]) for _ in range(g.rng.choice([0, 1, 2, 3]))]
    return dict(self=g.value(MAGIC), original_prompts=o, magic_prompts=[p + g.rng.choice(["", " bad", " good"]) for p in o], max_attempts=g.rng.choice([0, 1, 2, 3, 5]), k=g.rng.choice([-1, 0, 1, 2]))


def s_magic_generate(self, template, n, max_attempts):
    prompts = self._prompt_generator.generate(template, n)
    return self._regenerate_blocked_prompts(prompts, self._generate_magic_prompts(prompts), max_attempts)


def x_magic_generate(self, template, n, max_attempts):
    return self.generate(template, n, max_attempts=max_attempts)


def fuzz_magic(g):
    return dict(self=g.value(MAGIC), template=g.value(Str), n=g.rng.choice([0, 1, 2, 3]), max_attempts=g.rng.choice([0, 1, 2, 3]))


ATT = ObjK(AttentionGenerator, _generator=Inner, _min_attention=Real, _max_attention=Real)


def s_att_init(self, generator, min_attention, max_attention):
    self._generator = generator
    self._min_attention = min(min_attention, max_attention)
    self._max_attention = max(min_attention, max_attention)


def prep_attention(w):
    def chunks(run, a, k):
        run.w.assumed.add("find_noun_chunks: a tuple of texts determined by the text")
        return SeqV.sym(Sym(Seq(Str, "tuple"), uf("CHUNKS", z3.StringSort(), Seq(Str).sort())(run.lift(a[0], Str))))

    w.lib[id(find_noun_chunks)] = chunks
    w.keep.append(find_noun_chunks)


def s_emphasis(self, prompt):
    chunks = find_noun_chunks(prompt)
    if len(chunks) == 0:
        return prompt
    chunk = random.choice(chunks)
    weight = round(random.uniform(self._min_attention, self._max_attention), 2)
    return prompt.replace(chunk, f"({chunk}:{weight})")


def s_att_generate(self, template, n):
    return [self._add_emphasis(p) for p in self._generator.generate(template, n)]


def x_att_generate(self, template, n):
    return self.generate(template, n)


Found = Opaque("SearchResult")
Image = Opaque("FoundImage")


def prep_lucky(w):
    def query(run, a, k):
        run.w.assumed.add("query_lexica: fails, or answers a mapping whose 'images' is a list of mappings with a 'prompt' text")
        q = run.lift(a[0], Str)
        st = run.lift(run.world.f["inner"], IState)
        if run.branch(uf("LEXICA.fails", IState.sort(), z3.StringSort(), z3.BoolSort())(st, q)):
            run.raise_(Exception)
        return Sym(Found, uf("LEXICA", IState.sort(), z3.StringSort(), Found.sort())(st, q))

    w.lib[id(query_lexica)] = query
    w.keep.append(query_lexica)


def _found_item(run, a, k):
    if a[1] != "images":
        raise Unsupported(f"search result[{a[1]!r}]")
    return PList(run, SeqV.sym(Sym(Seq(Image), uf("images", Found.sort(), Seq(Image).sort())(run.lift(a[0], Found)))))


def _image_item(run, a, k):
    if a[1] != "prompt":
        raise Unsupported(f"image[{a[1]!r}]")
    return Sym(Str, uf("image_prompt", Image.sort(), z3.StringSort())(run.lift(a[0], Image)))


Found.methods = {"__getitem__": _found_item}
Image.methods = {"__getitem__": _image_item}


def s_lucky(self, search_query, num_prompts):
    q = self._generator.generate(search_query, 1)[0]
    if q.strip() == "":
        q = str(random.randint(0, 10000000))
    try:
        images = query_lexica(q)["images"]
        return [p["prompt"] for p in random.choices(images, k=num_prompts)]
    except Exception as e:
        raise GeneratorException from e


def e_lucky_len(result, num_prompts):
    return num_prompts < 0 or len(result) == num_prompts


# a rendering appends its prompt blocks to a list shared by all renderings of one call
Jinja = Opaque("JinjaTemplate")
Vars = Opaque("TemplateVariables")
JINJA = ObjK(JinjaGenerator, _context=Vars, _limit_prompts=Bool, _ignore_whitespace=Bool)


def jinja_world(run):
    inner_world(run)


def prep_jinja(w):
    from dynamicprompts.generators import jinjagenerator

    def build(run, a, k):
        run.w.assumed.add("_build_jinja_template: fails, or gives a template and an empty list of prompt blocks (Jinja2 itself is trusted)")
        t = run.lift(a[1], Str)
        if run.branch(uf("JINJA.bad", z3.StringSort(), z3.BoolSort())(t)):
            run.raise_(GeneratorException)
        blocks = PList(run, SeqV.sym(Sym(Seq(Str), z3.Empty(Seq(Str).sort()))))
        tpl = Sym(Jinja, uf("JINJA", z3.StringSort(), Jinja.sort())(t))
        run.blocks = blocks
        return (tpl, blocks)

    fn = jinjagenerator.JinjaGenerator._build_jinja_template
    w.lib[id(fn)] = build
    w.keep.append(fn)


def _render(run, a, k):
    st, t = run.lift(run.world.f["inner"], IState), run.lift(a[0], Jinja)
    run.w.assumed.add("rendering a template: a text, some further prompt blocks, determined by the template and the state of what it uses")
    out = uf("RENDER", Jinja.sort(), IState.sort(), z3.StringSort())(t, st)
    more = uf("RENDER_blocks", Jinja.sort(), IState.sort(), Seq(Str).sort())(t, st)
    run.set(run.world, "inner", Sym(IState, uf("RENDER_state", Jinja.sort(), IState.sort(), IState.sort())(t, st)))
    run.set(run.blocks, "v", run.blocks.f["v"] + SeqV.sym(Sym(Seq(Str), more)))
    return Sym(Str, out)


Jinja.methods = {"render": _render}


def s_jinja(self, template, num_prompts):
    tpl, blocks = self._build_jinja_template(template)
    texts = []
    for _ in range(num_prompts):
        texts.append(tpl.render())
    out = blocks if len(blocks) > 0 else texts
    if self._limit_prompts:
        out = out[:num_prompts]
    if self._ignore_whitespace:
        out = [" ".join(t.split()) for t in out]
    return out


def e_clean_derived(result, orig_prompt, prompt):
    """A continuation of the original keeps it, whatever the cleaning does to the rest."""
    return disj(not_(prompt.startswith(orig_prompt)), result.startswith(orig_prompt + " "))


def fuzz_clean(g):
    o = g.rng.choice(["", "a cat", "a {b} (c!)", "_x, ,y!!", " - "]) if g.rng.random() < 0.7 else g.value(Str)
    tail = "".join(g.rng.choice([", ", "!", "!!", " _ ", "{x}", "( y )", "word", " - ", ".", ";;z", "a", " "]) for _ in range(g.rng.choice([0, 2, 4, 7])))
    return dict(orig_prompt=o, prompt=g.rng.choice([o + tail, o + tail, tail]))


G = "dynamicprompts.generators."
Seeds = Union("Seeds", Int, Seq(Int))
CONTRACTS = [
    Contract(G + "dummygenerator:DummyGenerator.generate", dict(self=ObjK(DummyGenerator), template=Str, num_images=Int), spec=s_dummy, props=["C03"], at_call=False),
    Contract(G + "batched_combinatorial:BatchedCombinatorialPromptGenerator.generate",
             dict(self=ObjK(BatchedCombinatorialPromptGenerator, _generator=Inner, _batches=Int), template=Str, max_prompts=Int), spec=s_batched, props=["C03"], world=inner_world, at_call=False),
    Contract(G + "combinatorial:CombinatorialPromptGenerator.generate",
             dict(self=ObjK(CombinatorialPromptGenerator, _context=Ctx), template=Opt(Str), max_prompts=Opt(Int)), spec=s_combinatorial, props=["C03"], world=world, at_call=False),
    Contract(G + "randomprompt:RandomPromptGenerator.generate",
             dict(self=ObjK(RandomPromptGenerator, _context=Ctx), template=Opt(Str), num_images=Int, seeds=Opt(Seeds)), spec=s_random, requires=r_random, props=["C03", "C05"], world=world, at_call=False,
             prepare=lambda w: w.unions.append(Seeds)),
    Contract(G + "magicprompt:MagicPromptGenerator._generate_magic_prompts", dict(self=MAGIC, orig_prompts=Seq(Str)), spec=s_magic, ensures=dict(one_each=e_magic_len), internal=True, props=["C18"], world=inner_world, prepare=prep_magic),
    Contract(G + "magicprompt:MagicPromptGenerator._regenerate_blocked_prompts", dict(self=MAGIC, original_prompts=Seq(Str), magic_prompts=Seq(Str), max_attempts=Int),
             concrete_spec=s_regenerate, ghost=dict(k=Int), requires=r_regen, internal=True, props=["C18"], world=calls_world, prepare=prep_regenerate, frame=("magic_prompts",), fuzz=fuzz_regenerate,
             invariants=(i_attempts, i_replacing), ensures=dict(one_each=e_regen_len, derived=e_regen_derived, unblocked_kept=e_regen_kept, none_blocked=e_regen_clean), budget=120,
             call=fun_call("REGENERATE", dict(original_prompts=Seq(Str), magic_prompts=Seq(Str), max_attempts=Int), Seq(Str), world=True)),
    Contract(G + "magicprompt:MagicPromptGenerator.generate", dict(self=MAGIC, template=Str, n=Int, max_attempts=Int), spec=s_magic_generate, real=x_magic_generate, props=["C18"],
             world=inner_world, prepare=prep_magic, at_call=False, fuzz=fuzz_magic),
    Contract(G + "magicprompt:clean_up_magic_prompt", dict(orig_prompt=Str, prompt=Str), ensures=dict(keeps_original=e_clean_derived), props=["C18"], at_call=False, fuzz=fuzz_clean),
    Contract(G + "attentiongenerator:AttentionGenerator.__init__", dict(self=ATT, generator=Inner, min_attention=Real, max_attention=Real), spec=s_att_init, internal=True, props=["C18"], world=inner_world, frame=("self",), at_call=False),
    Contract(G + "attentiongenerator:AttentionGenerator._add_emphasis", dict(self=ATT, prompt=Str), spec=s_emphasis, props=["C18"], world=inner_world, prepare=prep_attention, internal=True,
             call=fun_call("EMPHASIS", dict(prompt=Str), Str, world=True)),
    Contract(G + "attentiongenerator:AttentionGenerator.generate", dict(self=ATT, template=Str, n=Int), spec=s_att_generate, real=x_att_generate, props=["C18"],
             world=inner_world, at_call=False),
    Contract(G + "feelinglucky:FeelingLuckyGenerator.generate", dict(self=ObjK(FeelingLuckyGenerator, _generator=Inner), search_query=Str, num_prompts=Int), spec=s_lucky, ensures=dict(number=e_lucky_len), props=["C18"],
             world=inner_world, prepare=prep_lucky, at_call=False, internal=True),
    Contract(G + "jinjagenerator:JinjaGenerator.generate", dict(self=JINJA, template=Str, num_prompts=Int), spec=s_jinja, props=["C03", "C19"], world=jinja_world, prepare=prep_jinja, at_call=False),
    Contract(G + "randomprompt:_get_random", dict(seed=Opt(Int), unlink_seed_from_prompt=Bool), spec=s_get_random, props=["C05"], world=rand_world, prepare=prep_random, fuzz=fuzz_get_random, internal=True),
    Contract(G + "randomprompt:RandomPromptGenerator.__init__",
             dict(self=ObjK(RandomPromptGenerator, _context=Ctx), wildcard_manager=WM, seed=Opt(Int), unlink_seed_from_prompt=Bool, ignore_whitespace=Bool, parser_config=Cfg),
             spec=s_random_init, internal=True, props=["C05", "C08", "C15"], world=rand_world, prepare=prep_random, frame=("self",), at_call=False),
    Contract(G + "combinatorial:CombinatorialPromptGenerator.__init__",
             dict(self=ObjK(CombinatorialPromptGenerator, _context=Ctx), wildcard_manager=WM, ignore_whitespace=Bool, parser_config=Cfg),
             spec=s_combinatorial_init, internal=True, props=["C02", "C08", "C15"], world=rand_world, prepare=prep_random, frame=("self",), at_call=False),
]
