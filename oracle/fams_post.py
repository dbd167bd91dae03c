"""C18: magic, attention and lucky generators over stand-ins for the language model and the search service."""
from __future__ import annotations

import random
import re
import sys
import types

from .core import Skip, family
from .util import differ

PROMPTS = ["a cat", "a dog, on a mat", "A.B (c)", "[x|y] z", "fox", "fox", "über-cat", "12 monkeys", "a+b*", "the red  house", "blocked dog", "", "cat!"]


class Fixed:
    """Inner generator returning given prompts; records its arguments."""

    def __init__(self, prompts):
        self.prompts, self.calls = prompts, []

    def generate(self, *a, **k):
        self.calls.append((a, k))
        return list(self.prompts)


class Pipe:
    """Stand-in for the model: the k-th continuation of a prompt is scripted."""

    def __init__(self, script):
        self.script, self.n, self.calls = script, {}, []

    def __call__(self, prompts, **kw):
        prompts = list(prompts)
        self.calls.append(prompts)
        out = []
        for p in prompts:
            k = self.n[p] = self.n.get(p, 0) + 1
            out.append([{"generated_text": p + self.script(p, k)}])
        return out


def magic(pipe, inner, **kw):
    from dynamicprompts.generators import magicprompt

    M = magicprompt.MagicPromptGenerator
    tr = types.ModuleType("transformers")

    class Any_:
        eos_token_id = 0
        pad_token_id = 0

        @property
        def config(self):
            return self

        @classmethod
        def from_pretrained(cls, *a, **k):
            return cls()

    tr.AutoTokenizer = tr.AutoModelForCausalLM = Any_
    tr.pipeline = lambda *a, **k: pipe
    tr.set_seed = lambda s: None
    M.generator = M.tokenizer = M.model = M._model_name = None
    sys.modules["transformers"] = tr
    try:
        return M(inner, **kw)
    finally:
        del sys.modules["transformers"]
        M.generator = M._model_name = None


def g18m(rng, i):
    ps = [rng.choice(PROMPTS) for _ in range(rng.randint(0, 6))]
    bad = {p: rng.choice([0, 0, 1, 2, 3, 5, 99]) for p in set(ps)}
    return {"ps": ps, "bad": bad, "max": rng.choice([None, 0, 1, 2, 3, 5]), "re": rng.choice(["zebra", "zebra", "ZEBRA", "ze.ra|nope", None]), "args": rng.random() < 0.5, "form": rng.choice(["num", "num", "same", "echo"])}


@family("C18", g18m, 500, 9000, chunk=100)
def magic_prompts(c):
    ps, bad = c["ps"], c["bad"]
    # every prompt text has its own continuation counter, so equal prompts share a script
    form = c["form"]

    def script(p, k):
        w = "zebra" if k <= bad[p] else "lion"
        if form == "same":
            return f" with {w}"
        if form == "echo":
            return f" {w} and {p} x"
        return f" with {w} {k} of w{len(p)}"

    if form == "echo" and any(not re.fullmatch(r"[a-z ]*", p) for p in ps):
        return None
    pipe = Pipe(script)
    inner = Fixed(ps)
    kw = {} if c["re"] is None else {"blocklist_regex": c["re"]}
    g = magic(pipe, inner, **kw)
    gk = {} if c["max"] is None else {"max_attempts": c["max"]}
    args, kws = (("t", 3), {"seeds": [1]}) if c["args"] else (("t",), {})
    got = g.generate(*args, **gk, **kws)
    if inner.calls != [(args, kws)]:
        return f"the inner generator was called as {inner.calls} instead of once with {(args, kws)}"
    if len(got) != len(ps):
        return f"{len(got)} results for {len(ps)} prompts"
    mx = 20 if c["max"] is None else c["max"]
    rx = re.compile(c["re"], re.I) if c["re"] else None
    # simulate: position-wise state
    n = {}

    def gen(p):
        k = n[p] = n.get(p, 0) + 1
        return p + script(p, k)

    cur = [gen(p) for p in ps]
    calls = [list(ps)]
    if rx:
        for _ in range(mx):
            idx = [j for j, x in enumerate(cur) if rx.search(x)]
            if not idx:
                break
            calls.append([ps[j] for j in idx])
            for j in idx:
                cur[j] = gen(ps[j])
    for j, (p, e, o) in enumerate(zip(ps, cur, got)):
        tail = e[len(p) :].strip()
        if o != f"{p} {tail}":
            return f"result {j} of {ps} is {o!r}, expected {p + ' ' + tail!r} (continuations {bad}, attempts {mx}, blocklist {c['re']})"
    # only prompts whose result is blocked are sent to the model again
    if ps and [sorted(x) for x in pipe.calls] != [sorted(x) for x in calls]:
        return f"the model was asked for {pipe.calls} instead of {calls}"


def g18b(rng, i):
    return {"ps": [rng.choice(PROMPTS) for _ in range(rng.randint(1, 5))], "seed": rng.randrange(10**6), "p": rng.choice([0.1, 0.5, 0.9]), "max": rng.choice([20, 3, 60])}


@family("C18", g18b, 200, 3000, chunk=50)
def magic_random_model(c):
    """Unless attempts run out no result matches; unblocked results keep their text."""
    rng = random.Random(c["seed"])
    log = []

    class P:
        def __call__(self, prompts, **kw):
            outs = []
            for p in prompts:
                w = "zebra" if rng.random() < c["p"] else "lion"
                outs.append(f"{p} {w}{rng.randrange(10**9)}")
            log.append((list(prompts), outs))
            return [[{"generated_text": o}] for o in outs]

    g = magic(P(), Fixed(c["ps"]), blocklist_regex="zebra")
    got = g.generate("t", max_attempts=c["max"])
    first = log[0][1]
    if len(got) != len(c["ps"]):
        return "wrong number of results"
    ran_out = len(log) - 1 >= c["max"]
    every = [set() for _ in c["ps"]]
    for prompts, outs in log:
        for j, p in enumerate(c["ps"]):
            every[j] |= {o for q, o in zip(prompts, outs) if q == p}
    for j, (p, f, o) in enumerate(zip(c["ps"], first, got)):
        ok = "zebra" not in f
        norm = lambda x: p + " " + x[len(p) :].strip()  # noqa: E731
        if ok and o != norm(f):
            return f"result {j} was not blocked ({f!r}) but became {o!r}"
        if o not in {norm(x) for x in every[j]}:
            return f"result {j} is {o!r}, not derived from its prompt {p!r}"
        if "zebra" in o and not ran_out:
            return f"result {j} is blocked: {o!r} after {len(log) - 1} of {c['max']} attempts"


def g18a(rng, i):
    alpha = ["a cat", "A Cat", "A CAT", "a  cat", "red fox", "12", "!!", "", "x", "dog (big)", "a, b, c", "...", "99, 100", "é ü", "1.5", "((a))", "cat cat, cat", "  lead", "new\nline, two"]
    return {"ps": [rng.choice(alpha) for _ in range(rng.randint(0, 6))], "lo": rng.choice([0.1, 0.5, 1.0, 1.5]), "hi": rng.choice([0.2, 0.9, 1.0, 2.0]), "seed": rng.randrange(10**6)}


@family("C18", g18a, 500, 9000, chunk=100)
def attention(c):
    from dynamicprompts.generators.attentiongenerator import AttentionGenerator

    random.seed(c["seed"])
    inner = Fixed(c["ps"])
    got = AttentionGenerator(inner, min_attention=c["lo"], max_attention=c["hi"]).generate("t", 2, seeds=[1])
    if inner.calls != [(("t", 2), {"seeds": [1]})]:
        return f"the inner generator was called as {inner.calls}"
    if len(got) != len(c["ps"]):
        return f"{len(got)} results for {len(c['ps'])} prompts"
    lo, hi = sorted((c["lo"], c["hi"]))
    import string

    for j, (p, o) in enumerate(zip(c["ps"], got)):
        chunks = [x for x in re.split(r"\s*[,;:.?!()]+\s*", p.strip()) if not x.isdigit() and not all(ch in string.punctuation for ch in x)]
        if not chunks:
            if o != p:
                return f"{p!r} has nothing to emphasise but became {o!r}"
            continue
        for a in {f"{round(v / 100, 2)}" for v in range(round(lo * 100) - 1, round(hi * 100) + 2)}:
            if any(o == p.replace(k, f"({k}:{a})") for k in chunks):
                break
        else:
            return f"result {j}: {o!r} does not emphasise a phrase of {p!r} by {lo}..{hi}"


def g18l(rng, i):
    return {
        "res": [rng.choice(["p1", "p2", "p3", "é", ""]) for _ in range(rng.randint(1, 5))], "n": rng.choice([0, 1, 2, 3, 10, 10, 120, 333]), "q": rng.choice(["cat", "", "  ", "a b"]),
        "mode": rng.choice(["ok", "ok", "ok", "http", "nokey", "empty", "badjson", "noprompt", "get", "notdict"]), "seed": rng.randrange(10**6), "inner": rng.random() < 0.5,
    }


class Boom(Exception):
    pass


@family("C18", g18l, 500, 6000, chunk=100)
def lucky(c):
    from dynamicprompts.generators import FeelingLuckyGenerator
    from dynamicprompts.generators.promptgenerator import GeneratorException

    rq = types.ModuleType("requests")
    mode = c["mode"]

    class Resp:
        status_code = 500 if mode == "http" else 200

        def raise_for_status(self):
            if mode == "http":
                raise Boom("500")

        def json(self):
            if mode == "badjson":
                raise ValueError("not json")
            if mode == "nokey":
                return {"error": "x"}
            if mode == "empty":
                return {"images": []}
            if mode == "noprompt":
                return {"images": [{"id": 1}]}
            if mode == "notdict":
                return None
            return {"images": [{"prompt": p, "id": j} for j, p in enumerate(c["res"])]}

    def get(url, *a, **k):
        if mode == "get":
            raise Boom("no network")
        return Resp()

    rq.get = get
    old = sys.modules.get("requests")
    sys.modules["requests"] = rq
    random.seed(c["seed"])
    try:
        inner = Fixed([c["q"]])
        g = FeelingLuckyGenerator(inner) if c["inner"] else FeelingLuckyGenerator()
        try:
            got = g.generate(c["q"], c["n"])
        except GeneratorException:
            got = None
    finally:
        if old is None:
            del sys.modules["requests"]
        else:
            sys.modules["requests"] = old
    if mode == "ok":
        if got is None:
            return "a successful search is reported as an error"
        if len(got) != c["n"]:
            return f"{len(got)} prompts instead of {c['n']}"
        if set(got) - set(c["res"]):
            return f"{got} are not all among {c['res']}"
        return None
    if got is not None and c["n"] > 0:
        return f"failure {mode!r} gives {got!r} instead of a generator error"
