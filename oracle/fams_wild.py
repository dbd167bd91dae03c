"""C09-C12, C17: wildcard names, lookup, caching, files and trees."""
from __future__ import annotations

import json
import os
import random
import shutil
import tempfile
from pathlib import Path

from .core import Skip, family
from .util import differ

WRAPS = ["__", "__", "__", "**"[:0] + "@@", "!", "<w>", "ab", "//", "___", "::"]


def coll(entries):
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection

    return ListWildcardCollection(entries)


def item(x):
    from dynamicprompts.wildcards.item import WildcardItem

    return x if isinstance(x, str) else WildcardItem(content=x[0], weight=x[1])


def show(x):
    return x if isinstance(x, str) else [x.content, x.weight]


def show_all(v):
    return [show(x) for x in v]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="dpv_")
        return Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# --------------------------------------------------------------------------------------------- reference
def ref_clean(w, wrap):
    if wrap and w[: len(wrap)] == wrap:
        w = w[len(wrap) :]
    if wrap and len(w) >= len(wrap) and w[len(w) - len(wrap) :] == wrap:
        w = w[: len(w) - len(wrap)]
    out = []
    for ch in w:
        if ch in "/\\":
            if not out or out[-1] != "/":
                out.append("/")
        else:
            out.append(ch)
    while out and out[0] == "/":
        del out[0]
    while out and out[-1] == "/":
        del out[-1]
    s = "".join(out)
    return None if ".." in s else s


def glob(name, pat):
    """* any text, ? one character, [seq], [!seq]."""
    if not pat:
        return not name
    c = pat[0]
    if c == "*":
        p = pat.lstrip("*")
        return any(glob(name[i:], p) for i in range(len(name) + 1))
    if not name:
        return False
    if c == "?":
        return glob(name[1:], pat[1:])
    if c == "[":
        j = pat.find("]", 2 if pat[1:2] != "!" else 3)
        if j > 0:
            body = pat[1:j]
            neg = body[:1] == "!"
            body = body[1:] if neg else body
            chars, k = set(), 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == "-":
                    chars |= {chr(o) for o in range(ord(body[k]), ord(body[k + 2]) + 1)}
                    k += 3
                else:
                    chars.add(body[k])
                    k += 1
            return (name[0] in chars) != neg and glob(name[1:], pat[j + 1 :])
    return name[0] == c and glob(name[1:], pat[1:])


def ref_values(colls, pattern, wrap, sort, dedup):
    """colls: ordered {name: entries (json)}."""
    p = ref_clean(pattern, wrap)
    vals = []
    if p is not None:
        for n, es in colls.items():
            if glob(n, p):
                vals += es
        if not vals:
            for n, es in colls.items():
                if glob(n, "**/" + p):
                    vals += es
    if dedup:
        out = []
        for v in vals:
            if v not in out:
                out.append(v)
        vals = out
    if sort:
        vals = sorted(vals, key=lambda v: v if isinstance(v, str) else v[0])
    return vals


# ------------------------------------------------------------------------------------------------- C09
def gname(rng, wrap="__"):
    segs = ["a", "b", "colors", "x-y", "n_1", "a b", "é", "..", "...", ".", "*", "a*", "", "__", "_", "w__z", "0", "[ab]", "?"]
    seps = ["/", "/", "/", "\\", "//", "\\/", "///"]
    s = rng.choice(["", "", "", wrap, wrap, "/", "\\", wrap + "/", wrap * 2, "_"])
    for k in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if k:
            s += rng.choice(seps)
        s += rng.choice(segs[:7] if rng.random() < 0.7 else segs)
    return s + rng.choice(["", "", "", wrap, wrap, "/", "\\", "/" + wrap, wrap * 2, "_"])


def g09(rng, i):
    fixed = ["", "__", "___", "____", "_____", "__..__", "a..b", "../x", "a/../b", "..", "a/..", ".", "./a", "__/a/__", "//a//b//", "\\a\\b", "a\\..\\b", "__a", "a__", "...", "a/b", "/", "__//__", "\\\\", "__a__b__", "a.b", ". .", "./.", ".\\."]
    w = rng.choice(WRAPS)
    return {"s": fixed[i] if i < len(fixed) else gname(rng, w), "w": "__" if i < len(fixed) else w}


@family("C09", g09, 800, 20000, chunk=200)
def cleaning(c):
    from dynamicprompts.wildcards.utils import clean_wildcard

    s, w = c["s"], c["w"]
    exp = ref_clean(s, w)
    try:
        got = clean_wildcard(s, wildcard_wrap=w)
    except ValueError:
        got = None
    return differ(f"clean_wildcard({s!r}, wildcard_wrap={w!r})", got, exp)


@family("C09", g09, 600, 15000, chunk=200)
def wrapping(c):
    from dynamicprompts.wildcards import WildcardManager

    s, w = c["s"], c["w"]
    m = WildcardManager(wildcard_wrap=w)
    t = m.to_wildcard(s)
    if not (t.startswith(w) and t.endswith(w)) or not m.is_wildcard(t):
        return f"to_wildcard({s!r}) = {t!r} is not a wildcard for wrap {w!r}"
    if m.to_wildcard(t) != t:
        return f"to_wildcard is not idempotent on {s!r}: {t!r} -> {m.to_wildcard(t)!r}"
    if not s.startswith(w) and not (w + s).endswith(w) and t != w + s + w:
        return f"to_wildcard({s!r}) = {t!r}"
    if m.is_wildcard(s) != (s.startswith(w) and s.endswith(w)):
        return f"is_wildcard({s!r}) = {m.is_wildcard(s)}"
    if s.startswith(w) and s.endswith(w) and t != s:
        return f"to_wildcard changes the wrapped {s!r} to {t!r}"


NAMES = ["a", "b", "a/b", "a/c", "colors", "d/colors", "d/e/colors", "d/e/x-y", "n_1", "a b", "é/a", "x/a b", "q/n_1"]


def values_or(m, s):
    return show_all(m.get_values(s))


def g09l(rng, i):
    w = rng.choice(["__", "__", "@@", "<w>"])
    names = rng.sample(NAMES, rng.randint(1, 8))
    s = rng.choice(names) if rng.random() < 0.35 else gname(rng, w)
    if rng.random() < 0.3:
        s = rng.choice(names).rsplit("/", 1)[-1]
    if rng.random() < 0.08:
        s = rng.choice([" ", "", "\t"]) + rng.choice(names) + rng.choice([" ", "", "\n"])
    return {"names": names, "s": s, "w": w, "k": rng.randrange(4)}


@family("C09", g09l, 500, 9000, chunk=100)
def lookups(c):
    from dynamicprompts.wildcards import WildcardManager

    w, s = c["w"], c["s"]
    mk = lambda: WildcardManager(wildcard_wrap=w, root_map={"": [{n: [f"{n}:1", f"{n}:2"] for n in c["names"]}]})  # noqa: E731
    m = mk()
    cl = ref_clean(s, w)
    r = None
    if cl is None:
        r = differ(f"values of {s!r}", values_or(m, s), []) or differ(f"collections of {s!r}", list(m.match_collections(s)), [])
        try:
            m.get_file(s)
        except (ValueError, KeyError):
            pass
        else:
            r = r or f"get_file({s!r}) is not refused"
        return r
    if cl == "":
        return None
    colls = {n: [f"{n}:1", f"{n}:2"] for n in c["names"]}
    r = differ(f"values of {s!r} among {c['names']}", values_or(m, s), ref_values(colls, s, w, True, True))
    if r:
        return r
    # wrapped and bare, in either order, on the same manager or on another one
    if not cl.startswith(w) and not cl.endswith(w):
        forms = [cl, m.to_wildcard(cl), w + cl, cl + w]
        want = None
        for j in range(4):
            f = forms[(j + c["k"]) % 4]
            for mm in (m, mk()):
                v = values_or(mm, f)
                if want is None:
                    want = v
                if v != want:
                    return f"lookup of {f!r} gives {v[:6]!r}, but of {forms[c['k'] % 4]!r} {want[:6]!r}"
        if cl in c["names"]:
            for f in forms:
                if list(m.get_file(f).get_values()) != colls[cl]:
                    return f"get_file({f!r}) is not the collection {cl!r}"
        else:
            try:
                m.get_file(s)
            except (KeyError, ValueError):
                pass
            else:
                return f"get_file({s!r}) returns a collection, but there is none of that name"


def g09e(rng, i):
    esc = ["../secret", "../secret/", "__../secret__", "..\\secret", "sub/../../secret", "sub/..\\..\\secret", "..", "../*", "**/../secret", "sub/../a", "./../secret", "/../secret", "//..//secret", "..//secret", "\\..\\secret", "__/../secret/__", ".../secret", "*/../secret", "sub/..", "s..b/secret", "/secret", "{abs}", "__{abs}__", "~/secret", "..%2fsecret"]
    return {"s": esc[i % len(esc)], "sort": i // len(esc) % 2 == 0, "tmpl": i // len(esc) % 3}


@family("C09", g09e, 75, 150)
def no_escape(c):
    from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
    from dynamicprompts.wildcards import WildcardManager

    with Scratch() as d:
        root = d / "root"
        (root / "sub").mkdir(parents=True)
        (d / "secret.txt").write_text("SECRET\n")
        (d / "secret").mkdir()
        (d / "secret" / "in.txt").write_text("SECRET\n")
        (root / "a.txt").write_text("va\n")
        (root / "sub" / "b.txt").write_text("vb\n")
        m = WildcardManager(root)
        s = c["s"].replace("{abs}", str(d / "secret"))
        if c["tmpl"]:
            g = (CombinatorialPromptGenerator if c["tmpl"] == 1 else RandomPromptGenerator)(m)
            try:
                vals = g.generate(s if s.startswith("__") else f"__{s}__", 4)
            except Exception:  # not a template
                vals = []
        else:
            vals = [str(v) for v in m.get_values(s)]
            if ref_clean(s, "__") is None and vals:
                return f"{s!r} contains '..' but has values {vals}"
            for f in m.match_collections(s):
                vals += [str(v) for v in f.get_values()]
            try:
                vals += [str(v) for v in m.get_file(s).get_values()]
            except (KeyError, ValueError):
                pass
        if any("SECRET" in v for v in vals):
            return f"{s!r} reads outside the root: {vals}"


# ------------------------------------------------------------------------------------------------- C10
VALS = ["red", "green", "blue", "Red", "é", "zeta", "10", "9", "a b", "_x", "red", ["red", 2.0], ["blue", 1.5], ["zeta", 0.0], ["green", 3.0], ["aa", 2.0]]
CN = ["a", "b", "aa", "ab", "d/a", "d/b", "d/e/a", "d/e/ab", "d/e/f/a", "x/a", "x/y", "colors", "d/colors", "A", "[z]", "d/x1", "d/x2"]
PATS = ["a", "b", "*", "**", "d/*", "*/a", "**/a", "d/**", "?", "d/?", "a*", "*b", "[ab]", "[!a]", "d/x[1-2]", "nope", "colors", "e/a", "f/a", "e/*", "y", "x?", "d/e", "__a__", "__d/*__", "/a", "a/", "d\\a", "d//a", "A", "**/x*", "*/*", "__*__", "[z]", "[[]z]", " a", "a ", " colors ", "d/a ", " d/*"]


def entries(rng):
    return [rng.choice(VALS) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]


def g10(rng, i):
    names = rng.sample(CN, rng.randint(1, 9))
    return {
        "c": {n: entries(rng) for n in names}, "p": rng.choice(PATS) if rng.random() < 0.8 else rng.choice(names),
        "sort": rng.random() < 0.5, "dedup": rng.random() < 0.5, "shuffle": rng.random() < 0.25, "late": rng.random() < 0.5,
    }


def key(v):
    return json.dumps(v)


@family("C10", g10, 900, 20000, chunk=200)
def values_of_pattern(c):
    from dynamicprompts.wildcards import WildcardManager

    m = WildcardManager(root_map={"": [{n: coll([item(x) for x in es]) for n, es in c["c"].items()}]})
    if c["late"]:
        m.get_values(c["p"])
    m.sort_wildcards = c["sort"]
    m.dedup_wildcards = c["dedup"]
    m.shuffle_wildcards = c["shuffle"]
    exp = ref_values(c["c"], c["p"], "__", c["sort"], c["dedup"])
    what = f"{c['p']!r} sort={c['sort']} dedup={c['dedup']} shuffle={c['shuffle']}"
    v = m.get_values(c["p"])
    got = show_all(v)
    if c["shuffle"]:
        return differ(what + " (as multiset)", sorted(got, key=key), sorted(exp, key=key)) or differ("len", len(v), len(exp))
    r = differ(what, got, exp) or differ("len", len(v), len(exp)) or differ("bool", bool(v), bool(exp))
    if r:
        return r
    if exp and (show(v[0]) != exp[0] or show(v[-1]) != exp[-1]):
        return f"{what}: indexing does not follow the values"
    return differ(what + " string values", list(v.string_values), [x if isinstance(x, str) else x[0] for x in exp])


def g10d(rng, i):
    return {"tree": gtree(rng), "p": rng.choice(PATS), "sort": rng.random() < 0.5, "dedup": rng.random() < 0.5, "roots": rng.choice([1, 1, 2])}


def gtree(rng):
    """{relative path: file text or JSON-able data}"""
    t = {}
    for n in rng.sample(CN[:13], rng.randint(1, 6)):
        k = rng.choice(["txt", "txt", "json", "yaml"])
        if k == "txt":
            t[n + ".txt"] = "\n".join(rng.choice(["red", "  blue ", "# no", "", "green", "a # b", "2::x"]) for _ in range(rng.randint(0, 5)))
        else:
            t[n + "_s." + k] = gdata(rng, 2)
    return t


def gdata(rng, depth):
    d = {}
    for _ in range(rng.randint(0, 3)):
        nme = rng.choice(["k1", "k2", "sub", "a", "x y"])
        r = rng.random()
        if depth and r < 0.3:
            d[nme] = gdata(rng, depth - 1)
        elif r < 0.4:
            d[nme] = rng.choice(["one text", "3::w", "", None, 5, True, 0, []])
        else:
            d[nme] = glist(rng)
    return d


def glist(rng):
    out = []
    for _ in range(rng.randint(0, 5)):
        out.append(rng.choice([
            "red", "blue", "a :: b", "2::two", "0.5::half", "3::", "x::y", "1::2::z", "10 :: q", "", None, 7, ["l"], 0,
            {"text": "t1", "weight": 2}, {"content": "c1", "weight": 1}, {"text": "t2"}, {"text": "t3", "weight": "3.5"}, {"content": "c2", "weight": 0.25},
            {"text": "bad", "weight": "abc"}, {"weight": 3}, {}, {"text": "nul", "weight": None}, {"text": "", "content": "fb", "weight": 4}, {"text": "lst", "weight": [1]},
            "²::sq", "# not a comment", " spaced ", {"text": "w1", "weight": 1.0}, True,
        ]))
    return out


def ref_entry(e):
    """None if skipped."""
    if not e:
        return None
    if isinstance(e, str):
        if e[0].isdigit() and "::" in e:
            i = e.rindex("::")
            try:
                return [e[i + 2 :], float(e[:i])]
            except ValueError:
                return e
        return e
    if isinstance(e, dict):
        w = e.get("weight", 1)
        if isinstance(w, (list, dict)) or w is None:
            return None
        try:
            w = float(w)
        except ValueError:
            return None
        t = e.get("text") or e.get("content")
        if not t:
            return None
        return t if w == 1 else [t, w]
    return None


def ref_data(data, prefix=()):
    out = {}
    for k, v in data.items():
        if not isinstance(k, str) or not v:
            continue
        p = (*prefix, k)
        if isinstance(v, str):
            v = [v]
        if isinstance(v, list):
            out["/".join(p)] = [x for x in map(ref_entry, v) if x is not None]
        elif isinstance(v, dict):
            out.update(ref_data(v, p))
    return out


def ref_text(text):
    out = []
    for ln in text.replace("\r\n", "\n").replace("\r", "\n").split("\n"):
        ln = ln.strip()
        if ln and not ln.startswith("#"):
            out.append(ln)
    return out


def write_tree(root, tree):
    import yaml

    for rel, content in tree.items():
        p = root / rel
        p.parent.mkdir(parents=True, exist_ok=True)
        if rel.endswith(".json"):
            p.write_text(json.dumps(content), encoding="utf-8")
        elif rel.endswith(".yaml"):
            p.write_text(yaml.safe_dump(content, allow_unicode=True), encoding="utf-8")
        else:
            p.write_bytes(content.encode("utf-8"))


def ref_tree(tree):
    """{name: entries}; names given by several files are left out (None)."""
    out = {}

    def put(n, v):
        out[n] = None if n in out else v

    for rel, content in tree.items():
        if rel.endswith(".txt"):
            put(rel[:-4], ref_text(content))
            continue
        if not rel.endswith((".json", ".yaml")):
            continue
        d = os.path.dirname(rel)
        if isinstance(content, dict):
            for n, v in ref_data(content).items():
                put((d + "/" if d else "") + n, v)
        elif isinstance(content, list):
            v = [x for x in content if isinstance(x, str)]
            if v:
                put(rel.rsplit(".", 1)[0], v)
    return out


@family("C10", g10d, 200, 3000, chunk=50)
def values_from_disk(c):
    from dynamicprompts.wildcards import WildcardManager

    colls = ref_tree(c["tree"])
    if None in colls.values():
        return None
    with Scratch() as d:
        write_tree(d, c["tree"])
        if c["roots"] == 2:
            m = WildcardManager(root_map={"": [d], "r": [d]})
            colls = {**colls, **{"r/" + k: v for k, v in colls.items()}}
        else:
            m = WildcardManager(d)
        m.sort_wildcards, m.dedup_wildcards = c["sort"], c["dedup"]
        r = differ("collection names", sorted(m.get_collection_names()), sorted(colls))
        if r:
            return r
        for p in [c["p"], *colls]:
            exp = ref_values(colls, p, "__", c["sort"], c["dedup"])
            got = values_or(m, p)
            # files come in directory order: compare the order only where it is determined
            r = differ(f"{p!r} (as multiset)", sorted(got, key=key), sorted(exp, key=key))
            if not r and c["sort"]:
                r = differ(f"{p!r} texts", [x if isinstance(x, str) else x[0] for x in got], [x if isinstance(x, str) else x[0] for x in exp])
            if not r and p in colls and sum(glob(n, p) for n in colls) == 1:
                r = differ(f"{p!r}", got, exp) if colls[p] else None
            if r:
                return r


# ------------------------------------------------------------------------------------------------- C11
def g11(rng, i):
    names = rng.sample(CN, rng.randint(2, 8))
    ops = []
    for _ in range(rng.randint(3, 25)):
        r = rng.random()
        if r < 0.5:
            ops.append(["get", rng.choice(PATS) if rng.random() < 0.5 else rng.choice(names)])
        elif r < 0.6:
            ops.append(["sort", rng.random() < 0.5])
        elif r < 0.7:
            ops.append(["dedup", rng.random() < 0.5])
        elif r < 0.8:
            ops.append(["shuffle", rng.random() < 0.5])
        elif r < 0.85:
            ops.append(["clear"])
        elif r < 0.9:
            ops.append(["all", rng.choice(names)])
        elif r < 0.93:
            ops.append(["many", rng.choice([90, 99, 100, 101, 102, 130])])
        elif r < 0.97:
            ops.append(["sample", rng.choice(names)])
        else:
            ops.append(["match", rng.choice(PATS)])
    return {"c": {n: entries(rng) for n in names}, "ops": ops, "roots": rng.random() < 0.2}


@family("C11", g11, 500, 10000, chunk=50)
def histories(c):
    from dynamicprompts.wildcards import WildcardManager

    items = {n: [item(x) for x in es] for n, es in c["c"].items()}
    before = {n: show_all(v) for n, v in items.items()}

    def mk():
        return WildcardManager(root_map={"": [{n: coll(v) for n, v in items.items()}]})

    m = mk()
    opt = {"sort": True, "dedup": True, "shuffle": False}
    handed = []
    hist = []
    for op in c["ops"]:
        hist.append(op)
        k = op[0]
        if k == "sort":
            m.sort_wildcards = opt["sort"] = op[1]
        elif k == "dedup":
            m.dedup_wildcards = opt["dedup"] = op[1]
        elif k == "shuffle":
            m.shuffle_wildcards = opt["shuffle"] = op[1]
        elif k == "clear":
            m.clear_cache()
        elif k == "many":
            for j in range(op[1]):
                m.get_values(f"nothing{j}")
        elif k == "match":
            list(m.match_collections(op[1]))
        elif k == "sample":
            v = m.get_values(op[1])
            if v:
                from itertools import islice

                list(islice(v.get_weighted_random_generator(random.Random(1)), 3)) if any(getattr(x, "weight", 1) for x in v) else None
                list(v.iterate_string_values_weighted())
                handed.append((v, show_all(v), op))
        else:
            name = op[1]
            exp = ref_values(c["c"], name, "__", opt["sort"], opt["dedup"])
            if k == "all":
                got = list(m.get_all_values(name))
                exp = [x if isinstance(x, str) else x[0] for x in exp]
            else:
                v = m.get_values(name)
                got = show_all(v)
                handed.append((v, list(got), op))
            if opt["shuffle"]:
                got, exp = sorted(got, key=key), sorted(exp, key=key)
            r = differ(f"after {hist}: lookup of {name!r} with {opt}", got, exp)
            if r:
                return r
        if m.sort_wildcards != opt["sort"] or m.dedup_wildcards != opt["dedup"] or m.shuffle_wildcards != opt["shuffle"]:
            return f"after {hist}: options are not {opt}"
    for v, was, op in handed:
        if show_all(v) != was:
            return f"the result of {op} changed from {was} to {show_all(v)} in {c['ops']}"
    if {n: show_all(v) for n, v in items.items()} != before:
        return "a collection's entries changed"


def g11t(rng, i):
    line = lambda: rng.choice(["red", " blue", "# c", "", "é", "x y", "green"])  # noqa: E731
    txt = lambda: "\n".join(line() for _ in range(rng.randint(0, 5)))  # noqa: E731
    ops = [[rng.choice(["get", "get", "write", "write", "read", "mget", "clear"]), rng.randrange(2), txt()] for _ in range(rng.randint(2, 14))]
    return {"init": [txt(), txt()], "ops": ops}


@family("C11", g11t, 200, 3000, chunk=50)
def rewriting(c):
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.collection import WildcardTextFile

    with Scratch() as d:
        for j, t in enumerate(c["init"]):
            (d / f"f{j}.txt").write_text(t, encoding="utf-8", newline="")
        m = WildcardManager(d)
        fs = [WildcardTextFile(d / "f0.txt"), m.get_file("f1")]
        now = list(c["init"])
        handed = []
        for j, (op, k, t) in enumerate(c["ops"]):
            what = f"step {j} of {[o[:2] for o in c['ops']]}"
            if op == "get":
                v = fs[k].get_values()
                r = differ(what, list(v), ref_text(now[k]))
                handed.append((v, list(v)))
                if r:
                    return r
            elif op == "write":
                fs[k].write_text(t)
                now[k] = t
            elif op == "read":
                r = differ(what, fs[k].read_text(), now[k])
                if r:
                    return r
            elif op == "clear":
                m.clear_cache()
                fs[1] = m.get_file("f1")
            else:
                m.clear_cache()
                r = differ(what + " through the manager", sorted(str(v) for v in m.get_values("f1")), sorted(set(ref_text(now[1]))))
                fs[1] = m.get_file("f1")
                if r:
                    return r
        for v, was in handed:
            if list(v) != was:
                return f"an earlier result changed from {was} to {v}"


# ------------------------------------------------------------------------------------------------- C12
def g12(rng, i):
    alpha = ["red", "blue sky", "#c", "# comment", " # indented", "\t#t", "\u00a0# no-break", "\x0c#ff", "\u3000#wide", "a # b", "a#b", "", " ", "\t", "  lead", "trail  ", "\u3000", "é", "{a|b}", "__w__", "::", "2::x", "//x", "\ufeffbom", "\x0b", "x\x0by", "x\x1cy", "x\u2028y", "x\x85y", "$", "##", "'"]
    return {"lines": [rng.choice(alpha) for _ in range(rng.randint(0, 8))], "nl": rng.choice(["\n", "\n", "\r\n", "\r"]), "end": rng.random() < 0.5}


@family("C12", g12, 500, 10000, chunk=100)
def text_files(c):
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.collection import WildcardTextFile

    text = c["nl"].join(c["lines"]) + (c["nl"] if c["end"] else "")
    exp = ref_text(text)
    with Scratch() as d:
        (d / "f.txt").write_bytes(text.encode("utf-8"))
        f = WildcardTextFile(d / "f.txt")
        r = differ(f"lines of {text!r}", list(f.get_values()), exp) or differ("second read", list(f.get_values()), exp)
        if r:
            return r
        m = WildcardManager(d)
        m.sort_wildcards = m.dedup_wildcards = False
        return differ("through the manager", [str(x) for x in m.get_values("f")], exp)


def g12s(rng, i):
    r = rng.random()
    if r < 0.75:
        data = gdata(rng, 3)
        if rng.random() < 0.2:
            data = {**data, "big": glist(rng) + glist(rng) + glist(rng)}
    elif r < 0.95:
        data = [rng.choice(["x", "2::y", "  z ", "#c", 5, None, {"text": "t"}, "a"]) for _ in range(rng.randint(0, 5))]
    else:
        data = rng.choice(["text", 5, None, True])
    return {"data": data, "ext": rng.choice(["json", "yaml"]), "dir": rng.choice(["", "d/", "d/e/"]), "intkey": rng.random() < 0.1}


@family("C12", g12s, 700, 12000, chunk=100)
def structured_files(c):
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.collection.structured import parse_structured_file

    data = c["data"]
    if c["intkey"] and c["ext"] == "yaml" and isinstance(data, dict):
        data = {**data, 3: ["int"], "last": ["z"]}
    with Scratch() as d:
        rel = c["dir"] + "file." + c["ext"]
        write_tree(d, {rel: data})
        if isinstance(data, dict):
            exp = ref_data(data)
        elif isinstance(data, list):
            v = [x for x in data if isinstance(x, str)]
            exp = {"file": v} if v else {}
        else:
            exp = {}
        got = {n: show_all(f.get_values()) for n, f in parse_structured_file(d / rel)}
        r = differ(f"{data!r}: names", sorted(got), sorted(exp))
        for n in exp:
            r = r or differ(f"{data!r}: entries of {n!r}", got[n], exp[n])
        if r:
            return r
        m = WildcardManager(d)
        r = differ("names in the tree", sorted(m.get_collection_names()), sorted(c["dir"] + n for n in exp))
        for n in exp:
            r = r or differ(f"{n!r} through the tree", show_all(m.get_file(c["dir"] + n).get_values()), exp[n])
        return r


# ------------------------------------------------------------------------------------------------- C17
SEG = ["a", "b", "c", "a b", "x", "é", "a.b", "1", "_"]


def gnames(rng, n):
    out = []
    while len(out) < n:
        s = "/".join(rng.choice(SEG) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        if s not in out:
            out.append(s)
    return out


def g17(rng, i):
    return {"n": gnames(rng, rng.randint(0, 9)), "probe": gnames(rng, 3), "p": rng.choice(["*", "a*", "*/b", "a/*", "**/a", "?", "a/?", "*b*", "[ab]", "a/b/*"])}


def check_tree(tree, colls, probes, p):
    """colls: ordered {name: collection object}."""
    from dynamicprompts.wildcards.tree import WildcardTree

    r = differ("names", list(tree.get_collection_names()), list(colls)) or differ("map", list(tree.map), list(colls))
    if r:
        return r
    for n, o in colls.items():
        if tree.get_collection(n) is not o:
            return f"get_collection({n!r}) is not the collection registered under that name"
    near = [v for n in colls for v in (n.upper(), n.lower(), n.swapcase(), n + "/", "/" + n, n + " ", n[:-1], n.rsplit("/", 1)[0], n.rsplit("/", 1)[-1])]
    for n in [*probes, *near]:
        if n not in colls:
            try:
                tree.get_collection(n)
            except KeyError:
                pass
            else:
                return f"get_collection({n!r}) finds something"
    exp = [n for n in colls if glob(n, p)]
    ids = {id(o): n for n, o in colls.items()}
    r = differ(f"match {p!r}", [ids.get(id(x)) for x in tree.match_collections(p)], exp)
    if r:
        return r
    walked = list(tree.root.walk_items())
    r = differ("walk", sorted(n for n, _ in walked), sorted(colls)) or differ("walked names", sorted(tree.root.walk_full_names()), sorted(colls))
    if r:
        return r
    for n, o in walked:
        if colls[n] is not o:
            return f"walking visits the wrong collection under {n!r}"
    t2 = WildcardTree(tree.root)
    if {n: id(o) for n, o in t2.map.items()} != {n: id(o) for n, o in colls.items()}:
        return f"a tree built from the nodes knows {sorted(t2.map)} instead of {sorted(colls)}"

    def nodes(node, path):
        if node.path != path:
            return f"node at {path!r} has path {node.path!r}"
        for n in node.collections:
            q = f"{path}/{n}" if path else n
            if node.qualify_name(n) != q or q not in colls or dict(node.get_items()).get(q) is not colls[q] or q not in list(node.get_full_names()):
                return f"node {path!r}: collection {n!r} is not {q!r}"
        for n, ch in node.child_nodes.items():
            r = nodes(ch, f"{path}/{n}" if path else n)
            if r:
                return r

    return nodes(tree.root, "")


@family("C17", g17, 700, 12000, chunk=100)
def from_map(c):
    from dynamicprompts.wildcards.tree import WildcardTree

    colls = {n: coll([n]) for n in c["n"]}
    src = dict(colls)
    tree = WildcardTree.from_map(src)
    r = check_tree(tree, colls, c["probe"], c["p"])
    if r:
        return f"map of {c['n']}: {r}"
    src["zz/later"] = coll(["late"])
    if "zz/later" in tree.map:
        return "the tree changes when the map it was built from changes"


def g17r(rng, i):
    roots = []
    pool = gnames(rng, 5)
    for r in rng.sample(["", "", "r", "r/s", "a", "a/b"], rng.randint(1, 4)):
        if any(r == q for q, _ in roots):
            continue
        roots.append([r, [rng.sample(pool, rng.randint(0, 4)) for _ in range(rng.randint(1, 3))]])
    return {"roots": roots, "p": rng.choice(["*", "a*", "*/b", "r/*", "**/a", "r/s/*", "a/b/*"]), "probe": gnames(rng, 3), "lists": rng.random() < 0.3}


@family("C17", g17r, 500, 9000, chunk=100)
def from_root_map(c):
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.tree import build_tree_from_root_map

    colls, rm, k = {}, {}, 0
    for root, its in c["roots"]:
        rm[root] = []
        for names in its:
            d = {}
            for n in names:
                k += 1
                d[n] = [[f"v{k}", k], [], ["b", "a", "b", f"v{k}", ""], [f"v{k}"]][k % 4] if c["lists"] else coll([f"v{k}"])
                colls[f"{root}/{n}" if root else n] = d[n]
            rm[root].append(d)
    if c["lists"]:
        m = WildcardManager(root_map=rm)
        r = differ("names", sorted(m.get_collection_names()), sorted(colls))
        for n, es in colls.items():
            r = r or differ(f"{n!r}", list(m.get_file(n).get_values()), [str(x) for x in es])
        return r
    r = check_tree(build_tree_from_root_map(rm), colls, c["probe"], c["p"])
    if r:
        return f"root map {c['roots']}: {r}"
    m = WildcardManager(root_map=rm)
    r = differ("names", sorted(m.get_collection_names()), sorted(colls))
    for n, o in colls.items():
        if m.get_file(n) is not o:
            return f"get_file({n!r}) is another collection"
    return r


def g17d(rng, i):
    t = {}
    for n in gnames(rng, rng.randint(1, 6)):
        k = rng.choice([".txt", ".txt", ".json", ".yaml", ".md", ".TXT"])
        f = n + k
        if k in (".json", ".yaml"):
            t[f] = rng.choice([{"k": ["v"]}, {"k": {"l": ["v"], "m": ["w"]}}, ["v"], {"k/l": ["v"]}])
        else:
            t[f] = "value of " + n
    if rng.random() < 0.3:
        t[".hid/a.txt"] = "hidden"
    return {"tree": t, "p": rng.choice(["*", "a*", "*/b", "a/*", "**/a"]), "probe": gnames(rng, 2), "root": rng.choice(["", "r", "r/s"])}


@family("C17", g17d, 200, 3000, chunk=50)
def from_disk(c):
    from dynamicprompts.wildcards import WildcardManager

    tree = {k: v for k, v in c["tree"].items() if not k.startswith(".hid")}
    colls = ref_tree(tree)
    if None in colls.values() or any("//" in n or n.startswith("/") for n in colls):
        return None
    if any(a != b and (a.startswith(b + "/")) for a in c["tree"] for b in c["tree"]):
        return None
    with Scratch() as d:
        write_tree(d, c["tree"])
        m = WildcardManager(root_map={c["root"]: [d]}) if c["root"] else WildcardManager(d)
        pre = c["root"] + "/" if c["root"] else ""
        names = [pre + n for n in colls]
        r = differ("names", sorted(m.get_collection_names()), sorted(names))
        if r:
            return r
        t = m.tree
        objs = {n: t.get_collection(n) for n in t.get_collection_names()}
        r = check_tree(t, objs, c["probe"], c["p"])
        for n in colls:
            r = r or differ(n, show_all(m.get_file(pre + n).get_values()), colls[n])
        return r
