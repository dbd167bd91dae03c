"""Structured (JSON/YAML) wildcard files: lists of entries.

Entries are strings, numbers, null or mappings; a mapping is seen through `get` (its text and content are
texts or null, its weight anything a scalar can be) — mappings whose text is not a text are outside C12."""
from __future__ import annotations

import atexit
import json
import os
import shutil
import tempfile
from pathlib import Path

import yaml

from dynamicprompts.wildcards.collection import structured as STRUCT
from dynamicprompts.wildcards.collection.list import ListWildcardCollection
from dynamicprompts.wildcards.collection.text_file import WildcardTextFile
from dynamicprompts.wildcards.item import WildcardItem
from pyvc.contract import Contract
from pyvc.values import PGen, PList, SeqV, Sym, Unsupported

from .c_wild import FS, Coll, PathK, files

from .model import *  # noqa

Weight = Union("JsonWeight", Bool, Real, Str)
Mapping = Opaque("JsonMapping", dict)
Json = Union("JsonEntry", Str, Bool, Real, K.NoneKind, Mapping)
Parsed = Union("ParsedEntry", Str, Item)


def _get(run, a, k):
    key = a[1]
    if not isinstance(key, str) or key not in ("text", "content", "weight"):
        raise Unsupported(f"JsonMapping.get({key!r})")
    vk = Weight if key == "weight" else Str
    t = uf(f"JSON.{key}", Mapping.sort(), Opt(Opt(vk)).sort())(run.lift(a[0], Mapping))
    if run.branch(Opt(Opt(vk)).is_none(t)):
        return a[2] if len(a) > 2 else k.get("default")
    t = Opt(Opt(vk)).val(t)
    if run.branch(Opt(vk).is_none(t)):
        return None
    return run.value_of(vk, Opt(vk).val(t))


def _has(run, a, k):
    vk = Weight if a[1] == "weight" else Str
    if not isinstance(a[1], str) or a[1] not in ("text", "content", "weight"):
        raise Unsupported(f"{a[1]!r} in JsonMapping")
    return Sym(Bool, z3.Not(Opt(Opt(vk)).is_none(uf(f"JSON.{a[1]}", Mapping.sort(), Opt(Opt(vk)).sort())(run.lift(a[0], Mapping)))))


def _index(run, a, k):
    if not run.truth(_has(run, a, k)):
        run.raise_(KeyError)
    return _get(run, a, k)


def _nonempty(run, a, k):
    other = uf("JSON.other keys", Mapping.sort(), z3.BoolSort())(run.lift(a[0], Mapping))
    return Sym(Bool, z3.Or(other, *[_has(run, [a[0], key], {}).t for key in ("text", "content", "weight")]))


Mapping.methods = {"get": _get, "__contains__": _has, "__getitem__": _index, "__bool__": _nonempty}


def _mapping(g):
    r, out = g.rng, {}
    keys = ["text", "content", "weight", "other"]
    r.shuffle(keys)
    for key in keys[: r.choice([0, 1, 2, 2, 3, 4])]:
        out[key] = r.choice([None, "", g.value(Str), g.value(Str)]) if key != "weight" else r.choice([None, True, 0, 1, 2.5, 0.25, "3", "1.5", "x", " 2 ", "1"])
    return out


Mapping.concrete = _mapping


def _entry(g):
    r = g.rng
    if r.random() < 0.5:
        return r.choice(["", "1", "2", "0.5", "1.2.3", "x", "٣", "²", " 1", "1 "]) + r.choice(["", ":", "::", "::::", " :: "]) + g.value(Str) + r.choice(["", "", "::a"])
    return g.value(Json)


def s_list(value):
    for item in value:
        if isinstance(item, str):
            if item == "":
                continue
            if item[0].isdigit() and "::" in item:
                w, _, text = item.rpartition("::")
                try:
                    weight = float(w)
                except ValueError:
                    yield item
                else:
                    yield WildcardItem(content=text, weight=weight)
            else:
                yield item
        elif isinstance(item, dict):
            try:
                weight = float(item.get("weight", 1))
            except (TypeError, ValueError):
                continue
            text = item.get("text")
            if not text:
                text = item.get("content")
            if text:
                if weight == 1:
                    yield text
                else:
                    yield WildcardItem(content=text, weight=weight)


# ------------------------------------------------------------------------------------------------ whole files
JsonKey = Union("JsonKey", Str, Real, K.NoneKind)
Obj = Opaque("JsonObject", dict)
JVal = Union("JsonValue", Str, Bool, Real, K.NoneKind, Seq(Json), Obj)
Pairs = Seq(Tup(JsonKey, JVal))
Found = Seq(Tup(Str, Coll), "gen")
Prefix = Seq(Str, "tuple")


def _items(run, a, k):
    return PList(run, SeqV.sym(Sym(Pairs, uf("JSON.items", Obj.sort(), Pairs.sort())(run.lift(a[0], Obj)))))


def _any(run, a, k):
    return Sym(Bool, z3.Length(uf("JSON.items", Obj.sort(), Pairs.sort())(run.lift(a[0], Obj))) > 0)


Obj.methods = {"items": _items, "__bool__": _any}


def _object(g, depth=2):
    r, out = g.rng, {}
    for _ in range(r.choice([0, 1, 2, 3])):
        key = r.choice(["a", "b", "a/b", "x", "c d", "", "1", 2, None, True, 1.5])
        out[key] = r.choice([
            lambda: g.value(Str), lambda: "", lambda: None, lambda: 3, lambda: True, lambda: [_entry(g) for _ in range(r.choice([0, 1, 2]))],
            lambda: ["v"], lambda: _object(g, depth - 1) if depth else {}, lambda: _object(g, depth - 1) if depth else {},
        ])()
    return out


Obj.concrete = _object


def prep_files(w):
    union_world(w)
    w.unions += [JsonKey, JVal]

    def new_list(run, a, k):
        e = a[0] if a else k["entries"]
        t = run.lift(e, Seq(Parsed))
        return Sym(Coll, uf("ENTRIES_COLLECTION", Seq(Parsed).sort(), Coll.sort())(t))

    w.lib[id(ListWildcardCollection)] = new_list
    w.keep.append(ListWildcardCollection)


def s_dict(data, file_path, prefix):
    for key, value in data.items():
        if isinstance(key, str) and value:
            path = (*prefix, key)
            if isinstance(value, str):
                entries = list(STRUCT._parse_structured_file_list([value]))
                yield "/".join(path), ListWildcardCollection(entries=entries, source=(file_path, "/".join(path)))
            elif isinstance(value, list):
                entries = list(STRUCT._parse_structured_file_list(value))
                yield "/".join(path), ListWildcardCollection(entries=entries, source=(file_path, "/".join(path)))
            elif isinstance(value, dict):
                for found in STRUCT._parse_structured_file_dict(value, file_path=file_path, prefix=path):
                    yield found


Top = Union("JsonDocument", Obj, Seq(Json), Str, Real, K.NoneKind)


def _part(name, kind):
    return lambda run, a, k: Sym(kind, uf("PATH." + name, PathK.sort(), kind.sort())(run.lift(a[0], PathK)))


PathK.fields = {**getattr(PathK, "fields", {}), "suffix": Str, "name": Str, "stem": Str}


def _with_suffix(run, a, k):
    return Sym(PathK, uf("PATH.with_suffix", PathK.sort(), z3.StringSort(), PathK.sort())(run.lift(a[0], PathK), run.lift(a[1], Str)))


PathK.methods = {**PathK.methods, "with_suffix": _with_suffix}


def prep_document(w):
    prep_files(w)
    w.unions.append(Top)

    def load(name):
        def h(run, a, k):
            run.w.assumed.add(f"{name}: fails, or gives a document determined by the text")
            t = run.lift(a[0], Str)
            if run.branch(uf(f"{name}.fails", z3.StringSort(), z3.BoolSort())(t)):
                run.raise_(ValueError)
            return Sym(Top, uf(name, z3.StringSort(), Top.sort())(t))

        return h

    import yaml

    w.lib[id(json.loads)] = load("json.loads")
    w.lib[id(yaml.safe_load)] = load("yaml.safe_load")
    w.keep += [json.loads, yaml.safe_load]


def r_document(file_path):
    return file_path.suffix == ".json" or file_path.suffix == ".yaml"


def s_document(file_path):
    text = file_path.read_text(encoding="utf-8")
    if file_path.suffix == ".yaml":
        data = yaml.safe_load(text)
    else:
        data = json.loads(text)
    if isinstance(data, dict):
        return list(STRUCT._parse_structured_file_dict(data, file_path=file_path, prefix=()))
    if isinstance(data, list):
        texts = [e for e in data if isinstance(e, str)]
        if len(texts) > 0:
            return [(file_path.with_suffix("").name, ListWildcardCollection(entries=texts, source=file_path))]
    return []


def same_pairs(run, a, b):
    return run.seq_term(run.iter_seq(a), Tup(Str, Coll)) == run.seq_term(run.iter_seq(b), Tup(Str, Coll))


def fuzz_dict(g):
    return dict(data=_object(g), file_path=Path("f.json"), prefix=tuple(g.rng.choice([[], ["p"], ["p", "q"]])))


# ------------------------------------------------------------------------------------------------ one file of a tree
def _path_fn(name, *extra):
    def h(run, a, k):
        ts = [run.lift(a[0], PathK)] + [run.lift(x, kk) for x, kk in zip(a[1:], extra)]
        return Sym(PathK, uf("PATH." + name, *[t.sort() for t in ts], PathK.sort())(*ts))

    return h


PathK.fields = {**PathK.fields, "parent": PathK}
PathK.methods = {**PathK.methods, "relative_to": _path_fn("relative_to", PathK), "__str__": _part("str", Str)}


def prep_from_path(w):
    prep_files(w)

    def parse(run, a, k):
        run.w.assumed.add("parse_structured_file: fails before giving anything, or gives named collections determined by the path and its contents (own contract)")
        p = run.lift(a[0] if a else k["file_path"], PathK)
        text = run.lift(Sym(Str, z3.Select(run.lift(run.world.f["files"], FS), p)), Str)
        if run.branch(uf("PARSED.fails", PathK.sort(), z3.StringSort(), z3.BoolSort())(p, text)):
            run.raise_(ValueError)
        return PGen(run, trace=SeqV.sym(Sym(Found, uf("PARSED", PathK.sort(), z3.StringSort(), Found.sort())(p, text))))

    def text_file(run, a, k):
        if len(a) != 1 or k:
            raise Unsupported("WildcardTextFile(...)")
        return Sym(Coll, uf("TEXT_COLLECTION", PathK.sort(), Coll.sort())(run.lift(a[0], PathK)))

    w.lib[id(STRUCT.parse_structured_file)] = parse
    w.lib[id(WildcardTextFile)] = text_file
    w.keep += [STRUCT.parse_structured_file, WildcardTextFile]


def s_from_path(file_path, root_path):
    if file_path.suffix == ".txt":
        return [(str(file_path.relative_to(root_path).with_suffix("")).replace(os.sep, "/"), WildcardTextFile(file_path))]
    out = []
    if file_path.suffix == ".json" or file_path.suffix == ".yaml":
        folder = ""
        if file_path.parent != root_path:
            folder = (str(file_path.parent.relative_to(root_path)) + "/").replace(os.sep, "/")
        try:
            for name, c in STRUCT.parse_structured_file(file_path):
                out.append((folder + name, c))
        except Exception:
            out = []
    return out


def fuzz_from_path(g):
    root = Path(tempfile.mkdtemp(prefix="vf-"))
    atexit.register(shutil.rmtree, root, ignore_errors=True)
    d = root
    for part in g.rng.choice([[], [], ["a"], ["a.b"], ["a", "b c.d"]]):
        d = d / part
    d.mkdir(parents=True, exist_ok=True)
    f = d / (g.rng.choice(["x", "x.y", "n m", ".h"]) + g.rng.choice([".txt", ".json", ".yaml", ".yml", "", ".TXT", ".md"]))
    doc = g.rng.choice([{"k": ["v"]}, ["v", "w"], {"k": {"l": ["v"], "m": "x"}}, {}, 3])
    f.write_text(g.rng.choice([json.dumps(doc)] * 4 + ["{bad: [", "a\nb"]), encoding="utf-8")
    return dict(file_path=f, root_path=root)


S = "dynamicprompts.wildcards.collection.structured:"


def union_world(w):
    w.unions += [Parsed, Json, Weight]


CONTRACTS = [
    Contract(
        S + "_parse_structured_file_list", dict(value=Seq(Json)), spec=s_list, props=["C12"], prepare=union_world, budget=120, call=fun_call("LIST_ENTRIES", dict(value=Seq(Json)), Seq(Parsed, "gen")),
        fuzz=lambda g: dict(value=[_entry(g) for _ in range(g.rng.choice([0, 1, 2, 3, 4]))]),
    ),
    Contract(
        S + "_parse_structured_file_dict", dict(data=Obj, file_path=PathK, prefix=Prefix), spec=s_dict, props=["C12", "C17"], prepare=prep_files, budget=120, internal=True,
        fuzz=fuzz_dict, call=fun_call("STRUCTURED", dict(data=Obj, file_path=PathK, prefix=Prefix), Found),
    ),
    Contract(
        S + "parse_structured_file", dict(file_path=PathK), requires=r_document, spec=s_document, props=["C12", "C17"], prepare=prep_document, world=files, at_call=False, internal=True,
        compare=same_pairs, fuzz=lambda g: dict(file_path=fuzz_from_path(g)["file_path"]), n_fuzz=60,
    ),
    Contract(
        "dynamicprompts.wildcards.tree.build:_get_wildcard_collections_from_path", dict(file_path=PathK, root_path=PathK), spec=s_from_path, props=["C12", "C17"], prepare=prep_from_path, world=files, at_call=False,
        internal=True, compare=same_pairs, fuzz=fuzz_from_path, n_fuzz=60,
    ),
]
