"""Wildcard manager, tree and collections."""
from __future__ import annotations

from fnmatch import fnmatch
from pathlib import Path

from dynamicprompts.wildcards.collection import WildcardCollection, WildcardTextFile
from dynamicprompts.wildcards.collection.list import ListWildcardCollection
from dynamicprompts.wildcards.tree import WildcardTree, WildcardTreeNode
from dynamicprompts.wildcards.tree import build as BUILD
from dynamicprompts.wildcards.values import WildcardValues
from dynamicprompts.wildcards.wildcard_manager import WildcardManager

from dynamicprompts.utils import removeprefix
from dynamicprompts.wildcards.utils import clean_wildcard

from pyvc.interp import rec
from pyvc.contract import Const, Contract
from pyvc.kinds import ObjK
from pyvc.values import PDict, PGen, PList, PObj, SeqV, Sym, Unsupported

from .c_text import s_clean, s_removeprefix
from .model import *  # noqa

Coll = Opaque("WildcardCollection", WildcardCollection)
TreeK = Opaque("WildcardTree", WildcardTree)
Roots = Opaque("RootMap")
Colls = Seq(Coll, "gen")


def _m_values(run, a, k):
    run.w.assumed.add("WildcardCollection.get_values: the same values as long as the collection is not rewritten (own contracts: C12)")
    return PList(run, SeqV.sym(Sym(Seq(Entry), uf("COLL.values", Coll.sort(), Seq(Entry).sort())(run.lift(a[0], Coll)))))


Coll.methods = {"get_values": _m_values}


def _m_match(run, a, k):
    t = uf("TREE.match", TreeK.sort(), z3.StringSort(), Seq(Coll).sort())(run.lift(a[0], TreeK), run.lift(a[1] if len(a) > 1 else k["pattern"], Str))
    return PGen(run, trace=SeqV.sym(Sym(Seq(Coll), t)))


def _m_get(run, a, k):
    t = uf("TREE.get", TreeK.sort(), z3.StringSort(), Opt(Coll).sort())(run.lift(a[0], TreeK), run.lift(a[1] if len(a) > 1 else k["path"], Str))
    if run.branch(Opt(Coll).is_none(t)):
        run.raise_(KeyError)
    return Sym(Coll, Opt(Coll).val(t))


def _m_names(run, a, k):
    return PList(run, SeqV.sym(Sym(Seq(Str), uf("TREE.names", TreeK.sort(), Seq(Str).sort())(run.lift(a[0], TreeK)))))


TreeK.methods = {"match_collections": _m_match, "get_collection": _m_get, "get_collection_names": _m_names}


def _build(run, a, k):
    run.w.assumed.add("build_tree_from_root_map: the same tree for the same root map while the wildcard files are unchanged")
    return Sym(TreeK, uf("BUILD_TREE", Roots.sort(), TreeK.sort())(run.lift(a[0], Roots)))


def manager_world(w):
    w.lib[id(BUILD.build_tree_from_root_map)] = _build
    w.keep.append(BUILD.build_tree_from_root_map)
    with_call(w, clean_wildcard, fun_call("CLEAN", dict(wildcard=Str, wildcard_wrap=Str), Str, raises=ValueError))
    with_call(w, removeprefix, fun_call("REMOVEPREFIX", dict(s=Str, prefix=Str), Str))


MGR = ObjK(
    WildcardManager, _wildcard_wrap=Str, _tree=Opt(TreeK), _values_cache=Map(Str, Values), _sort_wildcards=Bool, _dedup_wildcards=Bool,
    shuffle_wildcards=Bool, _root_map=Roots,
)


def tree_of(m):
    return BUILD.build_tree_from_root_map(m._root_map)


@rec([Roots, Str, Str], Seq(Entry))
def matching(roots, wrap, wildcard):
    """Values of all collections matching the cleaned reference; none if the reference is refused."""
    try:
        name = clean_wildcard(wildcard, wildcard_wrap=wrap)
    except ValueError:
        return []
    out = []
    for c in BUILD.build_tree_from_root_map(roots).match_collections(name):
        out.extend(c.get_values())
    return out


@rec([Roots, Str, Bool, Bool, Str], Values)
def fresh(roots, wrap, dedup, sort, wildcard):
    """What a manager with nothing cached returns."""
    vals = matching(roots, wrap, wildcard)
    if not vals and not wildcard.startswith("**"):
        vals = matching(roots, wrap, "**/" + removeprefix(wildcard, wrap))
    if dedup:
        vals = list(dict.fromkeys(vals))
    if sort:
        vals = sorted(vals, key=str)
    return WildcardValues(tuple(vals))


def fresh_values(m, wildcard):
    return fresh(m._root_map, m._wildcard_wrap, m._dedup_wildcards, m._sort_wildcards, wildcard)


def inv_tree(self):
    return none_or(self._tree, tree_of(self))


def inv_cache(self, key):
    return agrees(self._values_cache, key, fresh_values(self, key))


def r_inv(self, wildcard):
    return conj(inv_tree(self), inv_cache(self, wildcard))


def r_inv1(self, key):
    return conj(inv_tree(self), inv_cache(self, key))


def r_tree(self):
    return inv_tree(self)


def e_tree(result, new_self):
    return inv_tree(new_self)


def e_cache(result, new_self, key):
    return inv_cache(new_self, key)


def e_cache_kept(result, self, new_self, key):
    return disj(not_(inv_cache(self, key)), inv_cache(new_self, key))


def e_values(result, self, wildcard):
    return result == fresh_values(self, wildcard)


def e_options(result, self, new_self):
    return conj(
        self._sort_wildcards == new_self._sort_wildcards, self._dedup_wildcards == new_self._dedup_wildcards,
        self._wildcard_wrap == new_self._wildcard_wrap, self._root_map == new_self._root_map,
    )


def e_set_sort(result, self, value, new_self):
    return new_self._sort_wildcards == value and self._dedup_wildcards == new_self._dedup_wildcards and self._root_map == new_self._root_map


def e_set_dedup(result, self, value, new_self):
    return new_self._dedup_wildcards == value and self._sort_wildcards == new_self._sort_wildcards and self._root_map == new_self._root_map


def e_the_tree(result, self):
    return result == tree_of(self)


def match_call(run, b):
    """match_collections at a call: its postconditions on a manager whose tree is unknown but right."""
    self = b["self"]
    if not isinstance(self, PObj):
        raise Unsupported("match_collections of another manager")
    r = run.call(s_match, [], dict(self=self, wildcard=b["wildcard"]))
    t = run.call(tree_of, [self], {})
    new = run.fresh(Opt(TreeK), "tree").t
    run.assume(z3.Or(Opt(TreeK).is_none(new), Opt(TreeK).val(new) == run.lift(t, TreeK)))
    run.set(self, "_tree", Sym(Opt(TreeK), new))
    return r


def s_match(self, wildcard):
    try:
        name = clean_wildcard(wildcard, wildcard_wrap=self._wildcard_wrap)
    except ValueError:
        return []
    return list(tree_of(self).match_collections(name))


def e_match(result, self, wildcard):
    return list(result) == s_match(self, wildcard)


def s_get_file(self, name):
    return tree_of(self).get_collection(clean_wildcard(name, wildcard_wrap=self._wildcard_wrap))


def s_names(self):
    return {n for n in tree_of(self).get_collection_names()}


def get_values_call(run, b):
    """_get_values at a call: the fresh values; tree and cache are unknown but the invariant carries over, for the keys
    the caller's contract is about."""
    self = b["self"]
    if not isinstance(self, PObj):
        raise Unsupported("_get_values of another manager")
    key = Sym(Str, z3.String("key"))
    r = run.call(fresh_values, [self, b["wildcard"]], {})
    before = run.lift(run.call(inv_cache, [self, key], {}), Bool)
    t = run.call(tree_of, [self], {})
    new = run.fresh(Opt(TreeK), "tree").t
    run.assume(z3.Or(Opt(TreeK).is_none(new), Opt(TreeK).val(new) == run.lift(t, TreeK)))
    run.set(self, "_tree", Sym(Opt(TreeK), new))
    run.set(self, "_values_cache", PDict(run, run.fresh(Map(Str, Values), "cache")))
    run.assume(z3.Implies(before, run.lift(run.call(inv_cache, [self, key], {}), Bool)))
    return r


def e_get_values(result, self, wildcard):
    return disj(self.shuffle_wildcards, result == fresh_values(self, wildcard))


def e_get_values_perm(result, self, wildcard):
    return is_perm(result.items, fresh_values(self, wildcard).items)


def e_shuffled(result, self):
    return is_perm(result.items, self.items)


def s_copy(self):
    return WildcardValues(self.items)


def s_values_iter(self):
    return self.items


# ---------------------------------------------------------------------------------------------- text files
PathK = Opaque("Path", Path)
FS = RawK("FileContents", lambda: z3.ArraySort(PathK.sort(), z3.StringSort()))
LINES = uf("text_lines", z3.StringSort(), Seq(Str).sort())


def files(run):
    """Ghost state: the contents of every file."""
    run.world.f["files"] = Sym(FS, z3.Const("files", FS.sort()))


def _contents(run, p):
    return z3.Select(run.lift(run.world.f["files"], FS), run.lift(p, PathK))


def _p_open(run, a, k):
    run.w.assumed.add("Path.open(encoding, errors='ignore') iterates over the lines of the file's current contents; Path.write_text replaces them; Path.read_text returns them (decoding not modelled)")
    if len(a) > 1 or k.get("errors", None) != "ignore":
        raise Unsupported("open mode")
    return PGen(run, trace=SeqV.sym(Sym(Seq(Str), LINES(_contents(run, a[0])))))


def _p_write(run, a, k):
    f = run.lift(run.world.f["files"], FS)
    run.set(run.world, "files", Sym(FS, z3.Store(f, run.lift(a[0], PathK), run.lift(a[1] if len(a) > 1 else k["data"], Str))))


def _p_read(run, a, k):
    return Sym(Str, _contents(run, a[0]))


PathK.methods = {"open": _p_open, "write_text": _p_write, "read_text": _p_read}
TXT = ObjK(WildcardTextFile, _path=PathK, _encoding=Str, _cache=Opt(Seq(Str)))


def parsed(path, encoding):
    out = []
    with path.open(encoding=encoding, errors="ignore") as f:
        for line in f:
            t = line.strip()
            if t != "" and t[0] != "#":
                out.append(t)
    return out


def r_txt(self):
    return none_or(self._cache, parsed(self._path, self._encoding))


def e_txt_values(result, self):
    return result == parsed(self._path, self._encoding)


def e_txt_inv(result, new_self):
    return none_or(new_self._cache, parsed(new_self._path, new_self._encoding))


def e_txt_same(result, self, new_self):
    return conj(self._path == new_self._path, self._encoding == new_self._encoding)


def e_txt_written(result, self, contents):
    return self._path.read_text() == contents


# ---------------------------------------------------------------------------------------------- tree and nodes
CMap = Map(Str, Coll)
TREE = ObjK(WildcardTree, map=CMap)
NODE = ObjK(WildcardTreeNode, path=Str, collections=CMap)


def s_tree_match(self, pattern):
    for name, coll in self.map.items():
        if fnmatch(name, pattern):
            yield coll


def s_tree_get(self, path):
    if path not in self.map:
        raise KeyError
    return self.map[path]


def s_tree_names(self):
    return [n for n in self.map]


def s_combine(parts):
    return "/".join(parts).strip("/")


def s_qualify(self, name):
    return (self.path + "/" + name).strip("/")


def s_items(self):
    for n, c in self.collections.items():
        yield ((self.path + "/" + n).strip("/"), c)


def s_full_names(self):
    for n, c in self.collections.items():
        yield (self.path + "/" + n).strip("/")


def s_list_values(self):
    return self.entries


LISTC = ObjK(ListWildcardCollection, entries=Seq(Entry))
W = "dynamicprompts.wildcards.wildcard_manager:WildcardManager."
T = "dynamicprompts.wildcards.tree.tree:WildcardTree."
V = "dynamicprompts.wildcards.values:WildcardValues."
X = "dynamicprompts.wildcards.collection.text_file:WildcardTextFile."
N = "dynamicprompts.wildcards.tree.node:WildcardTreeNode."
CONTRACTS = [
    Contract(W + "tree", dict(self=MGR), requires=r_tree, frame=("self",), ensures=dict(tree=e_the_tree, invariant=e_tree, options=e_options), props=["C11", "C17", "C10"], prepare=manager_world, at_call=False),
    Contract(W + "clear_cache", dict(self=MGR), ghost=dict(key=Str), frame=("self",), ensures=dict(invariant=e_tree, cache=e_cache, options=e_options), props=["C11"], prepare=manager_world, at_call=False),
    Contract(W + "sort_wildcards.fset", dict(self=MGR, value=Bool), ghost=dict(key=Str), frame=("self",), ensures=dict(invariant=e_tree, cache=e_cache, set=e_set_sort), props=["C11"], prepare=manager_world, at_call=False),
    Contract(W + "dedup_wildcards.fset", dict(self=MGR, value=Bool), ghost=dict(key=Str), frame=("self",), ensures=dict(invariant=e_tree, cache=e_cache, set=e_set_dedup), props=["C11"], prepare=manager_world, at_call=False),
    Contract(W + "match_collections", dict(self=MGR, wildcard=Str), requires=r_tree, frame=("self",), ensures=dict(matches=e_match, invariant=e_tree, options=e_options), props=["C09", "C10", "C17"], prepare=manager_world, call=match_call),
    Contract(W + "_get_values", dict(self=MGR, wildcard=Str), ghost=dict(key=Str), requires=r_inv, frame=("self",),
             ensures=dict(values=e_values, invariant=e_tree, cache=e_cache_kept, options=e_options), props=["C10", "C11"], prepare=manager_world, call=get_values_call),
    Contract(W + "get_values", dict(self=MGR, wildcard=Str), ghost=dict(key=Str), requires=r_inv, frame=("self",),
             ensures=dict(values=e_get_values, permutation=e_get_values_perm, invariant=e_tree, cache=e_cache_kept, options=e_options), props=["C10", "C11"], prepare=manager_world, at_call=False, world=world, budget=120),
    Contract(W + "get_file", dict(self=MGR, name=Str), requires=r_tree, loose=("self",), spec=s_get_file, props=["C09", "C17"], prepare=manager_world, at_call=False),
    Contract(W + "get_collection_names", dict(self=MGR), requires=r_tree, loose=("self",), spec=s_names, props=["C17"], prepare=manager_world, at_call=False),
    Contract(V + "shuffled", dict(self=Values, rng=Rand), ensures=dict(permutation=e_shuffled), props=["C10", "C11"], world=world, at_call=False),
    Contract(V + "copy", dict(self=Values), spec=s_copy, props=["C11"]),
    Contract(X + "get_values", dict(self=TXT), requires=r_txt, frame=("self",), ensures=dict(values=e_txt_values, invariant=e_txt_inv, same_file=e_txt_same), props=["C11", "C12"], world=files, at_call=False),
    Contract(X + "write_text", dict(self=TXT, contents=Str), frame=("self",), ensures=dict(invariant=e_txt_inv, written=e_txt_written, same_file=e_txt_same), props=["C11", "C12"], world=files, at_call=False),
    Contract(T + "match_collections", dict(self=TREE, pattern=Str), spec=s_tree_match, props=["C17", "C10"]),
    Contract(T + "get_collection", dict(self=TREE, path=Str), spec=s_tree_get, props=["C17"]),
    Contract(T + "get_collection_names", dict(self=TREE), spec=s_tree_names, props=["C17"], compare=None),
    Contract(N + "qualify_name", dict(self=NODE, name=Str), spec=s_qualify, props=["C17"]),
    Contract(N + "get_items", dict(self=NODE), spec=s_items, props=["C17"]),
    Contract(N + "get_full_names", dict(self=NODE), spec=s_full_names, props=["C17"]),
    Contract("dynamicprompts.wildcards.collection.list:ListWildcardCollection.get_values", dict(self=LISTC), spec=s_list_values, props=["C12"]),
]
