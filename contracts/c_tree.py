"""Building the wildcard tree: which collection is found under which name."""
from __future__ import annotations

from pathlib import Path

from dynamicprompts.wildcards.collection.list import ListWildcardCollection
from dynamicprompts.wildcards.tree import WildcardTree, WildcardTreeNode
from dynamicprompts.wildcards.tree import build as BUILD
from dynamicprompts.wildcards.wildcard_manager import WildcardManager
from pyvc.contract import Contract
from pyvc.kinds import ObjK
from pyvc.values import PDict, PGen, PList, SeqV, Sym, Unsupported

from .c_wild import CMap, Coll, PathK, TreeK
from .model import *  # noqa

CollItem = Union("CollItem", Coll, Seq(Str))
RootItem = Union("RootItem", PathK, Map(Str, CollItem))
RootMap = Map(Str, Seq(RootItem))
Child = Opaque("TreeNode", WildcardTreeNode)
Items = Seq(Tup(Str, Coll))


def prep_tree(w):
    w.unions += [CollItem, RootItem]

    def new_list(run, a, k):
        e = run.lift(a[0] if a else k["entries"], Seq(Entry))
        return Sym(Coll, uf("LIST_COLLECTION", Seq(Entry).sort(), Coll.sort())(e))

    def from_map(run, a, k):
        run.w.assumed.add("WildcardTree.from_map: a tree determined by the map of names to collections (own contracts: lookups use that map)")
        m = a[-1] if a else k["map"]
        return Sym(TreeK, uf("TREE_OF", CMap.sort(), TreeK.sort())(run.lift(m, CMap)))

    def from_path(run, a, k):
        run.w.assumed.add("build_tree_from_path: a tree determined by the directory's contents (walking the directory is checked by the bounded search only)")
        return Sym(TreeK, uf("TREE_OF_DIR", PathK.sort(), TreeK.sort())(run.lift(a[0] if a else k["root_path"], PathK)))

    w.lib[id(ListWildcardCollection)] = new_list
    w.lib[id(BUILD.build_tree_from_path)] = from_path
    fm = WildcardTree.__dict__["from_map"].__func__
    w.lib[id(fm)] = from_map
    w.keep += [ListWildcardCollection, BUILD.build_tree_from_path, fm]
    w.reg.rules.setdefault("COLL.values", []).append(lambda t: [t == t.arg(0).arg(0)] if t.arg(0).decl().name() == "LIST_COLLECTION" else [])


TreeK.fields = {**getattr(TreeK, "fields", {}), "map": CMap}


def _is_dir(run, a, k):
    return Sym(Bool, uf("IS_DIR", PathK.sort(), z3.BoolSort())(run.lift(a[0], PathK)))


PathK.methods = {**PathK.methods, "is_dir": _is_dir}


def s_collection(collection_or_list):
    if isinstance(collection_or_list, list):
        return ListWildcardCollection(collection_or_list)
    return collection_or_list


def s_mapping(item):
    if isinstance(item, Path):
        if item.is_dir():
            return dict(BUILD.build_tree_from_path(item).map)
        return {}
    return item


def s_build(root_map):
    named = {}
    for root, items in root_map.items():
        for item in items:
            for name, c in BUILD._mappingify_item(item).items():
                named[(root + "/" + name).strip("/")] = BUILD._collectionify(c)
    return WildcardTree.from_map(named)


def _child_walk(run, a, k):
    return PGen(run, trace=SeqV.sym(Sym(Items, uf("NODE.items", Child.sort(), Items.sort())(run.lift(a[0], Child)))))


def _child_names(run, a, k):
    return PGen(run, trace=SeqV.sym(Sym(Seq(Str), uf("NODE.names", Child.sort(), Seq(Str).sort())(run.lift(a[0], Child)))))


Child.methods = {"walk_items": _child_walk, "walk_full_names": _child_names}
NODE = ObjK(WildcardTreeNode, path=Str, collections=CMap, child_nodes=Map(Str, Child))


def s_walk(self):
    for n, c in self.collections.items():
        yield ((self.path + "/" + n).strip("/"), c)
    for child in self.child_nodes.values():
        for x in child.walk_items():
            yield x


def s_walk_names(self):
    for n in self.collections:
        yield (self.path + "/" + n).strip("/")
    for child in self.child_nodes.values():
        for x in child.walk_full_names():
            yield x


# ------------------------------------------------------------------------------------------------ a tree's map
MTREE = ObjK(WildcardTree, root=Child, map=CMap)


def s_update_map(self):
    named = {}
    for n, c in self.root.walk_items():
        named[n] = c
    self.map.clear()
    self.map.update(named)


def s_tree_made(self):
    """A tree made without a map gets the collections of its nodes, each under its full name."""
    if len(self.map) == 0:
        named = {}
        for n, c in self.root.walk_items():
            named[n] = c
        self.map.update(named)


# ------------------------------------------------------------------------------------------------ a new manager
PathOrStr = Union("PathOrStr", PathK, Str)
MGR = ObjK(
    WildcardManager, _path=Opt(PathK), _wildcard_wrap=Str, _tree=Opt(TreeK), _values_cache=Map(Str, Str), _sort_wildcards=Bool,
    _dedup_wildcards=Bool, shuffle_wildcards=Bool, _root_map=RootMap,
)


def prep_manager(w):
    prep_tree(w)
    w.unions.append(PathOrStr)

    def path(run, a, k):
        v = run.resolve(a[0])
        if run.is_str(v):
            return Sym(PathK, uf("PATH", z3.StringSort(), PathK.sort())(run.lift(v, Str)))
        return v

    w.lib[id(Path)] = path
    w.keep.append(Path)


def s_manager(self, path, wildcard_wrap, root_map):
    p = Path(path) if path is not None and path != "" else None
    if p is not None and root_map is not None and len(root_map) > 0:
        raise ValueError
    self._path = p
    self._wildcard_wrap = wildcard_wrap
    self._tree = None
    self._values_cache = {}
    self._sort_wildcards = True
    self._dedup_wildcards = True
    self.shuffle_wildcards = False
    if root_map is not None and len(root_map) > 0:
        self._root_map = root_map
    elif p is not None:
        self._root_map = {"": [p]}
    else:
        self._root_map = {}


B = "dynamicprompts.wildcards.tree.build:"
N = "dynamicprompts.wildcards.tree.node:WildcardTreeNode."
CONTRACTS = [
    Contract("dynamicprompts.wildcards.tree.tree:WildcardTree.update_file_map", dict(self=MTREE), spec=s_update_map, frame=("self",), props=["C17"], at_call=False),
    Contract("dynamicprompts.wildcards.tree.tree:WildcardTree.__post_init__", dict(self=MTREE), spec=s_tree_made, frame=("self",), props=["C17"], at_call=False, internal=True),
    Contract(B + "_collectionify", dict(collection_or_list=CollItem), spec=s_collection, props=["C17"], prepare=prep_tree, internal=True, call=fun_call("COLLECTION", dict(collection_or_list=CollItem), Coll)),
    Contract(B + "_mappingify_item", dict(item=RootItem), spec=s_mapping, props=["C17"], prepare=prep_tree, internal=True, call=fun_call("MAPPING", dict(item=RootItem), Map(Str, CollItem))),
    Contract(B + "build_tree_from_root_map", dict(root_map=RootMap), spec=s_build, props=["C17"], prepare=prep_tree, at_call=False, internal=True),
    Contract(N + "walk_items", dict(self=NODE), spec=s_walk, props=["C17"], at_call=False),
    Contract(N + "walk_full_names", dict(self=NODE), spec=s_walk_names, props=["C17"], at_call=False),
    Contract("dynamicprompts.wildcards.wildcard_manager:WildcardManager.__init__", dict(self=MGR, path=Opt(PathOrStr), wildcard_wrap=Str, root_map=Opt(RootMap)), spec=s_manager, props=["C11", "C17"],
             prepare=prep_manager, frame=("self",), at_call=False, internal=True),
]
