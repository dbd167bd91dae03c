from __future__ import annotations

from itertools import islice

from . import ref
from .ast import render


def manager(wcs, **kw):
    """wcs: {name: [[ast, weight], ...]} -> WildcardManager over a root map."""
    from dynamicprompts.wildcards import WildcardManager
    from dynamicprompts.wildcards.collection.list import ListWildcardCollection
    from dynamicprompts.wildcards.item import WildcardItem

    colls = {}
    for name, vals in wcs.items():
        entries = []
        for v, w in vals:
            t = render(v)
            entries.append(t if w == 1 else WildcardItem(content=t, weight=w))
        colls[name] = ListWildcardCollection(entries)
    return WildcardManager(root_map={"": [colls]}, **kw)


def refctx(wcs, unknown=None):
    return ref.Ctx({k: sorted(([v, w] for v, w in vs), key=lambda p: render(p[0])) for k, vs in wcs.items()}, unknown=unknown)


def take(it, n):
    return list(islice(it, n))


def differ(what, got, exp):
    if got == exp:
        return None
    if isinstance(got, list) and isinstance(exp, list):
        for i, (g, e) in enumerate(zip(got, exp)):
            if g != e:
                return f"{what}: item {i}: got {g!r}, expected {e!r} (of {len(got)}/{len(exp)}; got {got[:8]!r}...)"
        return f"{what}: got {len(got)} items, expected {len(exp)}: got {got[:12]!r}, expected {exp[:12]!r}"
    return f"{what}: got {got!r}, expected {exp!r}"


WILD = {
    "w1": [[["lit", "wa"], 1], [["lit", "wb"], 1], [["lit", "wc"], 1]],
    "d/w2": [[["lit", "ta x"], 2.7], [["lit", "tb"], 1], [["lit", "tc"], 0]],
    "one": [[["lit", "solo"], 1]],
    "tmpl": [
        [["grp", None, None, None, [[None, ["lit", "m"]], [None, ["lit", "n"]]]], 1],
        [["seq", [["lit", "k "], ["grp", None, ["n", 2], None, [[None, ["lit", "u"]], [None, ["lit", "v"]]]]]], 1],
    ],
    "usesx": [[["seq", [["lit", "X="], ["acc", "x", ["lit", "nox"]]]], 1], [["lit", "plain"], 1]],
}
