"""Text helpers: utils, sampling_result, wrap splitting, wildcard names."""
from __future__ import annotations

import re

from dynamicprompts.commands.wrap_command import WRAP_MARKER_RE
from dynamicprompts.sampling_result import SamplingResult
from dynamicprompts.wildcards.wildcard_manager import WildcardManager

from pyvc.contract import Const, Contract
from pyvc.kinds import Bool, Int, Map, ObjK, Opt, Real, Seq, Str, Tup

from .model import *  # noqa


def s_removeprefix(s, prefix):
    if prefix != "" and s.startswith(prefix):
        return s[len(prefix):]
    return s


def s_removesuffix(s, suffix):
    if suffix != "" and s.endswith(suffix):
        return s[: len(s) - len(suffix)]
    return s


def s_squash(s):
    return " ".join(s.split())


def s_is_empty_line(line):
    if line is None:
        return True
    t = line.strip()
    return t == "" or t[0] == "#"


def s_split_wrapper(s):
    m = WRAP_MARKER_RE.search(s)
    if m is None:
        return (s, "")
    return (s[: m.start()], s[m.end():])


def s_joined(cls, results, separator):
    texts = [r.text for r in results]
    if len(texts) == 1:
        return SamplingResult(text=texts[0])
    j = separator.join(texts)
    if separator != "" and j.startswith(separator):
        j = j[len(separator):]
    if separator != "" and j.endswith(separator):
        j = j[: len(j) - len(separator)]
    return SamplingResult(text=j)


def s_clean(wildcard, wildcard_wrap):
    w = s_removesuffix(s_removeprefix(wildcard, wildcard_wrap), wildcard_wrap)
    w = re.sub(r"[\\/]+", "/", w).strip("/")
    if ".." in w or "\\" in w:
        raise ValueError
    return w


def s_to_wildcard(self, name):
    ww = self._wildcard_wrap
    left = name if name.startswith(ww) else ww + name
    return left if left.endswith(ww) else left + ww


def s_is_wildcard(self, text):
    return text.startswith(self._wildcard_wrap) and text.endswith(self._wildcard_wrap)


MGR = ObjK(WildcardManager, _wildcard_wrap=Str)
U = "dynamicprompts.utils:"
W = "dynamicprompts.wildcards.wildcard_manager:WildcardManager."
CONTRACTS = [
    Contract(U + "removeprefix", dict(s=Str, prefix=Str), spec=s_removeprefix, props=["C09", "C10", "C15"]),
    Contract(U + "removesuffix", dict(s=Str, suffix=Str), spec=s_removesuffix, props=["C09", "C15"]),
    Contract(U + "squash_whitespace", dict(s=Str), spec=s_squash, props=["C15"]),
    Contract(U + "is_empty_line", dict(line=Opt(Str)), spec=s_is_empty_line, props=["C12"]),
    Contract("dynamicprompts.commands.wrap_command:split_wrapper_string", dict(s=Str), spec=s_split_wrapper, props=["C14"]),
    Contract("dynamicprompts.sampling_result:SamplingResult.joined", dict(cls=Const(SamplingResult), results=Seq(SR, "gen"), separator=Str), spec=s_joined, props=["C15", "C01", "C02", "C14"]),
    Contract("dynamicprompts.wildcards.utils:clean_wildcard", dict(wildcard=Str, wildcard_wrap=Str), spec=s_clean, props=["C09", "C10"]),
    Contract(W + "to_wildcard", dict(self=MGR, name=Str), spec=s_to_wildcard, props=["C09"],
             call=lambda run, b: Sym(Str, uf("TO_WILDCARD", z3.StringSort(), z3.StringSort(), z3.StringSort())(run.lift(run.getattr_raw(b["self"], "_wildcard_wrap"), Str), run.lift(b["name"], Str)))),
    Contract(W + "is_wildcard", dict(self=MGR, text=Str), spec=s_is_wildcard, props=["C09"]),
]
