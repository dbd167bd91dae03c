"""Commands: variants, their bounds and combinations; wildcard value collections."""
from __future__ import annotations

import itertools

from dynamicprompts.commands import VariantCommand, VariantOption, LiteralCommand, SequenceCommand, Command
from dynamicprompts.wildcards.item import WildcardItem
from dynamicprompts.wildcards.values import WildcardValues

from pyvc.contract import Const, Contract
from pyvc.interp import rec
from pyvc.kinds import Bool, Int, Map, ObjK, Opt, Real, Seq, SetK, Str, Tup

from .model import *  # noqa

V = "dynamicprompts.commands.variant_command:VariantCommand."
VO = ObjK(VariantCommand, variants=Seq(Option), min_bound=Int, max_bound=Int, separator=Str, sampling_method=Opt(Method))


def inv_bounds(self):
    return self.min_bound >= 0 and self.min_bound <= self.max_bound


def e_bounds(result, self, new_self):
    lo, hi = self.min_bound, self.max_bound
    if hi < lo:
        lo, hi = hi, lo
    return new_self.min_bound == max(lo, 0) and new_self.max_bound == max(hi, 0)


def e_bounds_ordered(result, new_self):
    return 0 <= new_self.min_bound and new_self.min_bound <= new_self.max_bound


def e_bounds_frame(result, self, new_self):
    return (
        self.variants == new_self.variants and self.separator == new_self.separator
        and self.sampling_method == new_self.sampling_method
    )


def s_adjust(self):
    n = len(self.variants)
    lo = self.min_bound if self.min_bound < n else n
    hi = self.max_bound if self.max_bound < n else n
    return VariantCommand(self.variants, lo, hi, self.separator, self.sampling_method)


def s_values(self):
    return [o.value for o in self.variants]


def s_weights(self):
    return [o.weight for o in self.variants]


@rec([Int, Seq(Cmd)], Seq(Seq(Cmd)))
def combos(k, values):
    """k-permutations without a repeated value, in order of position."""
    if k <= 0:
        return [[]]
    return [[v] + c for v in values for c in combos(k - 1, [u for u in values if u != v])]


def s_combinations(self, k, values):
    if values is None:
        return combos(k, [o.value for o in self.variants])
    return combos(k, values)


def s_from_literals_and_weights(literals, weights, min_bound, max_bound, separator, sampling_method):
    if weights is not None and len(weights) != len(literals):
        raise AssertionError
    opts = []
    for i in range(len(literals)):
        opts.append(VariantOption(LiteralCommand(literals[i]), 1.0 if weights is None else weights[i]))
    return VariantCommand(opts, min_bound, max_bound, separator, sampling_method)


def s_iterate(self):
    out = []
    for item in self.items:
        if isinstance(item, str):
            out.append(item)
        else:
            for _ in range(int(item.weight)):
                out.append(item.content)
    return out


def s_strings(self):
    return [i if isinstance(i, str) else i.content for i in self.items]


def s_cum(self):
    return list(itertools.accumulate([1 if isinstance(i, str) else i.weight for i in self.items]))


def same_length(v, out):
    return [z3.Length(out) == z3.Length(Values.get(v, "items"))]


def others(items, all_items):
    """Those of `items` whose weight is not that of the first of `all_items`."""
    def w(e):
        return 1 if isinstance(e, str) else e.weight

    return [e for e in items if w(e) != w(all_items[0])]


def z_others(xs, every):
    def w(e):
        return z3.If(Entry.is_alt(0, e), z3.RealVal(1), Item.get(Entry.out(1, e), "weight"))

    x = z3.Const("!entry", Entry.sort())
    return lambda reg: reg.mk_fm(xs, x, z3.If(w(x) != w(every[0]), z3.Unit(x), z3.Empty(xs.sort())))


def prep_others(w):
    def h(run, a, k):
        xs, every = (run.lift(v, Values.fields[0][1]) for v in a)
        return PList(run, SeqV.sym(Sym(Seq(Entry), z_others(xs, every)(run.reg))))

    w.lib[id(others)] = h


def s_varied(self):
    return len(others(self.items, self.items)) > 0


def i_varied(run, xs, p, weights_seen, done):
    """No round has left the loop: the weights seen are those of the first value; it is left when another weight turns up."""
    other = z_others(p.t, xs.t)(run.reg)
    e = xs.t[0]
    w0 = z3.If(Entry.is_alt(0, e), z3.RealVal(1), Item.get(Entry.out(1, e), "weight"))
    none = z3.K(z3.RealSort(), z3.BoolVal(False))
    count = run.lift(run.cardinality(Sym(SetK(Real), weights_seen)), Int)
    return z3.If(done == 0, z3.And(z3.Length(other) == 0, count == z3.If(z3.Length(p.t) == 0, 0, 1), weights_seen == z3.If(z3.Length(p.t) == 0, none, z3.Store(none, w0, z3.BoolVal(True)))), z3.Length(other) > 0)


def s_add(self, other):
    return WildcardValues(self.items + other.items)


def s_len(self):
    return len(self.items)


def s_bool(self):
    return len(self.items) > 0


def s_from_items(cls, wildcards):
    return WildcardValues(tuple(wildcards))


def s_item_str(self):
    return self.content


def s_lit_add(self, other):
    if not isinstance(other, LiteralCommand):
        raise TypeError
    return LiteralCommand(self.literal + " " + other.literal)


WV = "dynamicprompts.wildcards.values:WildcardValues."
VARS = ["C01", "C04", "C06"]
CONTRACTS = [
    Contract(V + "__post_init__", dict(self=VO), frame=("self",), ensures=dict(bounds=e_bounds, ordered=e_bounds_ordered, others_kept=e_bounds_frame), props=["C01", "C02", "C04"], at_call=False),
    Contract(V + "adjust_range", dict(self=cmd(VariantCommand)), requires=inv_bounds, spec=s_adjust, props=VARS),
    Contract(V + "values", dict(self=cmd(VariantCommand)), spec=s_values, props=VARS),
    Contract(V + "weights", dict(self=cmd(VariantCommand)), spec=s_weights, props=["C04"]),
    Contract(V + "get_value_combinations", dict(self=cmd(VariantCommand), k=Int, values=Opt(Seq(Cmd))), spec=s_combinations, props=["C01", "C06"]),
    Contract("dynamicprompts.commands.literal_command:LiteralCommand.__add__", dict(self=cmd(LiteralCommand), other=Cmd), spec=s_lit_add, props=["C16"]),
    Contract(WV + "iterate_string_values_weighted", dict(self=Values), spec=s_iterate, props=["C02", "C06", "C13"],
             call=fun_call("ITERATE", dict(self=Values), Seq(Str, "gen"))),
    Contract(WV + "string_values", dict(self=Values), spec=s_strings, props=["C10", "C13"],
             call=fun_call("STRINGS", dict(self=Values), Seq(Str), facts=same_length)),
    Contract(WV + "cum_weight_values", dict(self=Values), spec=s_cum, props=["C13"],
             call=fun_call("CUM", dict(self=Values), Seq(Real), facts=same_length)),
    Contract(WV + "has_varied_weights", dict(self=Values), spec=s_varied, props=["C13"], invariants=(i_varied,), prepare=prep_others,
             call=fun_call("VARIED", dict(self=Values), Bool)),
    Contract(WV + "__add__", dict(self=Values, other=Values), spec=s_add, props=["C11"]),
    Contract(WV + "__len__", dict(self=Values), spec=s_len, props=["C11"]),
    Contract(WV + "__bool__", dict(self=Values), spec=s_bool, props=["C11"]),
    Contract(WV + "from_items", dict(cls=Const(WildcardValues), wildcards=Seq(Entry)), spec=s_from_items, props=["C11"]),
    Contract("dynamicprompts.wildcards.item:WildcardItem.__str__", dict(self=Item), spec=s_item_str, props=["C10", "C13"]),
]
