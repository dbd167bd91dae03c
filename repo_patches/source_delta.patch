From 746da2f0c003810f256f7e7ba75338e98d5642b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:49 +0000
Subject: [PATCH 01/17] fix: choose_without_replacement keeps each weight with
 its own value

Removing the weight by value dropped the first equal weight, so later draws used
other options' weights; a single value was returned even for num_choices=0.
---
 src/dynamicprompts/utils.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index ca56efa..b20e244 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -85,15 +85,14 @@ def choose_without_replacement(
             f"Number of values ({len(values)}) and weights ({len(weights)}) must be the same.",
         )
 
-    if len(values) == 0:
-        return []
-    elif len(values) == 1:
+    if num_choices == 1 and len(values) == 1:
         return values
-    else:
-        chosen_values = []
-        for _ in range(num_choices):
-            chosen = rand.choices(values, weights=weights, k=1)[0]
-            chosen_values.append(chosen)
-            weights.remove(weights[values.index(chosen)])
-            values.remove(chosen)
-        return chosen_values
+
+    chosen_values = []
+    for _ in range(num_choices):
+        # Draw a position, not a value, so that equal values or weights
+        # can't make us discard the wrong one.
+        index = rand.choices(range(len(values)), weights=weights, k=1)[0]
+        chosen_values.append(values.pop(index))
+        weights.pop(index)
+    return chosen_values
-- 
2.43.0


From 01bed2a7db5aed40f28465719ce9984d461152a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:49 +0000
Subject: [PATCH 02/17] fix: random sampling honours the bounds of
 single-option variants

{0$$A} always gave A and {0-1$$A} never gave the empty choice.
---
 src/dynamicprompts/samplers/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index a2b9550..22626e2 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -78,11 +78,12 @@ class RandomSampler(Sampler):
                 )
 
                 yield from self._get_variant(wildcard_variant, context)
-            else:
+                return
+            if command.min_bound > 0:
                 yield from context.generator_from_command(
                     command.values[0],
                 )
-            return
+                return
         while True:
             command = command.adjust_range()
 
-- 
2.43.0


From 90720a2df021bb71ae94b382ccb6e0ea1aa5f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 03/17] fix: cyclical variants without any combination no
 longer hang

e.g. {@2$$a|a}: the outer loop retried an empty sampler for ever.
---
 src/dynamicprompts/samplers/cycle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 090825f..fecf6ad 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -91,8 +91,8 @@ class CyclicalSampler(Sampler):
                 for combo in combinations
             )
 
-            while True:
-                yield from next_sampler_next_value(cycle(combination_samplers))
+            # Never-ending, unless there are no combinations at all.
+            yield from next_sampler_next_value(cycle(combination_samplers))
 
     def _get_wildcard(
         self,
-- 
2.43.0


From a4fa7a0dd876dd61acac49ce7025a9471cc90abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 04/17] fix: combinatorial templates with an empty part yield
 nothing instead of failing

e.g. `x {2$$a|a}` raised RuntimeError (generator raised StopIteration).
---
 src/dynamicprompts/samplers/command_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index 6f17cb3..e179e38 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -16,7 +16,9 @@ class CommandCollection:
     def __init__(self, commands: Iterable[Command], context: SamplingContext) -> None:
         self._commands = list(commands)
         self._generators = [context.generator_from_command(c) for c in self._commands]
-        self._values: list[SamplingResult | None] = [next(g) for g in self._generators]
+        self._values: list[SamplingResult | None] = [
+            next(g, None) for g in self._generators
+        ]
 
     def get_value(self, command: Command) -> SamplingResult | None:
         try:
-- 
2.43.0


From 20ea449f98bbdc03d4a8e333da441d75214c2499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 05/17] fix: variable assignments see the earlier ones of the
 same template

${a=1}${a?=2}${a} gave 2, and ${a=1}${b=!${a}}${b} raised KeyError.
---
 src/dynamicprompts/sampling_context.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 9503e08..1126834 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -147,16 +147,16 @@ class SamplingContext:
         If there are no variable assignments,
         the original commands and context are returned as-is.
         """
-        new_variables: dict[str, Command] = {}
+        context = self
         new_commands = []
         for command in commands:
             if isinstance(command, VariableAssignmentCommand):
-                new_variables[command.name] = self.process_variable_assignment(command)
+                # Each assignment sees the ones before it.
+                value = context.process_variable_assignment(command)
+                context = context.with_variables({command.name: value})
             else:
                 new_commands.append(command)
-        if new_variables:
-            return new_commands, self.with_variables(new_variables)
-        return (new_commands, self)
+        return (new_commands, context)
 
     def process_variable_assignment(
         self,
-- 
2.43.0


From 56ff48006094f3f8f2b8a93e77036893133e8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 06/17] fix: turning wildcard shuffling off again restores the
 sorted order

Values looked up while shuffling was on were cached unsorted.
---
 src/dynamicprompts/wildcards/wildcard_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 187eac8..1c64a3d 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -196,7 +196,7 @@ class WildcardManager:
         if self.dedup_wildcards:
             wildcards = list(dict.fromkeys(wildcards, None))
 
-        if self.sort_wildcards and not self.shuffle_wildcards:
+        if self.sort_wildcards:
             wildcards = sorted(wildcards, key=str)
 
         values_object = WildcardValues.from_items(wildcards)
-- 
2.43.0


From 9b652b7a9b340b2d2d44d368285874078e56b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 07/17] fix: wildcard parameters apply when a variant expands
 the wildcard

{2$$__tmpl(x=1)__} ignored x=1.
---
 src/dynamicprompts/samplers/combinatorial.py | 5 ++++-
 src/dynamicprompts/samplers/cycle.py         | 5 ++++-
 src/dynamicprompts/samplers/random.py        | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index c62a57b..4f6137c 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -119,7 +119,10 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(wildcard_variant, context)
+            yield from self._get_variant(
+                wildcard_variant,
+                context.with_variables(wildcard_command.variables),
+            )
         else:
             variant_command = variant_command.adjust_range()
             for bound in range(
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index fecf6ad..ccb2f6c 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -73,7 +73,10 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(wildcard_variant, sampling_context)
+            yield from self._get_variant(
+                wildcard_variant,
+                sampling_context.with_variables(wildcard_command.variables),
+            )
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 22626e2..f195fc7 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -77,7 +77,10 @@ class RandomSampler(Sampler):
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(wildcard_variant, context)
+                yield from self._get_variant(
+                    wildcard_variant,
+                    context.with_variables(command.values[0].variables),
+                )
                 return
             if command.min_bound > 0:
                 yield from context.generator_from_command(
-- 
2.43.0


From 6c2e2142de642e91cf6fb8d117aac8fd4527dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 08/17] fix: a per-prompt seed of 0 and seeds for an empty
 template are honoured

seeds=0 was ignored; an empty template with seeds raised StopIteration.
---
 src/dynamicprompts/generators/randomprompt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 166c4de..9a9c0d6 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import islice
 from random import Random
 
 from dynamicprompts.commands.base import SamplingMethod
@@ -54,7 +55,7 @@ class RandomPromptGenerator(PromptGenerator):
         if not template:
             template = ""
 
-        if seeds:
+        if seeds is not None:
             if isinstance(seeds, int):
                 seeds = [seeds]
 
@@ -64,11 +65,11 @@ class RandomPromptGenerator(PromptGenerator):
             if len(seeds) != num_images:
                 raise ValueError(f"Expected {num_images} seeds, but got {len(seeds)}")
 
-            gen = self._context.sample_prompts(template, num_images)
+            gen = iter(self._context.sample_prompts(template, num_images))
             prompts = []
             for seed in seeds:
                 self._context.rand.seed(seed)
-                prompts.append(str(next(iter(gen))))
+                prompts.extend(str(p) for p in islice(gen, 1))
         else:
             prompts = [
                 str(p) for p in self._context.sample_prompts(template, num_images)
-- 
2.43.0


From 42658302040c71cd52fdab4fb916975647e46efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 09/17] fix: weighted wildcards follow per-prompt seeds

Drawing ten values ahead made prompts depend on the seeds of earlier prompts.
---
 src/dynamicprompts/wildcards/values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/wildcards/values.py b/src/dynamicprompts/wildcards/values.py
index 3c37c31..4c0bd59 100644
--- a/src/dynamicprompts/wildcards/values.py
+++ b/src/dynamicprompts/wildcards/values.py
@@ -115,10 +115,10 @@ class WildcardValues:
         else:
             cum_weights = self.cum_weight_values
             while True:
-                # Grab a bunch (but not too many) random values at a time,
-                # to reduce the number of calls to `choices`.
+                # One value at a time: values drawn ahead would not depend
+                # on the seed in effect when they are used.
                 yield from rng.choices(
                     self.string_values,
                     cum_weights=cum_weights,
-                    k=10,
+                    k=1,
                 )
-- 
2.43.0


From 179018c6d0d3e18775ea60170d040e3414e1f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:28 +0000
Subject: [PATCH 10/17] fix: variant bounds stay ordered when both are negative

---
 src/dynamicprompts/commands/variant_command.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicprompts/commands/variant_command.py b/src/dynamicprompts/commands/variant_command.py
index 58c1419..d6538d4 100644
--- a/src/dynamicprompts/commands/variant_command.py
+++ b/src/dynamicprompts/commands/variant_command.py
@@ -28,6 +28,7 @@ class VariantCommand(Command):
     def __post_init__(self):
         min_bound, max_bound = sorted((self.min_bound, self.max_bound))
         min_bound = max(0, min_bound)
+        max_bound = max(0, max_bound)
         object.__setattr__(self, "min_bound", min_bound)
         object.__setattr__(self, "max_bound", max_bound)
 
-- 
2.43.0


From 28a430a2d687c0c7498a1620275890200f81edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:54 +0000
Subject: [PATCH 11/17] fix: one bad weight in a structured list no longer
 drops the whole list

[{text: a, weight: heavy}, b] lost b as well.
---
 src/dynamicprompts/wildcards/collection/structured.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 180a370..c5d7e26 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -37,7 +37,11 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
         elif isinstance(item, dict):
             # Support {"text": "foo", "weight": 1.1} syntax
             #     and {"content": "foo", "weight": 1.1}
-            weight = float(item.get("weight", 1))
+            try:
+                weight = float(item.get("weight", 1))
+            except (TypeError, ValueError):
+                log.warning("Unsupported weight in list item: %s", item)
+                continue
             content = item.get("text") or item.get("content") or ""
             if content:
                 if weight == 1:
-- 
2.43.0


From 33e87f63091553797fe60505bb5fcb34199fd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:54 +0000
Subject: [PATCH 12/17] fix: looking up a wrapped wildcard name falls back to
 any depth too

get_values('__a__') searched for **/__a and missed what get_values('a') found.
---
 src/dynamicprompts/wildcards/wildcard_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 1c64a3d..a975b4b 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.parser.config import default_parser_config
+from dynamicprompts.utils import removeprefix
 from dynamicprompts.wildcards.collection import WildcardCollection
 from dynamicprompts.wildcards.item import WildcardItem
 from dynamicprompts.wildcards.tree import (
@@ -179,7 +180,7 @@ class WildcardManager:
             values.extend(f.get_values())
         if not values and not wildcard.startswith("**"):
             # If the wildcard doesn't match anything, try again with a recursive wildcard
-            rec_wildcard = f"**/{wildcard}"
+            rec_wildcard = f"**/{removeprefix(wildcard, self._wildcard_wrap)}"
             rec_colls = list(self.match_collections(rec_wildcard))
             for f in rec_colls:
                 values.extend(f.get_values())
-- 
2.43.0


From b9c67da9a34a0591381d5ae0043ea92814dc41bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:24 +0000
Subject: [PATCH 13/17] fix: a variable defined as empty text counts as defined

${a=}${a} raised KeyError because an empty sequence is falsy.
---
 src/dynamicprompts/samplers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index a01f248..7472143 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -93,7 +93,7 @@ class Sampler:
     ) -> ResultGen:
         variable = command.name
         command_to_sample = context.variables.get(variable, command.default)
-        if not command_to_sample:
+        if command_to_sample is None:
             if context.unknown_variable_value is None:
                 raise KeyError(f"Variable {variable} is not defined in this context")
             elif isinstance(context.unknown_variable_value, str):
-- 
2.43.0


From 4fb1a46cdbb95d0be3551a417c2036a352bdfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:24 +0000
Subject: [PATCH 14/17] fix: an empty side of a wrap is one empty text in
 combinatorial sampling

%{a...b$$} gave no prompt at all because an empty sequence is falsy.
---
 src/dynamicprompts/sampling_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 1126834..fb90cd0 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -110,7 +110,7 @@ class SamplingContext:
         :param prompt: The prompt template to generate prompts from.
         :param num_prompts: How many prompts to generate (at most). If None, generate all possible prompts.
         """
-        if not prompt:
+        if not prompt and not isinstance(prompt, Command):
             return []
         command: Command
         if isinstance(prompt, str):
-- 
2.43.0


From 397adf8300cd58fe67b1e5ceac47362321c1a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:27 +0000
Subject: [PATCH 15/17] fix: tabs in templates are kept

---
 src/dynamicprompts/parser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index ba281a0..dbb025f 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -501,6 +501,9 @@ def create_parser(
     variant_prompt <<= pp.ZeroOrMore(variant_chunk)("prompt")
     wildcard_prompt <<= pp.OneOrMore(wildcard_chunk, stop_on=pp.Char("("))("prompt")
 
+    # Whitespace is significant, so don't let pyparsing expand tabs to spaces.
+    prompt.parse_with_tabs()
+
     # Configure comments
     prompt.ignore("#" + pp.restOfLine)
     prompt.ignore("//" + pp.restOfLine)
-- 
2.43.0


From f97a42130245c67b75239f2109c34ea03a796012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:24 +0000
Subject: [PATCH 16/17] fix: structured wildcard files keep the full name of
 their directory

The directory part of the collection name lost everything after its last
dot (v1.5/animals.yaml was registered as v1/...).
---
 src/dynamicprompts/wildcards/tree/build.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/dynamicprompts/wildcards/tree/build.py b/src/dynamicprompts/wildcards/tree/build.py
index 9c94a84..413ea0b 100644
--- a/src/dynamicprompts/wildcards/tree/build.py
+++ b/src/dynamicprompts/wildcards/tree/build.py
@@ -19,9 +19,6 @@ log = logging.getLogger(__name__)
 
 
 def _get_wildcard_file_name_from_path(path: Path, root_path: Path):
-    if path == root_path:
-        # Special case, because `with_suffix()` would fail
-        return ""
     return str(path.relative_to(root_path).with_suffix("")).replace(os.sep, "/")
 
 
@@ -36,14 +33,15 @@ def _get_wildcard_collections_from_path(
         return
 
     if file_path.suffix in (".json", ".yaml"):
-        pantry_root_prefix = _get_wildcard_file_name_from_path(
-            path=file_path.parent,
-            root_path=root_path,
-        )
-        if pantry_root_prefix:
+        # Only file names have suffixes to drop; directory names are kept whole.
+        pantry_root_prefix = ""
+        if file_path.parent != root_path:
             # Suffix the / here, so we don't need to worry about pantries
             # in the root later
-            pantry_root_prefix += "/"
+            pantry_root_prefix = f"{file_path.parent.relative_to(root_path)}/".replace(
+                os.sep,
+                "/",
+            )
         try:
             for name, wildcard_file in parse_structured_file(file_path):
                 yield (f"{pantry_root_prefix}{name}", wildcard_file)
-- 
2.43.0


From f7c62b906df5fdd03b2327e04e589677420f397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:33 +0000
Subject: [PATCH 17/17] fix: a separator can't run past the configured end of
 its variant

With custom variant delimiters, [2$$a|b] [2$$c|d] took 'a|b] [2' as the
separator of a single variant.
---
 src/dynamicprompts/parser/parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index dbb025f..afe569f 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -77,15 +77,17 @@ sampler_symbol_to_method = {
 }
 
 
-def _configure_range() -> pp.ParserElement:
+def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     hyphen = pp.Suppress("-")
 
     # Exclude:
     # - $, which is used to indicate the end of the separator definition i.e. {1$$ and $$X|Y|Z}
-    # - }, which is used to indicate the end of a variant
+    # - { and }, or whatever variant_start and variant_end are set to,
+    #   which are used to indicate the start and end of a variant
     # Allowed:
     # - | is allowed as a separator
-    separator = pp.Word(pp.printables + " ", exclude_chars="${}")(
+    exclude_chars = "${}" + parser_config.variant_start + parser_config.variant_end
+    separator = pp.Word(pp.printables + " ", exclude_chars=exclude_chars)(
         "separator",
     ).leave_whitespace()
 
@@ -438,7 +440,7 @@ def create_parser(
     *,
     parser_config: ParserConfig,
 ) -> pp.ParserElement:
-    bound_expr = _configure_range()
+    bound_expr = _configure_range(parser_config)
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
-- 
2.43.0

