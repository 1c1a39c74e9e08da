From e81c72c383bb683f882e1b19f58bd52081c1ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:05 +0000
Subject: [PATCH 01/40] fix: let literals contain characters that merely occur
 in a syntax token

A literal ended at every single character of the variable and wrap start
tokens, so prompts such as '50% grey' or 'costs $5' failed to parse. Only
the complete tokens end a literal now.
---
 src/dynamicprompts/parser/parse.py | 35 ++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index ba281a0..3606ec9 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -147,33 +147,36 @@ def _configure_literal_sequence(
     is_variant_literal: bool = False,
     is_wildcard_literal: bool = False,
 ) -> pp.ParserElement:
-    # Characters that are not allowed in a literal
-    # - { denotes the start of a variant (or whatever variant_start is set to  )
+    # Tokens that end a literal
     # - # denotes the start of a comment
-    # - $ denotes the start of a variable command (or whatever variable_start is set to)
-    # - % denotes the start of a wrap command (or whatever wrap_start is set to)
-    non_literal_chars = (
-        rf"#{parser_config.variant_start}"
-        rf"{parser_config.variable_start}"
-        rf"{parser_config.wrap_start}"
-    )
+    # - { denotes the start of a variant (or whatever variant_start is set to  )
+    # - ${ denotes the start of a variable command (or whatever variable_start is set to)
+    # - %{ denotes the start of a wrap command (or whatever wrap_start is set to)
+    # - __ denotes the start or end of a wildcard (or whatever wildcard_wrap is set to)
+    non_literal_tokens = [
+        "#",
+        parser_config.variant_start,
+        parser_config.variable_start,
+        parser_config.wrap_start,
+        parser_config.wildcard_wrap,
+    ]
 
     if is_variant_literal:
-        # Inside a variant the following characters are also not allowed
+        # Inside a variant the following tokens also end a literal
         # - } denotes the end of a variant (or whatever right brace is set to)
         # - | denotes the end of a variant option
-        # - $ denotes the end of a bound expression
-        non_literal_chars += rf"|${parser_config.variant_end}"
+        # - $$ denotes the end of a bound expression
+        non_literal_tokens += ["|", "$$", parser_config.variant_end]
 
     if is_wildcard_literal:
-        # Inside a wildcard the following characters are also not allowed
+        # Inside a wildcard the following tokens also end a literal
         # - ( denotes the beginning of wildcard variable parameters
         # - ) denotes the end of wildcard variable parameters
-        non_literal_chars += r")("
+        non_literal_tokens += [")", "("]
 
-    non_literal_chars = re.escape(non_literal_chars)
+    non_literal_re = "|".join(re.escape(token) for token in non_literal_tokens)
     literal = pp.Regex(
-        rf"((?!{re.escape(parser_config.wildcard_wrap)})[^{non_literal_chars}])+",
+        rf"(?:(?!{non_literal_re})[\s\S])+",
     )(
         "literal",
     ).leave_whitespace()
-- 
2.43.0


From 08c5356a4f4482e6e638457cf0a0be758641d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 02/40] fix: end variable and wrap values at their own end
 tokens

With variant delimiters other than braces, literals inside ${...} and
%{...} swallowed the closing brace, so neither command could be parsed.
---
 src/dynamicprompts/parser/parse.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 3606ec9..a147f62 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -146,6 +146,7 @@ def _configure_literal_sequence(
     parser_config: ParserConfig,
     is_variant_literal: bool = False,
     is_wildcard_literal: bool = False,
+    is_value_literal: bool = False,
 ) -> pp.ParserElement:
     # Tokens that end a literal
     # - # denotes the start of a comment
@@ -174,6 +175,10 @@ def _configure_literal_sequence(
         # - ) denotes the end of wildcard variable parameters
         non_literal_tokens += [")", "("]
 
+    if is_value_literal:
+        # Inside a variable or wrap command their end tokens also end a literal
+        non_literal_tokens += [parser_config.variable_end, parser_config.wrap_end]
+
     non_literal_re = "|".join(re.escape(token) for token in non_literal_tokens)
     literal = pp.Regex(
         rf"(?:(?!{non_literal_re})[\s\S])+",
@@ -445,23 +450,24 @@ def create_parser(
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
+    value_prompt = pp.Forward()
     wildcard_prompt = pp.Forward()
 
     variable_access = _configure_variable_access(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=value_prompt,
     )
     wildcard_variable_access = _configure_variable_access(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=value_prompt,
     )
     variable_assignment = _configure_variable_assignment(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=value_prompt,
     )
     wrap_command = _configure_wrap_command(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=value_prompt,
     )
     wildcard = _configure_wildcard(
         parser_config=parser_config,
@@ -476,6 +482,11 @@ def create_parser(
         is_variant_literal=True,
         parser_config=parser_config,
     )
+    value_literal_sequence = _configure_literal_sequence(
+        is_variant_literal=True,
+        is_value_literal=True,
+        parser_config=parser_config,
+    )
     variants = _configure_variants(
         bound_expr,
         variant_prompt,
@@ -493,6 +504,9 @@ def create_parser(
     variant_chunk = (
         variable_access | wrap_command | variants | wildcard | variant_literal_sequence
     )
+    value_chunk = (
+        variable_access | wrap_command | variants | wildcard | value_literal_sequence
+    )
     wildcard_chunk = (
         wildcard_variable_access
         | variants
@@ -502,6 +516,7 @@ def create_parser(
 
     prompt <<= pp.ZeroOrMore(chunk)("prompt")
     variant_prompt <<= pp.ZeroOrMore(variant_chunk)("prompt")
+    value_prompt <<= pp.ZeroOrMore(value_chunk)("prompt")
     wildcard_prompt <<= pp.OneOrMore(wildcard_chunk, stop_on=pp.Char("("))("prompt")
 
     # Configure comments
@@ -516,11 +531,13 @@ def create_parser(
     literal_sequence.set_parse_action(_parse_literal_command)
     wildcard_literal_sequence.set_parse_action(_parse_literal_command)
     variant_literal_sequence.set_parse_action(_parse_literal_command)
+    value_literal_sequence.set_parse_action(_parse_literal_command)
     variable_access.set_parse_action(_parse_variable_access_command)
     wildcard_variable_access.set_parse_action(_parse_wildcard_variable_access_command)
     variable_assignment.set_parse_action(_parse_variable_assignment_command)
     prompt.set_parse_action(_parse_sequence_or_single_command)
     variant_prompt.set_parse_action(_parse_sequence_or_single_command)
+    value_prompt.set_parse_action(_parse_sequence_or_single_command)
     wrap_command.set_parse_action(_parse_wrap_command)
     wildcard_prompt.set_parse_action(_parse_sequence_or_single_command)
     return prompt
-- 
2.43.0


From 04201a343eae73e548d4ebc855ecef0dad6d460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:59 +0000
Subject: [PATCH 03/40] fix: end a bound's separator at the configured variant
 delimiters

With custom delimiters the separator ran across the end of its variant up to
the next $$ in the prompt, merging two variants into one.
---
 src/dynamicprompts/parser/parse.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index a147f62..a7fc35c 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -77,15 +77,18 @@ sampler_symbol_to_method = {
 }
 
 
-def _configure_range() -> pp.ParserElement:
+def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     hyphen = pp.Suppress("-")
 
     # Exclude:
     # - $, which is used to indicate the end of the separator definition i.e. {1$$ and $$X|Y|Z}
-    # - }, which is used to indicate the end of a variant
+    # - { and }, or whatever variant_start and variant_end are set to,
+    #   which are used to indicate the start and end of a variant
     # Allowed:
     # - | is allowed as a separator
-    separator = pp.Word(pp.printables + " ", exclude_chars="${}")(
+    variant_start = re.escape(parser_config.variant_start)
+    variant_end = re.escape(parser_config.variant_end)
+    separator = pp.Regex(rf"(?:(?!{variant_start}|{variant_end})[ -#%-z|~])+")(
         "separator",
     ).leave_whitespace()
 
@@ -446,7 +449,7 @@ def create_parser(
     *,
     parser_config: ParserConfig,
 ) -> pp.ParserElement:
-    bound_expr = _configure_range()
+    bound_expr = _configure_range(parser_config)
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
-- 
2.43.0


From 111c9690f3d3c974060150310781b6703c90cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:19 +0000
Subject: [PATCH 04/40] fix: preserve tabs in prompts

pyparsing expands tabs to spaces by default, while the grammar promises that
whitespace is preserved.
---
 src/dynamicprompts/parser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index a7fc35c..b6c5949 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -543,6 +543,9 @@ def create_parser(
     value_prompt.set_parse_action(_parse_sequence_or_single_command)
     wrap_command.set_parse_action(_parse_wrap_command)
     wildcard_prompt.set_parse_action(_parse_sequence_or_single_command)
+
+    # Whitespace is preserved, so don't let pyparsing expand tabs to spaces
+    prompt.parse_with_tabs()
     return prompt
 
 
-- 
2.43.0


From e9583d6ca8534405595d99a74e148af42fd7a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:27 +0000
Subject: [PATCH 05/40] fix: allow any prompt as a variable's default in a
 wildcard path

'__${x:{a|b}}__' raised an AttributeError, since only literals were expected.
---
 src/dynamicprompts/parser/parse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index b6c5949..cfd17b2 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -417,10 +417,9 @@ def _parse_wildcard_variable_access_command(
     parts = parse_result[0].as_dict()
     name = parts["name"]
     default = parts.get("default") or LiteralCommand(name)
-    return VariableAccessCommand(
-        name=name,
-        default=LiteralCommand(default.literal.strip()),
-    )
+    if isinstance(default, LiteralCommand):
+        default = LiteralCommand(default.literal.strip())
+    return VariableAccessCommand(name=name, default=default)
 
 
 def _parse_variable_assignment_command(
-- 
2.43.0


From c84069726c60051e151fa14ab229547f7af6dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:51 +0000
Subject: [PATCH 06/40] fix: treat an empty variable value as a value

An empty value or default ('${x=}' or '${x:}') is falsy and was mistaken for
an undefined variable.
---
 src/dynamicprompts/samplers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index a01f248..7472143 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -93,7 +93,7 @@ class Sampler:
     ) -> ResultGen:
         variable = command.name
         command_to_sample = context.variables.get(variable, command.default)
-        if not command_to_sample:
+        if command_to_sample is None:
             if context.unknown_variable_value is None:
                 raise KeyError(f"Variable {variable} is not defined in this context")
             elif isinstance(context.unknown_variable_value, str):
-- 
2.43.0


From 1c1036e8b00ba4a298c6d738229649a08cb2415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:58 +0000
Subject: [PATCH 07/40] fix: keep combinatorial prompts with an empty wrapper
 or wrapped text

Sampling an empty command as a prompt yields nothing, so a wrap with an empty
side made the whole template produce no prompts.
---
 src/dynamicprompts/samplers/combinatorial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index c62a57b..3c18988 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -163,7 +163,7 @@ class CombinatorialSampler(Sampler):
         yield SamplingResult(text=command.literal)
 
     def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
-        for wrapper_result in context.sample_prompts(command.wrapper):
+        for wrapper_result in context.generator_from_command(command.wrapper):
             wrap = wrapper_result.as_wrapper()
-            for inner in context.sample_prompts(command.inner):
+            for inner in context.generator_from_command(command.inner):
                 yield wrap(inner)
-- 
2.43.0


From 8f7b4b56817d6656edac6bfd93eefbfe8729cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:05 +0000
Subject: [PATCH 08/40] fix: honour 0 as a seed for all prompts

A plain integer seed of 0 is falsy and was ignored.
---
 src/dynamicprompts/generators/randomprompt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 166c4de..341781e 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -54,10 +54,10 @@ class RandomPromptGenerator(PromptGenerator):
         if not template:
             template = ""
 
-        if seeds:
-            if isinstance(seeds, int):
-                seeds = [seeds]
+        if isinstance(seeds, int):
+            seeds = [seeds]
 
+        if seeds:
             if len(seeds) == 1:
                 seeds = seeds * num_images
 
-- 
2.43.0


From 4c4d919cd780a9cf4edd276240362be22fb4275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:14 +0000
Subject: [PATCH 09/40] fix: don't leak StopIteration for an empty template
 with seeds

An empty template generates no prompts; passing seeds must not change that.
---
 src/dynamicprompts/generators/randomprompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 341781e..b1dfca0 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import islice
 from random import Random
 
 from dynamicprompts.commands.base import SamplingMethod
@@ -68,7 +69,7 @@ class RandomPromptGenerator(PromptGenerator):
             prompts = []
             for seed in seeds:
                 self._context.rand.seed(seed)
-                prompts.append(str(next(iter(gen))))
+                prompts.extend(str(p) for p in islice(gen, 1))
         else:
             prompts = [
                 str(p) for p in self._context.sample_prompts(template, num_images)
-- 
2.43.0


From c29a28fc0d68309f6602928c028707ebf8d6a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:54 +0000
Subject: [PATCH 10/40] fix: enumerate a missing wildcard once in combinatorial
 sampling

The fallback text was repeated forever, so the other alternatives of the
template were never reached and unbounded generation never ended.
---
 src/dynamicprompts/samplers/combinatorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 3c18988..d43e6a5 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -148,7 +148,8 @@ class CombinatorialSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if not values:
-            yield from get_wildcard_not_found_fallback(command, context)
+            # The fallback is infinite, but there's only one thing to enumerate here.
+            yield next(get_wildcard_not_found_fallback(command, context))
             return
 
         for val in values.iterate_string_values_weighted():
-- 
2.43.0


From 554bdd29f43a7019632696e9043687a6cf105040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:01 +0000
Subject: [PATCH 11/40] fix: fall back for a missing wildcard that is a
 variant's only option

A variant over a wildcard without values had no options at all, which ended
the generator of the enclosing template with a RuntimeError.
---
 src/dynamicprompts/samplers/utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 25ec8bb..366b61c 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -4,6 +4,7 @@ import logging
 
 from dynamicprompts.commands import (
     Command,
+    LiteralCommand,
     VariantCommand,
     VariantOption,
     WildcardCommand,
@@ -26,13 +27,18 @@ def wildcard_to_variant(
 ) -> VariantCommand:
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
-    min_bound = min(min_bound, len(values))
-    max_bound = min(max_bound, len(values))
 
-    variant_options = [
-        VariantOption(parse(v, parser_config=context.parser_config))
-        for v in values.iterate_string_values_weighted()
-    ]
+    if values:
+        variant_options = [
+            VariantOption(parse(v, parser_config=context.parser_config))
+            for v in values.iterate_string_values_weighted()
+        ]
+    else:
+        fallback = next(get_wildcard_not_found_fallback(command, context))
+        variant_options = [VariantOption(LiteralCommand(fallback.text))]
+
+    min_bound = min(min_bound, len(variant_options))
+    max_bound = min(max_bound, len(variant_options))
 
     wildcard_variant = VariantCommand(
         variant_options,
-- 
2.43.0


From 6d8f7d57ac026bfb6008f5462ad3e10cf1330a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 12/40] fix: pass a weighted wildcard's weights on to its
 variant

Expanding '{2$$__w__}' repeated each value by its integer weight, so the same
value could be chosen twice, and values with a weight below one were lost.
---
 src/dynamicprompts/samplers/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 366b61c..5c37683 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -30,8 +30,11 @@ def wildcard_to_variant(
 
     if values:
         variant_options = [
-            VariantOption(parse(v, parser_config=context.parser_config))
-            for v in values.iterate_string_values_weighted()
+            VariantOption(
+                parse(str(item), parser_config=context.parser_config),
+                weight=getattr(item, "weight", 1.0),
+            )
+            for item in values
         ]
     else:
         fallback = next(get_wildcard_not_found_fallback(command, context))
-- 
2.43.0


From 4cc44610dbe1e5458ef2014ed08d96f397b69c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:29 +0000
Subject: [PATCH 13/40] fix: pass parameters to a wildcard that is a variant's
 only option

'{__w(x=1)__}' dropped the parameters, unlike '__w(x=1)__'.
---
 src/dynamicprompts/samplers/combinatorial.py | 5 ++++-
 src/dynamicprompts/samplers/cycle.py         | 5 ++++-
 src/dynamicprompts/samplers/random.py        | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index d43e6a5..bea4666 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -119,7 +119,10 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(wildcard_variant, context)
+            yield from self._get_variant(
+                wildcard_variant,
+                context.with_variables(wildcard_command.variables),
+            )
         else:
             variant_command = variant_command.adjust_range()
             for bound in range(
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 090825f..af78dc0 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -73,7 +73,10 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(wildcard_variant, sampling_context)
+            yield from self._get_variant(
+                wildcard_variant,
+                sampling_context.with_variables(wildcard_command.variables),
+            )
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index a2b9550..1326c24 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -77,7 +77,10 @@ class RandomSampler(Sampler):
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(wildcard_variant, context)
+                yield from self._get_variant(
+                    wildcard_variant,
+                    context.with_variables(command.values[0].variables),
+                )
             else:
                 yield from context.generator_from_command(
                     command.values[0],
-- 
2.43.0


From 3ac94d55984c06df215a76fc7416fa32e26acc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 14/40] fix: honour a zero bound on a single random option

'{0$$a}' and '{0-1$$a}' always chose their only option.
---
 src/dynamicprompts/samplers/random.py | 5 +++--
 src/dynamicprompts/utils.py           | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 1326c24..72e4690 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -81,11 +81,12 @@ class RandomSampler(Sampler):
                     wildcard_variant,
                     context.with_variables(command.values[0].variables),
                 )
-            else:
+                return
+            elif command.min_bound > 0:
                 yield from context.generator_from_command(
                     command.values[0],
                 )
-            return
+                return
         while True:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index ca56efa..b00d575 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -88,7 +88,7 @@ def choose_without_replacement(
     if len(values) == 0:
         return []
     elif len(values) == 1:
-        return values
+        return values[:num_choices]
     else:
         chosen_values = []
         for _ in range(num_choices):
-- 
2.43.0


From a3fb6dd2813b737dc8715917a1dd84d97f15da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:00 +0000
Subject: [PATCH 15/40] fix: keep weights aligned with the remaining options
 when choosing several

The weight of a chosen option was removed by value, i.e. the first equal
weight was dropped, shifting the weights of the options in between.
---
 src/dynamicprompts/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index b00d575..d9ebb1b 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -92,8 +92,7 @@ def choose_without_replacement(
     else:
         chosen_values = []
         for _ in range(num_choices):
-            chosen = rand.choices(values, weights=weights, k=1)[0]
-            chosen_values.append(chosen)
-            weights.remove(weights[values.index(chosen)])
-            values.remove(chosen)
+            index = rand.choices(range(len(values)), weights=weights, k=1)[0]
+            chosen_values.append(values.pop(index))
+            weights.pop(index)
         return chosen_values
-- 
2.43.0


From f285ee76858ee98b9d7011264f115bc63fb322e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:20 +0000
Subject: [PATCH 16/40] fix: draw weighted wildcard values one at a time

Values drawn ahead in batches ignored the seeds given for the later prompts.
---
 src/dynamicprompts/wildcards/values.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/wildcards/values.py b/src/dynamicprompts/wildcards/values.py
index 3c37c31..89e58a0 100644
--- a/src/dynamicprompts/wildcards/values.py
+++ b/src/dynamicprompts/wildcards/values.py
@@ -115,10 +115,9 @@ class WildcardValues:
         else:
             cum_weights = self.cum_weight_values
             while True:
-                # Grab a bunch (but not too many) random values at a time,
-                # to reduce the number of calls to `choices`.
+                # Draw one value at a time, since the random generator
+                # may be reseeded between prompts.
                 yield from rng.choices(
                     self.string_values,
                     cum_weights=cum_weights,
-                    k=10,
                 )
-- 
2.43.0


From f0f7ffebcdec5921d5437f929c82501bba59b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:44 +0000
Subject: [PATCH 17/40] fix: treat equal options of a variant as distinct when
 combining them

Combinations removed every option equal to the chosen one: '{2$$__c__|__c__}'
had no combinations, and cyclical sampling of it never returned.
---
 src/dynamicprompts/commands/variant_command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/commands/variant_command.py b/src/dynamicprompts/commands/variant_command.py
index 58c1419..b56e2ca 100644
--- a/src/dynamicprompts/commands/variant_command.py
+++ b/src/dynamicprompts/commands/variant_command.py
@@ -86,7 +86,7 @@ class VariantCommand(Command):
         if k <= 0:
             yield []
         else:
-            for value in values:
-                other_values = [v for v in values if v != value]
+            for index, value in enumerate(values):
+                other_values = [*values[:index], *values[index + 1 :]]
                 for item in self.get_value_combinations(k - 1, values=other_values):
                     yield [value] + item
-- 
2.43.0


From 7e8e4449f9ed9ba03e8c897edfbb9b520c96a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 18/40] fix: don't fail on a command without values in a
 combinatorial sequence

'x {2$$b|b}' raised a RuntimeError instead of generating no prompts.
---
 src/dynamicprompts/samplers/command_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index 6f17cb3..e179e38 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -16,7 +16,9 @@ class CommandCollection:
     def __init__(self, commands: Iterable[Command], context: SamplingContext) -> None:
         self._commands = list(commands)
         self._generators = [context.generator_from_command(c) for c in self._commands]
-        self._values: list[SamplingResult | None] = [next(g) for g in self._generators]
+        self._values: list[SamplingResult | None] = [
+            next(g, None) for g in self._generators
+        ]
 
     def get_value(self, command: Command) -> SamplingResult | None:
         try:
-- 
2.43.0


From 270c4201044c6f7dd22a8442b3f65adbc49f7073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:58 +0000
Subject: [PATCH 19/40] fix: sample equal non-finite commands of a sequence
 independently

Two equal cyclical commands shared one generator and took turns on its values.
---
 .../samplers/command_collection.py               | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index e179e38..a01d2d7 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -21,11 +21,7 @@ class CommandCollection:
         ]
 
     def get_value(self, command: Command) -> SamplingResult | None:
-        try:
-            index = self._commands.index(command)
-        except ValueError:
-            raise ValueError(f"Command {command} not in collection") from None
-
+        index = self._get_index(command)
         generator = self._generators[index]
         value = self._values[index]
 
@@ -38,6 +34,16 @@ class CommandCollection:
             assert isinstance(self._values[index], SamplingResult), "oopsy"
         return value
 
+    def _get_index(self, command: Command) -> int:
+        # Equal commands have their own generators, so look for the same one first.
+        for index, other_command in enumerate(self._commands):
+            if other_command is command:
+                return index
+        try:
+            return self._commands.index(command)
+        except ValueError:
+            raise ValueError(f"Command {command} not in collection") from None
+
     @property
     def commands(self) -> CommandList:
         return self._commands
-- 
2.43.0


From 860be9bed4e6b4b04cc419c61c9c7a5c2f8ce622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 20/40] fix: return sorted values after shuffling is turned off
 again

Values first requested while shuffling was on were cached unsorted.
---
 src/dynamicprompts/wildcards/wildcard_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 187eac8..2121845 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -196,7 +196,8 @@ class WildcardManager:
         if self.dedup_wildcards:
             wildcards = list(dict.fromkeys(wildcards, None))
 
-        if self.sort_wildcards and not self.shuffle_wildcards:
+        # Values are shuffled, if at all, after they've been looked up in the cache
+        if self.sort_wildcards:
             wildcards = sorted(wildcards, key=str)
 
         values_object = WildcardValues.from_items(wildcards)
-- 
2.43.0


From 76035714ef24a64b254b5442622969b96739c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 21/40] fix: let variable assignments see earlier ones in the
 same prompt

'${a=1}${a?=2}${a}' overwrote the value it should preserve, and an immediate
assignment could not refer to a variable assigned before it.
---
 src/dynamicprompts/sampling_context.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 9503e08..d37407a 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -147,16 +147,16 @@ class SamplingContext:
         If there are no variable assignments,
         the original commands and context are returned as-is.
         """
-        new_variables: dict[str, Command] = {}
+        context = self
         new_commands = []
         for command in commands:
             if isinstance(command, VariableAssignmentCommand):
-                new_variables[command.name] = self.process_variable_assignment(command)
+                # Earlier assignments are visible to later ones
+                value = context.process_variable_assignment(command)
+                context = context.with_variables({command.name: value})
             else:
                 new_commands.append(command)
-        if new_variables:
-            return new_commands, self.with_variables(new_variables)
-        return (new_commands, self)
+        return (new_commands, context)
 
     def process_variable_assignment(
         self,
-- 
2.43.0


From e2b256e429484b3e618719efc9db09c2a291d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:07 +0000
Subject: [PATCH 22/40] fix: sample non-finite values of variables, wildcards
 and wraps once per combination

In a combinatorial prompt such a value was enumerated as if it were finite, so
it never ended and the rest of the combinations was never generated.
---
 src/dynamicprompts/samplers/combinatorial.py | 16 +++++++++++-----
 src/dynamicprompts/sampling_context.py       | 11 ++++++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index bea4666..f8ab3ba 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -12,6 +12,7 @@ from dynamicprompts.commands import (
     WildcardCommand,
     WrapCommand,
 )
+from dynamicprompts.parser.parse import parse
 from dynamicprompts.samplers.base import Sampler
 from dynamicprompts.samplers.command_collection import CommandCollection
 from dynamicprompts.samplers.utils import (
@@ -157,7 +158,11 @@ class CombinatorialSampler(Sampler):
 
         for val in values.iterate_string_values_weighted():
             # Parse and generate prompts from wildcard value
-            yield from context.sample_prompts(val)
+            val_command = parse(val, parser_config=context.parser_config)
+            val_method = context.get_effective_sampling_method(val_command)
+            num_prompts = 1 if val_method.is_nonfinite() else None
+            # (an empty command, e.g. just a comment, isn't a prompt by itself)
+            yield from context.sample_prompts(val_command or val, num_prompts)
 
     def _get_literal(
         self,
@@ -167,7 +172,8 @@ class CombinatorialSampler(Sampler):
         yield SamplingResult(text=command.literal)
 
     def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
-        for wrapper_result in context.generator_from_command(command.wrapper):
-            wrap = wrapper_result.as_wrapper()
-            for inner in context.generator_from_command(command.inner):
-                yield wrap(inner)
+        for wrapper_result, inner in _combo_to_prompt(
+            context,
+            [command.wrapper, command.inner],
+        ):
+            yield wrapper_result.as_wrapper()(inner)
diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index d37407a..6990a3a 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -7,7 +7,10 @@ from random import Random
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.commands import Command, LiteralCommand
-from dynamicprompts.commands.variable_commands import VariableAssignmentCommand
+from dynamicprompts.commands.variable_commands import (
+    VariableAccessCommand,
+    VariableAssignmentCommand,
+)
 from dynamicprompts.constants import DEFAULT_RANDOM
 from dynamicprompts.enums import SamplingMethod
 from dynamicprompts.parser.config import ParserConfig, default_parser_config
@@ -134,6 +137,12 @@ class SamplingContext:
     def get_effective_sampling_method(self, command: Command) -> SamplingMethod:
         if command.sampling_method:
             return command.sampling_method
+        if isinstance(command, VariableAccessCommand):
+            # A variable is sampled as its value is (a recursive one fails when sampled)
+            value = self.variables.get(command.name, command.default)
+            if value is not None and command.name not in self._variables_being_sampled:
+                context = self.for_sampling_variable(command.name)
+                return context.get_effective_sampling_method(value)
         return self.default_sampling_method
 
     def process_variable_assignments(
-- 
2.43.0


From 5b01feb8089d589014696a2ef25d815763441dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:57 +0000
Subject: [PATCH 23/40] fix: escape the search query of the feeling lucky
 generator

Characters such as & or # in a prompt cut the query short.
---
 src/dynamicprompts/generators/feelinglucky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index 31adc3f..84b3019 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -21,9 +21,9 @@ def query_lexica(query) -> dict:
             "Install with `pip install dynamicprompts[feelinglucky]` or "
             "`pip install requests`",
         ) from ie
-    url = f"https://lexica.art/api/v1/search?q={query}"
-    logger.info(f"Requesting {url}")
-    response = requests.get(url)
+    url = "https://lexica.art/api/v1/search"
+    logger.info(f"Requesting {url} for {query!r}")
+    response = requests.get(url, params={"q": query})
     response.raise_for_status()
     return response.json()
 
-- 
2.43.0


From 194e6b7523fe32cded11b6936673cba54295b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:06 +0000
Subject: [PATCH 24/40] fix: retry loading the MagicPrompt model after a
 failure

The model counted as loaded before it was, so after a failed attempt later
generators silently got no pipeline at all.
---
 src/dynamicprompts/generators/magicprompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 7b9b780..b6858f0 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -156,10 +156,11 @@ class MagicPromptGenerator(PromptGenerator):
 
     def set_model(self, model_name: str) -> None:
         if model_name != MagicPromptGenerator._model_name:
-            MagicPromptGenerator._model_name = model_name
+            MagicPromptGenerator._model_name = None
             MagicPromptGenerator.generator = None
 
             self._generator = self._load_pipeline(model_name)
+            MagicPromptGenerator._model_name = model_name
         else:
             self._generator = MagicPromptGenerator.generator
 
-- 
2.43.0


From 96997d5ecfedfb7945db240748d7b92515392b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 25/40] fix: let an open upper bound on a wildcard mean all of
 its values

'{2-$$__w__}' counted the wildcard as a single option, making it '{1-2$$__w__}'.
---
 src/dynamicprompts/parser/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index cfd17b2..43df057 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -31,6 +31,7 @@ Note that whitespace is preserved in case it is significant to the user.
 from __future__ import annotations
 
 import re
+import sys
 from functools import partial
 from typing import Iterable
 from weakref import WeakKeyDictionary
@@ -307,9 +308,13 @@ def _parse_variant_command(parse_result: pp.ParseResults) -> VariantCommand:
         for v in parts["variants"]
     ]
     if "bound_expr" in parts:
+        max_options = len(variants)
+        if max_options == 1 and isinstance(variants[0].value, WildcardCommand):
+            # The wildcard stands for its values, which aren't known yet
+            max_options = sys.maxsize
         min_bound, max_bound, separator = _parse_bound_expr(
             parts["bound_expr"],
-            max_options=len(variants),
+            max_options=max_options,
         )
     else:
         min_bound = max_bound = 1
-- 
2.43.0


From c376dc24ce547fd0e9b837a9b0c35be16da358e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 26/40] fix: end a bound's separator at a configured wrap
 command

---
 src/dynamicprompts/parser/parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 43df057..cdc1312 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -85,13 +85,15 @@ def _configure_range(parser_config: ParserConfig) -> pp.ParserElement:
     # - $, which is used to indicate the end of the separator definition i.e. {1$$ and $$X|Y|Z}
     # - { and }, or whatever variant_start and variant_end are set to,
     #   which are used to indicate the start and end of a variant
+    # - %{, or whatever wrap_start is set to, since a wrap command has a $$ of its own
     # Allowed:
     # - | is allowed as a separator
     variant_start = re.escape(parser_config.variant_start)
     variant_end = re.escape(parser_config.variant_end)
-    separator = pp.Regex(rf"(?:(?!{variant_start}|{variant_end})[ -#%-z|~])+")(
-        "separator",
-    ).leave_whitespace()
+    wrap_start = re.escape(parser_config.wrap_start)
+    separator = pp.Regex(
+        rf"(?:(?!{variant_start}|{variant_end}|{wrap_start})[ -#%-z|~])+",
+    )("separator").leave_whitespace()
 
     bound = pp.common.integer
     bound_range1 = bound("exact")
-- 
2.43.0


From 05401099382c6fb328eb9c0c628c88bb0c0d7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:45 +0000
Subject: [PATCH 27/40] fix: recognize alphanumeric syntax tokens in
 alphanumeric prompts

---
 src/dynamicprompts/parser/parse.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index cdc1312..76deb96 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -350,13 +350,7 @@ def _parse_variable_spec(
     """
     for pair in variable_spec.split(","):
         key, _, value = pair.partition("=")
-        value = value.strip()
-        command: Command
-        if value.isalnum():  # no need to bother...
-            command = LiteralCommand(value)
-        else:
-            command = parse(value, parser_config=parser_config)
-        yield key.strip(), command
+        yield key.strip(), parse(value.strip(), parser_config=parser_config)
 
 
 def _parse_wildcard_command(
@@ -583,7 +577,10 @@ def parse(
     :param prompt: The prompt string to parse.
     :return: A command representing the parsed prompt.
     """
-    if prompt.isalnum():  # no need to actually parse anything
+    if prompt.isalnum() and not any(
+        token in prompt for token in vars(parser_config).values()
+    ):
+        # no need to actually parse anything
         return LiteralCommand(prompt)
 
     tokens = get_cached_parser(parser_config).parse_string(
-- 
2.43.0


From 38e163ea36163411938182055549fe5f97e9600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:35 +0000
Subject: [PATCH 28/40] fix: choose among options of weight zero when no others
 remain

---
 src/dynamicprompts/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index d9ebb1b..48d3be8 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -92,6 +92,8 @@ def choose_without_replacement(
     else:
         chosen_values = []
         for _ in range(num_choices):
+            if not any(weights):  # Nothing to prefer among the remaining values
+                weights = [1.0 for _ in range(len(values))]
             index = rand.choices(range(len(values)), weights=weights, k=1)[0]
             chosen_values.append(values.pop(index))
             weights.pop(index)
-- 
2.43.0


From 7b9e334fbb7a99fbf936b39219eb5d904190b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:48 +0000
Subject: [PATCH 29/40] fix: report a missing wildcard by the path that was
 looked up

---
 src/dynamicprompts/samplers/combinatorial.py | 2 +-
 src/dynamicprompts/samplers/cycle.py         | 2 +-
 src/dynamicprompts/samplers/random.py        | 2 +-
 src/dynamicprompts/samplers/utils.py         | 9 ++-------
 4 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index f8ab3ba..ff5cc45 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -153,7 +153,7 @@ class CombinatorialSampler(Sampler):
 
         if not values:
             # The fallback is infinite, but there's only one thing to enumerate here.
-            yield next(get_wildcard_not_found_fallback(command, context))
+            yield next(get_wildcard_not_found_fallback(wildcard_path, context))
             return
 
         for val in values.iterate_string_values_weighted():
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index af78dc0..f78aaf7 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -109,7 +109,7 @@ class CyclicalSampler(Sampler):
             command.variables,
         ).with_sampling_method(SamplingMethod.CYCLICAL)
         if len(wc_values) == 0:
-            yield from get_wildcard_not_found_fallback(command, new_context)
+            yield from get_wildcard_not_found_fallback(wildcard_path, new_context)
             return
 
         value_samplers = (
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 72e4690..d44b8dd 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -123,7 +123,7 @@ class RandomSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if len(values) == 0:
-            yield from get_wildcard_not_found_fallback(command, context)
+            yield from get_wildcard_not_found_fallback(wildcard_path, context)
             return
 
         gen = self._get_wildcard_choice_generator(context, values)
diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 5c37683..55a82e7 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import logging
 
 from dynamicprompts.commands import (
-    Command,
     LiteralCommand,
     VariantCommand,
     VariantOption,
@@ -37,7 +36,7 @@ def wildcard_to_variant(
             for item in values
         ]
     else:
-        fallback = next(get_wildcard_not_found_fallback(command, context))
+        fallback = next(get_wildcard_not_found_fallback(wildcard, context))
         variant_options = [VariantOption(LiteralCommand(fallback.text))]
 
     min_bound = min(min_bound, len(variant_options))
@@ -54,16 +53,12 @@ def wildcard_to_variant(
 
 
 def get_wildcard_not_found_fallback(
-    command: WildcardCommand,
+    wildcard: str,
     context: SamplingContext,
 ) -> ResultGen:
     """
     Logs a warning, then infinitely yields the wrapped wildcard.
     """
-    if isinstance(command.wildcard, Command):
-        wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
-    else:
-        wildcard = str(command.wildcard)
     logger.warning(f"No values found for wildcard {wildcard!r}")
     wrapped_wildcard = context.wildcard_manager.to_wildcard(wildcard)
     res = SamplingResult(text=wrapped_wildcard)
-- 
2.43.0


From 82490bd1b0dc6832895ea4f60a03f4a06eb3dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:00 +0000
Subject: [PATCH 30/40] fix: read the weight of a wildcard value that contains
 :: itself

---
 src/dynamicprompts/wildcards/collection/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 180a370..eaf9a32 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -24,7 +24,7 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
         if isinstance(item, str):
             # See if the item _could_ have a prefix weight before attempting to parse.
             if item[0].isdigit() and "::" in item:
-                weight_text, _, content = item.rpartition("::")
+                weight_text, _, content = item.partition("::")
                 try:
                     yield WildcardItem(content=content, weight=float(weight_text))
                     continue
-- 
2.43.0


From b24396d90973a9d77ce06676802a9de82886f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:19 +0000
Subject: [PATCH 31/40] fix: keep the whole name of a directory with a dot for
 its structured files

---
 src/dynamicprompts/wildcards/tree/build.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/wildcards/tree/build.py b/src/dynamicprompts/wildcards/tree/build.py
index 9c94a84..1ce8372 100644
--- a/src/dynamicprompts/wildcards/tree/build.py
+++ b/src/dynamicprompts/wildcards/tree/build.py
@@ -19,10 +19,14 @@ log = logging.getLogger(__name__)
 
 
 def _get_wildcard_file_name_from_path(path: Path, root_path: Path):
+    return str(path.relative_to(root_path).with_suffix("")).replace(os.sep, "/")
+
+
+def _get_wildcard_prefix_from_path(path: Path, root_path: Path):
     if path == root_path:
-        # Special case, because `with_suffix()` would fail
         return ""
-    return str(path.relative_to(root_path).with_suffix("")).replace(os.sep, "/")
+    # Directories have no suffix to remove, even if their name has a dot in it
+    return str(path.relative_to(root_path)).replace(os.sep, "/")
 
 
 def _get_wildcard_collections_from_path(
@@ -36,7 +40,7 @@ def _get_wildcard_collections_from_path(
         return
 
     if file_path.suffix in (".json", ".yaml"):
-        pantry_root_prefix = _get_wildcard_file_name_from_path(
+        pantry_root_prefix = _get_wildcard_prefix_from_path(
             path=file_path.parent,
             root_path=root_path,
         )
-- 
2.43.0


From 2943d076e6a6f4a6c42cb0097d12dbfcec318240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:47 +0000
Subject: [PATCH 32/40] fix: clean a wildcard name before looking it up in
 sub-directories

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 2121845..ff0a8aa 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -123,15 +123,24 @@ class WildcardManager:
         self._tree = None
         self._values_cache.clear()
 
-    def match_collections(self, wildcard: str) -> Iterable[WildcardCollection]:
+    def match_collections(
+        self,
+        wildcard: str,
+        *,
+        recursive: bool = False,
+    ) -> Iterable[WildcardCollection]:
         """
         Find `WildcardCollection` objects that match the given glob pattern.
+
+        If `recursive` is set, the pattern is matched within any sub-directory instead.
         """
         try:
             wildcard = clean_wildcard(wildcard, wildcard_wrap=self._wildcard_wrap)
         except ValueError:
             logger.warning(f"Invalid wildcard: {wildcard}", exc_info=True)
             return []
+        if recursive:
+            wildcard = f"**/{wildcard}"
         return self.tree.match_collections(wildcard)
 
     def get_file(self, name: str) -> WildcardCollection:
@@ -180,7 +189,7 @@ class WildcardManager:
         if not values and not wildcard.startswith("**"):
             # If the wildcard doesn't match anything, try again with a recursive wildcard
             rec_wildcard = f"**/{wildcard}"
-            rec_colls = list(self.match_collections(rec_wildcard))
+            rec_colls = list(self.match_collections(wildcard, recursive=True))
             for f in rec_colls:
                 values.extend(f.get_values())
             if values:
-- 
2.43.0


From 4e6f1320f9e50e526e19bb4970da0d6d95cbabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:07 +0000
Subject: [PATCH 33/40] fix: recognise a value with an explicit weight of 1 as
 a duplicate

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index ff0a8aa..2a210d3 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -203,7 +203,11 @@ class WildcardManager:
         wildcards = list(values)
 
         if self.dedup_wildcards:
-            wildcards = list(dict.fromkeys(wildcards, None))
+            # A plain string is the same value as an item of weight 1
+            unique: dict[tuple[str, float], str | WildcardItem] = {}
+            for value in wildcards:
+                unique.setdefault((str(value), getattr(value, "weight", 1)), value)
+            wildcards = list(unique.values())
 
         # Values are shuffled, if at all, after they've been looked up in the cache
         if self.sort_wildcards:
-- 
2.43.0


From d720842f9436bf09861f58a2560e956e32ccced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:17 +0000
Subject: [PATCH 34/40] fix: list the permutations of every size for items
 given by an iterator

---
 src/dynamicprompts/jinja_extensions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicprompts/jinja_extensions.py b/src/dynamicprompts/jinja_extensions.py
index 75bc57b..f6cb071 100644
--- a/src/dynamicprompts/jinja_extensions.py
+++ b/src/dynamicprompts/jinja_extensions.py
@@ -28,6 +28,7 @@ def permutation(
     high: int | None = None,
 ) -> list[Any]:
     vars: list[Any] = []
+    items = list(items)  # may be an iterator, which could be used only once
     if high is None:
         high = low
 
-- 
2.43.0


From bfebdd488344f84c26ae1622c95ce1e6d28a1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:46 +0000
Subject: [PATCH 35/40] fix: report the model a magic prompt generator uses,
 not the one loaded last

---
 src/dynamicprompts/generators/magicprompt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index b6858f0..25a2743 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -163,6 +163,8 @@ class MagicPromptGenerator(PromptGenerator):
             MagicPromptGenerator._model_name = model_name
         else:
             self._generator = MagicPromptGenerator.generator
+        # Another generator may load another model later
+        self._model_name = model_name
 
     def generate(self, *args, max_attempts: int = 20, **kwargs) -> list[str]:
         prompts = self._prompt_generator.generate(*args, **kwargs)
-- 
2.43.0


From 3f3cf270268bdf204c0d0e2304585b510fa1efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:41 +0000
Subject: [PATCH 36/40] fix: emphasise a magic phrase where its bangs are, not
 inside other words

---
 src/dynamicprompts/generators/magicprompt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 25a2743..2d916cd 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -48,12 +48,11 @@ def clean_up_magic_prompt(orig_prompt: str, prompt: str) -> str:
     prompt = re.sub(r"\b,\s*,\s*\b", ", ", prompt)
 
     # Translate bangs into proper weight modifiers
-    for match in re.findall(r"\b([\w\s\-]+)(\!+)", prompt):
-        phrase = match[0]
-        full_match = match[0] + match[1]
-        weight = round(pow(1.1, len(match[1])), 2)
-
-        prompt = prompt.replace(full_match, f"({phrase}:{weight})")
+    prompt = re.sub(
+        r"\b([\w\s\-]+)(\!+)",
+        lambda match: f"({match[1]}:{round(pow(1.1, len(match[2])), 2)})",
+        prompt,
+    )
 
     # Put the original prompt back in
     if removed_prompt_prefix:
-- 
2.43.0


From e3557a3b534e37039a2885e3348988a145ff6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 37/40] fix: ignore whitespace in whole prompts, not in the
 wildcard values they are made of

---
 src/dynamicprompts/sampling_context.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 6990a3a..cafb31f 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -125,10 +125,16 @@ class SamplingContext:
         else:
             raise TypeError(f"Expected prompt to be str or Command, got {type(prompt)}")
 
-        gen = self.generator_from_command(command)
-
         if self.ignore_whitespace:
-            gen = (res.whitespace_squashed() for res in gen)
+            # Squash whole prompts only: squashing the parts they're made of,
+            # such as wildcard values, would glue words together.
+            context = dataclasses.replace(self, ignore_whitespace=False)
+            gen = (
+                res.whitespace_squashed()
+                for res in context.generator_from_command(command)
+            )
+        else:
+            gen = self.generator_from_command(command)
 
         if num_prompts is None:
             return gen
-- 
2.43.0


From 9f4a062ebf3937afaf692df37392cc9ba1ecc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:30 +0000
Subject: [PATCH 38/40] fix: report a weight that is too large as a ValueError

---
 src/dynamicprompts/parser/parse.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 76deb96..0cae973 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -306,7 +306,7 @@ def _parse_variant_command(parse_result: pp.ParseResults) -> VariantCommand:
     sampling_method = _parse_sampling_method(sampling_method_symbol)
 
     variants = [
-        VariantOption(value=v["val"], weight=float(v["weight"][0]))
+        VariantOption(value=v["val"], weight=_parse_weight(v["weight"][0]))
         for v in parts["variants"]
     ]
     if "bound_expr" in parts:
@@ -330,6 +330,13 @@ def _parse_variant_command(parse_result: pp.ParseResults) -> VariantCommand:
     )
 
 
+def _parse_weight(weight: int | float) -> float:
+    try:
+        return float(weight)
+    except OverflowError as oe:
+        raise ValueError(f"Weight is too large: {weight}") from oe
+
+
 def _parse_sampling_method(sampling_method_symbol: str | None) -> SamplingMethod | None:
     if sampling_method_symbol is None:
         return None
-- 
2.43.0


From db67b1df66b400fa6c98e396defeab8df01418b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:53 +0000
Subject: [PATCH 39/40] fix: an empty wildcard value is a value

---
 src/dynamicprompts/samplers/combinatorial.py | 3 ++-
 src/dynamicprompts/samplers/cycle.py         | 4 +++-
 src/dynamicprompts/samplers/random.py        | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index ff5cc45..0a2691a 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -162,7 +162,8 @@ class CombinatorialSampler(Sampler):
             val_method = context.get_effective_sampling_method(val_command)
             num_prompts = 1 if val_method.is_nonfinite() else None
             # (an empty command, e.g. just a comment, isn't a prompt by itself)
-            yield from context.sample_prompts(val_command or val, num_prompts)
+            prompt = val_command or LiteralCommand("")
+            yield from context.sample_prompts(prompt, num_prompts)
 
     def _get_literal(
         self,
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index f78aaf7..6d66765 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -6,6 +6,7 @@ from typing import Generator, Iterable, cast
 
 from dynamicprompts.commands import (
     Command,
+    LiteralCommand,
     SamplingMethod,
     VariantCommand,
     WildcardCommand,
@@ -113,7 +114,8 @@ class CyclicalSampler(Sampler):
             return
 
         value_samplers = (
-            new_context.sample_prompts(val)
+            # (an empty value isn't a prompt by itself)
+            new_context.sample_prompts(val or LiteralCommand(""))
             for val in wc_values.iterate_string_values_weighted()
         )
         value_result_gens = [to_result_gen(val) for val in value_samplers]
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index d44b8dd..2603305 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -6,6 +6,7 @@ from typing import Iterator
 
 from dynamicprompts.commands import (
     Command,
+    LiteralCommand,
     VariantCommand,
     WildcardCommand,
     WrapCommand,
@@ -128,7 +129,8 @@ class RandomSampler(Sampler):
 
         gen = self._get_wildcard_choice_generator(context, values)
         while True:
-            value = next(gen)
+            # (an empty value isn't a prompt by itself)
+            value = next(gen) or LiteralCommand("")
             yield from context.sample_prompts(value, 1)
 
     def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
-- 
2.43.0


From 2760d83de2ba56780b58ac01c8a232b6c10a74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:08 +0000
Subject: [PATCH 40/40] fix: honour the sampler symbol of a wildcard that is a
 variant's only option

---
 src/dynamicprompts/samplers/combinatorial.py |  9 ++++-----
 src/dynamicprompts/samplers/cycle.py         |  7 +++----
 src/dynamicprompts/samplers/random.py        |  7 +++----
 src/dynamicprompts/sampling_context.py       | 14 +++++++++++++-
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 0a2691a..5461734 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -58,7 +58,7 @@ class CombinatorialSampler(Sampler):
     ) -> ResultGen:
         tokens, context = context.process_variable_assignments(command.tokens)
         non_combo_commands = [
-            c for c in tokens if c.sampling_method != SamplingMethod.COMBINATORIAL
+            c for c in tokens if context.get_effective_sampling_method(c).is_nonfinite()
         ]
         command_collection = CommandCollection(
             non_combo_commands,
@@ -120,10 +120,9 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(
-                wildcard_variant,
-                context.with_variables(wildcard_command.variables),
-            )
+            yield from context.with_variables(
+                wildcard_command.variables,
+            ).generator_from_command(wildcard_variant)
         else:
             variant_command = variant_command.adjust_range()
             for bound in range(
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 6d66765..f9106cf 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -74,10 +74,9 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(
-                wildcard_variant,
-                sampling_context.with_variables(wildcard_command.variables),
-            )
+            yield from sampling_context.with_variables(
+                wildcard_command.variables,
+            ).generator_from_command(wildcard_variant)
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 2603305..94c661f 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -78,10 +78,9 @@ class RandomSampler(Sampler):
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(
-                    wildcard_variant,
-                    context.with_variables(command.values[0].variables),
-                )
+                yield from context.with_variables(
+                    command.values[0].variables,
+                ).generator_from_command(wildcard_variant)
                 return
             elif command.min_bound > 0:
                 yield from context.generator_from_command(
diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index cafb31f..b708d2e 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -6,7 +6,12 @@ from itertools import islice
 from random import Random
 from typing import TYPE_CHECKING, Iterable
 
-from dynamicprompts.commands import Command, LiteralCommand
+from dynamicprompts.commands import (
+    Command,
+    LiteralCommand,
+    VariantCommand,
+    WildcardCommand,
+)
 from dynamicprompts.commands.variable_commands import (
     VariableAccessCommand,
     VariableAssignmentCommand,
@@ -141,6 +146,13 @@ class SamplingContext:
         return islice(gen, num_prompts)
 
     def get_effective_sampling_method(self, command: Command) -> SamplingMethod:
+        if isinstance(command, VariantCommand) and len(command.values) == 1:
+            # A wildcard that is a variant's only option is sampled in its place
+            option = command.values[0]
+            if isinstance(option, WildcardCommand):
+                method = option.sampling_method
+                if method and method.is_nonfinite():
+                    return method
         if command.sampling_method:
             return command.sampling_method
         if isinstance(command, VariableAccessCommand):
-- 
2.43.0

