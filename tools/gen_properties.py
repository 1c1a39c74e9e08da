"""Writes properties.jsonl (the single source for ids, titles and statements)."""
import json, os
P = []
S = "src/dynamicprompts/"

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": state, "where": S + files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Templates are parsed into exactly the structure that was written",
 "Parsing a template built from the documented constructs (literal text, variants with weights, bounds, separators and sampler symbols, wildcards with computed paths and parameters, variable assignments and accesses with defaults, wraps, arbitrarily nested) yields exactly the elements that were written, in order and with those attributes. Literal text comes back character for character, whitespace and non-ASCII included; only the whitespace that pads an option's start, a variable's name and value, or a wrap's parts is dropped. Nothing is lost, merged, reordered or re-associated, however deep the nesting.",
 ["inputs"], "every template derivable from the documented grammar, with any literal text, nesting and layout",
 "The tests parse a few dozen hand-written templates; the interplay of literals, weights, bounds, separators and nesting is combinatorial.",
 ["parser/parse.py", "commands/variant_command.py"],
 [("grammar and parse actions", "parser/parse.py"), ("bound normalisation", "commands/variant_command.py")],
 ["the command tree returned by parse()"])

prop("C02", "Parsing is total, repeatable and consumes all of its input",
 "For every string, parsing terminates and either returns a command for the whole text or raises the parser's own parse error (or ValueError); no other exception escapes and no part of the text is silently ignored apart from comments. Parsing is a pure function: parsing the same text again, in any history of other (also failing) parses and with any other syntax configuration in use, gives an equal result.",
 ["inputs", "histories"], "every string (valid, truncated, mutated, random, hostile unicode) and every history of parser calls",
 "Tests try a handful of malformed prompts, each against a fresh state.",
 ["parser/parse.py"],
 [("parse()", "parser/parse.py"), ("parser cache per configuration", "parser/parse.py")],
 ["result or exception of parse()"], "cache of parsers keyed by syntax configuration")

prop("C03", "Custom syntax tokens change the notation and nothing else",
 "A template written with any usable configuration of delimiters (variant, wildcard, variable and wrap tokens of one or several characters, different from each other where the grammar needs it) means what the same template means in the default notation: it parses to the same structure and generates the same prompts. Characters that are special only in the default notation are then ordinary text, and several configurations can be in use side by side.",
 ["configurations", "inputs"], "every usable choice of delimiter tokens and every template",
 "Tests cover two or three configurations with one template each.",
 ["parser/parse.py", "parser/config.py", "sampling_context.py", "generators/randomprompt.py", "generators/combinatorial.py"],
 [("token configuration", "parser/config.py"), ("configured grammar", "parser/parse.py"), ("configuration carried into nested wildcard values", "samplers/utils.py")],
 ["parse()", "generate()"])

prop("C04", "Comments never reach prompts and whitespace follows the chosen policy",
 "A comment running from # to the end of its line never contributes text to a prompt, and the text before it and on the following lines is still there. Without the ignore-whitespace option all whitespace away from comments is output as written; with it every generated prompt, from the random and the combinatorial generator alike, has no leading or trailing whitespace and only single spaces between words, and is otherwise the prompt generated without the option.",
 ["inputs", "configurations"], "every placement of comments and whitespace in templates and wildcard values, with the option on or off",
 "Tests use two commented prompts and two whitespace samples.",
 ["parser/parse.py", "sampling_context.py", "utils.py", "sampling_result.py"],
 [("comment handling", "parser/parse.py"), ("whitespace squashing", "sampling_context.py")],
 ["generate() output"])

prop("C05", "Random generation returns the requested number of valid prompts",
 "For every template, wildcard set and random stream, the random generator returns exactly as many prompts as requested, and each is one of the prompts the template denotes: literal text unchanged, each variant replaced by one of its options with a positive weight, each wildcard by one of its values expanded in turn, each variable by its value, each wrap around its content. No markup of a defined construct remains in a prompt.",
 ["inputs", "configurations"], "every template, wildcard collection, seed and request size",
 "Tests mock the choices; real choices over nested templates are never compared with what the template allows.",
 ["samplers/random.py", "samplers/base.py", "samplers/utils.py", "generators/randomprompt.py", "utils.py"],
 [("random sampler", "samplers/random.py"), ("sequence joining", "samplers/base.py")],
 ["RandomPromptGenerator.generate()", "SamplingContext.sample_prompts()"])

prop("C06", "Random choices follow the weights",
 "In random sampling each option of a variant and each value of a wildcard is chosen with probability proportional to its weight (1 if none is given), independently for every prompt and every occurrence: nothing with a positive weight is unreachable and nothing with weight zero is ever chosen while an alternative exists. When several options are chosen the remaining ones keep their own weights, and the number chosen is uniform over the allowed range.",
 ["inputs", "configurations"], "every set of options and weights, bounds, and position in the template",
 "Frequencies need thousands of draws per template; the tests replace the random choice by a mock.",
 ["samplers/random.py", "utils.py", "wildcards/values.py", "commands/variant_command.py"],
 [("weighted choice without replacement", "utils.py"), ("weighted wildcard draw", "wildcards/values.py")],
 ["frequencies over generate() output"])

prop("C07", "Choosing several options respects bounds, distinctness and separator",
 "A variant with bounds yields between its lower and upper bound many options (reversed bounds are swapped, a missing lower bound is one, a missing upper bound is the number of options, and bounds beyond the number of options are reduced to it), never the same option twice, joined by exactly its separator (comma if none) and empty when zero are chosen. This holds under every sampling method, for literal options, nested variants and a wildcard standing for its values, and every allowed count and order does occur.",
 ["inputs", "configurations"], "every bound form, option list, separator, nesting and sampling method",
 "Tests pin a few bound/separator pairs with mocked choices.",
 ["commands/variant_command.py", "samplers/random.py", "samplers/combinatorial.py", "samplers/cycle.py", "samplers/utils.py", "utils.py", "sampling_result.py"],
 [("bounds", "parser/parse.py"), ("choice without replacement", "utils.py"), ("combinations", "commands/variant_command.py"), ("joining", "sampling_result.py")],
 ["generate() output", "SamplingContext.sample_prompts()"])

prop("C08", "Combinatorial generation enumerates every combination, in order",
 "For a finite template, combinatorial generation yields exactly the combinations the template denotes: for each choice in the template every option (whatever its weight), with the leftmost choice varying slowest and options and wildcard values taken in their order, bounds from low to high. No combination is missing, none is repeated within a variant, and the enumeration ends.",
 ["inputs", "configurations"], "every finite template and wildcard set",
 "Tests enumerate a few small templates; missing or repeated combinations appear only for particular nestings.",
 ["samplers/combinatorial.py", "commands/variant_command.py", "samplers/utils.py", "generators/combinatorial.py", "sampling_context.py"],
 [("sequence product", "samplers/combinatorial.py"), ("variant combinations", "commands/variant_command.py")],
 ["CombinatorialPromptGenerator.generate()"])

prop("C09", "A prompt limit gives a prefix, for work in proportion to the limit",
 "With a limit of N, combinatorial generation returns exactly the first N prompts of the full enumeration, or all of them if there are fewer (the default limit is 1000, and no limit means all). The work done and memory held depend on N and on the size of the template, not on the number of combinations, so templates with astronomically many combinations still answer at once.",
 ["inputs", "configurations"], "every template, in particular with huge numbers of combinations, and every limit including 0 and none",
 "Tests use limits on tiny templates, where eager enumeration is indistinguishable.",
 ["samplers/combinatorial.py", "generators/combinatorial.py", "sampling_context.py"],
 [("lazy generators", "samplers/combinatorial.py"), ("limit", "sampling_context.py")],
 ["CombinatorialPromptGenerator.generate()", "executed steps"])

prop("C10", "Cyclical sampling steps through the values in order and in lockstep",
 "Cyclical sampling is deterministic: the n-th prompt shows the n-th option, combination or wildcard value of each cyclical element counted from the start and wrapping around at its end, a nested cyclical element advancing once per full turn of the one around it, and all elements of a sequence advancing together, one step per prompt. It never ends by itself, never skips or repeats out of turn, and does not depend on any random stream.",
 ["inputs", "histories"], "every template and wildcard set, at every index of the stream",
 "Tests look at the first few prompts of simple templates.",
 ["samplers/cycle.py", "samplers/base.py", "commands/variant_command.py", "utils.py"],
 [("cyclical sampler", "samplers/cycle.py"), ("lockstep sequences", "samplers/base.py")],
 ["SamplingContext.sample_prompts()"])

prop("C11", "A sampler symbol applies to its element and to what is nested in it",
 "An element marked ~, @ or !, a wildcard that is a variant's only option included, is sampled by that method, and so is everything nested in it until another symbol; the rest of the template keeps its own method. Inside a combinatorial template each random or cyclical element gives one fresh value per emitted prompt, without multiplying, dropping or blocking combinations; inside a random template a cyclical element steps once per prompt; and a combinatorial symbol in a random or cyclical setting is reported by a warning and sampled by the surrounding method.",
 ["inputs", "configurations"], "every placement of sampler symbols on variants and wildcards, under every surrounding method",
 "Tests mix two methods in a few fixed templates.",
 ["sampling_context.py", "samplers/combinatorial.py", "samplers/command_collection.py", "samplers/cycle.py", "samplers/random.py"],
 [("method resolution", "sampling_context.py"), ("non-finite elements of a combinatorial sequence", "samplers/command_collection.py")],
 ["SamplingContext.sample_prompts()", "warnings"])

prop("C12", "Seeds determine random prompts",
 "Two random generators created with the same seed give the same prompts for the same sequence of calls, in any process. With one seed per prompt, each prompt depends only on the template, the wildcards and its own seed, not on its position, on the other seeds or on earlier calls (elements drawn once per call, such as immediate variables and computed wildcard paths, shuffled wildcards, and cyclical elements, which step from prompt to prompt, aside); a single seed (0 included) applies to every prompt, and a number of seeds that does not match the number of prompts is rejected. Without a seed, and with prompts unlinked from the seed, different calls give different streams.",
 ["inputs", "histories", "configurations"], "every template, wildcard set, seed list and call history, across processes",
 "Tests check seeding calls on a mock, not that prompts depend on nothing else.",
 ["generators/randomprompt.py", "samplers/random.py", "wildcards/values.py", "constants.py"],
 [("seeding", "generators/randomprompt.py"), ("draws from the context's random stream only", "samplers/random.py")],
 ["RandomPromptGenerator.generate()"], "the generator's own random stream")

prop("C13", "Generations do not affect each other or the caller's objects",
 "What random, combinatorial or cyclical generation returns does not depend on other generators being created, used, abandoned half-way or interleaved with it, nor on the global random state, which generating prompts leaves untouched. Templates, command objects, variables, wildcard maps, seed lists and other arguments are never modified, and using them again gives the same results (wildcards set to be shuffled aside).",
 ["histories", "schedules", "inputs"], "every interleaving of generators, contexts and calls over shared wildcard managers and commands",
 "Tests run one generator at a time and never reuse arguments.",
 ["sampling_context.py", "samplers/base.py", "samplers/random.py", "samplers/combinatorial.py", "samplers/cycle.py", "generators/randomprompt.py", "wildcards/values.py"],
 [("immutable contexts and commands", "sampling_context.py"), ("own random streams", "generators/randomprompt.py")],
 ["generate()", "sample_prompts() iterators", "random.getstate()"])

prop("C14", "Variables hold what was assigned to them",
 "An access gives the value assigned in the enclosing prompt, wherever in it the assignment stands, else the inherited value, else its default, else the configured value for unknown variables or an error. The last of several assignments wins, except that a preserving assignment (?=) keeps a value that is already there; an immediate assignment (=!) is evaluated once so that all its accesses agree, while an ordinary one is sampled anew at each access. Assignments, which may stand at the top level of a prompt or wildcard value, leave no trace in the output, do not leak into other prompts, and a variable defined by itself is reported as recursive instead of looping.",
 ["inputs", "configurations", "histories"], "every arrangement of assignments, accesses, defaults and inherited variables, under every sampling method",
 "Tests cover a dozen fixed arrangements.",
 ["sampling_context.py", "samplers/base.py", "parser/parse.py", "commands/variable_commands.py"],
 [("assignment processing", "sampling_context.py"), ("variable access", "samplers/base.py")],
 ["SamplingContext.sample_prompts()", "generate()"])

prop("C15", "Wildcard parameters and computed paths reach exactly the referenced values",
 "Parameters given in a wildcard reference are variables inside the values of that reference, overriding outer variables of the same name there, and nowhere else: neither the rest of the template nor another reference sees them. A wildcard path containing variables or variants denotes the collection named by the resulting text, which is determined once per reference and call (its first value unless sampled at random), and variables assigned within a value stay in that value.",
 ["inputs", "configurations"], "every combination of parameters, nesting of parameterised references, computed paths and surrounding variables, under every sampling method",
 "Tests cover a few parameterised templates, mostly with one parameter.",
 ["parser/parse.py", "samplers/random.py", "samplers/combinatorial.py", "samplers/cycle.py", "samplers/utils.py", "sampling_context.py"],
 [("parameter parsing", "parser/parse.py"), ("scoped variables", "sampling_context.py")],
 ["SamplingContext.sample_prompts()"])

prop("C16", "A wrap puts its content exactly at the marker",
 "A wrap command yields the wrapper text with its first ellipsis marker (any of the supported characters or at least three dots) replaced by the wrapped text, and wrapper text without a marker precedes the wrapped text; nothing else changes. Random sampling draws both parts for each prompt, combinatorial sampling pairs every wrapper with every wrapped text, and both parts may be arbitrary prompts.",
 ["inputs"], "every wrapper and wrapped prompt, marker form and position, under random and combinatorial sampling",
 "Tests use four wrapper strings.",
 ["commands/wrap_command.py", "sampling_result.py", "samplers/random.py", "samplers/combinatorial.py", "parser/parse.py"],
 [("marker split", "commands/wrap_command.py"), ("wrapping", "sampling_result.py")],
 ["generate()", "SamplingContext.sample_prompts()"])

prop("C17", "Wildcard collections are exactly those found under the roots",
 "The known collections are exactly the .txt files and the entries of .json and .yaml files below the configured roots (hidden directories excluded), named by their path relative to the root without extension (nested keys joined by /, below the mapped prefix), plus the collections given in memory. A text file's values are its stripped lines without blank and # lines, in order; a structured entry's values are its strings and weighted items in order, a single string counting as one value, and a structured file that is just a list is one collection of its strings.",
 ["inputs", "configurations"], "every directory tree, file content, structured document and root map",
 "Tests load one fixed pantry and a few files.",
 ["wildcards/tree/build.py", "wildcards/tree/tree.py", "wildcards/tree/node.py", "wildcards/collection/text_file.py", "wildcards/collection/structured.py", "wildcards/collection/list.py", "wildcards/wildcard_manager.py", "utils.py"],
 [("tree building", "wildcards/tree/build.py"), ("file parsing", "wildcards/collection/structured.py")],
 ["WildcardManager.get_collection_names()", "get_values()", "get_file()", "tree"])

prop("C18", "Wildcard lookup returns all values of all matching collections",
 "Looking up a name returns the values of the collection with that name, and a glob pattern those of all matching collections (* and ? also match across /); if that gives no values, those of collections with that name in any sub-directory. Values are de-duplicated and sorted unless these options are turned off, and shuffled only on request and only as a permutation; wrapping, repeated or leading or trailing slashes and backslashes do not matter, and lookup never modifies the collections.",
 ["inputs", "configurations", "histories"], "every set of collections, every name or pattern, and every setting",
 "Tests look up a dozen names in one fixed tree.",
 ["wildcards/wildcard_manager.py", "wildcards/tree/tree.py", "wildcards/utils.py", "wildcards/values.py"],
 [("lookup", "wildcards/wildcard_manager.py"), ("glob matching", "wildcards/tree/tree.py"), ("name normalisation", "wildcards/utils.py")],
 ["WildcardManager.get_values()", "match_collections()", "get_file()", "to_wildcard()", "is_wildcard()"])

prop("C19", "Wildcard names cannot reach outside the configured roots",
 "Whatever name, pattern or computed path a template or caller uses, and whatever the wildcard files contain, resolving wildcards and generating prompts from templates (other than Jinja code that itself opens files) opens only files below the configured roots, opens them for reading only, and never shows content from elsewhere; names containing .. match nothing. Without a root nothing on disk is opened.",
 ["inputs", "configurations", "histories"], "every hostile wildcard name, pattern, template and root configuration",
 "Tests check that two names with .. yield nothing; they do not watch file access.",
 ["wildcards/wildcard_manager.py", "wildcards/utils.py", "wildcards/tree/build.py", "wildcards/collection/text_file.py", "wildcards/collection/structured.py"],
 [("name validation", "wildcards/utils.py"), ("in-memory lookup", "wildcards/tree/tree.py")],
 ["file-access audit events", "get_values()", "generate()"])

prop("C20", "Cached wildcard lookups always equal fresh ones",
 "At every point of any history of lookups, option changes and cache clears, a lookup gives what a newly created manager with the same options would give, except that changes to the files may show only once the cache is cleared, and then do; changing the sort or de-duplication option takes effect at once, and toggling shuffling leaves no trace. A text collection rewritten through its own object returns its new values on the next read, and the number of different names looked up, however large, never changes results.",
 ["histories", "configurations"], "every sequence of lookups, rewrites, option toggles and cache clears, with any number of names",
 "Tests make at most a few lookups on one manager.",
 ["wildcards/wildcard_manager.py", "wildcards/collection/text_file.py", "wildcards/values.py"],
 [("values cache and tree", "wildcards/wildcard_manager.py"), ("file cache", "wildcards/collection/text_file.py")],
 ["WildcardManager.get_values()", "WildcardTextFile.get_values()/write_text()"], "values cache, tree, per-file line cache")

prop("C21", "Weights of wildcard values are read and used faithfully",
 "A value in an entry of a structured file's mapping that is written with a weight (a leading number and ::, or a mapping with text or content and weight) has exactly that text and weight, and everything else is a plain value of weight one. Random sampling draws values in proportion to the weights, and combinatorial and cyclical sampling use each value as many times as the whole part of its weight, in order (a variant whose only option is the wildcard uses each value once); merging collections keeps every value's weight.",
 ["inputs", "configurations"], "every structured document with weighted values, and every template using them",
 "Tests cover one weighted file with three items.",
 ["wildcards/collection/structured.py", "wildcards/values.py", "wildcards/item.py", "samplers/utils.py", "samplers/random.py", "samplers/combinatorial.py", "samplers/cycle.py"],
 [("weight parsing", "wildcards/collection/structured.py"), ("weighted iteration and draws", "wildcards/values.py")],
 ["get_values()", "sample_prompts()"])

prop("C22", "Missing wildcards and broken files stay contained",
 "A reference to an unknown or empty wildcard, alone, in a sequence, as an option or as a variant's only option, is output in its wrapped form and reported by a log warning, and everything else in the template is generated as usual and to completion under every sampling method. A malformed or unreadable structured file, or undecodable bytes in a text file, never prevents the other collections from being listed and used.",
 ["inputs", "fault_sequences", "configurations"], "every placement of missing wildcards in templates and every kind of broken wildcard file next to good ones",
 "Tests use one missing wildcard in a literal sequence and no broken file next to good ones.",
 ["samplers/utils.py", "samplers/random.py", "samplers/combinatorial.py", "samplers/cycle.py", "wildcards/tree/build.py", "wildcards/collection/structured.py", "wildcards/collection/text_file.py"],
 [("fallback", "samplers/utils.py"), ("fault isolation when building the tree", "wildcards/tree/build.py")],
 ["generate()", "sample_prompts()", "WildcardManager", "log records"])

prop("C23", "Jinja templates produce the prompts their blocks describe",
 "For every Jinja template the result is its rendering, once per requested prompt, or, if it has prompt blocks, the text of every block in the order rendered; limiting cuts the list to the requested number. The provided functions mean what they say: choice and weighted_choice pick one of their arguments (by weight), permutations lists all of them by size, wildcard and all_combinations list everything the given wildcard or prompt can expand to in enumeration order (up to the usual maximum of 1000), and random_sample gives one valid prompt. Calls do not influence each other and a template syntax error is reported as the generator's own exception.",
 ["inputs", "histories", "configurations"], "every Jinja template, wildcard set, context, option and call history",
 "Tests render about twenty fixed templates.",
 ["generators/jinjagenerator.py", "jinja_extensions.py"],
 [("rendering and block collection", "generators/jinjagenerator.py"), ("template functions", "jinja_extensions.py")],
 ["JinjaGenerator.generate()"])

prop("C24", "Wrapping generators transform prompts without losing or mixing them",
 "The attention generator returns one prompt per inner prompt, in order, each equal to it except that one chunk of its text (a run between punctuation marks, not merely digits or punctuation) is emphasised as (chunk:weight) wherever it occurs, with a weight within the configured limits (rounded to two decimals) given in either order; prompts without such a chunk are unchanged. The batched generator returns the inner generator's results of exactly the requested number of runs one after the other, the dummy generator the template as often as asked, and arguments are passed on unchanged.",
 ["inputs", "configurations"], "every inner generator, prompt list, limit pair and batch count",
 "Tests use mocks for the random choice and one or two prompts.",
 ["generators/attentiongenerator.py", "generators/batched_combinatorial.py", "generators/dummygenerator.py"],
 [("emphasis", "generators/attentiongenerator.py"), ("batching", "generators/batched_combinatorial.py")],
 ["generate()"])

prop("C25", "Feeling Lucky searches for the prompt and returns only found prompts",
 "The search is made exactly once per call, for exactly the text generated from the query template whatever characters it contains, or for a random number if that text is blank. The requested number of prompts is returned, each one found by that search, every found one being possible; any failure of the request or of its answer's format is reported as the generator's own exception.",
 ["inputs", "fault_sequences"], "every query, inner generator, search answer and failure of the request",
 "Tests mock the query function itself and one failure.",
 ["generators/feelinglucky.py"],
 [("search request", "generators/feelinglucky.py"), ("selection", "generators/feelinglucky.py")],
 ["requests seen by a stand-in for the HTTP library", "generate()"])

prop("C26", "Magic prompts extend their own prompt and respect the blocklist",
 "The magic prompt generator returns one prompt per inner prompt, in order, each starting with that prompt whenever the model's continuation does and followed by all the words the model added. A prompt matching the blocklist (case-insensitively) is generated again, from its own original prompt, at most the given number of times, and the others are left as they are; the result contains a match only if the last attempt allowed did. Each generator uses and reports the model named for it, with the configured length, temperature, batch size and seed, whatever other generators do; a model is not loaded again while it is the one loaded last, and a failed load is reported and tried again the next time.",
 ["inputs", "fault_sequences", "histories"], "every inner prompt list, model behaviour, blocklist, attempt limit, order of model loads and load failure",
 "Tests use mocks returning a few fixed texts.",
 ["generators/magicprompt.py"],
 [("generation and blocklist loop", "generators/magicprompt.py"), ("shared pipeline", "generators/magicprompt.py")],
 ["calls seen by a stand-in for the model library", "generate()"], "pipeline and model name shared by all generators")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        print(p["id"], p["title"])
