"""Jinja templates: generated programs, interpreted by the harness and rendered by the generator."""
import itertools
import json
import random
import re
from collections import Counter

from .. import core, stats
from ..model import Model, TooBig
from ..sem import manager

CAP = 400


def squash(s):
    return re.sub(r"\s+", " ", s).strip()


class Prog:
    """Source of a Jinja fragment with its meaning: run(env) -> (set of possible texts, list of the blocks' sets of texts)."""

    def __init__(self, source, run):
        self.source, self.run = source, run


def seq(parts):
    def run(env):
        texts, blocks = [""], []
        for p in parts:
            t, b = p.run(env)
            if len(texts) * len(t) > CAP:
                raise TooBig
            texts = [x + y for x in texts for y in t]
            blocks += b
        return list(dict.fromkeys(texts)), blocks
    return Prog("".join(p.source for p in parts), run)


class Monitor(core.Check):
    id = "C23"
    technique = "reference-interpreter monitor of rendered Jinja templates; statistical monitor (two-stage) of the random functions"
    rule = ("a case is a series of calls on one generator with generated Jinja programs; distinct by program, options and number of "
            "prompts; non-trivial: the program calls a function or has a block")
    quick = 2600
    thorough = 60000
    required = ("renderings", "with_blocks", "without_blocks", "limited", "squashed", "choice", "weighted_choice", "permutations",
                "wildcard", "all_combinations", "random_sample", "randint", "random", "loops", "conditions", "context", "syntax_errors",
                "after_syntax_error", "custom_syntax", "fits", "missing_wildcard", "blocks_in_loops", "iterator_items", "several_calls",
                "zero_prompts", "macros", "other_generator_between", "conditional_blocks", "sets", "same_text", "whole_arguments", "large_lists",
                "stateful", "stateful_blocks")

    def setup(self):
        from dynamicprompts.generators import JinjaGenerator
        from dynamicprompts.generators.promptgenerator import GeneratorException
        from dynamicprompts.parser.config import ParserConfig
        self.Jinja, self.GenErr, self.Config = JinjaGenerator, GeneratorException, ParserConfig

    # -- program generator
    WORDS = ["a", "cat", "é", "日本", "<b>", "x & y", "\"q\"", "it's", " ", ", ", "\n", "$v", "100%", "#1", "a  b", "_", "{x|y}", "[z]", "}"]

    def text(self, rng):
        t = "".join(rng.choice(self.WORDS) for _ in range(rng.choice([1, 1, 2, 3])))
        if re.search(r"\{[{%#]|[}%#]\}", t):
            t = "plain"
        return Prog(t, lambda env: ([t], []))

    def inner(self, rng, cfg, w):
        """A dynamic prompt (source, language, enumeration)."""
        a, b = cfg
        wr = "__"
        opts = rng.sample(["red", "green", "blue", "x1", "pink sky"], rng.choice([1, 2, 3]))
        k = rng.randrange(7)
        if k == 5:
            # different combinations with the same text
            self.rec.count("same_text")
            return f"{a}a|ab{b}{a}bc|c{b}", ["abc", "ac", "abbc", "abc"]
        if k == 6:
            return f"{a}{opts[0]}|{a}in|{opts[0]}{b}{b}", [opts[0], "in"]
        if k == 0:
            return f"{a}{'|'.join(opts)}{b}", opts
        if k == 1:
            return f"so {a}{'|'.join(opts)}{b} it", [f"so {o} it" for o in opts]
        if k == 2:
            n = rng.choice(list(w))
            return f"{wr}{n}{wr}", list(w[n])
        if k == 3:
            n = rng.choice(list(w))
            return f"{a}{'|'.join(opts)}{b}/{wr}{n}{wr}", [f"{o}/{v}" for o in opts for v in w[n]]
        if len(opts) > 1:
            return f"{a}2$$+$${'|'.join(opts)}{b}", ["+".join(p) for p in itertools.permutations(opts, 2)]
        return "just text", ["just text"]

    def expr(self, rng, cfg, w, env):
        """An expression: its source and the list of possible texts."""
        k = rng.randrange(12)
        sq = self.sq
        if k == 9:
            # arguments that are lists or numbers are chosen whole
            xs = [[rng.choice("uvw") for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([1, 1, 2]))]
            self.rec.count("whole_arguments")
            if rng.random() < 0.5:
                src = "choice(%s)" % ", ".join(map(json.dumps, xs))
            else:
                src = "weighted_choice(%s)" % ", ".join("(%s, %s)" % (json.dumps(x), rng.choice([1, 3])) for x in xs)
            return src + "|join('/')", list(dict.fromkeys("/".join(x) for x in xs))
        if k == 10:
            xs = [rng.choice([0, 1, 7, 2.5, -1, 100]) for _ in range(rng.choice([1, 2, 3]))]
            self.rec.count("whole_arguments")
            return "choice(%s)" % ", ".join(map(str, xs)), list(dict.fromkeys(map(str, xs)))
        if k == 11:
            xs = [rng.choice(["p", "q", 1, 2]) for _ in range(rng.choice([2, 3, 4]))]
            r = rng.choice([0, 1, 2])
            self.rec.count("permutations")
            return f"permutations({json.dumps(xs)}, {r})|length", [str(len(list(itertools.permutations(xs, r))))]
        if k == 0:
            xs = [rng.choice(["u", "v", "w w", "é", "1", "t", "<u>", "u & v", "'"]) for _ in range(rng.choice([1, 2, 3]))]
            self.rec.count("choice")
            return "choice(%s)" % ", ".join(map(self.lit, xs)), list(dict.fromkeys(xs))
        if k == 1:
            xs = [(rng.choice(["u", "v", "s t"]), rng.choice([1, 2, 0.5, 0])) for _ in range(rng.choice([1, 2, 3]))]
            if not any(x for _, x in xs):
                xs[0] = (xs[0][0], 1)
            self.rec.count("weighted_choice")
            return "weighted_choice(%s)" % ", ".join(f"({self.lit(a)}, {b})" for a, b in xs), list(dict.fromkeys(a for a, b in xs if b))
        if k == 2:
            src, en = self.inner(rng, cfg, w)
            self.rec.count("random_sample")
            return f"random_sample({self.lit(src)})", list(dict.fromkeys(map(sq, en)))
        if k == 3:
            lo = rng.randrange(-3, 5)
            hi = lo + rng.randrange(0, 4)
            self.rec.count("randint")
            return f"randint({lo}, {hi})", [str(x) for x in range(lo, hi + 1)]
        if k == 4:
            self.rec.count("random")
            return rng.choice([("(random() < 1)", ["True"]), ("(random() >= 0)", ["True"]), ("(random() * 3)|int", ["0", "1", "2"])])
        if k == 5:
            n = rng.choice(list(w))
            self.rec.count("wildcard")
            return f"choice(*wildcard({self.lit(n)}))", list(dict.fromkeys(map(sq, w[n])))
        if k == 6:
            src, en = self.inner(rng, cfg, w)
            self.rec.count("all_combinations")
            return f"all_combinations({self.lit(src)})|join('+')", ["+".join(map(sq, en))]
        if k == 7 and self.ctx:
            n = rng.choice([x for x in self.ctx if isinstance(self.ctx[x], (str, int))])
            self.rec.count("context")
            return n, [str(self.ctx[n])]
        n = rng.choice(list(w))
        self.rec.count("wildcard")
        return f"wildcard({self.lit(n)})|length", [str(len(w[n]))]

    @staticmethod
    def lit(s):
        return json.dumps(s, ensure_ascii=False)

    def listing(self, rng, cfg, w):
        """A list expression: its source and its items."""
        sq = self.sq
        k = rng.randrange(7)
        if k == 0:
            xs = [rng.choice(["p", "q", "r s", "é"]) for _ in range(rng.choice([0, 1, 2, 3]))]
            return "[%s]" % ", ".join(map(self.lit, xs)), xs
        if k == 1:
            n = rng.choice(list(w))
            self.rec.count("wildcard")
            if rng.random() < 0.3:
                return f"wildcard({self.lit('__' + n + '__')})", [sq(v) for v in w[n]]
            return f"wildcard({self.lit(n)})", [sq(v) for v in w[n]]
        if k == 2:
            self.rec.count("missing_wildcard")
            return "wildcard('no/such')", ["__no/such__"]
        if k == 3:
            src, en = self.inner(rng, cfg, w)
            self.rec.count("all_combinations")
            return f"all_combinations({self.lit(src)})", [sq(v) for v in en]
        if k == 4:
            xs = rng.sample(["p", "q", "r", "s"] * 2, rng.choice([0, 1, 2, 3]))
            lo = rng.choice([0, 1, 1, 2])
            hi = rng.choice([None, lo, lo + 1, 3])
            self.rec.count("permutations")
            items = [p for i in range(lo, (lo if hi is None else hi) + 1) for p in itertools.permutations(xs, i)]
            src = "[%s]" % ", ".join(map(self.lit, xs))
            if rng.random() < 0.3:
                src += rng.choice(["|map('string')", "|select", "|reject('none')", "|map('lower')"])
                self.rec.count("iterator_items")
            args = f"{src}, {lo}" + ("" if hi is None else f", {hi}" if rng.random() < .5 else f", high={hi}")
            return f"permutations({args})", ["+".join(p) for p in items], "|join('+')"
        if k == 5 and any(isinstance(v, list) for v in self.ctx.values()):
            n = next(n for n, v in self.ctx.items() if isinstance(v, list))
            self.rec.count("context")
            return n, list(self.ctx[n])
        n = rng.choice([0, 1, 2, 4])
        return f"range({n})", [str(i) for i in range(n)]

    def node(self, rng, cfg, w, depth, blocks, vars):
        k = rng.random()
        if k < 0.3:
            return self.text(rng)
        if k < 0.5:
            src, alts = self.expr(rng, cfg, w, None)
            if len(alts) > 30:
                raise TooBig
            return Prog("{{ %s }}" % src, lambda env: (alts, []))
        if k < 0.58 and vars:
            v, how = rng.choice(vars)
            return Prog("{{ %s%s }}" % (v, how), lambda env: ([env[v]], []))
        if k < 0.72 and depth > 0:
            self.counter += 1
            v = f"v{self.counter}"
            li = self.listing(rng, cfg, w)
            src, items, how = li if len(li) == 3 else (*li, "")
            body = self.body(rng, cfg, w, depth - 1, blocks, vars + [(v, how)])
            self.rec.count("loops")

            def run(env):
                texts, bl = [""], []
                for x in items:
                    t, b = body.run({**env, v: x})
                    if len(texts) * len(t) > CAP:
                        raise TooBig
                    texts = [p + q for p in texts for q in t]
                    bl += b
                if bl:
                    self.rec.count("blocks_in_loops")
                return list(dict.fromkeys(texts)), bl
            return Prog("{%% for %s in %s %%}%s{%% endfor %%}" % (v, src, body.source), run)
        if k < 0.8 and depth > 0:
            c = rng.choice([("true", True), ("false", False), ("1 > 2", False), ("'a' in 'cat'", True), ("flag", bool(self.ctx.get("flag")))])
            x, y = self.body(rng, cfg, w, depth - 1, blocks, vars), self.body(rng, cfg, w, depth - 1, blocks, vars)
            self.rec.count("conditions")

            def run(env):
                r = (x if c[1] else y).run(env)
                if r[1]:
                    self.rec.count("conditional_blocks")
                return r
            return Prog("{%% if %s %%}%s{%% else %%}%s{%% endif %%}" % (c[0], x.source, y.source), run)
        if k < 0.94 and blocks:
            body = self.body(rng, cfg, w, max(0, depth - 1), False, vars)
            a, b = rng.choice([("{% prompt %}", "{% endprompt %}")] * 3 + [("{%prompt%}", "{%endprompt%}")])
            return Prog(a + body.source + b, lambda env: (lambda t: (t, [t]))(body.run(env)[0]))
        if k < 0.97:
            self.counter += 1
            v = f"s{self.counter}"
            val = rng.choice(["one", "two words", "é"])
            self.rec.count("sets")
            return Prog("{%% set %s = %s %%}{{ %s }}" % (v, self.lit(val), v), lambda env: ([val], []))
        self.counter += 1
        m = f"m{self.counter}"
        body = self.body(rng, cfg, w, 0, blocks, [])
        self.rec.count("macros")
        return Prog("{%% macro %s() %%}%s{%% endmacro %%}{{ %s() }}" % (m, body.source, m), body.run)

    def body(self, rng, cfg, w, depth, blocks, vars):
        return seq([self.node(rng, cfg, w, depth, blocks, vars) for _ in range(rng.choice([1, 1, 2, 3]))])

    def directed(self):
        def sizes(rng):
            # everything, up to the usual maximum of 1000
            for n in (99, 101, 257, 499, 501, 513, 750, 999, 1000):
                vals = ["v%04d" % i for i in range(n)]
                gen = self.Jinja(manager({"w": [(v, None) for v in vals]}))
                for src in ("wildcard('w')", "all_combinations('__w__')", "all_combinations('{%s}')" % "|".join(vals)):
                    got = core.call(lambda: gen.generate("{{ %s|join('+') }}" % src))
                    self.expect_eq(got, ["+".join(vals)], "not everything the wildcard or prompt expands to", count=n, source=src[:60])
                got = core.call(lambda: gen.generate("{% for v in wildcard('w') %}{% prompt %}<{{ v }}>{% endprompt %}{% endfor %}"))
                self.expect_eq(got, ["<%s>" % v for v in vals], "one prompt per block", count=n)
            self.rec.count("large_lists")

        def permutations(rng):
            for n, lo, hi in ((3, 1, 9), (4, 0, 12), (5, 1, 20), (2, 2, 10), (0, 0, 9), (1, 1, 100), (9, 1, 3), (12, 0, 2), (6, 6, 6), (4, 5, 9), (3, 3, None)):
                xs = ["p%d" % i for i in range(n)]
                args = "[%s], %d" % (", ".join(map(repr, xs)), lo) + ("" if hi is None else ", %d" % hi)
                want = ["+".join(p) for i in range(lo, (lo if hi is None else hi) + 1) for p in itertools.permutations(xs, i)]
                got = core.call(lambda: self.Jinja().generate("{%% for p in permutations(%s) %%}<{{ p|join('+') }}>{%% endfor %%}" % args))
                self.expect_eq(got, ["".join("<%s>" % w for w in want)], "not all permutations by size", arguments=args)
            self.rec.count("large_permutations")

        def many(rng):
            # long argument lists and many prompts
            xs = ["c%03d" % i for i in range(300)]
            for src in ("choice(%s)" % ", ".join(map(repr, xs)), "weighted_choice(%s)" % ", ".join("(%r, %d)" % (x, 1 + i % 3) for i, x in enumerate(xs)),
                        "random_sample('{%s}')" % "|".join(xs[::6])):
                got = core.call(lambda: self.Jinja().generate("{{ %s }}" % src, 240))
                # none of the last sixth: (5/6)^240 < 1e-19
                self.expect(not isinstance(got, core.Err) and len(got) == 240 and set(got) <= set(xs) and any(x >= "c250" for x in got)
                            and any(x < "c050" for x in got), "random function over many arguments", source=src[:40],
                            got=got if isinstance(got, core.Err) else sorted(set(got))[:5])
            got = core.call(lambda: self.Jinja(limit_prompts=True).generate("{% for i in range(700) %}{% prompt %}{{ i }}{% endprompt %}{% endfor %}", 650))
            self.expect_eq(got, [str(i) for i in range(650)], "number of prompts")
            got = core.call(lambda: self.Jinja().generate("{% for i in range(70) %}{% prompt %}{{ i }}{% endprompt %}{% endfor %}", 30))
            self.expect_eq(got, [str(i) for i in range(70)] * 30, "number of prompts")

        def blanks(rng):
            # renderings and blocks that are empty or blank count like any other
            for tpl, want in (("{{ '' }}", [""]), (" ", [" "]), ("{{ choice('', 'a') }}", None), ("{{ choice(' ', 'a', '') }}", None), ("{% if false %}x{% endif %}", [""]),
                              ("{% prompt %}{% endprompt %}", [""]), ("{% prompt %} {% endprompt %}{% prompt %}a{% endprompt %}", [" ", "a"]),
                              ("{% prompt %}a{% endprompt %}{% prompt %}{% endprompt %}{% prompt %}a{% endprompt %}", ["a", "", "a"]), ("", [""])):
                for limit in (False, True):
                    for n in (1, 2, 40):
                        got = core.call(lambda: self.Jinja(limit_prompts=limit).generate(tpl, n))
                        self.expect(not isinstance(got, core.Err), "rendering failed", template=tpl, got=got)
                        if want is None:
                            self.expect(len(got) == n and set(got) <= {"", " ", "a"}, "number of prompts", template=tpl, got=got, requested=n)
                        else:
                            self.expect_eq(got, (want * n)[: n if limit else None], "prompts of a template with blank ones", template=tpl, requested=n, limited=limit)
            self.rec.count("blanks")
        return [sizes, permutations, many, blanks]

    # -- programs with state, against the template language itself
    def stateful(self, rng, index):
        """A program with counters and the like: the texts of its blocks are those parts of its plain rendering."""
        import jinja2
        n = [0]
        storing = rng.random() < 0.15

        def piece(depth):
            n[0] += 1
            v = f"k{n[0]}"
            sub = (lambda: pieces(depth - 1)) if depth > 0 else (lambda: rng.choice(["t", "{{ c.next() }}", "u "]))
            dash = lambda: rng.choice(["", "", "-"])
            k = rng.randrange(16)
            if k in (10, 12, 13) and not storing:
                k = 5
            if k < 4:
                return rng.choice(["{{ c.next() }}", "{{ c.current }}", "{{ j() }}", "{{ ns.n }}", "{% set ns.n = ns.n + 1 %}", "{{ name }}", "{{ missing }}",
                                   "{{ missing|default('d') }}", "{{ 'it''s'|upper }}", "<{{ name|length }}>", "{# a comment #}", "{% raw %}{{ raw }}{% endraw %}", "\n"])
            if k < 8:
                return "{%%%s prompt %s%%}%s{%%%s endprompt %s%%}" % (dash(), dash(), sub(), dash(), dash())
            if k == 8:
                return "{%% for %s in range(%d) %%}{{ loop.index }}%s{%% else %%}none{%% endfor %%}" % (v, rng.choice([0, 1, 2, 3]), sub())
            if k == 9:
                return "{%% if ns.n %% 2 %%}%s{%% else %%}%s{%% endif %%}" % (sub(), sub())
            if k == 10:
                return "{%% set %s %%}%s{%% endset %%}{{ %s }}{{ %s }}" % (v, sub(), v, v)
            if k == 11:
                return "{%% macro %s(a='') %%}%s{{ a }}{%% endmacro %%}{{ %s(1) }}{{ %s() }}" % (v, sub(), v, v)
            if k == 12:
                return "{%% filter %s %%}%s{%% endfilter %%}" % (rng.choice(["upper", "trim", "replace('t', 'T')"]), sub())
            if k == 13:
                return "{%% macro %s() %%}[{{ caller() }}]{%% endmacro %%}{%% call %s() %%}%s{%% endcall %%}" % (v, v, sub())
            if k == 14:
                return "{%% with %s = ns.n + 1 %%}{{ %s }}%s{%% endwith %%}" % (v, v, sub())
            return " text "

        def pieces(depth):
            return "".join(piece(depth) for _ in range(rng.choice([1, 2, 2, 3])))
        src = "{% set ns = namespace(n=0) %}{% set c = cycler('a', 'b', 'c') %}{% set j = joiner(', ') %}" + pieces(3)
        ctx = {"name": rng.choice(["Ann", "<b>"])}
        num = rng.choice([1, 1, 2, 3])
        limit = rng.random() < 0.3
        marked = re.sub(r"\{%(-?) prompt (-?)%\}", lambda m: "{%%%s if true %%}\x01{%% if true %s%%}" % (m[1], m[2]), src)
        marked = re.sub(r"\{%(-?) endprompt (-?)%\}", lambda m: "{%%%s endif %%}\x02{%% endif %s%%}" % (m[1], m[2]), marked)
        # the marks may pass filters and be stored: only programs where they arrive in pairs, as often as blocks are rendered, can be judged
        if re.search(r"\{% (?:set k\d+ %|filter|macro \w+\(\) %\}\[)", src) or "\x01" not in marked and "prompt" in src:
            stored = True
        else:
            stored = False
        text = core.call(lambda: jinja2.Environment().from_string(marked).render(**ctx))
        if isinstance(text, core.Err):
            raise core.Violation("harness: program does not render", {"source": marked, "got": repr(text)})
        plain = text.replace("\x01", "").replace("\x02", "")
        blocks, stack = [], []
        for ch in text:
            if ch == "\x01":
                stack.append("")
            elif ch == "\x02":
                b = stack.pop()
                blocks.append(b)
                if stack:
                    stack[-1] += b
            elif stack:
                stack[-1] += ch
        if stored and blocks:
            raise core.Skip()
        want = (blocks or [plain]) * num
        if limit:
            want = want[:num]
        info = {"template": src, "context": ctx, "num_prompts": num, "limit_prompts": limit}
        self.context = info
        gen = self.Jinja(context=dict(ctx), limit_prompts=limit)
        for again in range(2):
            got = core.call(lambda: gen.generate(src, num))
            self.expect_eq(got, want, "not the template's rendering or its blocks", again=bool(again), **info)
        self.rec.count("stateful")
        if blocks:
            self.rec.count("stateful_blocks")
        self.rec.distinct("stateful", src, num, limit)

    # -- cases
    def case(self, rng, index):
        r = rng.random()
        if r < 0.05:
            return self.fits(rng, index)
        if r < 0.3:
            return self.stateful(rng, index)
        random.seed(index)
        cfg = ("{", "}")
        kw = {}
        if rng.random() < 0.15:
            cfg = ("<", ">")
            kw["parser_config"] = self.Config(variant_start="<", variant_end=">")
            self.rec.count("custom_syntax")
        ignore = rng.random() < 0.3
        limit = rng.random() < 0.3
        self.sq = squash if ignore else (lambda s: s)
        self.ctx = {"name": rng.choice(["Ann", "Ann & <Bob>", '"q\'s"']), "n": 3, "flag": rng.random() < 0.5, "xs": ["k", "l"]} if rng.random() < 0.5 else {}
        w = {n: sorted(rng.sample(["red", "dark red", "w  w", "é", "x-1", "big", "9", "x & y", "it's", '"q"'] + ["a<b", "<i>"] * (cfg[0] != "<"), rng.choice([1, 2, 4])))
             for n in rng.sample(["c", "d/e", "f"], rng.choice([1, 2]))}
        wm = manager({n: [(v, None) for v in vs] for n, vs in w.items()})
        gen = core.call(lambda: self.Jinja(wm, context=self.ctx or None, ignore_whitespace=ignore, limit_prompts=limit, **kw))
        if isinstance(gen, core.Err):
            raise core.Violation("generator cannot be created", {"got": repr(gen)})
        broke = False
        calls = rng.choice([1, 2, 3])
        if calls > 1:
            self.rec.count("several_calls")
        for _ in range(calls):
            if rng.random() < 0.12:
                bad = rng.choice(["{% prompt %}x", "{% for %}", "{{ choice( }}", "{% endprompt %}", "{{ 'a }}", "{% if x %}", "{% nosuch %}",
                                  "{% prompt %}{% prompt %}{% endprompt %}", "{{ }}", "{% for x in y %}{% endprompt %}"])
                got = core.call(lambda: gen.generate(bad, 2))
                self.expect(isinstance(got, core.Err) and isinstance(got.exc, self.GenErr), "a syntax error is not reported as such",
                            template=bad, got=got)
                self.rec.count("syntax_errors")
                broke = True
                continue
            if rng.random() < 0.1:
                other = self.Jinja(manager({"c": [("elsewhere", None)]}))
                got = core.call(lambda: other.generate("{% prompt %}{{ wildcard('c')[0] }}{% endprompt %}", 2))
                self.expect_eq(got, ["elsewhere"] * 2, "another generator's result")
                self.rec.count("other_generator_between")
            self.one(rng, gen, cfg, w, ignore, limit, broke)

    def one(self, rng, gen, cfg, w, ignore, limit, broke):
        for _ in range(20):
            self.counter = 0
            try:
                prog = self.body(rng, cfg, w, rng.choice([0, 1, 2, 2]), rng.random() < 0.6, [])
                texts, blocks = prog.run({})
            except TooBig:
                continue
            if not prog.source.endswith("\n"):
                break
        else:
            raise core.Skip()
        n = rng.choice([1, 1, 2, 3, 5, 0])
        if n == 0:
            self.rec.count("zero_prompts")
        want = blocks * n if blocks and n else [texts] * n
        if limit:
            want = want[:n]
        info = dict(template=prog.source, wildcards=w, context=self.ctx, n=n, ignore_whitespace=ignore, limit=limit)
        self.context = info
        got = core.call(lambda: list(gen.generate(prog.source, n)) if n != 1 or rng.random() < 0.5 else list(gen.generate(prog.source)))
        if isinstance(got, core.Err):
            raise core.Violation("rendering failed", {"got": repr(got), **{k: core.show(v, 1500) for k, v in info.items()}})
        self.expect_eq(len(got), len(want), "number of prompts", result=got, **info)
        for g, alts in zip(got, want):
            alts = [squash(a) for a in alts] if ignore else alts
            self.expect(g in alts, "not what the template describes", prompt=repr(g), possible=alts[:20], **info)
            self.rec.count("renderings")
        self.rec.count("with_blocks" if blocks else "without_blocks")
        if limit:
            self.rec.count("limited")
        if ignore:
            self.rec.count("squashed")
        if broke:
            self.rec.count("after_syntax_error")
        if "(" in prog.source or blocks:
            self.rec.distinct(prog.source, n, ignore, limit)
        self.rec.sample({"template": prog.source, "n": n, "prompts": got[:4]})

    def fits(self, rng, index):
        """The random functions choose by weight (equally without)."""
        k = rng.randrange(5)
        if k == 0:
            xs = rng.sample("abcdef", rng.choice([2, 3, 5]))
            if rng.random() < 0.4:
                # an argument given several times counts as often
                again = xs + [xs[0]] * rng.choice([1, 3]) + xs[1:2]
                rng.shuffle(again)
                if rng.random() < 0.5:
                    src, probs = "choice(%s)" % ", ".join(map(self.lit, again)), {x: again.count(x) / len(again) for x in again}
                else:
                    ws = [(x, rng.choice([1, 2, 5])) for x in again]
                    src = "weighted_choice(%s)" % ", ".join(f"({self.lit(a)}, {b})" for a, b in ws)
                    probs = {x: sum(b for a, b in ws if a == x) / sum(b for _, b in ws) for x in again}
            else:
                src, probs = "choice(%s)" % ", ".join(map(self.lit, xs)), {x: 1 / len(xs) for x in xs}
        elif k == 1:
            xs = {x: rng.choice([1, 2, 5, 0.5, 0, 10]) for x in rng.sample("abcdef", rng.choice([2, 3, 5]))}
            if not sum(xs.values()):
                return
            src = "weighted_choice(%s)" % ", ".join(f"({self.lit(a)}, {b})" for a, b in xs.items())
            probs = {x: v / sum(xs.values()) for x, v in xs.items()}
        elif k == 2:
            src, probs = "random_sample('{3::a|b|0::c}')", {"a": .75, "b": .25}
        elif k == 3:
            lo, m = rng.randrange(5), rng.choice([2, 3, 4])
            src, probs = f"randint({lo}, {lo + m - 1})", {str(lo + i): 1 / m for i in range(m)}
        else:
            src, probs = "(random() * 4)|int", {str(i): .25 for i in range(4)}
        t = "{{ %s }}" % src
        self.context = t

        def stage(n, seed):
            random.seed(seed)
            got = core.call(lambda: self.Jinja().generate(t, n))
            if isinstance(got, core.Err):
                raise core.Violation("rendering failed", {"got": repr(got), "template": t})
            return stats.fit(Counter(got), probs), Counter(got)
        p, c = stage(1200, index)
        self.rec.count("fits")
        if p < 1e-6:
            q, c = stage(8000, index + 1)
            self.expect(q >= 1e-9, "random function does not follow its weights", template=t, expected=probs, observed=dict(c))
