"""Custom notation: the same trees, written with other delimiters, must mean the same."""
from .. import core, norm
from ..model import TooBig
from ..sem import FULL, Work, build
from ..tpl import CUSTOM_CFGS, DEFAULT, ONE_OFF_CFGS, Cfg, Gen, Render, walk, Lit, Var, Wild, Wrap


class Monitor(core.Check):
    id = "C03"
    technique = "reference-structure and reference-semantics monitors across delimiter configurations"
    rule = ("a case picks a delimiter configuration, writes a generated template in it, and compares the "
            "parsed structure and generated prompts with the tree's meaning; distinct by configuration "
            "and text")
    quick = 2600
    thorough = 60000
    required = ("structures", "combinatorial", "random", "default_interleaved", "nested_wildcards", "symbols")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        from dynamicprompts.parser.parse import parse
        self.parse = parse
        self.Comb, self.Rand = CombinatorialPromptGenerator, RandomPromptGenerator

    def structure(self, tree, cfg, layout=None):
        text = Render(cfg, layout)(tree)
        self.context = (text, cfg)
        got = core.call(self.parse, text, cfg.real())
        want = norm.of_tree(tree)
        if isinstance(got, core.Err):
            raise core.Violation("valid template rejected", {
                "template": text, "config": repr(cfg), "got": repr(got)})
        self.expect_eq(norm.of_command(got), want, "structure differs", template=text,
                       config=repr(cfg))
        self.rec.count("structures")
        self.rec.distinct(repr(cfg), text)
        self.rec.sample({"config": repr(cfg), "template": text})

    def random_cfg(self, rng):
        """A fresh configuration from unambiguous token material."""
        pairs = [("<", ">"), ("[", "]"), ("{", "}"), ("<<", ">>"), ("[[", "]]"), ("«", "»"), ("⟦", "⟧"),
                 ("<|", "|>"), ("{=", "=}"), ("^", "´"), ("BEGIN", "END")]
        pairs = [p for p in pairs if "|" not in p[0]]
        v = rng.choice(pairs)
        a = rng.choice([("${", "}"), ("$[", "]"), ("€<", ">"), ("?{", "?}"), ("µ", "¶")])
        w = rng.choice([("%{", "}"), ("%[", "]"), ("&<", "&>"), ("Ω", "ω")])
        wrap = rng.choice([t for t in ["__", "&&", "^^", "§", "--", "¤¤", "_*_"]
                           if not t.startswith(v[0])])  # else the two are ambiguous
        return Cfg(v[0], v[1], wrap, a[0], a[1], w[0], w[1])

    def case(self, rng, index):
        k = rng.random()
        cfg = rng.choice(CUSTOM_CFGS if k < 0.5 else ONE_OFF_CFGS) if k < 0.7 else self.random_cfg(rng)
        g = Gen(rng, cfg, depth=rng.choice([1, 2, 3]), fancy=rng.choice([0.05, 0.4, 0.8]))
        self.structure(g.template(), cfg, rng if rng.random() < 0.4 else None)
        # prompts
        symbols = rng.random() < 0.5
        work = build(rng, FULL, cfg=cfg, fancy=rng.choice([0, 0.3]), max_items=3, zero=not symbols)
        if symbols and not any(isinstance(n, Wrap) for t in work.trees() for n in walk(t)):
            # sampler symbols change how values are chosen, not what they are
            for n in work.tree.items:
                if isinstance(n, Wild) or (isinstance(n, Var) and len(n.options) > 1):
                    n.method = rng.choice(["~", "@", None])
            work = Work(work.tree, work.wilds, work.env, cfg)
            symbols = any(getattr(n, "method", None) for n in work.tree.items)
            self.rec.count("symbols", symbols)
        else:
            symbols = False
        try:
            if not work.env and not symbols:
                want = work.model(cap=100).comb(work.tree, {})
                gen = core.call(lambda: self.Comb(work.manager(), parser_config=cfg.real())
                                .generate(work.text, 500))
                self.expect_eq(gen, want, "combinatorial prompts differ", config=repr(cfg),
                               **work.describe())
                self.rec.count("combinatorial")
            lang = work.model(cap=800).lang(work.tree, work.env)
        except TooBig:
            raise core.Skip()
        if not work.env:
            got = core.call(lambda: self.Rand(work.manager(), seed=index, parser_config=cfg.real())
                            .generate(work.text, 4))
        else:
            got = core.call(lambda: [str(p) for p in work.context("random").sample_prompts(work.text, 4)])
        self.expect(not isinstance(got, core.Err) and set(got) <= lang and len(got) == 4,
                    "random prompts not denoted by the template", got=got, allowed=sorted(lang)[:40],
                    config=repr(cfg), **work.describe())
        self.rec.count("random")
        if any(isinstance(n, Wild) for n in walk(work.tree)):
            self.rec.count("nested_wildcards")
        # the default notation still works next to it
        if rng.random() < 0.3:
            self.structure(Gen(rng, depth=1).template(), DEFAULT)
            self.rec.count("default_interleaved")
