"""Random generation: count and membership of every prompt in the template's language."""
from .. import core
from ..model import Model
from ..sem import FULL, BASE, Hostile, Work, build, build_sized
from ..tpl import Acc, Asg, Lit, Opt, Seq, Var, Wild, Wrap, walk


class Monitor(core.Check):
    id = "C05"
    technique = ("online monitor of generated prompts: membership in the reference language, under seeded and "
                 "hostile random streams")
    rule = ("a case is a template with wildcards and variables, a random stream and a number of prompts; each prompt "
            "is checked for membership; non-trivial: more than one possible prompt; distinct by workload")
    quick = 3200
    thorough = 90000
    required = ("prompts", "hostile", "generator", "large", "methods", "wraps", "assignments", "zero_weights",
                "params", "none_requested", "template_reused", "many", "blank", "literals")

    def setup(self):
        from dynamicprompts.generators import RandomPromptGenerator
        self.Rand = RandomPromptGenerator

    def produce(self, rng, work, n):
        """(prompts, how) by one of the ways to generate."""
        k = rng.random()
        if work.env or k < 0.45:
            hostile = rng.random() < 0.6
            rand = Hostile(rng.randrange(10**9)) if hostile else __import__("random").Random(rng.randrange(10**9))
            got = core.call(lambda: [str(p) for p in work.context("random", rand=rand)
                                     .sample_prompts(work.text, n)])
            if hostile:
                self.rec.count("hostile")
            return got, "hostile" if hostile else "context"
        self.rec.count("generator")
        if k < 0.6:
            return core.call(lambda: self.Rand(work.manager(), unlink_seed_from_prompt=True,
                                               parser_config=work.cfg.real()).generate(work.text, n)), "unlinked"
        if k < 0.8 and n > 0:
            seeds = [rng.randrange(10**6) for _ in range(n)]
            return core.call(lambda: self.Rand(work.manager()).generate(work.text, n, seeds=seeds)), "seeds"
        return core.call(lambda: self.Rand(work.manager(), seed=rng.randrange(10**6))
                         .generate(work.text, n)), "generator"

    def small(self, rng, index):
        feat, zero = FULL, True
        methods = rng.random() < 0.2
        if methods:
            feat, zero = (FULL | {"methods"}) - {"wrap"}, False
        work, lang = build_sized(rng, lambda w: w.model(cap=3000).lang(w.tree, w.env), feat=feat, zero=zero,
                                 max_items=3)
        self.context = work.describe()
        n = rng.choice([0, 1, 1, 2, 3, 3, 5, 8])
        got, how = self.produce(rng, work, n)
        self.judge(work, got, n, how, lambda p: p in lang, lambda: sorted(lang)[:30])
        if rng.random() < 0.2:  # the same generator again
            def twice():
                g = self.Rand(work.manager(), seed=index)
                return g.generate(work.text, 2) + g.generate(work.text, 3)
            if not work.env:
                self.judge(work, core.call(twice), 5, "reused generator", lambda p: p in lang,
                           lambda: sorted(lang)[:30])
                self.rec.count("template_reused")
        kinds = {type(x) for x in walk(work.tree)}
        if methods:
            self.rec.count("methods")
        if Wrap in kinds:
            self.rec.count("wraps")
        if Asg in kinds:
            self.rec.count("assignments")
        if any(isinstance(x, Wild) and x.params for x in walk(work.tree)):
            self.rec.count("params")
        if any(isinstance(x, Var) and any(o.w == 0 for o in x.options) for x in walk(work.tree)):
            self.rec.count("zero_weights")
        if n == 0:
            self.rec.count("none_requested")
        if len(lang) > 1:
            self.rec.distinct(work.key(), n)
            self.rec.sample(work.describe())

    def judge(self, work, got, n, how, member, allowed):
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), "how": how, **work.describe()})
        self.expect_eq(len(got), n, "wrong number of prompts", prompts=got, how=how, **work.describe())
        for p in got:
            self.rec.count("prompts")
            self.expect(isinstance(p, str) and member(p), "prompt not denoted by the template", prompt=repr(p),
                        how=how, allowed=allowed(), **work.describe())

    def large(self, rng, index):
        """Templates with too many prompts to list; checked by a recognizer."""
        names = ["w%d" % i for i in range(rng.choice([1, 3]))]
        ctr = [0]

        def lit():
            ctr[0] += 1
            return Lit("%s%d." % (rng.choice(["a", "bird ", "é", "(x) "]), ctr[0]))

        def prompt(d, asg=()):
            items = []
            for _ in range(rng.choice([1, 2, 3] if d else [1])):
                k = rng.random()
                if k < 0.3 or d == 0:
                    items.append(lit())
                elif k < 0.8:
                    v = Var([Opt(prompt(d - 1, asg)) for _ in range(rng.randint(2, 6))])
                    if rng.random() < 0.5:
                        for o in v.options:
                            o.weight = rng.choice([None, "2", "0.3", "100"])
                        if rng.random() < 0.4:
                            v.options[-1].weight = "0"
                    if rng.random() < 0.4 and all(o.w > 0 for o in v.options):
                        lo = rng.randint(0, len(v.options))
                        v.bound = (rng.choice(["exact", "range", "lower", "upper"]), lo,
                                   rng.randint(0, len(v.options) + 1))
                        v.sep = rng.choice([None, " ; ", " and "])
                    items.append(v)
                elif k < 0.9:
                    items.append(Wild([rng.choice(names)]))
                elif asg:
                    items.append(Acc(rng.choice(asg)))
                else:
                    items.append(lit())
            if not any(isinstance(i, Lit) for i in items):
                items.insert(0, lit())
            return Seq(_spaced(items))
        wilds = {n: [(Seq([lit()]), None if rng.random() < .6 else rng.choice([1.0, 3.0, 0.5]))
                     for _ in range(rng.choice([1, 5, 60]))] for n in names}
        asg = ["v0", "v1"] if rng.random() < 0.5 else []
        tree = prompt(3, asg)
        for a in asg:
            tree.items.insert(rng.randint(0, len(tree.items)), Asg(a, prompt(1)))
        work = Work(tree, wilds, {})
        self.context = work.describe()
        n = rng.choice([1, 3, 10, 10, 50])
        got, how = self.produce(rng, work, n)
        m = Model(work.wilds)
        self.judge(work, got, n, how, lambda p: m.denotes(work.tree, {}, p), lambda: "recognizer")
        self.rec.count("large")
        self.rec.distinct("large", work.key())

    def directed(self):
        def many(rng):
            # as many prompts as asked for, also when that is a lot
            tree = Seq([Var([Opt(Seq([Lit(x)])) for x in "abcd"]), Lit("-"), Wild(["w"])])
            work = Work(tree, {"w": [(Seq([Lit("v%d" % i)]), None) for i in range(40)]})
            lang = work.model().lang(tree, {})
            for n in (999, 1000, 1001, 1500, 2500, 5000):
                got = core.call(lambda: self.Rand(work.manager(), seed=n).generate(work.text, n))
                self.judge(work, got, n, "many", lambda p: p in lang, lambda: sorted(lang)[:30])
            got = core.call(lambda: self.Rand(work.manager()).generate(work.text, 1200, seeds=list(range(1200))))
            self.judge(work, got, 1200, "many seeds", lambda p: p in lang, lambda: sorted(lang)[:30])
            self.rec.count("many")

        def blank(rng):
            # values that are empty or blank are values
            for vals in ([""], ["", ""], [" "], ["", "a"], ["  ", "b", "\n"]):
                for text, pre, post in (("a __w__ b", "a ", " b"), ("__w__", "", ""), ("x{__w__}y", "x", "y")):
                    work = Work(Seq([]))
                    work.text, work.wild_texts = text, {"w": [(v, None) for v in dict.fromkeys(vals)]}
                    lang = {pre + v + post for v in vals}
                    self.context = work.describe()
                    got = core.call(lambda: self.Rand(work.manager(), seed=1).generate(work.text, 60))
                    self.judge(work, got, 60, "blank values", lambda p: p in lang, lambda: sorted(lang)[:30])
                    self.expect_eq(set(got), lang, "a value never occurs", **work.describe())
            self.rec.count("blank")

        def literals(rng):
            # text is itself, whatever is in it
            from ..tpl import FANCY
            bits = [x for x in FANCY if not any(c in x for c in "{}|#$%_")] + ["\\|", "a|b", "\\}", "}", "\\\\|\\", "&amp;", "%20", "\\u0041", "(a:1.2)",
                                                                             "[a:b:10]", "<lora:x:1>", "BREAK", "AND", "\\_", "a_b"]
            for x in bits:
                for text in ("q" + x + "z", "q " + x + " z", "q" + x + x + "z"):
                    if "/*" in text or "__" in text:
                        continue
                    for gen in (lambda: self.Rand(seed=3).generate(text, 2), lambda: self.Rand(seed=3, unlink_seed_from_prompt=True).generate(text, 2),
                                lambda: self.Rand(seed=3).generate("k " + text + "{m|m}", 2)):
                        got = core.call(gen)
                        ok = [[text] * 2, ["k " + text + "m"] * 2]
                        self.expect(got in ok, "literal text is not itself", template=repr(text), got=got)
            self.rec.count("literals")
        return [many, blank, literals]

    def case(self, rng, index):
        if rng.random() < 0.15:
            self.large(rng, index)
        else:
            self.small(rng, index)


def _spaced(items):
    out = []
    for it in items:
        if isinstance(it, Lit) and out and isinstance(out[-1], Lit):
            out[-1] = Lit(out[-1].text + it.text)
        else:
            out.append(it)
    return out
