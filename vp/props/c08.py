"""Combinatorial generation: the exact ordered enumeration."""
import itertools

from .. import core
from ..sem import BASE, FULL, Work, build, build_sized
from ..tpl import Acc, Asg, Lit, Opt, Seq, Var, Wild, Wrap, walk


def shared(cmd, memo):
    """The same command built with one object for all its equal parts."""
    import dataclasses
    if isinstance(cmd, list):
        return [shared(x, memo) for x in cmd]
    if not dataclasses.is_dataclass(cmd):
        return cmd
    new = dataclasses.replace(cmd, **{f.name: shared(getattr(cmd, f.name), memo) for f in dataclasses.fields(cmd) if f.init})
    return memo.setdefault(repr(new), new)


class Monitor(core.Check):
    id = "C08"
    technique = "trace monitor: the emitted sequence of prompts against the reference enumeration, to its end"
    rule = ("a case is a finite template with wildcards and variables whose whole enumeration is compared in order; "
            "non-trivial: two or more combinations; distinct by workload")
    quick = 3000
    thorough = 90000
    required = ("prompts", "nontrivial", "bounded", "wildcard", "weighted_wildcard", "assignment", "wrap", "zero_weight",
                "nested_variant", "command_object", "symbol", "repeated", "many_chosen", "shared_objects")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator
        from dynamicprompts.parser.parse import parse
        self.Comb, self.parse = CombinatorialPromptGenerator, parse

    def check_work(self, rng, work, want, count=True):
        self.context = work.describe()
        k = rng.random()
        cfg = work.cfg.real()
        if work.env or k < 0.2:
            got = core.call(lambda: [str(p) for p in work.context("combinatorial").sample_prompts(work.text)])
        elif k < 0.4:
            cmd = core.call(self.parse, work.text, cfg)
            if rng.random() < 0.5:
                cmd = shared(cmd, {})
                self.rec.count("shared_objects")
            got = core.call(lambda: [str(p) for p in work.context("combinatorial").sample_prompts(cmd)])
            got2 = core.call(lambda: [str(p) for p in work.context("combinatorial").sample_prompts(cmd, None)])
            self.expect_eq(got2, got, "the second enumeration of the same command differs", **work.describe())
            self.rec.count("command_object")
        else:
            gen = core.call(lambda: self.Comb(work.manager(), parser_config=cfg))
            got = core.call(lambda: gen.generate(work.text, None))
            if rng.random() < 0.15:
                self.expect_eq(core.call(lambda: gen.generate(work.text, None)), want,
                               "enumerating again differs", **work.describe())
                self.rec.count("repeated")
        if isinstance(got, core.Err):
            raise core.Violation("enumeration failed", {"got": repr(got), "expected": core.show(want),
                                                        **work.describe()})
        if got != want:
            missing = [p for p in want if p not in set(got)]
            extra = [p for p in got if p not in set(want)]
            raise core.Violation("enumeration differs", {
                "got": core.show(got, 1500), "expected": core.show(want, 1500), "missing": core.show(missing),
                "extra": core.show(extra), **work.describe()})
        self.rec.count("comparisons")
        self.rec.count("prompts", len(got))
        if len(want) > 1:
            self.rec.count("nontrivial")
            self.rec.distinct(work.key())
            self.rec.sample({**work.describe(), "combinations": len(want)})

    def directed(self):
        L = lambda *t: Seq([Lit(x) if isinstance(x, str) else x for x in t])  # noqa: E731
        V = lambda *o, **k: Var([Opt(x if isinstance(x, Seq) else L(x)) for x in o], **k)  # noqa: E731

        def one(tree, wilds=None):
            def run(rng):
                work = Work(tree, wilds)
                m = work.model(cap=20000)
                m.max_steps = 600000
                self.check_work(rng, work, m.comb(tree, {}))
            return run
        def same_objects(rng):
            for tree in (L(V(L(V("p", "q")), L(V("p", "q")), "c", bound=("exact", 2, 0))), L(V(L(V("p", "q")), L(V("p", "q")), bound=("range", 0, 2))),
                         L(V(L(Wild(["w"])), L(Wild(["w"])), L(Wild(["w"])), bound=("exact", 3, 0), sep="+")),
                         L(V("p", "q"), V("p", "q"), Wild(["w"]), Wild(["w"])), L(V(L("a", V("p", "q")), L("a", V("p", "q")), "z", bound=("lower", 1, 0)))):
                work = Work(tree, {"w": [(L("v%d" % i), None) for i in range(3)]})
                want = work.model(cap=20000).comb(tree, {})
                cmd = shared(core.call(self.parse, work.text), {})
                self.expect_eq(core.call(lambda: [str(p) for p in work.context("combinatorial").sample_prompts(cmd)]), want,
                               "enumeration of a command with equal parts differs", **work.describe())
        deep = L("x")
        for i in range(6):
            deep = L("l%d" % i, V(deep, "e%d" % i), V("p", "q"))
        return [
            same_objects,
            one(L(*[V("a", "b") for _ in range(10)])),
            one(L(V("a", "b", "c", "d", "e", bound=("range", 0, 5)))),
            one(L(V("a", "b", "c", "d", "e", "f", bound=("exact", 3, 0), sep=" "), " ", V("x", "y"))),
            one(deep),
            one(L(Wild(["w"]), "-", Wild(["w"])), {"w": [(L("v%02d" % i), None) for i in range(30)]}),
            one(L(V(L(Wild(["w"])), bound=("range", 1, 3))), {"w": [(L("v%d" % i), None) for i in range(6)]}),
            one(L(V(*["o%03d" % i for i in range(500)]))),
            one(L(V("a", "a"), V("b", "b", "b"))),
            one(L(Wild(["w"])), {"w": [(L("v%04d" % i), None) for i in range(2600)]}),
            one(L(V(L(Wild(["w"])))), {"w": [(L("v%04d" % i), None) for i in range(1700)]}),
            one(L(V(*["o%04d" % i for i in range(1300)]))),
            one(L(V(*["o%03d" % (i % 400) for i in range(900)]))),
            one(L("p", V(*["o%02d" % i for i in range(20)], "o00", "o07", bound=("exact", 2, 0)))),
            one(L(V(*["o%03d" % i for i in range(300)], "o000", L(V("o001", "new"))))),
            one(L("a ", Wild(["w"]), " b"), {"w": [(L(), None), (L("x"), None)]}),
            one(L("a ", Wild(["w"]), " b", V("y", "z")), {"w": [(L(), None)]}),
            *[one(L(V(*o, bound=b, sep=s), "."))
              for o in (["A", "a", "b"], ["é", "É", "e"], ["ß", "ss", "SS"], ["1", "１", "01"], ["é", "e\u0301"], ["a", "a ", "a  "],
                        ["x\ty", "x y", "xy"], ["a-b", "a b", "ab"], [L("a", V("B", "b")), "ab", "aB"], ["ı", "i", "İ", "I"],
                        ["a\nb", "a b"], ["a", "(a)", "a."])
              for b, s in ((("exact", 2, 0), None), (("range", 0, 2), " - "))],
            one(L(V(*"abcdefghijk", bound=("exact", 4, 0)))),
            one(L(V(*"abcdefg", bound=("exact", 5, 0), sep="-"), V("x", "y"))),
            one(L("just text")),
            *[one(L("t ", Wild(["w"]), *more), {"w": [(L("v%02d" % i), ws[i % len(ws)]) for i in range(n)]})
              for n, ws, more in ((21, (2.0,), ()), (60, (3.0, 0.5, 1.0, 2.9), ()), (130, (2.0, None), ()), (12, (1.0, 2.0), (Wild(["w"]),)), (3, (150.0, 1.0), ()))],
            one(L(V("a", Seq([]), bound=("range", 0, 2)), "z")),
            one(L(Wild(["w"])), {"w": [(L("a"), 3.0), (L("b"), 1.0), (L("c"), 0.5), (L("d"), 2.9)]}),
        ]

    def many(self, rng):
        """Many options chosen at once: too many combinations for all of them, so the first ones, lazily."""
        n = rng.randint(6, 14)
        lo = rng.randint(max(1, n - 5), n)
        names = ["%s%d" % (rng.choice("abcxyz"), i) for i in range(n)]
        if rng.random() < 0.5:
            opts, wilds = [Opt(Seq([Lit(x)])) for x in names], {}
        else:
            opts, wilds = [Opt(Seq([Wild(["w"])]))], {"w": [(Seq([Lit(x)]), None) for x in names]}
        v = Var(opts, (rng.choice(["exact", "range", "lower"]), lo, rng.randint(lo, n)), rng.choice([None, "-", " and "]))
        tree = Seq([Lit("t "), v, Var([Opt(Seq([Lit(x)])) for x in "uv"])])
        work = Work(tree, wilds)
        want = list(itertools.islice(work.model().lazy(tree, {}), 60))
        self.context = work.describe()
        got = core.call(lambda: [str(p) for p in itertools.islice(work.context("combinatorial").sample_prompts(work.text), 60)])
        self.expect_eq(got, want, "enumeration differs", **work.describe())
        self.rec.count("many_chosen")
        self.rec.distinct(work.key())

    def case(self, rng, index):
        if rng.random() < 0.04:
            return self.many(rng)
        feat = FULL
        methods = rng.random() < 0.15
        work, want = build_sized(rng, lambda w: w.model(cap=150).comb(w.tree, w.env), feat=feat, max_items=4,
                                 max_opts=rng.choice([2, 3, 4]), missing=0.05)
        if methods:
            # "!" inside a combinatorial template changes nothing
            for n in walk(work.tree):
                if isinstance(n, (Var, Wild)) and rng.random() < 0.5 and not (
                        isinstance(n, Var) and n.sole_wild()):
                    n.method = "!"
            work = Work(work.tree, work.wilds, work.env)
            self.rec.count("symbol")
        if not want:
            self.rec.count("empty_enumerations")
        self.check_work(rng, work, want)
        for n in walk(work.tree):
            if isinstance(n, Var):
                if n.bound:
                    self.rec.count("bounded")
                if any(o.w == 0 for o in n.options):
                    self.rec.count("zero_weight")
                if any(isinstance(x, Var) for o in n.options for x in walk(o.node)):
                    self.rec.count("nested_variant")
            elif isinstance(n, Wild):
                self.rec.count("wildcard")
                if any(w is not None for _, w in work.wilds.get(n.path[0], [])):
                    self.rec.count("weighted_wildcard")
            elif isinstance(n, Asg):
                self.rec.count("assignment")
            elif isinstance(n, Wrap):
                self.rec.count("wrap")
