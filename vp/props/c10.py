"""Cyclical sampling: closed form of the n-th prompt."""
import random

from .. import core
from ..model import TooBig
from ..sem import FULL, Hostile, Work, build
from ..tpl import Acc, Asg, Lit, Opt, Seq, Var, Wild, Wrap, walk


class Monitor(core.Check):
    id = "C10"
    technique = "trace monitor: the emitted sequence of cyclical prompts against the closed form of the n-th one"
    rule = ("a case follows the cyclical prompts of a template over one or more full turns; non-trivial: a cycle longer than one; "
            "distinct by workload")
    quick = 1800
    thorough = 60000
    required = ("prompts", "nested", "wildcard", "weighted_wildcard", "bounded", "lockstep", "variables", "no_random_draws",
                "turns>=2", "long_cycles", "symbol_in_random")

    def setup(self):
        from dynamicprompts.generators import RandomPromptGenerator
        self.Rand = RandomPromptGenerator

    def directed(self):
        L = lambda *t: Seq([Lit(x) if isinstance(x, str) else x for x in t])  # noqa: E731

        def one(tree, wilds, n):
            def run(rng):
                work = Work(tree, wilds)
                self.context = work.describe()
                m = work.model(cap=20000)
                want = [m.cyc(tree, {}, i) for i in range(n)]
                got = core.call(lambda: [str(p) for p in work.context("cycle").sample_prompts(work.text, n)])
                if isinstance(got, core.Err):
                    raise core.Violation("cyclical sampling failed", {"got": repr(got), **work.describe()})
                bad = next((i for i in range(min(len(got), n)) if got[i] != want[i]), None)
                self.expect(len(got) == n and bad is None, "cyclical prompts out of turn", first_difference=bad,
                            got=got, expected=want, **work.describe())
                self.rec.count("long_cycles")
                self.rec.distinct(work.key(), n)
            return run

        def vals(k):
            return {"w": [(L("v%04d" % i), None) for i in range(k)]}

        def opts(k, **kw):
            return Var([Opt(L("o%04d" % i)) for i in range(k)], **kw)
        return [
            one(L(Wild(["w"])), vals(80), 200), one(L("a ", Wild(["w"]), opts(3)), vals(150), 700),
            one(L(Wild(["w"])), vals(300), 650), one(L(Wild(["w"])), vals(1100), 2300),
            one(L(opts(70)), {}, 150), one(L(opts(140), "-", opts(129)), {}, 700), one(L(opts(600)), {}, 1300),
            one(L(opts(12, bound=("exact", 2, 0))), {}, 300), one(L(Var([Opt(L(Wild(["w"])))])), vals(130), 300),
            one(L(Var([Opt(L(Wild(["w"])))], ("exact", 2, 0))), vals(14), 400),
            one(L("a ", Wild(["w"])), vals(2), 3000), one(L(Wild(["w"]), opts(3)), vals(3), 4000), one(L(opts(2), "-", opts(3)), {}, 3000),
            one(L(Wild(["w"])), vals(1), 2100), one(L("q", opts(2, bound=("range", 1, 2))), {}, 2100),
            one(L(Var([Opt(L(Wild(["w"]))), Opt(L("z"))])), vals(2), 2500),
            one(L(opts(7, bound=("exact", 4, 0))), {}, 1700), one(L(opts(8, bound=("exact", 4, 0), sep="+")), {}, 3400),
            one(L(Var([Opt(L(Wild(["w"])))], ("exact", 3, 0))), vals(11), 2000),
            one(L("a ", Wild(["w"]), " b"), {"w": [(L(), None), (L("x"), None)]}, 5),
            one(L("a ", Wild(["w"]), " b", opts(2)), {"w": [(L(), None)]}, 5),
        ]

    def case(self, rng, index):
        feat = FULL - {"wrap"}
        for _ in range(20):
            work = build(rng, feat, max_items=4, max_opts=4, missing=0.05)
            if any(isinstance(n, Wrap) for v in work.wilds.values() for s, _ in v for n in walk(s)):
                continue
            try:
                m = work.model(cap=300)
                n = rng.choice([1, 3, 8, 25, 60, 60, 300])
                want = [m.cyc(work.tree, work.env, i) for i in range(n)]
            except (TooBig, ZeroDivisionError):
                continue
            break
        else:
            raise core.Skip()
        self.context = work.describe()
        rand = Hostile(index)
        state = rand.getstate()
        how = rng.random()
        if how < 0.75:
            got = core.call(lambda: [str(p) for p in work.context("cycle", rand=rand).sample_prompts(work.text, n)])
            self.expect(rand.draws == 0 and rand.getstate() == state, "cyclical sampling drew random numbers",
                        draws=rand.draws, **work.describe())
            self.rec.count("no_random_draws")
        else:
            # the whole template inside a cyclical variant of a random template
            asg = [a for a in work.tree.items if isinstance(a, Asg)]
            if asg or work.env or not work.tree.items or not self.simple(work.tree.items[0]):
                raise core.Skip()
            inner = Seq([i for i in work.tree.items])
            if isinstance(inner.items[-1], Lit) and ("|" in inner.items[-1].text):
                raise core.Skip()
            v = Var([Opt(Seq([Lit("other")])), Opt(Seq([Lit("one "), *inner.items]))], method="@")
            if any(isinstance(i, Lit) and any(c in i.text for c in "|}$") for i in inner.items):
                raise core.Skip()
            work = Work(Seq([Lit("<"), v, Lit(">")]), work.wilds, {})
            m = work.model(cap=300)
            want = [m.cyc(work.tree, {}, i) for i in range(n)]
            got = core.call(lambda: self.Rand(work.manager(), seed=index).generate(work.text, n))
            self.rec.count("symbol_in_random")
        if isinstance(got, core.Err):
            raise core.Violation("cyclical sampling failed", {"got": repr(got), **work.describe()})
        bad = next((i for i in range(min(len(got), n)) if got[i] != want[i]), None)
        self.expect(len(got) == n and bad is None, "cyclical prompts out of turn", first_difference=bad,
                    got=got, expected=want, **work.describe())
        self.rec.count("prompts", n)
        kinds = [x for x in walk(work.tree)]
        if any(isinstance(x, Var) and any(isinstance(y, (Var, Wild)) for o in x.options for y in walk(o.node))
               for x in kinds):
            self.rec.count("nested")
        if any(isinstance(x, Wild) for x in kinds):
            self.rec.count("wildcard")
            if any(w is not None for v in work.wilds.values() for _, w in v):
                self.rec.count("weighted_wildcard")
        if any(isinstance(x, Var) and x.bound for x in kinds):
            self.rec.count("bounded")
        if any(isinstance(x, Acc) for x in kinds):
            self.rec.count("variables")
        if sum(isinstance(x, (Var, Wild)) for x in work.tree.items) > 1:
            self.rec.count("lockstep")
        if len(set(want)) > 1:
            if want.count(want[0]) > 1:
                self.rec.count("turns>=2")
            self.rec.distinct(work.key(), n)
            self.rec.sample({**work.describe(), "prompts": got[:5]})

    @staticmethod
    def simple(item):
        return not isinstance(item, Lit) or item.text[0].isalnum()
