"""Seeds: the same prompts in every process and history; per-prompt seeds act alone."""
import random

from .. import core
from ..helper import Remote, answer
from ..model import TooBig
from ..sem import BASE, FULL, Work, build
from ..tpl import Acc, Asg, Lit, Opt, Seq, Var, Wild, walk


def once_per_call(work):
    """Does the template hold something drawn once per call, or stepping?"""
    trees = [work.tree] + [s for v in work.wilds.values() for s, _ in v] + list(work.env.values())
    for t in trees:
        for n in walk(t):
            if isinstance(n, Asg) and n.immediate:
                return True
            if isinstance(n, Wild) and not n.static:
                return True
            if getattr(n, "method", None) == "@":
                return True
    return False


class Monitor(core.Check):
    id = "C12"
    technique = ("differential monitor over recorded histories: same seed in another process with another hash order; "
                 "each per-prompt seed against the same seed alone")
    rule = ("a case is a template with wildcards and a history of calls with seeds; distinct by template, wildcards and "
            "history; non-trivial: the template can give more than one prompt")
    quick = 1600
    thorough = 60000
    required = ("histories", "other_process", "per_prompt_seeds", "position_independent", "single_seed", "zero_seed", "many_seeds", "twins",
                "rejected", "streams_differ", "unlinked_differ", "weighted_wildcards", "long_draws", "errors_inside",
                "sensitive")

    def setup(self):
        from dynamicprompts.generators import RandomPromptGenerator
        self.Rand = RandomPromptGenerator
        self.remote = Remote(self.seed * 97 + 12345)

    def teardown(self):
        self.remote.close()

    def seedval(self, rng):
        return rng.choice([0, 0, 1, -1, 42, 2**31, 2**32 - 1, 2**64 + 3, -5, rng.randrange(10**6), rng.randrange(10**18)])

    def work(self, rng, feat=FULL | {"methods"}):
        for _ in range(20):
            w = build(rng, feat=feat - {"acc", "params"} if rng.random() < 0.3 else feat, weighted=0.5, zero=True)
            if w.env or not w.text.strip():
                continue
            if rng.random() < 0.4 and any(isinstance(x, (Var, Wild)) for x in w.tree.items):
                # enough choices for different seeds to show
                w.tree.items += [Lit(" "), Var([Opt(Seq([Lit("abcdefgh"[k])])) for k in range(8)])] * 2
                w = Work(w.tree, w.wilds, {})
            return w
        raise core.Skip()

    def history(self, rng, work):
        """A call history on one generator, here and in another process."""
        templates = [work.text, work.text, "{a|b|c}{d|e}", "x {1-2$$p|q|r}", "{bro", "__w0__{3::a|b}", "  {a| b }\n c"]
        calls = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            n = rng.choice([1, 2, 3, 7])
            seeds = None
            k = rng.random()
            if k < 0.25:
                seeds = [self.seedval(rng) for _ in range(n)]
            elif k < 0.35:
                seeds = [self.seedval(rng)]
            elif k < 0.45:
                seeds = self.seedval(rng)
            t = rng.choice(templates)
            calls.append([t, n, seeds])
        seed = self.seedval(rng)
        if seed is not None and rng.random() < 0.1:
            calls.insert(0, [rng.choice(templates), 2, [1, 2, 3]])  # rejected
        req = {"seed": seed, "wilds": work.wild_texts, "calls": calls, "iw": rng.random() < 0.2}
        random.seed(rng.randrange(100))  # the global stream must not matter
        here = core.call(answer, req)
        if isinstance(here, core.Err):
            raise core.Violation("generator failed", {"got": repr(here), "history": repr(req)})
        for _ in range(rng.choice([0, 3])):
            random.random()
        again = core.call(answer, {**req, "noise": rng.choice([0, 2])})
        self.expect_eq(again, here, "same seed and calls give other prompts", history=req)
        there = self.remote({**req, "noise": rng.choice([0, 0, 3])})
        self.expect_eq(there, here, "same seed and calls give other prompts in another process", history=req)
        self.rec.count("histories")
        self.rec.count("other_process")
        if any(isinstance(x, str) for x in here):
            self.rec.count("errors_inside")
        if any(w is not None for v in work.wild_texts.values() for _, w in v):
            self.rec.count("weighted_wildcards")
        self.rec.distinct("history", repr(req))
        self.rec.sample({"history": repr(req)[:300], "prompts": repr(here)[:200]})

    def per_seed(self, rng, work):
        if once_per_call(work):
            raise core.Skip()
        if rng.random() < 0.15:
            # many values and long draws
            work = Work(Seq([Wild(["big"]), Lit(" "), Var([Opt(Seq([Wild(["big"])]))], ("exact", 3, 3), None)]),
                        {"big": [(Seq([Lit("v%d" % i)]), rng.choice([None, 2.0, 0.5]) if rng.random() < 0.5 else None)
                                 for i in range(rng.choice([20, 150]))]}, {})
            self.rec.count("long_draws")
        n = rng.choice([2, 3, 5])
        if rng.random() < 0.03:
            n = rng.choice([60, 130])
            self.rec.count("many_seeds")
        seeds = [self.seedval(rng) for _ in range(n)]
        if rng.random() < 0.3:
            seeds[-1] = seeds[0]
        wm = work.manager()
        own = self.seedval(rng)
        self.context = work.describe()
        info = dict(seeds=seeds, **work.describe())
        single = {}
        for s in set(seeds):
            g = self.Rand(wm, seed=None if rng.random() < 0.5 else own + 1)
            r = core.call(lambda: g.generate(work.text, 1, seeds=[s]))
            if isinstance(r, core.Err) or len(r) != 1:
                raise core.Violation("generation with one seed failed", {"got": repr(r), **info})
            single[s] = r[0]
        g = self.Rand(wm, seed=own)
        if rng.random() < 0.5:
            core.call(lambda: g.generate(rng.choice([work.text, "{a|b}", "{a"]), rng.choice([1, 3])))
        got = core.call(lambda: g.generate(work.text, n, seeds=list(seeds)))
        self.expect_eq(got, [single[s] for s in seeds], "a prompt depends on more than its own seed", **info)
        order = list(seeds)
        rng.shuffle(order)
        got = core.call(lambda: g.generate(work.text, n, seeds=order))
        self.expect_eq(got, [single[s] for s in order], "a prompt depends on the position of its seed", order=order, **info)
        self.rec.count("per_prompt_seeds")
        self.rec.count("position_independent")
        s = rng.choice([0, seeds[0]])
        m = rng.choice([1, 2, 4])
        one = core.call(lambda: self.Rand(wm).generate(work.text, 1, seeds=[s]))
        for form in (s, [s]):
            got = core.call(lambda: g.generate(work.text, m, seeds=form))
            self.expect_eq(got, one * m, "a single seed does not apply to every prompt", seeds_given=form, **info)
        self.rec.count("single_seed")
        if s == 0:
            self.rec.count("zero_seed")
        k = rng.choice([k for k in (2, 3, 4, 6, 7, 8, 12, 2 * n, 3 * n, n + 1) if k != n and k > 1])
        wrong = rng.choice([[1] * k, [0] * k, list(range(k)), [rng.randrange(5) for _ in range(k)]])
        got = core.call(lambda: g.generate(work.text, n, seeds=wrong))
        self.expect(isinstance(got, core.Err) and got.type == "ValueError", "wrong number of seeds not rejected", got=got,
                    number=n, wrong=wrong, **info)
        m = rng.choice([2, 3, 4, 6, 8, 12])
        wrong = rng.choice([[1] * k, [0] * k, list(range(k)), [rng.randrange(5) for _ in range(k)]])
        if m != k:
            got = core.call(lambda: g.generate(work.text, m, seeds=wrong))
            self.expect(isinstance(got, core.Err) and got.type == "ValueError", "wrong number of seeds not rejected", got=got,
                        number=m, wrong=wrong, **info)
        self.rec.count("rejected")
        self.rec.distinct("seeds", work.key(), tuple(seeds))

    def streams(self, rng):
        """24 binary choices and two prompts: equal by chance with probability 2**-48."""
        t = "".join("{a|b}" for _ in range(24))
        if rng.random() < 0.5:
            t = "".join("__w__" for _ in range(24))
        from ..sem import manager
        wm = manager({"w": [("a", None), ("b", None)]})
        seed = self.seedval(rng)
        kw = rng.choice([{}, {"unlink_seed_from_prompt": True, "seed": seed}, {"unlink_seed_from_prompt": True}])
        results = []

        def run():
            random.seed(7)
            g = self.Rand(wm, **kw)
            a = g.generate(t, 2)
            b = g.generate(t, 2)
            random.seed(7)
            c = self.Rand(wm, **kw).generate(t, 2)
            return [tuple(x) for x in (a, b, c)]
        results = core.call(run)
        self.expect(not isinstance(results, core.Err) and len(set(results)) == 3, "streams repeat without a linked seed",
                    options=kw, got=results, template=t)
        self.rec.count("unlinked_differ" if kw else "streams_differ")
        # and seeds do make a difference: another seed, another stream
        s1, s2 = rng.sample(range(10**9), 2)
        got = core.call(lambda: [tuple(self.Rand(wm, seed=s).generate(t, 2)) for s in (s1, s2)])
        self.expect(not isinstance(got, core.Err) and got[0] != got[1], "two seeds give one stream", seeds=(s1, s2), got=got)
        got = core.call(lambda: self.Rand(wm).generate(t, 2, seeds=[s1, s2]))
        self.expect(not isinstance(got, core.Err) and got[0] != got[1], "two prompt seeds give one prompt", seeds=(s1, s2),
                    got=got)
        for k in (16, 31, 32, 48, 53, 62, 63, 64, 100):
            # large seeds are seeds like any other
            big = s1 + (1 << k)
            got = core.call(lambda: self.Rand(wm).generate(t, 2, seeds=[s1, big]))
            self.expect(not isinstance(got, core.Err) and got[0] != got[1], "two prompt seeds give one prompt", seeds=(s1, big), got=got)
            got = core.call(lambda: [tuple(self.Rand(wm, seed=s).generate(t, 2)) for s in (s1, big)])
            self.expect(not isinstance(got, core.Err) and got[0] != got[1], "two seeds give one stream", seeds=(s1, big), got=got)
        got = core.call(lambda: self.Rand(wm, seed=s1).generate(t, 2))
        self.expect(not isinstance(got, core.Err) and got[0] != got[1], "prompts of one stream repeat", seeds=s1, got=got)
        self.rec.count("sensitive")
        self.rec.distinct("streams", s1, s2)

    def directed(self):
        def twins(rng):
            # generators of one seed have streams of their own, however they are used side by side
            t = "".join("{a|b}" for _ in range(16))
            for seed in (0, 1, 7, 123456, 2**31 - 1, 2**31, 2**32, 2**40 + 3, 2**63, 2**64 + 1, 10**30):
                for kw in ({}, {"ignore_whitespace": True}):
                    want = core.call(lambda: self.Rand(seed=seed, **kw).generate(t, 6))
                    a, b, c = (core.call(lambda: self.Rand(seed=seed, **kw)) for _ in range(3))
                    got = [[], [], []]
                    for k in (0, 1, 0, 2, 2, 1, 1, 0, 2):
                        got[k] += core.call(lambda: (a, b, c)[k].generate(t, 2))
                    for x in got:
                        self.expect_eq(x, want, "generators of one seed differ", seed=seed, options=kw)
            self.rec.count("twins")
        return [twins]

    def case(self, rng, index):
        k = rng.random()
        if k < 0.08:
            return self.streams(rng)
        work = self.work(rng)
        if k < 0.45:
            return self.history(rng, work)
        return self.per_seed(rng, work)
