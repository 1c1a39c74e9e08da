"""Random choices follow the weights: exact distributions against large samples."""
import random
from collections import Counter

from .. import core, stats
from ..model import TooBig
from ..sem import Work
from ..tpl import Acc, Asg, Lit, Opt, Seq, Var, Wild, Wrap, walk


class Monitor(core.Check):
    id = "C06"
    technique = "statistical monitor: sampled prompts against the exact distribution (two-stage goodness of fit)"
    rule = ("a case computes the exact distribution of a template's prompts, samples thousands and tests the fit of "
            "single prompts and of successive pairs (suspicion at p<1e-6, reported if an independent larger sample "
            "has p<1e-9, or on an impossible prompt); non-trivial: two or more outcomes; distinct by workload")
    quick = 260
    thorough = 9000
    required = ("prompts", "weighted", "multi", "zero_weight", "wildcard_weights", "pairs", "variables", "wraps",
                "by_seeds", "sole_wildcard", "uniform", "duplicates", "rare", "orders", "heavy", "light", "counts")
    N = 2000

    def setup(self):
        from dynamicprompts.generators import RandomPromptGenerator
        self.Rand = RandomPromptGenerator

    def sample(self, work, n, seed, how):
        if how == "seeds":
            got = core.call(lambda: self.Rand(work.manager()).generate(
                work.text, n, seeds=[seed * 100003 + i for i in range(n)]))
        elif how == "unlinked":
            # the process-wide stream: seeded here, so that a run can be repeated
            from dynamicprompts.constants import DEFAULT_RANDOM
            DEFAULT_RANDOM.seed(seed)
            got = core.call(lambda: self.Rand(work.manager(), unlink_seed_from_prompt=True).generate(work.text, n))
        elif how == "calls":
            def calls():
                g = self.Rand(work.manager(), seed=seed)
                return [p for _ in range(n // 100) for p in g.generate(work.text, 100)]
            got = core.call(calls)
        else:
            got = core.call(lambda: self.Rand(work.manager(), seed=seed).generate(work.text, n))
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **work.describe()})
        self.rec.count("prompts", len(got))
        return got

    def test(self, work, dist, how, rng, key=None, size=None):
        seed = rng.randrange(10**6)
        pairs = None
        if 2 <= len(dist) <= 8:
            pairs = {(a, b): p * q for a, p in dist.items() for b, q in dist.items()}

        def stage(n, seed):
            got = self.sample(work, n, seed, how)
            if key:
                got = [key(p) for p in got]
            single = Counter(got)
            extra = [t for t in single if dist.get(t, 0) <= 0]
            if extra:
                raise core.Violation("impossible prompt", {"prompt": repr(extra[0]), "possible":
                                     core.show(sorted(dist)[:30]), "how": how, **work.describe()})
            p1 = stats.fit(single, dist)
            p2 = 1.0
            if pairs:
                p2 = stats.fit(Counter(zip(got[0::2], got[1::2])), pairs)
                self.rec.count("pairs")
            return p1, p2, single
        p1, p2, c1 = stage(size or self.N, seed)
        self.rec.count("comparisons", 2 if pairs else 1)
        if min(p1, p2) < 1e-6:
            q1, q2, c = stage((size or self.N) * 6, seed + 1)
            self.rec.count("suspicions")
            if min(q1, q2) < 1e-9:
                n = sum(c.values())
                raise core.Violation(
                    "prompts do not follow the weights" if q1 < 1e-9 else "successive prompts are not independent",
                    {"expected": core.show({k: round(v, 4) for k, v in sorted(dist.items())[:20]}),
                     "observed": core.show({k: round(v / n, 4) for k, v in sorted(c.items())[:20]}),
                     "p": f"{q1:.2g} (pairs {q2:.2g})", "how": how, **work.describe()})

    # -- workloads
    def make(self, rng):
        ctr = [0]

        def lit():
            ctr[0] += 1
            return Lit(("o%dx" if ctr[0] % 7 else "o%d x") % ctr[0])

        def weight():
            return rng.choice([None, None, "1", "2", "3", "0.5", "0.1", "5", "10", ".25", "1.5", "7.25", "150", "400"])

        wilds = {}

        def var(depth, n=None, multi=None):
            n = n or rng.choice([2, 2, 3, 3, 4, 5])
            opts = []
            for _ in range(n):
                if depth > 0 and rng.random() < 0.3:
                    opts.append(Opt(Seq([var(depth - 1)] if rng.random() < .5 else [lit(), var(depth - 1)])))
                else:
                    opts.append(Opt(Seq([lit()])))
            v = Var(opts)
            style = rng.random()
            if style < 0.6:
                for o in opts:
                    o.weight = weight()
                self.tags.add("weighted")
                if rng.random() < 0.35:
                    o = rng.choice(opts)
                    o.weight = rng.choice(["0", "0.0"])
                    self.tags.add("zero_weight")
                    if sum(o.w for o in opts) == 0:
                        opts[0].weight = "1"
            else:
                self.tags.add("uniform")
            if multi or (multi is None and rng.random() < 0.35 and n <= 4):
                v.bound = (rng.choice(["exact", "range", "lower", "upper"]), rng.randint(0, n), rng.randint(0, n))
                v.sep = rng.choice([None, "+"])
                self.tags.add("multi")
            return v

        def wild(name, multi=False):
            k = rng.choice([1, 2, 3, 4, 6] if not multi else [2, 3, 4])
            vals = []
            for _ in range(k):
                seq = Seq([lit()] if rng.random() < 0.8 else [lit(), var(0, 2, False)])
                vals.append([seq, None])
            if rng.random() < 0.6:
                palette = rng.choice([[None, 150.0, 400.0, 90.0, 1000.0], [None, 1.0, 2.0, 0.5, 3.5, 10.0], [None, 0.6, 1.4, 0.8, 1.2, 1.49, 0.51], [2.1, 2.9, 2.5], [0.1, 0.3, 0.45]])
                for x in vals:
                    x[1] = rng.choice(palette)
                if rng.random() < 0.3 and k > 1 and not multi:
                    vals[-1][1] = 0.0
                    vals[0][1] = 2.0
                self.tags.add("wildcard_weights")
            wilds[name] = [tuple(x) for x in vals]
            return Wild([name])

        items = []
        k = rng.random()
        if k < 0.4:
            items = [var(rng.choice([0, 1, 1]))]
        elif k < 0.55:
            items = [wild("w")]
        elif k < 0.65:
            w = wild("w", multi=True)
            n = len(wilds["w"])
            items = [Var([Opt(Seq([w]))], (rng.choice(["exact", "range", "lower", "upper"]),
                                           rng.randint(0, n), rng.randint(0, n)))]
            self.tags.add("sole_wildcard")
        elif k < 0.75:
            items = [var(0, 2, False), var(0, 2, False)]  # two occurrences
            if rng.random() < 0.5:
                items[1] = items[0]  # written twice
        elif k < 0.85:
            v = var(0, rng.choice([2, 3]), False)
            items = [Asg("v", Seq([v])), Acc("v"), Lit("/"), Acc("v")]
            self.tags.add("variables")
        elif k < 0.92:
            items = [Wrap(Seq([var(0, 2, False), Lit("...")]), Seq([var(0, 2, False)]))]
            self.tags.add("wraps")
        else:
            items = [wild("w"), Lit("/"), Wild(["w"])]
        return Work(Seq(items), wilds, {})

    def directed(self):
        def many(rng):
            tree = Seq([Var([Opt(Seq([Lit("v%d" % i)])) for i in range(120)])])
            work = Work(tree)
            self.test(work, work.model().dist(tree, {}), "generator", rng)

        def manywild(rng):
            work = Work(Seq([Wild(["w"])]), {"w": [(Seq([Lit("v%d" % i)]), None) for i in range(120)]})
            self.test(work, work.model().dist(work.tree, {}), "generator", rng)

        def skew(rng):
            work = Work(Seq([Var([Opt(Seq([Lit("x")]), "1000"), Opt(Seq([Lit("y")]), "30"),
                                  Opt(Seq([Lit("z")]), "30.5")])]))
            self.test(work, work.model().dist(work.tree, {}), "generator", rng)

        def huge(rng):
            # thousands of options or values: every tenth of them gets its share
            for n, kind in ((1500, "wild"), (4000, "wild"), (700, "var"), (2500, "weighted")):
                if kind == "var":
                    work = Work(Seq([Var([Opt(Seq([Lit("v%06d" % i)])) for i in range(n)])]))
                else:
                    work = Work(Seq([Wild(["w"])]))
                    work.wild_texts = {"w": [("v%06d" % i, (1.0 if i % 2 else 3.0) if kind == "weighted" else None) for i in range(n)]}
                m = n // 10
                self.test(work, {str(k): 0.1 for k in range(10)}, "generator", rng, key=lambda p: str(int(p[1:]) // m))
                if kind == "weighted":
                    self.test(work, {"even": .75, "odd": .25}, "calls", rng, key=lambda p: "odd" if int(p[1:]) % 2 else "even")

        def heavy(rng):
            # large and small weights
            for ws in ([1000, 100], [120, 480, 60], [1e6, 3e6], [150, 1, 1], [1e-3, 3e-3], [1e12, 2e12, 1e12], [0.001, 0.01, 0.1], [255, 256, 257 * 3], [1e-8, 3e-8], [2e-7, 0, 6e-7], [1e-9, 1], [0, 1e-4, 3e-4], [0, 1e-7]):
                t = {"v%d" % i: w / sum(ws) for i, w in enumerate(ws)}
                work = Work(Seq([Wild(["w"])]))
                work.wild_texts = {"w": [("v%d" % i, w) for i, w in enumerate(ws)]}
                self.test(work, t, "generator", rng)
                work = Work(Seq([Var([Opt(Seq([Wild(["w"])]))], ("exact", 1, 0))]))
                work.wild_texts = {"w": [("v%d" % i, w) for i, w in enumerate(ws)]}
                self.test(work, t, "generator", rng)
                work = Work(Seq([]))
                work.text = "{" + "|".join("%s::v%d" % (format(w, ".10f"), i) for i, w in enumerate(ws)) + "}"
                self.test(work, t, "generator", rng)
            self.rec.count("heavy")

        def rare(rng):
            # rare options keep their share
            for ws in ([500, 1], [1, 700], [1000, 1, 200], [1, 0.002]):
                t = {"v%d" % i: w / sum(ws) for i, w in enumerate(ws)}
                size = int(40 / min(t.values()))
                work = Work(Seq([Wild(["w"])]))
                work.wild_texts = {"w": [("v%d" % i, float(w)) for i, w in enumerate(ws)]}
                self.test(work, t, "generator", rng, size=size)
                work = Work(Seq([]))
                work.text = "{" + "|".join("%s::v%d" % (w, i) for i, w in enumerate(ws)) + "}"
                self.test(work, t, "calls", rng, size=size // 100 * 100)
            self.rec.count("rare")

        def orders(rng):
            # many chosen: each is as likely as any other at each place
            for n, k in ((6, 5), (7, 7), (9, 6), (12, 12)):
                opts = ["o%02d" % i for i in range(n)]
                for text, wilds in (("{%d$$%s}" % (k, "|".join(opts)), {}), ("{%d$$__w__}" % k, {"w": [(o, None) for o in opts]})):
                    work = Work(Seq([]))
                    work.text, work.wild_texts = text, wilds
                    for place in (0, k // 2, k - 1):
                        self.test(work, {o: 1 / n for o in opts}, "generator", rng, key=lambda p: p.split(",")[place])
            self.rec.count("orders")

        def allzero(rng):
            for t, want in (("{0::a|0::b}", {"a": .5, "b": .5}), ("{2$$a|0::b}", {"a,b": 1.0}),
                            ("{2$$+$$0::a|0::b|c}", {"c+a": .5, "c+b": .5})):
                w = Work(Seq([]))
                w.text = t
                self.test(w, want, "generator", rng)
        def light(rng):
            # many light options next to a heavy one: together they keep their share
            for h, m, kind in ((1e4, 300, "var"), (1e6, 800, "var"), (1e4, 300, "wild"), (1e7, 2000, "wild"), (5e3, 100, "two")):
                w = round(.03 * h / (.97 * m), 4)
                items = [("%s" % format(h, "f"), "x")] + [("%s" % format(w, "f"), "y%d" % i) for i in range(m)]
                rng.shuffle(items)
                work = Work(Seq([Wild(["w"])]))
                if kind == "wild":
                    work.wild_texts = {"w": [(t, float(x)) for x, t in items]}
                else:
                    opts = "|".join("%s::%s" % (x, t) for x, t in items)
                    work.text = "{" + opts + "}" if kind == "var" else "{2$$" + opts + "}"
                s = w * m / (w * m + h)
                if kind == "two":
                    # the heavy one is first unless a light one is
                    dist = {"x": 1 - s, "y": s}
                    self.test(work, dist, "generator", rng, key=lambda p: p[0], size=2000)
                else:
                    self.test(work, {"x": 1 - s, "a": s / 2, "b": s / 2}, "generator", rng, size=3000,
                              key=lambda p: "x" if p == "x" else "ab"[int(p[1:]) % 2])
            self.rec.count("light")

        def counts(rng):
            # the number of chosen options, precisely
            for lo, hi, n in ((0, 4, 4), (1, 3, 5), (2, 7, 8), (0, 1, 1), (0, 1, 3), (0, 10, 10)):
                opts = "|".join("o%d" % i for i in range(n))
                for text, wilds in (("{%d-%d$$%s}" % (lo, hi, opts), {}), ("{%d-%d$$__w__}" % (lo, hi), {"w": [("o%d" % i, None) for i in range(n)]})):
                    work = Work(Seq([]))
                    work.text, work.wild_texts = text, wilds
                    self.test(work, {k: 1 / (hi - lo + 1) for k in range(lo, hi + 1)}, "generator", rng, size=12000, key=lambda p: p.count("o"))
            self.rec.count("counts")
        return [many, manywild, skew, allzero, huge, heavy, rare, orders, light, counts]

    def duplicates(self, rng):
        """A value listed several times counts several times when values are not de-duplicated."""
        k = rng.choice([2, 3, 4])
        weighted = rng.random() < 0.4
        vals = []
        for i in range(k):
            for _ in range(rng.choice([1, 2, 3, 5])):
                vals.append(("d%d" % i, rng.choice([None, 1.0, 2.0, 0.5]) if weighted else None))
        rng.shuffle(vals)
        work = Work(Seq([Wild(["w"])]))
        work.wild_texts = {"w": vals}
        sort = rng.random() < 0.5

        def make():
            wm = Work.manager(work)
            wm.dedup_wildcards = False
            wm.sort_wildcards = sort
            return wm
        work.manager = make
        total = sum(1.0 if w is None else w for _, w in vals)
        dist = {}
        for t, w in vals:
            dist[t] = dist.get(t, 0) + (1.0 if w is None else w) / total
        self.context = work.describe()
        self.test(work, dist, "generator", rng)
        self.rec.count("duplicates")
        self.rec.distinct("dup", vals)

    def case(self, rng, index):
        if rng.random() < 0.06:
            return self.duplicates(rng)
        for _ in range(30):
            self.tags = set()
            work = self.make(rng)
            try:
                dist = work.model(cap=400).dist(work.tree, {})
            except TooBig:
                continue
            break
        else:
            raise core.Skip()
        self.context = work.describe()
        how = rng.choice(["generator", "generator", "seeds", "unlinked", "calls"])
        if how == "seeds":
            self.rec.count("by_seeds")
        self.test(work, dist, how, rng)
        for t in self.tags:
            self.rec.count(t)
        if len(dist) > 1:
            self.rec.distinct(work.key())
            self.rec.sample(work.describe())
