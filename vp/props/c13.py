"""Isolation: every generation, interleaved with others, against the same generation alone."""
import copy
import dataclasses
import itertools
import random
import sys
import threading

from .. import core
from ..model import TooBig
from ..sem import FULL, Work, build
from ..tpl import CUSTOM_CFGS, DEFAULT, Acc, Asg, Lit, Opt, Seq, Var, Wild, Wrap, walk


def frozen(x):
    """A structural snapshot of arguments, deep enough to show any modification."""
    return repr(x)


class Stream:
    """One generation that can be advanced step by step, and repeated alone."""

    def __init__(self, kind, work, seed, command, variables, n):
        self.kind, self.work, self.seed, self.command, self.variables, self.n = kind, work, seed, command, variables, n
        self.got = []
        self.it = None

    def open(self, wm, share=True):
        from dynamicprompts.enums import SamplingMethod
        from dynamicprompts.sampling_context import SamplingContext
        kw = {"rand": random.Random(self.seed)}
        ctx = SamplingContext(default_sampling_method=SamplingMethod(self.kind), wildcard_manager=wm,
                              parser_config=self.work.cfg.real(), variables=self.variables, **kw)
        return iter(ctx.sample_prompts(self.command if share else self.work.text, None))

    def alone(self):
        from dynamicprompts.parser.parse import parse
        real = self.work.cfg.real()
        s = Stream(self.kind, self.work, self.seed, None,
                   {k: parse(t, parser_config=real) for k, t in self.work.env_texts.items()}, self.n)
        r = core.call(lambda: [str(p) for p in itertools.islice(s.open(self.work.manager(), share=False), self.n)])
        return "raised " + r.type if isinstance(r, core.Err) else r


class Monitor(core.Check):
    id = "C13"
    technique = ("schedule-driven differential monitor: interleaved generations against each run alone, with snapshots of "
                 "arguments and of the global random state")
    rule = ("a case is a set of generations over shared managers, commands and variables with a random schedule of steps, "
            "abandonments and disturbances; distinct by workload and schedule; non-trivial: at least two streams")
    # an enumeration may have to go through very many combinations that turn out equal or empty; how long that
    # takes is not this property's business
    cpu_limit = 8.0
    may_be_slow = True
    quick = 700
    thorough = 16000
    required = ("schedules", "steps", "abandoned", "reseeded_global", "shared_manager", "shared_command", "random",
                "combinatorial", "cycle", "arguments", "seed_lists", "root_maps", "threads", "own_names", "thread_generations",
                "generators", "failures_between",
                "calls_in_turn", "restarts", "one_context", "unchanged_commands")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        from dynamicprompts.parser.parse import parse
        self.Comb, self.Rand, self.parse = CombinatorialPromptGenerator, RandomPromptGenerator, parse

    def directed(self):
        def own_names(rng):
            # parameters and assignments named like the caller's variables leave those as they are
            from ..sem import manager
            from dynamicprompts.enums import SamplingMethod
            from dynamicprompts.sampling_context import SamplingContext
            wm = manager({"w": [("v${a:?}", None)], "s": [("${a=inner}${a}", None)], "t": [("__w(a=deep)__${a:?}", None)]})
            for method in ("random", "combinatorial", "cycle"):
                for t, want in (("__w(a=x)__ ${a:?}", "vx A"), ("__s__ ${a:?}", "inner A"), ("__t__ ${a:?}", "vdeepA A"), ("__w(a={y|y})__${a}", "vyA"),
                                ("{__w(a=x,b=c)__}${a}${b}", "vxAB"), ("${b=new}__w(b=q)__${b}", "vAnew"), ("__w(a=p)____w__", "vpvA"),
                                ("%{__w(a=x)__...$$${a}}", "vxA")):
                    if "%" in t and method == "cycle":
                        continue
                    variables = {k: self.parse(v) for k, v in (("a", "A"), ("b", "B"))}
                    before, same = frozen(variables), dict(variables)
                    ctx = SamplingContext(default_sampling_method=SamplingMethod(method), wildcard_manager=wm, variables=variables)
                    own = dict(ctx.variables)
                    for n in (1, 3, 1):
                        got = core.call(lambda: [str(p) for p in ctx.sample_prompts(t, n)])
                        k = 1 if method == "combinatorial" else n
                        self.expect(not isinstance(got, core.Err) and set(got) == {want} and 1 <= len(got) <= k * 2, "prompts of a shared context differ", template=t,
                                    method=method, got=got, expected=want)
                        self.expect(frozen(variables) == before and all(variables[x] is same[x] for x in same) and set(variables) == set(same),
                                    "variables modified", template=t, before=before, after=frozen(variables))
                        self.expect(set(ctx.variables) == set(own) and all(ctx.variables[x] is own[x] for x in own),
                                    "the context's variables are modified", template=t, method=method)
            self.rec.count("own_names")
        return [own_names]

    def usable(self, rng, cyc_ok=False, cfg=DEFAULT):
        for _ in range(30):
            feat = (FULL - {"wrap"}) | {"methods"} if rng.random() < 0.4 else FULL
            w = build(rng, feat=feat, cfg=cfg)
            if w.text.strip():
                return w
        raise core.Skip()

    def disturb(self, rng, wm):
        """Things that happen elsewhere in the process."""
        k = rng.randrange(8)
        if k == 0:
            random.seed(rng.randrange(50))
            self.rec.count("reseeded_global")
        elif k == 1:
            random.random()
        elif k == 2:
            g = self.Rand(wm, seed=rng.randrange(5))
            core.call(lambda: g.generate("{a|b|c} {x|y}", 3))
        elif k == 3:
            it = iter(self.Comb(wm)._context.sample_prompts("{a|b}{c|d|e}", None)) if hasattr(self.Comb(wm), "_context") \
                else iter(())
            core.call(lambda: next(it))
            self.rec.count("abandoned")
        elif k == 4:
            r = core.call(lambda: self.Rand(wm, seed=1).generate("{a|b"))
            self.rec.count("failures_between", isinstance(r, core.Err))
        elif k == 5:
            core.call(lambda: self.Rand(wm).generate("${t0=!{9|8}}${t0} ${e0:nothing} ${p:7}", 2, seeds=[3, 4]))
        elif k == 6:
            core.call(lambda: self.Comb(wm).generate("${e0=changed}${t0=other}{${e0}|${t0}}"))
        else:
            core.call(lambda: self.parse("{~q|w}", parser_config=rng.choice(CUSTOM_CFGS).real()))

    def schedule(self, rng, index):
        works = [self.usable(rng, cfg=rng.choice(CUSTOM_CFGS) if rng.random() < 0.15 else DEFAULT)
                 for _ in range(rng.choice([1, 2, 2]))]
        streams = []
        shared = []
        for w in works:
            real = w.cfg.real()
            command = core.call(lambda: self.parse(w.text, parser_config=real))
            if isinstance(command, core.Err):
                raise core.Violation("template not parsed", {"got": repr(command), **w.describe()})
            variables = {k: self.parse(t, parser_config=real) for k, t in w.env_texts.items()}
            wm = w.manager()
            shared.append((w, command, variables, wm, frozen(command), frozen(variables), dict(variables)))
            for _ in range(rng.choice([1, 2, 2, 3])):
                kind = rng.choice(["random", "random", "combinatorial", "cycle"])
                s = Stream(kind, w, rng.randrange(10**6), command, variables, rng.choice([1, 3, 6, 10]))
                s.wm = wm
                streams.append(s)
        self.context = [w.describe() for w in works]
        want = [s.alone() for s in streams]
        live = []
        log = []
        pending = list(streams)
        state = random.getstate()
        touched = False
        while pending or live:
            k = rng.random()
            if pending and (k < 0.3 or not live):
                s = pending.pop()
                s.it = core.call(s.open, s.wm, rng.random() < 0.7)
                if isinstance(s.it, core.Err):
                    s.got, s.done = "raised " + s.it.type, True
                else:
                    live.append(s)
                log.append("open")
            elif k < 0.42:
                random.setstate(state)
                self.disturb(rng, rng.choice(streams).wm)
                state = random.getstate()
                log.append("disturb")
            else:
                s = rng.choice(live)
                r = core.call(lambda: next(s.it, None))
                self.rec.count("steps")
                if isinstance(r, core.Err):
                    s.got = "raised " + r.type
                    live.remove(s)
                elif r is None:
                    live.remove(s)
                else:
                    s.got.append(str(r))
                    if len(s.got) >= s.n:
                        live.remove(s)
                        if rng.random() < 0.5:
                            core.call(lambda: getattr(s.it, "close", lambda: None)())
                        self.rec.count("abandoned")
                self.expect(random.getstate() == state, "the global random state was changed", **s.work.describe())
                log.append(len(s.got))
        for s, w in zip(streams, want):
            info = dict(kind=s.kind, others=[(o.kind, o.work.text) for o in streams if o is not s], **s.work.describe())
            if isinstance(w, str) or isinstance(s.got, str):
                self.expect_eq(s.got, w, "outcome differs from the generation run alone", **info)
            else:
                self.expect_eq(s.got, w, "prompts differ from the generation run alone", **info)
            self.rec.count(s.kind)
        for w, command, variables, wm, fc, fv, dv in shared:
            self.expect(frozen(command) == fc, "command object modified", before=fc, after=frozen(command))
            self.expect(frozen(variables) == fv and all(variables[k] is v for k, v in dv.items()),
                        "variables modified", before=fv, after=frozen(variables))
        self.rec.count("schedules")
        if len(streams) > len(works):
            self.rec.count("shared_manager")
            self.rec.count("shared_command")
        if len(streams) > 1:
            self.rec.distinct([w.key() for w in works], [(s.kind, s.n, s.seed) for s in streams], tuple(log))
        self.rec.sample({"templates": [w.text for w in works], "kinds": [s.kind for s in streams], "schedule": log[:20]})

    def one_context(self, rng, index):
        """Several generations from one and the same context, one after the other and interleaved."""
        kind = rng.choice(["cycle", "cycle", "combinatorial"])
        w = build(rng, feat=FULL - {"wrap"} if kind == "cycle" else FULL)
        if rng.random() < 0.6:
            k = rng.choice([6, 9, 20, 70])
            big = {"big": [(Seq([Lit("v%03d" % i)]), None) for i in range(k)]}
            item = rng.choice([Wild(["big"]), Var([Opt(Seq([Wild(["big"])]))]), Var([Opt(Seq([Lit("o%02d" % i)])) for i in range(k)])])
            w = Work(Seq([*w.tree.items, Lit(" "), item]), {**w.wilds, **big}, w.env)
        if any(isinstance(x, Wrap) for v in w.wilds.values() for s, _ in v for x in walk(s)) or not w.text.strip():
            raise core.Skip()
        self.context = w.describe()
        m, n = rng.choice([1, 4, 7, 12]), rng.choice([1, 5, 8, 14])
        ctx = w.context(kind, rand=random.Random(index))
        ends = []
        run = lambda c, k: "raised" if isinstance(r := core.call(lambda: [str(p) for p in c.sample_prompts(w.text, k)]), core.Err) else r  # noqa: E731
        want = {k: run(w.context(kind, rand=random.Random(index + k)), k) for k in (m, n)}
        for k in (m, n, m):
            ends.append((k, run(ctx, k)))
        command = self.parse(w.text)
        a, b = [], []
        its = [(iter(ctx.sample_prompts(command, None)), a, n), (iter(ctx.sample_prompts(command, None)), b, m)]

        def both():
            while its:
                it = rng.choice(its)
                p = next(it[0], None)
                if p is None or len(it[1]) >= it[2]:
                    its.remove(it)
                else:
                    it[1].append(str(p))
            return True
        r = core.call(both)
        if not isinstance(r, core.Err):
            ends += [(n, a), (m, b)]
        for k, got in ends:
            self.expect_eq(got, want[k], "generations from one context depend on one another", kind=kind, n=k, **w.describe())
        self.rec.count("one_context")
        self.rec.distinct("one context", w.key(), kind, m, n)

    def unchanged(self, rng, index):
        """Commands with many parts and assignments, sampled again and again."""
        names = ["x", "y", "z"]
        asg = lambda: "${%s%s=%s%s}" % (rng.choice(names), rng.choice(["", "", "?"]), rng.choice(["", "", "!"]), rng.choice(["1", "{p|q}", "w {r|s}", "__w__"]))  # noqa: E731
        parts = []
        for _ in range(rng.choice([2, 4, 7, 12])):
            parts.append(rng.choice([asg, asg, lambda: "${%s:d}" % rng.choice(names), lambda: "lit ", lambda: "{a|b}", lambda: "{2$$a|b|c}", lambda: "__w(x={k|l})__", lambda: "{1-2$$__w__}",
                                     lambda: "{a|${%s:e}}" % rng.choice(names), lambda: "%{<...>$$${x:n}}"])())
        text = "t" + "".join(parts)
        work = Work(Seq([]), {"w": [(Seq([Lit("v")]), None), (Seq([Asg("y", Seq([Lit("own")])), Lit("u"), Acc("y", Seq([])), Acc("x", Seq([]))]), None)]})
        variables = {n: self.parse(rng.choice(["env", "{e|f}", "${q:g}"])) for n in names if rng.random() < 0.5}
        command = core.call(self.parse, text)
        info = dict(template=text, variables=repr(variables))
        self.context = info
        if isinstance(command, core.Err):
            raise core.Violation("valid template rejected", {"got": repr(command), **info})
        fc, fv, parts0 = frozen(command), frozen(variables), list(getattr(command, "tokens", []))
        wm = work.manager()
        for method in ("random", "combinatorial", "cycle"):
            if method == "cycle" and "%{" in text:
                continue
            runs = []
            for c in (command, command, self.parse(text)):
                ctx = dataclasses.replace(work.context(method, rand=random.Random(index), wildcard_manager=wm), variables=variables)
                runs.append(core.call(lambda: [str(p) for p in ctx.sample_prompts(c, 20)]))
                self.expect(frozen(command) == fc and all(a is b for a, b in zip(parts0, getattr(command, "tokens", []))), "command object modified",
                            before=fc, after=frozen(command), method=method)
                self.expect(frozen(variables) == fv, "variables modified", before=fv, after=frozen(variables))
            shown = [repr(r) for r in runs]
            self.expect(shown[0] == shown[1] == shown[2], "the same command gives other prompts when sampled again", method=method, got=runs, **info)
        self.rec.count("unchanged_commands")
        self.rec.distinct("unchanged", text)

    def arguments(self, rng, index):
        """Whole calls through the generators, with argument snapshots; repeated calls agree."""
        w = self.usable(rng)
        if w.env:
            raise core.Skip()
        from dynamicprompts.wildcards import WildcardManager
        lists = {k: [t for t, _ in v] for k, v in w.wild_texts.items()}
        for v in lists.values():
            rng.shuffle(v)
            v.append(v[0])
        root_map = {"": [dict(lists)], "sub": [{"x": ["1", "2"]}]}
        if rng.random() < 0.3:
            root_map = {"sub": [{"x": ["1", "2"]}, dict(lists)], **rng.choice([{}, {"": []}])}
        before = copy.deepcopy(root_map)
        wm = WildcardManager(root_map=root_map)
        options = rng.choice([(True, True)] * 3 + [(True, False), (False, True), (False, False)])
        wm.sort_wildcards, wm.dedup_wildcards = options
        public = lambda m: (m.sort_wildcards, m.dedup_wildcards, m.shuffle_wildcards, m.path, m.wildcard_wrap, m.get_collection_names())
        seen = public(wm)
        shuffling = WildcardManager(root_map=root_map)
        shuffling.shuffle_wildcards = True
        seen_shuffling = public(shuffling)
        n = rng.choice([1, 2, 4])
        seeds = rng.choice([[rng.randrange(99)], [rng.randrange(99) for _ in range(n)]])
        seeds0 = list(seeds)
        info = w.describe()
        self.context = info
        random.seed(index)
        state = random.getstate()

        def run():
            g = self.Rand(wm, seed=3)
            a = g.generate(w.text, n, seeds=seeds)
            c = self.Comb(wm).generate(w.text, 40)
            self.Rand(wm).generate(w.text, 2)
            fresh = WildcardManager(root_map=root_map)
            fresh.sort_wildcards, fresh.dedup_wildcards = options
            b = self.Rand(fresh, seed=8).generate(w.text, n, seeds=seeds)
            other = WildcardManager(root_map=root_map)
            other.sort_wildcards, other.dedup_wildcards = options
            d = self.Comb(other).generate(w.text, 40)
            return a, b, c, d
        r = core.call(run)
        if isinstance(r, core.Err):
            raise core.Violation("generation failed", {"got": repr(r), **info})
        once = any(isinstance(x, Asg) and x.immediate for x in walk(w.tree))
        methods = any(getattr(x, "method", None) for t in [w.tree] + [s for v in w.wilds.values() for s, _ in v]
                      for x in walk(t))
        if not methods:
            if not once:
                self.expect_eq(r[1], r[0], "using the same arguments again gives other prompts", seeds=seeds, **info)
            self.expect_eq(r[3], r[2], "enumerating the same template again gives other prompts", **info)
        self.expect_eq(seeds, seeds0, "list of seeds modified", **info)
        self.expect_eq(root_map, before, "map of wildcards modified", **info)
        self.expect(random.getstate() == state, "the global random state was changed", **info)
        self.expect_eq(public(wm), seen, "wildcard manager changed", **info)
        for make in (self.Rand, self.Comb):
            core.call(lambda: make(shuffling, ignore_whitespace=rng.random() < 0.5).generate(w.text, 2))
        self.expect_eq(public(shuffling), seen_shuffling, "wildcard manager changed", **info)
        self.rec.count("arguments")
        self.rec.count("seed_lists")
        self.rec.count("root_maps")
        self.rec.count("generators")
        self.rec.distinct("args", w.key(), tuple(seeds))

    def calls(self, rng, index):
        """Several generators alive at once, called in turn; each against its own calls alone."""
        works = [w for w in (self.usable(rng) for _ in range(3)) if not w.env]
        if not works:
            raise core.Skip()
        wm = works[0].manager()
        self.context = [w.describe() for w in works]
        specs = []
        for _ in range(rng.choice([2, 3, 4])):
            specs.append((rng.choice(["rand", "rand", "comb"]), rng.choice([0, 1, 1, 5, rng.randrange(10**6)]),
                          rng.random() < 0.2))
        # random elements of a combinatorial generator draw from a stream that has no seed
        plain = [w for w in works if not any(
            getattr(x, "method", None) for t in [w.tree] + [s for v in works[0].wilds.values() for s, _ in v]
            for x in walk(t))]
        plan = []
        for _ in range(rng.choice([4, 7, 10])):
            k = rng.randrange(len(specs))
            pool = works if specs[k][0] == "rand" else plain
            if pool:
                w = rng.choice(pool)
                n = rng.choice([1, 1, 2, 5])
                if plan and rng.random() < 0.35:
                    _, last, n0, _ = plan[-1]  # the same again
                    if any(x.text == last for x in pool):
                        w, n = next(x for x in pool if x.text == last), rng.choice([n0, n])
                seeds = [rng.randrange(9) for _ in range(n)] if specs[k][0] == "rand" and rng.random() < 0.3 else None
                plan.append((k, w.text, n, seeds))

        def make(spec, wm):
            kind, seed, iw = spec
            if kind == "rand":
                return self.Rand(wm, seed=seed, ignore_whitespace=iw)
            return self.Comb(wm, ignore_whitespace=iw)

        def do(g, text, n, seeds):
            r = core.call(lambda: g.generate(text, n, **({"seeds": seeds} if seeds else {})))
            return "raised " + r.type if isinstance(r, core.Err) else r
        want = {}
        for k, spec in enumerate(specs):
            g = make(spec, works[0].manager())
            want[k] = [do(g, *p[1:]) for p in plan if p[0] == k]
        gens = {}
        got = {k: [] for k in range(len(specs))}
        for p in plan:
            if p[0] not in gens:
                gens[p[0]] = make(specs[p[0]], wm)
            if rng.random() < 0.3:
                self.disturb(rng, wm)
            got[p[0]].append(do(gens[p[0]], *p[1:]))
            self.rec.count("calls_in_turn")
        # a combinatorial generator always starts from the beginning
        for k, spec in enumerate(specs):
            if spec[0] == "comb":
                for p, r in zip([p for p in plan if p[0] == k], got[k]):
                    self.expect_eq(r, do(make(spec, works[0].manager()), *p[1:]), "a combinatorial generator's prompts depend on "
                                   "its earlier calls", plan=plan, template=p[1], wildcards=works[0].wild_texts)
                    self.rec.count("restarts")
        for k in got:
            self.expect_eq(got[k], want[k], "a generator's prompts depend on other generators", spec=specs[k], plan=plan,
                           wildcards=works[0].wild_texts)
        # a stream without a seed is not restarted by the creation of seeded generators
        t = "{a|b}" * 24
        u = self.Rand(wm, unlink_seed_from_prompt=rng.random() < 0.7)
        seen = []
        for _ in range(3):
            core.call(lambda: self.Rand(wm, seed=5).generate(t, 1, **rng.choice([{}, {"seeds": [3]}])))
            random.seed(5)
            seen.append(repr(core.call(lambda: u.generate(t, 1))))
        self.expect(len(set(seen)) == 3, "a stream without a seed is restarted by other generators", got=seen)
        self.rec.distinct("calls", repr(plan), repr(specs))

    def threads(self, rng, index):
        """Generations in concurrent threads, each with its own generator and manager."""
        works = [w for w in (self.usable(rng) for _ in range(4)) if not w.env]
        if len(works) < 2:
            raise core.Skip()
        self.context = [w.describe() for w in works]

        def one(w, k):
            try:
                if k % 3 == 2:
                    return self.Comb(w.manager()).generate(w.text, 15)
                return self.Rand(w.manager(), seed=k).generate(w.text, 4)
            except Exception as e:  # noqa: BLE001
                return "raised " + type(e).__name__
        jobs = [(w, k) for w in works for k in (1, 2)]
        methods = any(getattr(x, "method", None) for w in works for t in [w.tree] + [s for v in w.wilds.values() for s, _ in v]
                      for x in walk(t))
        if methods:
            raise core.Skip()  # random elements of a combinatorial generator draw from a stream that has no seed
        with core.sut():
            want = [one(*j) for j in jobs]
        got = [None] * len(jobs)

        def run(i):
            got[i] = one(*jobs[i])
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=run, args=(i,)) for i in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for j, a, b in zip(jobs, got, want):
            self.expect_eq(a, b, "prompts differ when other threads generate at the same time", **j[0].describe())
            self.rec.count("thread_generations")
        self.rec.count("threads")
        self.rec.distinct("threads", [w.key() for w in works])

    def case(self, rng, index):
        k = rng.random()
        if k < 0.42:
            self.schedule(rng, index)
        elif k < 0.5:
            self.one_context(rng, index)
        elif k < 0.56:
            self.unchanged(rng, index)
        elif k < 0.72:
            self.calls(rng, index)
        elif k < 0.9:
            self.arguments(rng, index)
        else:
            self.threads(rng, index)
