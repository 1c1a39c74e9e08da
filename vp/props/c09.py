"""Prompt limit: prefix of the enumeration; work and memory bounded by the limit, not by the combinations."""
import itertools
import sys
import tracemalloc

from .. import core
from ..sem import FULL, Work, build_sized, manager
from ..tpl import Acc, Asg, Lit, Opt, Render, Seq, Var, Wild, Wrap

TOOL = 3


class Steps:
    """Counts Python calls made while the code under test runs; stops it at a budget."""

    class Exceeded(BaseException):
        pass

    def __init__(self, budget):
        self.budget, self.n = budget, 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "vp")

        def tick(*_):
            self.n += 1
            if self.n > self.budget:
                m.set_events(TOOL, 0)  # once is enough: the clean-up runs undisturbed
                raise Steps.Exceeded()
        for ev in (m.events.PY_START, m.events.PY_RESUME, m.events.PY_YIELD):
            m.register_callback(TOOL, ev, tick)
        m.set_events(TOOL, m.events.PY_START | m.events.PY_RESUME | m.events.PY_YIELD)
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        for ev in (m.events.PY_START, m.events.PY_RESUME, m.events.PY_YIELD):
            m.register_callback(TOOL, ev, None)
        m.free_tool_id(TOOL)
        return False


class Monitor(core.Check):
    id = "C09"
    technique = "prefix monitor plus step-counting and allocation monitors on templates with astronomically many combinations"
    rule = ("a case compares limited enumerations with the prefix of the full one, or runs a huge template under a step budget; "
            "distinct by workload and limit")
    quick = 800
    thorough = 24000
    required = ("prefix", "below", "beyond", "unlimited", "default_limit", "huge", "lazy", "memory", "abandoned", "huge_wildcard",
                "huge_bounds", "huge_nested", "huge_wrap", "huge_variable")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator
        self.Comb = CombinatorialPromptGenerator

    def prefix(self, rng, index):
        work, want = build_sized(rng, lambda w: w.model(cap=80).comb(w.tree, w.env), feat=FULL, max_items=3)
        self.context = work.describe()
        limits = {0, 1, 2, len(want) - 1, len(want), len(want) + 1, rng.randint(0, len(want) + 5), 10**9}
        for n in sorted(x for x in limits if x >= 0):
            if rng.random() < 0.3:
                continue
            if work.env or rng.random() < 0.3:
                got = core.call(lambda: [str(p) for p in work.context("combinatorial").sample_prompts(work.text, n)])
            else:
                got = core.call(lambda: self.Comb(work.manager()).generate(work.text, n))
            self.expect_eq(got, want[:n], f"limit {n} does not give the first {n} prompts", **work.describe())
            self.rec.count("prefix")
            self.rec.count("below" if n < len(want) else "beyond")
            if len(want) > 1:
                self.rec.distinct(work.key(), n)
        if not work.env:
            got = core.call(lambda: self.Comb(work.manager()).generate(work.text, None))
            self.expect_eq(got, want, "no limit does not give all", **work.describe())
            self.rec.count("unlimited")
        # the lazy iterable, abandoned half-way, then used again
        if rng.random() < 0.3 and want:
            ctx = work.context("combinatorial")
            k = rng.randint(0, len(want))

            def part():
                it = iter(ctx.sample_prompts(work.text))
                head = [str(next(it)) for _ in range(k)]
                del it
                return head, [str(p) for p in ctx.sample_prompts(work.text, k)]
            self.expect_eq(core.call(part), (want[:k], want[:k]), "abandoning the enumeration changes it",
                           **work.describe())
            self.rec.count("abandoned")

    # -- templates with very many combinations in random places, whose first prompts the lazy model knows
    def composed(self, rng):
        uid = iter(range(10**6))
        wilds, params = {}, []

        def lit():
            return Seq([Lit("%s%d" % (rng.choice("abcdefg"), next(uid)))])

        def block():
            """More combinations than could ever be enumerated."""
            k = rng.random()
            if k < 0.6:
                return Seq([Var([Opt(lit()) for _ in range(rng.choice([2, 3]))]) for _ in range(rng.choice([24, 30]))])
            if k < 0.8:
                return Seq([Var([Opt(lit()) for _ in range(12)], ("exact", 12, 12), rng.choice([None, "-"]))])
            n = f"w{next(uid)}"
            wilds[n] = [(Seq([Lit("%s%03d" % (n, i))]), None) for i in range(60)]
            return Seq([Wild([n]) for _ in range(5)])

        def place(inner, depth):
            k = rng.choice(["option", "chosen", "chosen", "value", "sole", "wrapper", "inner", "variable", "immediate", "default", "param", "weighted", "plain"])
            if k == "option":
                node = Var([Opt(inner if i == 0 or rng.random() < 0.2 else lit()) for i in range(rng.choice([2, 3, 40]))])
            elif k == "chosen":
                n = rng.choice([2, 3, 4])
                at = rng.randrange(n)
                node = Var([Opt(inner if i == at else lit()) for i in range(n)], rng.choice([("exact", n, n), ("range", 2, n)]), rng.choice([None, " and "]))
            elif k in ("value", "sole", "weighted"):
                n = f"w{next(uid)}"
                many = rng.choice([50.0, 1e9, 3e12])
                vals = [(inner, 1.0 if k == "weighted" else None), (lit(), many if k == "weighted" else None)]
                wilds[n] = sorted(vals, key=lambda v: Render()(v[0]))
                node = Wild([n]) if k != "sole" else Var([Opt(Seq([Wild([n])]))], rng.choice([None, ("exact", 2, 2), ("range", 1, 2)]))
            elif k in ("wrapper", "inner"):
                frame = Seq([Lit("f%d ... " % next(uid))])
                if k == "wrapper":
                    # the marker comes first, so that it is the first one
                    node = Wrap(Seq([Lit("... "), *inner.items]), lit())
                else:
                    node = Wrap(frame, inner)
            elif k in ("variable", "immediate"):
                v = "v%d" % next(uid)
                params.append(Asg(v, inner, immediate=k == "immediate"))
                node = Acc(v)
            elif k == "default":
                node = Acc("u%d" % next(uid), inner)
            elif k == "param":
                n, v = f"w{next(uid)}", "p%d" % next(uid)
                wilds[n] = [(Seq([Acc(v, lit())]), None)]
                if "(" in Render()(inner) or "," in Render()(inner):
                    return inner, k
                node = Wild([n], params=[(v, inner)])
            else:
                node = Var([Opt(inner)])
            self.rec.count("placed:" + k)
            return Seq([node, *lit().items] if rng.random() < 0.5 else [node]), k
        node, kinds = block(), []
        for depth in range(rng.choice([1, 1, 2])):
            node, k = place(node, depth)
            kinds.append(k)
        items = [*node.items]
        if rng.random() < 0.5:
            items = [*block().items, *items] if rng.random() < 0.5 else [*items, *block().items]
        work = Work(Seq([*params, *items]), wilds)
        first = list(itertools.islice(work.model().lazy(work.tree, {}), 40))
        return "+".join(kinds), work.text, work.wild_texts, lambda i: first[i], len(first)

    # -- templates with very many combinations, whose first prompts are known
    def huge(self, rng):
        k = rng.choice(["flat", "flat", "bounds", "nested", "wildcard", "solewild", "wrap", "variable", "options",
                        "onelong"])
        size = rng.choice([12, 20, 30])
        wilds = {}
        opts = ["a", "b", "c"]
        if k == "flat":
            text = " ".join("{a|b|c}" for _ in range(size))
            nth = lambda i: " ".join(opts[(i // 3**j) % 3] for j in reversed(range(size)))  # noqa: E731
        elif k == "onelong":
            text = "{" + "|".join("o%d{a|b|c}" % i for i in range(200)) + "}" + "{x|y}" * size
            nth = lambda i: "o0a" + "".join("xy"[(i >> j) & 1] for j in reversed(range(size)))  # noqa: E731
        elif k == "bounds":
            n = 14
            o = ["o%02d" % i for i in range(n)]
            text = "{%d$$%s}" % (n, "|".join(o))
            import itertools
            nth = lambda i: ",".join(next(itertools.islice(itertools.permutations(o), i, None)))  # noqa: E731
            self.rec.count("huge_bounds")
        elif k == "nested":
            text, depth = "z", 5
            for _ in range(depth):
                text = "{" + text + "|q}" + "{a|b}" * 8
            n = 8 * depth
            nth = lambda i: "z" + "".join("ab"[(i >> j) & 1] for j in reversed(range(n)))  # noqa: E731
            self.rec.count("huge_nested")
        elif k == "wildcard":
            vals = ["v%03d" % i for i in range(100)]
            wilds = {"w": [(v, None) for v in vals]}
            text = "-".join("__w__" for _ in range(8))
            nth = lambda i: "-".join(vals[(i // 100**j) % 100] for j in reversed(range(8)))  # noqa: E731
            self.rec.count("huge_wildcard")
        elif k == "solewild":
            vals = ["v%03d" % i for i in range(60)]
            wilds = {"w": [(v, None) for v in vals]}
            text = "{8$$__w__}"
            import itertools
            nth = lambda i: ",".join(next(itertools.islice(itertools.permutations(vals, 8), i, None)))  # noqa: E731
            self.rec.count("huge_wildcard")
        elif k == "wrap":
            text = "%{" + "{a|b}" * size + "...$$" + "{x|y}" * size + "}"
            nth = lambda i: "a" * size + "".join("xy"[(i >> j) & 1] for j in reversed(range(size)))  # noqa: E731
            self.rec.count("huge_wrap")
        elif k == "variable":
            text = "${v=" + "{a|b}" * 10 + "}" + "${v}" * 3
            nth = lambda i: "".join("ab"[(i >> j) & 1] for j in reversed(range(30)))  # noqa: E731
            self.rec.count("huge_variable")
        else:
            text = "{" + "|".join("o%d" % i for i in range(300)) + "}" + "{a|b}" * 30
            nth = lambda i: "o0" + "".join("ab"[(i >> j) & 1] for j in reversed(range(30)))  # noqa: E731
        return k, text, wilds, nth

    def lazy(self, rng, index):
        have = 40
        if rng.random() < 0.6:
            k, text, wilds, nth, have = self.composed(rng)
        else:
            k, text, wilds, nth = self.huge(rng)
        self.context = text[:300]
        ctxm = manager(wilds)

        def run(n, how):
            if how == "generator":
                return self.Comb(ctxm).generate(text, n)
            from dynamicprompts.enums import SamplingMethod
            from dynamicprompts.sampling_context import SamplingContext
            ctx = SamplingContext(default_sampling_method=SamplingMethod.COMBINATORIAL, wildcard_manager=ctxm)
            it = iter(ctx.sample_prompts(text))
            return [str(p) for p in itertools.islice(it, n)]
        how = rng.choice(["generator", "context"])
        used = {}
        for n in (1, 1, 40):  # the first time with caches and imports
            # generous: a few thousand steps per prompt and for the template; an enumeration of all the
            # combinations would take many orders of magnitude more
            budget = 4 * (400_000 + 40_000 * n + 1500 * len(text))
            with Steps(budget) as s:
                try:
                    got = core.call(run, n, how)
                except Steps.Exceeded:
                    raise core.Violation("work is not in proportion to the limit", {
                        "template": core.show(text), "limit": str(n), "steps": f"more than {budget}"}) from None
            used[n] = s.n
            self.expect_eq(got, [nth(i) for i in range(min(n, have))], "not the first prompts of the enumeration",
                           template=text, limit=n)
        self.rec.count("huge")
        self.rec.count("lazy")
        self.rec.count("steps", sum(used.values()))
        self.rec.distinct(k, len(text), how)
        self.rec.sample({"template": text[:80], "steps for 1 and 40 prompts": list(used.values())})

    def memory(self, rng, index):
        """Held memory does not grow with the number of combinations ahead, nor hoard the ones produced."""
        k, text, wilds, nth = self.huge(rng)
        self.context = text[:300]
        wm = manager(wilds)
        core.call(lambda: self.Comb(wm).generate(text, 2))
        tracemalloc.start()
        try:
            got = core.call(lambda: self.Comb(wm).generate(text, 300))
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        self.expect(not isinstance(got, core.Err) and len(got) == 300, "wrong number of prompts", got=got, template=text)
        limit = 30_000_000 + 3000 * len(text)
        self.expect(peak < limit, "memory is not in proportion to the limit", peak=peak, allowed=limit, template=text)
        self.rec.count("memory")
        self.rec.count("peak_kb", peak // 1024)

    def directed(self):
        def default(rng):
            text = "{a|b|c|d|e|f|g|h|i|j}" * 4
            want = ["".join(t) for t in __import__("itertools").product("abcdefghij", repeat=4)]
            got = core.call(lambda: self.Comb().generate(text))
            self.expect_eq(got, want[:1000], "default limit is not the first 1000", template=text)
            got = core.call(lambda: self.Comb().generate(text, None))
            self.expect_eq(got, want, "no limit does not give all", template=text)
            got = core.call(lambda: self.Comb().generate(text, max_prompts=1500))
            self.expect_eq(got, want[:1500], "limit 1500", template=text)
            self.rec.count("default_limit")
            got = core.call(lambda: self.Comb().generate("{a|b}" * 9))
            self.expect_eq(len(got), 512, "default limit on fewer prompts", template="{a|b}*9")

        def wildvalues(rng):
            wm = manager({"w": [("v%04d" % i, None) for i in range(1300)]})
            got = core.call(lambda: self.Comb(wm).generate("__w__"))
            self.expect_eq(got, ["v%04d" % i for i in range(1000)], "default limit", template="__w__")
            got = core.call(lambda: self.Comb(wm).generate("__w__", None))
            self.expect_eq(len(got), 1300, "no limit", template="__w__")
        return [default, wildvalues]

    def case(self, rng, index):
        k = rng.random()
        if k < 0.72:
            self.prefix(rng, index)
        elif k < 0.97:
            self.lazy(rng, index)
        else:
            self.memory(rng, index)
