"""Choosing several options: count, distinctness, separator, and every allowed selection occurring."""
import itertools
import re
import random

from .. import core
from ..sem import Hostile, Work
from ..tpl import Acc, Lit, Opt, Seq, Var, Wild


class Monitor(core.Check):
    id = "C07"
    technique = "selection monitor: every prompt is decoded into the options chosen and checked against the bounds"
    rule = ("a case is a bounded variant (literal options, nested variants, equal options or a wildcard) under one sampling "
            "method; prompts are decoded into selections; distinct by template and method")
    quick = 8000
    thorough = 150000
    required = ("random", "combinatorial", "cyclical", "wildcard", "nested", "reversed", "beyond", "zero", "open_lower",
                "open_upper", "all_seen", "symbol", "hostile", "in_sequence", "equal_options",
                "wide_mixed", "wide_params", "wide_weighted", "wide_weighted_wildcard", "wide_all_seen", "edges")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        self.Rand, self.Comb = RandomPromptGenerator, CombinatorialPromptGenerator

    @staticmethod
    def bounds(form, lo, hi, n):
        """Written from the property: effective bounds."""
        if form == "exact":
            a = b = lo
        elif form == "lower":
            a, b = lo, n
        elif form == "upper":
            a, b = 1, hi
        else:
            a, b = lo, hi
        a, b = min(a, b), max(a, b)
        return min(a, n), min(b, n)

    def directed(self):
        def edges(rng):
            # options that are empty or hold the separator: one separator between each two, none left over at either end
            from ..model import join
            for sep in (", ", ",", " and ", "-", " "):
                for opts in (["", "a"], [sep + "a", ""], ["a" + sep, ""], ["a", sep + "b"], ["a" + sep, "b"], [sep + "a" + sep, "b"],
                             ["a", "", "b"], ["x" + sep + "y", "z"], [sep + "a", "", "b"], ["", "a" + sep, "b"]):
                    if any(o[:1] == " " for o in opts) or any(o[-1:] == " " and o.strip() == "" for o in opts):
                        continue
                    n = len(opts)
                    for k in (2, n):
                        t = "[{%d$$%s$$%s}]" % (k, sep, "|".join(opts))
                        want = list(dict.fromkeys(join(p, sep) for p in itertools.permutations(opts, k)))
                        sols = [join(p, sep) for p in itertools.permutations(opts, k)]
                        for method, num in (("combinatorial", 1), ("random", 6), ("cycle", len(sols))):
                            ctx = Work(Seq([])).context(method, rand=random.Random(5))
                            got = core.call(lambda: [str(p) for p in ctx.sample_prompts(t, num)])
                            self.expect(not isinstance(got, core.Err) and 1 <= len(got) <= num and all(g[1:-1] in want for g in got), "not a selection "
                                        "joined by the separator", template=t, method=method, got=got, allowed=want)
                            if method == "cycle":
                                self.expect_eq([g[1:-1] for g in got], sols, "a turn of the cycle is not every selection in order", template=t)
            # the same with many options, as seen in the order chosen
            for n in (4, 5, 6, 7, 9, 12, 40):
                for sep in (", ", ",", " and ", "-"):
                    for form in ("o%d" + sep, sep + " o%d", sep + " o%d" + sep, sep + " o%d" + sep * 2, "o%d"):
                        opts = [form % (i + 10) for i in range(n)]
                        if form[0] == " ":
                            continue  # the blank belongs to the syntax
                        t = "[{%d$$%s$$%s}]" % (n, sep, "|".join(opts))
                        for method in ("combinatorial", "random", "cycle"):
                            ctx = Work(Seq([])).context(method, rand=random.Random(n))
                            got = core.call(lambda: [str(p) for p in ctx.sample_prompts(t, 3)])
                            self.expect(not isinstance(got, core.Err) and len(got) == 3, "generation failed", template=t, got=got)
                            for p in got:
                                order = [int(x) - 10 for x in re.findall(r"o(\d+)", p)]
                                self.expect(sorted(order) == list(range(n)) and p == "[" + join([opts[i] for i in order], sep) + "]",
                                            "not all options joined by the separator", template=t, method=method, prompt=repr(p))
            self.rec.count("edges")
        return [edges]

    def wide(self, rng, index):
        """Many options, also mixed with wildcards and with parameters; decoded by splitting."""
        n = rng.choice([5, 8, 12, 30])
        form = rng.choice(["exact", "range", "lower", "upper"])
        lo, hi = rng.randint(0, n + 3), rng.randint(0, n + 3)
        sep = rng.choice([None, " and ", "; ", "|"])
        s = "," if sep is None else sep
        names = ["t%02d" % i for i in range(n)]
        kind = rng.choice(["plain", "weighted", "wildcard", "weighted_wildcard", "mixed", "params"])
        wilds, owner = {}, {t: t for t in names}
        options = [Opt(Seq([Lit(t)])) for t in names]
        if kind == "weighted":
            for o in options:
                o.weight = rng.choice([None, "2", "0.5", "30"])
        elif kind in ("wildcard", "weighted_wildcard", "params"):
            vals = [(Seq([Lit(t)]), rng.choice([None, 2.0, 0.5]) if kind == "weighted_wildcard" else None)
                    for t in names]
            if kind == "params":
                vals = [(Seq([Lit(t), Acc("p", Seq([Lit("!")]))]), None) for t in names]
                owner = {t + "v": t for t in names}
            wilds = {"w": vals}
            options = [Opt(Seq([Wild(["w"], params=[("p", Seq([Lit("v")]))] if kind == "params" else [])]))]
        elif kind == "mixed":
            # one of the options is a wildcard: it counts as one option, whatever it shows
            wilds = {"w": [(Seq([Lit("x%d" % i)]), None) for i in range(4)]}
            options[rng.randrange(n)] = Opt(Seq([Wild(["w"])]))
            owner.update({"x%d" % i: "w" for i in range(4)})
        v = Var(options, (form, lo, hi), sep)
        a, b = self.bounds(form, lo, hi, n)
        work = Work(Seq([Lit("["), v, Lit("]")]), wilds)
        method = rng.choice(["random", "random", "cycle", "combinatorial"])
        num = 8
        info = dict(method=method, **work.describe())
        self.context = info
        got = core.call(lambda: [str(p) for p in work.context(method, rand=Hostile(index))
                                 .sample_prompts(work.text, num)])
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **info})
        for p in got:
            parts = p[1:-1].split(s) if p[1:-1] else []
            labels = [owner.get(t) for t in parts]
            self.expect(p[0] == "[" and p[-1] == "]" and None not in labels and a <= len(parts) <= b
                        and len(set(labels)) == len(labels),
                        f"not a selection of {a} to {b} distinct options joined by {s!r}", prompt=repr(p), **info)
        if method == "random" and kind != "weighted" and kind != "weighted_wildcard" and b > 0 and rng.random() < 0.15:
            # every number of options allowed occurs, and every option at both ends
            more = core.call(lambda: [str(p) for p in work.context(method, rand=random.Random(index))
                                      .sample_prompts(work.text, 60 * n)])
            if isinstance(more, core.Err):
                raise core.Violation("generation failed", {"got": repr(more), **info})
            more = [[owner.get(t) for t in p[1:-1].split(s)] if p[1:-1] else [] for p in more]
            if b > a or b > 0:
                self.expect_eq({len(x) for x in more}, set(range(a, b + 1)), "a number of options never occurs", **info)
            for place in (0, -1):
                self.expect_eq({x[place] for x in more if x}, set(owner.values()) if kind != "mixed" else
                               {x[place] for x in more if x} | {t for t in names if Lit(t) in [o.node.items[0] for o in options]} | {"w"},
                               "an option never occurs " + ("first", "last")[place], **info)
            self.rec.count("wide_all_seen")
        self.rec.count("wide")
        self.rec.count("wide_" + kind)
        self.rec.distinct("wide", work.key(), method)

    def case(self, rng, index):
        if rng.random() < 0.25:
            return self.wide(rng, index)
        n = rng.choice([1, 1, 2, 2, 3, 3, 4])
        form = rng.choice(["exact", "range", "lower", "upper"])
        lo, hi = rng.randint(0, n + 2), rng.randint(0, n + 2)
        sep = rng.choice([None, None, " and ", "; ", "|", " ", "~~", "0", "-", " x ", "$5"[:0] or "/"])
        s = "," if sep is None else sep
        kind = rng.choice(["plain", "plain", "nested", "wildcard", "wildcard", "weighted", "equal"])
        # option k shows one of texts[k]; all texts are different and free of separators
        base = ["A", "B", "C", "D"][:n]
        if rng.random() < 0.2:
            base = ["(q)", "[w]", "É", "日本"][:n]
        texts = [[b] for b in base]
        wilds = {}
        if kind == "nested":
            texts = [[b, b.lower() * 2 if b.isascii() else b + "'"] if rng.random() < 0.6 else [b] for b in base]
            self.rec.count("nested")

        def node(k):
            if len(texts[k]) == 1:
                return Seq([Lit(texts[k][0])])
            return Seq([Var([Opt(Seq([Lit(t)])) for t in texts[k]])])
        options = [Opt(node(k)) for k in range(n)]
        if kind == "weighted":
            for o in options:
                o.weight = rng.choice([None, "2", "0.5", "3"])
        labels = list(range(n))
        if kind == "equal":
            # the same text several times: options stay distinct choices
            texts = [[base[0]] for _ in range(n)]
            options = [Opt(node(k)) for k in range(n)]
            self.rec.count("equal_options")
        if kind == "wildcard":
            wilds = {"w": [(o.node, None) for o in options]}
            options = [Opt(Seq([Wild(["w"])]))]
            self.rec.count("wildcard")
        v = Var(options, (form, lo, hi), sep)
        a, b = self.bounds(form, lo, hi, n)
        seqd = rng.random() < 0.4
        tree = Seq([Lit("<"), v, Lit(">")] if seqd else [v])
        if seqd:
            self.rec.count("in_sequence")
        symbol = None
        method = rng.choice(["random", "random", "combinatorial", "cycle"])
        ctxm = method
        if rng.random() < 0.25:
            symbol = {"random": "~", "combinatorial": "!", "cycle": "@"}[method]
            v.method = symbol
            ctxm = {"random": rng.choice(["random", "cycle"]), "combinatorial": "combinatorial",
                    "cycle": rng.choice(["random", "cycle"])}[method]
            self.rec.count("symbol")
        work = Work(tree, wilds)
        self.context = (work.describe(), ctxm)
        sols = [idx for k in range(a, b + 1) for idx in itertools.permutations(range(n), k)]
        want = {}
        for idx in sols:
            for combo in itertools.product(*[texts[i] for i in idx]):
                want.setdefault(s.join(combo), idx)
        num = 12
        every = len(want)
        full = rng.random() < 0.35 and len(sols) <= 20 and kind != "weighted"
        if method == "random":
            num = 8 if not full else 60 + 60 * len(want)
        elif method == "cycle":
            num = 2 * len(sols) + 1 if len(sols) < 40 else 50
        else:
            num = None
        if ctxm == "random" and rng.random() < 0.5 and not full:
            rand = Hostile(index)
            self.rec.count("hostile")
        else:
            rand = random.Random(index * 31 + self.seed)
        how = rng.random()
        if ctxm == "random" and how < 0.3:
            got = core.call(lambda: self.Rand(work.manager(), seed=index).generate(work.text, num))
        elif ctxm == "combinatorial" and how < 0.5:
            got = core.call(lambda: self.Comb(work.manager()).generate(work.text, None))
        else:
            got = core.call(lambda: [str(p) for p in work.context(ctxm, rand=rand).sample_prompts(work.text, num)])
        info = dict(method=ctxm, **work.describe())
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **info})
        seen = []
        for p in got:
            if seqd:
                self.expect(p.startswith("<") and p.endswith(">"), "text around the variant changed", prompt=p, **info)
                p = p[1:-1]
            self.expect(p in want, f"not a selection of {a} to {b} distinct options joined by {s!r}", prompt=repr(p),
                        allowed=sorted(want)[:30], **info)
            seen.append(p)
        if num is not None:
            self.expect_eq(len(seen), num, "wrong number of prompts", **info)
        if kind != "equal":
            if method == "combinatorial":
                self.expect_eq(sorted(seen), sorted(want), "not every selection exactly once", **info)
                self.expect_eq([len(want[p]) for p in seen], sorted(len(want[p]) for p in seen),
                               "bounds not taken from low to high", **info)
                self.rec.count("all_seen")
            if method == "cycle" and num >= len(sols) and num > 2 * len(sols):
                counts = [want[p] for p in seen[: len(sols)]]
                self.expect_eq(counts, sols, "a turn of the cycle is not every selection in order", **info)
                self.expect_eq([want[p] for p in seen[len(sols):2 * len(sols)]], sols,
                               "the second turn of the cycle differs", **info)
                self.rec.count("all_seen")
            if method == "random" and full:
                missing = set(want) - set(seen)
                # each has probability at least 1/(counts * selections * texts): misses mean it is unreachable
                if missing:
                    more = core.call(lambda: [str(p) for p in work.context(
                        ctxm, rand=random.Random(index + 7)).sample_prompts(work.text, 40 * num)])
                    more = {p[1:-1] if seqd else p for p in more} if not isinstance(more, core.Err) else set()
                    missing -= more
                self.expect(not missing, "selection never occurs", missing=sorted(missing), seen=sorted(set(seen)),
                            **info)
                self.rec.count("all_seen")
        else:
            # equal options: as many as the bounds allow
            sizes = {0 if not p else p.count(s) + 1 for p in seen}
            if method == "cycle" and num > len(sols):
                self.expect_eq(sizes, set(range(a, b + 1)), "numbers of options chosen", **info)
        self.rec.count({"cycle": "cyclical"}.get(method, method))
        if form == "range" and lo > hi:
            self.rec.count("reversed")
        if max(lo if form != "upper" else 0, hi if form in ("range", "upper") else 0) > n:
            self.rec.count("beyond")
        if a == 0:
            self.rec.count("zero")
        if form == "upper":
            self.rec.count("open_lower")
        if form == "lower":
            self.rec.count("open_upper")
        self.rec.distinct(work.key(), ctxm)
        self.rec.sample({"template": work.text, "method": ctxm, "prompts": seen[:4]})
