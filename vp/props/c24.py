"""Attention, batched and dummy generators around recorded inner generators."""
import random
import re
import string

from .. import core
from ..sem import manager

SEPS = set(",;:.?!()")


def chunks(prompt):
    """Runs between punctuation marks, without those of digits or punctuation only."""
    out, cur = [], ""
    for ch in prompt + ",":
        if ch in SEPS:
            c = cur.strip()
            if c and not c.isdigit() and not all(x in string.punctuation for x in c):
                out.append(c)
            cur = ""
        else:
            cur += ch
    return out


class Inner:
    """A generator that records how it is called and returns what it is told to."""

    def __init__(self, results):
        self.results = list(results)
        self.calls = []
        self.given = []

    def generate(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        r = self.results[(len(self.calls) - 1) % len(self.results)]
        self.given.append(r)
        return r


class Monitor(core.Check):
    id = "C24"
    technique = "online monitor of every emphasised prompt against its inner prompt; recorded inner generators"
    rule = ("a case is one call of a wrapping generator around a recorded or real inner generator; distinct by prompts, limits and "
            "batches; non-trivial: a prompt with at least one chunk, or several batches")
    quick = 12000
    thorough = 260000
    required = ("emphasised", "unchanged", "several_prompts", "repeated_chunk", "chunk_in_word", "reversed_limits", "equal_limits",
                "negative_limits", "batches", "zero_batches", "dummy", "arguments", "keyword_arguments", "real_inner", "every_chunk", "many_chunks",
                "weight_range", "no_inner", "nested_wrappers", "digits_only", "unicode", "existing_emphasis", "many_prompts", "inner_untouched")

    WORDS = ["a cat", "cat", "c", "big dog", "12", "3.5", "é", "日本 語", "---", "x-1", "by Klimt", "(red:1.2)", "at", "'q'", "\\1", "$x", "{b}",
             "[z]", "a", "_", "50%", "²", "*", "A CAT", "line\nbreak", "tab\tx"]
    SEPW = [", ", ",", "; ", ". ", "! ", "?", " (", ") ", ": ", "...", " , ", "\n", " ", ",,", " - ", "\u3001"]

    def setup(self):
        from dynamicprompts.generators import (BatchedCombinatorialPromptGenerator, CombinatorialPromptGenerator,
                                               DummyGenerator, RandomPromptGenerator)
        from dynamicprompts.generators.attentiongenerator import AttentionGenerator
        self.Attention, self.Batched, self.Dummy = AttentionGenerator, BatchedCombinatorialPromptGenerator, DummyGenerator
        self.Comb, self.Rand = CombinatorialPromptGenerator, RandomPromptGenerator

    def prompt(self, rng):
        if rng.random() < 0.05:
            return rng.choice(["", " ", ",", "12, 34", "...", "( )", "1", "!?", " ; 5 ; ", "²"])
        out = rng.choice(["", "", " ", "("])
        for _ in range(rng.choice([1, 2, 3, 5])):
            out += rng.choice(self.WORDS) + rng.choice(self.SEPW)
        return out if rng.random() < 0.5 else out.strip()

    def limits(self, rng):
        k = rng.random()
        if k < 0.2:
            return {}, (0.1, 0.9)
        a = rng.choice([0.1, 0.5, 1, 1.0, 1.5, 0, 2, 0.25, 0.333, 10])
        b = rng.choice([0.9, 1, 2.0, 0.1, 1.25, 0.05, 3, 0.007])
        if k < 0.3:
            a, b = -abs(b), a
            self.rec.count("negative_limits")
        if k < 0.4:
            b = a
            self.rec.count("equal_limits")
        if a > b:
            self.rec.count("reversed_limits")
        return {"min_attention": a, "max_attention": b}, (min(a, b), max(a, b))

    def emphasis(self, before, after, lo, hi):
        """The chunk and weight that turn `before` into `after`, or None."""
        for c in dict.fromkeys(chunks(before)):
            i = before.find(c)
            if after[:i] != before[:i]:
                continue
            m = re.match(re.escape("(" + c + ":") + r"(-?[0-9.]+(?:e-?\d+)?)\)", after[i:])
            if not m:
                continue
            if before.replace(c, m.group()) == after:
                try:
                    w = float(m.group(1))
                except ValueError:
                    continue
                if lo - 0.0050001 <= w <= hi + 0.0050001 and abs(w - round(w, 2)) < 1e-12:
                    return c, w
        return None

    def judge(self, before, after, lo, hi, info):
        self.expect_eq(len(after), len(before), "number of prompts", inner=before, result=after, **info)
        for b, a in zip(before, after):
            cs = chunks(b)
            if not cs:
                self.expect_eq(a, b, "a prompt without chunks is changed", **info)
                self.rec.count("unchanged")
                if any(c.isdigit() for c in b):
                    self.rec.count("digits_only")
                continue
            e = self.emphasis(b, a, lo, hi)
            self.expect(e is not None, "not the inner prompt with one chunk emphasised", inner=repr(b), result=repr(a), chunks=cs, **info)
            self.rec.count("emphasised")
            if b.count(e[0]) > 1:
                self.rec.count("repeated_chunk")
                if cs.count(e[0]) < b.count(e[0]):
                    self.rec.count("chunk_in_word")
            if ":1.2)" in b:
                self.rec.count("existing_emphasis")
            if any(ord(c) > 127 for c in b):
                self.rec.count("unicode")

    def case(self, rng, index):
        random.seed(index)
        k = rng.random()
        if k < 0.6:
            self.attention(rng, index)
        elif k < 0.75:
            self.batched(rng, index)
        elif k < 0.82:
            self.dummy(rng, index)
        elif k < 0.97:
            self.real(rng, index)
        else:
            self.variety(rng, index)

    def arguments(self, rng):
        """Arguments for generate(): positional and by keyword."""
        args = [rng.choice(["t", "{a|b}", "", "é"]), rng.choice([1, 3, 0])][: rng.choice([1, 2])]
        kw = {k: rng.choice([object(), None, 0, "", [], False, [1, None], 5])
              for k in rng.sample(["seeds", "extra", "max_attempts"], rng.choice([0, 0, 1, 2]))}
        if kw:
            self.rec.count("keyword_arguments")
        return tuple(args), kw

    def attention(self, rng, index):
        kw, (lo, hi) = self.limits(rng)
        ps = [self.prompt(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 15]))]
        if len(ps) > 1:
            self.rec.count("several_prompts")
        if len(ps) > 10:
            self.rec.count("many_prompts")
        given = list(ps)
        inner = Inner([given])
        info = dict(limits=kw)
        self.context = dict(prompts=ps, **info)
        g = self.Attention(inner, **kw)
        for _ in range(rng.choice([1, 1, 2])):
            args, akw = self.arguments(rng)
            before = len(inner.calls)
            got = core.call(lambda: list(g.generate(*args, **akw)))
            if isinstance(got, core.Err):
                raise core.Violation("generation failed", {"got": repr(got), "prompts": core.show(ps), **info})
            self.expect_eq(len(inner.calls), before + 1, "the inner generator is not called once", **info)
            self.expect_eq(inner.calls[-1], (args, akw), "arguments are not passed on unchanged", **info)
            self.rec.count("arguments")
            self.judge(ps, got, lo, hi, info)
            self.expect_eq(given, ps, "the inner generator's list is changed", **info)
            self.rec.count("inner_untouched")
        if any(chunks(p) for p in ps):
            self.rec.distinct(ps, sorted(kw.items()))
        self.rec.sample({"inner": ps[:2], "result": got[:2], **info})

    def directed(self):
        def many(rng):
            # missing one of 180 chunks in 40 * 180 draws: 180 * exp(-40) < 1e-15
            for k, sep in ((40, ", "), (90, ". "), (180, "; ")):
                p = sep.join("chunk %d" % i for i in range(k))
                got = core.call(lambda: list(self.Attention().generate(p, 40 * k)))
                self.expect(not isinstance(got, core.Err) and len(got) == 40 * k, "generation failed", prompt=p, got=repr(got)[:200])
                seen = set()
                for a in got:
                    m = re.search(r"\((chunk \d+):[0-9.]+\)", a)
                    self.expect(m is not None and a.replace(m[0], m[1]) == p, "not the inner prompt with one chunk emphasised", inner=p, result=a)
                    seen.add(m[1])
                self.expect_eq(len(seen), k, "a chunk is never emphasised", prompt=p)
            self.rec.count("many_chunks")
        return [many]

    def variety(self, rng, index):
        """Each chunk can be chosen, and weights spread over the limits."""
        words = rng.sample(["red cat", "dog", "oak tree", "é", "sky"], rng.choice([2, 3, 4]))
        p = ", ".join(words)
        lo, hi = rng.choice([(0.1, 0.9), (1.0, 2.0), (0.5, 1.5)])
        n = 260
        got = core.call(lambda: list(self.Attention(min_attention=hi, max_attention=lo).generate(p, n)))
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), "prompt": p})
        self.judge([p] * n, got, lo, hi, dict(prompt=p))
        es = [self.emphasis(p, a, lo, hi) for a in got]
        # missing one of four has probability 4 * 0.75^260 < 1e-31
        self.expect_eq({c for c, _ in es}, set(words), "a chunk is never emphasised", prompt=p)
        third = (hi - lo) / 3
        self.expect(any(w < lo + third for _, w in es) and any(w > hi - third for _, w in es), "weights do not spread over the limits",
                    prompt=p, limits=(lo, hi), weights=sorted({w for _, w in es}))
        self.rec.count("every_chunk")
        self.rec.count("weight_range")
        self.rec.count("no_inner")

    def batched(self, rng, index):
        n = rng.choice([0, 1, 1, 2, 3, 7])
        runs = [[f"run{r} p{i}" for i in range(rng.choice([0, 1, 2, 4]))] for r in range(max(1, n))]
        copy = [list(r) for r in runs]
        inner = Inner(runs)
        info = dict(batches=n, runs=copy)
        self.context = info
        t = rng.choice(["{a|b}", "x", ""])
        kw = {k: rng.choice([object(), None, 0, [], [3, 4]]) for k in rng.sample(["seeds", "other"], rng.choice([0, 1]))}
        m = rng.choice([None, 1, 5, 1000])
        g = self.Batched(inner, batches=n) if rng.random() < 0.7 or n != 1 else self.Batched(inner)
        got = core.call(lambda: list(g.generate(t, **kw) if m is None else g.generate(t, m, **kw) if rng.random() < .5 else
                                     g.generate(t, max_prompts=m, **kw)))
        self.expect_eq(got, [p for r in copy[:n] for p in r], "not the results of the runs one after the other", **info)
        self.expect_eq(len(inner.calls), n, "number of runs", **info)
        self.expect_eq(runs, copy, "the inner generator's lists are changed", **info)
        for args, akw in inner.calls:
            akw = dict(akw)
            full = list(args)
            if len(full) < 2 and "max_prompts" in akw:
                full.append(akw.pop("max_prompts"))
            self.expect(full[0] == t and akw == kw and (m is None or full[1] == m), "arguments are not passed on unchanged", call=(args, akw),
                        template=t, max_prompts=m, **info)
            self.rec.count("arguments")
        self.rec.count("batches" if n else "zero_batches")
        if n > 1:
            self.rec.distinct(copy, t, m)

    def dummy(self, rng, index):
        t = rng.choice([self.prompt(rng), "{a|b} __c__ ${x}", "", " # comment "])
        n = rng.choice([None, 0, 1, 2, 9])
        self.context = (t, n)
        got = core.call(lambda: self.Dummy().generate(t) if n is None else self.Dummy().generate(t, n))
        self.expect_eq(got, [t] * (1 if n is None else n), "not the template as often as asked", template=t, n=n)
        self.rec.count("dummy")

    def real(self, rng, index):
        wm = manager({"w": [(v, None) for v in ("red", "light, blue", "9")]})
        t = rng.choice(["{a cat|dog}, __w__", "x; {2$$big|old|9}", "{1|2}", "__w__ (y)", "{a|b}", "night sky"])
        kw, (lo, hi) = self.limits(rng)
        n = rng.choice([1, 2, 6])
        k = rng.randrange(4)
        b = rng.choice([1, 2, 3])
        self.context = (t, kw, n, k, b)
        if k == 0:
            mk = lambda: self.Rand(wm, seed=index)  # noqa: E731
            before = mk().generate(t, n)
        elif k == 1:
            mk = lambda: self.Comb(wm)  # noqa: E731
            before = list(mk().generate(t, n))
        elif k == 2:
            mk = lambda: self.Batched(self.Comb(wm), b)  # noqa: E731
            before = list(self.Comb(wm).generate(t, n)) * b
            self.expect_eq(core.call(lambda: mk().generate(t, n)), before, "batches of a combinatorial generator", template=t, batches=b, n=n)
            self.rec.count("nested_wrappers")
        else:
            # attention within batches
            g = self.Batched(self.Attention(self.Comb(wm), **kw), b)
            got = core.call(lambda: g.generate(t, n))
            before = list(self.Comb(wm).generate(t, n)) * b
            self.expect(not isinstance(got, core.Err), "generation failed", got=got, template=t)
            self.judge(before, got, lo, hi, dict(template=t, limits=kw))
            self.rec.count("nested_wrappers")
            self.rec.count("real_inner")
            return
        got = core.call(lambda: list(self.Attention(mk(), **kw).generate(t, n)))
        self.expect(not isinstance(got, core.Err), "generation failed", got=got, template=t)
        self.judge(before, got, lo, hi, dict(template=t, limits=kw))
        self.rec.count("real_inner")
        self.rec.distinct(t, k, n, b, sorted(kw.items()))
