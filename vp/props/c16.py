"""Wraps: the content exactly at the first marker, for every wrapper and wrapped prompt."""
import itertools
import random

from .. import core
from ..model import TooBig, Undefined, wrap_text
from ..sem import Hostile, Work, build_sized
from ..tpl import CUSTOM_CFGS, DEFAULT, Acc, Asg, Gen, Lit, Opt, Seq, Var, Wild, Wrap, walk

MARK = ["...", "....", "......", "…", "……", "\u1801", "\u22ee", "\u22ef", "\u22f0", "\u22f1", "\ufe19", "…⋯", "⋮⋮⋮", "……\ufe19"]
NEAR = ["..", ".", "∙", "·", "‥", ". . .", "\u2024", "\u0eaf", "\u205d", "\u22f2", "\ufe18"]


class Monitor(core.Check):
    id = "C16"
    technique = "reference-model monitor of wrapped prompts, over every marker form and position"
    rule = ("a case is one or more wraps with generated wrapper and wrapped prompts under random or combinatorial sampling; "
            "distinct by workload and method; non-trivial: the wrapper has text besides the marker")
    quick = 8000
    thorough = 110000
    required = ("random", "combinatorial", "no_marker", "several_markers", "marker_at_start", "marker_at_end", "near_marker",
                "marker_inside_content", "nested_wraps", "variant_wrapper", "variant_inner", "wildcard_parts", "empty_part",
                "variable_parts", "marker_from_value", "independent", "custom_syntax", "inside_variant", "long_wrapper", "cyclical_parts", "wrapped_already")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        self.Comb, self.Rand = CombinatorialPromptGenerator, RandomPromptGenerator

    def text(self, rng, cfg, markers):
        """Wrapper text with the given number of markers somewhere."""
        words = ["a", "by", "Klimt", "é", "日本", "x 1", "(b)", "c, d", "e;", "'q'", "a\\b", "\\\\srv", "\\n\\\\\\", "(k:1.2)", "<l:m>", "A & B", "50%", "%s", "\\1", "\\g<0>"]
        g = Gen(rng, cfg)
        for _ in range(60):
            parts = []
            for i in range(rng.choice([0, 1, 2, 3])):
                parts.append(rng.choice(words))
                if rng.random() < 0.3:
                    parts.append(" ")
            if rng.random() < 0.25:
                parts.insert(rng.randint(0, len(parts)), rng.choice(NEAR))
                self.rec.count("near_marker")
            for _ in range(markers):
                parts.insert(rng.randint(0, len(parts)), rng.choice(MARK))
            if rng.random() < 0.01:
                parts.insert(0, rng.choice(["long word, ", "日本 "]) * rng.choice([100, 700, 3000]))
                self.rec.count("long_wrapper")
            t = "".join(parts)
            if not t or (g.ok_literal(t, "val") and g.ok_first(t, "val")):
                return t
        return "..." if markers else "z"

    def part(self, rng, cfg, names, markers, d, env, wrapper):
        k = rng.random()
        t = self.text(rng, cfg, markers)
        base = Seq([Lit(t)] if t else [])
        if k < 0.4 or d <= 0:
            if not t:
                self.rec.count("empty_part")
            return base
        if k < 0.65:
            self.rec.count("variant_wrapper" if wrapper else "variant_inner")
            v = Var([Opt(self.part(rng, cfg, names, rng.choice([0, 1, 1]), d - 1, env, wrapper))
                     for _ in range(rng.choice([1, 2, 3]))])
            for o in v.options:
                if o.node.items and isinstance(o.node.items[0], Lit):
                    o.node.items[0].text = o.node.items[0].text.lstrip() or "q"
            return Gen.merge(Seq([v] + (base.items if rng.random() < 0.4 else [])))
        if k < 0.78:
            self.rec.count("wildcard_parts")
            return Gen.merge(Seq(base.items + [Wild([rng.choice(names)])]))
        if k < 0.88:
            self.rec.count("variable_parts")
            return Gen.merge(Seq([Acc(rng.choice(["m", "e"]))] + base.items))
        self.rec.count("nested_wraps")
        return Seq([Wrap(self.part(rng, cfg, names, 1, d - 1, env, True), self.part(rng, cfg, names, 0, d - 1, env, False))])

    def make(self, rng, cfg):
        env = {"m": Seq([Lit("m" + rng.choice(MARK) + "n")]) if rng.random() < 0.6 else Seq([Lit("mm")]),
               "e": Seq([Lit(rng.choice(["ee", "ee", " ee", "  e ", "ee ", " ", "\n"]))])}
        if "…" in env["m"].items[0].text or "..." in env["m"].items[0].text:
            self.rec.count("marker_from_value")
        wilds = {"w0": [(Seq([Lit(self.text(rng, cfg, rng.choice([0, 1])) or "k")]), None) for _ in range(rng.choice([1, 2, 3]))],
                 "w1": [(Seq([Lit("v%d" % i)]), None) for i in range(2)]}
        for v in wilds.values():
            for s, _ in v:
                s.items[0].text = s.items[0].text.strip() or "k"
                if rng.random() < 0.2:
                    s.items[0].text = rng.choice(["", " ", "  "]) + s.items[0].text + rng.choice(["", " "])
        items = []
        for _ in range(rng.choice([1, 1, 2])):
            m = rng.choice([0, 1, 1, 1, 1, 2, 3])
            w = Wrap(self.part(rng, cfg, ["w0", "w1"], m, rng.choice([0, 1, 2]), env, True),
                     self.part(rng, cfg, ["w0", "w1"], rng.choice([0, 0, 1]), rng.choice([0, 1, 2]), env, False))
            if rng.random() < 0.15:
                items.append(Var([Opt(Seq([w])), Opt(Seq([Lit("other")]))]))
                self.rec.count("inside_variant")
            else:
                items.append(w)
            if rng.random() < 0.5:
                items.append(Lit(rng.choice([" and ", "; ", "x"])))
        return Work(Gen.merge(Seq(items)), wilds, env, cfg)

    def case(self, rng, index):
        if rng.random() < 0.06:
            return self.independent(rng, index)
        cfg = rng.choice(CUSTOM_CFGS) if rng.random() < 0.1 else DEFAULT
        method = rng.choice(["random", "combinatorial"])
        for _ in range(40):
            work = self.make(rng, cfg)
            model = work.model(cap=600)
            try:
                want = model.lang(work.tree, work.env) if method == "random" else model.comb(work.tree, work.env)
            except TooBig:
                continue
            break
        else:
            raise core.Skip()
        info = dict(method=method, **work.describe())
        self.context = info
        n = rng.choice([1, 4, 8]) if method == "random" else None
        rand = Hostile(index) if rng.random() < 0.5 else random.Random(index)
        got = core.call(lambda: [str(p) for p in work.context(method, rand=rand).sample_prompts(work.text, n)])
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **info})
        if method == "random":
            self.expect_eq(len(got), n, "wrong number of prompts", **info)
            for p in got:
                self.expect(p in want, "not the wrapper with the content at its marker", prompt=repr(p),
                            allowed=sorted(want)[:20], **info)
        else:
            self.expect_eq(got, want, "not every wrapper with every content, in order", **info)
        self.rec.count(method)
        for w in walk(work.tree):
            if isinstance(w, Wrap) and all(isinstance(i, Lit) for i in w.wrapper.items):
                t = "".join(i.text for i in w.wrapper.items)
                from ..model import MARKER_RE
                ms = list(MARKER_RE.finditer(t))
                if not ms:
                    self.rec.count("no_marker")
                else:
                    if len(ms) > 1:
                        self.rec.count("several_markers")
                    if ms[0].start() == 0:
                        self.rec.count("marker_at_start")
                    if ms[0].end() == len(t):
                        self.rec.count("marker_at_end")
                if all(isinstance(i, Lit) for i in w.inner.items) and \
                        MARKER_RE.search("".join(i.text for i in w.inner.items)):
                    self.rec.count("marker_inside_content")
        if cfg is not DEFAULT:
            self.rec.count("custom_syntax")
        self.rec.distinct(work.key(), method)
        self.rec.sample({**info, "prompts": got[:3]})

    def independent(self, rng, index):
        """Random sampling draws both parts anew for each prompt, independently."""
        if rng.random() < 0.25:
            # content that looks as if it were wrapped already
            a, b = rng.choice(["*", "**", "_", "(", "<i>", "é", "a ", " "]), rng.choice(["*", ")", "</i>", "é", " b", " "])
            if rng.random() < 0.5:
                b = a
            mid = rng.choice(["x", "cat", "é", "c d"])
            head = rng.choice(["", "", "h"])
            inner = rng.choice(["", a]) + mid + rng.choice(["", b, b])
            for t, want in ((head + "%{" + a + "..." + b + "$$" + inner + "}", head + a + inner + b),
                            (head + "%{" + a + "..." + b + "$$%{" + a + "..." + b + "$$" + inner + "}}", head + a + a + inner + b + b),
                            (head + "%{..." + b + "$$" + inner + "}", head + inner + b), (head + "%{" + a + "...$$" + inner + "}", head + a + inner)):
                if "$$ " in t or "{ " in t or " }" in t:
                    continue
                self.context = t
                for got in (core.call(lambda: self.Rand(seed=index).generate(t, 2)), core.call(lambda: self.Comb().generate(t, None) * 2)):
                    self.expect_eq(got, [want] * 2, "not the wrapper with the content at its marker", template=t)
            self.rec.count("wrapped_already")
            return
        if rng.random() < 0.3:
            # cyclical parts take their turns independently of one another
            a, b, c = rng.sample(["p", "q ", "r2", "st"], 3)
            wr = "{@%s...|%s...}" % (a, b)
            inner = rng.choice([wr, "{@%s...|%s...}" % (b, a), "{@%s|%s}" % (a, c)])
            t = "%%{%s$$%s}" % (wr, inner)
            ins = inner[2:-1].split("|")
            t = rng.choice(["", "x "]) + t
            self.context = t
            want = [("x " if t[0] == "x" else "") + [a, b][i % 2] + ins[i % 2] for i in range(6)]
            got = core.call(lambda: self.Rand(seed=index).generate(t, 6))
            self.expect_eq(got, want, "cyclical parts out of turn", template=t)
            self.rec.count("cyclical_parts")
            return
        t = "%{{a|b} ... $${c|d}}" if rng.random() < 0.5 else "x %{{a|b} ... $${c|d}}"
        self.context = t
        want = {f"{'x ' if t[0] == 'x' else ''}{a} {c} " for a in "ab" for c in "cd"}
        got = core.call(lambda: self.Rand(seed=index).generate(t, 150))
        self.expect(not isinstance(got, core.Err) and set(got) == want, "the parts are not drawn for each prompt", template=t,
                    got=got if isinstance(got, core.Err) else sorted(set(got)))
        self.rec.count("independent")
