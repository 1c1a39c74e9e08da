"""Comments and whitespace policy."""
import random

from .. import core
from ..model import TooBig
from ..sem import BASE, build
from ..tpl import CUSTOM_CFGS, DEFAULT, Gen, ONE_OFF_CFGS, Lit, Opt, Render, Seq, Var

SPACES = [" ", "  ", "\t", "\n", "\r\n", " \t ", "\u00a0", "\u3000", "\n\n  ", "\x0b", "\u2003"]


def squash(s):
    return " ".join(s.split())


class Monitor(core.Check):
    id = "C04"
    technique = "output monitors for comment text and whitespace, paired runs with the option on and off"
    rule = ("a case builds a template with comments or varied whitespace and checks every generated prompt; "
            "distinct by template and option")
    quick = 4000
    thorough = 80000
    required = ("comments", "comment_in_variant", "between_elements", "comment_in_wildcard", "verbatim", "squashed_random",
                "squashed_combinatorial", "crlf", "squashed_custom_tokens", "value_whitespace")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        self.Comb, self.Rand = CombinatorialPromptGenerator, RandomPromptGenerator

    def comment(self, rng):
        return "#" + rng.choice(["", " ", " secret", "secret {a|b}", " secret __w__ ${x} %{", "secret | }",
                                 "# secret", " secret // x", "secret $$ 1::", "\tsecret é",
                                 " a\u2028secret", "a\x85secret", " \x0bsecret\x0c x", "b\u2029 secret", " it's \"secret\"", " secret \\"]) + "\n"

    def comments(self, rng, index):
        """Words and variants on lines, with comments at line ends; comments are never output."""
        lines, alts = [], []
        nested = False
        for k in range(rng.randint(1, 5)):
            kind = rng.random()
            if kind < 0.5:
                w = f"w{k} x"
                lines.append(w)
                alts.append({w})
            elif kind < 0.8:
                opts = [f"o{k}{j}" for j in range(rng.randint(2, 3))]
                if rng.random() < 0.5:
                    # the variant spans lines, with comments inside
                    nested = True
                    parts = []
                    for o in opts:
                        parts.append("\n " + o + " " + (self.comment(rng) if rng.random() < 0.6 else "\n"))
                    lines.append("{" + "|".join(parts) + "}")
                else:
                    lines.append("{" + "|".join(opts) + "}")
                alts.append(set(opts))
            else:
                lines.append("__w__")
                alts.append({"val", "vul"})
        text, ncom = "", 0
        for ln in lines:
            if rng.random() < 0.5:
                text += ln + " " + self.comment(rng)
                ncom += 1
            else:
                text += ln + "\n"
        if rng.random() < 0.3:
            text += "# secret at the end"
            ncom += 1
        if rng.random() < 0.3:
            text = "# secret first\n" + text
            ncom += 1
        if not ncom and not nested:
            return
        self.context = text
        from ..sem import manager
        values = [("val", None), ("vul", None)]
        if rng.random() < 0.3:
            values = [("val # secret value\n", None), ("vul", None)]
            if "__w__" in text:
                self.rec.count("comment_in_wildcard")
        wm = manager({"w": values})
        import itertools
        want = {squash(" ".join(t)) for t in itertools.product(*[sorted(a) for a in alts])}
        for name, fn in (("random", lambda: self.Rand(wm, seed=index).generate(text, 5)),
                         ("combinatorial", lambda: self.Comb(wm).generate(text, None))):
            got = core.call(fn)
            if isinstance(got, core.Err):
                raise core.Violation("commented template rejected", {"template": text, "got": repr(got)})
            for p in got:
                self.expect("secret" not in p and "#" not in p, "comment text in a prompt", template=text,
                            prompt=p, sampler=name)
                self.expect(squash(p) in want, "text around a comment lost or changed", template=text,
                            prompt=p, sampler=name, expected=sorted(want)[:20])
            if name == "combinatorial":
                self.expect_eq({squash(p) for p in got}, want, "prompts missing in a commented template",
                               template=text)
        self.rec.count("comments")
        if nested:
            self.rec.count("comment_in_variant")
        self.rec.distinct("c", text)
        self.rec.sample(text)

    def blocks(self, rng, index):
        """Comments between elements, in all forms."""
        body = rng.choice(["secret", " secret ", "", " ", "*", "* secret *", "** secret **", " * / secret * /", " secret\n secret\n", "/", " // secret", "{secret|b}", " # secret ",
                           " secret ${x} __w__", "|", " secret }", "/* secret ", "**", " secret *", "-\u2028secret", "\r\nsecret"])
        c = "/*" + body + "*/"
        if "*/" in (body + "*") or rng.random() < 0.3:
            c = "//" + rng.choice([" secret", "secret {a|b}", "/ secret", " secret */", "", " a\u2028secret", " secret\x0b\x85"]) + "\n"
        a, b = rng.choice(["{a}", "{a|aa}", "__w__"]), rng.choice(["{b}", "__w__", "{b|bb}"])
        alts = {"{a}": ["a"], "{a|aa}": ["a", "aa"], "__w__": ["val", "vul"], "{b}": ["b"], "{b|bb}": ["b", "bb"]}
        text = a + c + b
        self.context = text
        from ..sem import manager
        wm = manager({"w": [("val", None), ("vul", None)]})
        want = [x + y for x in alts[a] for y in alts[b]]
        got = core.call(lambda: self.Comb(wm).generate(text, None))
        self.expect(not isinstance(got, core.Err) and ["".join(p.split()) for p in got] == want, "comment text in a prompt, or text around it lost",
                    template=text, got=got, expected=want)
        got = core.call(lambda: self.Rand(wm, seed=index).generate(text, 3))
        self.expect(not isinstance(got, core.Err) and {"".join(p.split()) for p in got} <= set(want), "comment text in a prompt, or text around it lost",
                    template=text, got=got, expected=want)
        self.rec.count("between_elements")
        self.rec.distinct("b", text)

    def whitespace(self, rng, index):
        def ws():
            return rng.choice(SPACES)

        def word():
            return rng.choice(["alpha", "b", "g h", "漢", "x, y"])
        # literal text is verbatim
        lit = "".join(rng.choice([ws(), word(), word(), ws()]) for _ in range(rng.randint(1, 8)))
        lit2 = "z" + "".join(rng.choice([ws(), word()]) for _ in range(rng.randint(1, 5)))
        tree = Seq([Lit(lit), Var([Opt(Seq([Lit(lit2)])), Opt(Seq([Lit("q" + ws())]))]),
                    Lit(ws() + word() + ws())])
        text = Render()(tree)
        self.context = text
        want = [lit + o + tree.items[2].text for o in (lit2, tree.items[1].options[1].node.items[0].text)]
        if want[0] == want[1]:
            want = want[:1]
        got = core.call(lambda: self.Comb().generate(text, None))
        self.expect_eq(got, want, "whitespace not preserved", template=repr(text))
        for seeds in (None, [1], [index, 5, 6]):
            got = core.call(lambda: self.Rand(seed=index).generate(text, 3, seeds=seeds))
            self.expect(not isinstance(got, core.Err) and set(got) <= set(want), "whitespace not preserved",
                        template=repr(text), got=got, seeds=seeds)
        self.rec.count("verbatim")
        if "\r\n" in text:
            self.rec.count("crlf")
        cfg = rng.choice([DEFAULT, DEFAULT, *CUSTOM_CFGS, *ONE_OFF_CFGS])
        g = Gen(rng, cfg)
        if cfg != DEFAULT:
            if not all(g.ok_literal(x, "opt") for x in (lit, lit2, tree.items[2].text)):
                cfg = DEFAULT
            else:
                text = Render(cfg)(tree)
                self.rec.count("squashed_custom_tokens")
        real = cfg.real()
        got = core.call(lambda: self.Comb(parser_config=real).generate(text, None))
        self.expect_eq(got, want, "whitespace not preserved", template=repr(text))
        got = core.call(lambda: self.Comb(ignore_whitespace=True, parser_config=real).generate(text, None))
        self.expect_eq(got, [squash(p) for p in want], "whitespace not squashed", template=repr(text))
        for seeds in (None, [1], [index, 5, 6]):
            got = core.call(lambda: self.Rand(seed=index, ignore_whitespace=True, parser_config=real).generate(text, 3, seeds=seeds))
            self.expect(not isinstance(got, core.Err) and len(got) == 3 and
                        set(got) <= {squash(p) for p in want},
                        "whitespace not squashed", template=repr(text), got=got, seeds=seeds)
        self.rec.distinct("w", text)

    def paired(self, rng, index):
        """Option on versus off, on generated templates with wildcards."""
        work = build(rng, (BASE | {"asg", "wrap"}) - {"weights"}, fancy=0.5, max_items=3)
        if work.env:
            return
        try:
            want = work.model(cap=300).comb(work.tree, {})
        except TooBig:
            raise core.Skip()
        self.context = work.text
        seeds = [index + i for i in range(4)]
        off = core.call(lambda: self.Rand(work.manager()).generate(work.text, 4, seeds=seeds))
        on = core.call(lambda: self.Rand(work.manager(), ignore_whitespace=True)
                       .generate(work.text, 4, seeds=seeds))
        con = core.call(lambda: self.Comb(work.manager(), ignore_whitespace=True).generate(work.text, None))
        coff = core.call(lambda: self.Comb(work.manager()).generate(work.text, None))
        self.expect_eq(coff, want, "combinatorial prompts changed", **work.describe())
        for r in (off, on, con):
            self.expect(not isinstance(r, core.Err), "generation failed", got=r, **work.describe())
        try:
            lang = work.model(cap=600).lang(work.tree, {})
        except TooBig:
            lang = None
        if lang is not None:
            self.expect(set(off) <= lang, "random prompts changed", got=off, allowed=sorted(lang)[:20], **work.describe())
        for p in list(on) + list(con):
            self.expect(p == squash(p), "whitespace not squashed", prompt=repr(p), **work.describe())
        self.expect_eq(on, [squash(p) for p in off], "ignoring whitespace changed the prompt", **work.describe())
        self.expect_eq(con, [squash(p) for p in coff], "ignoring whitespace changed the prompts", **work.describe())
        self.rec.count("squashed_random")
        self.rec.count("squashed_combinatorial")
        if any(t != squash(t) for v in work.wild_texts.values() for t, _ in v):
            self.rec.count("value_whitespace")
        self.rec.distinct("p", work.key())

    def case(self, rng, index):
        k = rng.random()
        if k < 0.4:
            self.comments(rng, index)
        elif k < 0.5:
            self.blocks(rng, index)
        elif k < 0.7:
            self.whitespace(rng, index)
        else:
            self.paired(rng, index)
