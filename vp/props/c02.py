"""Parser totality and purity under mutated, random and hostile text, in long histories."""
import collections
import dataclasses

from .. import core, norm
from ..helper import Remote
from ..tpl import CUSTOM_CFGS, DEFAULT, ONE_OFF_CFGS, Gen, Render, FANCY, WORDS

TOKENS = ["{", "}", "|", "$$", "$", "%{", "${", "__", "#", "//", "/*", "*/", "::", ":", "=", "?=", "=!",
          "~", "@", "!", "(", ")", ",", "-", "0", "1", "2", "0.5", ".", "...", "…", " ", "\n", "\t", "_",
          "a", "bc", "x", "w0", "é", "漢", "😀", "\\", "%", "<", ">", "[", "]", "\x00", "\ud800", "\r",
          "1-2$$", "2$$", "-1$$", "3::", "{{", "}}", "${x=", "${x:", "__a(", "%{a$$"]


class Monitor(core.Check):
    id = "C02"
    technique = "exception/termination/purity monitor on the parser under mutated and random text, across histories and processes"
    rule = ("a case is a string: token soup, random unicode, or a valid template mutated by deletions, "
            "insertions, swaps, truncation; non-trivial: contains a syntax token; distinct by text")
    quick = 7000
    thorough = 150000
    required = ("accepted", "rejected", "reparsed", "reparsed_rejected", "mutant", "soup", "custom", "other_process", "siblings", "lengths")

    def setup(self):
        from dynamicprompts.commands import Command
        from dynamicprompts.parser.parse import parse
        import pyparsing as pp
        self.parse, self.Command = parse, Command
        self.allowed = (pp.ParseBaseException, ValueError)
        self.history, self.elsewhere = [], []

    def outcome(self, text, cfg):
        self.context = (text, cfg)
        r = core.call(self.parse, text, cfg.real())
        if isinstance(r, core.Err):
            if not isinstance(r.exc, self.allowed):
                raise core.Violation("parser raised an unexpected exception",
                                     {"text": repr(text), "config": repr(cfg), "got": repr(r)})
            return ("error",), None
        self.expect(isinstance(r, self.Command), "parser returned something else than a command",
                    text=repr(text), got=repr(r))
        return norm.of_command(r), r

    def mutate(self, rng, text):
        s = list(text)
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            k = rng.random()
            i = rng.randrange(len(s) + 1)
            if k < 0.3 and s:
                del s[min(i, len(s) - 1)]
            elif k < 0.6:
                s.insert(i, rng.choice(TOKENS))
            elif k < 0.7 and s:
                del s[i:]
            elif k < 0.8 and s:
                j = rng.randrange(len(s))
                i = min(i, len(s) - 1)
                s[i], s[j] = s[j], s[i]
            elif k < 0.9 and s:
                j = min(len(s), i + rng.randint(1, 8))
                s[i:i] = s[i:j]
            elif s:
                s[min(i, len(s) - 1)] = rng.choice(TOKENS)
        return "".join(s)

    def letters(self, x, out):
        if isinstance(x, str):
            out.update(c for c in x if c.isalpha())
        elif isinstance(x, tuple):
            if x and x[0] in ("lit", "seq", "var", "wild", "acc", "asg", "wrap") and len(x) > 1:
                if x[0] == "var":
                    self.letters(x[1], out)
                    self.letters(x[3], out)
                elif x[0] == "wild":
                    self.letters(x[1], out)
                    self.letters(x[3], out)
                else:
                    self.letters(x[1:], out)
            else:
                for y in x:
                    self.letters(y, out)

    def one(self, rng, text, cfg):
        res, cmd = self.outcome(text, cfg)
        self.rec.count("rejected" if cmd is None else "accepted")
        if cmd is not None and cfg == DEFAULT and "#" not in text and "//" not in text \
                and "/*" not in text:
            want = collections.Counter(c for c in text if c.isalpha())
            got = collections.Counter()
            self.letters(res, got)
            dup_params = "(" in text and text.count("=") > 1
            lost = {c: (n, got[c]) for c, n in want.items() if got[c] < n}
            self.rec.count("content_checked")
            if not dup_params:
                self.expect(not lost, "text silently ignored by the parser", text=repr(text),
                            parsed=repr(res), lost=repr(lost))
        again, cmd2 = self.outcome(text, cfg)
        self.expect_eq(again, res, "parsing the same text twice differs", text=repr(text))
        if cmd is not None:
            self.expect(cmd == cmd2, "equal texts give unequal commands", text=repr(text))
        if self.history:
            t, c, old = rng.choice(self.history)
            now, _ = self.outcome(t, c)
            self.rec.count("reparsed" if old != ("error",) else "reparsed_rejected")
            self.expect_eq(now, old, "result depends on the parsing history", text=repr(t),
                           config=repr(c), after=repr(text))
        self.history.append((text, cfg, res))
        if cmd is not None and cfg != DEFAULT or rng.random() < 0.2:
            self.elsewhere.append((text, cfg, res))
            if len(self.elsewhere) >= 60:
                self.other_order(rng)
        if len(self.history) > 400:
            self.history.pop(rng.randrange(400))
        if any(t in text for t in ("{", "__", "$", "%", "|", "#")):
            self.rec.distinct(text, repr(cfg))
            self.rec.sample(repr(text)[:200])

    def other_order(self, rng):
        """What was parsed here must parse to the same in another process, in another order."""
        items, self.elsewhere = self.elsewhere, []
        rng.shuffle(items)
        remote = Remote(rng.randrange(10**6))
        try:
            got = remote({"parse": [[t, dataclasses.asdict(c)] for t, c, _ in items]})
        finally:
            remote.close()
        for (t, c, want), g in zip(items, got):
            self.expect_eq(g, repr(want), "result depends on what was parsed before, or on the process", text=repr(t), config=repr(c))
            self.rec.count("other_process")

    def long_ones(self):
        for n in (1000, 20000):
            w = "long" * (n // 4)
            for s in [f"__{w}__ {{a|b}}", f"${{{w}=a}} b", f"${{{w}}} {{a|b}}", f"{{2$${'-' * n}$$a|b}}", f"{{{w}|b}}", f"{{{'9' * (n // 10)}$$a|b}}",
                      f"{{{'9' * (n // 50)}::a|b}}", f"__a({w}=b)__", f"__a(b={w})__", f"%{{{w}...$$b}}", f"{{a|b}} # {w}", f"{w} {{a|b}}", " " * n + "{a}",
                      "{a|b}" + "\n" * n, f"${{x:{w}}}", f"{w}$", f"${{{w}", f"__{w}", f"{{{w}", "a" + "|" * 200, "$" * n, "{a}" + "_" * n]:
                yield s

    def directed(self):
        out = []
        for s in ["", " ", "\n", "#", "# c", "{", "}", "{}", "{|}", "|", "__", "____", "_____", "__ __",
                  "$", "$$", "${", "${}", "${x", "${x}", "${x=", "${x=}", "${=a}", "${1=a}", "%", "%{",
                  "%{}", "%{$$}", "%{a$$}", "%{$$a}", "{2$$}", "{$$a}", "{2$$$$a|b}", "{1-$$}", "{-$$a}",
                  "{1-2-3$$a}", "{::a}", "{1::}", "{1::2::a}", "{~}", "{~~}", "{@!a}", "__~__",
                  "__@@a__", "__()__", "__a()__", "__a(x)__", "__a(=)__", "__a(x=)__", "__a(x=1", "__a(x=1)",
                  "__a(,)__", "__${x}__", "__${x:{a|b}}__", "__{a|b}__", "__{a|b__", "{a|b", "a|b}",
                  "{a {b {c", "}}}", "{99999999999999999999$$a|b}", "{0$$a}", "{1e5::a}", "{-1::a}",
                  "/* a", "/* a */ b", "// x", "a // b", "{/* c */a|b}", "\\{a\\}", "a" * 3000,
                  "{" + "a|" * 300 + "}", "__" * 51, "{a}" * 60, "$$" * 40, "%" * 50, "\ud800{a|b}",
                  "{\x00|\x01}", "\ufeff{a|b}", "{" * 12, "{" * 12 + "a" + "}" * 12]:
            out.append(lambda rng, s=s: self.one(rng, s, DEFAULT))
        def lengths(rng):
            # the end of a long text counts as much as its beginning
            for k in (10, 100, 500, 1200):
                for unit, kind in (("{a|b} ", "var"), ("__w__ ", "wild"), ("${v} ", "acc"), ("%{a...$$b} ", "wrap"), ("${v=1} ", "asg")):
                    text = unit * k
                    res, cmd = self.outcome(text, DEFAULT)
                    n = sum(1 for x in getattr(cmd, "tokens", ()) if not hasattr(x, "literal"))
                    self.expect_eq(n, k, "elements of a long text", unit=unit)
                    self.rec.count("lengths")
        out.append(lengths)
        for s in self.long_ones():
            out.append(lambda rng, s=s: self.one(rng, s, DEFAULT))
        return out

    def siblings(self, rng):
        """Long texts that differ in one place only."""
        g = Gen(rng, DEFAULT, depth=2, fancy=rng.choice([0, 0.2]))
        text = ""
        while len(text) < rng.choice([60, 150, 400]):
            text += Render(DEFAULT)(g.template()).replace("#", "") + " "
        for _ in range(rng.choice([2, 3])):
            i = rng.choice([0, len(text) // 2, len(text) - 1, rng.randrange(len(text))])
            self.one(rng, text[:i] + rng.choice("abcxyz019 ") + text[i + rng.choice([0, 1]):], DEFAULT)
        self.elsewhere.append(self.history[-1])
        self.rec.count("siblings")

    def case(self, rng, index):
        if rng.random() < 0.015:
            return self.siblings(rng)
        cfg = DEFAULT
        if rng.random() < 0.2:
            cfg = rng.choice(CUSTOM_CFGS if rng.random() < 0.5 else ONE_OFF_CFGS)
            self.rec.count("custom")
        k = rng.random()
        if k < 0.6:
            g = Gen(rng, cfg, depth=rng.choice([1, 2, 3]), fancy=rng.choice([0.1, 0.5]))
            text = self.mutate(rng, Render(cfg, rng if rng.random() < 0.5 else None)(g.template()))
            self.rec.count("mutant")
        elif k < 0.9:
            toks = TOKENS + cfg.tokens() * 3
            text = "".join(rng.choice(toks) for _ in range(rng.randint(1, 14)))
            self.rec.count("soup")
        else:
            text = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x250),
                                           rng.randrange(0xd7ff), rng.randrange(0x10ffff)]))
                           for _ in range(rng.randint(1, 30)))
            self.rec.count("unicode")
        self.one(rng, text[:400], cfg)
