"""Parse fidelity: trees are generated, written out with random layout, and must come back."""
import random

from .. import core, norm
from ..tpl import Gen, Render, Lit, Seq, Var, Opt, Wild, Acc, Asg, Wrap, WORDS, FANCY, walk


class Monitor(core.Check):
    id = "C01"
    technique = "reference-structure monitor over generated templates (written-then-parsed trees)"
    rule = ("a case generates a template tree, writes it with random padding and parses it; "
            "non-trivial: at least one construct besides literal text; distinct by the structure")
    quick = 6000
    thorough = 120000
    required = ("kind:var", "kind:wild", "kind:acc", "kind:asg", "kind:wrap", "kind:seq",
                "depth>=4", "bound:exact", "bound:range", "bound:lower", "bound:upper")

    def setup(self):
        from dynamicprompts.parser.parse import parse
        self.parse = parse

    def check_tree(self, tree, layout=None):
        text = Render(layout=layout)(tree)
        self.context = text
        want = norm.of_tree(tree)
        got = core.call(self.parse, text)
        if isinstance(got, core.Err):
            raise core.Violation("valid template rejected", {"template": text, "got": repr(got),
                                                             "expected": core.show(want, 1500)})
        cmd, got = got, norm.of_command(got)
        self.expect_eq(got, want, "parsed structure differs from what was written", template=text)
        for have, wrote in zip(norm.bounds_of_command(cmd), norm.bounds_of_tree(tree), strict=True):
            if wrote is not None:
                self.expect_eq(have, wrote, "bounds differ from what was written", template=text)
                self.rec.count("written_bounds")
        ks = norm.kinds(want)
        for k, d in ks:
            self.rec.count("kind:" + k)
        if max(d for _, d in ks) >= 4:
            self.rec.count("depth>=4")
        for n in walk(tree):
            if isinstance(n, Var) and n.bound:
                self.rec.count("bound:" + n.bound[0])
        if want[0] != "lit":
            self.rec.distinct(want)
            self.rec.sample(text)

    def directed(self):
        out = []
        L = lambda *t: Seq([Lit(x) if isinstance(x, str) else x for x in t])  # noqa: E731
        for s in FANCY + WORDS:
            def lit(rng, s=s):
                if not any(t in s for t in ("{", "${", "%{", "#", "__")):
                    self.check_tree(L("x" + s + "y"))
                if not any(t in s for t in ("{", "}", "|", "$$", "#", "__")):
                    self.check_tree(L(Var([Opt(L("x" + s + "y")), Opt(L("b"))])))
                    self.check_tree(L(Asg("v", L("x" + s + "y")), "z"))
                    self.check_tree(L(Acc("v", L("x" + s + "y")), "z"))
                    self.check_tree(L(Wrap(L("x" + s + "y"), L("a" + s + "b"))))
                if s[0].isalnum() and "$" not in s and "::" not in s:
                    self.check_tree(L(Var([Opt(L(s + "y")), Opt(L(s + "b"), "2")])))
            out.append(lit)

        def deep(rng):
            t = L("leaf")
            for k in range(25):
                t = L("p", Var([Opt(t), Opt(L("o%d" % k), "2")]), "q")
            self.check_tree(t)

        def wide(rng):
            self.check_tree(L(*[x for k in range(150) for x in
                                ("lit%d " % k, Var([Opt(L("a%d" % j)) for j in range(3)]))]))
            self.check_tree(L(Var([Opt(L("o%d" % j), str(j) if j % 2 else None)
                                   for j in range(400)])))

        def bounds(rng):
            for n in (1, 2, 3, 5):
                for form in ("exact", "range", "lower", "upper"):
                    for lo in range(0, n + 2):
                        for hi in range(0, n + 2):
                            if (form in ("exact", "lower") and hi) or (form == "upper" and lo):
                                continue
                            sep = rng.choice((None, " and ", "|", ", "))
                            m = rng.choice((None, "~", "@", "!"))
                            self.check_tree(L(Var([Opt(L("o%d" % j)) for j in range(n)],
                                                  (form, lo, hi), sep, m)))

        def manybounds(rng):
            for n in (12, 120, 260):
                for bound in (("exact", 100, 0), ("range", 10, 110), ("range", 99, 100), ("lower", 105, 0), ("upper", 0, 115), ("exact", 12, 0),
                              ("range", 1, 1000), ("upper", 0, 20000), ("range", 12, 2), ("range", 110, 10),
                              ("range", 30, 20), ("range", 1000, 999)):
                    sep = rng.choice((None, " and "))
                    self.check_tree(L("x ", Var([Opt(L("o%d" % j)) for j in range(n)], bound, sep)))
                    self.check_tree(L(Var([Opt(L(Wild(["w"])))], bound, sep), " y"))

        def chars(rng):
            for c in map(chr, [*range(1, 0x180), 0x2028, 0x2029, 0x200b, 0x3000, 0xfeff, 0xfffd, 0xffff, 0x10ffff]):
                if c in "#{}|$%":
                    continue
                self.check_tree(L("x" + c + "y"))
                self.check_tree(L("p", Var([Opt(L("x" + c + "y")), Opt(L("b"))]), c + "q"))

        def varnames(rng):
            for v in ("-x", "--", "_", "_-a", "-9", "a", "Z", "a" * 200, "x-", "a--b", "_9", "x_1-2", "true", "None", "and"):
                for d in (None, L("d e")):
                    self.check_tree(L("s ", Acc(v, d), " t"))
                    self.check_tree(L(Var([Opt(L("p", Acc(v, d))), Opt(L("q"))])))
                for imm in (False, True):
                    for pres in (False, True):
                        self.check_tree(L(Asg(v, L("val"), immediate=imm, preserve=pres), "z"))
                self.check_tree(L("t ", Wild(["w"], params=[(v, L("1"))]), " u"))

        def weights(rng):
            for w in ("0", "1", "2", "10", "0.5", ".5", "3.", "007", "0.0", "123.456", "1000000"):
                self.check_tree(L(Var([Opt(L("a"), w), Opt(L("b"))])))
                self.check_tree(L(Var([Opt(L("b")), Opt(Seq([]), w)])))

            for w in ("0.00025", "1234.56789", "0.333333333333", "2.0000001", "98765432", "0.000001", "1e3"[:1] + "000.5"):
                self.check_tree(L(Var([Opt(L("a"), w), Opt(L("b"), "1")])))

        def params(rng):
            E = Seq([])
            for ps in ([("a", E)], [("a", E), ("b", L("1"))], [("b", L("1")), ("a", E)], [("a", E), ("b", E), ("c", L("x"))]):
                for layout in (None, random.Random(3)):
                    self.check_tree(L("t ", Wild(["w"], params=ps), " u"), layout)
            for v in ("p=q", "a = b", "=", "x==y", "1=2=3", "é=", "a;b", "a:b", "a|b", "x/y", "[z]", "*", "a b  c", "?", "'q'", "- -"):
                self.check_tree(L("t ", Wild(["w"], params=[("a", L(v))]), " u"))
                self.check_tree(L("t ", Wild(["w"], params=[("a", L("1")), ("b", L(v)), ("c", L("2"))])))
            self.check_tree(L(Wild(["w"], params=[("p%d" % i, L("v%d" % i)) for i in range(12)])))

        def paths(rng):
            for p in ("a/", "/a", "a//b", "/", "//x/"[1:], "a/b/", "*/", "**/", "a\\b", "\\", "a\\", "./a", "a.", ".a", "a/.", "A/B", "a:b", "a;b", "-", "a_b_c",
                      "a%b", "a$b", "[a-c]", "[!a]", "?", "a,b", "a'b", '"', "a=b", "a+b", "@a"[1:], "~"[1:] + "t~", "a!b", "1", "0.5", "a b", "é/日本", "a&b", "a^b"):
                self.check_tree(L("x ", Wild([p]), " y"))
                self.check_tree(L(Var([Opt(L(Wild([p]))), Opt(L("z"))])))
                self.check_tree(L(Wild([p], method="~", params=[("k", L("v"))]), " y"))

        def seps(rng):
            for c in map(chr, range(32, 127)):
                if c in "${}#":
                    continue
                for s in (c, " " + c + " ", "a" + c):
                    if "/*" not in s and "//" not in s:
                        self.check_tree(L(Var([Opt(L("a")), Opt(L("b"))], ("exact", 2, 0), s)))

        def longtext(rng):
            self.check_tree(L("word " * 4000 + "end", Var([Opt(L("long " * 2000 + "x"))])))
        return out + [deep, wide, bounds, manybounds, chars, varnames, weights, params, paths, seps, longtext]

    def case(self, rng, index):
        g = Gen(rng, depth=rng.choice([1, 2, 3, 3, 4]), fancy=rng.choice([0.05, 0.3, 0.7]),
                wild_names=["w0", "w1", "d/w2", "a b", "x*", "d/**/e", "Ünï", "a-b_c.d", "..", "1"])
        tree = g.template()
        self.check_tree(tree, random.Random(index) if rng.random() < 0.7 else None)
