"""Sampler symbols: mixed methods, checked by patterns with holes for what is random."""
import itertools
import random
import warnings

from .. import core
from ..model import Model, wrap_text
from ..sem import Hostile, Work
from ..tpl import Acc, Asg, Lit, Opt, Seq, Var, Wild, Wrap, walk


def symbol(node):
    """The symbol that counts for an element: that of a variant's only option, a wildcard, comes after the variant's own."""
    if isinstance(node, Var):
        w = node.sole_wild()
        if w is not None and w.method in ("~", "@"):
            return w.method
    return node.method


class Mixed(Model):
    """Patterns: lists of Lit and of nodes standing for any prompt they denote."""

    def patterns(self, node, env):
        """Combinatorial setting: one pattern per combination, in order."""
        if isinstance(node, Lit):
            return [[node]]
        if isinstance(node, Seq):
            for a in node.items:
                if isinstance(a, Asg):
                    env = {**env, a.name: a.value}
            parts = [self.patterns(i, env) for i in node.items if not isinstance(i, Asg)]
            return [sum(t, []) for t in self.prod(parts)]
        if isinstance(node, Acc):
            return self.patterns(self.resolve(node, env), env)
        if isinstance(node, (Var, Wild)) and symbol(node) in ("~", "@"):
            return [[Hole(node, env)]]
        if isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                return self.patterns(self.expand_sole(node, w.path[0]), env)
            lo, hi = node.limits()
            res = []
            for k in range(lo, hi + 1):
                for idx in itertools.permutations(range(len(node.options)), k):
                    for t in self.prod([self.patterns(node.options[i].node, env) for i in idx]):
                        p = []
                        for j, x in enumerate(t):
                            p += ([Lit(node.separator)] if j else []) + x
                        res.append(p)
            return res
        if isinstance(node, Wild):
            return [p for v, w in self.values(node.path[0])
                    for _ in range(1 if w is None else int(w)) for p in self.patterns(v, env)]
        if isinstance(node, Wrap):
            res = []
            for a, b in self.prod([self.patterns(node.wrapper, env), self.patterns(node.inner, env)]):
                k = next(i for i, x in enumerate(a) if isinstance(x, Lit) and "..." in x.text)
                pre, _, post = a[k].text.partition("...")
                res.append(a[:k] + [Lit(pre)] + b + [Lit(post)] + a[k + 1:])
            return res
        raise TypeError(node)

    def cycp(self, node, env, n):
        """Cyclical setting: the n-th pattern."""
        if isinstance(node, Lit):
            return [node]
        if isinstance(node, Seq):
            for a in node.items:
                if isinstance(a, Asg):
                    env = {**env, a.name: a.value}
            return sum((self.cycp(i, env, n) for i in node.items if not isinstance(i, Asg)), [])
        if isinstance(node, Acc):
            return self.cycp(self.resolve(node, env), env, n)
        if isinstance(node, (Var, Wild)) and symbol(node) == "~":
            return [Hole(node, env)]
        if isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                return self.cycp(self.expand_sole(node, w.path[0]), env, n)
            lo, hi = node.limits()
            combos = [c for k in range(lo, hi + 1) for c in itertools.permutations(range(len(node.options)), k)]
            q, m = divmod(n, len(combos))
            res = []
            for j, i in enumerate(combos[m]):
                res += ([Lit(node.separator)] if j else []) + self.cycp(node.options[i].node, env, q)
            return res
        if isinstance(node, Wild):
            rep = [v for v, w in self.values(node.path[0]) for _ in range(1 if w is None else int(w))]
            q, m = divmod(n, len(rep))
            return self.cycp(rep[m], env, q)
        raise TypeError(node)

    def topp(self, node, env, n):
        """Random setting: the n-th pattern; cyclical elements of the template itself step."""
        for a in node.items:
            if isinstance(a, Asg):
                env = {**env, a.name: a.value}
        res = []
        for i in node.items:
            if isinstance(i, Asg):
                continue
            while isinstance(i, Acc):
                i = self.resolve(i, env)
                if isinstance(i, Seq) and len(i.items) == 1:
                    i = i.items[0]
            if isinstance(i, (Var, Wild)) and symbol(i) == "@":
                res += self.cycp(i, env, n)
            else:
                res.append(i if isinstance(i, Lit) else Hole(i, env))
        return res

    def match(self, pattern, text):
        cur = {0}
        for x in pattern:
            if isinstance(x, Lit):
                cur = {i + len(x.text) for i in cur if text.startswith(x.text, i)}
            else:
                cur = set().union(*[self.ends(x.node, x.env, text, i) for i in cur])
            if not cur:
                return False
        return len(text) in cur


BLANKS = {"s": [" ", "  "], "e": ["", "x"], "m": ["\t", " x", "y "]}


class Hole:
    def __init__(self, node, env):
        self.node, self.env = node, env

    def __repr__(self):
        return "<any>"


class Monitor(core.Check):
    id = "C11"
    technique = "pattern monitor: emitted sequence against the combinatorial/cyclical skeleton with holes for random parts"
    rule = ("a case is a template mixing sampler symbols, run in one surrounding method; every prompt is matched against the "
            "pattern of its position; distinct by template and method")
    quick = 4200
    thorough = 90000
    required = ("combinatorial", "random", "cycle", "warned", "not_warned", "fresh", "independent", "exact_cyclical",
                "variables", "wildcards", "wraps", "nested_symbols", "unlimited", "fresh_in_selection", "only_option", "nested_random")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        self.Comb, self.Rand = CombinatorialPromptGenerator, RandomPromptGenerator

    def make(self, rng, method):
        ctr = [0]

        def lit():
            ctr[0] += 1
            return Lit("%s%d;" % (rng.choice(["a", "bo", "é"]), ctr[0]))
        wilds = {}

        def sym(p):
            return rng.choice("~@!~@") if rng.random() < p else None

        def var(d, p=0.35, wild=True, infinite=False):
            if wild and wilds and rng.random() < 0.15:
                name = rng.choice(sorted(wilds))
                v = Var([Opt(Seq([Wild([name], method=sym(0.6))]))], method=sym(p))
                n = len(wilds[name])
                if n < 4 and rng.random() < 0.5 and not any(
                        isinstance(x, (Var, Wild, Acc)) for s, _ in wilds[name] for x in walk(s)):
                    v.bound = (rng.choice(["exact", "range"]), rng.randint(1, n), rng.randint(1, n))
                    v.sep = rng.choice([None, " & "])
                return v
            n = rng.choice([2, 2, 3])
            opts = [Opt(prompt(d - 1, wild)) for _ in range(n)]
            v = Var(opts, method=sym(p))
            pure = not any(isinstance(x, (Var, Wild, Acc)) for o in opts for x in walk(o.node))
            if rng.random() < 0.2 and pure:
                v.bound = (rng.choice(["exact", "range"]), rng.randint(1, n), rng.randint(1, n))
                v.sep = rng.choice([None, " & "])
            return v

        def prompt(d, wild=True):
            items = []
            for _ in range(rng.choice([1, 2]) if d > 0 else 1):
                k = rng.random()
                if d <= 0 or k < 0.35:
                    items.append(lit())
                elif k < 0.85 or not (wild and wilds):
                    items.append(var(d, wild=wild))
                else:
                    items.append(Wild([rng.choice(sorted(wilds))], method=sym(0.4)))
            if not any(isinstance(i, Lit) for i in items):
                items.insert(0, lit())
            return join(items)

        def join(items):
            out = []
            for it in items:
                if isinstance(it, Lit) and out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].text + it.text)
                else:
                    out.append(it)
            return Seq(out)
        if rng.random() < 0.6:
            for name in ["w0", "w1"][: rng.choice([1, 2])]:
                vals = []
                for _ in range(rng.choice([1, 2, 3, 3, 7])):
                    s = prompt(rng.choice([0, 1]), wild=False)
                    if rng.random() < 0.25:
                        s = Seq([var(1, 0.7, False)])
                    vals.append((s, None if method == "combinatorial" else rng.choice([None, None, None, 2.0])))
                wilds[name] = vals
        items = [lit()]
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            if k < 0.6:
                items.append(var(rng.choice([1, 2]), 0.5))
            elif k < 0.8 and wilds:
                items.append(Wild([rng.choice(sorted(wilds))], method=sym(0.5)))
            elif k < 0.9:
                items.append(lit())
            elif method == "combinatorial":
                items.append(Wrap(join([lit(), var(1, 0.5, False), Lit("...")]), prompt(1, False)))
        if rng.random() < 0.3:
            items.insert(0, Asg("v", Seq([var(1, 0.7, False)]), preserve=rng.random() < 0.3))
            items += [Lit(" "), Acc("v"), Lit(" "), Acc("v")][: rng.choice([2, 4])]
        return Work(Seq(join(items).items), wilds, {})

    def nested_in_wrong(self, node, method):
        """Is there, surely evaluated, a '!' in a non-finite setting: at the top of the template?"""
        return any(isinstance(i, (Var, Wild)) and (i.method == "!" or (
            isinstance(i, Var) and i.sole_wild() is not None and i.sole_wild().method == "!")) for i in node.items)

    def any_bang(self, work):
        trees = [work.tree] + [s for v in work.wilds.values() for s, _ in v]
        return any(getattr(n, "method", None) == "!" for t in trees for n in walk(t))

    def mixed(self, rng, index):
        method = rng.choice(["combinatorial", "combinatorial", "random", "cycle"])
        for _ in range(20):
            work = self.make(rng, method)
            model = Mixed(work.wilds, cap=400)
            try:
                pats = model.patterns(work.tree, {}) if method == "combinatorial" else None
            except Exception as e:
                if type(e).__name__ == "TooBig":
                    continue
                raise
            break
        else:
            raise core.Skip()
        self.context = (work.describe(), method)
        seed = rng.randrange(10**6)
        rand = Hostile(seed) if rng.random() < 0.5 else random.Random(seed)
        info = dict(method=method, **work.describe())
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            if method == "combinatorial":
                n = len(pats) + 3
                if rng.random() < 0.3:
                    got = core.call(lambda: self.Comb(work.manager()).generate(work.text, None))
                    self.rec.count("unlimited")
                else:
                    got = core.call(lambda: [str(p) for p in work.context(method, rand=rand)
                                             .sample_prompts(work.text, n)])
            else:
                n = rng.choice([1, 4, 12, 12, 40])
                got = core.call(lambda: [str(p) for p in work.context(method, rand=rand)
                                         .sample_prompts(work.text, n)])
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **info})
        if method == "combinatorial":
            self.expect_eq(len(got), len(pats), "combinations multiplied or dropped", prompts=got, **info)
        else:
            self.expect_eq(len(got), n, "wrong number of prompts", **info)
            fn = model.topp if method == "random" else model.cycp
            pats = [fn(work.tree, {}, i) for i in range(n)]
        for i, (p, pat) in enumerate(zip(got, pats)):
            self.expect(model.match(pat, p), "prompt does not fit the sampler symbols", prompt=p, position=i,
                        pattern=[x.text if isinstance(x, Lit) else "<any>" for x in pat], prompts=got, **info)
        bang = [w for w in caught if "sampling method" in str(w.message)]
        if method != "combinatorial":
            if self.nested_in_wrong(work.tree, method):
                self.expect(bang, "no warning for a combinatorial element in a non-finite setting", **info)
                self.rec.count("warned")
            elif not self.any_bang(work):
                self.expect(not bang, "unexpected warning", warning=[str(w.message) for w in bang], **info)
                self.rec.count("not_warned")
        elif not self.any_bang(work):
            self.expect(not bang, "unexpected warning", warning=[str(w.message) for w in bang], **info)
            self.rec.count("not_warned")
        self.rec.count(method)
        for x in work.tree.items:
            if isinstance(x, Wild):
                self.rec.count("wildcards")
            elif isinstance(x, Acc):
                self.rec.count("variables")
            elif isinstance(x, Wrap):
                self.rec.count("wraps")
            elif isinstance(x, Var) and x.sole_wild() is not None and x.sole_wild().method:
                self.rec.count("only_option")
            elif isinstance(x, Var) and x.method and any(
                    getattr(y, "method", None) for o in x.options for y in walk(o.node)):
                self.rec.count("nested_symbols")
        self.rec.distinct(work.key(), method)
        self.rec.sample({**info, "prompts": got[:4]})

    def exact(self, rng, index):
        """In a combinatorial sequence: cyclical elements step once per prompt, random ones are fresh."""
        combs = [rng.choice(["{p|q}", "{p|q|r}", "{p|{s|t}}", "__c__"]) for _ in range(rng.choice([2, 3, 4]))]
        wm = Work(Seq([]), {"c": [(Seq([Lit("c%d" % i)]), None) for i in range(3)],
                            "n": [(Seq([Lit("n%d" % i)]), None) for i in range(2)],
                            **{k: [(Seq([Lit(x)]), None) for x in v] for k, v in BLANKS.items()}}).manager()
        lists = {"{p|q}": ["p", "q"], "{p|q|r}": ["p", "q", "r"], "{p|{s|t}}": ["p", "s", "t"],
                 "__c__": ["c0", "c1", "c2"]}
        cyc = {"{@A|B|C}": ["A", "B", "C"], "__@n__": ["n0", "n1"], "{@A|{B|C}}": ["A", "B", "A", "C"],
               "{@2$$A|B}": ["A,B", "B,A"], **{"__@%s__" % k: v for k, v in BLANKS.items()}}
        ran = {"{~X|Y}": ["X", "Y"], "__~n__": ["n0", "n1"], "{~X|{Y|Z}}": ["X", "Y", "Z"], **{"__~%s__" % k: v for k, v in BLANKS.items()}}
        parts = [("c", t) for t in combs]
        for _ in range(rng.choice([1, 1, 2, 2, 9])):
            parts.insert(rng.randint(0, len(parts)), ("@", rng.choice(sorted(cyc))))
        for _ in range(rng.choice([0, 1, 2])):
            parts.insert(rng.randint(0, len(parts)), ("~", rng.choice(sorted(ran))))
        prefix = ""
        text = []
        for k, (kind, t) in enumerate(parts):
            if kind != "c" and rng.random() < 0.25:
                prefix += "${v%d=%s}" % (k, t)
                text.append("${v%d}" % k)
            else:
                text.append(t)
        text = prefix + "/".join(text)
        self.context = text
        prods = list(itertools.product(*[lists[t] for kind, t in parts if kind == "c"]))
        ctx = Work(Seq([])).context("combinatorial", wildcard_manager=wm, rand=random.Random(index))
        got = core.call(lambda: [str(p).split("/") for p in ctx.sample_prompts(text, len(prods) + 2)])
        self.expect(not isinstance(got, core.Err) and len(got) == len(prods), "combinations multiplied or dropped",
                    template=text, got=got, expected=len(prods))
        for i, (p, combo) in enumerate(zip(got, prods)):
            it = iter(combo)
            for (kind, t), x in zip(parts, p):
                if kind == "c":
                    self.expect(x == next(it), "combination out of order", template=text, position=i, prompt="/".join(p))
                elif kind == "@":
                    self.expect_eq(x, cyc[t][i % len(cyc[t])], "cyclical element does not step once per prompt",
                                   template=text, position=i, prompt="/".join(p))
                else:
                    self.expect(x in ran[t], "random element has no value of its own", template=text, prompt="/".join(p))
        self.rec.count("exact_cyclical")
        self.rec.distinct("exact", text)

    def fresh(self, rng, index):
        """Random elements in combinatorial and cyclical settings are drawn anew, independently."""
        element = rng.choice(["{~X|Y}", "__~n__", "${v}", "{~X|Y}", "{~{X|Y}|Z}"])
        text = element + "/" + element
        method = rng.choice(["combinatorial", "cycle", "random"])
        n = 243
        full = ("${v={~X|Y}}" if "${v}" in element else "") + text + "/" + "/".join(["{1|2|3}"] * 5)
        wm = Work(Seq([]), {"n": [(Seq([Lit("n%d" % i)]), None) for i in range(2)]}).manager()
        self.context = full
        ctx = Work(Seq([])).context(method, wildcard_manager=wm, rand=random.Random(index))
        got = core.call(lambda: [tuple(str(p).split("/")[:2]) for p in ctx.sample_prompts(full, n)])
        self.expect(not isinstance(got, core.Err) and len(got) == n, "generation failed", got=got, template=full)
        vals = {"__~n__": ["n0", "n1"], "{~{X|Y}|Z}": ["X", "Y", "Z"]}.get(element, ["X", "Y"])
        want = set(itertools.product(vals, vals))
        if method == "cycle" and element == "{~{X|Y}|Z}":
            want = {p for p in want}
        # least likely pair has probability 1/16: missing it 243 times in a row has probability 1.6e-7,
        # so a miss is confirmed with a longer run
        miss = want - set(got)
        if miss:
            ctx = Work(Seq([])).context(method, wildcard_manager=wm, rand=random.Random(index + 1))
            longer = full + "/{1|2|3}/{1|2|3}"
            got = core.call(lambda: [tuple(str(p).split("/")[:2]) for p in ctx.sample_prompts(longer, n * 9)])
            miss = want - set(got)
        self.expect(not miss, "equal random elements are not drawn anew and independently", missing=sorted(miss),
                    template=full, method=method)
        self.expect(set(got) <= want, "impossible value", template=full, method=method, got=sorted(set(got) - want))
        self.rec.count("fresh")
        self.rec.count("independent")
        self.rec.distinct("fresh", full, method)

    def nested(self, rng, index):
        """What is nested in a random element is random, too, wherever the nested element comes from."""
        text = rng.choice(["{~{a|b|c}|{a|b|c}}", "__~nv__", "{__~nv__}", "{~__nv__}", "{~${v}|${v}}", "{~x{a|b|c}|y{a|b|c}}", "${m}", "__~par(p={a|b|c})__",
                           "{~__nv__|__nv__}", "__~deep__", "{~{1$$a|b|c}|{{a|b|c}}}", "{~${nope:{a|b|c}}|{a|b|c}}", "{1$$__~nv__}", "{0-1$$__~nv__}x",
                           "__~deep__ __c1__", "{~__par(p=__nv__)__|{a|b|c}}"])
        method = rng.choice(["combinatorial", "combinatorial", "cycle", "random"])
        full = "${v={a|b|c}}${m=__~nv__}" + text + "/" + "/".join(["{1|2|3}"] * 5)
        from ..sem import manager
        wm = manager({"nv": [("{a|b|c}", None), ("{a|{b|c}}", None)], "par": [("${p}", None), ("q${p}", None)], "deep": [("__nv__", None), ("{__nv__}", None)],
                      "c1": [("one", None)]})
        self.context = full
        miss = None
        for n, seed, more in ((243, index, ""), (2187, index + 1, "/{1|2|3}/{1|2|3}")):
            ctx = Work(Seq([])).context(method, wildcard_manager=wm, rand=random.Random(seed))
            got = core.call(lambda: [str(p).split("/")[0] for p in ctx.sample_prompts(full + more, n)])
            self.expect(not isinstance(got, core.Err) and len(got) == n, "generation failed", got=got, template=full, method=method)
            got = [next((c for c in p.split(" ")[0] if c in "abc"), "-") for p in got]
            pairs = set(zip(got[0::2], got[1::2]))
            want = set(itertools.product("abc", "abc"))
            miss = want - pairs if miss is None else miss - pairs
            if not miss:
                break
        self.expect(not miss, "what is nested in a random element is not sampled at random", missing=sorted(miss), template=full, method=method,
                    got=got[:40])
        self.rec.count("nested_random")
        self.rec.distinct("nested", text, method)

    def fresh_in_selection(self, rng, index):
        """Among several chosen options, too, random elements are drawn anew for each prompt."""
        opts = "|".join("o%02d" % i for i in range(40))
        a, b = rng.choice([("{~X|Y}", "{%s}" % opts), ("__~n__", "{%s}" % opts), ("{~X|Y}", "__big__")])
        text = "{2$$+$$%s|%s}" % ((a, b) if rng.random() < 0.5 else (b, a))
        wm = Work(Seq([]), {"n": [(Seq([Lit(x)]), None) for x in "XY"],
                            "big": [(Seq([Lit("o%02d" % i)]), None) for i in range(40)]}).manager()
        self.context = text
        ctx = Work(Seq([])).context("combinatorial", wildcard_manager=wm, rand=random.Random(index))
        got = core.call(lambda: [str(p) for p in ctx.sample_prompts(text, None)])
        self.expect(not isinstance(got, core.Err) and len(got) == 80, "generation failed", got=got, template=text)
        for first in ("oXY", "XYo"):
            block = [p.split("+") for p in got if p[0] in first[:1 if first[0] == "o" else 2]]
            self.expect_eq(sorted(x for p in block for x in p if x[0] == "o"), ["o%02d" % i for i in range(40)],
                           "combinations multiplied or dropped", template=text)
            self.expect_eq({x for p in block for x in p if x[0] != "o"}, {"X", "Y"},
                           "a random element is not drawn anew for each prompt", template=text, prompts=got)
        self.rec.count("fresh_in_selection")
        self.rec.distinct("selection", text)

    def case(self, rng, index):
        k = rng.random()
        if k < 0.02:
            return self.fresh_in_selection(rng, index)
        if k < 0.04:
            return self.nested(rng, index)
        if k < 0.75:
            self.mixed(rng, index)
        elif k < 0.93:
            self.exact(rng, index)
        else:
            self.fresh(rng, index)
