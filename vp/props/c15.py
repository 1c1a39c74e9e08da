"""Wildcard parameters and computed paths against the reference semantics."""
import random

from .. import core
from ..model import TooBig, Undefined
from ..sem import Hostile, Work
from ..tpl import CUSTOM_CFGS, DEFAULT, Acc, Asg, Gen, Lit, Opt, Seq, Var, Wild, walk

OUTER = ["x", "y"]
PARAMS = ["p", "q", "R", "Pq", "long_name-2"]


class Monitor(core.Check):
    id = "C15"
    technique = "reference-model monitor of generated prompts: parameter scopes and computed paths, all sampling methods"
    rule = ("a case is a template with parameterised and computed wildcard references, nested references and outer variables, "
            "under one method; distinct by workload and method; non-trivial: at least one parameter or computed path")
    quick = 3600
    thorough = 110000
    required = ("random", "combinatorial", "cycle", "params", "several_params", "nested_refs", "overrides", "outside_sees_outer",
                "computed_variable", "computed_variant", "computed_default", "computed_missing", "sole_option", "value_scope",
                "variant_params", "paths_seen", "path_param", "second_reference", "many_params")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        self.Comb, self.Rand = CombinatorialPromptGenerator, RandomPromptGenerator

    def make(self, rng, cfg):
        ctr = [0]

        def lit():
            ctr[0] += 1
            return Lit(rng.choice(["a", "bo", "é", "k l"]) + str(ctr[0]) + rng.choice(["", " ", "."]))

        def simple(ctx="val"):
            """A value without variables."""
            k = rng.random()
            if k < 0.6:
                t = lit()
                if cfg is DEFAULT and rng.random() < 0.25:
                    t = Lit(rng.choice(["'%s'", '"%s"', "%s'", '"%s', "x=%s", "%s=", "*%s?", "%s;", "[%s]", "<%s>", "-%s", "%s.5", "\\%s", "a:%s", "%s%%", "%s~",
                                        "@%s", "True%s", "%s/%s"[:5] + "b", "&%s;", "~%s", "^%s+", "`%s`"]).replace("%s", t.text.strip()).replace("%%", "%"))
                return Seq([Lit(t.text.rstrip())])
            return Seq([Var([Opt(Seq([Lit(lit().text.rstrip())])) for _ in range(rng.choice([2, 2, 3]))])])

        def params(avoid=()):
            """Values of parameters use outer variables only, so that none is defined by itself."""
            res = []
            for n in rng.sample(PARAMS + (OUTER[:1] if rng.random() < 0.1 else []), rng.choice([1, 1, 2, 3])):
                v = simple()
                if n in PARAMS and rng.random() < 0.35:
                    v = Seq([Lit("o"), Acc("y", Seq([Lit("oy")]))])
                    if rng.random() < 0.3:
                        v = Seq([Var([Opt(v), Opt(Seq([Lit("alt")]))])])
                res.append((n, v))
            return res

        def ref(names, p):
            w = Wild([rng.choice(names)])
            if rng.random() < p:
                w.params = params()
            return w

        levels = [["w0", "w1"], ["Dir/w0", "Dir/w1"], ["s p/É-e/W_ w0", "s p/É-e/W_ w1"]]
        wilds = {}
        for lv, names in enumerate(levels[: rng.choice([1, 2, 2, 3])]):
            for name in names:
                vals = []
                for _ in range(rng.choice([1, 1, 2, 2])):
                    items = [lit()]
                    for _ in range(rng.choice([1, 1, 2])):
                        k = rng.random()
                        n = rng.choice(PARAMS + OUTER + ["n", "idx"])
                        if k < 0.55:
                            items.append(Acc(n, Seq([Lit("no" + n)])))
                        elif k < 0.75 and lv:
                            items.append(ref(levels[lv - 1], 0.5))
                        elif k < 0.85:
                            items.append(Var([Opt(Seq([Lit("u"), Acc(n, Seq([Lit("no" + n)]))])), Opt(Seq([lit()]))]))
                        else:
                            a = rng.choice(PARAMS)
                            items.append(Asg(a, simple(), preserve=rng.random() < 0.4))
                            items.append(Acc(a, Seq([Lit("no")])))
                            self.value_scope = True
                    vals.append((Gen.merge(Seq(items)), None))
                wilds[name] = vals
        names = [n for lv in levels for n in lv if n in wilds]
        env = {n: simple() for n in OUTER + PARAMS if rng.random() < 0.3}
        asgs = [Asg(n, simple(), immediate=rng.random() < 0.2, preserve=rng.random() < 0.15)
                for n in OUTER + PARAMS if rng.random() < 0.3]
        items = [lit()]
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.5:
                items.append(ref(names, 0.8))
            elif k < 0.7:
                items.append(self.computed(rng, names, params))
            elif k < 0.82:
                n = rng.choice(PARAMS + OUTER)
                items.append(Acc(n, Seq([Lit("out" + n)])))
            elif k < 0.93:
                v = Var([Opt(Seq([ref(names, 0.8)]))])
                if rng.random() < 0.5:
                    v.bound = (rng.choice(["exact", "range", "lower"]), 1, 2)
                    v.sep = rng.choice([None, " & "])
                items.append(v)
            else:
                items.append(Var([Opt(Seq([ref(names, 0.8)])), Opt(Seq([ref(names, 0.5)])), Opt(Seq([lit()]))]))
            items.append(Lit(rng.choice([" ", ", ", "/ "])))
        if rng.random() < 0.6:
            n = rng.choice(PARAMS)
            items.append(Acc(n, Seq([Lit("end" + n)])))
        for a in asgs:
            items.insert(rng.randint(0, len(items)), a)
        return Work(Gen.merge(Seq(items)), wilds, env, cfg)

    def computed(self, rng, names, params):
        """A reference whose path is put together; parts of real names, so that most exist."""
        name = rng.choice(names)
        k = rng.randrange(4)
        stem, last = name[:-1], name[-1]
        part = Seq([Lit(last)]) if rng.random() < 0.8 else Seq([Lit("7")])
        if k == 0:
            w = Wild([stem, Var([Opt(part), Opt(Seq([Lit(rng.choice("01"))]))])])
        elif k == 1:
            w = Wild([stem, Acc("n", part)])
        elif k == 2:
            self.path_var = True
            w = Wild([stem, Acc("idx", None if rng.random() < 0.3 else part)])
        else:
            w = Wild([Var([Opt(Seq([Lit(stem)]))]), last])
        if rng.random() < 0.4:
            w.params = params()
        if k in (1, 2) and rng.random() < 0.4:
            # a parameter of the name used in the path: the values see it, the path does not
            w.params = [("n" if k == 1 else "idx", Seq([Lit(rng.choice("01"))])), *w.params]
            self.path_param = True
        return w

    def directed(self):
        def many(rng):
            # every one of many parameters is seen, each under its own name
            from ..sem import manager
            for n in (6, 8, 9, 12, 20, 40):
                wm = manager({"w": [("".join("${p%d:?}/" % i for i in range(n)), None)]})
                for given in (n, n - 1):
                    t = "__w(" + rng.choice([",", ", "]).join("p%d=%s" % (i, "v%d" % i if i % 3 else "{v%d}" % i) for i in range(given)) + ")__"
                    want = "".join("v%d/" % i if i < given else "?/" for i in range(n))
                    for got in (core.call(lambda: self.Rand(wm, seed=1).generate(t, 2)), core.call(lambda: self.Comb(wm).generate("{" + t + "}", None) * 2)):
                        self.expect_eq(got, [want] * 2, "prompt does not show the referenced values", template=t, wildcards=n)
            self.rec.count("many_params")
        return [many]

    def case(self, rng, index):
        if rng.random() < 0.06:
            return self.paths(rng, index)
        method = rng.choice(["random", "random", "combinatorial", "cycle"])
        cfg = rng.choice([c for c in CUSTOM_CFGS if not c.has_paren]) if rng.random() < 0.08 else DEFAULT
        for _ in range(40):
            self.value_scope = self.path_var = self.path_param = False
            work = self.make(rng, cfg)
            if self.path_var:
                v = Seq([Lit(rng.choice("01"))])
                if rng.random() < 0.5:
                    work.env["idx"] = v
                else:
                    work.tree.items.insert(0, Asg("idx", v))
                work = Work(work.tree, work.wilds, work.env, cfg)
            model = work.model(cap=500)
            try:
                if method == "random":
                    want = model.lang(work.tree, work.env)
                elif method == "combinatorial":
                    want = model.comb(work.tree, work.env)
                else:
                    want = [model.cyc(work.tree, work.env, i) for i in range(7)]
            except (TooBig, Undefined):
                continue
            break
        else:
            raise core.Skip()
        info = dict(method=method, **work.describe())
        self.context = info
        rand = Hostile(index) if rng.random() < 0.5 else random.Random(index)
        n = {"random": rng.choice([1, 4, 8]), "cycle": 7, "combinatorial": None}[method]
        if not work.env and method != "cycle" and rng.random() < 0.5:
            if method == "random":
                got = core.call(lambda: self.Rand(work.manager(), seed=index, parser_config=cfg.real()).generate(work.text, n))
            else:
                got = core.call(lambda: self.Comb(work.manager(), parser_config=cfg.real()).generate(work.text, None))
        else:
            got = core.call(lambda: [str(p) for p in work.context(method, rand=rand).sample_prompts(work.text, n)])
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **info})
        if method == "random":
            self.expect_eq(len(got), n, "wrong number of prompts", **info)
            for p in got:
                self.expect(p in want, "prompt does not show the referenced values", prompt=repr(p), allowed=sorted(want)[:20],
                            **info)
        else:
            self.expect_eq(got, want, "prompts do not show the referenced values", **info)
        self.notes(work, method)
        self.rec.sample({**info, "prompts": got[:3]})

    def notes(self, work, method):
        c = self.rec.count
        refs = [x for x in walk(work.tree) if isinstance(x, Wild)]
        pars = [x for x in refs if x.params]
        trivial = True
        for w in pars:
            trivial = False
            c("params")
            if len(w.params) > 1:
                c("several_params")
            if any(isinstance(i, Var) for _, v in w.params for i in v.items):
                c("variant_params")
            names = {k for k, _ in w.params}
            if names & (set(work.env) | {a.name for a in work.tree.items if isinstance(a, Asg)}):
                c("overrides")
            if any(isinstance(a, Acc) and a.name in names for a in work.tree.items):
                c("outside_sees_outer")
        if len(refs) > 1 and pars:
            c("second_reference")
        if any(isinstance(x, Wild) and x.params for v in work.wilds.values() for s, _ in v for x in walk(s)):
            c("nested_refs")
        if self.path_param:
            c("path_param")
        if self.value_scope:
            c("value_scope")
        for w in refs:
            if not w.static:
                trivial = False
                dyn = next(p for p in w.path if not isinstance(p, str))
                if isinstance(dyn, Var):
                    c("computed_variant")
                elif dyn.name == "idx":
                    c("computed_variable")
                else:
                    c("computed_default")
                if "7" in work.text:
                    c("computed_missing")
        for v in walk(work.tree):
            if isinstance(v, Var) and v.sole_wild() is not None:
                c("sole_option")
        c(method)
        if not trivial:
            self.rec.distinct(work.key(), method)

    def paths(self, rng, index):
        """Over several calls every collection a computed path can name is used, and only those."""
        from ..sem import manager
        wm = names = rng.choice(["rgbk", "RgBk", ["Red", "red", "a b", "É9"], ["x/Y", "X/y", "x", "-1.5"]])
        wm = manager({f"c/{n}": [(f"{n}1", None), (f"{n}2", None)] for n in names})
        chosen = rng.sample(list(names), rng.choice([2, 3]))
        form = rng.choice(["__c/{%s}__", "${v={%s}}__c/${v}__ ", "${v=!{%s}}__c/${v}__ ", "{__c/{%s}__}"])
        t = form % "|".join(chosen)
        self.context = t
        want = {x + d for x in chosen for d in "12"}
        got = core.call(lambda: [p.strip() for s in range(60)
                                 for p in self.Rand(wm, seed=index * 100 + s).generate(t, 2)])
        self.expect(not isinstance(got, core.Err) and set(got) <= want, "computed path reaches another collection",
                    template=t, got=got if isinstance(got, core.Err) else sorted(set(got) - want))
        if set(got) != want:
            got += core.call(lambda: [p.strip() for s in range(600)
                                      for p in self.Rand(wm, seed=index * 1000 + s + 7).generate(t, 2)])
        self.expect_eq(set(got), want, "a collection the path can name is never used", template=t)
        self.rec.count("paths_seen")
        self.rec.distinct("paths", t)
