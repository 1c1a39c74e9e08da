"""Variables: assignments, accesses, defaults and scopes against the reference semantics."""
import random

from .. import core
from ..model import TooBig, Undefined
from ..sem import Hostile, Work
from ..tpl import CUSTOM_CFGS, DEFAULT, Acc, Asg, Gen, Lit, Opt, Render, Seq, Var, Wild, Wrap, walk

NAMES = ["x", "y", "z", "long_name", "a-b", "X9", "X", "Long_name"]


def acc_text(cfg, name):
    return Render(cfg)(Seq([Acc(name, Seq([Lit("free")]))]))


class Monitor(core.Check):
    id = "C14"
    technique = "reference-model monitor of generated prompts under random, combinatorial and cyclical sampling"
    rule = ("a case is a template of assignments, accesses, defaults, nested scopes and inherited variables under one method; "
            "distinct by workload and method; non-trivial: at least one access of an assigned or inherited variable")
    quick = 5200
    thorough = 110000
    required = ("random", "combinatorial", "cycle", "immediate", "preserve_kept", "preserve_set", "reassigned", "before_use",
                "inherited", "defaults", "unknown_value", "unknown_error", "recursion", "nested_scope", "no_leak", "agree",
                "probed", "anew", "self_immediate", "through_wildcard", "custom_syntax", "chains", "unknown_command", "value_scopes")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        self.Comb, self.Rand = CombinatorialPromptGenerator, RandomPromptGenerator

    def make(self, rng, cfg, method):
        names = rng.sample(NAMES, 3)
        rank = {n: i for i, n in enumerate(names)}
        ctr = [0]
        wilds = {}
        scoped_value = False

        def lit():
            ctr[0] += 1
            return Lit(rng.choice(["a", "bo", "é", "p q"]) + str(ctr[0]) + rng.choice(["", " ", "-"]))

        def acc(top):
            """An access to a variable below `top`."""
            n = rng.choice(names[:top])
            d = None
            if rng.random() < 0.5:
                d = value(rank[n], 0) if rng.random() < 0.9 else Seq([])
            return Acc(n, d)

        def value(top, d):
            items = []
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.random()
                if k < 0.45 or (d <= 0 and top == 0):
                    items.append(lit())
                elif k < 0.55 and top > 0 and d > 0 and scoped_value:
                    items.append(Wild(["v"]))
                elif k < 0.75 and d > 0:
                    items.append(var(top, d))
                elif top > 0:
                    items.append(acc(top))
                elif d > 0:
                    items.append(var(top, d))
            items = items or [lit()]
            if rng.random() < 0.05:
                return Seq([])
            return Gen.merge(Seq(items))

        def var(top, d, scoped=True):
            opts = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                s = value(top, d - 1)
                opts.append(Opt(s))
            return Var(opts)
        self.scoped = False
        if rng.random() < 0.25:
            # a value with a scope of its own, which may be reached through a variable
            s = [Lit("v"), Acc("loc", Seq([Lit("no")]))]
            s.insert(rng.randint(0, 2), Asg("loc", rng.choice([Seq([Acc(names[0], Seq([Lit("un")]))]), Gen.merge(Seq([lit(), Acc(names[0], Seq([Lit("un")])), lit()]))]),
                                            immediate=rng.random() < 0.7, preserve=rng.random() < 0.3))
            if rng.random() < 0.4:
                s.append(Acc(names[0], Seq([Lit("un")])))
            wilds["v"] = [(Gen.merge(Seq(s)), None)]
            if rng.random() < 0.5:
                wilds["v"].append((Seq([lit()]), None))
            scoped_value = True
        env = {n: value(rank[n], 1) for n in names if rng.random() < 0.3}
        if rng.random() < 0.35:
            vals = []
            for i in range(rng.choice([1, 2])):
                n = rng.choice(names)
                v = [Lit("w%d" % i), Acc(n, Seq([Lit("no")]))]
                if rng.random() < 0.5:
                    # a scope of its own, within one value
                    a = Asg(n, value(rank[n], 0), immediate=rng.random() < 0.3, preserve=rng.random() < 0.3)
                    v.insert(rng.randint(0, 2), a)
                    if rng.random() < 0.5:
                        v.append(var(rank[n], 1))
                    self.scoped = True
                vals.append((Gen.merge(Seq(v)), None))
            wilds["w"] = vals
        items = []
        asgs = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
            n = rng.choice(names)
            asgs.append(Asg(n, value(rank[n], rng.choice([0, 1, 1])), immediate=rng.random() < 0.3,
                            preserve=rng.random() < 0.25))
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.random()
            if k < 0.6:
                items.append(acc(3))
            elif k < 0.75:
                items.append(var(3, 1))
            elif k < 0.88 and "w" in wilds:
                w = Wild(["w"])
                if rng.random() < 0.5:
                    w.params = [(n, Seq([Lit("par%d" % i)])) for i, n in enumerate(rng.sample(names + ["p"], rng.choice([1, 2, 3])))]
                items.append(w)
            elif k < 0.93 and method != "cycle":
                items.append(Wrap(Gen.merge(Seq([lit(), Lit("..."), acc(3)])), value(3, 1)))
            else:
                items.append(lit())
        if not any(isinstance(i, Lit) for i in items):
            items.append(lit())
        for a in asgs:
            items.insert(rng.randint(0, len(items)), a)
        tree = Gen.merge(Seq(items))
        return Work(tree, wilds, env, cfg)

    def notes(self, work, method):
        """Counts what the case exercises."""
        env = set(work.env)
        seen = set()
        for i, a in enumerate(work.tree.items):
            if isinstance(a, Asg):
                if a.preserve:
                    self.rec.count("preserve_kept" if a.name in env | seen else "preserve_set")
                elif a.name in seen:
                    self.rec.count("reassigned")
                if a.immediate:
                    self.rec.count("immediate")
                if any(isinstance(b, Acc) and b.name == a.name for b in work.tree.items[:i]):
                    self.rec.count("before_use")
                seen.add(a.name)
        for n in walk(work.tree):
            if isinstance(n, Acc):
                if n.name in env - seen:
                    self.rec.count("inherited")
                elif n.name not in seen and n.default is not None:
                    self.rec.count("defaults")
            if isinstance(n, Wild):
                self.rec.count("through_wildcard")
                if n.path == ["v"]:
                    self.rec.count("value_scopes")
        if self.scoped:
            self.rec.count("nested_scope")
        if work.cfg is not DEFAULT:
            self.rec.count("custom_syntax")

    def model_case(self, rng, index):
        cfg = rng.choice([c for c in CUSTOM_CFGS if not c.has_paren]) if rng.random() < 0.1 else DEFAULT
        method = rng.choice(["random", "random", "combinatorial", "cycle"])
        unknown = rng.choice([None, None, "UNK", "cmd", "", "0", " {a|b} "])
        for _ in range(40):
            work = self.make(rng, cfg, method)
            model = work.model(cap=600, unknown={"cmd": "V1"}.get(unknown, unknown))
            undefined = False
            try:
                if method == "random":
                    want = model.lang(work.tree, work.env)
                elif method == "combinatorial":
                    want = model.comb(work.tree, work.env)
                else:
                    want = [model.cyc(work.tree, work.env, i) for i in range(7)]
            except TooBig:
                continue
            except Undefined:
                undefined = True
            break
        else:
            raise core.Skip()
        self.context = (work.describe(), method)
        kw = {}
        if unknown == "cmd":
            from dynamicprompts.commands import LiteralCommand
            kw["unknown_variable_value"] = LiteralCommand("V1")
        elif unknown is not None:
            kw["unknown_variable_value"] = unknown
        info = dict(method=method, unknown=unknown, **work.describe())
        rand = Hostile(index) if rng.random() < 0.5 else random.Random(index)
        n = {"random": rng.choice([1, 4, 8]), "cycle": 7, "combinatorial": None}[method]
        gen = unknown is None and not work.env and rng.random() < 0.4 and method != "cycle"
        if gen:
            g = core.call(lambda: self.Rand(work.manager(), seed=index, parser_config=cfg.real()) if method == "random"
                          else self.Comb(work.manager(), parser_config=cfg.real()))
            got = g if isinstance(g, core.Err) else core.call(lambda: g.generate(work.text, n))
            probe = lambda t: g.generate(t, 1)
        else:
            c = work.context(method, rand=rand, **kw)
            got = core.call(lambda: [str(p) for p in c.sample_prompts(work.text, n)])
            probe = lambda t: [str(p) for p in c.sample_prompts(t, 1)]
        if not isinstance(got, core.Err) and probe is not None:
            # what was assigned in one prompt is unknown to the next
            free = [v for v in NAMES + ["p"] if v not in work.env]
            left = core.call(lambda: probe("/".join(acc_text(cfg, v) for v in free)))
            self.expect_eq(left, ["/".join("free" for _ in free)], "a variable leaks into a later prompt", **info)
            self.rec.count("probed")
        if undefined:
            trees = [work.tree] + [t for v in work.wilds.values() for t, _ in v]
            if method == "random" or any(isinstance(x, Asg) and x.immediate for t in trees for x in walk(t)):
                # reported only when the access is reached
                if isinstance(got, core.Err):
                    self.rec.count("unknown_error")
                return
            self.expect(isinstance(got, core.Err), "access to an undefined variable not reported", got=got, **info)
            self.rec.count("unknown_error")
            return
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **info})
        if method == "random":
            self.expect_eq(len(got), n, "wrong number of prompts", **info)
            for p in got:
                self.expect(p in want, "prompt does not show the variables' values", prompt=repr(p), allowed=sorted(want)[:20],
                            **info)
        else:
            self.expect_eq(got, want, "prompts do not show the variables' values", **info)
        self.rec.count(method)
        if unknown is not None and any(isinstance(x, Acc) and x.default is None for x in walk(work.tree)):
            self.rec.count("unknown_value")
        self.notes(work, method)
        if any(isinstance(x, Acc) for x in walk(work.tree)):
            self.rec.distinct(work.key(), method)
        self.rec.sample({**info, "prompts": got[:3]})

    def directed_case(self, rng, index):
        k = rng.randrange(8)
        s = random.Random(index)
        q = "".join(rng.choice("abcdefgh") for _ in range(3))
        v = rng.choice(["v", "name", "a-b"])
        if k == 0:
            # immediate: all accesses of a prompt agree; ordinary: drawn anew
            from ..sem import manager
            m = rng.choice([2, 3, 6])
            val = rng.choice(["{a|b|c|d|e}", "__l__", "{__l__}", "{1$$__l__}", "${src}", "${nope:{a|b|c|d|e}}", "%{...$${a|b|c|d|e}}", "{a|{b|c}|__l__}",
                              "__${nope:l}__", "__l(q=1)__", "x{a|b|c|d|e}", "__l____l__"])
            wm = manager({"l": [(x, None) for x in "abcde"]})
            pre = "${src={a|b|c|d|e}}"
            q = rng.choice(["", "?"])
            t = pre + "${%s%s=!%s}" % (v, q, val) + " ".join(["${%s}" % v] * m)
            got = core.call(lambda: self.Rand(wm, seed=index).generate(t, 5))
            self.expect(not isinstance(got, core.Err) and all(len(set(p.split(" "))) == 1 for p in got),
                        "accesses of an immediate variable disagree", template=t, got=got)
            self.rec.count("agree")
            t = pre + "${%s%s=%s}" % (v, q, val) + " ".join(["${%s}" % v] * 4)
            got = core.call(lambda: self.Rand(wm, seed=index).generate(t, 40))
            self.expect(not isinstance(got, core.Err) and any(len(set(p.split(" "))) > 1 for p in got)
                        and len(set(got)) > 1, "an ordinary variable is not sampled anew", template=t, got=got)
            self.rec.count("anew")
        elif k == 1:
            # an immediate value may use the earlier value of the same variable
            t = "${%s=%s}${%s=!${%s}2}${%s}" % (v, q, v, v, v)
            for g in (self.Rand(), self.Comb()):
                got = core.call(lambda: g.generate(t, 1))
                self.expect_eq(got, [q + "2"], "immediate assignment from the earlier value", template=t)
            self.rec.count("self_immediate")
        elif k == 2:
            # no leak into other prompts, templates, options or callers
            from ..sem import manager
            wm = manager({"in": [("${%s=1}in${%s}" % (v, v), None), ("out${%s:none}" % v, None)]})
            t = "${%s=%s}${%s} __in__ ${%s}" % (v, q, v, v)
            g = self.Comb(wm)
            got = core.call(lambda: g.generate(t))
            self.expect_eq(got, [q + " in1 " + q, q + " out" + q + " " + q], "scope of an assignment", template=t)
            g2 = self.Rand(seed=1)
            core.call(lambda: g2.generate("${%s=%s}z${%s}" % (v, q, v), 2))
            for gg in (g, g2):
                got = core.call(lambda: gg.generate("${%s:free}" % v, 1))
                self.expect_eq(got, ["free"], "a variable leaks into a later prompt", variable=v)
            got = core.call(lambda: g.generate("__in____in__${%s:none}" % v))
            self.expect_eq(got, ["in1in1none", "in1outnonenone", "outnonein1none", "outnoneoutnonenone"],
                           "a variable leaks out of the value it is assigned in", variable=v)
            self.rec.count("no_leak")
        elif k in (3, 4):
            t = rng.choice(["${v=x ${v}}${v}", "${v={a|${v}}}z${v}", "${v=${w}}${w=${v}}q${v}", "${v=__r__}z${v}",
                            "${v=${w}}${w={${v}|${v}}}q${w}", "${v=${v:x}}${v} y"])
            from ..sem import manager
            wm = manager({"r": [("a ${v}", None), ("b ${v}", None)]})
            method = rng.choice(["random", "combinatorial", "cycle"])
            w = Work(Seq([]))
            got = core.call(lambda: [str(p) for p in w.context(method, wildcard_manager=wm, rand=s).sample_prompts(t, 60)])
            self.expect(isinstance(got, core.Err) and got.type == "RecursionError"
                        and "maximum recursion depth" not in str(got.exc),
                        "a variable defined by itself is not reported as recursive", template=t, method=method, got=got)
            self.rec.count("recursion")
        elif k == 6:
            # chains of variables of any length
            m = rng.choice([3, 8, 12, 20, 40])
            imm = "!" if rng.random() < 0.3 else ""
            asg = ["${c0=%s%s}" % (imm, q)] + ["${c%d=%s${c%d}%s}" % (i, imm, i - 1, rng.choice(["", "", "+"])) for i in range(1, m)]
            plus = sum("+" in a for a in asg)
            if not imm:
                rng.shuffle(asg)
            t = "".join(asg) + "z${c%d}" % (m - 1)
            w = Work(Seq([]))
            for method in ("random", "combinatorial", "cycle"):
                got = core.call(lambda: [str(p) for p in w.context(method, rand=s).sample_prompts(t, 1)])
                self.expect_eq(got, ["z" + q + "+" * plus], "value of a variable defined through others", template=t, method=method)
            # many variables at once, and names that differ in case only
            t = "".join("${d%d=%d}" % (i, i) for i in range(m)) + "".join("${d%d}," % i for i in range(m)) + "${D1:none}${dX=a}${dx=b}${DX=c}${dX}${dx}${DX}"
            for g in (self.Rand(), self.Comb()):
                got = core.call(lambda: g.generate(t, 1))
                self.expect_eq(got, ["".join("%d," % i for i in range(m)) + "noneabc"], "values of many variables", template=t)
            self.rec.count("chains")
        elif k == 7:
            # a command given for unknown variables is sampled as it would be elsewhere
            from dynamicprompts.parser.parse import parse
            opts = [q + str(i) for i in range(rng.choice([2, 3]))]
            cmd = parse(rng.choice(["{%s}", "{%s|%s}" % ("%s", q), "{1$$%s}"]) % "|".join(opts))
            opts = [str(o.value.literal) for o in cmd.variants]
            w = Work(Seq([]))
            t = "${%s}/${%sx}" % (v, v)
            both = [a + "/" + b for a in opts for b in opts]
            sample = lambda m, n: core.call(lambda: [str(p) for p in w.context(m, rand=s, unknown_variable_value=cmd).sample_prompts(t, n)])  # noqa: E731
            self.expect_eq(sample("combinatorial", None), both, "enumeration of unknown variables' values", template=t)
            self.expect_eq(sample("cycle", 7), [opts[i % len(opts)] + "/" + opts[i % len(opts)] for i in range(7)], "cycle of unknown variables' values", template=t)
            got = sample("random", 40 * len(both))
            self.expect(not isinstance(got, core.Err) and set(got) == set(both), "values of unknown variables", template=t, got=got)
            self.rec.count("unknown_command")
        else:
            # assignments leave no trace, at any place
            parts = ["one", "two", "three"]
            asg = "${%s=%s}" % (v, rng.choice(["{a|b}", "val", "x y "]))
            parts.insert(rng.randint(0, 3), asg)
            t = "".join(parts)
            for g in (self.Rand(), self.Comb()):
                got = core.call(lambda: g.generate(t, 2))
                self.expect(not isinstance(got, core.Err) and set(got) == {"onetwothree"}, "an assignment shows in the prompt",
                            template=t, got=got)
        self.rec.distinct("directed", k, t)

    def case(self, rng, index):
        if rng.random() < 0.88:
            self.model_case(rng, index)
        else:
            self.directed_case(rng, index)
