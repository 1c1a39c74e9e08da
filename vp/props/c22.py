"""Missing wildcards and broken files: contained, reported, and everything else as usual."""
import json
import logging
import os
import random
import shutil

import yaml

from .. import core
from ..fs import BROKEN, Pantry, meaning, observed
from ..model import TooBig, Undefined
from ..sem import BASE, FULL, Hostile, Work, build
from ..tpl import CUSTOM_CFGS, DEFAULT, Acc, Asg, Gen, Lit, Opt, Seq, Var, Wild, Wrap, walk

MISSING = ["missing", "no/such", "gone*", "empty", "d/empty2", "nö", "x?z"]


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.messages = []

    def emit(self, record):
        if record.levelno >= logging.WARNING and len(self.messages) < 5000:
            self.messages.append(record.getMessage())


class Monitor(core.Check):
    id = "C22"
    technique = "reference-model monitor with missing and empty wildcards injected, log observed; fault injection into wildcard directories"
    rule = ("a case is a template with missing or empty wildcards in generated places, or a wildcard directory with broken files among "
            "good ones; distinct by workload and method, or by directory; non-trivial: the missing wildcard or broken file is reached")
    quick = 5200
    thorough = 110000
    required = ("random", "combinatorial", "cyclical", "alone", "in_sequence", "as_option", "sole_option", "in_wildcard_value", "in_wrap",
                "in_variable", "empty_collection", "warnings_seen", "fallback_shown", "custom_wrap", "broken_json", "broken_yaml",
                "undecodable_text", "good_collections", "unreadable", "generated_beside", "partly_usable", "computed_path", "empty_text_file",
                "with_parameters", "generators", "memory_beside", "long_runs", "many_missing")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        from dynamicprompts.wildcards import WildcardManager
        self.Comb, self.Rand, self.Manager = CombinatorialPromptGenerator, RandomPromptGenerator, WildcardManager
        self.log = Capture()
        logging.getLogger().addHandler(self.log)
        logging.getLogger("dynamicprompts").setLevel(logging.WARNING)

    def directed(self):
        def long_runs(rng):
            from ..sem import manager
            wm = manager({"there": [("x", None), ("y", None)]})
            n = 2600
            for t, texts in (("__gone__", ["__gone__"]), ("a __gone__ b", ["a __gone__ b"]), ("{@p|__gone__}", ["p", "__gone__"]),
                             ("__there__ {2$$__gone__}", ["x __gone__", "y __gone__"]), ("{__gone__}", ["__gone__"])):
                for method in ("random", "cycle"):
                    ctx = Work(Seq([])).context(method, wildcard_manager=wm, rand=random.Random(4))
                    got = core.call(lambda: [str(p) for p in ctx.sample_prompts(t, n)])
                    self.expect(not isinstance(got, core.Err) and len(got) == n and set(got) == set(texts), "a missing wildcard ends or changes the "
                                "generation", template=t, method=method, got=got if isinstance(got, core.Err) else (len(got), sorted(set(got))[:5]))
            # nothing known at all, or nothing but empty collections
            for empty in ({}, {"e": []}):
                for make in (lambda: manager(dict(empty)), self.Manager):
                    for t, want in (("a __gone__ {b|c}", ["a __gone__ b", "a __gone__ c"]), ("__gone__", ["__gone__"]), ("{__gone__}", ["__gone__"]),
                                    ("{2$$__gone__} {b|c}", ["__gone__ b", "__gone__ c"]), ("{__gone__|b}", ["__gone__", "b"]), ("%{(...)$$__gone__}", ["(__gone__)"]),
                                    ("${v=__gone__}x${v}", ["x__gone__"]), ("__*__!", ["__*__!"]), ("__e__ z", ["__e__ z"])):
                        got = core.call(lambda: self.Comb(make()).generate(t))
                        self.expect_eq(got, want, "missing wildcards where none are known", template=t)
                        got = core.call(lambda: self.Rand(make(), seed=1).generate(t, 30))
                        self.expect_eq(set(got), set(want), "missing wildcards where none are known", template=t)
                        if "%" not in t:
                            ctx = Work(Seq([])).context("cycle", wildcard_manager=make())
                            got = core.call(lambda: [str(p) for p in ctx.sample_prompts(t, len(want) * 2)])
                            self.expect_eq(got, want * 2, "missing wildcards where none are known", template=t, method="cycle")
            for t in ("__gone__", "{__gone__|p}{q|r}", "__gone__/__gone__/{a|b}"):
                got = core.call(lambda: self.Rand(wm, seed=3).generate(t, n))
                self.expect(not isinstance(got, core.Err) and len(got) == n, "a missing wildcard ends the generation", template=t)
            self.rec.count("long_runs")

        def many_missing(rng):
            # every one of many missing wildcards is reported, and again when it is missing again
            from ..sem import manager
            for wm in (manager({"there": [("x", None)]}), self.Manager()):
                for rounds in range(2):
                    for t, method in (("__gone%d__", "random"), ("a {__gone%d__}", "combinatorial"), ("__gone%d__ b", "cycle"), ("{2$$__g/o%d__}", "random")):
                        for i in range(40):
                            self.log.messages.clear()
                            name = t[t.index("__") + 2:t.rindex("__")] % i
                            ctx = Work(Seq([])).context(method, wildcard_manager=wm)
                            got = core.call(lambda: [str(p) for p in ctx.sample_prompts(t % i, 1)])
                            want = (t % i).replace("{2$$", "").replace("{", "").replace("}", "")
                            self.expect_eq(got, [want], "prompt with a missing wildcard", template=t % i)
                            self.expect(any(name in m for m in self.log.messages), "a missing wildcard is not reported", name=name,
                                        template=t % i, method=method, round=rounds, warnings=list(self.log.messages))
            t = " ".join("__gone%d__" % i for i in range(130))
            for method in ("random", "combinatorial", "cycle"):
                self.log.messages.clear()
                ctx = Work(Seq([])).context(method)
                got = core.call(lambda: [str(p) for p in ctx.sample_prompts(t, 1)])
                self.expect_eq(got, [t], "prompt with many missing wildcards", method=method)
                unseen = [i for i in range(130) if not any("gone%d'" % i in m or 'gone%d"' % i in m or "gone%d_" % i in m or m.endswith("gone%d" % i)
                                                           for m in self.log.messages)]
                if unseen:
                    text = "\n".join(self.log.messages)
                    unseen = [i for i in unseen if not __import__("re").search("gone%d(?![0-9])" % i, text)]
                self.expect_eq(unseen, [], "missing wildcards are not reported", method=method)
            self.rec.count("many_missing")
        return [long_runs, many_missing]

    def case(self, rng, index):
        self.log.messages.clear()
        if rng.random() < 0.7:
            return self.missing(rng, index)
        top = os.path.join(self.scratch, f"b{index}")
        os.mkdir(top)
        try:
            self.broken(rng, index, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    # -- missing wildcards
    def inject(self, rng, work, method):
        """Puts references to missing wildcards into the workload's tree."""
        tree = work.tree
        wilds = {k: list(v) for k, v in work.wilds.items()}
        for n in MISSING[3:5]:
            if rng.random() < 0.6:
                wilds[n] = []
        used = []

        def ref():
            n = rng.choice(MISSING)
            used.append(n)
            if rng.random() < 0.1 and not work.cfg.has_paren:
                self.tags.add("with_parameters")
                return Wild([n], params=[("p", Seq([Lit("x")]))])
            if rng.random() < 0.1 and not work.cfg.has_paren and "/" in n:
                self.tags.add("computed_path")
                a, b = n.split("/")
                return Wild([a + "/", Var([Opt(Seq([Lit(b)]))])])
            return Wild([n])
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(7)
            if k == 0:
                tree = Seq([ref()])
                self.tags.add("alone")
            elif k == 1:
                tree.items.insert(rng.randint(0, len(tree.items)), ref())
                self.tags.add("in_sequence")
            elif k == 2:
                opts = [Opt(Seq([ref()])), Opt(Seq([Lit("other")])), Opt(Seq([Lit("third")]))][: rng.choice([2, 3])]
                rng.shuffle(opts)
                v = Var(opts)
                if rng.random() < 0.4:
                    v.bound = ("exact", 2, 2)
                tree.items.append(v)
                self.tags.add("as_option")
            elif k == 3:
                v = Var([Opt(Seq([ref()]))])
                if rng.random() < 0.5:
                    v.bound = (rng.choice(["exact", "range", "lower"]), rng.choice([1, 2]), rng.choice([2, 3]))
                tree.items.append(v)
                self.tags.add("sole_option")
            elif k == 4:
                name = f"m{len(wilds)}"
                wilds[name] = [(Seq([Lit("a "), ref()]), None), (Seq([Lit("b")]), None)]
                tree.items.append(Wild([name]))
                self.tags.add("in_wildcard_value")
            elif k == 5 and method != "cycle":
                tree.items.append(Wrap(Seq([Lit("by "), ref(), Lit(" ...")]), Seq([Lit("in")])) if rng.random() < .5 else
                                  Wrap(Seq([Lit("by ...")]), Seq([ref()])))
                self.tags.add("in_wrap")
            else:
                n = f"mv{len(used)}"
                tree.items = [Asg(n, Seq([ref()]))] + tree.items + [Lit(" "), Acc(n)]
                self.tags.add("in_variable")
        if not used:
            raise core.Skip()
        if any(n in wilds and not wilds[n] for n in used):
            self.tags.add("empty_collection")
        w = Work(Gen.merge(tree), wilds, work.env, work.cfg)
        return w, used

    def missing(self, rng, index):
        method = rng.choice(["random", "combinatorial", "cycle"])
        cfg = rng.choice(CUSTOM_CFGS) if rng.random() < 0.15 else DEFAULT
        n = rng.choice([1, 3, 6])
        feat = {"var", "wild", "acc", "bounds"} if rng.random() < 0.7 else BASE - {"weights"} | {"asg"}
        for _ in range(30):
            self.tags = set()
            base = build(rng, feat=feat, cfg=cfg, depth=rng.choice([0, 1, 1]), max_items=2, zero=False, weighted=0)
            work, used = self.inject(rng, base, method)
            model = work.model(cap=500)
            try:
                if method == "random":
                    want = model.lang(work.tree, work.env)
                elif method == "combinatorial":
                    want = model.comb(work.tree, work.env)
                else:
                    want = [model.cyc(work.tree, work.env, i) for i in range(n)]
            except (TooBig, Undefined):
                continue
            break
        else:
            raise core.Skip()
        info = dict(method=method, missing=used, **work.describe())
        self.context = info
        by_generator = method != "cycle" and cfg is DEFAULT and not work.env and rng.random() < 0.4
        rand = Hostile(index) if rng.random() < 0.4 else random.Random(index)

        def run():
            if by_generator and method == "random":
                return self.Rand(work.manager(), seed=index).generate(work.text, n)
            if by_generator:
                return list(self.Comb(work.manager()).generate(work.text, len(want) + 2))
            return [str(p) for p in work.context(method, rand=rand).sample_prompts(work.text, None if method == "combinatorial" else n)]
        got = core.call(run)
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **{k: core.show(v) for k, v in info.items()}})
        if method == "random":
            self.expect_eq(len(got), n, "wrong number of prompts", **info)
            for p in got:
                self.expect(p in want, "not a prompt the template denotes with the wildcard left as it is", prompt=repr(p),
                            allowed=sorted(want)[:20], **info)
        else:
            self.expect_eq(got, want, "not the prompts the template denotes with the wildcard left as it is", **info)
        ww = cfg.wildcard_wrap
        for name in set(used):
            if any(f"{ww}{name}{ww}" in p for p in got):
                self.rec.count("fallback_shown")
                self.expect(any(name in m for m in self.log.messages), "a missing wildcard is not reported", name=name,
                            warnings=self.log.messages[:5], **info)
                self.rec.count("warnings_seen")
        for t in self.tags:
            self.rec.count(t)
        self.rec.count({"cycle": "cyclical"}.get(method, method))
        if by_generator:
            self.rec.count("generators")
        if cfg is not DEFAULT:
            self.rec.count("custom_wrap")
        self.rec.distinct(work.key(), method)
        self.rec.sample({**info, "prompts": got[:2]})

    # -- broken files
    def broken(self, rng, index, top):
        from pathlib import Path
        p = Pantry(rng, os.path.join(top, "root"), broken=rng.choice([1, 1, 2, 4]), hidden=False)
        want = dict(p.want)
        d = rng.choice(p.dirs)
        for b in p.broken:
            self.rec.count("broken_files")
        for f in os.listdir(p.path):
            if f.startswith("broken"):
                self.rec.count("broken_" + f.rsplit(".", 1)[1])
        if rng.random() < 0.4:
            for name in rng.sample(["lost.json", "loop.yaml", "dir.json", "dir2.yaml"], 2):
                q = os.path.join(p.path, d, name)
                if os.path.lexists(q):
                    continue
                if name.startswith("lost"):
                    os.symlink(os.path.join(top, "nowhere"), q)
                elif name.startswith("loop"):
                    os.symlink(q, q)
                else:
                    os.mkdir(q)
                self.rec.count("unreadable")
        if rng.random() < 0.5:
            bad = rng.choice([b"\xff", b"\xc3", b"\xe9t\xe9", b"\xf0\x9f", b"\x80\x80", b"\xed\xa0\x80"])
            parts = [b"before", bad + b"inner" + bad, b"after", bad]
            rng.shuffle(parts)
            vals = []
            for x in parts:
                t = x.decode("utf-8", "ignore").strip()
                vals.append(t)
            name = (d + "/" if d else "") + "undecodable"
            with open(os.path.join(p.path, d, "undecodable.txt"), "wb") as f:
                f.write(b"\n".join(parts) + b"\n")
            want[name] = None
            clean = ["before", "after"]
            self.rec.count("undecodable_text")
        else:
            name = None
        if rng.random() < 0.3:
            en = (d + "/" if d else "") + "nothing"
            if en not in want:
                with open(os.path.join(p.path, d, "nothing.txt"), "wb") as f:
                    f.write(rng.choice([b"", b"\n\n", b"# only\n# comments", b"\xff\n"]))
                want[en] = []
                self.rec.count("empty_text_file")
        if rng.random() < 0.6:
            # one file: entries that cannot be used among ones that can
            data, n = {}, rng.choice([2, 3, 5])
            where = data
            pre = (d + "/" if d else "") + "part"
            names = []
            if rng.random() < 0.4:
                where = data["part1"] = {}
                names = ["part1"]
            bad = {rng.randrange(n)} | {i for i in range(n) if rng.random() < 0.2}
            for i in range(n):
                key = f"part{i}ok" if i not in bad else f"part{i}no"
                if i in bad:
                    w = rng.choice([[1], {"a": 1}, None, "heavy", "", "1.2.3", [], {}, "-", [[]]])
                    where[key] = [x for x in ("first", {"text": "x", "weight": w}, "last") if rng.random() < 0.7 or isinstance(x, dict)]
                    if rng.random() < 0.15:
                        where[key] = rng.choice([7, 1.5, True])
                else:
                    where[key] = [f"g{i}a", f"g{i}b"]
                    want["/".join(([d] if d else []) + names + [key])] = [(f"g{i}a", None), (f"g{i}b", None)]
            text = yaml.safe_dump(data, sort_keys=False) if (yam := rng.random() < 0.5) else json.dumps(data)
            with open(os.path.join(p.path, d, "partly" + (".yaml" if yam else ".json")), "w") as f:
                f.write(text)
            self.rec.count("partly_usable")
        extra = {}
        if rng.random() < 0.3:
            extra = {"beside/m": ["one", "two"]}
            arg = {"root_map": {"": [Path(p.path)], "mem": [extra]}}
            self.rec.count("memory_beside")
        else:
            arg = {"path": p.path}
        info = dict(broken=p.broken, collections=sorted(want), files=sorted(os.listdir(p.path)))
        self.context = info
        wm = core.call(lambda: self.Manager(**arg))
        if isinstance(wm, core.Err):
            raise core.Violation("manager cannot be created", {"got": repr(wm)})
        if rng.random() < 0.5:
            got = core.call(wm.get_collection_names)
            self.expect(not isinstance(got, core.Err) and set(want) | {f"mem/{n}" for n in extra} <= set(got), "good collections are missing",
                        got=got, lacking=sorted(set(want) - set(got)) if not isinstance(got, core.Err) else "", **info)
        wm.sort_wildcards = wm.dedup_wildcards = False
        for n, vals in want.items():
            got = core.call(lambda: observed(wm.get_file(n).get_values()))
            if vals is None:
                self.expect(not isinstance(got, core.Err) and [t for t, _ in got if t in clean] ==
                            [t for t in (x.decode("utf-8", "ignore") for x in parts) if t in clean],
                            "decodable lines of a text file are lost", got=got, **info)
                continue
            self.expect_eq(got, meaning(vals), "values of a good collection", name=n, **info)
            self.rec.count("good_collections")
        got = core.call(lambda: len(wm.get_values("*")))
        self.expect(not isinstance(got, core.Err) and got >= sum(len(v or ()) for v in want.values()),
                    "looking up everything fails beside a broken file", got=got, **info)
        simple = [n for n, v in want.items() if v and all(c.isalnum() or c == "/" for c in n) and
                  all(t.replace(" ", "").isalnum() and w in (None, 1.0) for t, w in v)]
        if simple:
            n = rng.choice(simple)
            got = core.call(lambda: list(self.Comb(wm).generate(f"x __{n}__", 100)))
            self.expect_eq(got, [f"x {t}" for t, _ in want[n]], "prompts from a good collection", name=n, **info)
            self.rec.count("generated_beside")
        self.rec.distinct(sorted(map(repr, want.items())), p.broken)
