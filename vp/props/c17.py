"""Collections found under the roots: names and values against the files as generated."""
import os
import shutil
from pathlib import Path

from .. import core
from ..fs import LINES, Pantry, meaning, observed


# names of directories that mean nothing special
ODD = ["__x", "__pycache__", "_", "node_modules", "~x", "x~", "CON", "#x", "$x", "(x)", "tmp", "build", "x.yaml", "x.json", "test", "wildcards"]


class Monitor(core.Check):
    id = "C17"
    technique = "differential monitor: listed collections and their values against the generated directory tree"
    rule = ("a case is a generated set of root directories and in-memory collections; every listed name and every value is "
            "compared; distinct by file system content; non-trivial: at least two collections")
    quick = 9000
    thorough = 250000
    required = ("text_files", "structured_entries", "in_memory", "prefixes", "nested", "several_roots", "empty_files",
                "weighted_items", "by_path", "by_get_file", "tree_nodes", "missing_root", "unknown_name", "string_path",
                "directories_below")

    def setup(self):
        from dynamicprompts.wildcards import WildcardManager
        self.Manager = WildcardManager

    def directed(self):
        def crowded(rng):
            # many files in one directory, many directories, many entries
            top = os.path.join(self.scratch, "crowd")
            os.mkdir(top)
            try:
                want = {}
                for i in range(330):
                    want["f%03d" % i] = ["v%d" % i]
                    with open(os.path.join(top, "f%03d.txt" % i), "w") as f:
                        f.write("v%d\n" % i)
                for i in range(140):
                    d = os.path.join(top, "dir%03d" % i)
                    os.mkdir(d)
                    want["dir%03d/a" % i] = ["d%d" % i]
                    with open(os.path.join(d, "a.txt"), "w") as f:
                        f.write("d%d\n" % i)
                for i in range(40):
                    with open(os.path.join(top, "y%02d.yaml" % i), "w") as f:
                        f.write("y%02d_k: [z%d]\n" % (i, i))
                    want["y%02d_k" % i] = ["z%d" % i]
                with open(os.path.join(top, "many.json"), "w") as f:
                    import json
                    json.dump({"k%03d" % i: ["j%d" % i, "i"] for i in range(400)}, f)
                want.update({"k%03d" % i: ["j%d" % i, "i"] for i in range(400)})
                deep = os.path.join(top, *("n%d" % i for i in range(40)))
                os.makedirs(deep)
                with open(os.path.join(deep, "leaf.txt"), "w") as f:
                    f.write("bottom\n")
                want["/".join("n%d" % i for i in range(40)) + "/leaf"] = ["bottom"]
                with open(os.path.join(top, "long.txt"), "w") as f:
                    f.write("".join("line %d\n" % i for i in range(5000)) + "x" * 70000)
                want["long"] = ["line %d" % i for i in range(5000)] + ["x" * 70000]
                wm = core.call(self.Manager, Path(top))
                got = core.call(wm.get_collection_names)
                self.expect(not isinstance(got, core.Err) and set(got) == set(want), "not exactly the collections under the roots",
                            lacking=sorted(set(want) - set(got))[:20], extra=sorted(set(got) - set(want))[:20])
                wm.sort_wildcards = wm.dedup_wildcards = False
                for n, v in want.items():
                    got = core.call(lambda: observed(wm.get_values(n)))
                    if got != [(x, 1.0) for x in v]:
                        self.expect_eq((n, repr(got)[:300]), (n, repr(v)[:300]), "values looked up by name")
                self.rec.count("crowded")
            finally:
                shutil.rmtree(top, ignore_errors=True)
        return [crowded]

    def case(self, rng, index):
        top = os.path.join(self.scratch, f"c{index}")
        os.mkdir(top)
        try:
            self.one(rng, index, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def one(self, rng, index, top):
        want = {}
        single = rng.random() < 0.4
        if single:
            p = Pantry(rng, os.path.join(top, rng.choice(["root", ".hiddenroot", "with space", "r.txt", "日本"])), odd=ODD)
            want = dict(p.want)
            arg = p.path if rng.random() < 0.5 else Path(p.path)
            if isinstance(arg, str):
                self.rec.count("string_path")
                if rng.random() < 0.3:
                    arg += "/"
            make = lambda: self.Manager(arg)  # noqa: E731
            self.rec.count("by_path")
            shown = [p.path]
        else:
            root_map = {}
            shown = []
            for r in range(rng.choice([1, 2, 3])):
                prefix = rng.choice(["", "pre", "pre/fix", "lib%d" % r, "é", "dot.ted"])
                if prefix in root_map:
                    continue
                items = []
                for _ in range(rng.choice([1, 1, 2])):
                    full = lambda n: (prefix.strip("/") + "/" + n).strip("/")  # noqa: E731
                    if rng.random() < 0.6:
                        p = Pantry(rng, os.path.join(top, f"r{r}_{len(os.listdir(top))}"), odd=ODD)
                        new = {full(n): v for n, v in p.want.items()}
                        it = Path(p.path)
                    else:
                        it, new = {}, {}
                        for n in rng.sample(["m1", "m2", "d/m3", "a", "w w", "deep/er/m4", " lead", "trail ", "d /m5", "d/ m6", "M1", "x.txt", "y.json/z"], rng.choice([1, 2])):
                            vals = [rng.choice(LINES + [" pad ", "5"]) for _ in range(rng.choice([0, 1, 3]))]
                            kind = rng.random()
                            if kind < 0.6:
                                it[n] = list(vals)
                            elif kind < 0.7:
                                it[n] = [7] + vals
                                vals = ["7"] + vals
                            else:
                                from ..sem import make_collection
                                it[n] = make_collection([(v, None) for v in vals])
                            new[full(n)] = [(v, None) for v in vals]
                        self.rec.count("in_memory")
                    if set(new) & set(want):
                        # of items with the same name, the last one counts
                        if rng.random() < 0.5:
                            continue
                        self.rec.count("replaced")
                    want.update(new)
                    items.append(it)
                    shown.append((prefix, it if isinstance(it, dict) else str(it)))
                if rng.random() < 0.1:
                    items.append(Path(top) / "does not exist")
                    self.rec.count("missing_root")
                root_map[prefix] = items
                if prefix:
                    self.rec.count("prefixes")
                if len(root_map) > 1:
                    self.rec.count("several_roots")
            make = lambda: self.Manager(root_map=root_map)  # noqa: E731
        files = []
        for d, _, fs in os.walk(top):
            for f in fs:
                with open(os.path.join(d, f), "rb") as fh:
                    files.append((os.path.relpath(os.path.join(d, f), top), fh.read(400)))
        info = dict(roots=shown, files=sorted(files))
        self.context = info
        wm = core.call(make)
        if isinstance(wm, core.Err):
            raise core.Violation("manager cannot be created", {"got": repr(wm), **{k: core.show(v) for k, v in info.items()}})
        got = core.call(wm.get_collection_names)
        self.expect(not isinstance(got, core.Err) and set(got) == set(want), "not exactly the collections under the roots",
                    extra=sorted(set(got) - set(want)) if not isinstance(got, core.Err) else got,
                    lacking=sorted(set(want) - set(got)) if not isinstance(got, core.Err) else "", **info)
        wm.sort_wildcards = False
        wm.dedup_wildcards = False
        for name, vals in want.items():
            # a name that begins as a reference does is only found when wrapped
            ref = f"__{name}__" if name.startswith("__") else name
            f = core.call(lambda: wm.get_file(ref))
            if isinstance(f, core.Err):
                raise core.Violation("listed collection cannot be opened", {"name": name, "got": repr(f)})
            got = core.call(lambda: observed(f.get_values()))
            self.expect_eq(got, meaning(vals), "values of a collection", name=name, **info)
            self.rec.count("by_get_file")
            if not any(c in name for c in "*?[]") and ".." not in name and not name.startswith("__") and name and \
                    not name.endswith("_") and vals:
                got = core.call(lambda: observed(wm.get_values(name)))
                self.expect_eq(got, meaning(vals), "values looked up by name", name=name, **info)
            if any(w is None for _, w in vals):
                self.rec.count("text_files")
            else:
                self.rec.count("structured_entries")
                if any(w != 1.0 for _, w in vals):
                    self.rec.count("weighted_items")
            if not vals:
                self.rec.count("empty_files")
            if "/" in name:
                self.rec.count("nested")
        tree = core.call(lambda: {n: observed(c.get_values()) for n, c in wm.tree.root.walk_items()})
        self.expect_eq(tree, {n: meaning(v) for n, v in want.items()}, "the tree differs from the collections", **info)
        names = core.call(lambda: sorted(wm.tree.root.walk_full_names()))
        self.expect_eq(names, sorted(want), "names in the tree", **info)
        self.rec.count("tree_nodes")
        # intermediate directories are not collections
        for name in list(want)[:3]:
            up = name.rsplit("/", 1)[0]
            if up != name and up not in want:
                got = core.call(lambda: wm.get_file(up))
                self.expect(isinstance(got, core.Err), "a directory is treated as a collection", name=up, **info)
                self.rec.count("directories_below")
        got = core.call(lambda: wm.get_file("no/such/collection"))
        self.expect(isinstance(got, core.Err), "an unknown name gives a collection", got=got, **info)
        self.rec.count("unknown_name")
        if len(want) > 1:
            self.rec.distinct(sorted((n, repr(v)) for n, v in want.items()))
        self.rec.sample({"files": [f for f, _ in sorted(files)][:8], "collections": sorted(want)[:8]})
