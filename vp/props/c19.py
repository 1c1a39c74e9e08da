"""Containment: every file the library opens while bait files lie all around the configured roots."""
import os
import random
import shutil
import sys
import sysconfig
from pathlib import Path

from .. import core

BAIT = "BAIT"
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ACTIONS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown",
           "os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.fork", "socket.connect", "socket.getaddrinfo",
           "shutil.copyfile", "shutil.move", "shutil.rmtree", "urllib.Request", "os.utime"}
_log = None


def _hook(event, args):
    if _log is not None and core.in_sut() and (event == "open" or event in ACTIONS):
        _log.append((event, args))


class Monitor(core.Check):
    id = "C19"
    technique = "file-access monitor (interpreter audit events) with bait files around the roots"
    rule = ("a case is a root configuration with hostile names, patterns and templates; distinct by configuration and name; "
            "non-trivial: at least one lookup or generation ran to its end")
    quick = 2000
    thorough = 60000
    required = ("opened_below_roots", "lookups", "dotdot", "absolute", "home", "prefix_sibling", "templates", "computed_paths",
                "hostile_values", "no_root", "memory_only", "file_as_root", "missing_root", "relative_root", "root_map", "jinja",
                "jinja_include", "yaml_tags", "hidden", "values_found", "nul", "get_file", "match_collections", "encoded", "cwd_bait",
                "cyclical", "after_clear", "many_collections")

    def setup(self):
        import dynamicprompts.generators as G
        from dynamicprompts.wildcards import WildcardManager
        import jinja2  # noqa: F401
        import yaml  # noqa: F401
        self.G, self.Manager = G, WildcardManager
        src = os.path.realpath(os.path.dirname(sys.modules["dynamicprompts"].__file__))
        self.own = tuple({os.path.realpath(p) + "/" for p in
                          list(sysconfig.get_paths().values()) + [sys.prefix, sys.base_prefix, src, sys.pycache_prefix,
                                                                  os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
                          if p and os.path.realpath(p) not in ("/", "/usr")})
        self.cwd = os.getcwd()
        sys.addaudithook(_hook)

    def case(self, rng, index):
        global _log
        top = os.path.join(self.scratch, f"t{index}")
        os.mkdir(top)
        home = os.environ.get("HOME")
        try:
            self.one(rng, index, top)
        finally:
            _log = None
            os.chdir(self.cwd)
            if home is not None:
                os.environ["HOME"] = home
            shutil.rmtree(top, ignore_errors=True)

    def bait(self, d, *extra):
        os.makedirs(d, exist_ok=True)
        for n in ("secret.txt", "secret.json", "secret.yaml", "secret", "a.txt", "wildcards.txt", *extra):
            with open(os.path.join(d, n), "w") as f:
                f.write(f'["{BAIT}"]\n' if n.endswith("json") else f"secret: [{BAIT}]\n" if n.endswith("yaml") else f"{BAIT}\n")

    def names(self, rng, top, root):
        """A hostile name, and its kind."""
        secret = os.path.join(top, "outside", "secret")
        rel = "../outside/secret"
        k = rng.randrange(13)
        deep = rng.choice(["sub", "sub/deep", "nosuch", "."])
        if k == 0:
            return rng.choice([rel, rel + ".txt", "../secret", "../rootx/secret", "..", "../*", "../**", "../out*/sec*", "../cwd/secret"]), "dotdot"
        if k == 1:
            up = "/".join([".."] * (deep.count("/") + 2))
            return f"{deep}/{up}/outside/secret", "dotdot"
        if k == 2:
            return rng.choice([secret, secret + ".txt", "/" + secret, os.path.join(top, "outside", "*"), os.path.join(top, "**"),
                               secret.replace("/", "\\")]), "absolute"
        if k == 3:
            return rng.choice(["~/secret", "~root/secret", "$HOME/secret", "${HOME}/secret", "%HOME%/secret", "~/*"]), "home"
        if k == 4:
            return rng.choice(["x/secret", "rootx/secret", "root/../rootx/secret", "x/*", "*secret", "../root*/secret"]), "prefix_sibling"
        if k == 5:
            return rng.choice(["..\\outside\\secret", "..\\..\\", "sub\\..\\..\\outside\\secret", "./../outside/secret", "..//outside//secret",
                               "....//outside/secret", ".../secret", ". ./outside/secret"]), "dotdot"
        if k == 6:
            return rng.choice(["%2e%2e/outside/secret", "%2e%2e%2foutside%2fsecret", "\uff0e\uff0e/outside/secret", "..\u2215outside\u2215secret",
                               "\u2024\u2024/outside/secret", "file:///" + secret, "file:" + secret, "&#46;&#46;/outside/secret"]), "encoded"
        if k == 7:
            return rng.choice(["\0" + rel, "a\0/../outside/secret", "secret\0.txt", "\0"]), "nul"
        if k == 8:
            return rng.choice(["secret", "secret.txt", "./secret", "wildcards", "*", "**", "**/secret", "sec*", "?ecret", "[s]ecret", "cwd/secret",
                               "outside/secret"]), "cwd_bait"
        if k == 9:
            return rng.choice([".hidden/secret", ".git/secret", "sub/.hid/secret", ".*/secret", "*/.hid/secret", ".hidden/*", ".[h]idden/*"]), "hidden"
        if k == 10:
            return rng.choice(["**/../**", "*/../../*", "[.][.]/outside/secret", "[.].[/]outside[/]secret", "?./outside/secret", "??/outside/secret",
                               "{..,x}/outside/secret", "?[.]/secret"]), "globs"
        if k == 12 and rng.random() < 0.6:
            return rng.choice(["a..b", "..", "...", "a../b", "sub/..x", "sub/../c", "*..*", "a..?", "sub/..", "..x"]), "dotdot"
        if k == 11:
            return "/".join([".."] * rng.choice([3, 8, 20])) + rng.choice([secret, "/etc/hostname", "/proc/self/environ"]), "dotdot"
        return rng.choice(["a", "sub/b", "s", "st/x", "*", "sub/*", "a*"]), "plain"

    def roots(self, rng, top):
        """A manager maker, the directories it may read, the kind"""
        root = os.path.join(top, "root")
        os.makedirs(os.path.join(root, "sub", "deep"))
        hostile = rng.choice(["__../outside/secret__", f"__{top}/outside/secret__", "__secret__", "${p=..}__${p}/outside/secret__", "__{..|.}/secret__",
                              "__~/secret__", "__nosuch(x=../outside/secret)__"])
        with open(os.path.join(root, "a.txt"), "w") as f:
            f.write(f"inside a\n{hostile}\n")
        for n in ("a..b.txt", "...txt", "sub/..x.txt"):
            with open(os.path.join(root, n), "w") as f:
                f.write("inside dots\n")
        with open(os.path.join(root, "sub", "b.txt"), "w") as f:
            f.write("inside b\n__a__\n")
        if rng.random() < 0.08:
            self.rec.count("many_collections")
            for i in range(rng.choice([25, 130])):
                with open(os.path.join(root, rng.choice(["", "sub"]), "many%03d.txt" % i), "w") as f:
                    f.write("inside\n" * rng.choice([1, 5, 300]))
        y = rng.choice([
            "s: [inside s]\nst: {x: [inside x, '__../outside/secret__']}\n",
            f"s: [inside s]\ninc: !include ../outside/secret.txt\n",
            f"s: !!python/object/apply:builtins.open ['{top}/outside/secret.txt']\n",
            f"'../outside/secret': [inside s]\n's': [x]\n",
            f"s: ['@{top}/outside/secret.txt', 'file://{top}/outside/secret.txt', '../outside/secret.txt']\n",
        ])
        if "!" in y:
            self.rec.count("yaml_tags")
        with open(os.path.join(root, rng.choice(["p.yaml", "sub/p.yaml"])), "w") as f:
            f.write(y)
        for h in (".hidden", ".git", "sub/.hid"):
            self.bait(os.path.join(root, h))
        for d in ("", "outside", "rootx", "cwd", "home", "root.txt.d"):
            self.bait(os.path.join(top, d))
        os.chdir(os.path.join(top, "cwd"))
        os.environ["HOME"] = os.path.join(top, "home")
        k = rng.randrange(9)
        if k == 0:
            arg = rng.choice([None, "", None])
            self.rec.count("no_root")
            return (lambda: self.Manager(arg)), []
        if k == 1:
            self.rec.count("memory_only")
            return (lambda: self.Manager(root_map={"": [{"a": ["inside a", hostile], "sub/b": ["x", "__a__"],
                                                            "a..b": ["y"], "..": ["y"],
                                                            "path": [f"{top}/outside/secret.txt"], "rel": ["../outside/secret.txt"],
                                                            "url": [f"file://{top}/outside/secret.txt"], "dir": [f"{top}/outside"], "sub": {"..": {"c": ["y"]}}}]})), []
        if k == 2:
            bad = rng.choice([os.path.join(top, "secret.txt"), os.path.join(top, "outside", "secret.yaml")])
            self.rec.count("file_as_root")
            if rng.random() < 0.5:
                return (lambda: self.Manager(bad)), []
            return (lambda: self.Manager(root_map={"": [Path(bad)], "r": [Path(root)]})), [root]
        if k == 3:
            self.rec.count("missing_root")
            return (lambda: self.Manager(os.path.join(top, "absent"))), []
        if k == 4:
            self.rec.count("relative_root")
            r = rng.choice(["../root", "../cwd/../root", "../root/"])
            return (lambda: self.Manager(r)), [root]
        if k == 5:
            self.rec.count("root_map")
            sub = os.path.join(root, "sub")
            p = rng.choice(["", "pre", "..", "../outside", "~"])
            return (lambda: self.Manager(root_map={p: [Path(sub), {"m": ["x", hostile]}]})), [sub]
        if k == 6:
            return (lambda: self.Manager(Path(root))), [root]
        return (lambda: self.Manager(root)), [root]

    def verify(self, allowed, info):
        """Judges the recorded events and clears them."""
        events, _log[:] = list(_log), []
        for event, args in events:
            if event != "open":
                raise core.Violation("a side effect while resolving wildcards", {"event": event, "args": core.show(args),
                                                                                  **{k: core.show(v) for k, v in info.items()}})
            path, mode, flags = args
            if isinstance(path, int):
                continue
            p = os.path.abspath(os.fsdecode(path))
            if any(p.startswith(os.path.join(r, "")) for r in allowed):
                parts = os.path.relpath(p, next(r for r in allowed if p.startswith(os.path.join(r, "")))).split("/")
                self.expect(not any(x.startswith(".") for x in parts[:-1]), "opened a file in a hidden directory", file=p, **info)
                wr = (mode is not None and any(c in str(mode) for c in "wax+")) or (flags is not None and flags & WRITES)
                self.expect(not wr, "opened a wildcard file for writing", file=p, mode=mode, **info)
                self.rec.count("opened_below_roots")
            elif os.path.realpath(p).startswith(self.own):
                self.rec.count("opened_own_code")
            else:
                raise core.Violation("opened a file outside the configured roots",
                                     {"file": p, "mode": str(mode), "roots": core.show(allowed), **{k: core.show(v) for k, v in info.items()}})

    def clean(self, got, info):
        self.expect(BAIT not in repr(got), "content from outside the roots is shown", got=got, **info)

    def one(self, rng, index, top):
        global _log
        make, allowed = self.roots(rng, top)
        _log = []
        wm = core.call(make)
        if isinstance(wm, core.Err):
            raise core.Violation("manager cannot be created", {"got": repr(wm)})
        ran = 0
        for _ in range(rng.choice([3, 6, 10])):
            name, kind = self.names(rng, top, None)
            info = dict(name=repr(name), kind=kind, roots=allowed, cwd=os.getcwd())
            self.context = info
            op = rng.randrange(7)
            asked = name if rng.random() < 0.6 else f"__{name}__"
            dots = ".." in name.replace("\\", "/")
            if op == 0:
                got = core.call(lambda: [str(v) for v in wm.get_values(asked)])
                if dots and not isinstance(got, core.Err):
                    self.expect_eq(got, [], "a name containing .. matches something", **info)
                elif dots:
                    raise core.Violation("lookup failed", {"got": repr(got), **{k: core.show(v) for k, v in info.items()}})
                if not isinstance(got, core.Err):
                    self.rec.count("lookups")
                    ran += 1
                    if got:
                        self.rec.count("values_found")
            elif op == 1:
                got = core.call(lambda: [[str(v) for v in c.get_values()] for c in wm.match_collections(asked)])
                if dots:
                    self.expect_eq(got, [], "a name containing .. matches something", **info)
                self.rec.count("match_collections")
            elif op == 2:
                got = core.call(lambda: [str(v) for v in wm.get_file(asked).get_values()])
                if dots:
                    self.expect(isinstance(got, core.Err), "a name containing .. gives a collection", got=got, **info)
                self.rec.count("get_file")
            elif op == 3:
                q = repr(name)
                t, n = rng.choice([("{%% for x in wildcard(%s) %%}{%% prompt %%}{{ x }}{%% endprompt %%}{%% endfor %%}" % q, 1),
                                   ("{{ choice(wildcard(%s)) }}" % q, 2), ("{{ random_sample('__' ~ %s ~ '__') }}" % q, 1),
                                   ("{{ all_combinations('a __' ~ %s ~ '__') }}" % q, 1),
                                   ("{%% include %s %%}" % q, 1), ("{%% import %s as x %%}{{ x }}" % q, 1), ("{%% extends %s %%}" % q, 1)])
                if "include" in t or "import" in t or "extends" in t:
                    self.rec.count("jinja_include")
                got = core.call(lambda: self.G.JinjaGenerator(wm).generate(t, n))
                self.rec.count("jinja")
            else:
                t = self.template(rng, name)
                if t is None:
                    continue
                m = rng.randrange(3)
                rand = random.Random(index)
                if m == 0:
                    got = core.call(lambda: self.G.RandomPromptGenerator(wm, seed=index).generate(t, 4))
                elif m == 1:
                    got = core.call(lambda: list(self.G.CombinatorialPromptGenerator(wm).generate(t, 12)))
                else:
                    from dynamicprompts.enums import SamplingMethod
                    from dynamicprompts.sampling_context import SamplingContext
                    got = core.call(lambda: [str(p) for p in SamplingContext(
                        default_sampling_method=SamplingMethod.CYCLICAL, wildcard_manager=wm, rand=rand).sample_prompts(t, 6)])
                    self.rec.count("cyclical")
                if not isinstance(got, core.Err):
                    ran += 1
                    self.rec.count("templates")
            self.clean(got, info)
            self.verify(allowed, info)
            self.rec.count(kind)
            self.rec.distinct(repr(make)[:30], len(allowed), name, op)
            if rng.random() < 0.15:
                core.call(wm.clear_cache)
                self.rec.count("after_clear")
        names = core.call(lambda: sorted(wm.get_collection_names()))
        self.clean(names, dict(what="collection names"))
        self.expect(isinstance(names, core.Err) or not any("secret" in n and "outside" not in n for n in names),
                    "a collection from outside the roots is listed", names=names, roots=allowed)
        everything = core.call(lambda: [[str(v) for v in wm.get_file(n).get_values()] for n in names if ".." not in n])
        self.clean(everything, dict(what="all values", roots=allowed))
        self.verify(allowed, dict(what="all values"))
        _log = None
        self.rec.sample({"roots": allowed, "names": names, "operations_completed": ran})

    def template(self, rng, name):
        if any(c in name for c in "{}$()\0|") or name.endswith("_"):
            return None
        k = rng.randrange(6)
        if k == 0:
            return f"x __{name}__ y"
        if k == 1:
            return "{2$$__%s__|b|c}" % name
        if k == 2:
            self.rec.count("computed_paths")
            i = rng.randrange(len(name) + 1)
            return "${p=%s}__${p}%s__" % (name[:i] or "a", name[i:])
        if k == 3:
            self.rec.count("computed_paths")
            i = rng.randrange(len(name) + 1)
            return "z __%s{%s|%s}__" % (name[:i], name[i:] or "b", name[i:] or "b")
        if k == 4:
            self.rec.count("hostile_values")
            return "__a__ __sub/b__"
        return "%%{by __%s__ ... $$ __a__}" % name
