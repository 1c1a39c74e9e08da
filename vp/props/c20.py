"""Histories of lookups, rewrites, option changes and cache clears, judged step by step against a model without caches."""
import json
import os
import shutil
from collections import Counter
from pathlib import Path

from .. import core
from ..fs import observed
from .c18 import glob

NAMES = ["a", "b", "ab", "d/a", "d/c", "d/e/a", "z", "é", "a_", "_b", "A", "d/A", "a.b", "a-b"]
STRUCT = ["s1", "d/s2"]
WORDS = ["red", "green", "blue", "a cat", "é", "Zoo", "10", "9", "x, y", "q"]


class World:
    """Files of one root, the collections they define now, and everything they defined since the last clear."""

    def __init__(self, path, rng):
        self.path = path
        self.now = {}
        self.rng = rng
        self.serial = 0
        self.managers = []
        os.makedirs(path)
        for n in NAMES:
            if rng.random() < 0.6:
                self.write(n)
        for n in STRUCT:
            if rng.random() < 0.5:
                self.write(n)

    def values(self):
        self.serial += 1
        out = [self.rng.choice(WORDS) for _ in range(self.rng.choice([0, 1, 2, 4, 6]))]
        if self.rng.random() < 0.7:
            out.append(f"v{self.serial}")
        return out

    def file(self, name):
        return os.path.join(self.path, name + (".json" if name in STRUCT else ".txt"))

    def write(self, name, vals=None, keep_stat=False):
        vals = self.values() if vals is None else vals
        f = self.file(name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        st = os.stat(f) if keep_stat and os.path.exists(f) else None
        with open(f, "w", encoding="utf-8") as fh:
            if name in STRUCT:
                json.dump({name.split("/")[-1]: vals}, fh)
            else:
                fh.write("".join(v + "\n" for v in vals))
        if st:
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        self.set(name, vals)

    def remove(self, name):
        if os.path.exists(self.file(name)):
            os.remove(self.file(name))
        self.set(name, None)

    def set(self, name, vals):
        if name in STRUCT and not vals:
            vals = None
        if vals is None:
            self.now.pop(name, None)
        else:
            self.now[name] = list(vals)
        for m in self.managers:
            m.dirty = True
            m.history.setdefault(name, []).append(self.now.get(name))


class Managed:
    """A real manager with the options and the cache state the model knows of."""

    def __init__(self, real, world, memory):
        self.real, self.world, self.memory = real, world, memory
        self.sort = self.dedup = True
        self.shuffle = False
        self.dirty = False
        self.built = False
        self.history = {}
        self.kept = []
        self.asked = []

    def cleared(self):
        self.dirty = False
        self.history = {}
        self.kept.clear()

    def collections(self):
        return {**self.memory, **(self.world.now if self.world else {})}


class Monitor(core.Check):
    id = "C20"
    technique = "online monitor of lookup histories against a cache-free model, several managers interleaved"
    rule = ("a case is a history of operations on one to three managers; distinct by history; non-trivial: at least two lookups and "
            "one change or clear")
    quick = 3000
    thorough = 80000
    required = ("lookups", "repeated_lookups", "exact_after_clear", "stale_or_new", "external_writes", "removed", "recreated",
                "same_stat_writes", "own_writes", "own_reads", "toggle_sort", "toggle_dedup", "toggle_shuffle", "shuffled_lookups",
                "clears", "many_names", "several_managers", "kept_results", "generated", "names_listed", "fallback", "structured",
                "new_files", "failed_lookups", "after_failure", "same_value_toggle", "generation_after_changes")

    def setup(self):
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        from dynamicprompts.wildcards import WildcardManager
        self.Manager, self.Comb, self.Rand = WildcardManager, CombinatorialPromptGenerator, RandomPromptGenerator

    def case(self, rng, index):
        top = os.path.join(self.scratch, f"h{index}")
        os.mkdir(top)
        try:
            self.one(rng, index, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    # -- the model
    def wanted(self, m, pat):
        cols = m.collections()
        hit = [n for n in cols if glob(n, pat)]
        if not any(cols[n] for n in hit):
            hit = [n for n in cols if glob(n, "*/" + pat)]
            if any(cols[n] for n in hit):
                self.rec.count("fallback")
        return hit, [v for n in hit for v in cols[n]]

    def judge(self, m, pat, got, info):
        hit, want = self.wanted(m, pat)
        if m.dirty:
            self.rec.count("stale_or_new")
            if isinstance(got, core.Err):
                self.rec.count("failed_lookups")
                m.failed = True
                return
            known = set(want)
            for vs in m.history.values():
                for v in vs:
                    known |= set(v or ())
            for vs in m.before.values():
                known |= set(vs)
            for vs in m.memory.values():
                known |= set(vs)
            self.expect(set(got) <= known, "a value that no version of the files has", got=got, **info)
            if m.sort and not m.shuffle:
                self.expect_eq(got, sorted(got), "not sorted", **info)
            if m.dedup:
                self.expect_eq(len(set(got)), len(got), "not de-duplicated", **info)
            return
        if isinstance(got, core.Err):
            raise core.Violation("lookup failed", {"got": repr(got), **{k: core.show(v, 2000) for k, v in info.items()}})
        cw = Counter(set(want)) if m.dedup else Counter(want)
        self.expect(Counter(got) == cw, "lookup differs from a fresh one", got=got, wanted=sorted(cw.elements()), **info)
        if m.shuffle:
            self.rec.count("shuffled_lookups")
        elif m.sort:
            self.expect_eq(got, sorted(got), "not sorted", **info)
        elif len(hit) == 1:
            self.expect_eq(got, list(dict.fromkeys(want)) if m.dedup else want, "order of the file", **info)
        if getattr(m, "failed", False):
            self.rec.count("after_failure")
            m.failed = False
        if any(n in STRUCT for n in hit):
            self.rec.count("structured")

    def directed(self):
        def generation(rng):
            # generation of every kind sees what a lookup would, after each change and clear and with each setting
            top = os.path.join(self.scratch, "generation")
            os.mkdir(top)
            try:
                wm = self.Manager(top)
                vals = {}
                for turn in range(24):
                    name = ["w", "d/x"][turn % 2]
                    p = os.path.join(top, name + ".txt")
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    vals[name] = [rng.choice("zyxabc") + str(rng.randrange(50)) for _ in range(3 if turn % 3 else 4)]
                    vals[name].append(vals[name][0])
                    with open(p, "w") as f:
                        f.write("\n".join(vals[name]) + "\n")
                    wm.clear_cache()
                    for setting in range(3):
                        wm.sort_wildcards = bool((turn + setting) % 2)
                        wm.dedup_wildcards = bool((turn + setting) % 3)
                        for n, vs in vals.items():
                            want = sorted(vs) if wm.sort_wildcards else list(vs)
                            if wm.dedup_wildcards:
                                want = list(dict.fromkeys(want))
                            once = list(dict.fromkeys(want))
                            info = dict(name=n, values=vs, sort=wm.sort_wildcards, dedup=wm.dedup_wildcards, turn=turn)
                            self.expect_eq(core.call(lambda: [str(v) for v in wm.get_values(n)]), want, "lookup differs from a fresh one", **info)
                            for t, w in (("__%s__", want), ("{__%s__}", once), ("{1$$__%s__}", once), ("%%{<...>$$__%s__}", ["<%s>" % v for v in want])):
                                got = core.call(lambda: self.Comb(wm).generate(t % n, None))
                                self.expect_eq(got if isinstance(got, core.Err) else list(dict.fromkeys(got)), list(dict.fromkeys(w)),
                                               "generation differs from a fresh lookup", template=t % n, **info)
                                got = core.call(lambda: self.Rand(wm, seed=turn).generate(t % n, 12))
                                self.expect(not isinstance(got, core.Err) and set(got) <= set(w), "generation differs from a fresh lookup",
                                            template=t % n, got=got, **info)
                            from ..sem import Work
                            from ..tpl import Seq
                            for t in ("__%s__", "{__%s__}"):
                                ctx = Work(Seq([])).context("cycle", wildcard_manager=wm)
                                got = core.call(lambda: {str(p) for p in ctx.sample_prompts(t % n, len(want))})
                                self.expect_eq(got, set(want), "generation differs from a fresh lookup", template=t % n, **info)
                self.rec.count("generation_after_changes")
            finally:
                shutil.rmtree(top, ignore_errors=True)
        return [generation]

    def one(self, rng, index, top):
        world = World(os.path.join(top, "root"), rng)
        other = World(os.path.join(top, "other"), rng) if rng.random() < 0.5 else None
        ms = []
        for k in range(rng.choice([1, 1, 2, 3])):
            mem, w = {}, world
            kind = rng.random()
            if kind < 0.5:
                real = self.Manager(rng.choice([str, Path])(world.path))
            elif kind < 0.75 or other is None:
                mem = {f"mem/{n}": [rng.choice(WORDS) for _ in range(3)] for n in ("a", "b")}
                real = self.Manager(root_map={"": [Path(world.path), {n: list(v) for n, v in mem.items()}]})
            else:
                w = other
                real = self.Manager(other.path)
            m = Managed(real, w, mem)
            w.managers.append(m)
            ms.append(m)
            m.before = dict(w.now)
        if len(ms) > 1:
            self.rec.count("several_managers")
        trace = []
        lookups = changes = 0
        steps = rng.choice([8, 16, 30])
        seen = set()
        for step in range(steps):
            m = rng.choice(ms)
            i = ms.index(m)
            w = m.world
            info = dict(history=trace[-40:], manager=i)
            self.context = info
            op = rng.random()
            if op < 0.42:
                if rng.random() < 0.06:
                    # more names than any reasonable cache holds
                    pats = [f"{rng.choice(['a', 'd/a', 'nowhere', '*', 'mem/a'])}{'*' * (j % 3)}{'?' * (j // 60)}" if j % 2 else f"none{j}"
                            for j in range(rng.choice([120, 260]))]
                    self.rec.count("many_names")
                    trace.append(f"m{i}: {len(pats)} lookups of different names")
                else:
                    pats = [rng.choice(NAMES + STRUCT + ["a*", "*", "d/*", "*a", "c", "e/a", "nosuch", "mem/*", "s*", "?"])]
                    trace.append(f"m{i}: lookup {pats[0]}")
                again = m.asked and len(pats) == 1 and rng.random() < 0.6
                for pat in pats:
                    if again:
                        # something asked before in exactly this form
                        pat, asked = rng.choice(m.asked[-4:])
                        trace[-1] = f"m{i}: lookup {asked} again"
                    else:
                        asked = rng.choice([pat, pat, f"__{pat}__", "/" + pat, pat + "/"])
                        m.asked.append((pat, asked))
                    vals = core.call(lambda: m.real.get_values(asked))
                    got = vals if isinstance(vals, core.Err) else core.call(lambda: [str(v) for v in vals])
                    self.judge(m, pat, got, dict(asked=asked, **info))
                    if not isinstance(vals, core.Err):
                        m.kept.append((vals, tuple(got)))
                    lookups += 1
                    self.rec.count("lookups")
                    if (i, pat) in seen:
                        self.rec.count("repeated_lookups")
                    seen.add((i, pat))
            elif op < 0.56:
                k = rng.random()
                if k < 0.4:
                    m.sort = not m.sort if rng.random() < 0.7 else m.sort
                    m.real.sort_wildcards = m.sort
                    self.expect_eq(core.call(lambda: m.real.sort_wildcards), m.sort, "option does not keep its value", **info)
                    self.rec.count("toggle_sort")
                    trace.append(f"m{i}: sort={m.sort}")
                elif k < 0.75:
                    m.dedup = not m.dedup if rng.random() < 0.7 else m.dedup
                    m.real.dedup_wildcards = m.dedup
                    self.expect_eq(core.call(lambda: m.real.dedup_wildcards), m.dedup, "option does not keep its value", **info)
                    self.rec.count("toggle_dedup")
                    trace.append(f"m{i}: dedup={m.dedup}")
                else:
                    self.rec.count("same_value_toggle")
                    m.real.sort_wildcards = m.sort
                    m.real.dedup_wildcards = m.dedup
            elif op < 0.61:
                m.shuffle = not m.shuffle
                m.real.shuffle_wildcards = m.shuffle
                self.rec.count("toggle_shuffle")
                trace.append(f"m{i}: shuffle={m.shuffle}")
            elif op < 0.7:
                got = core.call(m.real.clear_cache)
                self.expect(not isinstance(got, core.Err), "clearing the cache failed", got=got, **info)
                if m.dirty:
                    self.rec.count("exact_after_clear")
                m.cleared()
                m.before = dict(w.now)
                self.rec.count("clears")
                trace.append(f"m{i}: clear")
                changes += 1
            elif op < 0.86:
                changes += 1
                name = rng.choice(NAMES + STRUCT)
                k = rng.random()
                if k < 0.6:
                    existed = name in w.now
                    same = existed and rng.random() < 0.4
                    vals = None
                    if same:
                        # same size and time stamp, other content
                        old = w.now[name]
                        vals = [v[::-1] if v.strip() == v and not v.startswith("#") and not v[::-1].startswith("#") else v for v in old]
                        if rng.random() < 0.5:
                            vals = list(reversed(old))
                        self.rec.count("same_stat_writes")
                    w.write(name, vals, keep_stat=same)
                    self.rec.count("external_writes" if existed else "new_files")
                    trace.append(f"write {name} in {os.path.basename(w.path)}: {w.now.get(name)}")
                elif k < 0.8:
                    w.remove(name)
                    self.rec.count("removed")
                    trace.append(f"remove {name} in {os.path.basename(w.path)}")
                else:
                    if name in w.now:
                        w.remove(name)
                    w.write(name)
                    self.rec.count("recreated")
                    trace.append(f"recreate {name} in {os.path.basename(w.path)}: {w.now.get(name)}")
            elif op < 0.94:
                names = [n for n in w.now if n not in STRUCT]
                if names:
                    changes += 1
                    name = rng.choice(names)
                    f = core.call(lambda: m.real.get_file(name))
                    if isinstance(f, core.Err):
                        self.expect(m.dirty, "an existing collection cannot be opened", name=name, got=f, **info)
                        continue
                    if rng.random() < 0.5:
                        core.call(lambda: list(f.get_values()))
                    vals = w.values()
                    old = w.now.get(name) or []
                    k = rng.random()
                    if k < 0.3 and old:
                        # nearly the same
                        vals = rng.choice([list(reversed(old)), [x for v in old for x in v.split()], [" ".join(old)] if "#" not in old[0][:1] else old,
                                           old[:-1], old + old[:1], [v.upper() for v in old], [old[0] + "x"] + old[1:]])
                    text = "# heading\n\n" + "".join(f"  {v}\n" for v in vals)
                    if rng.random() < 0.15:
                        # nothing, or no values
                        vals, text = [], rng.choice(["", "", "\n", "# only a comment", " "])
                    elif rng.random() < 0.2:
                        text = "\n".join(vals)
                    elif rng.random() < 0.2:
                        # values that only look like several lines
                        vals = [v + rng.choice(["", "\u2028x", "\x0bx", "\x85x", "\x1cx", "\x0cx"]) for v in vals]
                        text = "".join(v + "\n" for v in vals)
                    elif rng.random() < 0.15:
                        # line ends of all kinds
                        text = "".join(v + rng.choice(["\r", "\r\n", "\n"]) for v in vals)
                    got = core.call(lambda: f.write_text(text))
                    self.expect(not isinstance(got, core.Err), "rewriting a collection failed", name=name, got=got, **info)
                    w.set(name, vals)
                    trace.append(f"m{i}: rewrite {name} through its object: {vals}")
                    for _ in range(2):
                        got = core.call(lambda: list(f.get_values()))
                        self.expect_eq(got, vals, "a rewritten collection does not return its new values", name=name, **info)
                    lines = text.replace("\r\n", "\n").replace("\r", "\n")
                    self.expect_eq(core.call(f.read_text), lines, "a rewritten collection's text", name=name, **info)
                    with open(w.file(name), encoding="utf-8") as fh:
                        self.expect_eq(fh.read(), lines, "the file of a rewritten collection", name=name, **info)
                    self.rec.count("own_writes")
                    self.rec.count("own_reads")
            elif op < 0.955:
                got = core.call(lambda: set(m.real.get_collection_names()))
                if not m.dirty:
                    self.expect_eq(got, set(m.collections()), "collection names", **info)
                    self.rec.count("names_listed")
            else:
                pat = rng.choice([n for n in NAMES if "_" not in n] + ["mem/a"])
                hit, want = self.wanted(m, pat)
                if not m.dirty and want:
                    got = core.call(lambda: list(self.Comb(m.real).generate(f"__{pat}__", len(want) + 2)))
                    self.judge(m, pat, got, dict(template=f"__{pat}__", **info))
                    self.rec.count("generated")
                if not m.dirty and want:
                    t = rng.choice(["{__%s__}", "{1-1$$__%s__}"]) % pat
                    got = core.call(lambda: self.Comb(m.real).generate(t, None))
                    self.expect(not isinstance(got, core.Err) and sorted(got) == sorted(set(want)), "generation differs from a fresh "
                                "lookup", template=t, got=got, wanted=want, **info)
                    t = rng.choice(["__%s__", "{__%s__}", "{2$$__%s__}"]) % pat
                    got = core.call(lambda: self.Rand(m.real, seed=index).generate(t, 4))
                    ok = set(want) | {a + "," + b for a in set(want) for b in set(want)}
                    self.expect(not isinstance(got, core.Err) and set(got) <= ok, "generation differs from a fresh lookup",
                                template=t, got=got, wanted=want, **info)
        for m in ms:
            for vals, was in m.kept:
                self.expect_eq(core.call(lambda: tuple(str(v) for v in vals)), was, "a result changed after it was returned",
                               history=trace[-40:])
                self.rec.count("kept_results")
        if lookups > 1 and changes:
            self.rec.distinct(trace)
        self.rec.sample(trace[:12])
