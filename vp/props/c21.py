"""Weights of wildcard values: read from files, used by every sampling method, kept when merged."""
import json
import os
import random
import shutil
from collections import Counter

import yaml

from .. import core, stats
from ..fs import Item, WTEXTS, item, named, observed, text_file

WORDS = ["red", "green", "blue", "a cat", "é", "Zoo", "big dog", "日本", "x-y", "soft, warm", "b-c", "oak"]


class Monitor(core.Check):
    id = "C21"
    technique = "reference-model monitor of weights read and used; statistical monitor (two-stage) of random draws"
    rule = ("a case is a set of generated structured and text files, read, merged by patterns, enumerated and sampled; distinct by "
            "content; non-trivial: at least two different weights")
    quick = 5000
    thorough = 90000
    required = ("prefix_weights", "mapping_weights", "not_weights", "unsupported_items", "single_strings", "merged", "added",
                "combinatorial", "cyclical", "random_draws", "fits", "fraction_below_one", "mixed_with_text", "sole_wildcard",
                "in_sentence", "yaml", "json", "zero_weight", "text_file_prefix", "pattern_lookup", "pairs_of_references")
    N = 1500

    def setup(self):
        from dynamicprompts.enums import SamplingMethod
        from dynamicprompts.generators import CombinatorialPromptGenerator, RandomPromptGenerator
        from dynamicprompts.sampling_context import SamplingContext
        from dynamicprompts.wildcards import WildcardManager
        self.Manager, self.Comb, self.Rand = WildcardManager, CombinatorialPromptGenerator, RandomPromptGenerator
        self.Context, self.Method = SamplingContext, SamplingMethod

    def case(self, rng, index):
        top = os.path.join(self.scratch, f"w{index}")
        os.mkdir(top)
        try:
            k = rng.random()
            if k < 0.5:
                self.reading(rng, index, top)
            elif k < 0.95:
                self.enumerating(rng, index, top)
            else:
                self.drawing(rng, index, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def write(self, rng, top, stem, data):
        data = named(data)
        if rng.random() < 0.5:
            p, t = os.path.join(top, stem + ".json"), json.dumps(data, ensure_ascii=rng.random() < 0.5)
            self.rec.count("json")
        else:
            p = os.path.join(top, stem + ".yaml")
            t = yaml.safe_dump(data, allow_unicode=True, sort_keys=False, default_flow_style=rng.choice([None, True, False]))
            if yaml.safe_load(t) != data:
                raise core.Skip()
            self.rec.count("yaml")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(t)
        return t

    # -- what is read
    def reading(self, rng, index, top):
        want, texts = {}, []
        for f in range(rng.choice([1, 2])):
            data = {}
            for k in rng.sample(["k0", "k1", "k2", "k3"], rng.choice([1, 2, 3])):
                key = f"f{f}{k}"
                items = [item(rng) for _ in range(rng.choice([1, 2, 4, 7]))]
                if rng.random() < 0.2:
                    items = [i for i in items if isinstance(i.written, str) and i.written and i.meaning][:1] or [Item("2::solo", ("solo", 2.0))]
                    data[key] = items[0].written
                    self.rec.count("single_strings")
                else:
                    data[key] = [i.written for i in items]
                want[key] = [i.meaning for i in items if i.meaning]
                for i in items:
                    if i.meaning is None:
                        self.rec.count("unsupported_items")
                    elif isinstance(i.written, dict):
                        self.rec.count("mapping_weights")
                    elif i.written != i.meaning[0]:
                        self.rec.count("prefix_weights")
                    elif "::" in i.written:
                        self.rec.count("not_weights")
            texts.append(self.write(rng, top, f"p{f}", data))
        if rng.random() < 0.4:
            raw, vals = text_file(rng)
            vals = vals + ["2::kept as it is"]
            with open(os.path.join(top, "f0k9.txt"), "wb") as f:
                f.write(raw.rstrip(b"\r\n") + (b"\n" if raw else b"") + b"2::kept as it is\n")
            want["f0k9"] = [(v, 1.0) for v in vals]
            self.rec.count("text_file_prefix")
        info = dict(files=texts, collections=want)
        self.context = info
        wm = self.Manager(top)
        wm.sort_wildcards = wm.dedup_wildcards = False
        for name, vals in want.items():
            got = core.call(lambda: observed(wm.get_values(name)))
            self.expect_eq(got, vals, "texts and weights of a collection", name=name, **info)
        pat = rng.choice(["*", "f0*", "f?k1", "*k*"])
        from .c18 import glob
        every = [v for n, vs in want.items() if glob(n, pat) for v in vs]
        got = core.call(lambda: observed(wm.get_values(pat)))
        self.expect(not isinstance(got, core.Err) and Counter(got) == Counter(every), "weights of merged collections", got=got,
                    wanted=every, pattern=pat, **info)
        self.rec.count("pattern_lookup")
        self.rec.count("merged")
        wm.dedup_wildcards = True
        got = core.call(lambda: observed(wm.get_values(pat)))
        self.expect(not isinstance(got, core.Err) and Counter(got) == Counter(set(every)), "weights of merged collections", got=got,
                    wanted=sorted(set(every)), pattern=pat, **info)
        if len(want) > 1:
            a, b = rng.sample(sorted(want), 2)
            wm.dedup_wildcards = False
            got = core.call(lambda: observed(wm.get_values(a) + wm.get_values(b)))
            self.expect_eq(got, want[a] + want[b], "weights after adding values", **info)
            self.rec.count("added")
        if len({w for vs in want.values() for _, w in vs}) > 1:
            self.rec.distinct(sorted(want.items()))
        self.rec.sample({"files": texts})

    # -- what is used
    def weighted(self, rng, top, few=False):
        """Writes collections of plain texts; returns name -> [(text, weight)]"""
        cols = {}
        pool = list(WORDS)
        for name in rng.sample(["wa", "wb", "d/wc"], rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 4] if few else [1, 2, 3, 5, 8])
            texts = rng.sample(pool, min(n, len(pool)))
            vals, written = [], []
            plain = rng.random() < 0.15
            for t in texts:
                k = rng.random()
                if k < 0.25 or plain:
                    w, wr = 1.0, t
                elif k < 0.65:
                    wt = rng.choice([x for x in WTEXTS if x.strip() == x] if not few else ["1", "2", "0.5", "2.75", "3", "1.5", "0.25", "0.05", "1.3333333333"])
                    w, wr = float(wt), f"{wt}::{t}"
                else:
                    w = rng.choice([1, 2, 3, 0.5, 2.9, 4.0, 1.99, 0.999])
                    wr = {rng.choice(["text", "content"]): t, "weight": w}
                    w = float(w)
                vals.append((t, w))
                written.append(wr)
            if not few and rng.random() < 0.08:
                i = rng.randrange(len(vals))
                wt = rng.choice(["101", "150", "257", "1001", "999.9"])
                vals[i], written[i] = (texts[i], float(wt)), f"{wt}::{texts[i]}"
                plain = False
                self.rec.count("large_weights")
            if not any(w >= 1 for _, w in vals):
                vals[0] = (vals[0][0], 2.0)
                written[0] = f"2::{vals[0][0]}"
            cols[name] = vals
            if plain and rng.random() < 0.7:
                os.makedirs(os.path.dirname(os.path.join(top, name)), exist_ok=True)
                with open(os.path.join(top, name + ".txt"), "w", encoding="utf-8") as f:
                    f.write("\n".join(written))
                self.rec.count("mixed_with_text")
            else:
                d, _, base = name.rpartition("/")
                self.write(rng, top, os.path.join(d, "file_" + base), {base: written})
            if any(0 < w < 1 for _, w in vals):
                self.rec.count("fraction_below_one")
            if any(w == 0 for _, w in vals):
                self.rec.count("zero_weight")
        return cols

    def ref(self, rng, cols):
        """A reference and the values it denotes, sorted and de-duplicated"""
        from .c18 import glob
        pat = rng.choice(list(cols)) if rng.random() < 0.6 else rng.choice(["*", "w*", "*w?", "*c", "*a"])
        vals = [v for n, vs in cols.items() if glob(n, pat) for v in vs]
        if not vals:
            pat = list(cols)[0]
            vals = cols[pat]
        if len({n for n in cols if glob(n, pat)}) > 1:
            self.rec.count("merged")
        return pat, sorted(dict.fromkeys(vals), key=lambda v: v[0])

    def enumerating(self, rng, index, top):
        cols = self.weighted(rng, top)
        wm = self.Manager(top)
        pat, vals = self.ref(rng, cols)
        rep = [t for t, w in vals for _ in range(int(w))]
        k = rng.random()
        info = dict(collections=cols, pattern=pat)
        self.context = info
        if k < 0.35:
            tpl, want = f"__{pat}__", rep
        elif k < 0.6:
            tpl, want = f"one __{pat}__ two", [f"one {t} two" for t in rep]
            self.rec.count("in_sentence")
        elif k < 0.75:
            # a variant over the wildcard: every value once, whatever its weight
            tpl, want = "{1$$__%s__}" % pat, list(dict.fromkeys(t for t, _ in vals))
            self.rec.count("sole_wildcard")
        else:
            p2, v2 = self.ref(rng, cols)
            rep2 = [t for t, w in v2 for _ in range(int(w))]
            if len(rep) * len(rep2) > 4000:
                raise core.Skip()
            tpl, want = f"__{pat}__/__{p2}__", [f"{a}/{b}" for a in rep for b in rep2]
            self.rec.count("pairs_of_references")
        got = core.call(lambda: list(self.Comb(wm).generate(tpl, len(want) + 3)))
        self.expect_eq(got, want, "not each value as often as its weight says, in order", template=tpl, method="combinatorial", **info)
        self.rec.count("combinatorial")
        if "$$" not in tpl:
            n = rng.choice([len(rep), 2 * len(rep) + 1, 5])
            cyc = [want[i % len(want)] for i in range(n)] if "/__" not in tpl else \
                [f"{rep[i % len(rep)]}/{rep2[i % len(rep2)]}" for i in range(n)]
            got = core.call(lambda: [str(p) for p in self.Context(
                default_sampling_method=self.Method.CYCLICAL, wildcard_manager=wm).sample_prompts(tpl, n)])
            self.expect_eq(got, cyc, "not each value as often as its weight says, in order", template=tpl, method="cyclical", **info)
            self.rec.count("cyclical")
        self.rec.distinct(sorted(cols.items()), tpl)

    def drawing(self, rng, index, top):
        cols = self.weighted(rng, top, few=True)
        wm = self.Manager(top)
        pat, vals = self.ref(rng, cols)
        if sum(w for _, w in vals) <= 0:
            raise core.Skip()
        tpl = rng.choice(["__%s__", "so __%s__", "{1$$__%s__}"]) % pat
        probs = Counter()
        for t, w in vals:
            probs[("so " if tpl.startswith("so") else "") + t] += w
        total = sum(probs.values())
        probs = {t: w / total for t, w in probs.items()}
        info = dict(template=tpl, collections=cols)
        self.context = info

        def stage(n, seed):
            got = core.call(lambda: self.Rand(wm, seed=seed).generate(tpl, n))
            if isinstance(got, core.Err):
                raise core.Violation("generation failed", {"got": repr(got), **{k: core.show(v) for k, v in info.items()}})
            c = Counter(got)
            extra = [t for t in c if probs.get(t, 0) <= 0]
            self.expect(not extra, "a value of weight zero or no value at all is drawn", prompt=extra, **info)
            self.rec.count("random_draws", n)
            return stats.fit(c, probs), c
        p, _ = stage(self.N, index)
        self.rec.count("fits")
        self.rec.count("comparisons")
        if p < 1e-6:
            self.rec.count("suspicions")
            q, c = stage(self.N * 6, index + 1)
            if q < 1e-9:
                n = sum(c.values())
                raise core.Violation("values are not drawn in proportion to their weights",
                                     {"expected": core.show({k: round(v, 4) for k, v in probs.items()}),
                                      "observed": core.show({k: round(v / n, 4) for k, v in c.items()}), "p": f"{q:.2g}",
                                      **{k: core.show(v) for k, v in info.items()}})
        if len(probs) > 1:
            self.rec.distinct(sorted(cols.items()), tpl)
