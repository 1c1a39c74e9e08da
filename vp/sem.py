"""Semantic workloads: a template with wildcards and variables, as trees and as real objects."""
from __future__ import annotations

import random

from . import core
from .model import Model, TooBig
from .tpl import DEFAULT, Acc, Asg, Gen, Lit, Opt, Render, Seq, Var, Wild, Wrap, walk

NAMES = ["w0", "w1", "d/w2"]
BASE = frozenset("var wild acc bounds weights".split())
FULL = BASE | {"asg", "imm", "wrap", "params"}


def make_collection(entries):
    """An in-memory wildcard collection; entries are (text, weight or None)."""
    from dynamicprompts.wildcards.collection import WildcardCollection
    from dynamicprompts.wildcards.item import WildcardItem

    class MemoryCollection(WildcardCollection):
        def __init__(self, entries):
            self.entries = [t if w is None else WildcardItem(t, w) for t, w in entries]

        def get_values(self):
            return list(self.entries)
    return MemoryCollection(entries)


def manager(wild_texts, wrap="__"):
    """wild_texts: name -> list of (text, weight or None)."""
    from dynamicprompts.wildcards import WildcardManager
    m = {}
    for name, entries in wild_texts.items():
        if any(w is not None for _, w in entries):
            m[name] = make_collection(entries)
        else:
            m[name] = [t for t, _ in entries]
    return WildcardManager(wildcard_wrap=wrap, root_map={"": [m]})


class Work:
    """One generated workload."""

    def __init__(self, tree, wilds=None, env=None, cfg=DEFAULT, layout=None):
        self.tree = tree
        self.cfg = cfg
        r = Render(cfg)
        self.text = Render(cfg, layout)(tree)
        self.wilds = {}
        self.wild_texts = {}
        for name, vals in (wilds or {}).items():
            d = {}
            for seq, w in vals:
                # no weight is the same as weight 1
                d.setdefault((r(seq), 1.0 if w is None else w), (seq, w))
            keys = sorted(d, key=lambda k: k[0])
            self.wilds[name] = [d[k] for k in keys]
            self.wild_texts[name] = [(k[0], d[k][1]) for k in keys]
        self.env = env or {}
        self.env_texts = {k: r(v) for k, v in self.env.items()}

    def model(self, cap=3000, **kw):
        return Model(self.wilds, cap=cap, wrap=self.cfg.wildcard_wrap, **kw)

    def manager(self):
        return manager(self.wild_texts, self.cfg.wildcard_wrap)

    def context(self, method, **kw):
        from dynamicprompts.enums import SamplingMethod
        from dynamicprompts.parser.parse import parse
        from dynamicprompts.sampling_context import SamplingContext
        real = self.cfg.real()
        kw.setdefault("wildcard_manager", None)
        wm = kw.pop("wildcard_manager") or self.manager()
        return SamplingContext(
            default_sampling_method=SamplingMethod(method), wildcard_manager=wm,
            parser_config=real,
            variables={k: parse(t, parser_config=real) for k, t in self.env_texts.items()}, **kw)

    def trees(self):
        """Everything that is written somewhere: the template, the values and the variables."""
        return [self.tree, *(s for v in self.wilds.values() for s, _ in v), *self.env.values()]

    def describe(self):
        d = {"template": self.text}
        if self.wild_texts:
            d["wildcards"] = repr(self.wild_texts)
        if self.env_texts:
            d["variables"] = repr(self.env_texts)
        return d

    def key(self):
        return (self.text, sorted(self.wild_texts.items()), sorted(self.env_texts.items()))


def build(rng, feat=FULL, cfg=DEFAULT, depth=None, fancy=None, zero=True, weighted=0.25,
          max_items=3, max_opts=3, missing=0.0, layout=None, wild_methods=False):
    depth = rng.choice([1, 2, 2, 3]) if depth is None else depth
    fancy = rng.choice([0.0, 0.0, 0.1, 0.4]) if fancy is None else fancy
    feat = set(feat)
    if cfg.has_paren:
        feat -= {"params", "dynpath"}
    vfeat = feat - {"asg", "imm", "dynpath"}
    if not wild_methods:
        vfeat -= {"methods"}

    env = {}
    if "acc" in feat and rng.random() < 0.5:
        for n in ["e0", "e1"][: rng.choice([1, 2])]:
            g = Gen(rng, cfg, feat={"var", "bounds"}, depth=1, fancy=fancy, max_opts=max_opts)
            env[n] = g.prompt("val", 1)

    wilds = {}
    names = []
    if "wild" in feat:
        for name in NAMES[: rng.choice([1, 2, 3])]:
            vals = []
            for _ in range(rng.choice([1, 2, 2, 2, 3, 3, 4, 4, 5, 8])):
                g = Gen(rng, cfg, feat=vfeat - {"params"}, depth=rng.choice([0, 0, 1, 1, 2]),
                        fancy=fancy, max_items=1, max_opts=max_opts, wild_names=list(names),
                        vars=list(env) or ["zz"], zero_weights=zero)
                seq = g.prompt("top")
                _fix(seq, env, rng)
                if "params" in feat and rng.random() < 0.5:
                    seq.items.append(Acc(rng.choice(["p", "q"]), Seq([Lit("dflt")])))
                if not any(isinstance(i, Lit) and i.text.strip() for i in seq.items) and \
                        not Render(cfg)(seq).strip():
                    seq = Seq([Lit("v")])
                if rng.random() < 0.05:  # nothing, or nothing but blanks
                    seq = Seq([Lit(x) for x in rng.choice([[], [], [" "], ["  "], ["\n"]])])
                vals.append((seq, None))
            if rng.random() < weighted:
                vals = [(s, None if rng.random() < 0.3 else rng.choice([1.0, 2.0, 3.0, 2.5, 1.0]))
                        for s, _ in vals]
            wilds[name] = vals
            names.append(name)
    g = Gen(rng, cfg, feat=feat, depth=depth, fancy=fancy, max_items=max_items, max_opts=max_opts,
            wild_names=list(names) + (["missing"] if rng.random() < missing else []),
            vars=list(env) or ["zz"], zero_weights=zero, param_wilds=False)
    tree = g.prompt("top")
    if "asg" in feat and rng.random() < 0.5:
        tnames = []
        for k in range(rng.choice([1, 1, 2, 3])):
            n = f"t{k}"
            gv = Gen(rng, cfg, feat=feat - {"params", "dynpath"}, depth=1, fancy=fancy,
                     max_opts=max_opts, wild_names=list(names), vars=list(env) + tnames or ["zz"],
                     zero_weights=zero)
            value = gv.prompt("val", 1)
            _fix(value, set(env) | set(tnames), rng)
            asg = Asg(n, value, immediate="imm" in feat and rng.random() < 0.3)
            tnames.append(n)
            # an immediate value may use earlier variables only, so keep the order
            tree.items.insert(k, asg)
            for _ in range(rng.choice([1, 1, 2])):
                tree.items.insert(rng.randint(k + 1, len(tree.items)), Acc(n))
        tree = Gen.merge(tree)
    _fix(tree, set(env) | {a.name for a in tree.items if isinstance(a, Asg)}, rng)
    return Work(tree, wilds, env, cfg, layout)


def _fix(node, defined, rng):
    """Gives accesses to undefined variables a default and, since a default of the same name nested in
    it would be recursive, a name of their own."""
    for n in walk(node):
        if isinstance(n, Acc) and n.name not in defined:
            if n.default is None:
                n.default = Seq([Lit("none")])
            if n.name == "zz":
                n.name = f"u{rng.randrange(10**9)}"


def build_sized(rng, compute, tries=25, **kw):
    """A workload for which compute(work) succeeds within the model's cap; returns (work, result)."""
    for _ in range(tries):
        w = build(rng, **kw)
        try:
            return w, compute(w)
        except TooBig:
            continue
    raise core.Skip()


class Hostile(random.Random):
    """A random stream that keeps returning extreme values (but not only those)."""

    EXTREME = (0.0, 1 - 2**-53, 0.5, 2**-53, 0.25, 0.75, 1e-300, 0.9999999)

    def __new__(cls, seed=0):
        return super().__new__(cls, seed)

    def __init__(self, seed=0):
        super().__init__(seed)
        self.draws = 0

    def random(self):
        self.draws += 1
        x = super().random()
        if x < 0.5:
            return self.EXTREME[int(x * 2 * len(self.EXTREME))]
        return super().random()

    def getrandbits(self, k):
        self.draws += 1
        x = super().random()
        if x < 0.3:
            return 0
        if x < 0.5:
            return (1 << k) - 1
        return super().getrandbits(k)
