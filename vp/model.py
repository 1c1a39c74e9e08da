"""Reference semantics of templates, written from the documentation.

lang  - the set of prompts random sampling may give
comb  - the ordered list combinatorial sampling must give
cyc   - the n-th prompt of cyclical sampling (closed form)

Wildcards: a dict name -> list of (Seq, weight); variables: dict name -> Seq, scoped
dynamically (a lazy value is evaluated where it is accessed).
"""
from __future__ import annotations

import itertools
import re

from .tpl import Acc, Asg, Lit, Opt, Seq, Var, Wild, Wrap

MARKERS = "\u1801\u2026\u22ee\u22ef\u22f0\u22f1\ufe19"
MARKER_RE = re.compile("[" + MARKERS + r"]+|\.{3,}")


class TooBig(Exception):
    pass


class Undefined(Exception):
    """Access to an undefined variable."""


def join(parts, sep):
    parts = list(parts)
    if len(parts) == 1:
        return parts[0]
    s = sep.join(parts)
    if sep:
        if s.startswith(sep):
            s = s[len(sep):]
        if s.endswith(sep):
            s = s[: -len(sep)]
    return s


def wrap_text(w, inner):
    m = MARKER_RE.search(w)
    if m is None:
        return w + inner
    return w[: m.start()] + inner + w[m.end():]


class Model:
    def __init__(self, wilds=None, cap=3000, wrap="__", unknown=None):
        self.wilds = wilds or {}
        self.cap = cap
        self.wrap = wrap
        self.unknown = unknown  # text for unknown variables
        self.work = 0
        self.max_steps = 40000

    # -- helpers
    def check(self, n):
        if n > self.cap:
            raise TooBig

    def effort(self, n):
        self.work += n + 1
        if self.work > 30 * self.cap:
            raise TooBig

    def values(self, name):
        """Values of a static wildcard: list of (Seq, weight); None if missing."""
        return self.wilds.get(name) or None

    def resolve(self, node, env):
        if node.name in env:
            return env[node.name]
        if node.default is not None:
            return node.default
        if self.unknown is not None:
            return Seq([Lit(self.unknown)])
        raise Undefined(node.name)

    @staticmethod
    def sub(env, node):
        """Environment inside the values of a wildcard reference."""
        return {**env, **dict(node.params)} if node.params else env

    def path_prompt(self, node):
        items = []
        for p in node.path:
            if isinstance(p, str):
                items.append(Lit(p))
            elif isinstance(p, Acc):
                d = p.default if p.default is not None else Seq([Lit(p.name)])
                items.append(Acc(p.name, d))
            else:
                items.append(p)
        return Seq(items)

    def fallback(self, name):
        return self.wrap + name + self.wrap

    def expand_sole(self, node, name):
        """Options of a variant over one wildcard."""
        vals = self.values(name)
        if vals is None:
            options = [Opt(Seq([Lit(self.fallback(name))]))]
        else:
            options = [Opt(v, None if w is None else repr(w)) for v, w in vals]
        lo, hi = node.raw_limits()
        n = len(options)
        return Var(options, ("range", min(lo, n), min(hi, n)), node.separator)

    # -- random: set of possible prompts
    def lang(self, node, env):
        if isinstance(node, Lit):
            return {node.text}
        if isinstance(node, Seq):
            res = set()
            for e in self.assign_envs(node, env):
                res |= self.product([self.lang(i, e) for i in node.items
                                     if not isinstance(i, Asg)])
                self.check(len(res))
            return res
        if isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                res = set()
                for name in self.lang(self.path_prompt(w), env):
                    res |= self.lang(self.expand_sole(node, name), self.sub(env, w))
                return res
            n = len(node.options)
            lo, hi = node.limits()
            langs = [self.lang(o.node, env) if o.w > 0 or n == 1 else set()
                     for o in node.options]
            res = set()
            for k in range(lo, hi + 1):
                for idx in itertools.permutations(range(n), k):
                    res |= self.product([langs[i] for i in idx], node.separator)
                    self.check(len(res))
            return res
        if isinstance(node, Wild):
            res = set()
            for name in self.lang(self.path_prompt(node), env):
                vals = self.values(name)
                if vals is None:
                    res.add(self.fallback(name))
                    continue
                e = self.sub(env, node)
                for v, w in vals:
                    if w is None or w > 0:
                        res |= self.lang(v, e)
                        self.check(len(res))
            return res
        if isinstance(node, Acc):
            return self.lang(self.resolve(node, env), env)
        if isinstance(node, Wrap):
            return {wrap_text(a, b) for a in self.lang(node.wrapper, env)
                    for b in self.lang(node.inner, env)}
        raise TypeError(node)

    def product(self, langs, sep=None):
        n = 1
        for x in langs:
            n *= len(x)
            self.check(n)
        self.effort(n)
        if sep is None:
            return {"".join(t) for t in itertools.product(*langs)}
        return {join(t, sep) for t in itertools.product(*langs)}

    def assign_envs(self, seq, env):
        envs = [env]
        for a in seq.items:
            if not isinstance(a, Asg):
                continue
            new = []
            for e in envs:
                if a.preserve and a.name in e:
                    new.append(e)
                elif a.immediate:
                    for s in sorted(self.lang(a.value, e)):
                        new.append({**e, a.name: Seq([Lit(s)])})
                else:
                    new.append({**e, a.name: a.value})
                self.check(len(new))
            envs = new
        return envs

    # -- combinatorial: ordered list
    cost = 1

    def comb(self, node, env):
        if isinstance(node, Lit):
            self.cost = 1
            return [node.text]
        if isinstance(node, Seq):
            e = env
            for a in node.items:
                if isinstance(a, Asg):
                    if a.preserve and a.name in e:
                        continue
                    if a.immediate:
                        first = self.comb(a.value, e)
                        if not first:
                            raise TooBig  # no value: not meaningful
                        e = {**e, a.name: Seq([Lit(first[0])])}
                    else:
                        e = {**e, a.name: a.value}
            lists, costs = self.combs([i for i in node.items if not isinstance(i, Asg)], e)
            self.steps(self.product_cost(lists, costs))
            return ["".join(t) for t in self.prod(lists)]
        if isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                name = self.comb(self.path_prompt(w), env)[0]
                return self.comb(self.expand_sole(node, name), self.sub(env, w))
            lists, costs = self.combs([o.node for o in node.options], env)
            lo, hi = node.limits()
            seen, res, work, cost = set(), [], 0, 0
            for k in range(lo, hi + 1):
                for idx in itertools.permutations(range(len(lists)), k):
                    cost += self.product_cost([lists[i] for i in idx], [costs[i] for i in idx])
                    self.steps(cost)
                    for t in self.prod([lists[i] for i in idx]):
                        work += 1
                        self.check(work)
                        if len(set(t)) == k and t not in seen:
                            seen.add(t)
                            res.append(join(t, node.separator))
            return res
        if isinstance(node, Wild):
            name = self.comb(self.path_prompt(node), env)[0]
            vals = self.values(name)
            if vals is None:
                return [self.fallback(name)]
            e = self.sub(env, node)
            res, cost = [], 0
            for v, w in vals:
                one = self.comb(v, e)
                for _ in range(1 if w is None else int(w)):
                    res += one
                    cost += self.cost + 30  # it is parsed each time
                    self.check(len(res))
            self.steps(cost)
            return res
        if isinstance(node, Acc):
            return self.comb(self.resolve(node, env), env)
        if isinstance(node, Wrap):
            lists, costs = self.combs([node.wrapper, node.inner], env)
            self.steps(self.product_cost(lists, costs))
            return [wrap_text(a, b) for a, b in self.prod(lists)]
        raise TypeError(node)

    def lazy(self, node, env):
        """As comb, one at a time."""
        if isinstance(node, Lit):
            yield node.text
        elif isinstance(node, Seq):
            e = env
            for a in node.items:
                if isinstance(a, Asg) and not (a.preserve and a.name in e):
                    e = {**e, a.name: Seq([Lit(next(self.lazy(a.value, e)))]) if a.immediate else a.value}
            for t in self.lazy_product([i for i in node.items if not isinstance(i, Asg)], e):
                yield "".join(t)
        elif isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                yield from self.lazy(self.expand_sole(node, next(self.lazy(self.path_prompt(w), env))), self.sub(env, w))
                return
            lo, hi = node.limits()
            seen = set()
            for k in range(lo, hi + 1):
                for c in itertools.permutations(node.options, k):
                    for t in self.lazy_product([o.node for o in c], env):
                        if len(set(t)) == k and t not in seen:
                            seen.add(t)
                            yield join(t, node.separator)
        elif isinstance(node, Wild):
            name = next(self.lazy(self.path_prompt(node), env))
            vals = self.values(name)
            if vals is None:
                yield self.fallback(name)
                return
            for v, w in vals:
                for _ in range(1 if w is None else int(w)):
                    yield from self.lazy(v, self.sub(env, node))
        elif isinstance(node, Acc):
            yield from self.lazy(self.resolve(node, env), env)
        elif isinstance(node, Wrap):
            for a, b in self.lazy_product([node.wrapper, node.inner], env):
                yield wrap_text(a, b)

    def lazy_product(self, nodes, env):
        if not nodes:
            yield ()
            return
        for x in self.lazy(nodes[0], env):
            for rest in self.lazy_product(nodes[1:], env):
                yield (x, *rest)

    def combs(self, nodes, env):
        lists, costs = [], []
        for n in nodes:
            self.cost = 1
            lists.append(self.comb(n, env))
            costs.append(self.cost)
        return lists, costs

    @staticmethod
    def product_cost(lists, costs):
        """Steps of enumerating a product, in which all but the first are enumerated again and again."""
        n, cost = 1, 1
        for x, c in zip(lists, costs):
            cost += n * c
            n *= len(x)
        return cost

    def steps(self, cost):
        """A naive enumeration takes about this many steps, which must stay well within the time allowed."""
        self.cost = cost
        if cost > self.max_steps:
            raise TooBig

    def prod(self, lists):
        n = 1
        for x in lists:
            n *= len(x)
            self.check(n)
        self.effort(n)
        return itertools.product(*lists)

    # -- cyclical: n-th prompt
    def cyc(self, node, env, n):
        if isinstance(node, Lit):
            return node.text
        if isinstance(node, Seq):
            e = env
            for a in node.items:
                if isinstance(a, Asg):
                    if a.preserve and a.name in e:
                        continue
                    if a.immediate:
                        e = {**e, a.name: Seq([Lit(self.cyc(a.value, e, 0))])}
                    else:
                        e = {**e, a.name: a.value}
            return "".join(self.cyc(i, e, n) for i in node.items if not isinstance(i, Asg))
        if isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                name = self.cyc(self.path_prompt(w), env, 0)
                return self.cyc(self.expand_sole(node, name), self.sub(env, w), n)
            lo, hi = node.limits()
            combos = [c for k in range(lo, hi + 1)
                      for c in itertools.permutations(range(len(node.options)), k)]
            self.check(len(combos))
            q, m = divmod(n, len(combos))
            return join([self.cyc(node.options[i].node, env, q) for i in combos[m]],
                        node.separator)
        if isinstance(node, Wild):
            name = self.cyc(self.path_prompt(node), env, 0)
            vals = self.values(name)
            if vals is None:
                return self.fallback(name)
            rep = [v for v, w in vals for _ in range(1 if w is None else int(w))]
            q, m = divmod(n, len(rep))
            return self.cyc(rep[m], self.sub(env, node), q)
        if isinstance(node, Acc):
            return self.cyc(self.resolve(node, env), env, n)
        raise TypeError(node)

    # -- recognizer: can a prompt be denoted, without enumerating (no immediates, no wraps; options
    # neither empty nor starting or ending with the separator)
    def ends(self, node, env, text, i):
        if isinstance(node, Lit):
            return {i + len(node.text)} if text.startswith(node.text, i) else set()
        if isinstance(node, Seq):
            e = env
            cur = {i}
            for a in node.items:
                if isinstance(a, Asg):
                    assert not a.immediate
                    if not (a.preserve and a.name in e):
                        e = {**e, a.name: a.value}
            for it in node.items:
                if isinstance(it, Asg):
                    continue
                cur = set().union(*[self.ends(it, e, text, j) for j in cur])
                if not cur:
                    return cur
            return cur
        if isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                return self.ends(self.expand_sole(node, w.path[0]), self.sub(env, w), text, i)
            lo, hi = node.limits()
            return self._choose(node, env, text, i, frozenset(), lo, hi)
        if isinstance(node, Wild):
            vals = self.values(node.path[0])
            if vals is None:
                return self.ends(Lit(self.fallback(node.path[0])), env, text, i)
            e = self.sub(env, node)
            return set().union(*[self.ends(v, e, text, i) for v, w in vals if w is None or w > 0])
        if isinstance(node, Acc):
            return self.ends(self.resolve(node, env), env, text, i)
        raise TypeError(node)

    def _choose(self, node, env, text, i, used, lo, hi):
        res = set()
        if len(used) >= lo:
            res.add(i)
        if len(used) >= hi:
            return res
        start = i
        if used:
            if not text.startswith(node.separator, i):
                return res
            start = i + len(node.separator)
        for k, o in enumerate(node.options):
            if k in used or (o.w <= 0 and len(node.options) > 1):
                continue
            for j in self.ends(o.node, env, text, start):
                res |= self._choose(node, env, text, j, used | {k}, lo, hi)
        return res

    def denotes(self, node, env, text):
        return len(text) in self.ends(node, env, text, 0)

    # -- random: exact distribution of one prompt (no immediates)
    def dist(self, node, env):
        if isinstance(node, Lit):
            return {node.text: 1.0}
        if isinstance(node, Seq):
            e = env
            for a in node.items:
                if isinstance(a, Asg):
                    assert not a.immediate
                    if not (a.preserve and a.name in e):
                        e = {**e, a.name: a.value}
            return self.dprod([self.dist(i, e) for i in node.items if not isinstance(i, Asg)], None)
        if isinstance(node, Var):
            w = node.sole_wild()
            if w is not None:
                return self.dist(self.expand_sole(node, w.path[0]), self.sub(env, w))
            n = len(node.options)
            lo, hi = node.limits()
            ds = [self.dist(o.node, env) for o in node.options]
            ws = [o.w for o in node.options]
            res = {}
            for k in range(lo, hi + 1):
                for idx in itertools.permutations(range(n), k):
                    p = 1.0 / (hi - lo + 1)
                    left = dict(enumerate(ws))
                    for i in idx:
                        total = sum(left.values())
                        p *= left[i] / total if total > 0 else 1 / len(left)
                        del left[i]
                    if p <= 0:
                        continue
                    for t, q in self.dprod([ds[i] for i in idx], node.separator).items():
                        res[t] = res.get(t, 0.0) + p * q
                    self.check(len(res))
            return res
        if isinstance(node, Wild):
            vals = self.values(node.path[0])
            if vals is None:
                return {self.fallback(node.path[0]): 1.0}
            e = self.sub(env, node)
            total = sum(1.0 if w is None else w for _, w in vals)
            res = {}
            for v, w in vals:
                for t, q in self.dist(v, e).items():
                    res[t] = res.get(t, 0.0) + q * (1.0 if w is None else w) / total
            self.check(len(res))
            return {t: p for t, p in res.items() if p > 0}
        if isinstance(node, Acc):
            return self.dist(self.resolve(node, env), env)
        if isinstance(node, Wrap):
            res = {}
            for a, p in self.dist(node.wrapper, env).items():
                for b, q in self.dist(node.inner, env).items():
                    t = wrap_text(a, b)
                    res[t] = res.get(t, 0.0) + p * q
            self.check(len(res))
            return res
        raise TypeError(node)

    def dprod(self, dists, sep):
        n = 1
        for x in dists:
            n *= len(x)
            self.check(n)
        self.effort(n)
        res = {}
        for t in itertools.product(*[d.items() for d in dists]):
            p = 1.0
            for _, q in t:
                p *= q
            parts = [a for a, _ in t]
            s = "".join(parts) if sep is None else join(parts, sep)
            res[s] = res.get(s, 0.0) + p
        return res
