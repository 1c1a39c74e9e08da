"""Template syntax trees, their rendering to text, and a random generator of them.

This is independent of the parser under test: a tree is generated first and then written
out, so what a correct parser has to recover is known by construction.
"""
from __future__ import annotations

import dataclasses
import functools
import re
from dataclasses import dataclass, field
from typing import Any


BIG = 10**9


@dataclass
class Lit:
    text: str


@dataclass
class Opt:
    node: "Seq"
    weight: str | None = None  # as written

    @property
    def w(self) -> float:
        return 1.0 if self.weight is None else float(self.weight)


@dataclass
class Var:
    options: list
    bound: tuple | None = None  # (form, lo, hi): form in exact, range, lower, upper
    sep: str | None = None
    method: str | None = None

    def limits(self, n=None):
        """Effective number of options chosen: (low, high) after all normalisation."""
        n = len(self.options) if n is None else n
        lo, hi = self.raw_limits()
        return min(lo, n), min(hi, n)

    def sole_wild(self):
        """The wildcard, if that is all there is in the variant."""
        if len(self.options) == 1:
            items = self.options[0].node.items
            if len(items) == 1 and isinstance(items[0], Wild):
                return items[0]
        return None

    def raw_limits(self):
        if self.bound is None:
            return 1, 1
        form, lo, hi = self.bound
        if form == "exact":
            hi = lo
        elif form == "lower":
            hi = len(self.options)
            if self.sole_wild() is not None:
                hi = BIG  # as many as the wildcard has values
        elif form == "upper":
            lo = 1
        return min(lo, hi), max(lo, hi)

    @property
    def separator(self):
        return "," if self.sep is None else self.sep


@dataclass
class Wild:
    path: list  # of str | Acc | Var
    method: str | None = None
    params: list = field(default_factory=list)  # (name, Seq)

    @property
    def name(self):
        return "".join(p if isinstance(p, str) else "<dyn>" for p in self.path)

    @property
    def static(self):
        return all(isinstance(p, str) for p in self.path)


@dataclass
class Acc:
    name: str
    default: Any = None  # Seq | None


@dataclass
class Asg:
    name: str
    value: Any
    immediate: bool = False
    preserve: bool = False


@dataclass
class Wrap:
    wrapper: Any
    inner: Any


@dataclass
class Seq:
    items: list


@dataclass(frozen=True)
class Cfg:
    variant_start: str = "{"
    variant_end: str = "}"
    wildcard_wrap: str = "__"
    variable_start: str = "${"
    variable_end: str = "}"
    wrap_start: str = "%{"
    wrap_end: str = "}"

    def tokens(self):
        return [self.variant_start, self.variant_end, self.wildcard_wrap,
                self.variable_start, self.variable_end, self.wrap_start, self.wrap_end]

    @functools.lru_cache(maxsize=64)
    def real(self):
        from dynamicprompts.parser.config import ParserConfig
        return ParserConfig(**dataclasses.asdict(self))

    @property
    def has_paren(self):
        return any(c in "()" for t in self.tokens() for c in t)


DEFAULT = Cfg()

# each differs from the default in one pair of tokens, most in one token
ONE_OFF_CFGS = [
    Cfg(variant_start="<", variant_end=">"), Cfg(variant_end="}}"), Cfg(wildcard_wrap="++"), Cfg(variable_start="$<"), Cfg(variable_end="$}"),
    Cfg(wrap_start="%<"), Cfg(wrap_end="%}"), Cfg(variable_start="$(", variable_end=")"), Cfg(wrap_start="<%", wrap_end="%>"),
    Cfg(variable_end=">"), Cfg(wrap_end=">"),
]

CUSTOM_CFGS = [
    Cfg(variant_start="<", variant_end=">"),
    Cfg(variant_start="[", variant_end="]"),
    Cfg(variant_start="<<", variant_end=">>"),
    Cfg(variant_start="[[", variant_end="]]", variable_start="<", variable_end=">"),
    Cfg(variant_start="(", variant_end=")"),
    Cfg(variant_start="«", variant_end="»", wildcard_wrap="§"),
    Cfg(variant_start="【", variant_end="】", variable_start="€(", variable_end=")"),
    Cfg(wildcard_wrap="&&"),
    Cfg(wildcard_wrap="^^", variant_start="<", variant_end=">"),
    Cfg(wildcard_wrap=":w:"),
    Cfg(wildcard_wrap="+"),
    Cfg(wildcard_wrap="%%"),
    Cfg(variable_start="$[", variable_end="]"),
    Cfg(variable_start="?<", variable_end="?>", wrap_start="&<", wrap_end="&>"),
    Cfg(wrap_start="%[", wrap_end="]"),
    Cfg(variant_start="{{", variant_end="}}", variable_start="[$", variable_end="$]",
        wrap_start="[%", wrap_end="%]"),
    Cfg(variant_start="\\(", variant_end="\\)", wildcard_wrap="\\w"),
    Cfg(variant_start="^{", variant_end="}^", variable_start="v[", variable_end="]v"),
    Cfg(variant_start="<", variant_end=">", variable_start="<=", variable_end="=>",
        wildcard_wrap="--"),
    Cfg(variant_start="[", variant_end="]", variable_start="${", variable_end="}",
        wrap_start="[*", wrap_end="*]"),
]


class Render:
    """Writes a tree in a notation; with a layout stream, with random ignorable padding."""

    def __init__(self, cfg: Cfg = DEFAULT, layout=None):
        self.cfg = cfg
        self.layout = layout

    def pad(self):
        if self.layout is None:
            return ""
        return self.layout.choice(["", "", "", " ", "  ", "\n", "\t", " \n "])

    def __call__(self, node) -> str:
        c = self.cfg
        if isinstance(node, Seq):
            return "".join(self(i) for i in node.items)
        if isinstance(node, Lit):
            return node.text
        if isinstance(node, Var):
            s = c.variant_start + self.pad() + (node.method or "")
            if node.bound is not None:
                form, lo, hi = node.bound
                s += {"exact": f"{lo}", "range": f"{lo}-{hi}", "lower": f"{lo}-",
                      "upper": f"-{hi}"}[form] + "$$"
                if node.sep is not None:
                    s += node.sep + "$$"
            opts = []
            for o in node.options:
                w = "" if o.weight is None else o.weight + "::"
                opts.append(self.pad() + w + self(o.node))
            return s + "|".join(opts) + c.variant_end
        if isinstance(node, Wild):
            s = c.wildcard_wrap + (node.method or "")
            s += "".join(p if isinstance(p, str) else self(p) for p in node.path)
            if node.params:
                s += "(" + ",".join(
                    self.pad() + k + self.pad() + "=" + self.pad() + self(v) + self.pad()
                    for k, v in node.params) + ")"
            return s + c.wildcard_wrap
        if isinstance(node, Acc):
            s = c.variable_start + self.pad() + node.name + self.pad()
            if node.default is not None:
                s += ":" + self.pad() + self(node.default)
            return s + c.variable_end
        if isinstance(node, Asg):
            return (c.variable_start + self.pad() + node.name + self.pad()
                    + ("?" if node.preserve else "") + "=" + ("!" if node.immediate else "")
                    + self.pad() + self(node.value) + c.variable_end)
        if isinstance(node, Wrap):
            return (c.wrap_start + self.pad() + self(node.wrapper) + "$$" + self.pad()
                    + self(node.inner) + c.wrap_end)
        raise TypeError(node)


# ---------------------------------------------------------------------------------------
# literal text

WORDS = ["red", "a cat", "b", "c", "dog", "x1", "Blue sky", "of", "night", "K", "oil paint",
         "42", "3d", "é", "漢字", "p q r"]
FANCY = [", ", ". ", ": ", "; ", "! ", " - ", "'s ", "(", ")", "[", "]", "<", ">", "/", "\\", "*",
         "+", "=", "&", "^", "~", "@", "?", '"', "`", "$", "%", "_", "50% ", "$5 ", "{", "}", "|",
         "\t", "\n", "  ", "\r\n", " \t ", "\u00a0", "😀", "ß", "İ", "\u200b", "e\u0301", "\u2028",
         "\x0b", "\x0c", "--", "::", "1::", "2$", "http://x.y/z ", "a/b", ":)", "...", "…", "key=val",
         "50%", "\x00", "\ufeff", "\x1c", "，", "\\|", "\\\\", "\\n", "\\(", "\\)", "\\,", "\\}", "3: ", "2 - ", "1) ",
         "10x ", "0.5 ", "2. "]


def _has(text, toks):
    return any(t in text for t in toks)


class Gen:
    """Random templates. `feat` switches constructs on."""

    ALL = frozenset("var wild acc asg imm wrap bounds weights methods params dynpath".split())

    def __init__(self, rng, cfg=DEFAULT, feat=ALL, depth=3, fancy=0.15, max_items=4,
                 wild_names=("w0", "w1", "d/w2"), vars=(), zero_weights=True, max_opts=4,
                 max_lang=None, param_wilds=True):
        self.param_wilds = param_wilds
        self.r = rng
        self.cfg = cfg
        self.feat = set(feat)
        if cfg.has_paren:
            self.feat -= {"params", "dynpath"}
        self.depth = depth
        self.fancy = fancy
        self.max_items = max_items
        self.wild_names = list(wild_names)
        self.vars = list(vars)
        self.zero_weights = zero_weights
        self.max_opts = max_opts
        self.tokchars = {c for t in cfg.tokens() for c in t} | set("#$|%")

    # -- literals
    def literal(self, ctx, simple=False):
        for _ in range(200):
            t = self._literal()
            if self.ok_literal(t, ctx):
                return Lit(t)
        return Lit("z")

    def _literal(self):
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if r.random() < self.fancy:
                parts.append(r.choice(FANCY))
            else:
                parts.append(r.choice(WORDS))
            if r.random() < 0.25:
                parts.append(" ")
        return "".join(parts)

    def ok_literal(self, t, ctx):
        c = self.cfg
        if not t:
            return False
        bad = ["#", "/*", c.variant_start, c.variable_start, c.wrap_start, c.wildcard_wrap]
        if ctx != "top":
            bad += ["|", "$$", c.variant_end, c.variable_end, c.wrap_end]
        if ctx == "param":
            bad += [",", "(", ")", "="]
        if _has(t, bad):
            return False
        if t[0] in self.tokchars or t[-1] in self.tokchars or t[0] == "/" or t[-1] == "/":
            return False
        return True

    def ok_first(self, t, ctx):
        """May text start an option, value, default or wrap part?"""
        if t[0].isspace() or t[0] in "\u200b\ufeff":
            return False
        if ctx in ("opt", "val", "param") and t[0] in "~!@":
            return False
        if ctx in ("opt", "param") and re.match(r"[\d.\-]+(::|\$\$)", t):
            return False  # reads as a weight or bound
        return True

    # -- prompts
    def prompt(self, ctx="top", depth=None, allow_empty=True):
        depth = self.depth if depth is None else depth
        r = self.r
        if ctx != "top" and allow_empty and r.random() < 0.04:
            return Seq([])
        if ctx == "top":
            n = r.choice([1, 2, 2, 3, 3, 4, 5][: self.max_items + 2])
        else:
            n = r.choice([1, 1, 1, 2, 3]) if depth > 0 else r.choice([1, 1, 1, 1])
        items = []
        for _ in range(n):
            it = self.item(ctx, depth)
            if isinstance(it, Lit) and items and isinstance(items[-1], Lit):
                if self.ok_literal(items[-1].text + it.text, ctx):
                    items[-1].text += it.text
                continue
            items.append(it)
        if ctx != "top" and isinstance(items[0], Lit) and not self.ok_first(items[0].text, ctx):
            items[0] = Lit(self.word(ctx))
        if ctx == "param" and isinstance(items[-1], Lit) and items[-1].text != items[-1].text.rstrip():
            items[-1] = Lit(self.word(ctx))
        return Seq(items)

    def word(self, ctx):
        while True:
            w = self.r.choice(WORDS)
            if self.ok_literal(w, ctx) and self.ok_first(w, ctx):
                return w

    def kinds(self, ctx, depth):
        k = [("lit", 4)]
        if depth > 0:
            if "var" in self.feat:
                k.append(("var", 5))
            if "wrap" in self.feat and ctx != "param":
                k.append(("wrap", 1))
        if "wild" in self.feat and self.wild_names and (ctx != "param" or self.param_wilds):
            k.append(("wild", 2))
        if "acc" in self.feat:
            k.append(("acc", 2))
        return k

    def item(self, ctx, depth):
        r = self.r
        ks = self.kinds(ctx, depth)
        kind = r.choices([a for a, _ in ks], [b for _, b in ks])[0]
        return getattr(self, "g_" + kind)(ctx, depth)

    def g_lit(self, ctx, depth):
        return self.literal(ctx)

    def weight(self):
        r = self.r
        return r.choice(["1", "2", "3", "0.5", ".5", "1.", "10", "0.25", "2.75", "0.1", "007",
                         "1.0", "100", "0.05", "0.00025", "1234.56789", "0.333333333", "12345678", "2.0000001"])

    def separator(self):
        for _ in range(100):
            s = self.r.choice([", ", " and ", " ", "-", "; ", "|", " | ", "/", "::", " + ", "~", "@",
                               "!", ",", ".", "a", "1", "=", " %", "  ", "(", ")", "--", ":", "[", "]", "\\", "^", "_", "`",
                               "<", ">", "*", "?", "&", "'", '"', " [x] ", "z", "AND", "<br>", "Z9", " & "])
            if not _has(s, [self.cfg.variant_start, self.cfg.variant_end, self.cfg.wrap_start, self.cfg.wildcard_wrap,
                            self.cfg.variable_start]) and \
                    not _has(s, "${}#") and "//" not in s and "/*" not in s:
                return s
        return " "

    def g_var(self, ctx, depth, method=True):
        r = self.r
        n = r.choice([1, 2, 2, 2, 3, 3, 4, 5][: self.max_opts + 3])
        sub = "param" if ctx == "param" else "opt"
        options = [Opt(self.prompt(sub if sub == "opt" else "param", depth - 1)) for _ in range(n)]
        if sub == "param":
            for o in options:
                if o.node.items and isinstance(o.node.items[0], Lit) and \
                        not self.ok_first(o.node.items[0].text, "opt"):
                    o.node.items[0] = Lit("q")
        v = Var(options)
        if "bounds" in self.feat and r.random() < 0.3 and ctx != "param":
            lo, hi = r.randint(0, n + 1), r.randint(0, n + 1)
            v.bound = (r.choice(["exact", "range", "lower", "upper"]), lo, hi)
            if r.random() < 0.6:
                v.sep = self.separator()
        if "weights" in self.feat and r.random() < 0.3:
            for o in options:
                if r.random() < 0.7:
                    o.weight = self.weight()
            if self.zero_weights and n > 1 and v.bound is None and r.random() < 0.3:
                o = r.choice(options[1:])
                o.weight = r.choice(["0", "0.0", ".0"])
                if options[0].weight is not None and float(options[0].weight) == 0:
                    options[0].weight = None
        if method and "methods" in self.feat and r.random() < 0.2:
            v.method = r.choice("~@!")
        return v

    def g_wild(self, ctx, depth):
        r = self.r
        w = Wild([r.choice(self.wild_names)])
        if "methods" in self.feat and r.random() < 0.15:
            w.method = r.choice("~@!")
        if "dynpath" in self.feat and r.random() < 0.1 and ctx != "param":
            k = r.random()
            base = r.choice(["w", "d/w", "q/"])
            if k < 0.5:
                w.path = [base, Var([Opt(Seq([Lit(x)])) for x in r.sample(["0", "1", "2"], 2)])]
            else:
                w.path = [base, Acc(r.choice(["n", "k"]),
                                    Seq([Lit(r.choice(["0", "1"]))]) if r.random() < 0.7 else None)]
            if r.random() < 0.3:
                w.path.append("/z")
        if "params" in self.feat and r.random() < 0.2 and ctx != "param":
            names = r.sample(["p", "q", "long_name", "x-y"], r.choice([1, 1, 2]))
            w.params = [(k, self.prompt("param", min(1, depth - 1) if depth > 0 else 0,
                                        allow_empty=False)) for k in names]
        return w

    def g_acc(self, ctx, depth):
        r = self.r
        name = r.choice(self.vars or ["v", "w_", "a-b", "_x", "Var9"])
        d = None
        if r.random() < 0.5:
            d = self.prompt("param" if ctx == "param" else "val", depth - 1)
        return Acc(name, d)

    def g_wrap(self, ctx, depth):
        r = self.r
        wr = self.prompt("val", depth - 1)
        if r.random() < 0.7:
            m = r.choice(["...", "…", "....", "⋯", "⋮", "……"])
            wr = Seq(wr.items + [Lit(m)]) if r.random() < 0.5 or not wr.items else \
                Seq([Lit("k" + m)] + wr.items)
            wr = self.merge(wr)
        return Wrap(wr, self.prompt("val", depth - 1))

    @staticmethod
    def merge(seq):
        out = []
        for it in seq.items:
            if isinstance(it, Lit) and out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].text + it.text)
            else:
                out.append(it)
        return Seq(out)

    def assignment(self, name, depth=1):
        r = self.r
        v = self.prompt("val", depth)
        return Asg(name, v, immediate="imm" in self.feat and r.random() < 0.3,
                   preserve=r.random() < 0.15)

    def template(self):
        """A top-level prompt, with assignments if enabled."""
        seq = self.prompt("top")
        if "asg" in self.feat and self.r.random() < 0.4:
            for _ in range(self.r.choice([1, 1, 2])):
                a = self.assignment(self.r.choice(self.vars or ["v", "w_"]))
                seq.items.insert(self.r.randint(0, len(seq.items)), a)
            seq = self.merge(seq)
        return seq


def walk(node):
    yield node
    if isinstance(node, Seq):
        for i in node.items:
            yield from walk(i)
    elif isinstance(node, Var):
        for o in node.options:
            yield from walk(o.node)
    elif isinstance(node, Wild):
        for p in node.path:
            if not isinstance(p, str):
                yield from walk(p)
        for _, v in node.params:
            yield from walk(v)
    elif isinstance(node, Acc):
        if node.default is not None:
            yield from walk(node.default)
    elif isinstance(node, Asg):
        yield from walk(node.value)
    elif isinstance(node, Wrap):
        yield from walk(node.wrapper)
        yield from walk(node.inner)
