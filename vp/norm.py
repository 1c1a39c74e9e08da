"""Structural normal forms: of a generated tree (what was written) and of a parsed command."""
from __future__ import annotations

from .tpl import BIG, Acc, Asg, Lit, Seq, Var, Wild, Wrap, walk

METHOD = {"~": "random", "!": "combinatorial", "@": "cycle", None: None}


def _seq(items):
    out = []
    for it in items:
        if it[0] == "seq":
            for x in it[1]:
                _push(out, x)
        else:
            _push(out, it)
    if len(out) == 1:
        return out[0]
    return ("seq", tuple(out))


def _push(out, it):
    if it[0] == "lit":
        if not it[1]:
            return
        if out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + it[1])
            return
    out.append(it)


def _bounds(lo, hi, n, sole):
    lo, hi = min(lo, hi), max(lo, hi)
    if sole:
        return (min(lo, BIG), min(hi, BIG))
    return (min(lo, n), min(hi, n))


def _is_wild(norm):
    return norm[0] == "wild"


def of_tree(node):
    if isinstance(node, Lit):
        return ("lit", node.text)
    if isinstance(node, Seq):
        return _seq([of_tree(i) for i in node.items])
    if isinstance(node, Var):
        opts = tuple((o.w, of_tree(o.node)) for o in node.options)
        lo, hi = node.raw_limits()
        sole = len(opts) == 1 and _is_wild(opts[0][1])
        return ("var", opts, _bounds(lo, hi, len(opts), sole), node.separator, METHOD[node.method])
    if isinstance(node, Wild):
        path = []
        for p in node.path:
            if isinstance(p, str):
                path.append(("lit", p))
            elif isinstance(p, Acc):
                d = of_tree(p.default) if p.default is not None else ("lit", p.name)
                path.append(("acc", p.name, d))
            else:
                path.append(of_tree(p))
        return ("wild", _seq(path), METHOD[node.method],
                tuple(sorted((k, of_tree(v)) for k, v in node.params)))
    if isinstance(node, Acc):
        return ("acc", node.name, None if node.default is None else of_tree(node.default))
    if isinstance(node, Asg):
        return ("asg", node.name, of_tree(node.value), node.immediate, node.preserve)
    if isinstance(node, Wrap):
        return ("wrap", of_tree(node.wrapper), of_tree(node.inner))
    raise TypeError(node)


def of_command(c):
    from dynamicprompts.commands import (LiteralCommand, SequenceCommand, VariantCommand,
                                         WildcardCommand, WrapCommand)
    from dynamicprompts.commands.variable_commands import (VariableAccessCommand,
                                                           VariableAssignmentCommand)

    def m(x):
        return None if x is None else x.value

    if isinstance(c, LiteralCommand):
        return ("lit", c.literal)
    if isinstance(c, SequenceCommand):
        return _seq([of_command(t) for t in c.tokens])
    if isinstance(c, VariantCommand):
        opts = tuple((float(v.weight), of_command(v.value)) for v in c.variants)
        sole = len(opts) == 1 and _is_wild(opts[0][1])
        return ("var", opts, _bounds(c.min_bound, c.max_bound, len(opts), sole), c.separator,
                m(c.sampling_method))
    if isinstance(c, WildcardCommand):
        w = c.wildcard
        path = ("lit", w) if isinstance(w, str) else of_command(w)
        return ("wild", _seq([path]), m(c.sampling_method),
                tuple(sorted((k, of_command(v)) for k, v in c.variables.items())))
    if isinstance(c, VariableAccessCommand):
        return ("acc", c.name, None if c.default is None else of_command(c.default))
    if isinstance(c, VariableAssignmentCommand):
        return ("asg", c.name, of_command(c.value), bool(c.immediate), not c.overwrite)
    if isinstance(c, WrapCommand):
        return ("wrap", of_command(c.wrapper), of_command(c.inner))
    return ("unknown", repr(c))


def bounds_of_tree(node):
    """Bounds of the variants in the order written; None where nothing or only one of two bounds was written."""
    out = []
    for n in walk(node):
        if isinstance(n, Var):
            lo, hi = n.raw_limits()
            out.append((min(lo, hi), max(lo, hi)) if n.bound and n.bound[0] in ("exact", "range") else None)
    return out


def bounds_of_command(c):
    out = []

    def go(c):
        kind = type(c).__name__
        if kind == "VariantCommand":
            out.append((c.min_bound, c.max_bound))
            for v in c.variants:
                go(v.value)
        elif kind == "SequenceCommand":
            for t in c.tokens:
                go(t)
        elif kind == "WildcardCommand":
            if not isinstance(c.wildcard, str):
                go(c.wildcard)
            for v in c.variables.values():
                go(v)
        elif kind == "VariableAccessCommand":
            if c.default is not None:
                go(c.default)
        elif kind == "VariableAssignmentCommand":
            go(c.value)
        elif kind == "WrapCommand":
            go(c.wrapper)
            go(c.inner)
    go(c)
    return out


def kinds(norm, out=None):
    """Construct kinds and nesting depth in a normal form."""
    out = set() if out is None else out

    def go(x, d):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in (
                "lit", "seq", "var", "wild", "acc", "asg", "wrap"):
            out.add((x[0], d))
            for y in x[1:]:
                go(y, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                go(y, d)
    go(norm, 0)
    return out
