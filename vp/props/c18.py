"""Lookup: which collections a name or pattern reaches, and in what form their values come back."""
import random
from collections import Counter

from .. import core
from ..fs import observed
from ..sem import make_collection

SEGS = ["a", "b", "ab", "abc", "colours", "sub dir", "é", "x.y", "A", "w0", "t-1", "_u", "日本", "0", "n[1]", "a_b", "q!", "~s",
        "v1", "aa", "[x", "p]", "cat", "cats", ".a", ".b", ".abc"]
VALUES = ["red", "Red", "green", "a cat", "{a|b}", "é", "日本", "10", "9", "x, y", "zebra", "Zebra", "_", "~", "ß", "B", "b"]
WRAPS = ["__", "__", "__", "@@", "§", "%%%", "_"]


def glob(name, pat):
    """Whether the whole of `name` matches: * any run, ? any character, [..] and [!..] sets, all else itself."""
    def tokens():
        i, out = 0, []
        while i < len(pat):
            c = pat[i]
            if c == "[":
                j = pat.find("]", i + (3 if pat[i + 1:i + 2] == "!" else 2))
                if j < 0:
                    out.append(("c", "["))
                    i += 1
                    continue
                body = pat[i + 1:j]
                neg = body[0] == "!"
                body = body[1:] if neg else body
                chars, k = set(), 0
                while k < len(body):
                    if k + 2 < len(body) and body[k + 1] == "-":
                        chars |= {chr(x) for x in range(ord(body[k]), ord(body[k + 2]) + 1)}
                        k += 3
                    else:
                        chars.add(body[k])
                        k += 1
                out.append(("s", chars, neg))
                i = j + 1
            else:
                out.append(("*",) if c == "*" else ("?",) if c == "?" else ("c", c))
                i += 1
        return out
    states = {0}
    toks = tokens()

    def close(st):
        st = set(st)
        for i, t in enumerate(toks):
            if i in st and t[0] == "*":
                st.add(i + 1)
        return st
    states = close(states)
    for ch in name:
        nxt = set()
        for s in states:
            if s == len(toks):
                continue
            t = toks[s]
            if t[0] == "*":
                nxt.add(s)
            elif t[0] == "?" or (t[0] == "c" and t[1] == ch) or (t[0] == "s" and (ch in t[1]) != t[2]):
                nxt.add(s + 1)
        states = close(nxt)
    return len(toks) in states


class Monitor(core.Check):
    id = "C18"
    technique = "reference-model monitor of wildcard lookups, with before/after snapshots of the collections"
    rule = ("a case is a generated set of collections with a number of lookups under generated settings; distinct by collections, "
            "pattern and settings; non-trivial: some value found")
    quick = 20000
    thorough = 500000
    required = ("exact", "glob", "fallback", "fallback_glob", "nothing_found", "several_collections", "duplicates_removed",
                "duplicates_kept", "sorted", "unsorted", "shuffled", "shuffle_orders", "wrapped", "slashes", "backslashes", "dotdot",
                "weighted", "custom_wrap", "match_collections", "get_file", "deprecated", "across_slash", "char_class", "empty_first",
                "by_template", "unshuffled_again", "order_within_collection", "empty_name", "large")

    def setup(self):
        from dynamicprompts.wildcards import WildcardManager
        self.Manager = WildcardManager

    def collections(self, rng, wrap):
        """name -> [(text, weight or None)], and how they are given"""
        out = {}
        pool = rng.sample(SEGS, 6)
        for _ in range(rng.choice([1, 3, 6, 12])):
            name = "/".join(rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 2, 3])))
            if ".." in name or name.startswith(wrap) or name.endswith(wrap):
                continue
            k = rng.random()
            vals = [(rng.choice(VALUES), None) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
            if k < 0.3:
                vals = [(t, rng.choice([None, 1.0, 2.0, 0.5, 2])) for t, _ in vals]
            out[name] = vals
        return out

    def pattern(self, rng, cols):
        k = rng.random()
        name = rng.choice(list(cols)) if cols and rng.random() < 0.9 else "nowhere"
        if k < 0.3:
            return name
        if k < 0.45:   # a name in a sub-directory
            return name.split("/", 1)[1] if "/" in name else name
        if k < 0.5:
            return rng.choice(["*", "**", "*/*", "**/*", "?", "a*", "*a", "[ab]*", "*/*/*", "nothing*", "??", "**/a", "[!a]*"])
        s = list(name)
        if rng.random() < 0.3 and "/" in name:
            s = list(name.split("/", 1)[1])
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(s))
            j = rng.randint(i, len(s))
            m = rng.random()
            if m < 0.45:
                s[i:j] = "*"
            elif m < 0.7:
                s[i] = "?"
            elif m < 0.8:
                s[i] = rng.choice(["[%s]" % (s[i] if s[i] not in "[]!-" else "x"), "[!x]", "[a-z]", "[!a-c]", "[ab]", "[0-9]"])
            elif m < 0.9:
                s.insert(i, "*")
            else:
                s.insert(i, rng.choice("ab?"))
        return "".join(s)

    def dress(self, rng, pat, wrap):
        """The same pattern, written differently."""
        s = pat
        if rng.random() < 0.2 and "/" in s:
            i = s.index("/")
            s = s[:i] + rng.choice(["//", "///", "/\\", "\\/"]) + s[i + 1:]
            self.rec.count("slashes")
        if rng.random() < 0.15 and "/" in s:
            s = s.replace("/", "\\")
            self.rec.count("backslashes")
        if rng.random() < 0.2:
            s = rng.choice(["/", "//", "\\", ""]) + s + rng.choice(["/", "//", ""])
            self.rec.count("slashes")
        if rng.random() < 0.4:
            s = wrap + s + wrap
            self.rec.count("wrapped")
        return s

    def directed(self):
        def large(rng):
            # however many values or collections
            for n in (999, 5001, 12000):
                vals = ["%06d" % (i * 7 % 1000003) for i in range(n)]
                wm = self.Manager(root_map={"": [{"big": list(vals), "sub/part": vals[: n // 2]}]})
                self.expect_eq(core.call(lambda: list(wm.get_values("big").string_values)), sorted(vals), "values of a large collection", size=n)
                self.expect_eq(core.call(lambda: list(wm.get_values("part").string_values)), sorted(vals[: n // 2]), "values of a large collection", size=n)
                wm.sort_wildcards = wm.dedup_wildcards = False
                self.expect_eq(core.call(lambda: list(wm.get_values("*").string_values)), vals + vals[: n // 2], "values of large collections", size=n)
            for n in (99, 300, 1100):
                wm = self.Manager(root_map={"": [{"d%d/c%04d" % (i % 7, i): ["v%04d" % i] for i in range(n)}]})
                want = ["v%04d" % i for i in range(n)]
                for pat in ("*", "d*", "c*", "c????", "**/c*"):
                    self.expect_eq(core.call(lambda: list(wm.get_values(pat).string_values)), want, "values of many collections", pattern=pat, size=n)
            for n in (150, 700, 1500, 9000):
                vals = ["%05d" % i for i in range(n)]
                wm = self.Manager(root_map={"": [{"big": list(vals)}]})
                wm.shuffle_wildcards = True
                got = core.call(lambda: list(wm.get_values("big").string_values))
                self.expect(not isinstance(got, core.Err) and sorted(got) == vals and got != vals, "not a permutation of the values", size=n,
                            got=got if isinstance(got, core.Err) else len(set(got)))
            self.rec.count("large")
        return [large]

    def case(self, rng, index):
        wrap = rng.choice(WRAPS)
        if wrap != "__":
            self.rec.count("custom_wrap")
        cols = self.collections(rng, wrap)
        given, objs = {}, {}
        for name, vals in cols.items():
            if any(w is not None for _, w in vals) or rng.random() < 0.3:
                given[name] = objs[name] = make_collection(vals)
                if rng.random() < 0.5:
                    # a collection that hands out the very list it keeps
                    c = objs[name]
                    c.get_values = lambda c=c: c.entries
            else:
                given[name] = [t for t, _ in vals]
        snapshot = {n: list(g.entries if n in objs else g) for n, g in given.items()}
        split = rng.random() < 0.3
        if split:
            names = list(given)
            rm = {"": [{n: given[n] for n in names[::2]}, {n: given[n] for n in names[1::2]}]}
        else:
            rm = {"": [dict(given)]}
        wm = self.Manager(wildcard_wrap=wrap, root_map=rm)
        sort, dedup = True, True
        if rng.random() < 0.5:
            sort, dedup = rng.random() < 0.5, rng.random() < 0.5
            wm.sort_wildcards, wm.dedup_wildcards = sort, dedup
        base = dict(collections=cols, wrap=wrap, sort=sort, dedup=dedup)
        for _ in range(rng.choice([2, 4, 8])):
            pat = self.pattern(rng, cols)
            if rng.random() < 0.02:
                pat = ""
            if pat.strip("/") != pat or "//" in pat or pat.startswith(wrap) or pat.endswith(wrap):
                continue
            asked = self.dress(rng, pat, wrap)
            if pat == "":
                self.rec.count("empty_name")
            hit = [n for n in cols if glob(n, pat)]
            dots = ".." in pat
            if not dots and rng.random() < 0.05:
                asked = rng.choice(["../" + asked, asked + "..", asked.replace("/", "/../", 1) if "/" in asked else ".." + asked])
                dots = True
            if dots:
                hit = []
                self.rec.count("dotdot")
            direct = list(hit)
            if not dots and not any(cols[n] for n in hit):
                hit = [n for n in cols if glob(n, "*/" + pat)]
                if any(cols[n] for n in hit):
                    self.rec.count("fallback" if not set(pat) & set("*?[") else "fallback_glob")
                    if direct:
                        self.rec.count("empty_first")
            info = dict(asked=asked, pattern=pat, matching=hit, **base)
            self.context = info
            got = core.call(lambda: wm.get_values(asked))
            if isinstance(got, core.Err):
                raise core.Violation("lookup failed", {"got": repr(got), **{k: core.show(v) for k, v in info.items()}})
            self.judge(core.call(lambda: observed(got)), hit, cols, sort, dedup, info)
            self.expect_eq(core.call(lambda: (list(got.string_values), len(got), bool(got))),
                           ([str(v) for v in got], len(list(got)), bool(list(got))), "string values differ from the values", **info)
            if set(pat) & set("*?["):
                self.rec.count("glob")
                if any("/" in n[len(n) - len(n.lstrip("/")):] and "/" not in pat for n in direct):
                    self.rec.count("across_slash")
                if "[" in pat:
                    self.rec.count("char_class")
            elif direct:
                self.rec.count("exact")
            if not list(got):
                self.rec.count("nothing_found")
            else:
                self.rec.distinct(sorted(cols.items()), pat, sort, dedup)
            if len(hit) > 1:
                self.rec.count("several_collections")
            self.rec.count("sorted" if sort else "unsorted")
            if any(w is not None for n in hit for _, w in cols[n]):
                self.rec.count("weighted")
            if rng.random() < 0.3:
                mc = core.call(lambda: sorted(tuple(observed(c.get_values())) for c in wm.match_collections(asked)))
                self.expect_eq(mc, sorted(tuple((t, 1.0 if w is None else float(w)) for t, w in cols[n]) for n in direct),
                               "matching collections", **info)
                self.rec.count("match_collections")
            if pat in cols and not dots:
                f = core.call(lambda: wm.get_file(asked))
                self.expect(not isinstance(f, core.Err) and observed(f.get_values()) ==
                            [(t, 1.0 if w is None else float(w)) for t, w in cols[pat]], "collection of that name", got=f, **info)
                self.rec.count("get_file")
            if rng.random() < 0.1:
                self.expect_eq(core.call(lambda: list(wm.get_all_values(asked))), [str(v) for v in got], "get_all_values", **info)
                self.rec.count("deprecated")
            if not pat:
                continue  # an empty name has no wrapped form
            w1 = core.call(lambda: wm.to_wildcard(pat))
            self.expect_eq(w1, wrap + pat + wrap, "wrapped form of a name", **info)
            self.expect_eq(core.call(lambda: (wm.is_wildcard(w1), wm.to_wildcard(w1))), (True, w1), "wrapped form is not stable", **info)
            if rng.random() < 0.15:
                self.shuffle(rng, wm, asked, [str(v) for v in got], sort, info)
            if wrap == "__" and rng.random() < 0.2 and sort and dedup and hit:
                self.template(wm, asked, pat, got, info)
        now = {n: list(g.entries if n in objs else g) for n, g in given.items()}
        self.expect_eq(now, snapshot, "lookup changed the collections", **base)
        self.rec.sample({"collections": list(cols)[:6], "last pattern": self.context.get("asked") if isinstance(self.context, dict) else ""})

    def judge(self, got, hit, cols, sort, dedup, info):
        want = [(t, 1.0 if w is None else float(w)) for n in hit for t, w in cols[n]]
        cw = Counter(want)
        if dedup:
            if any(c > 1 for c in cw.values()):
                self.rec.count("duplicates_removed")
            cw = Counter(set(want))
        elif any(c > 1 for c in cw.values()):
            self.rec.count("duplicates_kept")
        self.expect(not isinstance(got, core.Err) and Counter(got) == cw, "not exactly the values of the matching collections",
                    got=got, wanted=sorted(cw.elements()), **info)
        texts = [t for t, _ in got]
        if sort:
            self.expect_eq(texts, sorted(texts), "values are not sorted", **info)
        else:
            for n in hit:
                # each collection's values keep their order
                own = [(t, 1.0 if w is None else float(w)) for t, w in cols[n]]
                if dedup:
                    own = list(dict.fromkeys(own))
                    seen = [v for v in got if v in own]
                    if len(hit) == 1:
                        self.expect_eq(seen, own, "order of a collection's values", **info)
                        self.rec.count("order_within_collection")
                elif len(hit) == 1:
                    self.expect_eq(list(got), own, "order of a collection's values", **info)
                    self.rec.count("order_within_collection")

    def shuffle(self, rng, wm, asked, plain, sort, info):
        wm.shuffle_wildcards = True
        orders = set()
        for _ in range(12):
            got = core.call(lambda: [str(v) for v in wm.get_values(asked)])
            self.expect(not isinstance(got, core.Err) and sorted(got) == sorted(plain), "shuffling is not a permutation", got=got,
                        unshuffled=plain, **info)
            orders.add(tuple(got))
        if len(set(plain)) >= 5:
            self.expect(len(orders) > 1, "shuffled lookups never change the order", **info)
            self.rec.count("shuffle_orders", len(orders))
        self.rec.count("shuffled")
        wm.shuffle_wildcards = False
        self.expect_eq(core.call(lambda: [str(v) for v in wm.get_values(asked)]), plain, "shuffling left a trace", **info)
        self.rec.count("unshuffled_again")

    def template(self, wm, asked, pat, got, info):
        """The same lookup from a template."""
        from dynamicprompts.generators import CombinatorialPromptGenerator
        if not all(c.isalnum() or c in "/*?-" for c in pat) or any(c in "{}|" for v in got for c in str(v)):
            return
        want = [str(v) for v in got for _ in range(int(getattr(v, "weight", 1)))]
        if not want:
            return
        ps = core.call(lambda: list(CombinatorialPromptGenerator(wm).generate(f"__{pat}__", len(want) + 3)))
        self.expect_eq(ps, want, "a template does not see the values looked up", **info)
        self.rec.count("by_template")
