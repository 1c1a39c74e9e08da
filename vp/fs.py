"""Random wildcard directories together with the collections they define."""
from __future__ import annotations

import json
import os

import yaml

LINES = ["red", "a cat", "{a|b}", "__w0__", "x, y; z", "日本 語", "é", "1::plain", "(q:1.2)", "a # not comment", "b#c",
         "-", "0", "null", "true", "\"quoted\"", "'q'", "a:b", "50%", "$v", "tab\tinside", "a  b", "nb\u00a0sp", "ß", "İ",
         "http://x.y/z", "\\path\\x", "..", "a\u2028b", "a\x0bb", "a\x1cb"]
BLANKS = ["", " ", "\t", "# comment", "  # indented comment", "#", "\u00a0", "\u3000 ", "#x{a|b}"]
PADS = ["", "", "", " ", "  ", "\t", "\u00a0", "\u3000"]
EOLS = ["\n", "\n", "\r\n", "\r"]
SEGS = ["a", "b", "colours", "sub dir", "é", "x.y", "A", "w0", "t-1", "_u", "日本", "0", "n[1]", "deep", "q.txt", "v.json"]


def text_file(rng):
    """(bytes, values)"""
    out, vals = [], []
    eol = rng.choice(EOLS)
    mixed = rng.random() < 0.2
    for _ in range(rng.choice([0, 1, 2, 3, 5, 12])):
        e = rng.choice(EOLS) if mixed else eol
        if rng.random() < 0.25:
            out.append(rng.choice(BLANKS) + e)
        else:
            v = rng.choice(LINES) + rng.choice(["", str(rng.randrange(30))])
            if rng.random() < 0.01:
                v = v + "".join(rng.choice(["long ", "é", "x,"]) for _ in range(rng.choice([300, 1100, 5000, 20000]))) + "end"
            vals.append(v)
            out.append(rng.choice(PADS) + v + rng.choice(PADS) + e)
    if out and rng.random() < 0.4:
        out[-1] = out[-1].rstrip("\r\n")
    return "".join(out).encode("utf-8"), vals


class Item:
    """A structured item: how it is written and what it means ((text, weight) or None)."""

    def __init__(self, written, meaning):
        self.written, self.meaning = written, meaning


WTEXTS = ["1", "2", "3", "0.5", "10", "2.75", "1.5", "0", "007", "1.", "1e1", "2 ", "0.1", "100", "2.0000001", "0.000000125", "0001.500000", "33.333333333333336"]


def item(rng, simple=False):
    t = rng.choice(LINES) + rng.choice(["", str(rng.randrange(50))])
    k = rng.random()
    if k < 0.5 or simple:
        if t[0].isdigit() and "::" in t:
            t = "p" + t
        return Item(t, (t, 1.0))
    if k < 0.62:
        w = rng.choice(WTEXTS)
        body = t if rng.random() < 0.8 else rng.choice(["{2::a|b}", "a::b", "::", "", " lead", "3::nested", "trail "])
        return Item(f"{w}::{body}", (body, float(w)))
    if k < 0.72:
        w = rng.choice([1, 2, 0.5, 3.0, 0, 2.5, 1.0, "2", "0.5", None])
        d = {rng.choice(["text", "content"]): t if rng.random() < 0.8 else rng.choice([" lead", "trail ", " both\t", "a\nb", "\u00a0x"])}
        if w is not None:
            d["weight"] = w
        if rng.random() < 0.2:
            d["extra"] = "ignored"
        items = list(d.items())
        rng.shuffle(items)
        return Item(dict(items), (d.get("text") or d["content"], 1.0 if w is None else float(w)))
    if k < 0.82:
        # looks like a weight but is not one
        t = rng.choice(["2girls::x", "1/2::y", "a::b", "::c", "-1::d", ".5::e", "1: :f", "3:g", "1,5::h", "1-2::i", "12", "x::2"])
        return Item(t, (t, 1.0))
    if k < 0.9:
        return Item(rng.choice([None, "", 0, [], {}, False]), None)
    return Item(rng.choice([5, 1.5, True, ["nested"], {"weight": 2}, {"text": ""}, {"other": "x"}]), None)


def entry(rng):
    """(written, values or None): one entry of a mapping."""
    k = rng.random()
    if k < 0.12:
        i = item(rng, simple=rng.random() < 0.5)
        if isinstance(i.written, str) and i.meaning and i.written:
            return i.written, [i.meaning]
        return "solo", [("solo", 1.0)]
    if k < 0.18:
        return rng.choice([None, "", [], {}, 0, 5, 2.5, True]), None
    items = [item(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
    if not any(i.meaning for i in items):
        items.append(Item("some", ("some", 1.0)))
    return [i.written for i in items], [i.meaning for i in items if i.meaning]


def mapping(rng, depth, names):
    """(data, {relative name: values}); `names` are already taken."""
    data, out = {}, {}
    for _ in range(rng.choice([1, 2, 3])):
        key = rng.choice(SEGS + ["k1", "k 2", "ключ", "a/b", "yes", "1"])
        if key in data:
            continue
        if depth > 0 and rng.random() < 0.35:
            sub, so = mapping(rng, depth - 1, ())
            data[key] = sub
            out.update({f"{key}/{n}": v for n, v in so.items()})
        else:
            w, v = entry(rng)
            data[key] = w
            if v is not None:
                out[key] = v
    if rng.random() < 0.1:
        data[7] = ["numeric key"]
    return data, out


def named(data):
    """Without the keys JSON cannot write (it would turn them into strings)."""
    if isinstance(data, dict):
        return {k: named(v) for k, v in data.items() if isinstance(k, str)}
    return data


def structured_file(rng, stem):
    """(suffix, bytes, {relative name: [(text, weight)]})"""
    suffix = rng.choice([".json", ".yaml"])
    if rng.random() < 0.2:
        items = [rng.choice([x for x in LINES]) + str(rng.randrange(9)) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < 0.3:
            items.insert(0, rng.choice([5, None, {"a": 1}, ["x"]]))
        data, out = items, {stem: [(t, 1.0) for t in items if isinstance(t, str)]}
    else:
        data, out = mapping(rng, rng.choice([0, 1, 2]), ())
        if rng.random() < 0.06:
            for _ in range(rng.choice([3, 6, 12])):
                key = rng.choice(SEGS)
                data, out = {key: data}, {f"{key}/{n}": v for n, v in out.items()}
        if len({n for n in out}) != len(out):
            raise AssertionError
        if suffix == ".json":
            data = named(data)
    if suffix == ".json":
        text = json.dumps(data, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2]))
    else:
        text = yaml.safe_dump(data, allow_unicode=rng.random() < 0.5, sort_keys=False,
                              default_flow_style=rng.choice([None, True, False]))
        if rng.random() < 0.3:
            text = "# comment\n---\n" + text
        if yaml.safe_load(text) != data:
            return structured_file(rng, stem)
    return suffix, text.encode("utf-8"), out


BROKEN = [
    (".json", b"{"), (".json", b""), (".json", b"not json"), (".json", b'{"a": ["x",]}'), (".json", b'{"a": ["x"]'),
    (".json", b"\xff\xfe{}"), (".json", b'{"a": "\xff"}'), (".json", b"null"), (".json", b"42"), (".json", b'"text"'),
    (".json", b"[1, 2, 3]"), (".json", b"[[[[" * 30000), (".json", b'{"a": {"b": NaN}}'),
    (".yaml", b"a: [x"), (".yaml", b"a: b: c"), (".yaml", b"\t- a"), (".yaml", b"!!python/object/apply:os.getcwd []"),
    (".yaml", b"a: *nowhere"), (".yaml", b"\xff\xfe\x00"), (".yaml", b"a: \xe9"), (".yaml", b"- [a\n- b"),
    (".yaml", b"&x {self: *x}"), (".yaml", b"&y [*y]"), (".yaml", b""), (".yaml", b"42"), (".yaml", b"--- a\n--- b\n"),
    (".yaml", b"a: !unknown [x]"), (".yaml", b"{[1]: a}"), (".yaml", b"? [a]\n: b"), (".yaml", b"\x00\x01"),
    (".yaml", b"a:\n  - {text: x, weight: heavy}\n"), (".json", b'{"bad": [{"text": "x", "weight": "heavy"}]}'),
    (".json", b'{"bad": [{"text": "x", "weight": null}]}'), (".json", b'{"bad": [{"text": "x", "weight": [1]}]}'),
]


class Pantry:
    """A directory of wildcards. `want`: name -> [(text, weight)]; weight None for text files."""

    def __init__(self, rng, path, broken=0, size=None, hidden=True, links=False, odd=()):
        self.path = path
        self.want = {}
        self.files = {}          # collection name of text files -> path
        self.broken = []
        self.rng = rng
        os.makedirs(path)
        dirs = [""]
        for _ in range(rng.choice([0, 1, 2, 4])):
            d = os.path.join(rng.choice(dirs), rng.choice(odd if odd and rng.random() < 0.1 else SEGS))
            if d not in dirs:
                dirs.append(d)
        for d in dirs:
            os.makedirs(os.path.join(path, d), exist_ok=True)
        self.dirs = dirs
        for _ in range(rng.choice([1, 2, 4, 7]) if size is None else size):
            d = rng.choice(dirs)
            stem = rng.choice(SEGS + [".dot"]) + rng.choice(["", "", "1", "2", ".v"])
            if rng.random() < 0.6:
                data, vals = text_file(rng)
                name = f"{d}/{stem}" if d else stem
                if name in self.want or not self.put(d, stem + ".txt", data):
                    continue
                self.want[name] = [(v, None) for v in vals]
                self.files[name] = os.path.join(path, d, stem + ".txt")
            else:
                suffix, data, out = structured_file(rng, stem)
                full = {(f"{d}/{n}" if d else n): v for n, v in out.items()}
                if set(full) & set(self.want) or not self.put(d, stem + suffix, data):
                    continue
                self.want.update(full)
        # things that are not collections
        for _ in range(rng.choice([0, 1, 2])):
            self.put(rng.choice(dirs), rng.choice(["README.md", "x.yml", "Y.TXT", "z.txt.bak", "noext", "a.json5", ".txt",
                                                   "b.csv", "txt", ".json", "r.yml", "s.jsonl", "T.YAML", "u.Json", "v.text",
                                                   "json", "w.yaml~", ".yaml", "x.json.orig", "y.toml"]),
                     rng.choice([b"nothing\nof\ninterest: [x]\n", b'{"deco": ["y"]}', b"deco:\n  - y\n"]))
        if hidden and rng.random() < 0.5:
            h = os.path.join(path, rng.choice(dirs), rng.choice([".git", ".hidden", ".a"]), rng.choice(["", "in"]))
            os.makedirs(h, exist_ok=True)
            with open(os.path.join(h, "secret.txt"), "w") as f:
                f.write("hidden value\n")
            with open(os.path.join(h, "secret.yaml"), "w") as f:
                f.write("hid: [hidden value]\n")
        for _ in range(broken):
            suffix, data = rng.choice(BROKEN)
            self.put(rng.choice(dirs), "broken%d%s" % (rng.randrange(10**6), suffix), data)
            self.broken.append(data[:40])

    def put(self, d, name, data):
        p = os.path.join(self.path, d, name)
        if os.path.exists(p):
            return False
        with open(p, "wb") as f:
            f.write(data)
        return True


def observed(values):
    """Values as [(text, weight)], plain ones with weight 1."""
    return [(str(v), float(getattr(v, "weight", 1.0))) for v in values]


def meaning(vals):
    return [(t, 1.0 if w is None else float(w)) for t, w in vals]
