"""Feeling Lucky around a stand-in for the HTTP library that records requests and injects faults."""
import random
import sys
import types
from urllib.parse import parse_qs, urlsplit

from .. import core

QUERIES = ["cat", "a cat, big", "x&y=z", "a=b", "q#frag", "50% off", "%41", "a+b", "é ü", "日本", "?", "/", "a/b?c", "\"q\"", "'", "a\nb", "  pad ",
           "\\", "{a|b}", "<x>", "😀", "a;b", "&", "#", "=", "+", "%", "%%", "q=1&q=2", "0", "-1", "None", "null", "\u00a0x", "a  b", "x" * 3000]
BLANKS = ["", " ", "\t\n", "  ", "\u3000"]


class HTTPError(Exception):
    pass


class Web:
    """The stand-in: one answer per request."""

    def __init__(self):
        self.requests = []
        self.answer = None
        self.fault = None
        self.status = 500

    def get(self, url, params=None, **kw):
        self.requests.append((url, params, kw))
        if self.fault and self.fault[0] == "get":
            raise self.fault[1]
        web = self

        class Response:
            status_code = web.status if web.fault and web.fault[0] == "status" else 200
            ok = status_code == 200
            text = content = "..."

            def raise_for_status(self):
                if web.fault and web.fault[0] == "status":
                    raise web.fault[1]

            def json(self, **kw):
                if web.fault and web.fault[0] == "json":
                    raise web.fault[1]
                return web.answer
        r = Response()
        r.url = url
        return r

    def query(self):
        """What the last request searches for."""
        url, params, _ = self.requests[-1]
        out = parse_qs(urlsplit(url).query, keep_blank_values=True).get("q", [])
        if params:
            items = params.items() if hasattr(params, "items") else params
            out = out + [v for k, v in items if k == "q"]
        return out

    def module(self):
        m = types.ModuleType("requests")
        m.get = self.get
        m.request = lambda method, url, **kw: self.get(url, **kw)
        m.exceptions = types.SimpleNamespace(RequestException=Exception, HTTPError=HTTPError, ConnectionError=ConnectionError, Timeout=TimeoutError)
        m.RequestException, m.HTTPError = Exception, HTTPError

        class Session:
            get = staticmethod(self.get)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                pass

            def close(s):
                pass
        m.Session = m.session = Session
        m.codes = types.SimpleNamespace(ok=200)
        return m


class Inner:
    def __init__(self, results):
        self.results, self.calls = results, []

    def generate(self, *args, **kw):
        self.calls.append((args, kw))
        return list(self.results)


class Monitor(core.Check):
    id = "C25"
    technique = "online monitor of the requests a stand-in HTTP library receives, with injected faults and malformed answers"
    rule = ("a case is one call of the generator with a generated query, inner generator, answer or fault; distinct by query, answer and "
            "fault; all are non-trivial")
    quick = 12000
    thorough = 250000
    required = ("requests", "special_characters", "blank_queries", "random_numbers", "found", "every_found", "more_than_found", "faults",
                "connection_faults", "status_faults", "json_faults", "malformed_answers", "after_fault", "inner_generator", "real_inner",
                "zero_prompts", "keyword_arguments", "no_library", "duplicates_found")

    def setup(self):
        self.web = Web()
        self.mod = self.web.module()
        sys.modules["requests"] = self.mod
        from dynamicprompts.generators import FeelingLuckyGenerator, RandomPromptGenerator
        from dynamicprompts.generators.promptgenerator import GeneratorException
        self.Lucky, self.Rand, self.GenErr = FeelingLuckyGenerator, RandomPromptGenerator, GeneratorException

    def images(self, rng):
        n = rng.choice([1, 2, 3, 10, 10, 70])
        out = [{"prompt": rng.choice(["found %d", "föund %d", "{a|b} %d", " x %d "]) % i, "id": i, "src": "http://x"} for i in range(n)]
        if rng.random() < 0.2:
            out += out[:1]
            self.rec.count("duplicates_found")
        return out

    def case(self, rng, index):
        random.seed(index)
        web = self.web
        web.requests.clear()
        web.fault = None
        k = rng.random()
        if k < 0.05:
            return self.numbers(rng, index)
        if k < 0.1:
            return self.every(rng, index)
        q = rng.choice(QUERIES) if rng.random() < 0.85 else rng.choice(BLANKS)
        if rng.random() < 0.2:
            q = rng.choice(QUERIES)[:20] + rng.choice(QUERIES)[:20]
        template, text, inner = q, q, None
        kw = {}
        r = rng.random()
        if r < 0.3:
            template = rng.choice(["{cat|dog}", "t", "__w__"])
            inner = Inner([q] + ["further"] * rng.choice([0, 1]))
            self.rec.count("inner_generator")
            if rng.random() < 0.4:
                kw = {"seeds": [1], "other": object()}
                self.rec.count("keyword_arguments")
        elif r < 0.4:
            template, text = rng.choice([("{red cat}", "red cat"), ("{1::x & y}", "x & y"), ("so {big|big}", "so big")])
            inner = self.Rand(seed=index)
            self.rec.count("real_inner")
        imgs = self.images(rng)
        web.answer = {"images": imgs, "other": 1}
        n = rng.choice([0, 1, 1, 2, 5, 30])
        info = dict(template=template, query=text, n=n)
        self.context = info
        gen = self.Lucky(inner) if inner is not None or rng.random() < 0.5 else self.Lucky()
        if rng.random() < 0.35:
            self.fail(rng, gen, template, max(n, 1), info)
            web.requests.clear()
            web.fault = None
            web.answer = {"images": imgs}
            sys.modules["requests"] = self.mod
            self.rec.count("after_fault")
        before = len(inner.calls) if isinstance(inner, Inner) else 0
        got = core.call(lambda: list(gen.generate(template, n, **kw)))
        if isinstance(got, core.Err):
            raise core.Violation("search failed", {"got": repr(got), **{k: core.show(v) for k, v in info.items()}})
        self.expect_eq(len(web.requests), 1, "number of requests", requests=web.requests, **info)
        asked = web.query()
        self.rec.count("requests")
        if text.strip() == "":
            self.rec.count("blank_queries")
            self.expect(len(asked) == 1 and str(asked[0]).isdigit() and 0 <= int(asked[0]) <= 10**7, "a blank query does not search for a number",
                        asked=asked, **info)
        else:
            self.expect_eq([str(a) for a in asked], [text], "the search is not for exactly the text", request=web.requests[-1], **info)
            if not text.isalnum():
                self.rec.count("special_characters")
        self.expect_eq(len(got), n, "number of prompts", result=got, **info)
        found = [i["prompt"] for i in imgs]
        self.expect(all(p in found for p in got), "a prompt that was not found", result=got, found=found, **info)
        if n == 0:
            self.rec.count("zero_prompts")
        elif n > len(found):
            self.rec.count("more_than_found")
        self.rec.count("found", n)
        if isinstance(inner, Inner):
            self.expect_eq(len(inner.calls) - before, 1, "calls of the inner generator", **info)
            args, akw = inner.calls[-1]
            self.expect(args[0] == template and akw.items() >= kw.items(), "the inner generator is not given the query template", call=(args, akw), **info)
        self.rec.distinct(text, [i["prompt"] for i in imgs], n)
        self.rec.sample({"query": text, "request": core.show(web.requests[-1]), "prompts": got[:3]})

    def fail(self, rng, gen, template, n, info):
        web = self.web
        k = rng.randrange(5)
        if k == 0:
            web.fault = ("get", rng.choice([ConnectionError("down"), TimeoutError("slow"), OSError(5, "io"), ValueError("bad url"), RuntimeError("x"),
                                            UnicodeError("enc"), Exception("any")]))
            self.rec.count("connection_faults")
        elif k == 1:
            web.status = rng.choice([500, 503, 502, 504, 429, 404, 403, 301, 418])
            web.fault = ("status", rng.choice([HTTPError("500"), HTTPError("404 not found"), Exception("429")]))
            self.rec.count("status_faults")
        elif k == 2:
            web.fault = ("json", rng.choice([ValueError("no json"), TypeError("x"), UnicodeDecodeError("utf-8", b"x", 0, 1, "bad")]))
            self.rec.count("json_faults")
        elif k == 3:
            web.answer = rng.choice([None, {}, [], {"images": []}, {"images": None}, {"image": [{"prompt": "x"}]}, {"error": "limit"}, "text", 5,
                                     {"images": [{"text": "x"}]}, {"images": [None]}, {"images": ["plain"]}, {"images": 7}, {"images": [{}]}])
            self.rec.count("malformed_answers")
        else:
            sys.modules["requests"] = None
            self.rec.count("no_library")
        made = len(web.requests)
        got = core.call(lambda: gen.generate(template, n))
        sys.modules["requests"] = self.mod
        if k != 4:
            self.expect_eq(len(web.requests) - made, 1, "number of requests", fault=repr(web.fault), **info)
        self.expect(isinstance(got, core.Err) and isinstance(got.exc, self.GenErr), "a failed search is not reported as the generator's exception",
                    got=got, fault=repr(web.fault), answer=repr(web.answer), kind=k, **info)
        self.rec.count("faults")
        self.rec.distinct(k, repr(web.fault), repr(web.answer))

    def numbers(self, rng, index):
        self.web.answer = {"images": [{"prompt": "x"}]}
        self.context = "blank queries"
        seen = set()
        for _ in range(12):
            self.web.requests.clear()
            got = core.call(lambda: self.Lucky().generate(rng.choice(BLANKS), 1))
            self.expect(got == ["x"] and len(self.web.requests) == 1, "blank query", got=got)
            a = self.web.query()
            self.expect(len(a) == 1 and str(a[0]).isdigit(), "a blank query does not search for a number", asked=a)
            seen.add(str(a[0]))
        self.expect(len(seen) > 3, "blank queries search for the same number", asked=sorted(seen))
        self.rec.count("random_numbers")

    def every(self, rng, index):
        k = rng.choice([2, 3, 5, 40, 75, 150])
        imgs = [{"prompt": f"p{i}"} for i in range(k)]
        self.web.answer = {"images": imgs}
        self.context = "every found prompt"
        n = 250 if k <= 5 else 60 * k
        size = rng.choice([25, 33, 64]) if rng.random() < 0.35 else 0
        if size:
            got = core.call(lambda: [p for _ in range(n // size + 1) for p in self.Lucky().generate("cat", size)])
        elif k > 5 or rng.random() < 0.5:
            got = core.call(lambda: self.Lucky().generate("cat", n))
        else:
            got = core.call(lambda: [self.Lucky().generate("cat", 1)[0] for _ in range(n)])
        # missing one of five: 5 * 0.8^250 < 1e-23; of 75: 75 * exp(-60) < 1e-24
        self.expect(not isinstance(got, core.Err) and set(got) == {i["prompt"] for i in imgs}, "a found prompt is never returned", got=got)
        self.rec.count("every_found")
