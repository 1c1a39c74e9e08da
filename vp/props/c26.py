"""Magic prompts around a stand-in for the model library: scripted continuations, blocklists, load faults."""
import random
import re
import sys
import types

from .. import core


class LoadError(Exception):
    pass


class Library:
    """The stand-in: records loads and calls, continues prompts as scripted."""

    def __init__(self):
        self.loads = []       # (what, model name)
        self.calls = []       # (model name, prompts, kwargs)
        self.seeds = []
        self.fail = None      # which load step fails
        self.script = None    # (prompt, how many times asked before) -> text
        self.asked = {}

    def module(self):
        lib = self
        m = types.ModuleType("transformers")

        class Thing:
            def __init__(self, kind, name):
                self.kind, self.name = kind, name
                self.eos_token_id = 50256
                self.pad_token_id = None
                self.config = types.SimpleNamespace(eos_token_id=50256)

            def to(self, *a, **k):
                return self

            def eval(self):
                return self

        class AutoTokenizer:
            @staticmethod
            def from_pretrained(name, *a, **k):
                lib.load("tokenizer", name)
                return Thing("tokenizer", name)

        class AutoModelForCausalLM:
            @staticmethod
            def from_pretrained(name, *a, **k):
                lib.load("model", name)
                return Thing("model", name)

        class Pipe:
            def __init__(self, name, kw):
                self.name, self.kw = name, kw

            def __call__(self, prompts, **kw):
                one = isinstance(prompts, str)
                ps = [prompts] if one else list(prompts)
                lib.calls.append((self.name, ps, dict(kw)))
                out = []
                for p in ps:
                    k = lib.asked.get(p, 0)
                    lib.asked[p] = k + 1
                    out.append([{"generated_text": lib.script(p, k)}])
                return out[0] if one else out

        def pipeline(task=None, model=None, tokenizer=None, **kw):
            name = getattr(model, "name", model)
            lib.load("pipeline", name)
            lib.pipes.append((task, name, getattr(tokenizer, "name", tokenizer), kw))
            return Pipe(name, kw)
        self.pipes = []
        m.AutoTokenizer, m.AutoModelForCausalLM, m.pipeline = AutoTokenizer, AutoModelForCausalLM, pipeline
        m.set_seed = self.seeds.append
        m.Pipeline = Pipe
        return m

    def load(self, what, name):
        self.loads.append((what, name))
        if self.fail == what:
            raise LoadError(f"{what} of {name}")

    def reset(self):
        self.loads.clear()
        self.calls.clear()
        self.seeds.clear()
        self.pipes.clear()
        self.asked.clear()
        self.fail = None


class Inner:
    def __init__(self, prompts):
        self.prompts, self.calls = prompts, []

    def generate(self, *args, **kw):
        self.calls.append((args, kw))
        return self.prompts


ORIG = ["a cat", "cat", "a", "é ü", "(x:1.2), y", "{a|b}", "trail ", "two  ", "bad cat", "x!!", "dot.", "日本", "A CAT", "a - b", "[z]", "q\\w", "50%", " lead"]
CLEAN = ["in the sun", "by moonlight", "soft focus", "bad hair", "BAD taste", "nude art", "a quiet lake", "xbadx", "oil on canvas", "b a d", "snake_case art", "8k uhd", "1920 style", "f/1.8 lens", "é über", "плохой день", "Ярко", "STRAßE"]
MESSY = [" , {glowing} ( eyes )", " - highly - detailed", "  _  trending  _ on", "!!! sharp!! focus!", ",,, a ,, b", "; c ; d.e", " (((x))) {{{y}}}", "",
         " ", "...", "very very big!!!", "\nnew line", " é-ü - ö!", " word - word", ". End.", " A!!B!!", " a!b! a!", " (a )( b)", "\t-", " 100 - 200", "!a", " snake_case", " __init__ x", " _a b_ ", "4k", " 35mm 1.4 "]
BLOCK = ["bad", "BAD", "nude|bad", r"\bbad\b", "^a", "art$", "zzz", "[Bb]ad h", "(?:sun)", "cat", "É ÜBER", "ПЛОХОЙ|ярко", r"\bÉ", "straße",
         r"bad\S", r"\Bad\b", r"\Wbad", r"\D\dK\b", r"(?P<W>A)\Wlake", r"[^\W\d]+\d", r"bad(?!\S)", "\\x42ad"]


def words(s, numbers=False):
    """Words; also those of digits only where no weights can have been added."""
    return [w for w in re.findall(r"\w+", s) if any(c.isalpha() or numbers and c.isdigit() for c in w)]


class Monitor(core.Check):
    id = "C26"
    technique = "online monitor of calls to a stand-in model library (loads, generations, attempts), with scripted answers and load faults"
    rule = ("a case is a history of creating generators (some failing), switching models and generating with scripted continuations; "
            "distinct by history; non-trivial: at least one generation")
    quick = 30000
    thorough = 250000
    required = ("generations", "own_prompt_kept", "not_a_continuation", "blocked_once", "blocked_always", "attempts_exhausted", "never_blocked",
                "zero_attempts", "others_untouched", "loads", "reused_model", "model_switch", "failed_loads", "retry_after_failure",
                "several_generators", "own_model", "configured_values", "inner_arguments", "seeds", "messy_continuations", "default_attempts",
                "prefix_prompts", "blanks_dropped", "set_model", "reported_model", "repeated_prompts", "inner_untouched", "many_prompts")

    def setup(self):
        self.lib = Library()
        sys.modules["transformers"] = self.lib.module()
        from dynamicprompts.generators.magicprompt import MagicPromptGenerator
        self.Magic = MagicPromptGenerator
        self.fresh = {k: v for k, v in vars(MagicPromptGenerator).items()
                      if not k.startswith("__") and not callable(v) and not isinstance(v, (property, classmethod, staticmethod))}

    def reset(self):
        """The state shared by all generators, as in a new process."""
        for k, v in list(vars(self.Magic).items()):
            if k.startswith("__") or callable(v) or isinstance(v, (property, classmethod, staticmethod)):
                continue
            if k not in self.fresh:
                delattr(self.Magic, k)
        for k in ("generator", "tokenizer", "model", "_model_name", *self.fresh):
            if k in self.fresh:
                setattr(self.Magic, k, self.fresh[k])
        self.lib.reset()

    def case(self, rng, index):
        random.seed(index)
        self.reset()
        loaded = None
        trace, gens = [], []
        generated = 0
        steps = rng.choice([2, 3, 5, 8])
        failed = False
        for _ in range(steps):
            info = dict(history=trace)
            self.context = info
            k = rng.random()
            if not gens or k < 0.35:
                name = rng.choice(["m1", "m1", "m2", "org/m3"])
                fault = rng.choice(["tokenizer", "model", "pipeline"]) if rng.random() < 0.2 else None
                target = None
                if gens and rng.random() < 0.3:
                    target = rng.choice(gens)
                conf = dict(max_prompt_length=rng.choice([20, 100, 77, 1, 1025, 5000]), temperature=rng.choice([0.7, 1, 0.01, "0.5", 2.5, 0.001, 50, "1e-5"]),
                            batch_size=rng.choice([1, 4, 8, 64, 1000]))
                if rng.random() < 0.3:
                    conf = {}
                block = rng.choice(BLOCK) if rng.random() < 0.6 else rng.choice([None, None, ""])
                seed = rng.choice([None, None, 0, 7, "5", 2**32 - 1, 2**31, "4294967295", 12345678])
                device = rng.choice([None, "cpu", 1])
                self.lib.fail = fault
                del self.lib.loads[:], self.lib.seeds[:], self.lib.pipes[:]
                if target is not None:
                    trace.append(f"set_model {name}" + (f" ({fault} fails)" if fault else ""))
                    got = core.call(lambda: target["real"].set_model(name))
                    self.rec.count("set_model")
                else:
                    trace.append(f"create {name} {conf} block={block!r}" + (f" ({fault} fails)" if fault else ""))
                    inner = Inner([])
                    got = core.call(lambda: self.Magic(inner, model_name=name, blocklist_regex=block, seed=seed, device=device, **conf))
                self.lib.fail = None
                if name == loaded:
                    self.expect(not isinstance(got, core.Err) and self.lib.loads == [], "a loaded model is loaded again", loads=self.lib.loads, got=got,
                                **info)
                    self.rec.count("reused_model")
                elif fault:
                    self.expect(isinstance(got, core.Err) and isinstance(got.exc, LoadError), "a failed load is not reported", got=got, **info)
                    self.rec.count("failed_loads")
                    loaded = None
                    failed = True
                    continue
                else:
                    self.expect(not isinstance(got, core.Err) and Counter3(self.lib.loads) == {"tokenizer": [name], "model": [name], "pipeline": [name]},
                                "the model is not loaded exactly once", loads=self.lib.loads, got=got, **info)
                    self.rec.count("loads")
                    task, pn, tn, kw = self.lib.pipes[-1]
                    self.expect(task == "text-generation" and (pn, tn) == (name, name), "pipeline of another model", pipeline=(task, pn, tn), **info)
                    self.expect_eq(kw.get("device"), device if target is None else target["device"], "device", **info)
                    if loaded is not None:
                        self.rec.count("model_switch")
                    if failed:
                        self.rec.count("retry_after_failure")
                        failed = False
                loaded = name
                if target is not None:
                    target["name"] = name
                else:
                    self.expect_eq([int(s) for s in self.lib.seeds], [] if seed is None else [int(seed)], "seed given to the library", seed=seed, **info)
                    if seed is not None:
                        self.rec.count("seeds")
                    gens.append(dict(real=got, name=name, conf={"max_prompt_length": 100, "temperature": 0.7, "batch_size": 1, **conf},
                                     block=re.compile(block, re.I) if block else None, inner=inner, device=device))
                    if len(gens) > 1:
                        self.rec.count("several_generators")
            else:
                self.generate(rng, rng.choice(gens), trace)
                generated += 1
            for g in gens:
                self.expect_eq(core.call(lambda: g["real"].model_name), g["name"], "reported model", **info)
                self.rec.count("reported_model")
        if generated:
            self.rec.distinct(trace)
        self.rec.sample(trace[:6])

    def generate(self, rng, g, trace):
        lib = self.lib
        messy = rng.random() < 0.35
        n = rng.choice([1, 1, 2, 3, 5, 9, 17])
        ps = rng.sample(ORIG, n)
        if rng.random() < 0.08:
            n = rng.choice([30, 70, 130])
            ps = ["%s %d" % (rng.choice(["cat", "a cat", "bad x"]), i) for i in range(n)]
            self.rec.count("many_prompts")
        if rng.random() < 0.3:
            ps = ["a cat", "a cat and", "a"][:n] + ps[3:]
            self.rec.count("prefix_prompts")
        if rng.random() < 0.1 and n > 1:
            ps[-1] = ps[0]
        repeated = len(set(ps)) < len(ps)
        if repeated:
            self.rec.count("repeated_prompts")
        seed = rng.randrange(10**6)
        starts = {p: rng.random() < 0.85 for p in ps}

        bare = rng.random() < 0.7

        def script(p, k):
            r = random.Random(f"{seed}:{p}:{k}")
            if messy:
                t = "".join(r.choice(MESSY) for _ in range(r.choice([1, 2]))) + r.choice(CLEAN) + r.choice(MESSY)
            else:
                t = r.choice(CLEAN)
            if starts.get(p, True):
                return p + (t if messy else r.choice([" ", ", ", "  "]) + t)
            if p != p.strip() and bare:
                # the prompt without its surrounding blanks
                self.rec.count("blanks_dropped")
                return p.strip() + (", " + t if not messy else "!" + t)
            return ("other " + t) if not messy else "other" + t
        lib.script = script
        del lib.calls[:]
        lib.asked.clear()
        attempts = rng.choice([None, 0, 1, 2, 3, 20])
        kw = {} if attempts is None else {"max_attempts": attempts}
        limit = 20 if attempts is None else attempts
        given = list(ps)
        g["inner"].prompts = given
        del g["inner"].calls[:]
        args, akw = (("t", n) if rng.random() < 0.7 else ("t",)), ({"seeds": [1, 2]} if rng.random() < 0.3 else {})
        trace.append(f"generate with {g['name']} {ps} attempts={attempts}")
        info = dict(history=list(trace), seed=seed)
        self.context = info
        got = core.call(lambda: g["real"].generate(*args, **kw, **akw))
        if isinstance(got, core.Err):
            raise core.Violation("generation failed", {"got": repr(got), **{k: core.show(v) for k, v in info.items()}})
        self.expect(g["inner"].calls == [(args, akw)], "the inner generator is not called once with the arguments", calls=g["inner"].calls, **info)
        self.rec.count("inner_arguments")
        self.expect_eq(given, ps, "the inner generator's list is changed", **info)
        self.rec.count("inner_untouched")
        self.expect_eq(len(got), n, "number of prompts", result=got, **info)
        for name, prompts, ckw in lib.calls:
            self.expect_eq(name, g["name"], "another generator's model is used", **info)
            self.rec.count("own_model")
            c = g["conf"]
            self.expect_eq((ckw.get("max_length"), ckw.get("temperature"), ckw.get("batch_size")),
                           (c["max_prompt_length"], float(c["temperature"]), c["batch_size"]), "configured values given to the model", **info)
            self.rec.count("configured_values")
        self.expect_eq(lib.calls[0][1][:1] if lib.calls else None, ps[:1], "the model is not given the inner prompts", **info)
        self.rec.count("generations")
        if messy:
            self.rec.count("messy_continuations")
        if repeated:
            # which answer belongs to which of the two is not observable; each must still extend its prompt
            for p, r in zip(ps, got):
                if starts[p]:
                    self.expect(r.startswith(p), "does not start with its own prompt", prompt=p, result=r, **info)
            return
        for p, r in zip(ps, got):
            used = lib.asked.get(p, 0)
            self.expect(1 <= used <= 1 + limit, "generated more often than allowed", prompt=p, times=used, limit=limit, **info)
            if starts[p]:
                self.expect(r.startswith(p), "does not start with its own prompt", prompt=p, result=r, **info)
                self.rec.count("own_prompt_kept")
            else:
                self.rec.count("not_a_continuation")
            text = script(p, used - 1)
            num = "!" not in text[len(p) if starts[p] else 0:]
            want = words(text[len(p):] if starts[p] else text, num)
            have = words(r[len(p):] if starts[p] else r, num)
            self.expect_eq(have, want, "words of the model's last continuation", prompt=p, continuation=text, result=r, **info)
            blocked = bool(g["block"] and g["block"].search(r))
            if g["block"] is None:
                self.expect_eq(used, 1, "generated again without a blocklist", prompt=p, **info)
                continue
            self.expect(not blocked or used == 1 + limit, "a blocked prompt although attempts remain", prompt=p, result=r, times=used, limit=limit,
                        blocklist=g["block"].pattern, **info)
            if not messy:
                # the cleaned text is known, so is the number of attempts
                want = 1
                while want <= limit and g["block"].search(self.clean(p, script(p, want - 1), starts[p])):
                    want += 1
                self.expect_eq(used, want, "number of generations of a prompt", prompt=p, blocklist=g["block"].pattern, limit=limit, **info)
                self.expect_eq(r, self.clean(p, script(p, want - 1), starts[p]), "magic prompt", prompt=p, **info)
                if want == 1:
                    self.rec.count("never_blocked" if not blocked else "zero_attempts")
                elif want == 2:
                    self.rec.count("blocked_once")
                if blocked and limit:
                    self.rec.count("attempts_exhausted")
                    if limit >= 3:
                        self.rec.count("blocked_always")
        if len({lib.asked[p] for p in ps}) > 1:
            self.rec.count("others_untouched")
        if attempts is None:
            self.rec.count("default_attempts")

    @staticmethod
    def clean(p, text, starts):
        """A simple continuation, cleaned up."""
        if starts:
            return p + " " + text[len(p):].strip(" ,")
        return text


def Counter3(loads):
    out = {}
    for k, n in loads:
        out.setdefault(k, []).append(n)
    return out
