"""A second process running the code under test; answers one JSON request per line."""
import contextlib
import io
import json
import os
import subprocess
import sys


def parses(reqs):
    from dynamicprompts.parser.config import ParserConfig
    from dynamicprompts.parser.parse import parse
    from . import core, norm
    out = []
    for text, tokens in reqs:
        r = core.call(parse, text, ParserConfig(**tokens))
        out.append(repr(("error",) if isinstance(r, core.Err) else norm.of_command(r)))
    return out


def answer(req):
    if "parse" in req:
        return parses(req["parse"])
    from dynamicprompts.generators import RandomPromptGenerator
    from . import core, sem
    wm = sem.manager({k: [tuple(e) for e in v] for k, v in req["wilds"].items()})
    for _ in range(req.get("noise", 0)):
        RandomPromptGenerator(wm).generate("{x|y|z}", 2)
    g = RandomPromptGenerator(wm, seed=req["seed"], ignore_whitespace=req.get("iw", False))
    out = []
    for template, n, seeds in req["calls"]:
        r = core.call(lambda: g.generate(template, n, **({} if seeds is None else {"seeds": seeds})))
        out.append("raised " + r.type if isinstance(r, core.Err) else r)
    return out


class Remote:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vp.helper"], env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def __call__(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("helper process ended")
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait(20)


if __name__ == "__main__":
    from . import core
    core.quiet()
    real = sys.stdout
    for line in sys.stdin:
        with contextlib.redirect_stdout(io.StringIO()):
            r = answer(json.loads(line))
        real.write(json.dumps(r) + "\n")
        real.flush()
