"""Runs a share of the cases of one property and writes what was observed."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import resource
import sys
import tempfile
import shutil
import time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", required=True)
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--cases", type=int, default=None)
    ap.add_argument("--deadline", type=float, default=600)
    ap.add_argument("--only", default=None)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()

    t0 = time.monotonic()
    soft = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    from . import core
    from .model import TooBig
    core.quiet()
    import dynamicprompts
    src = os.path.realpath(os.path.dirname(dynamicprompts.__file__))
    assert src == os.path.realpath(os.environ.get("VP_SRC", "/repo/src") + "/dynamicprompts"), src

    mod = importlib.import_module(f".props.{a.property.lower()}", "vp")
    scratch = tempfile.mkdtemp(prefix=f"vp_{a.property}_", dir=os.environ.get("VP_TMP"))
    rec = core.Rec()
    check = mod.Monitor(rec, a.tier, a.seed, scratch)
    core.install_alarm()
    result = {"status": "ok"}
    n = a.cases if a.cases is not None else getattr(check, a.tier)
    current = os.path.join(os.path.dirname(a.out), f"current.{a.shard}")

    def run(index):
        if index < 0:
            fn = check.directed()[-index - 1]
            rng = core.case_rng(a.seed, a.property, index)
            go = lambda: fn(rng)  # noqa: E731
        else:
            rng = core.case_rng(a.seed, a.property, index)
            go = lambda: check.case(rng, index)  # noqa: E731
        with open(current, "w") as f:
            f.write(str(index))
        rec.evaluations += 1
        core.reset_sut()
        core.arm(check.cpu_limit)
        try:
            go()
            core.disarm()
        except (core.Skip, TooBig):
            core.disarm()
            rec.count("skipped")
            if index < 0:
                rec.count("directed_skipped")
        except core.Violation as v:
            core.disarm()
            rec.violations.append({"index": index, "message": v.message, "detail": v.detail})
        except core.CaseTimeout:
            core.disarm()
            if core.in_sut() and not check.may_be_slow:
                rec.violations.append({"index": index, "message":
                    f"call did not return within {core.CPU_LIMIT} CPU seconds", "detail":
                    {"context": core.show(getattr(check, "context", None), 2000)}})
            else:
                rec.count("harness_timeouts")
                print("harness timeout in case", index, file=sys.stderr)
        except MemoryError:
            core.disarm()
            if core.in_sut():
                rec.violations.append({"index": index, "message": "ran out of memory",
                                       "detail": {}})
            else:
                raise
        except Exception as e:
            core.disarm()
            if isinstance(e, OSError) and not core.raised_by(e, src):
                raise
            # the code under test failed in a call the harness takes for granted, or returned something of a
            # kind that the monitor cannot evaluate
            rec.violations.append({"index": index, "message": "unexpected exception", "detail":
                {"got": core.trace(e), "context": core.show(getattr(check, "context", None), 2000)}})
        finally:
            core.disarm()

    try:
        check.setup()
        if a.only is not None:
            run(int(a.only))
        else:
            indices = []
            nd = len(check.directed())
            indices += [-(i + 1) for i in range(nd) if i % a.shards == a.shard]
            indices += list(range(a.shard, n, a.shards))
            for k, index in enumerate(indices):
                run(index)
                if len(rec.violations) >= 3:
                    result["stopped"] = "violations"
                    break
                if time.monotonic() - t0 > a.deadline:
                    result["stopped"] = f"deadline after {k + 1} of {len(indices)} cases"
                    break
        check.teardown()
    except Exception as e:  # an error of the harness: no verdict
        result["status"] = "error"
        result["error"] = core.trace(e)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    result.update(rec.dump())
    result["rule"] = check.rule
    result["level"] = check.level
    result["required"] = list(check.required)
    result["assumptions"] = list(check.assumptions)
    tmp = a.out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f, default=core.show)
    os.replace(tmp, a.out)


if __name__ == "__main__":
    main()
