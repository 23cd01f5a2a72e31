"""
Bounded stand-in and replay: runs the unmodified package (a scratch copy of
/repo's working tree) on concrete inputs under the ordinary interpreter.

A property module `checks/cXX.py` provides
  cases(env)            -> iterable of (case name, inputs)     (JSON data)
  check(env, case, inp) -> None | failure text
Any exception that escapes `check` is a failure; `Skip` is not.
"""
import asyncio
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Skip(Exception):
    pass


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang("no result within the time limit of one case")


class FakeTime:
    """the system clock as the package sees it; real unless set"""

    def __init__(self):
        self.fixed = None
        self.real_ns, self.real = time.time_ns, time.time
        time.time_ns, time.time = self.time_ns, self.time

    def time_ns(self):
        return self.real_ns() if self.fixed is None else self.fixed

    def time(self):
        return self.real() if self.fixed is None else self.fixed / 1e9


class Env:
    def __init__(self, seed, tier, hints, budget):
        self.seed = seed
        self.tier = tier
        self.rng = random.Random(seed)
        self.hints = hints
        self.budget = budget
        self.case_limit = 40
        tree = os.environ["VF_TREE"]
        self.clock = FakeTime()
        import aiootp
        assert aiootp.__file__.startswith(tree), aiootp.__file__
        self.aiootp = aiootp
        self.tree = tree
        self._loop = None

    def run(self, coro):
        if self._loop is None:
            self._loop = asyncio.new_event_loop()
            asyncio.set_event_loop(self._loop)
        return self._loop.run_until_complete(coro)

    def models(self):
        """counter-models of refuted obligations, decoded"""
        out = []
        for m in (self.hints or {}).get("models", []):
            d = {}
            for k, v in (m.get("model") or {}).items():
                if isinstance(v, list) and v and v[0] == "hex":
                    v = bytes.fromhex(v[1])
                elif isinstance(v, list):
                    if v and v[0] == "long":
                        d[k + ".len"] = v[1]
                    continue
                d[k] = v
            out.append((m["proof"], m["name"], d))
        return out

    def blob(self, n, tag=0):
        r = random.Random(f"{n}:{tag}")
        if n > 1 << 24:
            x = r.randbytes(1 << 20)
            return (x * (n // len(x) + 1))[:n]
        return r.randbytes(n)

    @staticmethod
    def alike(x):
        """byte strings that careless normalising would take for x"""
        out = {x + b"\0", b"\0" + x, x + b" ", b" " + x, x + b"\n",
               b"\n" + x, x + b"\r\n", b"\t" + x, x + b"\t", x + b"=",
               x + b"\xff", x.upper(), x.lower(), x.swapcase(), x.title(),
               x[::-1], x + x, x.strip(), x.replace(b" ", b""),
               x.replace(b"\n", b"\r\n"), x.replace(b"  ", b" "),
               b"".join([x[:1], x])}
        return sorted(out - {x})

    def call(self, obj, name, *a, is_async=0, **k):
        """obj.name(...) or its asynchronous twin obj.aname(...)"""
        if is_async:
            return self.run(getattr(obj, "a" + name)(*a, **k))
        return getattr(obj, name)(*a, **k)

    def collect(self, it, is_async=0):
        """items of an iterable / async iterable, and the error ending it"""
        out = []

        async def go():
            async for x in it:
                out.append(x)
        try:
            if is_async:
                self.run(go())
            else:
                for x in it:
                    out.append(x)
        except Exception as e:
            return out, e
        return out, None

    def iterate(self, it, is_async=0):
        return it.__aiter__() if is_async else iter(it)

    def step(self, it, is_async=0):
        """next item of an iterator / async iterator"""
        return self.run(it.__anext__()) if is_async else next(it)

    def tmpdir(self):
        import tempfile
        return tempfile.mkdtemp(prefix="vf-case-", dir=self.tree)


def main(pid, out, hintfile, budget):
    with open(hintfile) as f:
        hints = json.load(f)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"checks.c{pid[1:].lower()}")
    res = dict(cases=0, failures=[], error=None, by_case={}, skipped=0)

    def dump():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f, default=str)
        os.replace(tmp, out)

    try:
        env = Env(seed, os.environ.get("VERIF_TIER", "quick"), hints,
                  float(budget))
    except Exception as e:
        # the package no longer imports
        res["error"] = "import: " + traceback.format_exc()[-1200:]
        dump()
        os._exit(0)
    signal.signal(signal.SIGALRM, _alarm)
    dump()
    t0 = time.monotonic()
    try:
        for case, inp in mod.cases(env):
            if time.monotonic() - t0 > env.budget:
                res["cut_short"] = True
                break
            msg = run_case(env, mod, case, inp)
            if msg == "skip":
                res["skipped"] += 1
                continue
            res["cases"] += 1
            res["by_case"][case] = res["by_case"].get(case, 0) + 1
            if msg is not None:
                if len([f for f in res["failures"]
                        if f["case"] == case]) < 2:
                    res["failures"].append(
                        dict(case=case, inputs=inp, message=msg))
                dump()
                if len(res["failures"]) >= 6:
                    break
    except Exception:
        res["error"] = traceback.format_exc()[-1500:]
    res["wall_s"] = round(time.monotonic() - t0, 2)
    dump()
    sys.stdout.flush()
    os._exit(0)


def run_case(env, mod, case, inp):
    signal.setitimer(signal.ITIMER_REAL, env.case_limit)
    try:
        env.clock.fixed = None
        return mod.check(env, case, inp)
    except Skip:
        return "skip"
    except Hang as e:
        return f"hang: {e}"
    except MemoryError:
        return "skip"
    except Exception as e:
        tb = traceback.format_exc()
        return (f"unexpected {type(e).__module__}.{type(e).__name__}: "
                f"{str(e)[:200]}\n{tb[-700:]}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(f"checks.c{d['property'][1:].lower()}")
    env = Env(1, "quick", {}, 60)
    signal.signal(signal.SIGALRM, _alarm)
    msg = run_case(env, mod, d["case"], d["inputs"])
    print(f"{d['case']} {str(d['inputs'])[:500]}")
    print("holds" if msg is None else f"FAILS: {msg}")
    sys.stdout.flush()
    os._exit(0 if msg is None else 1)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    else:
        main(*sys.argv[1:5])
