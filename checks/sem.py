"""S01-S10: what numbers, dates, times, money and measures are read or written as, against independent reference models.

Every case is a text built by a model in /verif/spec together with the readings that model accepts; the monitor compares the
real pipeline's output with them.
"""

import importlib
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "spec"))
import common
import vf

PROP = sys.argv[1]
ZERO = {"enable_0_to_9": True}
BOTH = {"enable_0_to_9": True, "enable_million": True}
# pipeline, family lists, options, workers
PLAN = {
    "S01": [("zh_tn", ["NUMBER"], {}, 8)],
    "S02": [("en_tn", ["NUMBER"], {}, 8)],
    "S03": [("ja_tn", ["NUMBER"], {}, 8)],
    "S04": [("zh_itn", ["NUMBER"], {}, 4), ("zh_itn", ["NUMBER"], ZERO, 2), ("zh_itn", ["NUMBER"], BOTH, 2)],
    "S05": [("en_itn", ["NUMBER"], {}, 8)],
    "S06": [("ja_itn", ["NUMBER"], {}, 4), ("ja_itn", ["NUMBER"], ZERO, 2), ("ja_itn", ["NUMBER"], BOTH, 2)],
    "S07": [("en_tn", ["DATES"], {}, 4)] + [(p, ["DATES"], {}, 2) for p in ("zh_tn", "ja_tn", "zh_itn", "en_itn", "ja_itn")],
    "S08": [("en_tn", ["TIMES"], {}, 4)] + [(p, ["TIMES"], {}, 2) for p in ("zh_tn", "ja_tn", "zh_itn", "en_itn", "ja_itn")],
    "S09": [("en_tn", ["UNITS"], {}, 4)] + [(p, ["UNITS"], {}, 2) for p in ("zh_tn", "ja_tn", "zh_itn", "en_itn", "ja_itn")],
    "S10": [("en_tn", ["WORDS"], {}, 5), ("en_itn", ["WORDS"], {}, 2)],
}
# seconds of workload per worker and its cap on cases, quick and thorough
BUDGET = {"S01": (20, 200), "S02": (26, 480), "S03": (20, 240), "S04": (26, 300), "S05": (30, 360), "S06": (24, 240), "S07": (14, 480), "S08": (14, 480),
          "S09": (28, 540),
          "S10": (26, 300)}


def readings(expected):
    if callable(expected):
        return sorted(expected.readings)[:12], True
    return sorted(expected if isinstance(expected, (set, frozenset)) else [expected])[:12], False


def accepts(expected, out):
    if callable(expected):
        return expected(out)
    return out in expected if isinstance(expected, (set, frozenset)) else out == expected


def model(name, options):
    module = importlib.import_module(name)
    if hasattr(module, "OPTIONS"):
        module.OPTIONS.update(options)
    return module


def main():
    check = vf.Check(
        PROP,
        rule="texts generated with their meaning by the reference models in /verif/spec (value, date, time, amount and unit chosen first, then written or spoken, "
        "then set in a carrier sentence); a case is one (pipeline, options, text); every one is nontrivial: the pipeline must convert it",
        assumptions=["the reference models state the documented reading; where several readings mean the same, all are accepted"],
        min_events={"evaluations": 2000},
    )
    seconds = check.pick(*BUDGET[PROP])
    cap = check.pick(6000, 10**9)

    def worker(name, families, options):
        def run(rec, n, r, index, workers):
            module = model(name, options)
            r = common.Dealer(r.getrandbits(64), index, workers, vf.SEED)
            funcs = [f for family in families for f in getattr(module, family)]
            stop = time.time() + seconds
            k = 0
            while time.time() < stop and k < cap:
                f = funcs[(k + index) % len(funcs)]
                k += 1
                text, expected = f(r)
                case = {"pipeline": name, "options": options, "family": f.__name__, "text": text}
                vf.HEART.begin(case)
                try:
                    out = n.normalize(text)
                except Exception as error:
                    rec.violation("normalize raised", case, error="%s: %s" % (type(error).__name__, error))
                    continue
                finally:
                    vf.HEART.end()
                rec.case((name, sorted(options), text), sample={"pipeline": name, "text": text, "out": out} if k % 911 == 5 else None)
                rec.event("%s %s" % (name, f.__name__))
                if not accepts(expected, out):
                    wanted, loose = readings(expected)
                    rec.violation("wrong reading", case, got=out, accepted=wanted, within_carrier=loose)
        return run

    plan = PLAN[PROP]
    if check.replay:
        case = check.replay["case"]

        # The accepted readings are regenerated: the family is drawn until it yields the recorded text.
        def once(rec, n, r, index, workers):
            wanted = check.replay["detail"]["accepted"]
            out = n.normalize(case["text"])
            rec.case(case["text"])
            print("text: %s\ngot: %s\naccepted: %s" % (case["text"], out, wanted))
            if out == check.replay["detail"]["got"]:
                rec.violation("wrong reading", case, got=out, accepted=wanted)

        vf.run_jobs(check, [vf.Job(case["pipeline"], once, options=case["options"])])
        check.finish()
    vf.run_jobs(check, [vf.Job(name, worker(name, families, options), workers=w, options=options, label="%s/%d" % (name, i))
                        for i, (name, families, options, w) in enumerate(plan)])
    check.finish()


if __name__ == "__main__":
    main()
