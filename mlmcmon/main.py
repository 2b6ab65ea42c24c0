"""
Runner: python -m mlmcmon.main <property> quick|thorough
        python -m mlmcmon.main <property> --replay FILE
Cases are distributed to worker processes; results are merged to /verif/evidence/<property>.json.
Exit 0 - held on everything observed, 1 - violated (VIOLATION line), 2 - error of the check / inconclusive.
"""
import importlib
import json
import os
import queue
import signal
import subprocess
import sys
import threading
import time
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N_WORKERS = int(os.environ.get("MLMCMON_WORKERS", "8"))
# Multiples of the numbers of quick cases given by the checks; a quick run takes about 15 s, a thorough one has at least 5 times more cases
QUICK_SCALE = dict(C01=6, C02=2, C03=2, C04=4, C05=4, C06=3, C07=6, C08=6, C09=5, C10=6, C11=6, C12=6, C13=3, C14=6,
                   C15=1, C16=6, C17=6, C18=2, C19=2, C20=1.5, C21=3, C22=2, C23=5, C24=2, C25=5, C26=1, C27=5, C28=6, C29=2,
                   C30=2, C31=5)
BUDGET = {"quick": 600, "thorough": 800}   # wall clock cap of a run; the remaining cases are then not executed


def load(prop):
    return importlib.import_module("mlmcmon.checks.{}".format(prop.lower()))


# ---------------------------------------------------------------- worker
def worker(prop):
    """Read cases from stdin, write records to the original stdout; the code under test prints to stderr/devnull."""
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MLMCMON_VERBOSE"):
        os.dup2(devnull, 2)
    import resource
    # Runaway allocation of the code under test ends with an error of the case instead of exhausting the machine
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    import warnings
    warnings.simplefilter("ignore")
    from mlmcmon import core
    load(prop)
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        case = json.loads(line)
        try:
            record = core.run_case(prop, case["scenario"], case["index"], case["seed"])
        except BaseException as e:  # e.g. SystemExit raised by the code under test
            record = dict(scenario=case["scenario"], index=case["index"], checks=0, events={}, states=[], notes=[],
                          violation=dict(key="exit:" + type(e).__name__, detail=repr(e)))
        out.write(json.dumps(record) + "\n")
        out.flush()
    os._exit(0)


class Worker:
    def __init__(self, prop):
        self.prop = prop
        self.proc = None

    def start(self):
        self.proc = subprocess.Popen([sys.executable, "-m", "mlmcmon.main", prop_arg(self.prop), "--worker"],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=ROOT, text=True,
                                     start_new_session=True)
        self.lines = queue.Queue()
        threading.Thread(target=self._read, args=(self.proc, self.lines), daemon=True).start()
        first = self._get(180)
        if first is None or not first.get("ready"):
            self.stop()
            raise RuntimeError("worker did not start")

    @staticmethod
    def _read(proc, lines):
        for line in proc.stdout:
            lines.put(line)
        lines.put(None)

    def _get(self, timeout):
        try:
            line = self.lines.get(timeout=timeout)
        except queue.Empty:
            return {"timeout": True}
        return None if line is None else json.loads(line)

    def run(self, case, timeout):
        """:return: record, or {'timeout': True}, or None if the process died"""
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps(case) + "\n")
            self.proc.stdin.flush()
        except OSError:
            self.stop()
            return None
        record = self._get(timeout)
        if record is None or record.get("timeout"):
            self.stop()
        return record

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            self.proc = None


def prop_arg(prop):
    return prop


# ---------------------------------------------------------------- run
def run_cases(prop, cases, scen, budget):
    todo = queue.Queue()
    for case in cases:
        todo.put(case)
    records, lock, stop = [], threading.Lock(), threading.Event()
    t0 = time.time()
    n_bad = Counter()

    def loop():
        w = Worker(prop)
        try:
            while not stop.is_set() and time.time() - t0 < budget:
                try:
                    case = todo.get_nowait()
                except queue.Empty:
                    break
                sc = scen[case["scenario"]]
                record = attempt(w, case, sc)
                with lock:
                    records.append(record)
                    if record["violation"]:
                        n_bad[record["violation"]["key"]] += 1
                        if sum(n_bad.values()) >= 12 or record["violation"]["key"] in ("hang", "died"):
                            stop.set()
        except BaseException as e:
            with lock:
                records.append(dict(error=repr(e)))
            stop.set()
        finally:
            w.stop()

    threads = [threading.Thread(target=loop) for _ in range(min(N_WORKERS, len(cases)))]
    [t.start() for t in threads]
    [t.join() for t in threads]
    return records, todo.qsize()


def attempt(w, case, sc):
    """Run case; a case that hangs or kills its process is repeated, such an event has to be reproduced."""
    empty = dict(scenario=case["scenario"], index=case["index"], checks=0, events={}, states=[], notes=[])
    bad = None
    for i in range(3 if sc["confirm"] else 2):
        record = w.run(case, sc["timeout"] * (1 + i))
        if record is None:
            bad = dict(empty, violation=dict(key="died", detail="the process executing the case died repeatedly"))
            continue
        if record.get("timeout"):
            bad = dict(empty, violation=dict(key="hang", detail="no progress: the case did not end in {} s (a case "
                                             "normally takes a few seconds)".format(sc["timeout"] * (1 + i))))
            continue
        if record["violation"] and sc["confirm"] and i < 2:
            bad = record
            continue
        return record
    return bad


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as f:
        return json.load(f)["known"]


def selftest():
    """Setup: all checks can be imported with the code under test"""
    names = sorted(n[:-3] for n in os.listdir(os.path.join(ROOT, "mlmcmon", "checks")) if n.startswith("c") and n.endswith(".py"))
    [load(n) for n in names]
    print("{} checks ready".format(len(names)))
    return 0


def main():
    if sys.argv[1] == "--selftest":
        return selftest()
    prop, mode = sys.argv[1], sys.argv[2]
    if mode == "--worker":
        return worker(prop)

    module = load(prop)
    from mlmcmon import core
    scen = {s["name"]: s for s in core.SCENARIOS[prop]}

    if mode == "--replay":
        with open(sys.argv[3]) as f:
            case = json.load(f)
        record = core.run_case(prop, case["scenario"], case["index"], case["seed"])
        print(json.dumps(record, indent=1))
        return 1 if record["violation"] else 0

    tier = mode
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scale = float(os.environ.get("MLMCMON_SCALE", "1"))
    for s in scen.values():
        s["quick"] *= QUICK_SCALE.get(prop, 1)
        s["thorough"] = max(s["thorough"], 5 * s["quick"])
    only = os.environ.get("MLMCMON_ONLY")
    cases = []
    for s in scen.values():
        if only and s["name"] not in only.split(","):
            continue
        for i in range(max(1, int(round(s[tier] * scale)))):
            cases.append(dict(scenario=s["name"], index=i, seed=seed))
    # Interleave the scenarios
    cases.sort(key=lambda c: (c["index"] / scen[c["scenario"]][tier], c["scenario"]))
    records, n_left = run_cases(prop, cases, scen, BUDGET[tier])

    errors = [r["error"] for r in records if "error" in r]
    records = [r for r in records if "error" not in r]
    known = {k["key"]: k for k in known_findings() if k["property"] == prop}
    reported_known, violations = {}, []
    for r in records:
        v = r["violation"]
        if v is None:
            continue
        k = known.get("{}/{}".format(r["scenario"], v["key"]))
        if k is not None:
            reported_known[k["key"]] = k
        else:
            violations.append(r)

    events, states, per_scenario = Counter(), set(), {}
    for r in records:
        events.update(r["events"])
        states.update(r["states"])
        p = per_scenario.setdefault(r["scenario"], dict(cases=0, oracle_checks=0, states=set()))
        p["cases"] += 1
        p["oracle_checks"] += r["checks"]
        p["states"].update(r["states"])
    for p in per_scenario.values():
        p["distinct_states"] = len(p.pop("states"))
    samples = []
    for name in sorted(per_scenario):
        notes = [dict(scenario=name, index=r["index"], observed=r["notes"]) for r in
                 sorted(records, key=lambda r: r["index"]) if r["scenario"] == name and r["notes"]]
        samples.extend(notes[:2])

    # Inconclusive: a scenario that observed nothing
    inconclusive = [name for name in scen if (not only or name in only.split(",")) and not violations and
                    (name not in per_scenario or per_scenario[name]["oracle_checks"] == 0 or
                     per_scenario[name]["distinct_states"] == 0)]

    evidence = dict(
        property=prop, tier=tier, seed=seed, level=getattr(module, "LEVEL", "exploration"),
        coverage=dict(evaluations=len(records), distinct_nontrivial=len(states),
                      rule=" ".join(module.RULE.split()), samples=samples or [dict(note="no case ended")],
                      oracle_checks=sum(p["oracle_checks"] for p in per_scenario.values()),
                      events=dict(sorted(events.items())), scenarios=per_scenario,
                      cases_not_executed=n_left),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k in sorted(reported_known):
        print("KNOWN-FINDING: property={} {}".format(prop, reported_known[k]["what"]))
    print("{} {}: {} cases, {} oracle checks, {} distinct states, {:.1f} s".format(
        prop, tier, len(records), evidence["coverage"]["oracle_checks"], len(states), time.time() - t0))
    if violations:
        violations.sort(key=lambda r: (r["scenario"], r["index"]))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        seen = set()
        for r in violations:
            key = (r["scenario"], r["violation"]["key"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(ROOT, "replays", "{}-{}-{}.json".format(prop, r["scenario"], r["index"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, scenario=r["scenario"], index=r["index"], seed=seed,
                               violation=r["violation"]), f, indent=1)
            print("{}[{}] {}: {}".format(r["scenario"], r["index"], r["violation"]["key"],
                                         r["violation"]["detail"][-1500:]))
            print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if errors:
        print("ERROR: {}".format(errors[0]))
        return 2
    if inconclusive:
        print("INCONCLUSIVE: nothing observed by {}".format(", ".join(inconclusive)))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
