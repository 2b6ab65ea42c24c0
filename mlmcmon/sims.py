"""Simulations used as workloads; the behaviour of each sample is a function of its random seed (and level)."""
import json
import os
import signal
import sys
import time
import numpy as np
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec


class SampleFailure(Exception):
    pass


class BadPickle:
    """Can be pickled, can't be unpickled"""
    def __reduce__(self):
        return (_fail_unpickle, ())


def _fail_unpickle():
    raise RuntimeError("can not unpickle")


class NoPickle(Exception):
    def __reduce__(self):
        raise TypeError("can not pickle")


FAULTS = ("ok", "raise", "short", "long", "coarse_short", "unpicklable", "zero_div", "unicode", "custom_exc")


def delay_of(delay, seed):
    """Time of the sample in seconds"""
    return delay * np.random.RandomState((int(seed) + 7) % 2 ** 32).random_sample()


def outcome(config, seed):
    """Kind of behaviour of the sample"""
    table = config.get("table")
    if not table:
        return "ok"
    return table[int(np.random.RandomState(seed).randint(2 ** 31 - 1)) % len(table)]


def values(config, seed):
    """Pair of results that a correct run gives"""
    rnd = np.random.RandomState(seed)
    x = rnd.normal(size=config["size"])
    fine = x + config["fine"] * (3 * x * x - x)
    if config["coarse"] == 0:
        coarse = np.zeros(config["size"])
    else:
        coarse = x + config["coarse"] * (3 * x * x - x)
    return fine, coarse


class DetSim(Simulation):
    """
    options: size, table - list of outcomes, delay - max. delay of a sample in seconds, log - file to append events
    """

    def __init__(self, fmt=None, table=None, delay=0.0, log=None, marker_dir=None, task_size=0.01, workspace=False,
                 common_files=None, need_workspace=None, n_fails=1, level_files=None):
        self.fmt = fmt or [QuantitySpec(name="q", unit="m", shape=(2, 1), times=[1.0], locations=['0'])]
        self.table = table
        self.delay = delay
        self.log = log
        self.marker_dir = marker_dir
        self.task_size = task_size
        self.workspace = workspace
        self.common_files = common_files
        self.need_workspace = workspace
        self.n_fails = n_fails            # the first n_fails runs of a failing sample fail, with marker_dir
        self.level_files = level_files    # common files by the first parameter of the level
        self.level_calls = []

    def delay_of(self, seed):
        return delay_of(self.delay, seed)

    def level_instance(self, fine_level_params, coarse_level_params):
        self.level_calls.append((tuple(np.atleast_1d(fine_level_params)), tuple(np.atleast_1d(coarse_level_params))))
        size = int(sum(np.prod(q.shape) * len(q.times) * len(q.locations) for q in self.fmt))
        config = dict(fine=float(fine_level_params[0]), coarse=float(coarse_level_params[0]), size=size,
                      table=self.table, delay=self.delay, log=self.log, marker_dir=self.marker_dir,
                      n_fails=self.n_fails, params=self.level_calls[-1])
        return LevelSimulation(config_dict=config, task_size=self.task_size, need_sample_workspace=self.workspace,
                               common_files=self.level_files[config["fine"]] if self.level_files else self.common_files)

    @staticmethod
    def calculate(config, seed):
        if config.get("log"):
            with open(config["log"], "a") as f:
                f.write("{} {} {}\n".format(int(seed), config["fine"], os.getpid()))
        if config.get("delay"):
            time.sleep(delay_of(config["delay"], seed))
        kind = outcome(config, seed)
        if config.get("marker_dir") and kind != "ok":
            # Samples fail just for the first time
            marker = os.path.join(config["marker_dir"], str(int(seed)))
            if os.path.exists(marker):
                kind = "ok"
            else:
                open(marker, "w").close()
        fine, coarse = values(config, seed)
        if kind == "raise":
            raise SampleFailure("sample with seed {} failed".format(int(seed)))
        if kind == "die":
            # Only for jobs executed in an own process
            os.kill(os.getpid(), signal.SIGKILL)
        if kind == "exit":
            sys.exit(int(seed) % 3)
        if kind == "zero_div":
            return 1 // (int(seed) - int(seed)), None
        if kind == "unicode":
            raise SampleFailure("vzorek č. {} selhal ↯ {}".format(int(seed), "ž" * 1500))
        if kind == "custom_exc":
            raise NoPickle("x")
        if kind == "short":
            return fine[:-1], coarse[:-1]
        if kind == "long":
            return np.append(fine, 0.0), np.append(coarse, 0.0)
        if kind == "coarse_short":
            return fine, coarse[:-1]
        if kind == "unpicklable":
            return (lambda: 0), coarse
        return fine, coarse

    def result_format(self):
        return self.fmt


def expected_pair(sim, level_parameters, level, seed):
    """Reference result of a sample, by the definition of the method: level l uses parameters l and l-1"""
    coarse = 0.0 if level == 0 else float(level_parameters[level - 1][0])
    size = int(sum(np.prod(q.shape) * len(q.times) * len(q.locations) for q in sim.fmt))
    return values(dict(size=size, fine=float(level_parameters[level][0]), coarse=coarse), seed)


def expected_outcome(sim, seed):
    return outcome(dict(table=sim.table), seed)


class WsSim(DetSim):
    """Uses the sample workspace: looks around, changes common files, leaves own files"""

    @staticmethod
    def calculate(config, seed):
        cwd = os.getcwd()
        entries = sorted(os.listdir(cwd))
        content = {}
        for name in entries:
            if os.path.isfile(name):
                with open(name) as f:
                    content[name] = f.read()
        with open(config["log"], "a") as f:
            f.write(json.dumps([int(seed), cwd, entries, content]) + "\n")
        for name in entries:
            if name.endswith(".sh") and not os.access(name, os.X_OK):
                raise SampleFailure("common file {} can not be executed".format(name))
        for name in entries:
            if os.path.isfile(name):
                with open(name, "a") as f:
                    f.write("changed by {}".format(int(seed)))
        with open("own_{}".format(int(seed)), "w") as f:
            f.write("result of {}".format(int(seed)))
        with open(".hidden", "w") as f:
            f.write("hidden of {}".format(int(seed)))
        os.makedirs("sub")
        with open(os.path.join("sub", "deep"), "w") as f:
            f.write(str(int(seed)))
        if int(seed) % 3 == 0:
            os.symlink("nowhere", "dangling")
        if config.get("delay"):
            time.sleep(config["delay"] * np.random.RandomState((int(seed) + 7) % 2 ** 32).random_sample())
        kind = outcome(config, seed)
        if config.get("marker_dir") and kind != "ok":
            marker = os.path.join(config["marker_dir"], str(int(seed)))
            with open(marker, "a") as f:
                f.write("x")
            run = os.path.getsize(marker)
            if run > config.get("n_fails", 1):
                kind = "ok"
            if config.get("n_fails", 1) > 1:
                with open("run_{}".format(run), "w") as f:
                    f.write(str(run))
        if os.getcwd() != cwd:
            raise SampleFailure("working directory changed")
        fine, coarse = values(config, seed)
        if kind == "raise":
            raise SampleFailure("sample with seed {} failed".format(int(seed)))
        if kind == "short":
            return fine[:-1], coarse
        return fine, coarse
