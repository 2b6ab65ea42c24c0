"""Helpers for driving the sampling pools: recording pool, delay injection, construction and shutdown."""
import contextlib
import os
import sys
import threading
import time
import numpy as np
from mlmc.sampling_pool import SamplingPool, OneProcessPool, ProcessPool, ThreadPool


class NullPool(SamplingPool):
    """
    Pool controlled by the harness: records what was scheduled, finishes samples in the order and batches chosen by rng
    """

    def __init__(self, rng=None, result=None, fail=None, hold=0.0, cost=None):
        super().__init__()
        self.rng = rng or np.random.default_rng(0)
        self.scheduled = []          # (sample_id, level_sim)
        self.pending = []
        self.permanent = None
        self.result = result         # f(sample_id, level_sim) -> pair
        self.fail = fail             # f(sample_id) -> message or None
        self.hold = hold             # probability that pending sample is not finished by this poll
        self.cost = cost             # f(level_id) -> time
        self.delivered = []
        self.n_polls = 0

    def schedule_sample(self, sample_id, level_sim):
        self.scheduled.append((sample_id, level_sim))
        self.pending.append((sample_id, level_sim))

    def have_permanent_samples(self, sample_ids):
        self.permanent = list(sample_ids)
        return False

    def get_finished(self):
        self.n_polls += 1
        rest, done = [], []
        for item in self.pending:
            (rest if self.rng.random() < self.hold else done).append(item)
        self.pending = rest
        self.rng.shuffle(done)
        success, failed, times = {}, {}, {}
        for sample_id, level_sim in done:
            level = level_sim._level_id
            message = self.fail(sample_id) if self.fail else None
            if message is None:
                pair = self.result(sample_id, level_sim) if self.result else level_sim._calculate(
                    level_sim.config_dict, SamplingPool.compute_seed(sample_id))
                success.setdefault(level, []).append((sample_id, (pair[0], pair[1])))
                if self.cost:
                    t = times.setdefault(level, [0.0, 0])
                    t[0] += self.cost(level)
                    t[1] += 1
            else:
                failed.setdefault(level, []).append((sample_id, message))
            self.delivered.append(sample_id)
        return success, failed, len(self.pending), list(times.items())


def batch_pool(directory, debug=False, work_dir=None):
    """Pool of the batch system; all submitted jobs are run before each poll. directory: scratch"""
    from mlmcmon.fakepbs import FakePbs, pbs_setting
    from mlmc.sampling_pool_pbs import SamplingPoolPBS

    class BatchPool(SamplingPoolPBS):
        def get_finished(self):
            for job in list(batch.update()):
                if job[2] != "F":
                    batch.run(job)
            return super().get_finished()

        def terminate_batch(self):
            batch.__exit__()
    i = 0
    while os.path.exists(os.path.join(directory, "batch_{}".format(i))):
        i += 1
    batch = FakePbs(os.path.join(directory, "batch_{}".format(i)))
    pool = BatchPool(work_dir=work_dir or os.path.join(directory, "batch_work_{}".format(i)), debug=debug)
    pbs_setting(pool, batch.python)
    batch.__enter__()
    return pool


def make_pool(kind, n=2, work_dir=None, debug=False, scratch=None):
    if kind == "pbs":
        return batch_pool(scratch, debug, work_dir)
    if kind == "one":
        return OneProcessPool(work_dir=work_dir, debug=debug)
    if kind == "process":
        return ProcessPool(n, work_dir=work_dir, debug=debug)
    if kind == "thread":
        return ThreadPool(n, work_dir=work_dir, debug=debug)
    raise ValueError(kind)


def close_pool(pool):
    if hasattr(pool, "terminate_batch"):
        pool.terminate_batch()
    for value in list(vars(pool).values()):
        if hasattr(value, "terminate"):
            try:
                value.terminate()
            except Exception:
                pass


@contextlib.contextmanager
def switch_interval(seconds):
    old = sys.getswitchinterval()
    sys.setswitchinterval(seconds)
    try:
        yield
    finally:
        sys.setswitchinterval(old)


class DelayInjector:
    """
    Injects delays between the executed lines of given source files, in all threads started within the context.
    Widens the race windows of the real code wherever they are, no hooks in the code are needed.
    """

    def __init__(self, seed, files, prob=0.2, max_delay=0.0015, budget=3.0):
        self.files = tuple(files)
        self.prob = prob
        self.max_delay = max_delay
        self.seed = seed
        self.local = threading.local()
        self.n_delays = 0
        self.end = time.time() + budget
        self.points = set()

    def _rng(self):
        if not hasattr(self.local, "rng"):
            self.local.rng = np.random.RandomState((self.seed + threading.get_ident()) % 2 ** 32)
        return self.local.rng

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.files):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            rng = self._rng()
            if rng.random_sample() < self.prob and time.time() < self.end:
                self.n_delays += 1
                self.points.add((frame.f_code.co_name, threading.current_thread() is threading.main_thread()))
                time.sleep(self.max_delay * rng.random_sample())
        return self._line

    def __enter__(self):
        threading.settrace(self._trace)
        sys.settrace(self._trace)
        return self

    def __exit__(self, *args):
        sys.settrace(None)
        threading.settrace(None)
