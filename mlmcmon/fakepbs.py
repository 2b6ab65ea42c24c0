"""
Stand-in for the batch system: qsub and qstat commands that record and report, jobs executed (or killed, or lost) when the harness
decides. The job scripts written by the pool are really executed, just the python command is replaced by one that records
its arguments, the module is then run in a forked process.
"""
import os
import runpy
import subprocess
import sys
import time
import warnings

QSUB = """#!/bin/bash
D="{dir}"
n=$(cat "$D/qsub_fail")
if [ "$n" -gt 0 ]; then echo $((n-1)) > "$D/qsub_fail"; echo "qsub: Connection refused" >&2; exit 1; fi
id=$(cat "$D/next"); echo $((id+{step})) > "$D/next"
echo "$id $1" >> "$D/submitted"
echo Q > "$D/state_$id"
echo "$id.{server}"
"""

QSTAT = """#!/bin/bash
D="{dir}"
n=$(cat "$D/qstat_fail")
if [ "$n" -gt 0 ]; then echo $((n-1)) > "$D/qstat_fail"; echo "qstat: Connection refused" >&2; exit 1; fi
echo call >> "$D/qstat_calls"
shift
echo "Job id            Name             User              Time Use S Queue"
echo "----------------  ---------------- ----------------  -------- - -----"
rc=0
for id in "$@"; do
  if [ ! -e "$D/state_$id" ]; then echo "qstat: Unknown Job Id $id" >&2; rc=153; continue; fi
  s=$(cat "$D/state_$id")
  if [ "$s" = Q ]; then t=0; else t="00:00:1$((id % 10))"; fi
  printf "%-17s %-16s %-17s %8s %s %s\\n" "$id.{server}" "{name}" "{user}" "$t" "$s" "{queue}"
done
exit $rc
"""

RECORD = """#!/bin/bash
printf '%s\\n' "$@" > "{dir}/argv"
"""


class FakePbs:
    def __init__(self, directory, first=100, step=1, server="pbs.example.org", name="mlmc 1", queue="charon", user="user"):
        os.makedirs(directory)
        self.dir = directory
        for cmd, text in (("qsub", QSUB), ("qstat", QSTAT), ("record", RECORD)):
            path = os.path.join(directory, cmd)
            with open(path, "w") as f:
                f.write(text.format(dir=directory, server=server, name=name, queue=queue, step=step, user=user))
            os.chmod(path, 0o755)
        self._write("next", first)
        self._write("qsub_fail", 0)
        self._write("qstat_fail", 0)
        self.python = os.path.join(directory, "record")
        self.jobs = []          # [id, script, state]
        self._seen = 0
        self.elapsed = 0.0      # total time of jobs
        self._path = os.environ["PATH"]

    def __enter__(self):
        os.environ["PATH"] = self.dir + os.pathsep + self._path
        return self

    def __exit__(self, *args):
        os.environ["PATH"] = self._path

    def _write(self, name, value):
        with open(os.path.join(self.dir, name), "w") as f:
            f.write("{}\n".format(value))

    def fail_qsub(self, n):
        self._write("qsub_fail", n)

    def fail_qstat(self, n):
        self._write("qstat_fail", n)

    def _read_n(self, name):
        with open(os.path.join(self.dir, name)) as f:
            return int(f.read())

    def faults_left(self):
        return self._read_n("qsub_fail") + self._read_n("qstat_fail")

    def update(self):
        """Read newly submitted jobs"""
        path = os.path.join(self.dir, "submitted")
        if os.path.exists(path):
            with open(path) as f:
                lines = f.read().splitlines()
            for line in lines[self._seen:]:
                pbs_id, script = line.split(" ", 1)
                self.jobs.append([pbs_id, script, "Q"])
            self._seen = len(lines)
        return self.jobs

    def set_state(self, job, state):
        job[2] = state
        self._write("state_" + job[0], state)

    def forget(self, job):
        """The server does not know the job any more"""
        os.remove(os.path.join(self.dir, "state_" + job[0]))

    def run(self, job, real=False):
        """Execute the job to its end (or death), :return: exit status"""
        self.set_state(job, "R")
        start = time.monotonic()
        if os.path.exists(os.path.join(self.dir, "argv")):
            os.remove(os.path.join(self.dir, "argv"))
        rc = subprocess.run(["bash", job[1]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd="/").returncode
        if not real and os.path.exists(os.path.join(self.dir, "argv")):
            with open(os.path.join(self.dir, "argv")) as f:
                argv = f.read().splitlines()
            rc = self._fork(argv)
        self.elapsed += time.monotonic() - start
        self.set_state(job, "F")
        return rc

    @staticmethod
    def _fork(argv):
        assert argv[0] == "-m"
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                warnings.simplefilter("ignore")
                sys.settrace(None)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                sys.argv = [argv[1]] + argv[2:]
                runpy.run_module(argv[1], run_name="__main__")
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        return status


def pbs_setting(pool, python, **kwargs):
    config = dict(n_cores=1, n_nodes=1, select_flags=['cgroups=cpuacct'], mem='1Gb', queue='charon', pbs_name='mlmc', walltime='1:00:00',
                  optional_pbs_requests=[], home_dir='/nonexistent', python=python, env_setting=['cd "$MLMC_WORKDIR"'])
    config.update(kwargs)
    pool.pbs_common_setting(**config)
