"""Another process: an interpreter which has imported diamondback and constructed nothing, and which continues a component from
the string of a checkpoint.  It forks for every case, so that each case starts from the state of a process just started.

Child protocol: one JSON line {"comp", "text", "post"} in, one line out: base64 of the pickled list of outputs, or of an exception
as text."""

import base64
import json
import os
import pickle
import subprocess
import sys

from pbt.core import REPO, fail

_CHILD: dict = {}


def _start():
    key = os.getpid()
    if key not in _CHILD or _CHILD[key].poll() is not None:
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONPATH=root, VERIF_REPO=REPO)
        _CHILD.clear()
        _CHILD[key] = subprocess.Popen([sys.executable, "-B", "-m", "pbt.other"], cwd=root, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    return _CHILD[key]


def resume(comp, text, post):
    """Outputs of the operations of post, in another process, of the component which text restores."""
    p = _start()
    p.stdin.write(json.dumps(dict(comp=comp, text=text, post=post)).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line.strip():
        fail(f"another process ended while it operated a restored {comp}")
    kind, value = pickle.loads(base64.b64decode(line))
    if kind != "ok":
        fail(f"another process could not operate a restored {comp}: {value}")
    return value


def main():
    import signal

    from pbt.run import bootstrap

    out = os.dup(1)
    os.dup2(2, 1)
    bootstrap()
    import diamondback as db

    from pbt.components import ALL, apply

    for line in sys.stdin:
        case = json.loads(line)
        pid = os.fork()
        if not pid:
            signal.alarm(120)
            try:
                ad = ALL[case["comp"]]
                obj = db.Serial.decode(case["text"])
                value = ("ok", [apply(ad, obj, op) for op in case["post"]])
            except BaseException as ex:
                value = ("error", f"{type(ex).__name__}: {ex}")
            os.write(out, base64.b64encode(pickle.dumps(value)) + b"\n")
            os._exit(0)
        _, rc = os.waitpid(pid, 0)
        if rc:
            os.write(out, b"\n")


if __name__ == "__main__":
    main()
