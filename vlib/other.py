"""Another Python session (with another order of sets), to compare answers with."""
import importlib
import json
import os
import pickle
import struct
import subprocess
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SERVERS = {}  # (pid, module, hash seed) -> process


def ask(module, what, spec, hash_seed):
    """module.what(spec) as computed in a session started with PYTHONHASHSEED=hash_seed."""
    key = (os.getpid(), module, hash_seed)
    p = SERVERS.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        p = SERVERS[key] = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), module, *sys.path], stdin=subprocess.PIPE,
                                            stdout=subprocess.PIPE, env=env, cwd=VERIF)
    p.stdin.write((json.dumps([what, spec]) + "\n").encode())
    p.stdin.flush()
    head = p.stdout.read(8)
    if len(head) < 8:
        raise RuntimeError("the other session has ended")
    kind, x = pickle.loads(p.stdout.read(struct.unpack("<Q", head)[0]))
    if kind == "error":
        raise RuntimeError("in the other session: " + x)
    return x


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # whatever prints does not disturb the answers
    sys.dont_write_bytecode = True
    sys.path[:] = sys.argv[2:]
    from vlib import core
    core._silence()
    mod = importlib.import_module(sys.argv[1])
    for line in sys.stdin:
        what, spec = json.loads(line)
        try:
            answer = ("ok", getattr(mod, what)(spec))
        except Exception:
            answer = ("error", traceback.format_exc())
        data = pickle.dumps(answer)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    serve()
