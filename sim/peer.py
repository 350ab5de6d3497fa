"""Interpreters started with other hash seeds.  Each serves requests on a Unix socket, every one in a forked child."""
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

from . import ref as REF
from . import world as W

PEERS = []


def start(hash_seeds):
    top = os.environ["SIM_SCRATCH"]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for i, h in enumerate(hash_seeds):
        path = os.path.join(top, f"peer{i}")
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        p = subprocess.Popen([sys.executable, "-m", "sim.peer", path], cwd=here, env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.DEVNULL)
        PEERS.append((path, p))
    for path, p in PEERS:
        end = time.monotonic() + 180
        while not os.path.exists(path):
            if p.poll() is not None or time.monotonic() > end:
                raise W.HarnessError("a peer interpreter did not start")
            time.sleep(0.02)


def _send(s, obj):
    data = pickle.dumps(REF._enc(obj), protocol=5)
    s.sendall(struct.pack("<Q", len(data)) + data)


def _recv(s):
    def exactly(n):
        buf = bytearray()
        while len(buf) < n:
            c = s.recv(n - len(buf))
            if not c:
                raise W.HarnessError("peer is gone")
            buf += c
        return bytes(buf)
    (n,) = struct.unpack("<Q", exactly(8))
    return REF._dec(pickle.loads(exactly(n)))


def ask(i, req):
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.connect(PEERS[i][0])
    try:
        _send(s, req)
        st, r = _recv(s)
    finally:
        s.close()
    if st != "done":
        raise W.HarnessError("peer: " + r)
    return r


def serve(path):
    import select
    from . import runner
    runner.bootstrap()
    from . import f_entropy
    f_entropy.prepare_peer()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.bind(path + ".tmp")
    s.listen(64)
    os.rename(path + ".tmp", path)
    while True:
        r, _, _ = select.select([s, sys.stdin], [], [])
        if sys.stdin in r:
            break  # the check is over
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                sys.stdout = open("/dev/null", "w")
                sys.stderr = sys.stdout
                try:
                    res = ("done", f_entropy.serve(_recv(c)))
                except BaseException as e:
                    res = ("harness", "".join(traceback.format_exception(e))[-3000:])
                _send(c, res)
            finally:
                os._exit(0)
        c.close()
    os._exit(0)


if __name__ == "__main__":
    from sim import peer
    peer.serve(sys.argv[1])
