"""Server side of the mpi4py stand-in: run(n, argv, env, cwd) starts n rank processes and serves them; detects deadlocks
and mismatched collectives exactly (no timing involved)."""
import os
import subprocess
import threading
import time
from multiprocessing.connection import Listener, wait


class Mismatch(Exception):
    pass


def run(n, argv, env, cwd, timeout=600):
    sock = os.path.join(cwd, "fakempi.sock")
    if os.path.exists(sock):
        os.remove(sock)
    listener = Listener(sock, family="AF_UNIX", backlog=n)
    procs, errs = [], []
    for r in range(n):
        e = dict(env, FAKEMPI_RANK=str(r), FAKEMPI_SIZE=str(n), FAKEMPI_SOCK=sock)
        errs.append(open(os.path.join(cwd, "err.%d" % r), "w"))
        procs.append(subprocess.Popen(argv, env=e, cwd=cwd, stdout=errs[-1], stderr=subprocess.STDOUT))
    conns = {}
    failure = None
    listener._listener._socket.settimeout(2)
    t0 = time.time()
    try:
        while len(conns) < n:
            try:
                c = listener.accept()
                conns[c] = c.recv()[1]
            except (TimeoutError, OSError):
                pass
            if any(p.poll() not in (None,) for p in procs):
                failure = "a rank ended before connecting"
                break
            if time.time() - t0 > timeout:
                raise TimeoutError
        pending, mail, recvs, wins, nwin = {}, {}, {}, {}, 0
        lastwin = {}
        alive = dict(conns)
        while alive and failure is None:
            ready = wait(list(alive), timeout=5)
            if time.time() - t0 > timeout:
                raise TimeoutError
            for c in ready:
                r = alive[c]
                try:
                    msg = c.recv()
                except (EOFError, ConnectionResetError):
                    del alive[c]
                    continue
                op = msg[0]
                if op == "coll":
                    pending[r] = (c, msg)
                elif op == "send":
                    mail.setdefault((r, msg[1], msg[2]), []).append(msg[3])
                    c.send((True, None))
                elif op == "recv":
                    recvs[r] = (c, (msg[1], r, msg[2]))
                elif op == "winid":
                    c.send((True, lastwin[r]))
                elif op == "put":
                    wins[(msg[1], msg[2])] = msg[3]
                    c.send((True, None))
                elif op == "get":
                    if (msg[1], msg[2]) in wins:
                        c.send((True, wins[(msg[1], msg[2])]))
                    else:
                        c.send((False, "nothing was put"))
            for r in list(recvs):
                c, key = recvs[r]
                if mail.get(key):
                    del recvs[r]
                    c.send((True, mail[key].pop(0)))
            if len(pending) == n:
                kinds = {m[1:3] for _, m in pending.values()}
                if len(kinds) != 1:
                    failure = "mismatched collective calls: %s" % sorted(map(str, kinds))
                    break
                data = [pending[r][1][3] for r in range(n)]
                if next(iter(kinds))[0] == "win":
                    nwin += 1
                    for r in range(n):
                        lastwin[r] = nwin
                todo, pending = pending, {}
                for r in range(n):
                    todo[r][0].send((True, data))
            elif alive and len(pending) + len(recvs) == len(alive):
                failure = "deadlock: ranks %s in a collective call, ranks %s waiting for a message, %d of %d ranks still running" % (
                    sorted((r, m[1][1]) for r, m in pending.items()), sorted(recvs), len(alive), n)
                break
        if failure is None:
            for p in procs:
                p.wait(timeout=120)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        for p in procs:
            p.wait()
        for f in errs:
            f.close()
        listener.close()
    out = [open(os.path.join(cwd, "err.%d" % r)).read()[-3000:] for r in range(n)]
    rcs = [p.returncode for p in procs]
    if failure is None and any(rcs):
        failure = "rank(s) %s ended with an error" % [r for r in range(n) if rcs[r]]
    return failure, out
