"""Simulated MPI with a controlled scheduler.

A World has ``size`` ranks. Each rank runs the *real* code under test; every
communication call is a scheduling point at which exactly one rank is chosen
to continue. Two back ends share the same matching semantics (``Matcher``):

* ThreadWorld - ranks are threads of this process, one running at a time.
  Used for small protocols; ``explore_schedules`` enumerates every schedule.
* ForkWorld   - ranks are forked processes talking to a coordinator by pipes.
  Used for whole-program runs, where ranks need separate class-level state.

Semantics. The k-th collective of every rank must be the same operation with
the same root (otherwise: CollectiveMismatch). A rank may leave a collective
as soon as the data it needs has been deposited (root of bcast/scatter:
immediately; receiver: when the root has entered; gather/reduce: non-roots
immediately, root when all have entered; all-to-all ones: when all entered).
That is the weakest synchronisation MPI guarantees. With ``sync=True`` every
collective is a barrier instead, the strongest one. Lower-case calls pickle
their payload, upper-case calls copy buffers, like mpi4py. Messages from one
rank to another (send, recv, sendrecv) are matched by source and tag in the
order sent; a send returns at once, or with ``sync=True`` when received.

Abort ends all processes of a ForkWorld; its error code becomes the status of
the job (as with Open MPI's mpirun).

If no rank can continue and not all have ended: Deadlock.
"""
import os
import pickle
import signal
import sys
import threading
import traceback

import numpy as np


class SimMPIError(BaseException):
    """Protocol violation found by the simulator (not catchable as Exception
    by the code under test)."""


class Deadlock(SimMPIError):
    pass


class CollectiveMismatch(SimMPIError):
    pass


class Killed(BaseException):
    """Raised inside a rank to unwind it after a protocol violation."""


class Aborted(BaseException):
    """Raised inside a rank that called Abort."""


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()


class Op:
    def __init__(self, fnc, name):
        self.fnc = fnc
        self.name = name

    def __call__(self, a, b):
        return self.fnc(a, b)

    def __reduce__(self):
        return self.name


SUM = Op(lambda a, b: a + b, "SUM")
PROD = Op(lambda a, b: a * b, "PROD")
MAX = Op(lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray)
         else max(a, b), "MAX")
MIN = Op(lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray)
         else min(a, b), "MIN")
LAND = Op(lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray)
          else a and b, "LAND")
LOR = Op(lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray)
         else a or b, "LOR")
BAND = Op(lambda a, b: a & b, "BAND")
BOR = Op(lambda a, b: a | b, "BOR")
DOUBLE = FLOAT = INT = LONG = INT64_T = INT32_T = BOOL = C_BOOL = None


def _dump(obj):
    return pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)


_load = pickle.loads


def _buf(x):
    """Buffer argument -> ndarray (accepts [array, type] specs)."""
    if isinstance(x, (list, tuple)):
        x = x[0]
    return x


class Matcher:
    """Matches collectives. Operates on pickled/opaque payloads only."""
    def __init__(self, size, sync=False):
        self.size = size
        self.sync = sync
        self.count = [0] * size          # collectives entered per rank
        self.slots = []                  # per sequence number
        self.pending = {}                # rank -> seq it waits on
        self.trace = []
        self.mail = {}                   # (source, dest, tag) -> payloads
        self.p2p = {}                    # rank -> (kind, key, counter)
        self.sent, self.got = {}, {}     # messages per key

    def waiting(self, rank):
        if rank in self.p2p:
            return self.p2p[rank][0]
        return self.slots[self.pending[rank]]['kind']

    def _p2p_ready(self, rank):
        kind, key, n = self.p2p[rank]
        if kind == 'send':
            return not self.sync or self.got.get(key, 0) >= n or any(
                k == 'recv' and x == key for k, x, _ in self.p2p.values())
        return bool(self.mail.get(key))

    def enter(self, rank, kind, root, payload):
        if kind in ('send', 'recv'):
            peer, tag = root
            key = (rank, peer, tag) if kind == 'send' else (peer, rank, tag)
            if kind == 'send':
                self.mail.setdefault(key, []).append(payload)
                self.sent[key] = self.sent.get(key, 0) + 1
            self.p2p[rank] = (kind, key, self.sent.get(key, 0))
            self.trace.append((rank, kind))
            return
        seq = self.count[rank]
        self.count[rank] += 1
        if seq == len(self.slots):
            self.slots.append(dict(kind=kind, root=root, data={}))
        slot = self.slots[seq]
        if (slot['kind'], slot['root']) != (kind, root):
            raise CollectiveMismatch(
                f"collective #{seq}: rank {rank} calls {kind}(root={root}) "
                f"while another rank called {slot['kind']}"
                f"(root={slot['root']})")
        slot['data'][rank] = payload
        self.pending[rank] = seq
        self.trace.append((rank, kind))

    def ready(self, rank):
        if rank in self.p2p:
            return self._p2p_ready(rank)
        if rank not in self.pending:
            return True
        slot = self.slots[self.pending[rank]]
        n = len(slot['data'])
        if self.sync:
            return n == self.size
        kind, root = slot['kind'], slot['root']
        if kind in ('bcast', 'scatter', 'Bcast', 'Scatter'):
            return root in slot['data']
        if kind in ('gather', 'reduce', 'Gather', 'Reduce'):
            return rank != root or n == self.size
        return n == self.size

    def leave(self, rank):
        """Returns what the rank's call needs (dict rank->payload)."""
        if rank in self.p2p:
            kind, key, _ = self.p2p.pop(rank)
            if kind == 'send':
                return {}
            self.got[key] = self.got.get(key, 0) + 1
            return {key[0]: self.mail[key].pop(0)}
        seq = self.pending.pop(rank)
        slot = self.slots[seq]
        kind, root = slot['kind'], slot['root']
        if kind in ('bcast', 'scatter', 'Bcast', 'Scatter'):
            return {root: slot['data'][root]}
        if kind in ('gather', 'reduce', 'Gather', 'Reduce') and rank != root:
            return {}
        return dict(slot['data'])


class Comm:
    """Per-rank communicator; ``_call`` is provided by the back end."""
    def __init__(self, rank, size, call, abort=None):
        self.rank = rank
        self.size = size
        self._call = call
        self._abort = abort

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # -- pickled ----------------------------------------------------------
    def bcast(self, obj=None, root=0):
        payload = _dump(obj) if self.rank == root else None
        return _load(self._call('bcast', root, payload)[root])

    def scatter(self, sendobj=None, root=0):
        payload = None
        if self.rank == root:
            seq = list(sendobj)
            if len(seq) != self.size:
                raise ValueError(
                    f"expecting {self.size} items, got {len(seq)}")
            payload = [_dump(x) for x in seq]
        return _load(self._call('scatter', root, payload)[root][self.rank])

    def gather(self, sendobj=None, root=0):
        data = self._call('gather', root, _dump(sendobj))
        if self.rank != root:
            return None
        return [_load(data[r]) for r in range(self.size)]

    def allgather(self, sendobj=None):
        data = self._call('allgather', None, _dump(sendobj))
        return [_load(data[r]) for r in range(self.size)]

    def _fold(self, values, op):
        acc = values[0]
        for v in values[1:]:
            acc = op(acc, v)
        return acc

    def reduce(self, sendobj=None, op=SUM, root=0):
        data = self._call('reduce', root, _dump(sendobj))
        if self.rank != root:
            return None
        return self._fold([_load(data[r]) for r in range(self.size)], op)

    def allreduce(self, sendobj=None, op=SUM):
        data = self._call('allreduce', None, _dump(sendobj))
        return self._fold([_load(data[r]) for r in range(self.size)], op)

    def _before(self, sendobj, upto, kind, op):
        data = self._call(kind, None, _dump(sendobj))
        v = [_load(data[r]) for r in range(upto)]
        return self._fold(v, op) if v else None

    def scan(self, sendobj=None, op=SUM):
        return self._before(sendobj, self.rank + 1, 'scan', op)

    def exscan(self, sendobj=None, op=SUM):
        return self._before(sendobj, self.rank, 'exscan', op)

    def alltoall(self, sendobj=None):
        seq = list(sendobj)
        if len(seq) != self.size:
            raise ValueError(f"expecting {self.size} items, got {len(seq)}")
        data = self._call('alltoall', None, [_dump(x) for x in seq])
        return [_load(data[r][self.rank]) for r in range(self.size)]

    def send(self, obj, dest, tag=0):
        self._call('send', (dest, tag), _dump(obj))

    ssend = bsend = send

    def recv(self, buf=None, source=None, tag=0, status=None):
        if source is None or source < 0:
            raise NotImplementedError("recv from any source")
        return _load(self._call('recv', (source, tag), None)[source])

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=None,
                 recvtag=0, status=None):
        self.send(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag)

    def barrier(self):
        self._call('barrier', None, None)

    Barrier = barrier

    # -- buffers ----------------------------------------------------------
    def Bcast(self, buf, root=0):
        arr = _buf(buf)
        payload = arr.copy() if self.rank == root else None
        data = self._call('Bcast', root, payload)[root]
        if self.rank != root:
            if data.size != arr.size:
                raise ValueError("message truncated")
            arr.ravel()[:] = data.ravel() if arr.flags.c_contiguous else None

    @staticmethod
    def _check(send, recv):
        if not isinstance(recv, np.ndarray) or not recv.flags.c_contiguous:
            raise ValueError("receive buffer must be contiguous ndarray")
        if send.size != recv.size:
            raise ValueError("message truncated: buffers differ in size")
        if send.dtype != recv.dtype:
            raise ValueError("message: buffers differ in datatype")

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        recv = _buf(recvbuf)
        send = recv if sendbuf is IN_PLACE else _buf(sendbuf)
        self._check(send, recv)
        data = self._call('Allreduce', None, np.array(send, copy=True))
        vals = [data[r] for r in range(self.size)]
        for v in vals:
            self._check(v, recv)
        acc = vals[0].copy()
        for v in vals[1:]:
            acc = op(acc, v)
        recv.reshape(-1)[:] = acc.reshape(-1)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        send = _buf(recvbuf) if sendbuf is IN_PLACE else _buf(sendbuf)
        data = self._call('Reduce', root, np.array(send, copy=True))
        if self.rank != root:
            return
        recv = _buf(recvbuf)
        vals = [data[r] for r in range(self.size)]
        for v in vals:
            self._check(v, recv)
        acc = vals[0].copy()
        for v in vals[1:]:
            acc = op(acc, v)
        recv.reshape(-1)[:] = acc.reshape(-1)

    def Gather(self, sendbuf, recvbuf, root=0):
        data = self._call('Gather', root, np.array(_buf(sendbuf), copy=True))
        if self.rank == root:
            _buf(recvbuf).reshape(self.size, -1)[:] = [
                data[r].reshape(-1) for r in range(self.size)]

    def Allgather(self, sendbuf, recvbuf):
        data = self._call('Allgather', None,
                          np.array(_buf(sendbuf), copy=True))
        _buf(recvbuf).reshape(self.size, -1)[:] = [
            data[r].reshape(-1) for r in range(self.size)]

    def Scatter(self, sendbuf, recvbuf, root=0):
        send = None
        if self.rank == root:
            send = np.array(_buf(sendbuf), copy=True).reshape(self.size, -1)
        data = self._call('Scatter', root, send)[root]
        _buf(recvbuf).reshape(-1)[:] = data[self.rank]

    @staticmethod
    def _concat(data, recvbuf):
        x = np.concatenate([data[r].reshape(-1) for r in sorted(data)])
        recv = _buf(recvbuf).reshape(-1)
        if x.size > recv.size:
            raise ValueError("message truncated")
        recv[:x.size] = x

    def Gatherv(self, sendbuf, recvbuf, root=0):
        data = self._call('Gather', root, np.array(_buf(sendbuf), copy=True))
        if self.rank == root:
            self._concat(data, recvbuf)

    def Allgatherv(self, sendbuf, recvbuf):
        self._concat(self._call('Allgather', None, np.array(
            _buf(sendbuf), copy=True)), recvbuf)

    def Abort(self, errorcode=0):
        raise Aborted(errorcode)


Intracomm = Comm

# --------------------------------------------------------------------------
# COMM_WORLD: resolves to the communicator of the rank that uses it
# --------------------------------------------------------------------------
_current = threading.local()
_process_comm = None


def _self_call(kind, root, payload):
    return {0: payload}


_self_comm = Comm(0, 1, _self_call)


class _WorldProxy:
    def _c(self):
        c = getattr(_current, 'comm', None)
        return c or _process_comm or _self_comm

    def __getattr__(self, name):
        return getattr(self._c(), name)


COMM_WORLD = _WorldProxy()


class Result:
    """Outcome of one rank: kind in value / raise / exit / abort / killed."""
    def __init__(self, kind, value=None, text=''):
        self.kind = kind
        self.value = value
        self.text = text

    def __repr__(self):
        return f"{self.kind}({self.value!r})"


def _run_body(body, comm):
    try:
        return Result('value', body(comm))
    except Killed:
        return Result('killed')
    except Aborted as e:
        return Result('abort', e.args, traceback.format_exc())
    except SystemExit as e:
        return Result('exit', e.code)
    except SimMPIError as e:
        return Result('protocol', e)
    except Exception as e:
        return Result('raise', e, traceback.format_exc())


# --------------------------------------------------------------------------
class ThreadWorld:
    """Runs bodies (callables comm -> value) under a schedule.

    ``choose(enabled)`` returns the index into the sorted list of enabled
    ranks that continues next. Scheduling points: start of each rank, after
    entering each collective.
    """
    def __init__(self, size, sync=False):
        self.size = size
        self.sync = sync

    def run(self, body, choose):
        m = self.matcher = Matcher(self.size, self.sync)
        go = [threading.Semaphore(0) for _ in range(self.size)]
        back = threading.Semaphore(0)
        results = [None] * self.size
        state = ['start'] * self.size   # start/blocked/done
        err = []
        kill = [False]

        def make_call(rank):
            def call(kind, root, payload):
                try:
                    m.enter(rank, kind, root, payload)
                except CollectiveMismatch as e:
                    err.append(e)
                    raise Killed()
                state[rank] = 'blocked'
                back.release()
                go[rank].acquire()
                if kill[0]:
                    raise Killed()
                return m.leave(rank)
            return call

        def runner(rank):
            go[rank].acquire()
            if not kill[0]:
                comm = Comm(rank, self.size, make_call(rank))
                _current.comm = comm
                results[rank] = _run_body(body, comm)
            else:
                results[rank] = Result('killed')
            state[rank] = 'done'
            back.release()

        threads = [threading.Thread(target=runner, args=(r,), daemon=True)
                   for r in range(self.size)]
        for t in threads:
            t.start()

        steps = 0
        while True:
            live = [r for r in range(self.size) if state[r] != 'done']
            if not live or err:
                break
            enabled = [r for r in live if m.ready(r)]
            if not enabled:
                ops = {r: m.waiting(r) for r in live}
                ended = {r: repr(results[r]) for r in range(self.size)
                         if state[r] == 'done'}
                err.append(Deadlock(f"waiting: {ops}; ended: {ended}"))
                break
            r = enabled[choose(enabled)]
            steps += 1
            go[r].release()
            back.acquire()
        kill[0] = True
        for r in range(self.size):
            if state[r] != 'done':
                go[r].release()
        for t in threads:
            t.join()
        self.steps = steps
        if err:
            raise err[0]
        return results


tick = None     # called before every execution (the runner re-arms its
                # hang detector here, so that it times one execution)


def _explore(size, body_factory, check, sync, bound, limit):
    """Depth-first enumeration of schedules with at most ``bound``
    preemptions (None: all schedules), at most ``limit`` of them."""
    prefix = []
    nsched = nsteps = 0
    while True:
        points = []             # [chosen option, number of options]
        ranks = []
        last, used = [None], [0]

        def choose(enabled):
            # options: the rank that ran last first, then the others; moving
            # away from a rank that could continue is a preemption
            opts = list(enabled)
            go_on = last[0] in opts
            if go_on:
                opts.remove(last[0])
                if bound is not None and used[0] >= bound:
                    opts = []
                opts.insert(0, last[0])
            i = len(points)
            c = prefix[i] if i < len(prefix) else 0
            if c >= len(opts):
                raise RuntimeError("schedule replay diverged")
            points.append((c, len(opts)))
            if go_on and c > 0:
                used[0] += 1
            last[0] = opts[c]
            ranks.append(opts[c])
            return enabled.index(opts[c])

        if tick is not None:
            tick()
        w = ThreadWorld(size, sync)
        try:
            res = w.run(body_factory(), choose)
        except SimMPIError as e:
            res = e
        nsched += 1
        nsteps += len(points)
        check(res, ranks, w)
        while points and points[-1][0] == points[-1][1] - 1:
            points.pop()
        if not points:
            return nsched, nsteps, True
        if limit and nsched >= limit:
            return nsched, nsteps, False
        prefix = [p[0] for p in points[:-1]] + [points[-1][0] + 1]


def explore_schedules(size, body_factory, check, sync=False, limit=1200):
    """Enumerates every schedule depth first. Code that communicates so much
    that there are more than ``limit`` of them is explored up to a bound on
    the number of preemptions instead (2, or 1, or 0).

    body_factory() -> body(comm) fresh for each execution.
    check(results, ranks, world) is called for each complete execution;
    protocol violations are passed as results=exception.
    Returns (schedules, steps, complete).
    """
    n = st = 0
    for bound in (None, 2, 1, 0):
        a, b, full = _explore(size, body_factory, check, sync, bound, limit)
        n, st = n + a, st + b
        if full:
            break
    return n, st, bound is None and full


def run_one(size, body, order=None, sync=False):
    """One execution with fixed priority order of ranks (threads)."""
    order = list(order) if order is not None else list(range(size))

    def choose(enabled):
        for r in order:
            if r in enabled:
                return enabled.index(r)
    if tick is not None:
        tick()
    return ThreadWorld(size, sync).run(body, choose)


# --------------------------------------------------------------------------
class ForkWorld:
    """Each rank is a forked process. body(comm) -> picklable value.

    Priority schedule: whenever several ranks can continue, the one first in
    ``order`` does, and it alone runs until its next communication or end.
    """
    def __init__(self, size, order=None, sync=False, timeout=120):
        self.size = size
        self.order = list(order) if order is not None else list(range(size))
        self.sync = sync
        self.timeout = timeout

    def run(self, body):
        import multiprocessing.connection as mpc
        m = self.matcher = Matcher(self.size, self.sync)
        pipes, pids = [], []
        sys.stdout.flush()
        sys.stderr.flush()
        for rank in range(self.size):
            parent, child = mpc.Pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    parent.close()
                    for p in pipes:
                        p.close()
                    self._child(rank, child, body)
                    code = 0
                finally:
                    os._exit(code)
            child.close()
            pipes.append(parent)
            pids.append(pid)

        state = ['start'] * self.size
        results = [None] * self.size
        err = None
        self.steps = 0
        try:
            while err is None:
                live = [r for r in range(self.size) if state[r] != 'done']
                if not live:
                    break
                enabled = [r for r in self.order
                           if state[r] != 'done' and m.ready(r)]
                if not enabled:
                    ops = {r: m.waiting(r) for r in live}
                    ended = {r: repr(results[r]) for r in range(self.size)
                             if state[r] == 'done'}
                    err = Deadlock(f"waiting: {ops}; ended: {ended}")
                    break
                r = enabled[0]
                self.steps += 1
                pipes[r].send(None if state[r] == 'start' else m.leave(r))
                if not pipes[r].poll(self.timeout):
                    err = Deadlock(
                        f"rank {r} made no progress for {self.timeout} s")
                    break
                try:
                    msg = pipes[r].recv()
                except EOFError:
                    state[r] = 'done'
                    results[r] = Result('crash')
                    continue
                if msg[0] == 'done':
                    state[r] = 'done'
                    kind, value, text = msg[1]
                    results[r] = Result(kind, value, text)
                    if kind == 'abort':
                        # ends every process of the job
                        for o in live:
                            if o != r:
                                state[o] = 'done'
                                results[o] = Result('killed')
                else:
                    state[r] = 'blocked'
                    try:
                        m.enter(r, *msg[1:])
                    except CollectiveMismatch as e:
                        err = e
        finally:
            for p in pipes:
                p.close()
            for pid in pids:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
        if err is not None:
            raise err
        return results

    def _child(self, rank, pipe, body):
        global _process_comm
        signal.alarm(0)
        pipe.recv()

        def call(kind, root, payload):
            pipe.send(('call', kind, root, payload))
            return pipe.recv()

        comm = Comm(rank, self.size, call)
        _process_comm = comm
        _current.comm = comm
        res = _run_body(body, comm)
        if res.kind == 'raise':
            v = (type(res.value).__name__, str(res.value))
        else:
            v = res.value
        try:
            msg = _dump(v)
            del msg
        except Exception as e:
            res.kind, v, res.text = 'raise', ('PicklingError', str(e)), ''
        pipe.send(('done', (res.kind, v, res.text)))
