"""A stand-in for MPI.  Every rank is a process of its own that stops in every call; one scheduler lets one rank
continue at a time and decides when the data of a message leave the send buffer and when they arrive."""
import multiprocessing
import os
import pickle
import random
import sys
import time
import types

import numpy as np


class Deadlock(Exception):
    pass


class RankError(Exception):
    pass


# ---- side of a rank -------------------------------------------------------------------------------------------

def array_of(buf):
    a = buf[0] if isinstance(buf, (list, tuple)) else buf
    if not isinstance(a, np.ndarray):
        a = np.asarray(memoryview(a))
    if not a.flags['C_CONTIGUOUS']:
        raise ValueError('message: cannot handle non-contiguous buffer')
    return a


class Request:
    """Request of a non-blocking call."""
    def __init__(self, comm=None, rid=None, obj=None):
        self.comm, self.rid, self.obj = comm, rid, obj

    def Wait(self, status=None):
        if self.rid is not None:
            self.comm.ask('wait', [self.rid])
        return True

    def wait(self, status=None):
        self.Wait()
        return self.obj.value() if self.obj else None

    def Test(self, status=None):
        return self.rid is None or self.comm.ask('test', [self.rid])

    def test(self, status=None):
        ok = self.Test()
        return ok, (self.obj.value() if ok and self.obj else None)

    @classmethod
    def Waitall(cls, requests, statuses=None):
        rs = [r.rid for r in requests if r.rid is not None]
        if rs:
            next(r for r in requests if r.rid is not None).comm.ask('wait', rs)
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        cls.Waitall(requests)
        return [r.obj.value() if r.obj else None for r in requests]

    @classmethod
    def Testall(cls, requests, statuses=None):
        rs = [r.rid for r in requests if r.rid is not None]
        return not rs or next(r for r in requests if r.rid is not None).comm.ask('test', rs)


class Pickled:
    def __init__(self, buf):
        self.buf = buf

    def value(self):
        return pickle.loads(self.buf.tobytes())


class Comm:
    def __init__(self, pipe, rank, size):
        self.pipe, self.rank, self.size = pipe, rank, size
        self.bufs, self.nreq, self.ncoll = {}, 0, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def ask(self, what, *args):
        self.pipe.send((what,) + args)
        while True:
            m = self.pipe.recv()
            if m[0] == 'go':
                return m[1]
            if m[0] == 'error':
                raise RuntimeError(m[1])
            if m[0] == 'read':
                self.pipe.send(self.bufs[m[1]].tobytes())
            elif m[0] == 'write':
                self.bufs[m[1]].reshape(-1).view(np.uint8)[:len(m[2])] = np.frombuffer(m[2], np.uint8)

    def peer(self, x):
        if not 0 <= x < self.size:
            raise RuntimeError('MPI_ERR_RANK: invalid rank')
        return int(x)

    def req(self, a):
        self.nreq += 1
        self.bufs[self.nreq] = a
        return self.nreq

    def Isend(self, buf, dest, tag=0):
        a = array_of(buf)
        i = self.req(a)
        self.ask('send', i, self.peer(dest), int(tag))
        return Request(self, i)

    Issend = Irsend = Ibsend = Isend

    def Irecv(self, buf, source=-1, tag=-1):
        a = array_of(buf)
        i = self.req(a)
        self.ask('recv', i, source if source == -1 else self.peer(source), int(tag), a.nbytes)
        return Request(self, i)

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    def Recv(self, buf, source=-1, tag=-1, status=None):
        self.Irecv(buf, source, tag).Wait()

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        Request.Waitall([self.Isend(sendbuf, dest, sendtag), self.Irecv(recvbuf, source, recvtag)])

    def isend(self, obj, dest, tag=0):
        return self.Isend(np.frombuffer(pickle.dumps(obj), np.uint8), dest, tag)

    def irecv(self, buf=None, source=-1, tag=-1):
        a = np.zeros(1 << 16, np.uint8)
        r = self.Irecv(a, source, tag)
        r.obj = Pickled(a)
        return r

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).Wait()

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return self.irecv(buf, source, tag).wait()

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1, recvtag=-1, status=None):
        s = self.isend(sendobj, dest, sendtag)
        r = self.recv(None, source, recvtag)
        s.Wait()
        return r

    # collective calls: name, root (None - everybody waits for everybody), data
    def coll(self, name, root, data, block=True):
        self.ncoll += 1
        return self.ask('coll', self.ncoll, name, root, pickle.dumps(data), block)

    def parts(self, r):
        return None if r is None else [pickle.loads(x) for x in r]

    def Barrier(self):
        self.coll('barrier', None, None)

    barrier = Barrier

    def Ibarrier(self):
        self.coll('ibarrier', None, None, block=False)
        return Request(self, None)

    def gather(self, obj, root=0):
        return self.parts(self.coll('gather', root, obj))

    def allgather(self, obj):
        return self.parts(self.coll('allgather', None, obj))

    def bcast(self, obj=None, root=0):
        return self.parts(self.coll('bcast', -1 - root, obj))[root]

    def allreduce(self, obj, op=None):
        r = self.parts(self.coll('allreduce', None, obj))
        return max(r) if op == 'MAX' else min(r) if op == 'MIN' else sum(r[1:], r[0])

    def Gatherv(self, sendbuf, recvbuf=None, root=0):
        r = self.parts(self.coll('gatherv', root, array_of(sendbuf).reshape(-1)))
        if self.rank == root:
            self.place(r, recvbuf)

    def Gather(self, sendbuf, recvbuf=None, root=0):
        r = self.parts(self.coll('gather_', root, array_of(sendbuf).reshape(-1)))
        if self.rank == root:
            n = array_of(recvbuf).size // self.size
            self.place(r, [recvbuf, [n] * self.size])

    def Allgatherv(self, sendbuf, recvbuf):
        self.place(self.parts(self.coll('allgatherv', None, array_of(sendbuf).reshape(-1))), recvbuf)

    def place(self, parts, spec):
        buf = array_of(spec).reshape(-1)
        rest = [x for x in (spec[1:] if isinstance(spec, (list, tuple)) else [])]
        flat = []
        for x in rest:      # counts, displacements, type; also (counts, displacements)
            flat += list(x) if isinstance(x, tuple) and x and isinstance(x[0], (list, tuple, np.ndarray)) else [x]
        lists = [list(map(int, x)) for x in flat if x is not None and hasattr(x, '__len__')]
        counts = lists[0] if lists else [buf.size // self.size] * self.size
        displs = lists[1] if len(lists) > 1 else [sum(counts[:i]) for i in range(len(counts))]
        for p, c, d in zip(parts, counts, displs):
            if p.dtype != buf.dtype and p.nbytes > c * buf.dtype.itemsize or p.size > c:
                raise RuntimeError('MPI_ERR_TRUNCATE: message truncated')
            if d + p.size > buf.size:
                raise RuntimeError('MPI_ERR_BUFFER: write out of the receive buffer')
            buf[d:d + p.size] = p


class Named(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return name


def fake_module(comm):
    m = types.ModuleType('mpi4py')
    mpi = Named('mpi4py.MPI')
    mpi.COMM_WORLD, mpi.Request, mpi.Comm = comm, Request, Comm
    mpi.ANY_SOURCE = mpi.ANY_TAG = -1
    m.MPI = mpi
    sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = m, mpi


def rank_main(pipe, rank, size, fn, arg):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    comm = Comm(pipe, rank, size)
    fake_module(comm)
    try:
        r = ('end', '', fn(comm, arg))
    except BaseException as e:
        r = ('end', '%s: %s' % (type(e).__name__, str(e)[:200]), None)
    pipe.send(r)
    while True:         # the buffers are still there until everybody has finished
        try:
            m = pipe.recv()
        except EOFError:
            os._exit(0)
        if m[0] == 'read':
            pipe.send(comm.bufs[m[1]].tobytes())
        elif m[0] == 'write':
            comm.bufs[m[1]].reshape(-1).view(np.uint8)[:len(m[2])] = np.frombuffer(m[2], np.uint8)
        elif m[0] == 'quit':
            os._exit(0)


# ---- the scheduler --------------------------------------------------------------------------------------------

class Run:
    """Runs fn(comm, arg) on size ranks.  schedule: [[what, s, d], ...] as far as possible, then policy."""
    def __init__(self, size, fn, args, schedule, policy, rnd, timeout=60):
        self.size, self.policy, self.rnd, self.timeout = size, policy, rnd, timeout
        ctx = multiprocessing.get_context('fork')
        self.pipes, self.procs = [], []
        for r in range(size):
            a, b = ctx.Pipe()
            p = ctx.Process(target=rank_main, args=(b, r, size, fn, args[r]), daemon=True)
            p.start()
            b.close()
            self.pipes.append(a)
            self.procs.append(p)
        self.sends, self.recvs = [], []         # posted: {'id', 'src', 'dst', 'tag', 'data', 'done', 'used'}
        self.done = set()                       # completed requests (rank, id)
        self.colls = {}
        self.log = []
        try:
            self.at = [self.hear(r) for r in range(size)]
            self.play(schedule)
        finally:
            for a, p in zip(self.pipes, self.procs):
                try:
                    a.send(('quit',))
                except OSError:
                    pass
                a.close()
            for p in self.procs:
                p.join(2)
                if p.is_alive():
                    p.kill()

    def hear(self, r):
        t = time.time()
        while not self.pipes[r].poll(0.5):
            if time.time() - t > self.timeout or not self.procs[r].is_alive():
                raise Deadlock('rank %d does not answer' % r)
        return self.pipes[r].recv()

    # -- what is possible
    def ended(self, r):
        return self.at[r][0] == 'end'

    def can_step(self, r):
        m = self.at[r]
        if m[0] == 'wait':
            return all((r, i) in self.done for i in m[1])
        if m[0] == 'coll':
            _, k, name, root, data, block = m
            c = self.colls.setdefault(k, {})
            c[r] = (name, root, data)
            if len({x[:2] for x in c.values()}) > 1:
                raise RankError('collective calls differ: %s' % sorted({x[0] for x in c.values()}))
            if not block or root is not None and root >= 0 and r != root:
                return True
            if root is not None and root < 0:
                return -1 - root in c
            return len(c) == self.size
        return not self.ended(r)

    def step(self, r):
        m, ans = self.at[r], None
        if m[0] == 'send':
            self.sends.append({'id': m[1], 'src': r, 'dst': m[2], 'tag': m[3], 'data': None, 'used': False})
        elif m[0] == 'recv':
            self.recvs.append({'id': m[1], 'src': m[2], 'dst': r, 'tag': m[3], 'cap': m[4], 'used': False})
        elif m[0] == 'test':
            ans = all((r, i) in self.done for i in m[1])
        elif m[0] == 'coll':
            _, k, name, root, data, block = m
            c = self.colls[k]
            if block and (root is None or root < 0 or r == root):
                ans = [c[q][2] if q in c else pickle.dumps(None) for q in range(self.size)]
        self.log.append(('step', r, m[0]))
        self.pipes[r].send(('go', ans))
        self.at[r] = self.hear(r)

    def first(self, s, d):
        """The oldest send from s to d that is not received yet, with its receive."""
        for x in self.sends:
            if x['src'] == s and x['dst'] == d and not x['used']:
                for y in self.recvs:
                    if y['dst'] == d and not y['used'] and y['src'] in (-1, s) and y['tag'] in (-1, x['tag']):
                        return x, y
        return None

    def can_copy(self, s, d):
        return next((x for x in self.sends if x['src'] == s and x['dst'] == d and x['data'] is None), None)

    def read(self, x):
        self.pipes[x['src']].send(('read', x['id']))
        t = time.time()
        while not self.pipes[x['src']].poll(0.5):
            if time.time() - t > self.timeout:
                raise Deadlock('no data')
        x['data'] = self.pipes[x['src']].recv()
        self.done.add((x['src'], x['id']))

    def copy(self, s, d):
        self.read(self.can_copy(s, d))
        self.log.append(('copy', s, d))

    def deliver(self, s, d):
        x, y = self.first(s, d)
        if x['data'] is None:
            self.read(x)
        if len(x['data']) > y['cap']:
            raise RankError('MPI_ERR_TRUNCATE: message truncated')
        self.pipes[d].send(('write', y['id'], x['data']))
        x['used'] = y['used'] = True
        self.done.add((d, y['id']))
        self.log.append(('deliver', s, d))

    def play(self, schedule):
        for what, s, d in schedule:
            if s >= self.size or d >= self.size:
                continue
            if what == 'step' and self.can_step(s):
                self.step(s)
            elif what == 'copy' and self.can_copy(s, d):
                self.copy(s, d)
            elif what == 'deliver' and self.first(s, d):
                self.deliver(s, d)
        pairs = [(s, d) for s in range(self.size) for d in range(self.size)]
        while not all(self.ended(r) for r in range(self.size)):
            if any(self.ended(r) and self.at[r][1] for r in range(self.size)):
                break
            steps = [r for r in range(self.size) if self.can_step(r)]
            net = [('deliver', p) for p in pairs if self.first(*p)] + [('copy', p) for p in pairs if self.can_copy(*p)]
            if not steps and not net:
                raise Deadlock('all ranks wait for each other: %s' % ', '.join(self.at[r][0] for r in range(self.size)))
            if self.policy == 'late':           # data move only when nobody can continue
                net = net if not steps else []
            elif self.policy == 'early' and net:
                steps = []
            elif self.policy == 'first':        # the first rank goes as far as possible
                steps, net = (steps[:1], []) if steps else ([], net)
            k = self.rnd.randrange(len(steps) + len(net))
            if k < len(steps):
                self.step(steps[k])
            else:
                what, (s, d) = net[k - len(steps)]
                getattr(self, what)(s, d)
        self.results = [self.at[r][2] if self.ended(r) else None for r in range(self.size)]
        self.errors = [self.at[r][1] if self.ended(r) else '' for r in range(self.size)]


def run(size, fn, args, schedule=(), policy='random', seed=0, timeout=60):
    """(results, error text)"""
    try:
        r = Run(size, fn, args, schedule, policy, random.Random(seed), timeout)
    except (Deadlock, RankError) as e:
        return None, '%s: %s' % (type(e).__name__, e), None
    err = '; '.join('rank %d: %s' % (i, e) for i, e in enumerate(r.errors) if e)
    return (None if err else r.results), err, r.log
