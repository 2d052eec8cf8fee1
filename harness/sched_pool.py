'''A process pool whose interleaving is decided by a schedule.

Workers are forked processes.  Each one stops before every line of the functions in the file of
the function it was given; the controller lets the worker that the schedule names next run up to its next stop.  A worker
that does not answer soon (it waits for a lock that a stopped worker holds, or computes for a
while) keeps running and is looked at again later.  Every interleaving produced this way is one
that the operating system could produce.
'''
import contextlib
import functools
import multiprocessing
import os
import pickle
import sys
import time
from multiprocessing.connection import Pipe


class RemoteError(Exception):
    pass


class Worker:
    def __init__(self, initializer, initargs, others):
        self.conn, child = Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.conn.close()
                for c in others:
                    c.close()
                self.serve(child, initializer, initargs)
            finally:
                os._exit(0)
        child.close()
        self.state = 'idle'          # idle, stopped, running
        self.index = None

    @staticmethod
    def serve(conn, initializer, initargs):
        if initializer is not None:
            initializer(*initargs)
        while True:
            try:
                data = conn.recv_bytes()
            except EOFError:
                return
            func, args, kw = pickle.loads(data)
            inner = func
            while isinstance(inner, functools.partial):
                inner = inner.func
            code = getattr(inner, '__code__', None)
            name = code.co_filename if code is not None else None

            def local(frame, event, arg):
                if event == 'line':
                    conn.send(('stop', None))
                    conn.recv()
                return local

            def tracer(frame, event, arg):
                return local if frame.f_code.co_filename == name else None
            conn.send(('stop', None))
            conn.recv()
            try:
                sys.settrace(tracer)
                try:
                    r = func(*args, **kw)
                finally:
                    sys.settrace(None)
                conn.send(('done', r))
            except BaseException as e:
                conn.send(('error', '{}: {}'.format(type(e).__name__, e)))

    def look(self, wait):
        '''the worker's news, if there are any'''
        if self.conn.poll(wait):
            return self.conn.recv()


class ScheduledPool:
    schedule = [0]
    used = 0

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.n = processes or 2
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.workers = []
        for _ in range(self.n):
            self.workers.append(Worker(initializer, initargs, [w.conn for w in self.workers]))
        self.at = 0
        ScheduledPool.used += 1

    def pick(self):
        s = ScheduledPool.schedule
        w = self.workers[s[self.at % len(s)] % self.n]
        self.at += 1
        return w

    def run(self, func, items, star, chunksize):
        items = list(items)
        size = chunksize or max(1, len(items) // (4 * self.n) + (len(items) % (4 * self.n) > 0))
        queue = [list(range(i, min(i + size, len(items)))) for i in range(0, len(items), size)]
        mine = {w: [] for w in self.workers}
        results = [None] * len(items)
        left, failed, limit = len(items), None, time.time() + 50
        stuck = None
        while left:
            if time.time() > limit:
                raise RemoteError('the parallel computation does not end')
            w = self.pick()
            if w.state == 'idle':
                if not mine[w]:
                    if not queue:
                        # the rest of the schedule is for the others
                        busy = [v for v in self.workers if v.state != 'idle' or mine[v]]
                        w = busy[self.at % len(busy)]
                    else:
                        mine[w] = queue.pop(0)
            if w.state == 'idle':
                w.index = mine[w].pop(0)
                x = items[w.index]
                w.conn.send_bytes(pickle.dumps((func, tuple(x) if star else (x,), {})))
                w.state = 'running'
            elif w.state == 'stopped':
                w.conn.send(0)
                w.state = 'running'
            news = w.look(.004)
            if news is None:
                # it waits for another worker, maybe one that the schedule does not name
                held = [v for v in self.workers if v.state == 'stopped']
                if held and w is stuck:
                    v = held[self.at % len(held)]
                    v.conn.send(0)
                    v.state = 'running'
                stuck = w
                continue
            stuck = None
            kind, r = news
            if kind == 'stop':
                w.state = 'stopped'
            else:
                w.state = 'idle'
                left -= 1
                results[w.index] = r
                if kind == 'error':
                    failed = failed or r
        if failed:
            raise RemoteError(failed)
        return results

    def map(self, func, iterable, chunksize=None):
        return self.run(func, iterable, False, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self.run(func, iterable, True, chunksize)

    def imap(self, func, iterable, chunksize=1):
        return iter(self.run(func, iterable, False, chunksize))

    imap_unordered = imap

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = self.run(func, iterable, False, chunksize)
        if callback:
            callback(r)
        return Ready(r)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        r = self.run(func, iterable, True, chunksize)
        if callback:
            callback(r)
        return Ready(r)

    def apply(self, func, args=(), kwds={}):
        return self.run(functools.partial(func, **kwds), [args], True, 1)[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        r = self.apply(func, args, kwds)
        if callback:
            callback(r)
        return Ready(r)

    def close(self):
        pass

    def join(self):
        self.terminate()

    def terminate(self):
        for w in self.workers:
            w.conn.close()
        for w in self.workers:
            for _ in range(200):
                if os.waitpid(w.pid, os.WNOHANG)[0]:
                    break
                time.sleep(.005)
            else:
                os.kill(w.pid, 9)
                os.waitpid(w.pid, 0)
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        try:
            self.terminate()
        except Exception:
            pass


class Ready:
    def __init__(self, r):
        self.r = r

    def get(self, timeout=None):
        return self.r

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


@contextlib.contextmanager
def scheduled(schedule):
    '''pools made inside follow the schedule (a list of worker numbers)'''
    real = multiprocessing.Pool
    ScheduledPool.schedule = list(schedule) or [0]
    multiprocessing.Pool = ScheduledPool
    try:
        yield
    finally:
        multiprocessing.Pool = real


@contextlib.contextmanager
def disturbed(rng, amount=.2):
    '''real pools, whose workers are held up at random lines of the code they run'''
    import random
    parent, seed = os.getpid(), rng.randrange(1 << 30)
    state = {}

    def local(frame, event, arg):
        if event == 'line' and state['rng'].random() < amount:
            time.sleep(state['rng'].random() * .002)
        return local

    def tracer(frame, event, arg):
        if os.getpid() == parent:
            return None
        name = frame.f_code.co_filename
        if 'rng' not in state:
            state['rng'] = random.Random(seed + os.getpid())
        return local if 'spta' in name and 'parallel' in name and 'tests' not in name else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        yield
    finally:
        sys.settrace(old)
