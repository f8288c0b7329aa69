"""C34: parallel_map returns exactly what a sequential map would.

Processes, pipes and the return queue are replaced by a model in which every
order of completion is explored: whenever the parent waits, any worker that
can make progress may be the next to do so.  Workers run the real code, in
threads of which one at a time proceeds, on a copy of the variables they had
when started; what they send must be picklable."""
import os
import struct
import threading
import types

from vp.runner import H

ASSUMPTIONS = ['channels are reliable, in order and unbounded; writes of 4 '
               'bytes are atomic (POSIX)',
               'worker steps on different channels commute with the parent, '
               'so schedules are explored where the parent waits']


class Kill(BaseException):
    pass


class Deadlock(Exception):
    pass


class NotPicklable(object):
    """A value that cannot be sent; kind: the exception pickling it raises."""

    def __init__(self, kind):
        self.kind = kind


class World(object):
    """The scheduler of one run."""

    def __init__(self, E, eager=0, fine=False):
        self.E, self.eager, self.fine = E, eager, fine
        self.main = threading.Semaphore(0)
        self.workers = []
        self.fds = {}
        self.pipes = []
        self.n = 0
        self.closed_in_use = False
        self.current = None

    # -- scheduling
    def runnable(self):
        return [w for w in self.workers if w.alive and w.ready()]

    def step(self, w):
        self.current = w
        w.sem.release()
        self.main.acquire()
        self.current = None

    def pause(self):
        """A point inside a task where others may go first."""
        if self.current is not None and self.fine:
            self.wait(lambda: True)

    def wait(self, ready, ordered=False):
        """The running party waits until ready() holds; ordered: the parent
        waits for ends, whose order nobody observes."""
        w = self.current
        if w is not None:
            w.ready = ready
            self.main.release()
            w.sem.acquire()
            if w.killed:
                raise Kill()
            return
        while True:
            rs = self.runnable()
            if ready():
                if not rs or self.eager <= 0:
                    return
                k = self.pick(len(rs) + 1)
                if k == 0:
                    return
                self.eager -= 1
                self.step(rs[k - 1])
                continue
            if not rs:
                raise Deadlock()
            self.step(rs[0 if ordered else self.pick(len(rs))])

    def pick(self, n):
        if n == 1:
            return 0
        self.n += 1
        return self.E.choose('next%d' % self.n, n)

    def end(self):
        for w in self.workers:
            if w.alive and w.started:
                w.killed = True
                w.sem.release()
                w.thread.join(5)


class End(object):
    """One end of a one-way channel."""

    def __init__(self, world, q, state):
        self.w, self.q, self.state = world, q, state
        self.closed = False

    def send(self, x):
        if self.closed:
            raise IOError('handle is closed')
        bad = [v for v in (x if isinstance(x, tuple) else (x,))
               if isinstance(v, NotPicklable)]
        if bad:
            raise bad[0].kind('cannot pickle')
        self.w.pause()
        self.q.append(x)

    def recv(self):
        if self.closed:
            raise IOError('handle is closed')
        self.w.wait(lambda: bool(self.q))
        return self.q.pop(0)

    def poll(self, timeout=None):
        return bool(self.q)

    def close(self):
        if self.w.current is None:
            self.closed = True


class Proc(object):
    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None):
        w = self.w = Box.world
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.alive = self.started = self.killed = False
        self.daemon = False
        self.died = None
        self.sem = threading.Semaphore(0)
        self.ready = lambda: True
        w.workers.append(self)

    def start(self):
        assert not self.started
        self.started = self.alive = True
        f = self.target
        if getattr(f, '__closure__', None):
            # the memory of a process is its own
            cells = []
            for c in f.__closure__:
                try:
                    v = c.cell_contents
                except ValueError:
                    cells.append(types.CellType())
                    continue
                cells.append(types.CellType(
                    list(v) if type(v) is list else
                    dict(v) if type(v) is dict else v))
            f = types.FunctionType(f.__code__, f.__globals__, f.__name__,
                                   f.__defaults__, tuple(cells))

        def body():
            self.sem.acquire()
            try:
                if not self.killed:
                    f(*self.args, **self.kwargs)
            except Kill:
                pass
            except BaseException as e:
                self.died = e
            self.alive = False
            self.w.main.release() if not self.killed else None
        self.thread = threading.Thread(target=body, daemon=True)
        self.thread.start()

    def join(self, timeout=None):
        self.w.wait(lambda: not self.alive, ordered=True)

    def is_alive(self):
        return self.alive

    def terminate(self):
        if self.alive:
            self.killed = True
            self.alive = False
            self.sem.release()
            self.thread.join(5)


class Box(object):
    world = None


def pipe(duplex=True):
    assert not duplex
    w, q = Box.world, []
    a, b = End(w, q, None), End(w, q, None)
    w.pipes += [a, b]
    return a, b


def mp(symbolic):
    m = types.ModuleType('multiprocessing')
    m.Process, m.Pipe = Proc, pipe
    m.cpu_count = lambda: 2
    return {'multiprocessing': m}


class Os(object):
    """os, with pipes of the model."""

    def __getattr__(self, name):
        return getattr(os, name)

    def pipe(self):
        w = Box.world
        q = []
        n = 1000 + len(w.fds)
        w.fds[n] = [q, False]
        w.fds[n + 1] = [q, False]
        return n, n + 1

    def write(self, fd, s):
        w = Box.world
        if w.fds[fd][1]:
            raise OSError('closed')
        w.pause()
        w.fds[fd][0].extend(bytearray(s))
        return len(s)

    def read(self, fd, n):
        w = Box.world
        q, closed = w.fds[fd]
        if closed:
            raise OSError('closed')
        w.wait(lambda: len(q) > 0)
        out = bytes(bytearray(q[:n]))
        del q[:n]
        return out

    def close(self, fd):
        w = Box.world
        if w.current is None:
            if w.fds[fd][1]:
                raise OSError('closed twice')
            w.fds[fd][1] = True


def run(E, U, f, l, p, eager=0, fine=False):
    world = Box.world = World(E, eager, fine)
    m = U['utils.parallel_map']
    m.os = Os()
    try:
        try:
            got, err = m.parallel_map(f, l, parallelism=p), None
        except Deadlock:
            E.check(False, 'never-waits-forever')
            return None, None
        except Exception as e:
            got, err = None, e
        E.check(all(v[1] for v in world.fds.values()), 'channels-closed')
        E.check(all(e.closed for e in world.pipes), 'channels-closed')
        E.check(not any(w.alive for w in world.workers), 'no-worker-left')
        E.check(not any(w.died for w in world.workers), 'no-worker-dies')
        return got, err
    finally:
        world.end()


def results(n, ps, eager=0, fine=False):
    def h(E, U):
        k = E.choose('n', n + 1)
        p = ps[E.choose('workers', len(ps))]
        xs = [E.real('x%d' % i, -3, 3) for i in range(k)]
        calls = []

        def f(x):
            calls.append(x)
            return x * x + len([y for y in xs if y is x])
        got, err = run(E, U, f, list(xs), p, eager, fine)
        E.check(err is None, 'no-exception', repr(err))
        E.check(type(got) is list and len(got) == k, 'one-result-per-input')
        for g, x in zip(got, xs):
            E.check_eq(g, x * x + 1, 'results-in-input-order')
        E.check(len(calls) == k and all(
            len([c for c in calls if c is x]) == 1 for x in xs),
            'each-input-once')
    return h


class Boom(Exception):
    pass


def failures(n, ps, eager=0, fine=False):
    """Any subset of inputs fails: in the function, or when its result is
    sent back."""
    def h(E, U):
        import pickle
        k = 1 + E.choose('n', n)
        p = ps[E.choose('workers', len(ps))]
        kinds = [None, 'raise', TypeError, pickle.PicklingError]
        how = [kinds[E.choose('how%d' % i, 4)] for i in range(k)]

        def f(i):
            if how[i] == 'raise':
                raise Boom('input %d' % i)
            return i * 10 if how[i] is None else NotPicklable(how[i])
        got, err = run(E, U, f, list(range(k)), p, eager, fine)
        if all(v is None for v in how):
            E.check(got == [i * 10 for i in range(k)] and err is None,
                    'results-in-input-order')
        else:
            E.check(isinstance(err, Exception) and got is None,
                    'failure-reaches-the-caller')
            if all(v in (None, 'raise') for v in how):
                E.check('Boom' in str(err) and 'input' in str(err),
                        'failure-names-its-cause', str(err))
    return h


def strings(E, U):
    """Inputs are any indexable sequence, results any value, None included."""
    l = [None, 0, (), 'a']
    l = l[:E.choose('n', 5)]
    seq = [tuple, list][E.choose('seq', 2)](l)
    got, err = run(E, U, lambda x: x, seq, 1 + E.choose('workers', 2))
    E.check(err is None and list(got) == l, 'results-in-input-order')


def default(E, U):
    got, err = run(E, U, lambda x: x + 1, [1, 2, 3], None)
    E.check(err is None and got == [2, 3, 4], 'results-in-input-order')
    E.check(len(Box.world.workers) >= 1, 'results-in-input-order')


def codec(E, U):
    """The worker numbers survive the return queue."""
    m = U['utils.parallel_map']
    n = [0, 1, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1][
        E.choose('n', 8)]
    s = m.le32enc(n)
    E.check(len(s) == 4 and m.le32dec(s) == n, 'round-trip')
    E.check(s == struct.pack('<I', n), 'little-endian')


MODS = ['utils.parallel_map']


def harnesses():
    def mk(name, fn, bounds, tier='quick', **k):
        return H(name, fn, MODS, bounds, tier=tier, assumes=ASSUMPTIONS,
                 stubs=mp, **k)
    return [
        mk('one-worker', results(4, [1]), '<= 4 inputs, 1 worker'),
        mk('two-workers', results(5, [2]), '<= 5 inputs, 2 workers, all '
           'orders of completion'),
        mk('three-workers', results(4, [3]), '<= 4 inputs, 3 workers, all '
           'orders of completion', paths=6000),
        mk('more-workers', results(3, [4]), '<= 3 inputs, 4 workers',
           paths=6000),
        mk('early-progress', results(3, [2], 4), '<= 3 inputs, 2 workers, '
           '4 steps ahead of the parent', paths=6000),
        mk('fine-steps', results(2, [2], 0, True), '<= 2 inputs, 2 workers, '
           'workers interrupted between their writes', paths=6000),
        mk('failures', failures(4, [1, 2]), '<= 4 inputs, <= 2 workers, any '
           'subset failing', paths=6000),
        mk('failures-three', failures(3, [3]), '<= 3 inputs, 3 workers, any '
           'subset failing', paths=6000),
        mk('sequences', strings, '<= 4 inputs, <= 2 workers'),
        mk('default', default, '3 inputs, 2 processors'),
        mk('codec', codec, '8 worker numbers'),
        mk('deep', results(6, [2, 3]), '<= 6 inputs, <= 3 workers',
           'thorough', paths=40000, seconds=800),
        mk('failures-deep', failures(5, [2, 3]), '<= 5 inputs, <= 3 workers',
           'thorough', paths=40000, seconds=800),
    ]
