"""Coroutines of the analysed program: each is followed on a stack of its own and suspended where it
awaits a future that is not settled; the scenario decides in which order the event loop resumes them."""
import threading

from .objs import PyExc, FutV, IterV, PathCut
from .terms import NONE
from . import m_builtin as mb

STACK = 64 * 1024 * 1024


class Coro(object):
    def __init__(self, sched, fn, args, kwargs, fut):
        self.sched, self.fn, self.args, self.kwargs, self.fut = sched, fn, args, kwargs, fut
        self.ip = sched.ip
        self.turn, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done = False
        self.value = self.error = self.crash = None
        self.dead = False
        self.waiting = None
        ip = self.ip
        self.ctx = (list(ip.stack), ip.node, ip.handlers, list(ip.excstack), ip.depth)
        old = threading.stack_size(STACK)
        try:
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        finally:
            threading.stack_size(old)

    def _run(self):
        self.turn.acquire()
        try:
            if self.dead:
                return
            ip = self.ip
            v = ip.call_func(self.fn, self.args, self.kwargs, yield_hook=lambda p, x: mb.await_(p, x))
            if isinstance(v, IterV) and not v.items and v.gen is None:
                v = NONE
            self.value = v
        except PyExc as e:
            if getattr(e.value.cls, 'name', '') == 'tornado.gen.Return':
                a = e.value.attrs['args'].items
                self.value = e.value.attrs.get('value') or (a[0] if a else NONE)
            else:
                self.error = e.value
        except BaseException as e:      # cut, infeasible, undecided, a crash of the analysis
            self.crash = e
        finally:
            self.done = True
            self.back.release()

    def _swap(self, ctx):
        ip = self.ip
        mine = (ip.stack, ip.node, ip.handlers, ip.excstack, ip.depth)
        ip.stack, ip.node, ip.handlers, ip.excstack, ip.depth = ctx
        return mine

    def resume(self):
        """Runs it until it awaits or ends."""
        if self.done:
            return
        outer, self.waiting = self.sched.current, None
        self.sched.current = self
        mine = self._swap(self.ctx)
        self.turn.release()
        self.back.acquire()
        self.ctx = self._swap(mine)
        self.sched.current = outer
        if self.crash is not None:
            raise self.crash
        if self.done and not self.dead:
            f = self.fut
            if self.error is not None:
                mb.fut_settle(self.ip, f, 'error', self.error)
            else:
                mb.fut_settle(self.ip, f, 'done', self.value)

    def wait(self, fut):
        """Suspends the running coroutine until fut is settled."""
        self.waiting = fut
        self.sched.waiters.append((fut, self))
        self.back.release()
        self.turn.acquire()
        if self.dead:
            raise PathCut('the path has ended')


class Sched(object):
    def __init__(self, ip, push):
        """push(f): queues a Python callable on the event loop."""
        self.ip, self.push = ip, push
        self.current = None
        self.coros, self.waiters = [], []

    def spawn(self, fn, args, kwargs):
        fut = FutV('coroutine %s' % getattr(fn, 'qualname', fn))
        c = Coro(self, fn, args, kwargs, fut)
        self.coros.append(c)
        c.resume()
        return fut

    def settled(self, fut):
        """Called when a future is settled: whoever awaits it is resumed by the loop."""
        again = [c for f, c in self.waiters if f is fut]
        self.waiters = [(f, c) for f, c in self.waiters if f is not fut]
        for c in again:
            self.push(c.resume)

    def suspended(self):
        return [c for c in self.coros if not c.done]

    def kill(self):
        for c in self.coros:
            if not c.done:
                c.dead = True
                c.turn.release()
                c.thread.join()
        self.coros = []
