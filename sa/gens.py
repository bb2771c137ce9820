"""Generator functions of the analysed program: each is followed on a stack of its own, as far as the
value its consumer asks for."""
import threading

from .objs import PyExc, PathCut
from .terms import NONE

STACK = 64 * 1024 * 1024


class Gen(object):
    """A Python iterator over the values the body yields.

    sent / error: what the yield it stands at gives back or raises.  value: what it returned."""

    def __init__(self, ip, fn, body):
        self.ip, self.fn, self.body = ip, fn, body
        self.turn, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = None
        self.done = self.dead = False
        self.out = self.error = self.crash = None
        self.sent = self.value = NONE

    def __iter__(self):
        return self

    def _yield(self, ip, v):
        self.out = v
        self.back.release()
        self.turn.acquire()
        if self.dead:
            raise PathCut('the path has ended')
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        v, self.sent = self.sent, NONE
        return v

    def _run(self):
        self.turn.acquire()
        try:
            if not self.dead:
                self.value = self.body(self._yield)
        except BaseException as e:      # an exception of the program; cut, infeasible, undecided
            self.crash = e
        finally:
            self.done = True
            self.back.release()

    def __next__(self):
        ip = self.ip
        if self.done:
            raise StopIteration
        if self.thread is None:
            if self.error is not None:
                self.done = True
                raise self.error
            self.ctx = (list(ip.stack), ip.node, ip.handlers, list(ip.excstack), ip.depth)
            old = threading.stack_size(STACK)
            try:
                self.thread = threading.Thread(target=self._run, daemon=True)
                self.thread.start()
            finally:
                threading.stack_size(old)
            ip.gens.append(self)
        mine = (ip.stack, ip.node, ip.handlers, ip.excstack, ip.depth)
        ip.stack, ip.node, ip.handlers, ip.excstack, ip.depth = self.ctx
        self.out = None
        self.turn.release()
        self.back.acquire()
        self.ctx = (ip.stack, ip.node, ip.handlers, ip.excstack, ip.depth)
        ip.stack, ip.node, ip.handlers, ip.excstack, ip.depth = mine
        if self.crash is not None:
            e, self.crash = self.crash, None
            if isinstance(e, PyExc) and ip.exc_matches(
                    e.value, ip.models.exc_class('StopIteration')):
                raise ip.exc('RuntimeError', 'generator raised StopIteration')
            raise e
        if self.done:
            raise StopIteration
        return self.out

    def close(self):
        if self.done:
            return
        if self.thread is None:
            self.done = True
            return
        self.error = self.ip.exc('GeneratorExit')
        try:
            next(self)
        except StopIteration:
            return
        except PyExc as e:
            if self.ip.exc_matches(e.value, self.ip.models.exc_class('GeneratorExit')):
                return
            raise
        raise self.ip.exc('RuntimeError', 'generator ignored GeneratorExit')

    def kill(self):
        if self.thread is not None and not self.done:
            self.dead = True
            self.turn.release()
            self.thread.join()
