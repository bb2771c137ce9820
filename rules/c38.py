"""The global tracer is initialised at most once.

Initialisation is called repeatedly, on one or several configurations, and by two threads, the second
whole call at every point of the first: one tracer is built (one channel is opened), it is the global
tracer and the result of the one call that built it; the other calls build nothing and give None.
"""
from .client import *

OT = 'opentracing:'
CONST = {'type': 'const', 'param': True}


def run(P):
    P.scenario('again', again, loop=40)
    P.scenario('two threads', threads, loop=40)
    P.scenario('two threads, then again', threads_again, loop=40)
    P.scenario('told meanwhile', told, loop=40)
    P.scenario('tracers not installed', others, loop=40)
    P.scenario('another tracer installed before', replaced, loop=40)


def make(A, simple=False):
    cfg = {'sampler': CONST if simple else A.pick('sampler', [('constant', CONST), ('remote', {})])}
    if simple:
        pass
    elif A.pick('setting', ['plain', 'enabled: false', 'throttler and logging']) == 'enabled: false':
        cfg['enabled'] = False
    else:
        cfg.update(throttler={}, logging=True)
    c = Client(A, cfg)
    A.before = A.new(OT + 'global_tracer')
    second = c.cfg
    if A.pick('configuration', ['the same', 'another']) == 'another':
        second = A.new(CONFIG, conv(A, cfg), service_name='other')
    return c, second


def init(A, c, cfg, out):
    out.append(A.call(cfg, 'initialize_tracer', c.loop.obj))


def once(A, c, out, at=None):
    built = [x for x in out if x is not NONE]
    A.require(len(built) == 1, 'once', '%d of %d calls give a tracer' % (len(built), len(out)), at)
    A.require(len(c.sockets) == 1, 'once', '%d tracers are built by %d calls' % (len(c.sockets), len(out)), at)
    g = A.new(OT + 'global_tracer')
    A.require(len(built) >= 1 and g is built[0], 'global', 'the global tracer is %s' % pretty(A, g), at)
    A.require(A.truth(A.new(OT + 'is_global_tracer_registered')), 'global', 'not registered', at)
    A.require(A.truth(A.call(c.cfg, 'initialized')), 'told', 'initialized() tells no', at)


def again(A):
    c, second = make(A)
    A.require(not A.truth(A.call(c.cfg, 'initialized')), 'told', 'initialized before anything')
    out = []
    init(A, c, c.cfg, out)
    once(A, c, out)
    for i in range(2):
        init(A, c, second if i == 0 else c.cfg, out)
        A.require(out[-1] is NONE, 'again', 'a later call gives %s' % pretty(A, out[-1]))
        once(A, c, out)
    s = A.call(A.new(OT + 'global_tracer'), 'start_span', 'op')
    A.call(s, 'finish')


def threads(A):
    c, second = make(A, True)
    out = []
    at = A.race(lambda: init(A, c, c.cfg, out), lambda: init(A, c, second, out), A.load(CONFIG),
                c.cfg)
    once(A, c, out, at)


def threads_again(A):
    """Another thread comes when the tracer is there already."""
    c, second = make(A, True)
    out = []
    init(A, c, c.cfg, out)
    at = A.race(lambda: init(A, c, second, out), lambda: init(A, c, c.cfg, out), A.load(CONFIG),
                c.cfg)
    once(A, c, out, at)
    A.require(out[1] is NONE and out[2] is NONE, 'again', 'a later call gives a tracer', at)


def told(A):
    """Whoever asks meanwhile gets an answer, and a no is true."""
    c, second = make(A, True)
    out, heard = [], []

    def ask():
        heard.append(A.truth(A.call(second, 'initialized')))
        heard.append(A.new(OT + 'global_tracer'))
    at = A.race(lambda: init(A, c, c.cfg, out), ask, A.load(CONFIG), c.cfg)
    once(A, c, out, at)
    A.require(heard[0] or heard[1] is A.before, 'told', 'initialized() tells no with the tracer '
              'installed', at)


def others(A):
    """new_tracer and create_tracer install nothing, and can be used as often as one likes."""
    c, second = make(A)
    before = A.before
    c.tracer()
    A.call(second, 'create_tracer', reporter_stub(A), const_sampler(A))
    A.require(A.new(OT + 'global_tracer') is before, 'global', 'a tracer is installed')
    A.require(not A.truth(A.call(c.cfg, 'initialized')), 'told', 'initialized() tells yes')
    out = []
    n = len(c.sockets)
    init(A, c, c.cfg, out)
    A.require(out[0] is not NONE and len(c.sockets) == n + 1, 'once', 'no tracer is built')
    A.require(A.new(OT + 'global_tracer') is out[0], 'global', 'it is not installed')
    t = A.call(second, 'new_tracer', c.loop.obj)
    A.require(isinstance(t, Inst) and t is not out[0], 'others', 'new_tracer gives %s' % pretty(A, t))
    A.require(A.new(OT + 'global_tracer') is out[0], 'global', 'another tracer is installed')


def replaced(A):
    """The application has installed a tracer of its own: the one that is built takes its place."""
    c, second = make(A, True)
    own = A.pick('installed before', ['a plain one', 'one of this client'])
    t = A.new('opentracing.tracer:Tracer') if own == 'a plain one' else A.call(c.cfg, 'new_tracer', c.loop.obj)
    A.new(OT + 'set_global_tracer', t)
    del c.sockets[:]
    out = []
    init(A, c, c.cfg, out)
    once(A, c, out)
    init(A, c, second, out)
    once(A, c, out)
