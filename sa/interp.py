"""The analyser proper: walks the syntax tree of /repo's sources over abstract values."""
import ast
import glob
import os
import sys

from . import options
from . import terms
from .facts import Facts
from .gens import Gen
from . import m_class
from .objs import *  # noqa
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, LockV, FutV, CoroV, StarKey, kwkey, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, ReturnSig,
                   BreakSig, ContinueSig, PyExc, PathCut, Infeasible, Undecided, AnchorLost)
from .terms import (C, EnumC, T, V, NONE, TRUE, FALSE, SPECS, ANY_TYPES, NUM, is_num, is_str, is_int,
                    is_bytes, show, sym, set_spec)

sys.setrecursionlimit(20000)

REPO = os.environ.get('SA_REPO', '/repo')
MAX_DEPTH = 60
SCALAR = (C, T)


class Event(object):
    __slots__ = ('kind', 'name', 'target', 'args', 'kwargs', 'result', 'locks', 'loc', 'stack',
                 'seq', 'handlers', 'raised', 'thread')

    def __init__(self, kind, name, target=None, args=(), kwargs=None, result=None):
        self.kind = kind
        self.name = name
        self.target = target
        self.args = list(args)
        self.kwargs = dict(kwargs or {})
        self.result = result
        self.raised = None

    def __repr__(self):
        return '%s %s(%s) at %s' % (self.kind, self.name, ', '.join(
            [repr(a) for a in self.args] + ['%s=%r' % kv for kv in self.kwargs.items()]), self.loc)


class Scope(object):
    __slots__ = ('vars', 'parent', 'module', 'locals', 'func', 'is_class', 'yields', 'self_val',
                 'globals')

    def __init__(self, parent, module, locals_, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.func = func
        self.is_class = False
        self.yields = None
        self.globals = ()


def _site_packages():
    for pat in ('/opt/venv/lib/python3*/site-packages', ):
        for d in sorted(glob.glob(pat)):
            if os.path.isdir(os.path.join(d, 'opentracing')):
                return d
    for d in sys.path:
        if os.path.isdir(os.path.join(d, 'opentracing')):
            return d
    raise AnchorLost('the opentracing package is not installed')


SITE = _site_packages()

SOURCE_ROOTS = [
    ('jaeger_client', lambda: REPO),
    ('crossdock', lambda: REPO),
    ('opentracing', lambda: SITE),
    ('thrift.transport', lambda: SITE),
    ('thrift.Thrift', lambda: SITE),
    ('thrift', lambda: SITE),
    ('library', lambda: os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pylib')),
    ('application', lambda: os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'rules', 'apps')),
]
NOT_SOURCE = ('thrift.protocol', 'thrift.server', 'opentracing.scope_managers.tornado',
              'opentracing.scope_managers.gevent', 'opentracing.scope_managers.asyncio',
              'opentracing.harness', 'thrift.transport.TSocket', 'thrift.transport.TSSLSocket',
              'opentracing.mocktracer', 'thrift.TTornado', 'thrift.TMultiplexedProcessor',
              'thrift.compat')


class Loader(object):
    """Finds and interprets the modules of the analysed program."""

    def __init__(self, interp):
        self.interp = interp
        self.mods = {}
        self.trees = {}
        self.late = []          # modules loaded on the current path

    def source_path(self, name):
        if any(name == n or name.startswith(n + '.') for n in NOT_SOURCE):
            return None
        for prefix, root in SOURCE_ROOTS:
            if name == prefix or name.startswith(prefix + '.'):
                p = os.path.join(root(), *name.split('.'))
                if os.path.isfile(p + '.py'):
                    return p + '.py'
                if os.path.isfile(os.path.join(p, '__init__.py')):
                    return os.path.join(p, '__init__.py')
                return None
        return None

    def get(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self.source_path(name)
        if path is None:
            return None
        if '.' in name:
            self.get(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        m = Mod(name, path)
        self.mods[name] = m
        if self.interp.runid:
            # loaded on a path, it ends with it: what it holds belongs to the path
            m.gen = self.interp.runid
            self.late.append(name)
        if path not in self.trees:
            with open(path, encoding='utf-8') as f:
                self.trees[path] = ast.parse(f.read(), path)
        m.tree = self.trees[path]
        m.ns['__name__'] = C(name)
        m.ns['__file__'] = C(path)
        m.ns['__doc__'] = NONE
        m.loading = True
        try:
            self.interp.exec_module(m)
        except BaseException:
            self.mods.pop(name, None)
            raise
        m.loading = False
        if '.' in name:
            parent, last = name.rsplit('.', 1)
            pm = self.mods.get(parent)
            if pm is not None and last not in pm.ns:
                self.interp.touch(pm)
                pm.ns[last] = m
        return m

    def absname(self, mod, level, name):
        if level == 0:
            return name
        parts = mod.name.split('.')
        if not mod.path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([name] if name else []))


def _assigned_names(node):
    """Names bound in a function body (its local variables)."""
    out = set()
    nonl = set()
    glob_ = set()

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                visit(g.iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Global):
            glob_.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in node.body if isinstance(node.body, list) else [node.body]:
        visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    return out - nonl - glob_, glob_


def _has_yield(node):
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if visit(c):
                return True
        return False
    return any(visit(s) or isinstance(s, (ast.Yield, ast.YieldFrom)) for s in
               (node.body if isinstance(node.body, list) else [node.body]))


class Interp(Facts):
    def __init__(self):
        from . import models
        self.models = models
        self.loader = Loader(self)
        self.locals_cache = {}
        self.yield_cache = {}
        self.runid = 0
        self.saved = {}
        self.consulted = set()
        self.func_seen = set()
        self.begin([])

    # ------------------------------------------------------------------ runs

    sched = None
    gens = ()

    def begin(self, vec):
        for g in self.gens:
            g.kill()
        self.gens = []
        if self.sched is not None:
            self.sched.kill()
            self.sched = None
        self.func_hooks = {}
        self.rollback()
        self.runid += 1
        Obj.current_gen = self.runid
        self.reset_facts(vec)
        self.events = []
        self.held = []
        self.depth = 0
        self.stack = []
        self.calls = 0
        self.handlers = 0
        self.overlay = {}
        self.objof = {}
        self.hooks = []
        self.raises = None
        self.imprecise = []
        self.guesses = []
        self.lock_edges = []
        self.deadlocks = []
        self.node = None
        self.loop_bound = 2
        self.elem_bound = 2
        self.shared = {}
        self.hold_epoch = 0
        self.stale = {}
        self.sh_cache = {}
        self.str_raises = False
        self.env = None
        self.on_log = None
        self.draw = None        # chooses the random numbers
        self.callbacks_inline = True
        self.watch_iter = False
        self.steps = 0
        self.step_limit = 400000
        self.excstack = []
        self.monotonic = False
        self.other = None
        self.other_held = ()
        self.shared_ids = {}
        self.thread = 0
        self.switched = None

    # ------------------------------------------------------------------ another thread

    def share(self, o):
        """Everything reachable from o may be used by another thread."""
        todo = [o]
        while todo:
            o = todo.pop()
            if isinstance(o, Scope) and id(o) not in self.shared_ids:
                self.shared_ids[id(o)] = o
                todo.extend(o.vars.values())
            if isinstance(o, (Cls, Mod)) and id(o) not in self.shared_ids:
                self.shared_ids[id(o)] = o
                todo.extend(v for v in o.ns.values() if isinstance(v, LockV))
            if id(o) in self.shared_ids or not isinstance(o, Obj):
                continue
            if isinstance(o, (Func, Native, Wrapped, BCls, Ext)):
                continue
            self.shared_ids[id(o)] = o
            if isinstance(o, Inst):
                todo.extend(o.attrs.values())
            elif isinstance(o, DictV):
                todo.extend(e[1] for e in o.entries)
            elif isinstance(o, (ListV, Tup, SetV)):
                todo.extend(o.items)
            elif isinstance(o, Bound):
                todo.append(o.self)

    def point(self, o, what=None):
        """A place where another thread can run (its whole operation) before this access."""
        if self.other is None or self.thread or id(o) not in self.shared_ids:
            return
        if self.stack and self.stack[-1].module is not None and \
                self.stack[-1].module.name == 'library':
            return      # atomic in the original
        if self.choose(2, None) == 0:
            self._redesc('no other thread before %s' % (what or 'the access'))
            return
        self._redesc('another thread runs before %s' % (what or 'the access'))
        self.switch()

    def switch(self):
        f, self.other = self.other, None
        self.switched = self.where()
        saved = (self.held, self.stack, self.node, self.handlers, self.excstack, self.depth)
        self.other_held, self.held = tuple(self.held), []
        self.stack, self.excstack, self.handlers = [], [], 0
        self.thread = 1
        try:
            f()
        finally:
            left = self.held
            self.thread = 0
            self.other_held = tuple(left)
            self.held, self.stack, self.node, self.handlers, self.excstack, self.depth = saved

    def live(self, v, node):
        """Iteration that sees what the loop body, or another thread, does to the container."""
        if isinstance(v, T):
            v = self.resolve(v)
        src = v.dict if isinstance(v, ViewV) else v
        if isinstance(src, Inst) and isinstance(src.cls, Cls):
            got = self.class_lookup(src.cls, '__iter__')
            if got is not None:
                r = self.call(self.bind(got[0], src, src.cls), [])
                if isinstance(r, Inst) and isinstance(r.cls, Cls):
                    got = self.class_lookup(r.cls, '__next__')
                    if got is None:
                        raise self.exc('TypeError', 'iter() returned non-iterator')
                    for x in self.stepped(r, got[0]):
                        yield x
                    return
                for x in self.live(r, node):
                    yield x
                return
        if isinstance(src, IterV):
            n = 0
            while True:
                x = src.take(self)
                if x is None:
                    return
                yield x
                n += 1
                if n > 5000:
                    raise PathCut('a very long loop over an iterator')
        if not isinstance(src, (DictV, ListV, SetV)):
            for x in self.iterate(v, node):
                yield x
            return
        self.point(src, 'iterating over it')
        items = self.iterate(v, node)
        if isinstance(src, ListV):
            i = 0
            while True:
                self.point(src, 'the next iteration')
                if i >= len(src.items):
                    return
                yield src.items[i]
                i += 1
                if i > 5000:
                    raise PathCut('endless loop over a list')
        size = len(src.items) if isinstance(src, SetV) else len(src.entries)
        for x in items:
            self.point(src, 'the next iteration')
            now = len(src.items) if isinstance(src, SetV) else len(src.entries)
            if now != size:
                raise self.exc('RuntimeError', '%s changed size during iteration' % (
                    'set' if isinstance(src, SetV) else 'dictionary'))
            yield x

    def stepped(self, it, nxt):
        """The items of an iterator written in the analysed program."""
        while True:
            try:
                x = self.call(self.bind(nxt, it, it.cls), [])
            except PyExc as e:
                if self.exc_matches(e.value, self.models.exc_class('StopIteration')):
                    return
                raise
            yield x

    def rollback(self):
        for o, s in self.saved.values():
            o.restore(s)
        self.saved = {}
        for n in self.loader.late:
            self.loader.mods.pop(n, None)
        self.loader.late = []

    def touch(self, o):
        """Called before every mutation: objects from before the run are restored after it."""
        if o.gen != self.runid and id(o) not in self.saved:
            self.saved[id(o)] = (o, o.snapshot())

    def where(self):
        if self.stack and self.node is not None:
            f = self.stack[-1]
            return '%s:%d %s' % (self.rel(f.module.path), getattr(self.node, 'lineno', 0), f.qualname)
        return '<scenario>'

    def rel(self, path):
        if path.startswith(REPO + '/'):
            return path[len(REPO) + 1:]
        if path.startswith(SITE + '/'):
            return path[len(SITE) + 1:]
        return path

    def event(self, kind, name, target=None, args=(), kwargs=None, result=None):
        e = Event(kind, name, target, args, kwargs, result)
        e.locks = tuple(self.held)
        e.loc = self.where()
        e.stack = tuple(f.qualname for f in self.stack)
        e.seq = len(self.events)
        e.handlers = self.handlers
        e.thread = self.thread
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ modules

    def exec_module(self, m):
        saved = (self.stack, self.node)
        sc = Scope(None, m, None)
        sc.vars = m.ns
        try:
            for s in m.tree.body:
                self.exec_stmt(s, sc)
        finally:
            self.stack, self.node = saved

    def module(self, name):
        m = self.loader.get(name)
        if m is None:
            raise AnchorLost('module %s not found' % name)
        return m

    def load(self, dotted):
        """'pkg.mod:Name.attr' -> value"""
        mod, _, path = dotted.partition(':')
        v = self.module(mod)
        for p in [x for x in path.split('.') if x]:
            if isinstance(v, Mod):
                if p not in v.ns:
                    raise AnchorLost('%s has no %s' % (mod, p))
                v = v.ns[p]
            elif isinstance(v, Cls):
                got = self.class_lookup(v, p)
                if got is None:
                    raise AnchorLost('%s has no %s' % (v.qualname, p))
                v = got[0]
            else:
                raise AnchorLost(dotted)
        return v

    def own_dict(self, o, ns):
        d = DictV([(C(k), v) for k, v in ns.items()])
        d.owner = o
        return d

    # ------------------------------------------------------------------ names

    def lookup(self, name, sc):
        s = sc
        first = True
        while s is not None:
            if s.parent is None and s.func is None and not s.is_class:
                break           # module scope
            if s.is_class and not first:
                s = s.parent
                continue
            if name in s.globals:
                break
            if name in s.vars:
                if self.other is not None and s is not sc:
                    self.point(s, 'reading %s' % name)
                return s.vars[name]
            if s.locals is not None and name in s.locals and not s.is_class:
                raise self.exc('UnboundLocalError', 'local variable %r' % name)
            first = False
            s = s.parent
        ns = sc.module.ns
        if name in ns:
            if self.other is not None:
                self.point(sc.module, name)
            return ns[name]
        b = self.models.builtin(self, name)
        if b is not None:
            return b
        raise self.exc('NameError', 'name %r is not defined' % name)

    def assign_name(self, name, v, sc):
        s = sc
        if name in s.globals:
            self.point(s.module, 'setting ' + name)
            self.touch(s.module)
            s.module.ns[name] = v
            return
        if s.locals is not None and name not in s.locals and not s.is_class and s.func is not None:
            # nonlocal
            p = s.parent
            while p is not None:
                if name in p.vars and p.func is not None:
                    self.point(p, 'setting %s' % name)
                    p.vars[name] = v
                    return
                p = p.parent
        if s.parent is None and s.func is None and not s.is_class:
            self.touch(s.module)
        s.vars[name] = v

    # ------------------------------------------------------------------ exceptions

    def exc(self, cls, *args):
        c = self.models.exc_class(cls) if isinstance(cls, str) else cls
        i = Inst(c)
        i.attrs['args'] = Tup([a if isinstance(a, V) else C(a) for a in args])
        i.label = 'raised at %s' % self.where()
        return PyExc(i, self.where())

    def may_raise(self, cls, desc, always=False):
        """Modelled operation that can fail: splits the path; raises on one side."""
        if self.choose(2, '%s succeeds' % desc) == 1:
            self._redesc('%s raises %s' % (desc, cls))
            raise self.exc(cls, T('msg', desc))

    def exc_matches(self, exc, cls):
        if isinstance(cls, Tup):
            return any(self.exc_matches(exc, c) for c in cls.items)
        return self.is_subclass(exc.cls, cls)

    # ------------------------------------------------------------------ classes

    def mro(self, c):
        if isinstance(c, Cls):
            if c.mro is None:
                c.mro = self._c3(c)
            return c.mro
        if isinstance(c, BCls):
            out = [c]
            for b in c.bases:
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            return out
        return [c]

    def _c3(self, c):
        seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]
                elif h in s:
                    s.remove(h)

    def is_subclass(self, c, d):
        if c is d:
            return True
        if isinstance(d, Tup):
            return any(self.is_subclass(c, x) for x in d.items)
        if isinstance(d, BCls) and d.name == 'object':
            return True
        if isinstance(c, (Cls, BCls)):
            for x in self.mro(c):
                if x is d:
                    return True
                if isinstance(x, BCls) and isinstance(d, BCls) and x.py and d.py:
                    try:
                        if issubclass(x.py, d.py):
                            return True
                    except TypeError:
                        pass
        return False

    def class_lookup(self, c, name):
        """(value, owner) through the MRO, or None."""
        for k in self.mro(c):
            if isinstance(k, Cls):
                if name in k.ns:
                    return k.ns[name], k
        return None

    def has_external_base(self, c):
        return any(isinstance(k, (Ext, T)) for k in self.mro(c))

    # ------------------------------------------------------------------ attributes

    def getattr(self, o, name):
        if self.other is not None:
            self.point(o, 'reading %s' % name)
            if isinstance(o, Inst):
                self.point(o.cls, 'reading %s' % name)
        if isinstance(o, Inst):
            got = self.class_lookup(o.cls, name) if isinstance(o.cls, Cls) else None
            if got is not None and isinstance(got[0], Wrapped) and got[0].how == 'property':
                return self.call(got[0].fn, [o])
            if got is not None and isinstance(got[0], Inst) and isinstance(got[0].cls, Cls):
                d = self.class_lookup(got[0].cls, '__get__')
                if d is not None and (name not in o.attrs
                                      or self.class_lookup(got[0].cls, '__set__') is not None):
                    return self.call(self.bind(d[0], got[0], got[0].cls), [o, o.cls])
            if got is not None and isinstance(got[0], Wrapped) and got[0].how == 'cached_property':
                if name not in o.attrs:
                    self.touch(o)
                    o.attrs[name] = self.call(got[0].fn, [o])
                return o.attrs[name]
            sh = self.shared.get(id(o))
            if sh is not None and name in sh:
                return self.shared_read(o, name, sh[name])
            if name in o.attrs:
                return o.attrs[name]
            if got is not None:
                return self.bind(got[0], o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return self.own_dict(o, o.attrs)
            r = self.models.inst_attr(self, o, name)
            if r is not None:
                return r
            if isinstance(o.cls, BCls) and o.cls.name in self.models.INST_ATTR:
                raise Undecided('%s.%s is not modelled' % (o.cls.name, name))
            if isinstance(o.cls, Cls):
                ga = self.class_lookup(o.cls, '__getattr__')
                if ga is not None:
                    return self.call(self.bind(ga[0], o, o.cls), [C(name)])
                if self.has_external_base(o.cls):
                    return T('attr', o, name)
            raise self.exc('AttributeError', '%r has no attribute %r' % (o, name))
        if isinstance(o, EnumC):
            if name in ('name', '_name_'):
                return C(o.enum_name)
            if name in ('value', '_value_'):
                return C(o.v)
            if name == '__class__':
                return o.enum
            got = self.class_lookup(o.enum, name)
            if got is not None and not isinstance(got[0], C):
                if isinstance(got[0], Wrapped) and got[0].how == 'property':
                    return self.call(got[0].fn, [o])
                return self.bind(got[0], o, o.enum)
        if isinstance(o, T):
            r = self.resolve(o)
            if r is not o:
                return self.getattr(r, name)
            return self.term_attr(o, name)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            sub = self.loader.get(o.name + '.' + name)
            if sub is not None:
                return sub
            if name == '__dict__':
                return self.own_dict(o, o.ns)
            raise self.exc('AttributeError', 'module %s has no attribute %r' % (o.name, name))
        if isinstance(o, Cls):
            if name == '__name__':
                return C(o.name)
            if name == '__mro__':
                return Tup(self.mro(o))
            if name == '__dict__':
                return self.own_dict(o, o.ns)
            got = self.class_lookup(o, name)
            if got is not None:
                v = got[0]
                if isinstance(v, Wrapped) and v.how == 'classmethod':
                    return Bound(v.fn, o)
                if isinstance(v, Wrapped) and v.how == 'staticmethod':
                    return v.fn
                if isinstance(v, Inst) and isinstance(v.cls, Cls):
                    d = self.class_lookup(v.cls, '__get__')
                    if d is not None:
                        return self.call(self.bind(d[0], v, v.cls), [NONE, o])
                return v
            if o.meta is not None:
                got = self.class_lookup(o.meta, name)
                if got is not None:
                    return self.bind(got[0], o, o.meta)
            r = self.models.class_attr(self, o, name)
            if r is not None:
                return r
            if self.has_external_base(o):
                return T('attr', o, name)
            raise self.exc('AttributeError', 'class %s has no attribute %r' % (o.name, name))
        if isinstance(o, SuperV):
            start = False
            for k in o.mro:
                if start and isinstance(k, Cls) and name in k.ns:
                    return self.bind(k.ns[name], o.self, k)
                if k is o.cls:
                    start = True
            return self.models.super_attr(self, o, name)
        if isinstance(o, Ext):
            return self.models.ext(self, o.name + '.' + name)
        if isinstance(o, (Func, Bound, Native, Wrapped)):
            r = self.models.func_attr(self, o, name)
            if r is not None:
                return r
            raise self.exc('AttributeError', name)
        if isinstance(o, BCls):
            r = self.models.bcls_attr(self, o, name)
            if r is not None:
                return r
            if o.py is not None and hasattr(o.py, name):
                raise Undecided('%s.%s is not modelled' % (o.name, name))
            raise self.exc('AttributeError', '%s.%s' % (o.name, name))
        r = self.models.obj_attr(self, o, name)
        if r is not None:
            return r
        if self.models.has_real_attr(self, o, name):
            raise Undecided('%s.%s is not modelled' % (self.models.typename(self, o), name))
        raise self.exc('AttributeError', '%s object has no attribute %r' % (
            self.models.typename(self, o), name))

    def bind(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Wrapped):
            if v.how == 'staticmethod':
                return v.fn
            if v.how == 'classmethod':
                return Bound(v.fn, o.cls if isinstance(o, Inst) else o)
            if v.how == 'property':
                return self.call(v.fn, [o])
            if v.how in ('coroutine', 'async', 'contextmanager', 'lru_cache'):
                return Bound(v, o)
        if isinstance(v, Native) and v.data == 'method':
            return Bound(v, o)
        return v

    def term_attr(self, o, name):
        ov = self.overlay.get((o, name))
        if ov is not None:
            return ov
        ts = self.types(o)
        has = frozenset(t for t in ts if self.models.type_has_attr(t, name))
        if not has:
            raise self.exc('AttributeError', '%s has no attribute %r' % (show(o), name))
        if has != ts and o.op in ('res', 'attr') and o not in SPECS and 'object' in ts:
            self.tfacts[o] = frozenset(['object'])     # an opaque result that is used as an object
        elif has != ts:
            if not self.decide_type(o, has):
                raise self.exc('AttributeError', '%s has no attribute %r' % (show(o), name))
            if isinstance(self.resolve(o), C):
                return self.getattr(self.resolve(o), name)
        # a container?
        if has <= frozenset(['dict', 'list']):
            return self.getattr(self.as_obj(o), name)
        if 'dict' in has and len(has) > 1 and self.models.type_has_attr('dict', name) \
                and name in ('get', 'items', 'keys', 'values', 'pop', 'setdefault', 'update'):
            if self.decide_type(o, frozenset(['dict'])):
                return self.getattr(self.as_obj(o), name)
        r = self.models.term_method(self, o, name)
        if r is not None:
            return r
        a = T('attr', o, name)
        sp = SPECS.get(o)
        if sp is not None and name in sp.extra.get('attrs', {}):
            v = sp.extra['attrs'][name]
            return v
        return a

    def as_obj(self, t):
        """The heap object behind a term known to be a dict or list."""
        got = self.objof.get(t)
        if got is None:
            ts = self.types(t)
            sp = SPECS.get(t)
            extra = sp.extra if sp else {}
            vt = extra.get('valtypes')
            if ts == frozenset(['dict']):
                got = DictV(open=True, label=t, keytypes=extra.get('keytypes'), valtypes=vt)
            elif ts == frozenset(['list']):
                got = ListV(open=True, label=t, valtypes=vt)
            else:
                raise Undecided('container of unknown type: %s' % show(t))
            self.objof[t] = got
        return got

    def setattr(self, o, name, v):
        if self.other is not None:
            self.point(o, 'setting %s' % name)
            if id(o) in self.shared_ids:
                self.share(v)
        if isinstance(o, Inst):
            got = self.class_lookup(o.cls, name) if isinstance(o.cls, Cls) else None
            if got is not None and isinstance(got[0], Wrapped) and got[0].how == 'property':
                if got[0].fset is None:
                    raise self.exc('AttributeError', "can't set attribute %r" % name)
                self.call(got[0].fset, [o, v])
                return
            if got is not None and isinstance(got[0], Inst) and isinstance(got[0].cls, Cls):
                d = self.class_lookup(got[0].cls, '__set__')
                if d is not None:
                    self.call(self.bind(d[0], got[0], got[0].cls), [o, v])
                    return
            if isinstance(o.cls, Cls):
                sa = self.class_lookup(o.cls, '__setattr__')
                if sa is not None:
                    self.call(self.bind(sa[0], o, o.cls), [C(name), v])
                    return
                if got is None and name not in o.attrs and not self.has_slot(o.cls, name):
                    raise self.exc('AttributeError', '%s object has no attribute %r' % (
                        o.cls.name, name))
            self.set_raw(o, name, v)
            return
        self.set_other(o, name, v)

    def has_slot(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls):
                sl = k.ns.get('__slots__')
                if sl is None:
                    return True
                names = [sl.v] if isinstance(sl, C) else [
                    x.v for x in self.iterate(sl, None) if isinstance(x, C)]
                if name in names or '__dict__' in names or any(
                        n.startswith('__') and '_%s%s' % (k.name.lstrip('_'), n) == name
                        for n in names):
                    return True
            elif not (isinstance(k, BCls) and k.name == 'object'):
                return True
        return False

    def set_raw(self, o, name, v):
        self.touch(o)
        self.event('set', name, o, [v])
        sh = self.shared.get(id(o))
        if sh is not None and name in sh:
            self.shared_write(o, name, v)
        if isinstance(v, Obj) and v.label is None:
            v.label = '%s.%s' % (getattr(o.cls, 'name', '?'), name)
        o.attrs[name] = v

    def set_other(self, o, name, v):
        if isinstance(o, T):
            self.event('set', name, o, [v])
            self.overlay[(o, name)] = v
            return
        if isinstance(o, Cls):
            self.touch(o)
            self.event('set', name, o, [v])
            o.ns[name] = v
            return
        if isinstance(o, Mod):
            self.touch(o)
            self.event('set', name, o, [v])
            o.ns[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            self.event('set', name, o, [v])
            return
        raise self.exc('AttributeError', 'cannot set %r' % name)

    # ------------------------------------------------------------------ shared state

    def shared_read(self, o, name, havoc):
        """A field other threads may change: stable only while the object's lock is held."""
        locked = self.lock_of(o) is not None
        key = (id(o), name)
        if locked:
            got = self.sh_cache.get(key)
            if got is not None and got[0] == self.hold_epoch:
                return got[1]
        n = self.fresh('shared:%s' % name)
        v = havoc(n, o.attrs.get(name)) if havoc is not True else o.attrs.get(name)
        self.stale[n, name] = self.hold_epoch if locked else -1
        self.event('shread', name, o, [v, C(n)])
        if locked:
            self.sh_cache[key] = (self.hold_epoch, v)
            o.attrs[name] = v
        return v

    def shared_write(self, o, name, v):
        self.sh_cache[(id(o), name)] = (self.hold_epoch, v)

    def lock_of(self, o):
        for l in self.held:
            for a in o.attrs.values():
                if a is l:
                    return l
        own = getattr(self, 'lock_owner', {}).get(id(o))
        if own is not None and own in self.held:
            return own
        return None

    # ------------------------------------------------------------------ calls

    def call(self, f, args=(), kwargs=None):
        args = list(args)
        kwargs = dict(kwargs or {})
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Native):
            if (args or kwargs) and getattr(f.fn, '__module__', '')[:3] == 'sa.':
                return options.run(f.fn, f.name, self, args, kwargs)
            return f.fn(self, args, kwargs)
        if isinstance(f, Wrapped):
            if f.how == 'async':
                h = (getattr(self, 'func_hooks', None) or {}).get(getattr(f.fn, 'qualname', None))
                if h is not None:
                    return h(self, args, kwargs)
                if isinstance(f.fn, Func):
                    self.bind_args(f.fn, args, kwargs)
                return CoroV(f.fn, args, kwargs)
            if f.how == 'coroutine':
                h = (getattr(self, 'func_hooks', None) or {}).get(getattr(f.fn, 'qualname', None))
                if h is not None:
                    return h(self, args, kwargs)
                return self.call_coroutine(f.fn, args, kwargs)
            if f.how == 'contextmanager':
                return CMGen(f.fn, args, kwargs)
            if f.how == 'lru_cache':
                return self.call_cached(f, args, kwargs)
            if f.how in ('staticmethod', 'classmethod'):
                return self.call(f.fn, args, kwargs)
        if isinstance(f, Cls):
            if f.meta is not None:
                made = self.class_lookup(f.meta, '__call__')
                if made is not None:
                    return self.call(made[0], [f] + args, kwargs)
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BCls):
            return options.run(lambda ip, a, k: self.models.call_bcls(ip, f, a, k), f.name, self,
                               args, kwargs)
        if isinstance(f, Ext):
            return options.run(lambda ip, a, k: self.models.call_ext(ip, f.name, a, k), f.name,
                               self, args, kwargs)
        if isinstance(f, Inst):
            got = self.class_lookup(f.cls, '__call__') if isinstance(f.cls, Cls) else None
            if got is not None:
                return self.call(self.bind(got[0], f, f.cls), args, kwargs)
            r = self.models.inst_call(self, f, args, kwargs)
            if r is not None:
                return r
            raise self.exc('TypeError', '%r is not callable' % f)
        if isinstance(f, T):
            r = self.resolve(f)
            if isinstance(r, C):
                raise self.exc('TypeError', '%r is not callable' % r)
            return self.call_opaque(f, args, kwargs)
        if isinstance(f, C) or isinstance(f, (Tup, DictV, ListV, SetV)):
            raise self.exc('TypeError', '%r object is not callable' % f)
        raise Undecided('call of %r' % (f,))

    def call_cached(self, f, args, kwargs):
        key = ('lru', id(f)) + tuple(args) + tuple(kwargs.values())
        cache = self.__dict__.setdefault('lru', {})
        k = (self.runid,) + key
        if k not in cache:
            cache[k] = self.call(f.fn, args, kwargs)
        return cache[k]

    def call_opaque(self, f, args, kwargs, name=None):
        name = name or show(f)
        ts = self.types(f)
        callable_types = ts & frozenset(['object'])
        if f.op in ('sym', 'item', 'res') and callable_types != ts:
            if not self.decide_type(f, frozenset(['object'])):
                raise self.exc('TypeError', 'not callable')
        for pat, h in reversed(self.hooks):
            if pat == name or (callable(pat) and pat(name)) or \
                    (isinstance(pat, str) and pat.startswith('*') and name.endswith(pat[1:])):
                e = self.event('call', name, f, args, kwargs)
                e.result = h(self, args, kwargs)
                return e.result
        base = f.args[0] if f.op == 'attr' else None
        meth = f.args[1] if f.op == 'attr' else None
        r = self.models.opaque_call(self, f, base, meth, name, args, kwargs)
        if r is not None:
            return r
        e = self.event('call', name, f, args, kwargs)
        self.maybe_fail(name, e)
        n = self.fresh('res:' + name)
        res = T('res', name, n)
        e.result = res
        return res

    def maybe_fail(self, name, e=None):
        if self.raises is not None:
            for cls in self.raises(name) or ():
                if self.choose(2, '%s succeeds' % name) == 1:
                    self._redesc('%s raises %s' % (name, cls))
                    x = self.exc(cls, T('msg', name))
                    if e is not None:
                        e.raised = x.value
                    raise x

    def instantiate(self, c, args, kwargs):
        if '__members__' in c.ns and len(args) == 1:
            return m_class.enum_call(self, c, args)
        m_class.concrete(self, c)
        new = self.class_lookup(c, '__new__')
        if new is not None and isinstance(new[0], (Func, Wrapped)):
            o = self.call(new[0].fn if isinstance(new[0], Wrapped) else new[0], [c] + args, kwargs)
            if not (isinstance(o, Inst) and o.cls is c):
                return o
        else:
            o = Inst(c)
            if self.is_subclass(c, self.models.exc_class('BaseException')):
                o.attrs['args'] = Tup(args)
        init = self.class_lookup(c, '__init__')
        if init is not None:
            self.call(self.bind(init[0], o, c), args, kwargs)
        else:
            self.models.base_init(self, o, c, args, kwargs)
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        n = min(len(pos), len(args))
        for i in range(n):
            out[pos[i]] = args[i]
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.exc('TypeError', '%s() takes %d positional arguments but %d were given'
                               % (f.name, len(pos), len(args)))
            out[a.vararg.arg] = Tup(args[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = Tup([])
        names = set(pos) | set(x.arg for x in a.kwonlyargs)
        extra = []
        for k, v in kwargs.items():
            if k in names and k not in [x.arg for x in a.posonlyargs]:
                if k in out:
                    raise self.exc('TypeError', '%s() got multiple values for argument %r'
                                   % (f.name, k))
                out[k] = v
            elif isinstance(k, StarKey) and any(
                    self.models.eq(self, k.term, C(n)) for n in sorted(names)):
                raise Undecided('an argument of %s by an unknown name' % f.name)
            elif a.kwarg is not None:
                extra.append((kwkey(k), v))
            else:
                raise self.exc('TypeError', '%s() got an unexpected keyword argument %r'
                               % (f.name, k))
        if a.kwarg is not None:
            out[a.kwarg.arg] = DictV(extra)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise self.exc('TypeError', '%s() missing argument %r' % (f.name, p))
                out[p] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in f.kwdefaults:
                    raise self.exc('TypeError', '%s() missing argument %r' % (f.name, x.arg))
                out[x.arg] = f.kwdefaults[x.arg]
        return out

    def call_func(self, f, args, kwargs, yield_hook=None):
        hk = getattr(self, 'func_hooks', None)
        if hk:
            h = hk.get(f.qualname)
            if h is not None:
                return h(self, args, kwargs)
        self.calls += 1
        self.depth += 1
        if self.depth > MAX_DEPTH or sum(1 for x in self.stack if x.node is f.node) > 8:
            self.depth -= 1
            raise PathCut('call depth')
        bound = self.bind_args_or_raise(f, args, kwargs)
        loc = self.locals_cache.get(f.node)
        if loc is None:
            loc = self.locals_cache[f.node] = _assigned_names(f.node)
        sc = Scope(f.scope, f.module, loc[0], f)
        sc.globals = loc[1]
        sc.vars = bound
        isgen = self.yield_cache.get(f.node)
        if isgen is None:
            isgen = self.yield_cache[f.node] = _has_yield(f.node)
        if isgen:
            if yield_hook is None:
                self.depth -= 1
                if isinstance(f.node, ast.AsyncFunctionDef):
                    raise Undecided('an asynchronous generator')
                return IterV(gen=Gen(self, f, lambda hook: self.run_body(f, sc, isgen, hook)))
        try:
            return self.run_body(f, sc, isgen, yield_hook)
        finally:
            self.depth -= 1

    def run_body(self, f, sc, isgen, yield_hook):
        if isgen:
            sc.yields = yield_hook
        node0 = self.node
        self.stack.append(f)
        self.func_seen.add(f.qualname if f.module is None else f.module.name + ':' + f.qualname)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, sc)
            try:
                self.exec_body(f.node.body, sc)
                ret = NONE
            except ReturnSig as r:
                ret = r.value
            return ret
        finally:
            self.stack.pop()
            self.node = node0

    def bind_args_or_raise(self, f, args, kwargs):
        try:
            return self.bind_args(f, args, kwargs)
        except PyExc:
            self.depth -= 1
            raise

    def start(self, c):
        """Starts what calling an async def gave; returns the future of its outcome."""
        if c.fut is not None:
            raise self.exc('RuntimeError', 'cannot reuse already awaited coroutine')
        self.touch(c)
        c.fut = FutV(c.label)
        c.fut = self.call_coroutine(c.fn, c.args, c.kwargs)
        return c.fut

    def loop_call(self, f, args=(), kwargs=None):
        """A callback the event loop runs: an awaitable it gives is run as well."""
        v = self.call(f, args, kwargs)
        return self.start(v) if isinstance(v, CoroV) else v

    def call_coroutine(self, fn, args, kwargs):
        """@tornado.gen.coroutine / async def: runs inline; a yield awaits."""
        if self.sched is not None:
            return self.sched.spawn(fn, args, kwargs)
        fut = FutV()
        fut.label = 'coroutine %s' % getattr(fn, 'qualname', fn)
        try:
            v = self.call_func(fn, args, kwargs, yield_hook=lambda ip, x: ip.models.await_(ip, x))
            if isinstance(v, IterV) and not v.items and v.gen is None:
                v = NONE
            fut.state, fut.value = 'done', v
        except PyExc as e:
            fut.state, fut.value = 'error', e.value
        return fut

    # ------------------------------------------------------------------ statements

    def exec_body(self, body, sc):
        for s in body:
            self.exec_stmt(s, sc)

    def exec_stmt(self, s, sc):
        self.node = s
        self.steps += 1
        if self.steps > self.step_limit:
            raise PathCut('step limit')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s at %s' % (type(s).__name__, self.where()))
        m(s, sc)

    def s_Expr(self, s, sc):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Global(self, s, sc):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, sc):
        v = self.eval(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
            put = lambda v: self.assign_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            name = self.mangle(t.attr, sc)
            cur = self.getattr(o, name)
            put = lambda v: self.setattr(o, name, v)
        else:
            o = self.eval(t.value, sc)
            k = self.eval_index(t.slice, sc)
            cur = self.models.getitem(self, o, k)
            put = lambda v: self.models.setitem(self, o, k, v)
        v = self.eval(s.value, sc)
        self.node = s
        put(self.models.iop(self, type(s.op).__name__, cur, v))

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in sc.globals:
                    self.touch(sc.module)
                    sc.module.ns.pop(t.id, None)
                sc.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, sc), self.mangle(t.attr, sc))
            elif isinstance(t, (ast.Tuple, ast.List)):
                self.s_Delete(ast.Delete(t.elts), sc)
            else:
                o = self.eval(t.value, sc)
                self.models.delitem(self, o, self.eval_index(t.slice, sc))

    def delattr(self, o, name):
        if isinstance(o, Inst):
            self.point(o, 'deleting %s' % name)
            if name not in o.attrs:
                raise self.exc('AttributeError', name)
            self.touch(o)
            o.attrs.pop(name)
            self.event('del', name, o)
        elif isinstance(o, (Cls, Mod)):
            if name not in o.ns:
                raise self.exc('AttributeError', name)
            self.touch(o)
            o.ns.pop(name)
        else:
            raise Undecided('del attribute')

    def s_Return(self, s, sc):
        raise ReturnSig(self.eval(s.value, sc) if s.value is not None else NONE)

    def s_Break(self, s, sc):
        raise BreakSig()

    def s_Continue(self, s, sc):
        raise ContinueSig()

    def s_If(self, s, sc):
        if self.truth(self.eval(s.test, sc)):
            self.exec_body(s.body, sc)
        else:
            self.exec_body(s.orelse, sc)

    def s_Assert(self, s, sc):
        if not self.truth(self.eval(s.test, sc)):
            raise self.exc('AssertionError', *([self.eval(s.msg, sc)] if s.msg else []))

    def s_While(self, s, sc):
        n = 0
        split = 0
        while True:
            before = len(self.choices)
            self.node = s
            if not self.truth(self.eval(s.test, sc)):
                self.exec_body(s.orelse, sc)
                return
            try:
                self.exec_body(s.body, sc)
            except BreakSig:
                return
            except ContinueSig:
                pass
            n += 1
            if len(self.choices) > before:
                split += 1
            if split > self.loop_bound + 1 or n > 200:
                raise PathCut('loop bound at %s' % self.where())

    def s_For(self, s, sc):
        it = self.eval(s.iter, sc)
        try:
            for v in self.live(it, s):
                self.node = s
                self.assign(s.target, v, sc)
                try:
                    self.exec_body(s.body, sc)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
        finally:
            if isinstance(it, IterV) and isinstance(it.gen, Gen) and isinstance(s.iter, ast.Call):
                it.gen.close()      # nobody else refers to it
        self.exec_body(s.orelse, sc)

    s_AsyncFor = s_For

    def s_Raise(self, s, sc):
        if s.exc is None:
            cur = self.excstack[-1] if self.excstack else None
            if cur is None:
                raise self.exc('RuntimeError', 'No active exception to reraise')
            raise PyExc(cur, self.where())
        v = self.eval(s.exc, sc)
        cause = self.eval(s.cause, sc) if s.cause is not None else None
        self.node = s
        if isinstance(v, (Cls, BCls)):
            v = self.call(v, [])
        if isinstance(v, Inst):
            self.event('raise', getattr(v.cls, 'name', '?'), v)
            if cause is not None:
                v.attrs['__cause__'] = self.call(cause, []) if isinstance(cause, (Cls, BCls)) \
                    else cause
            raise PyExc(v, self.where())
        if isinstance(v, T):
            x = Inst(self.models.exc_class('Exception'))
            x.attrs['args'] = Tup([v])
            x.attrs['__term__'] = v
            self.event('raise', show(v), v)
            raise PyExc(x, self.where())
        raise Undecided('raise %r' % (v,))

    def s_Try(self, s, sc):
        try:
            try:
                if s.handlers:
                    self.handlers += 1
                try:
                    self.exec_body(s.body, sc)
                finally:
                    if s.handlers:
                        self.handlers -= 1
            except PyExc as e:
                if not self.handle(s, e, sc):
                    raise
            else:
                self.exec_body(s.orelse, sc)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.exec_body(s.finalbody, sc)
            raise
        except (PathCut, Infeasible, Undecided):
            raise
        else:
            self.exec_body(s.finalbody, sc)

    def handle(self, s, e, sc):
        for h in s.handlers:
            if h.type is not None:
                cls = self.eval(h.type, sc)
                if not self.exc_matches(e.value, cls):
                    continue
            self.event('handle', getattr(e.value.cls, 'name', '?'), e.value)
            if h.name:
                self.assign_name(h.name, e.value, sc)
            self.excstack.append(e.value)
            try:
                self.exec_body(h.body, sc)
            finally:
                self.excstack.pop()
                if h.name:
                    sc.vars.pop(h.name, None)
            return True
        return False

    def s_With(self, s, sc, i=0):
        if i == len(s.items):
            self.exec_body(s.body, sc)
            return
        item = s.items[i]
        cm = self.eval(item.context_expr, sc)
        self.node = item.context_expr
        if isinstance(cm, CMGen):
            pending = []
            used = []

            def hook(ip, v):
                if used:
                    raise ip.exc('RuntimeError', "generator didn't stop")
                used.append(1)
                if item.optional_vars is not None:
                    ip.assign(item.optional_vars, v, sc)
                try:
                    ip.s_With(s, sc, i + 1)
                except (ReturnSig, BreakSig, ContinueSig) as sig:
                    pending.append(sig)
                return NONE
            # the body runs in the caller's frame
            self.call_func(cm.fn.fn if isinstance(cm.fn, Bound) else cm.fn,
                           ([cm.fn.self] if isinstance(cm.fn, Bound) else []) + cm.args,
                           cm.kwargs, yield_hook=hook)
            if pending:
                raise pending[0]
            return
        v = self.models.cm_enter(self, cm)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, sc)
        try:
            self.s_With(s, sc, i + 1)
        except PyExc as e:
            if self.models.cm_exit(self, cm, e):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.models.cm_exit(self, cm, None)
            raise
        except (PathCut, Infeasible, Undecided):
            raise
        else:
            self.models.cm_exit(self, cm, None)

    def s_AsyncWith(self, s, sc):
        self.s_With(s, sc)

    def s_FunctionDef(self, s, sc):
        f = self.make_func(s, sc, s.name)
        v = f
        if isinstance(s, ast.AsyncFunctionDef):
            v = Wrapped('async', v)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, sc)
            v = self.models.decorate(self, dv, v)
        self.assign_name(s.name, v, sc)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, sc, name):
        defaults = [self.eval(d, sc) for d in node.args.defaults]
        kwd = {}
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.eval(d, sc)
        cls = sc.self_val if sc.is_class else None
        if cls is None:
            p = sc
            while p is not None:
                if p.func is not None and p.func.cls is not None:
                    cls = p.func.cls
                    break
                p = p.parent
        q = name
        if sc.is_class:
            q = sc.self_val.qualname + '.' + name
        elif sc.func is not None:
            q = sc.func.qualname + '.' + name
        parent = sc
        if sc.parent is None and sc.func is None and not sc.is_class:
            parent = None
        while parent is not None and parent.is_class:
            parent = parent.parent
            if parent is not None and parent.parent is None and parent.func is None \
                    and not parent.is_class:
                parent = None
        return Func(node, parent, sc.module, name, q, defaults, kwd, cls)

    def s_ClassDef(self, s, sc):
        bases = [self.eval(b, sc) for b in s.bases]
        rb = []
        nt = False
        for b in bases:
            if isinstance(b, Native) and b.name == 'TypedDict':
                self.assign_name(s.name, self.models.bcls('dict'), sc)
                return
            if isinstance(b, Native) and b.name == 'NamedTuple':
                nt = True
                b = self.models.bcls('tuple')
            rb.append(b)
        q = s.name
        if sc.func is not None:
            q = sc.func.qualname + '.' + s.name
        elif sc.is_class:
            q = sc.self_val.qualname + '.' + s.name
        c = Cls(s.name, rb or [self.models.builtin(self, 'object')], sc.module, q, s)
        cs = Scope(sc if (sc.func is not None or sc.is_class) else None, sc.module, None)
        cs.is_class = True
        cs.self_val = c
        cs.vars = c.ns
        c.ns['__module__'] = C(sc.module.name)
        if s.body and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant):
            c.ns['__doc__'] = C(s.body[0].value.value)
        self.exec_body(s.body, cs)
        for n, x in c.ns.items():
            if isinstance(x, LockV) and x.label is None:
                x.label = '%s.%s' % (s.name, n)
        self.mro(c)
        if nt:
            m_class.named_tuple(self, c)
        m_class.class_made(self, c, s, sc)
        v = c
        for d in reversed(s.decorator_list):
            v = self.models.decorate(self, self.eval(d, sc), v)
        self.assign_name(s.name, v, sc)

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.loader.get(a.name)
            if m is None:
                top = a.name.split('.')[0]
                if a.asname:
                    v = self.models.ext(self, a.name)
                else:
                    v = self.loader.get(top) or self.models.ext(self, top)
                self.models.check_import(self, a.name)
            else:
                v = m if a.asname else self.loader.get(a.name.split('.')[0])
            self.assign_name(a.asname or a.name.split('.')[0], v, sc)

    def s_ImportFrom(self, s, sc):
        name = self.loader.absname(sc.module, s.level, s.module or '')
        m = self.loader.get(name)
        for a in s.names:
            if a.name == '*':
                if m is None:
                    raise Undecided('star import of %s' % name)
                al = m.ns.get('__all__')
                for k, v in list(m.ns.items()):
                    if al is not None or not k.startswith('_'):
                        if al is not None and isinstance(al, ListV) and \
                                not any(isinstance(i, C) and i.v == k for i in al.items):
                            continue
                        self.assign_name(k, v, sc)
                continue
            if m is not None:
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.loader.get(name + '.' + a.name)
                    if v is None:
                        v = self.models.ext(self, name + '.' + a.name) if m.loading is False and \
                            name.startswith('thrift') else None
                    if v is None:
                        raise self.exc('ImportError', 'cannot import %s from %s' % (a.name, name))
            else:
                v = self.loader.get(name + '.' + a.name) or \
                    self.models.ext(self, name + '.' + a.name)
                self.models.check_import(self, name)
            self.assign_name(a.asname or a.name, v, sc)

    def s_Match(self, s, sc):
        subj = self.eval(s.subject, sc)
        for case in s.cases:
            if self.match(case.pattern, subj, sc) and \
                    (case.guard is None or self.truth(self.eval(case.guard, sc))):
                self.exec_body(case.body, sc)
                return

    def match(self, p, v, sc):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, sc))
        if isinstance(p, ast.MatchSingleton):
            return self.models.is_(self, v, C(p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, sc):
                return False
            if p.name:
                self.assign_name(p.name, v, sc)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, sc) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, sc)
            if not self.isinstance(v, cls):
                return False
            subs = list(zip(p.kwd_attrs, p.kwd_patterns))
            if p.patterns:
                if isinstance(cls, BCls):
                    return len(p.patterns) == 1 and self.match(p.patterns[0], v, sc)
                names = self.getattr(cls, '__match_args__')
                subs = list(zip([x.v for x in names.items], p.patterns)) + subs
            for n, q in subs:
                try:
                    x = self.getattr(v, n)
                except PyExc as e:
                    if self.exc_matches(e.value, self.models.exc_class('AttributeError')):
                        return False
                    raise
                if not self.match(q, x, sc):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            seq = self.models.obj_types(self, v) if not isinstance(v, T) else self.types(v)
            if isinstance(v, T):
                if not seq & frozenset(['list', 'tuple']):
                    return False
                if not self.decide_type(v, frozenset(['list', 'tuple'])):
                    return False
            elif not isinstance(v, (ListV, Tup)):
                return False
            items = self.iterate(v, None)
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and all(
                    self.match(q, x, sc) for q, x in zip(p.patterns, items))
            i, after = star[0], len(p.patterns) - star[0] - 1
            if len(items) < i + after:
                return False
            if not all(self.match(q, x, sc) for q, x in zip(p.patterns[:i], items)):
                return False
            mid = items[i:len(items) - after]
            if not all(self.match(q, x, sc) for q, x in zip(p.patterns[i + 1:],
                                                            items[len(items) - after:])):
                return False
            if p.patterns[i].name:
                self.assign_name(p.patterns[i].name, ListV(mid), sc)
            return True
        if isinstance(p, ast.MatchMapping):
            if isinstance(v, T):
                v = self.models._objview(self, v)
            if not isinstance(v, DictV):
                if isinstance(v, Inst):
                    raise Undecided('match pattern')
                return False
            keys = [self.eval(k, sc) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                e = self.models.dict_entry(self, v, k)
                if e is None or not self.match(q, e[1], sc):
                    return False
            if p.rest:
                self.models.expand_dict(self, v)
                self.assign_name(p.rest, DictV([x for x in v.entries if not any(
                    self.eq(x[0], k) for k in keys)]), sc)
            return True
        raise Undecided('match pattern')

    # ------------------------------------------------------------------ assignment

    def mangle(self, name, sc):
        if name.startswith('__') and not name.endswith('__'):
            s = sc
            while s is not None:
                if s.is_class:
                    return '_%s%s' % (s.self_val.name.lstrip('_'), name)
                if s.func is not None and s.func.cls is not None:
                    return '_%s%s' % (s.func.cls.name.lstrip('_'), name)
                s = s.parent
        return name

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), self.mangle(t.attr, sc), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval_index(t.slice, sc)
            self.models.setitem(self, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.unpack_star(v, len(t.elts) - 1)
                i = star[0]
                after = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, sc)
                self.assign(t.elts[i].value, ListV(items[i:len(items) - after]), sc)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, sc)
            else:
                items = self.unpack(v, len(t.elts))
                for x, y in zip(t.elts, items):
                    self.assign(x, y, sc)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc)
        else:
            raise Undecided('assignment target')

    def unpack(self, v, n):
        seq = self.models.fixed_items(self, v, n)
        if seq is None:
            raise self.exc('ValueError', 'wrong number of values to unpack (expected %d)' % n)
        return seq

    def unpack_star(self, v, atleast):
        items = self.iterate(v, None)
        if len(items) < atleast:
            raise self.exc('ValueError', 'not enough values to unpack')
        return items

    # ------------------------------------------------------------------ expressions

    def eval(self, e, sc):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s at %s' % (type(e).__name__, self.where()))
        return m(e, sc)

    def e_Constant(self, e, sc):
        return C(e.value) if e.value is not Ellipsis else Ext('Ellipsis')

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Attribute(self, e, sc):
        o = self.eval(e.value, sc)
        self.node = e
        return self.getattr(o, self.mangle(e.attr, sc))

    def e_Subscript(self, e, sc):
        o = self.eval(e.value, sc)
        k = self.eval_index(e.slice, sc)
        self.node = e
        return self.models.getitem(self, o, k)

    def eval_index(self, s, sc):
        if isinstance(s, ast.Slice):
            return SliceV(self.eval(s.lower, sc) if s.lower else NONE,
                          self.eval(s.upper, sc) if s.upper else NONE,
                          self.eval(s.step, sc) if s.step else NONE)
        return self.eval(s, sc)

    def e_Tuple(self, e, sc):
        return Tup(self.eval_list(e.elts, sc))

    def e_List(self, e, sc):
        return ListV(self.eval_list(e.elts, sc))

    def e_Set(self, e, sc):
        return SetV(self.models.dedupe(self, self.eval_list(e.elts, sc)))

    def eval_list(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, sc), x))
            else:
                out.append(self.eval(x, sc))
        return out

    def e_Dict(self, e, sc):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, d, self.eval(v, sc))
            else:
                kk = self.eval(k, sc)
                self.models.dict_set(self, d, kk, self.eval(v, sc))
        return d

    def e_BoolOp(self, e, sc):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, sc)
            if i == len(e.values) - 1:
                return v
            self.node = x
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return self.resolve(v)
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, sc):
        v = self.eval(e.operand, sc)
        self.node = e
        if isinstance(e.op, ast.Not):
            return C(not self.truth(v))
        return self.models.unary(self, type(e.op).__name__, v)

    def e_BinOp(self, e, sc):
        a = self.eval(e.left, sc)
        b = self.eval(e.right, sc)
        self.node = e
        return self.models.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, sc):
        a = self.eval(e.left, sc)
        for op, c in zip(e.ops, e.comparators):
            b = self.eval(c, sc)
            self.node = e
            r = self.models.compare(self, type(op).__name__, a, b)
            if isinstance(r, C) and not r.v:
                return FALSE
            if not isinstance(r, C):
                return r
            a = b
        return TRUE

    def e_IfExp(self, e, sc):
        if self.truth(self.eval(e.test, sc)):
            return self.eval(e.body, sc)
        return self.eval(e.orelse, sc)

    def e_Call(self, e, sc):
        f = self.eval(e.func, sc)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, sc), a))
            else:
                args.append(self.eval(a, sc))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, sc)
                for kk, vv in self.models.mapping_items(self, d):
                    if isinstance(kk, C):
                        kwargs[kk.v] = vv
                    else:
                        n = StarKey('**%s' % show(kk))
                        n.term = kk
                        kwargs[n] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, sc)
        self.node = e
        if isinstance(f, BCls) and f.name == 'super':
            return self.models.make_super(self, args, sc)
        if isinstance(f, Native) and f.data == 'scoped':
            return f.fn(self, args, kwargs, sc)
        return self.call(f, args, kwargs)

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc, '<lambda>')

    def e_JoinedStr(self, e, sc):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.eval(v, sc))
        return terms.s_cat(parts)

    def e_FormattedValue(self, e, sc):
        v = self.eval(e.value, sc)
        spec = ''
        if e.format_spec is not None:
            sv = self.eval(e.format_spec, sc)
            if not isinstance(sv, C):
                return T('strfmt', show(sv), v if isinstance(v, SCALAR) else NONE)
            spec = sv.v
        if e.conversion in (ord('r'), ord('a')):
            v = self.models.to_repr(self, v)
            if not spec:
                return v
        if e.conversion == ord('s'):
            v = self.models.to_str(self, v)
        return self.models.format_value(self, v, spec)

    def e_Starred(self, e, sc):
        raise Undecided('starred')

    def e_NamedExpr(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while s.func is not None and getattr(s.func, 'name', '') == '<comp>':
            s = s.parent
        self.assign_name(e.target.id, v, s)
        return v

    def comp(self, e, sc, emit):
        cs = Scope(sc, sc.module, set(), Func(None, None, sc.module, '<comp>', '<comp>', [], {},
                                              sc.func.cls if sc.func else None))
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    cs.locals.add(n.id)

        def rec(i):
            if i == len(e.generators):
                yield emit(cs)
                return
            g = e.generators[i]
            for v in self.live(first if i == 0 else self.eval(g.iter, cs), g.iter):
                self.assign(g.target, v, cs)
                if all(self.truth(self.eval(c, cs)) for c in g.ifs):
                    for x in rec(i + 1):
                        yield x
        first = self.eval(e.generators[0].iter, sc)
        return rec(0)

    def e_ListComp(self, e, sc):
        return ListV(list(self.comp(e, sc, lambda cs: self.eval(e.elt, cs))))

    def e_GeneratorExp(self, e, sc):
        return IterV(gen=self.comp(e, sc, lambda cs: self.eval(e.elt, cs)))

    def e_SetComp(self, e, sc):
        return SetV(self.models.dedupe(self, list(
            self.comp(e, sc, lambda cs: self.eval(e.elt, cs)))))

    def e_DictComp(self, e, sc):
        d = DictV()

        def emit(cs):
            k = self.eval(e.key, cs)
            self.models.dict_set(self, d, k, self.eval(e.value, cs))
            return NONE
        for _ in self.comp(e, sc, emit):
            pass
        return d

    def e_Yield(self, e, sc):
        v = self.eval(e.value, sc) if e.value is not None else NONE
        s = sc
        while s is not None and s.yields is None:
            s = s.parent
        if s is None:
            raise Undecided('yield')
        self.node = e
        return s.yields(self, v)

    def e_YieldFrom(self, e, sc):
        v = self.eval(e.value, sc)
        s = sc
        while s is not None and s.yields is None:
            s = s.parent
        if s is None:
            raise Undecided('yield from')
        if isinstance(v, FutV):
            return self.models.await_(self, v)
        g = v.gen if isinstance(v, IterV) and isinstance(v.gen, Gen) else None
        for x in self.live(v, e):
            try:
                sent = s.yields(self, x)
            except PyExc as exc:
                if g is None:
                    raise
                g.error = exc
                continue
            if g is not None:
                g.sent = sent
        return g.value if g is not None else NONE

    def e_Await(self, e, sc):
        v = self.eval(e.value, sc)
        self.node = e
        if isinstance(v, T):
            v = self.resolve(v)
        if isinstance(v, (C, ListV, Tup, DictV, SetV)):
            raise self.exc('TypeError', "object %s can't be used in 'await' expression" %
                           self.models.typename(self, v))
        if isinstance(v, Inst) and isinstance(v.cls, Cls):
            got = self.class_lookup(v.cls, '__await__')
            if got is not None:
                raise Undecided('__await__')
        return self.models.await_(self, v)

    # ------------------------------------------------------------------ truth / iteration

    def truth(self, v):
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, T):
            return self.truth_term(v)
        if isinstance(v, (DictV, ListV, Tup, SetV, ByteArr, ViewV)):
            self.point(v, 'testing it')
            return self.models.nonempty(self, v)
        if isinstance(v, Inst):
            if isinstance(v.cls, Cls):
                for n in ('__bool__', '__len__'):
                    got = self.class_lookup(v.cls, n)
                    if got is not None:
                        return self.truth(self.call(self.bind(got[0], v, v.cls), []))
            return True
        return True

    def truth_term(self, t):
        r = self.resolve(t)
        if isinstance(r, C):
            return bool(r.v)
        t = r
        got = self.objof.get(t)
        if got is not None:
            return self.models.nonempty(self, got)
        ts = self.types(t)
        if ts <= NUM:
            return self.cmp_num(t, '!=', C(0))
        if 'NoneType' in ts and len(ts) <= 2:
            if self.decide_type(t, frozenset(['NoneType'])):
                return False
            return self.truth_term(t)
        if ts <= frozenset(['str']):
            return not self.eq(t, C(''))
        if ts <= frozenset(['bytes', 'bytearray']):
            return self.cmp_num(terms.b_len(t), '!=', C(0))
        if ts <= frozenset(['object', 'traceback', 'type']):
            return True
        if ts <= frozenset(['list', 'dict']):
            return self.models.nonempty(self, self.as_obj(t))
        if ts <= frozenset(['tuple']):
            return self.cmp_num(T('len', t), '!=', C(0))
        yes = self.atom(('truthy', t), '%s is true' % show(t))
        if yes:
            if 'NoneType' in self.types(t):
                self.tfacts[t] = self.types(t) - frozenset(['NoneType'])
        else:
            self.tfacts[t] = self.types(t) - frozenset(['object', 'traceback', 'type'])
        return yes

    def iterate(self, v, node):
        return self.models.iterate(self, v, node)

    # ------------------------------------------------------------------ equality

    def eq(self, a, b):
        return self.models.eq(self, a, b)

    def isinstance(self, v, cls):
        return self.models.isinstance_(self, v, cls)
