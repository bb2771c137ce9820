"""Explores the paths of scenarios and records obligations."""
import glob
import os
import time
import traceback

from . import interp as _interp
from . import terms
from .interp import Interp, REPO
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, LockV, FutV, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, PyExc, PathCut, Infeasible,
                   Undecided, AnchorLost)
from .terms import C, T, V, NONE, TRUE, FALSE, SPECS, show, set_spec
from . import m_types as mt
from . import m_seq as ms
from . import m_str
from . import m_ops
from . import m_builtin as mb

OBJECT = mt.OBJECT
DEBUG = bool(os.environ.get('SA_DEBUG'))

PRELOAD = ['opentracing', 'opentracing.ext.tags', 'opentracing.scope_managers',
           'opentracing.propagation', 'opentracing.tracer', 'application', 'library']


def preload(ip):
    for n in PRELOAD:
        ip.loader.get(n)
    base = os.path.join(REPO, 'jaeger_client')
    if not os.path.isdir(base):
        raise AnchorLost('%s not found' % base)
    for f in sorted(glob.glob(base + '/**/*.py', recursive=True)):
        n = f[len(REPO) + 1:-3].replace('/', '.')
        if n.endswith('.__init__'):
            n = n[:-9]
        if '-' in n:
            continue
        try:
            ip.loader.get(n)
        except PyExc as e:
            raise AnchorLost('importing %s raises %r at %s' % (n, e.value, e.loc))
    ip.saved = {}


class Violation(object):
    def __init__(self, key, msg, loc, scenario, path, extra=None):
        self.key, self.msg, self.loc, self.scenario, self.path = key, msg, loc, scenario, path
        self.extra = extra or []
        self.count = 1


class Stop(Exception):
    """Ends the current path (its remaining obligations do not apply)."""


class Path(object):
    """The scenario API: one run of a scenario along one path."""

    def __init__(self, prop, name, ip):
        self.prop, self.name, self.ip = prop, name, ip
        self.obligations = 0
        self.failed = []
        self.undecided = []
        self.tags = set()

    # ---- building values

    def load(self, dotted):
        return self.ip.load(dotted)

    def new(self, dotted, *args, **kw):
        return self.ip.call(self.ip.load(dotted), [lift(a) for a in args],
                            {k: lift(v) for k, v in kw.items()})

    call_fn = new

    def call(self, o, meth, *args, **kw):
        return self.ip.call(self.ip.getattr(o, meth), [lift(a) for a in args],
                            {k: lift(v) for k, v in kw.items()})

    def apply(self, f, *args, **kw):
        return self.ip.call(f, [lift(a) for a in args], {k: lift(v) for k, v in kw.items()})

    def attr(self, o, name):
        return self.ip.getattr(o, name)

    def sym(self, name, types='any', lo=None, hi=None, **extra):
        return terms.sym(name, types, lo, hi, **extra)

    def str(self, name, minlen=None, maxlen=None, **extra):
        v = terms.sym(name, 'str', **extra)
        if minlen:
            self.assume(self.truth(v))
        for op, n in (('>=', minlen), ('<=', maxlen)):
            if n:
                self.assume(self.cmp(mt.seq_len(v), op, n))
        return v

    def int(self, name, lo=None, hi=None, **extra):
        return terms.sym(name, 'int', lo, hi, **extra)

    def obj(self, name, **extra):
        return terms.sym(name, 'object', **extra)

    def fn(self, name, impl=None):
        """A native callable recording its calls as events."""
        def run(ip, a, kw):
            e = ip.event('call', name, None, a, kw)
            e.result = impl(ip, a, kw) if impl is not None else NONE
            if e.result is None:
                e.result = NONE
            return e.result
        return Native(name, run)

    def stub(self, name, **methods):
        """An opaque object whose methods are given; each call is an event '<name>.<method>'."""
        i = Inst(_stub_class(name), name)
        for k, v in methods.items():
            if callable(v) and not isinstance(v, V):
                i.attrs[k] = self.fn('%s.%s' % (name, k), v)
            else:
                i.attrs[k] = lift(v)
        return i

    def dict(self, entries=(), **kw):
        if isinstance(entries, dict):
            entries = entries.items()
        return DictV([(lift(k), lift(v)) for k, v in entries], **kw)

    def open_dict(self, name, keytypes=None, valtypes=None, entries=()):
        if isinstance(keytypes, str):
            keytypes = frozenset(keytypes.split('|'))
        if isinstance(valtypes, str) and valtypes != 'json':
            valtypes = frozenset(valtypes.split('|'))
        if isinstance(entries, dict):
            entries = entries.items()
        return DictV([(lift(k), lift(v)) for k, v in entries], open=True, label=T('sym', name),
                     keytypes=keytypes, valtypes=valtypes)

    def open_list(self, name, valtypes=None):
        if isinstance(valtypes, str) and valtypes != 'json':
            valtypes = frozenset(valtypes.split('|'))
        return ListV(open=True, label=T('sym', name), valtypes=valtypes)

    def list(self, items=()):
        return ListV([lift(x) for x in items])

    # ---- control

    def choose(self, n, desc):
        c = self.ip.choose(n, desc)
        self.ip._redesc('%s: %s' % (desc, c) if isinstance(desc, str) else '%s' % (desc[c],))
        return c

    def pick(self, what, options):
        c = self.ip.choose(len(options), None)
        o = options[c]
        if len(options) > 1:
            self.ip._redesc('%s: %s' % (what, o[0] if isinstance(o, tuple) else o))
        return o[1] if isinstance(o, tuple) else o

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def stop(self):
        raise Stop()

    def race(self, main, other, *shared):
        """main() with other() run by another thread at any one point of it (or after it).

        Every access main makes to the shared objects is a point where the other thread's whole
        operation can come first, as far as the locks main holds allow it.  Returns where it ran.
        """
        ip = self.ip
        ip.shared_ids = {}
        for o in shared:
            ip.share(o)
        ip.switched = None
        ip.other = other
        try:
            main()
        finally:
            rest, ip.other = ip.other, None
        if rest is not None:
            ip.other = rest
            ip.switch()
            ip.switched = None
        self.require(not ip.other_held, 'lock-left', 'the other operation leaves a lock held')
        ip.other_held = ()
        return ip.switched

    def catch(self, f, *args, **kw):
        """(value, None) or (None, exception instance)."""
        try:
            return f(*args, **kw), None
        except PyExc as e:
            return None, e.value

    def on(self, pattern, fn):
        self.ip.hooks.append((pattern, fn))

    def tag(self, t):
        self.tags.add(t)

    # ---- questions (may split the path)

    def truth(self, v):
        return self.ip.truth(v)

    def eq(self, a, b):
        return self.ip.eq(lift(a), lift(b))

    def cmp(self, a, op, b):
        return self.ip.cmp_num(lift(a), op, lift(b))

    def is_none(self, v):
        return self.ip.is_none(v)

    def isinst(self, exc, *names):
        for n in names:
            c = self.ip.load(n) if ':' in n else mt.exc_class(n)
            if self.ip.is_subclass(exc.cls, c):
                return True
        return False

    def isa(self, v, dotted):
        return isinstance(v, Inst) and self.ip.is_subclass(v.cls, self.ip.load(dotted))

    def events(self, kind=None, name=None, since=0, pred=None):
        out = []
        for e in self.ip.events[since:]:
            if kind is not None and e.kind != kind:
                continue
            if name is not None and not _match(name, e.name):
                continue
            if pred is not None and not pred(e):
                continue
            out.append(e)
        return out

    def calls(self, name, since=0):
        return self.events('call', name, since)

    @property
    def mark(self):
        return len(self.ip.events)

    # ---- equality without splitting

    def quiet(self, f):
        """Runs f; None when it would have to split the path."""
        ip = self.ip
        saved = ip._save()
        n, pos, vec = len(ip.choices), ip.pos, list(ip.vec)
        nev = len(ip.events)
        try:
            r = f()
        except (Infeasible, Undecided, PyExc):
            r = None
        if len(ip.choices) != n:
            del ip.choices[n:]
            ip.pos, ip.vec = pos, vec
            ip._load(saved)
            r = None
        del ip.events[nev:]
        return r

    def same(self, a, b, depth=0):
        """True / False / None: equal in value AND type, on every input of this path."""
        ip = self.ip
        a, b = lift(a), lift(b)
        if a is b:
            return True
        if depth > 12:
            return None
        if isinstance(a, (C, T)):
            a = ip.norm(ip.resolve(a))
        if isinstance(b, (C, T)):
            b = ip.norm(ip.resolve(b))
        if isinstance(a, T) and a in ip.objof:
            a = ip.objof[a]
        if isinstance(b, T) and b in ip.objof:
            b = ip.objof[b]
        if a is b:
            return True
        if isinstance(a, C) and isinstance(b, C):
            if type(a.v) is not type(b.v):
                if terms.is_num(a) and terms.is_num(b):
                    return a.v == b.v and not isinstance(a.v, bool) and not isinstance(b.v, bool)
                return False
            return a.v == b.v
        if isinstance(a, ByteArr) or isinstance(b, ByteArr):
            x = a.val if isinstance(a, ByteArr) else a
            y = b.val if isinstance(b, ByteArr) else b
            if isinstance(x, (C, T)) and isinstance(y, (C, T)):
                return self.same(x, y, depth + 1)
            return False
        if isinstance(a, (C, T)) and isinstance(b, (C, T)):
            ta, tb = ip.types(a), ip.types(b)
            if ta is not None and tb is not None and not ta & tb \
                    and not (ta <= terms.NUM and tb <= terms.NUM):
                return False
            return self.quiet(lambda: ip.eq(a, b))
        if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(a, ListV) and \
                isinstance(b, ListV):
            ao, bo = getattr(a, 'open', False), getattr(b, 'open', False)
            if ao != bo:
                return None
            if ao and a.label is not b.label:
                return None
            if len(a.items) != len(b.items):
                return False
            return _all(self.same(x, y, depth + 1) for x, y in zip(a.items, b.items))
        if isinstance(a, DictV) and isinstance(b, DictV):
            return self.same_dict(a, b, depth)
        if isinstance(a, SetV) and isinstance(b, SetV):
            if len(a.items) != len(b.items):
                return False
            return _all(any(self.same(x, y, depth + 1) for y in b.items) for x in a.items)
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a.cls is not b.cls:
                return False
            if set(a.attrs) != set(b.attrs):
                return False
            return _all(self.same(a.attrs[k], b.attrs[k], depth + 1) for k in sorted(a.attrs))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self is b.self
        if isinstance(a, T) or isinstance(b, T):
            t, o = (a, b) if isinstance(a, T) else (b, a)
            if isinstance(o, (DictV, ListV)) and o.kind in ip.types(t):
                if isinstance(o.label, V) and o.label is t:
                    return True
                return None
            return False
        return False

    def same_dict(self, a, b, depth=0):
        if a.open != b.open:
            return None if (a.open or b.open) else False
        if a.open and a.label is not b.label:
            return None
        res = []
        used = set()
        for k, v in a.entries:
            hit = None
            for i, (k2, v2) in enumerate(b.entries):
                if i in used:
                    continue
                s = self.same(k, k2, depth + 1)
                if s:
                    hit = i
                    break
                if s is None and hit is None:
                    hit = -1
            if hit is None:
                if a.open:
                    if self.same(v, ms.item_term(a.label, k, a.valtypes), depth + 1):
                        continue
                    return None
                return False
            if hit == -1:
                res.append(None)
                continue
            used.add(hit)
            res.append(self.same(v, b.entries[hit][1], depth + 1))
        for i, (k2, v2) in enumerate(b.entries):
            if i not in used:
                if b.open and self.same(v2, ms.item_term(b.label, k2, b.valtypes), depth + 1):
                    continue
                if None in res:
                    continue
                return None if b.open else False
        return _all(res)

    # ---- obligations

    def soft(self, cond, key, msg, loc=None):
        """Like require, but a comparison the analysis cannot decide is not a violation."""
        if cond is None:
            self.obligations += 1
            self.prop.count(key)
            self.undecided.append('%s (%s)' % (key, msg))
            return False
        return self.require(cond, key, msg, loc)

    def require(self, cond, key, msg, loc=None):
        """One proof obligation on this path.  cond: True / False / None (not decided)."""
        self.obligations += 1
        self.prop.count(key)
        if cond is True:
            self.prop.discharge(key)
            return True
        if cond is None and self.ip.imprecise:
            self.undecided.append('%s (imprecise: %s)' % (key, self.ip.imprecise[0]))
            return False
        self.violate(key, msg, loc)
        return False

    def require_same(self, got, want, key, msg, loc=None):
        r = self.same(got, want)
        return self.require(r, key, '%s: got %s, expected %s' % (msg, pretty(self, got),
                                                                 pretty(self, want)), loc)

    def violate(self, key, msg, loc=None):
        for g in self.ip.guesses:
            # the result of a function without a model: the path may be impossible
            if g in msg or any(c[2] and g in c[2] for c in self.ip.choices):
                self.undecided.append('%s (%s is not modelled)' % (key, g))
                return
        self.failed.append(Violation(key, msg, loc or self.last_loc(), self.name, self.describe()))

    def last_loc(self):
        for e in reversed(self.ip.events):
            if e.loc != '<scenario>':
                return e.loc
        return '<scenario>'

    def describe(self):
        out = []
        for n, c, desc, loc in self.ip.choices:
            if desc:
                out.append('%s   [%s]' % (desc, loc))
        return out


def _all(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def _match(pat, name):
    if callable(pat):
        return pat(name)
    if isinstance(pat, (tuple, list, set)):
        return any(_match(p, name) for p in pat)
    if pat.startswith('*'):
        return name.endswith(pat[1:])
    return name == pat


_stubs = {}


def _stub_class(name):
    got = _stubs.get(name)
    if got is None:
        got = Cls('stub:' + name, [mt.bcls('object')], None, 'stub:' + name)
        got.gen = -1
        _stubs[name] = got
    return got


def lift(v):
    if isinstance(v, V):
        return v
    if isinstance(v, dict):
        return DictV([(lift(k), lift(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ListV([lift(x) for x in v])
    if isinstance(v, tuple):
        return Tup([lift(x) for x in v])
    return C(v)


def pretty(A, v, depth=0):
    if isinstance(v, (C, T)):
        v = A.ip.norm(v)
    s = show(v) if isinstance(v, (C, T)) else repr(v)
    return s if len(s) < 300 else s[:300] + '...'


class Prop(object):
    """One property: its scenarios and what they established."""

    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.scenarios = []
        self.ob = {}
        self.ok = {}
        self.violations = {}
        self.undecided = {}
        self.cut = {}
        self.paths = 0
        self.infeasible = 0
        self.assumptions = []
        self.bounds = []
        self.truncated = []
        self.rows = []
        self.facts = {}
        self.rule = ''
        self.errors = []
        self.ip = Interp()
        preload(self.ip)
        self.ip.func_seen = set()
        self.stat = {}

    def count(self, key):
        self.ob[key] = self.ob.get(key, 0) + 1

    def discharge(self, key):
        self.ok[key] = self.ok.get(key, 0) + 1

    def scenario(self, name, fn, max_paths=4000, min_obligations=1, elem=None, loop=None,
                 budget=None):
        """Runs fn(A) along every path."""
        ip = self.ip
        vec = []
        n = done = obl = 0
        t0 = time.time()
        cut = und = inf = 0
        bad0 = sum(v.count for v in self.violations.values())
        if self.tier == 'thorough':
            max_paths *= 20
        while True:
            ip.begin(vec)
            if elem is not None:
                ip.elem_bound = elem
            elif self.tier == 'thorough':
                ip.elem_bound += 1
            if loop is not None:
                ip.loop_bound = loop
            elif self.tier == 'thorough':
                ip.loop_bound += 1
            A = Path(self, name, ip)
            outcome = 'done'
            try:
                fn(A)
            except Stop:
                pass
            except PyExc as e:
                if e.value.attrs.get('__stop__'):
                    pass
                else:
                    cls = getattr(e.value.cls, 'name', '?')
                    A.count_exc = True
                    self.count('no-unexpected-exception')
                    A.violate('exception:' + cls, 'unexpected %s %s' % (cls, _args(e.value)),
                              e.loc)
            except PathCut as e:
                outcome = 'cut'
                cut += 1
                self.cut[str(e)] = self.cut.get(str(e), 0) + 1
            except Infeasible:
                outcome = 'infeasible'
                inf += 1
            except Undecided as e:
                outcome = 'undecided'
                und += 1
                k = '%s at %s' % (e, ip.where())
                self.undecided[k] = self.undecided.get(k, 0) + 1
            except AnchorLost as e:
                lost = 'scenario %r: anchor lost: %s' % (name, e)
                if lost not in self.errors:
                    self.errors.append(lost)
                outcome = 'undecided'
                und += 1
            except Exception as e:      # the analysis itself fails: nothing is decided here
                if DEBUG:
                    raise
                outcome = 'undecided'
                und += 1
                tb = traceback.extract_tb(e.__traceback__)[-1]
                k = 'the analysis fails with %s: %s at %s:%d' % (
                    type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno)
                self.undecided[k] = self.undecided.get(k, 0) + 1
            n += 1
            if outcome != 'infeasible':
                if outcome == 'done':
                    done += 1
                obl += A.obligations
                for u in A.undecided:
                    self.undecided[u] = self.undecided.get(u, 0) + 1
                if outcome in ('done', 'cut'):
                    for v in A.failed:
                        k = v.key
                        if k in self.violations:
                            self.violations[k].count += 1
                        else:
                            self.violations[k] = v
            # next vector
            ch = ip.choices
            i = len(ch) - 1
            while i >= 0 and ch[i][1] + 1 >= ch[i][0]:
                i -= 1
            if i < 0:
                break
            vec = [c[1] for c in ch[:i]] + [ch[i][1] + 1]
            if n >= max_paths or (budget and time.time() - t0 > budget):
                self.truncated.append('%s after %d paths' % (name, n))
                break
        ip.begin([])
        self.paths += n
        self.infeasible += inf
        self.stat[name] = dict(paths=n, done=done, cut=cut, undecided=und, infeasible=inf,
                               obligations=obl, wall=round(time.time() - t0, 2))
        if obl < min_obligations and sum(v.count for v in self.violations.values()) == bad0:
            self.errors.append('scenario %r established nothing (%d paths, %d cut, %d undecided, '
                               '%d infeasible)' % (name, n, cut, und, inf))


def _args(v):
    a = v.attrs.get('args')
    if a is None:
        return ''
    try:
        return '(%s)' % ', '.join(show(x) if isinstance(x, (C, T)) else repr(x) for x in a.items)
    except Exception:
        return ''
