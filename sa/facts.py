"""Path facts: type sets, intervals, (dis)equalities, and the choice points of a path.

A comparison that the facts and the declared ranges decide is decided; any other one is
a choice point: the path is split and the fact recorded for either side.
"""
from fractions import Fraction

from . import terms
from .objs import *  # noqa
from .terms import (C, T, V, NUM, SPECS, ANY_TYPES, poly_of, poly_term, types_of, is_num,
                    range_op, show)

INT = frozenset(['int', 'bool'])
BOOL = frozenset(['bool'])


def _few(q):
    """The values a masked number can have, if they are few."""
    if not isinstance(q, T) or q.op != 'bits' or q.args[1] < 0 or bin(q.args[1]).count('1') > 3:
        return None
    out = [q.args[2]]
    for k in range(q.args[1].bit_length()):
        if q.args[1] >> k & 1:
            out += [x | 1 << k for x in out]
    return out


class Facts(object):
    def reset_facts(self, vec):
        self.vec = list(vec)
        self.prefix = len(vec)
        self.pos = 0
        self.choices = []          # (n, taken, description, loc)
        self.tfacts = {}
        self.lo = {}
        self.hi = {}
        self.ne = {}
        self.eqc = {}
        self.nec = {}
        self.atoms = {}
        self.assumed = []
        self.nfresh = {}

    # -------------------------------------------------------------- choice points

    def choose(self, n, desc):
        if n == 1:
            return 0
        if self.pos < len(self.vec):
            c = self.vec[self.pos]
        else:
            c = 0
            self.vec.append(0)
        self.pos += 1
        self.choices.append((n, c, desc, self.where()))
        return c

    def fresh(self, name):
        n = self.nfresh.get(name, 0) + 1
        self.nfresh[name] = n
        return n

    def atom(self, key, desc, first=True):
        got = self.atoms.get(key)
        if got is None:
            c = self.choose(2, None)
            got = first if c == 0 else (not first)
            self.atoms[key] = got
            self._redesc(desc if got else 'not ' + desc)
        return got

    def _redesc(self, desc):
        n, c, _, loc = self.choices[-1]
        self.choices[-1] = (n, c, desc, loc)

    # -------------------------------------------------------------- types

    def types(self, t):
        if isinstance(t, T):
            got = self.tfacts.get(t)
            if got is not None:
                return got
            got = types_of(t)
            return ANY_TYPES if got is None else got
        if isinstance(t, C):
            return frozenset([type(t.v).__name__])
        return None

    def decide_type(self, t, subset, desc=None):
        """Is the type of t in `subset`?  Splits the path when both are possible."""
        ts = self.types(t)
        a = ts & subset
        if not a:
            return False
        if a == ts:
            return True
        yes = self.choose(2, None) == 0
        self.tfacts[t] = a if yes else ts - subset
        if t in self.eqc and self._boolean(t):
            self.eqc[t] = self._constant(t, Fraction(self.eqc[t].v))
        names = '/'.join(sorted(a if yes else ts - subset))
        self._redesc('%s is %s' % (show(t), names))
        return yes

    def is_none(self, v):
        if isinstance(v, C):
            return v.v is None
        if isinstance(v, T):
            v = self.resolve(v)
            if isinstance(v, C):
                return v.v is None
            return self.decide_type(v, frozenset(['NoneType']))
        return False

    def resolve(self, v):
        if isinstance(v, T):
            got = self.eqc.get(v)
            if got is not None:
                return got
            if self.types(v) == frozenset(['NoneType']):
                return terms.NONE
        return v

    # -------------------------------------------------------------- intervals

    def rng(self, t):
        if isinstance(t, C):
            return terms.const_range(t)
        if not isinstance(t, T):
            return None, None
        sp = SPECS.get(t)
        lo, hi = (sp.lo, sp.hi) if sp is not None else (None, None)
        l2, h2 = range_op(t, self.rng)
        lo = _max(lo, l2)
        hi = _min(hi, h2)
        f = self.lo.get(t)
        if f is not None:
            lo = _max(lo, f[0])
        f = self.hi.get(t)
        if f is not None:
            hi = _min(hi, f[0])
        return lo, hi

    def _bounds(self, q):
        lo, hi = self.rng(q)
        ls = self.lo.get(q)
        hs = self.hi.get(q)
        return lo, bool(ls and ls[0] == lo and ls[1]), hi, bool(hs and hs[0] == hi and hs[1])

    def cmp_num(self, a, op, b):
        """a op b for numeric values; op in < <= > >= == !=; returns a bool."""
        if isinstance(a, C) and isinstance(b, C):
            return _pycmp(a.v, op, b.v)
        if isinstance(b, C) and isinstance(b.v, float) and b.v in (float('inf'), float('-inf')):
            big = b.v > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
        pa, pb = poly_of(a), poly_of(b)
        if pa is None or pb is None:
            return self.atom(('cmp', op, a, b), '%s %s %s' % (show(a), op, show(b)))
        p = dict(pa)
        for m, c in pb.items():
            p[m] = p.get(m, 0) - c
        p = {m: c for m, c in p.items() if c}
        p = self._divide(p)
        c0 = p.pop((), Fraction(0))
        if not p:
            return _pycmp(c0, op, 0)
        # scale so that the leading coefficient is 1
        lead = sorted(p.items(), key=lambda kv: repr(kv[0]))[0][1]
        q = poly_term({m: c / lead for m, c in p.items()})
        # re-normalise (the recombination may have simplified it)
        pq = poly_of(q)
        v = -c0 / lead
        if lead < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        if isinstance(q, C):
            return _pycmp(Fraction(q.v), op, v)
        qc = pq.get((), None)
        if qc:
            pq = dict(pq)
            del pq[()]
            q = poly_term(pq)
            v = v - qc
        if op == '!=':
            return not self._decide(q, '==', v)
        return self._decide(q, op, v)

    def _divide(self, p):
        """p without the positive factors all its monomials share (also denominators)."""
        if len(p) < 2 or all(len(m) < 2 and all(k == 1 for _, k in m) for m in p):
            return p
        powers = {}
        for m in p:
            for a, k in m:
                powers.setdefault(a, []).append(k)
        for a, ks in powers.items():
            k = min(ks + [0] * (len(p) - len(ks)))
            if not k:
                continue
            lo, los, _, _ = self._bounds(a)
            if lo is None or lo < 0 or lo == 0 and not los:
                continue
            out = {}
            for m, c in p.items():
                d = dict(m)
                d[a] = d.get(a, 0) - k
                if not d[a]:
                    del d[a]
                n = tuple(sorted(d.items(), key=lambda ak: terms._akey(ak[0])))
                out[n] = out.get(n, 0) + c
            p = {m: c for m, c in out.items() if c}
        return p

    def _combined(self, q):
        """Bounds of a sum from one known comparison and the ranges of the rest."""
        lo, los, hi, his = self._bounds(q)
        pq = poly_of(q)
        if not isinstance(q, T) or not pq or len(pq) > 6:
            return lo, los, hi, his
        for f in set(self.lo) | set(self.hi):
            if not isinstance(f, T) or f.op != 'poly' or f is q:
                continue
            pf = poly_of(f)
            for c in set(pq[m] / pf[m] for m in pf if m in pq and m):
                r = dict(pq)
                for m, k in pf.items():
                    r[m] = r.get(m, 0) - c * k
                r = {m: k for m, k in r.items() if k}
                if len(r) > len(pq):
                    continue
                r0 = r.pop((), Fraction(0))
                rl, rls, rh, rhs = (0, False, 0, False) if not r else self._scaled(r)
                fl, fls, fh, fhs = self._bounds(f)
                if c < 0:
                    fl, fls, fh, fhs = fh, fhs, fl, fls
                if fh is not None and rh is not None:
                    n = c * fh + rh + r0
                    if hi is None or n < hi or n == hi and (fhs or rhs):
                        hi, his = n, fhs or rhs
                if fl is not None and rl is not None:
                    n = c * fl + rl + r0
                    if lo is None or n > lo or n == lo and (fls or rls):
                        lo, los = n, fls or rls
        return lo, los, hi, his

    def _scaled(self, r):
        """The bounds of a sum without constant, looked up as comparisons are stored."""
        lead = sorted(r.items(), key=lambda kv: repr(kv[0]))[0][1]
        q = poly_term({m: c / lead for m, c in r.items()})
        lo, los, hi, his = self._bounds(q)
        if lead < 0:
            lo, los, hi, his = hi, his, lo, los
        return (None if lo is None else lo * lead, los, None if hi is None else hi * lead, his)

    def _decide(self, q, op, v):
        yes = self._decide_one(q, op, v)
        while isinstance(q, T) and q.op == 'shr':
            # what is known of a shifted number bounds the number itself
            x, k = q.args
            lo, hi = self.rng(q)
            l, h = self.rng(x)
            if hi is not None and (h is None or h > int(hi + 1) * 2 ** k - 1):
                self._sethi(x, Fraction(int(hi + 1) * 2 ** k - 1), False, True)
            if lo is not None and (l is None or l < int(lo) * 2 ** k):
                self._setlo(x, Fraction(int(lo) * 2 ** k), False, True)
            q = x
        return yes

    def _decide_one(self, q, op, v):
        isint = terms.is_int(q) or self.types(q) <= INT
        if isint:
            if v.denominator != 1:
                if op == '==':
                    return False
                fl = v.numerator // v.denominator
                if op in ('<', '<='):
                    op, v = '<=', Fraction(fl)
                else:
                    op, v = '>=', Fraction(fl + 1)
            if op == '<':
                op, v = '<=', v - 1
            elif op == '>':
                op, v = '>=', v + 1
        lo, los, hi, his = self._combined(q)
        if isint and self._boolean(q):
            lo, los = (0, False) if lo is None or lo < 0 else (lo, los)
            hi, his = (1, False) if hi is None or hi > 1 else (hi, his)
        if op == '==':
            if lo is not None and (v < lo or (v == lo and los)):
                return False
            if hi is not None and (v > hi or (v == hi and his)):
                return False
            if lo is not None and hi is not None and lo == hi == v:
                return True
            if v in self.ne.get(q, ()):
                return False
            if q in self.eqc:
                return Fraction(self.eqc[q].v) == v
            few = _few(q)
            if few is not None:
                few = [x for x in few if x not in self.ne.get(q, ()) and (lo is None or x >= lo)
                       and (hi is None or x <= hi)]
                if v not in few or len(few) == 1:
                    return v in few
            # tr(x)==0 style facts
            yes = self.choose(2, None) == 0
            self._redesc('%s %s %s' % (show(q), '==' if yes else '!=', _num(v)))
            if yes:
                self.lo[q] = self.hi[q] = (v, False)
                if isinstance(q, T):
                    self.eqc[q] = self._constant(q, v)
            else:
                self.ne.setdefault(q, set()).add(v)
                if isint:
                    if lo is not None and lo == v:
                        self.lo[q] = (v + 1, False)
                        self._tighten(q)
                    if hi is not None and hi == v:
                        self.hi[q] = (v - 1, False)
                    if self._boolean(q) and v in (0, 1):
                        self.eqc[q] = self._constant(q, 1 - v)
                    elif few is not None and len(few) == 2:
                        few.remove(v)
                        self.lo[q] = self.hi[q] = (Fraction(few[0]), False)
                        self.eqc[q] = self._constant(q, Fraction(few[0]))
                else:
                    if lo is not None and lo == v:
                        self.lo[q] = (v, True)
                    if hi is not None and hi == v:
                        self.hi[q] = (v, True)
            return yes
        if op in ('<', '<='):
            if hi is not None and (hi < v or (hi == v and (op == '<=' or his))):
                return True
            if lo is not None and (lo > v or (lo == v and (op == '<' or los))):
                return False
            neg = '>=' if op == '<' else '>'
            yes = self.choose(2, None) == 0
            self._redesc('%s %s %s' % (show(q), op if yes else neg, _num(v)))
            if yes:
                self._sethi(q, v, op == '<', isint)
            else:
                self._setlo(q, v, neg == '>', isint)
            return yes
        return not self._decide(q, '<' if op == '>=' else '<=', v)

    def _sethi(self, q, v, strict, isint):
        if isint and strict:
            v, strict = v - 1, False
        while isint and v in self.ne.get(q, ()):
            v = v - 1
        if not isint and v in self.ne.get(q, ()):
            strict = True
        self.hi[q] = (v, strict)
        self._fix(q)

    def _setlo(self, q, v, strict, isint):
        if isint and strict:
            v, strict = v + 1, False
        while isint and v in self.ne.get(q, ()):
            v = v + 1
        if not isint and v in self.ne.get(q, ()):
            strict = True
        self.lo[q] = (v, strict)
        self._fix(q)

    def _tighten(self, q):
        while self.lo[q][0] in self.ne.get(q, ()):
            self.lo[q] = (self.lo[q][0] + 1, False)
        self._fix(q)

    def _fix(self, q):
        lo, los, hi, his = self._bounds(q)
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (los or his)):
                raise Infeasible()
            if lo == hi and isinstance(q, T):
                self.eqc[q] = self._constant(q, Fraction(lo))

    def _boolean(self, q):
        return isinstance(q, T) and self.types(q) == BOOL

    def _constant(self, q, f):
        if f.denominator != 1:
            return C(float(f))
        return C(f == 1) if f in (0, 1) and self._boolean(q) else C(int(f))

    def known_cmp(self, a, op, b):
        """Like cmp_num but never splits: True / False / None."""
        saved = self._save()
        try:
            n = len(self.choices)
            pos = self.pos
            vec = list(self.vec)
            r = self.cmp_num(a, op, b)
            if len(self.choices) != n:
                del self.choices[n:]
                self.pos = pos
                self.vec = vec
                self._load(saved)
                return None
            return r
        except Infeasible:
            self._load(saved)
            return None

    def _save(self):
        return (dict(self.tfacts), dict(self.lo), dict(self.hi),
                {k: set(v) for k, v in self.ne.items()}, dict(self.eqc),
                {k: set(v) for k, v in self.nec.items()}, dict(self.atoms))

    def _load(self, s):
        self.tfacts, self.lo, self.hi, self.ne, self.eqc, self.nec, self.atoms = s

    # -------------------------------------------------------------- normal form under facts

    def norm(self, v):
        """Re-normalise a scalar under the facts of this path."""
        if isinstance(v, T):
            r = self.resolve(v)
            if r is not v:
                return r
            if v.op == 'poly':
                out = C(0)
                for mono, c in v.args[0]:
                    m = C(int(c)) if c.denominator == 1 else poly_term({(): c})
                    for a, p in mono:
                        na = self.norm(a)
                        if p == 1:
                            m = terms.t_mul(m, na)
                        elif p < 0:
                            for _ in range(-p):
                                if isinstance(na, C) and na.v == 0:
                                    return v
                                m = terms.t_div(m, na)
                        else:
                            for _ in range(p):
                                m = terms.t_mul(m, na)
                    out = terms.t_add(out, m)
                return out
            if v.op == 'bits':
                return terms.mk_bits(self.norm(v.args[0]), v.args[1], v.args[2], self.rng)
            if v.op == 'shr':
                return terms.t_shr(self.norm(v.args[0]), v.args[1], self.rng)
            if v.op == 'scat':
                return terms.s_cat([self.norm(x) for x in v.args[0]])
            if v.op == 'bcat':
                return terms.b_cat([self.norm(x) for x in v.args[0]])
            if v.op == 'be':
                return terms.be(v.args[0], self.norm(v.args[1]))
            if v.op in ('fmt',):
                x = self.norm(v.args[1])
                if isinstance(x, C) and isinstance(x.v, int):
                    return C(format(x.v, v.args[0]))
                return T('fmt', v.args[0], x)
            if v.op in ('sym', 'now', 'rnd', 'rndf', 'res', 'item', 'attr'):
                return v
            args = []
            ch = False
            for a in v.args:
                if isinstance(a, T):
                    n = self.norm(a)
                    ch = ch or n is not a
                    args.append(n)
                else:
                    args.append(a)
            if ch:
                n = T(v.op, *args)
                if v in SPECS and n not in SPECS:
                    SPECS[n] = SPECS[v]
                return n
        return v


def _num(v):
    if isinstance(v, Fraction):
        return str(v.numerator) if v.denominator == 1 else '%g' % float(v)
    return str(v)


def _max(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a if a >= b else b


def _min(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a if a <= b else b


def _pycmp(a, op, b):
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
