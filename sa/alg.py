# -*- coding: utf-8 -*-
"""
Algebraic normal forms used as the value domain of the abstract interpreter.

Num   rational function (quotient of polynomials) over interned atoms. Coefficients are exact
      Fractions; a float coefficient appears only for an irrational constant (sqrt(2), cos(36 deg)).
Bool  and/or/not over  sign(p) in {-,0,+}  conditions of canonical polynomials and opaque atoms.

Two Nums are equal when their cross-multiplied difference has no term left; two Bools are equivalent
when they agree for every sign assignment.  Where the normal forms differ, `differ` looks for a
valuation of the *formulas* that separates them; without one the comparison is undecided.
"""
from fractions import Fraction
import itertools
import math
import random

NEG, ZERO, POS = -1, 0, 1
FTOL = 1e-9


class Undecided(Exception):
    """the analysis left the fragment it understands"""


# ---------------------------------------------------------------- atoms

class Atom(object):
    __slots__ = ('id', 'kind', 'args')

    def __init__(self, id, kind, args):
        self.id, self.kind, self.args = id, kind, args

    def __repr__(self):
        if self.kind == 'sym':
            return self.args[0]
        return '%s(%s)' % (self.kind, ', '.join(map(repr, self.args)))


ATOMS = []
_SYMS = {}
_BYKIND = {}
_BYKEY = {}      # the same by exact keys


def reset():
    del ATOMS[:]
    _SYMS.clear()
    _BYKIND.clear()
    _BYKEY.clear()
    _md_reset()


PLAIN_ATOMS = [False]      # atoms are identified by their keys only


def _same_arg(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return a.eq(b)
    if isinstance(a, Bool) and isinstance(b, Bool):
        return a.key() == b.key() if PLAIN_ATOMS[0] else proven_equiv(a, b)
    if isinstance(a, (Num, Bool)) or isinstance(b, (Num, Bool)):
        return False
    return type(a) == type(b) and a == b


def atom(kind, *args):
    if kind == 'sym':
        a = _SYMS.get(args[0])
        if a is None:
            a = Atom(len(ATOMS), 'sym', args)
            ATOMS.append(a)
            _SYMS[args[0]] = a
        return a
    try:
        k = (kind,) + tuple((frozenset(x.n.items()), frozenset(x.d.items())) if isinstance(x, Num) else x.key() if isinstance(x, Bool) else (type(x), x) for x in args)
        hash(k)
    except TypeError:
        k = None
    if k in _BYKEY:
        return _BYKEY[k]
    for a in _BYKIND.setdefault(kind, []):
        if len(a.args) == len(args) and all(_same_arg(x, y) for x, y in zip(a.args, args)):
            break
    else:
        a = Atom(len(ATOMS), kind, args)
        ATOMS.append(a)
        _BYKIND[kind].append(a)
    if k is not None:
        _BYKEY[k] = a
    return a


# ---------------------------------------------------------------- polynomials

def _c(x):
    if isinstance(x, float):
        if x == int(x) and abs(x) < 1e15:
            return Fraction(int(x))
        return x
    return Fraction(x)


def _small(c):
    if isinstance(c, Fraction):
        return c == 0
    return abs(c) < FTOL


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0)
        if isinstance(v, float) or isinstance(c, float):
            scale = max(abs(float(v)), abs(float(c)), 1e-300)
            n = float(v) + k * float(c)
            if abs(n) < FTOL * max(scale, 1e-6):
                n = 0
        else:
            n = v + k * c
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def _m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


MAXTERMS = 4000


def p_mul(a, b):
    r = {}
    if len(a) * len(b) > MAXTERMS * 20:
        raise Undecided('polynomial too large')
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _m_mul(m1, m2)
            if isinstance(c1, float) or isinstance(c2, float):
                c = float(c1) * float(c2)
            else:
                c = c1 * c2
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                if isinstance(o, float) or isinstance(c, float):
                    n = float(o) + float(c)
                    if abs(n) < FTOL * max(abs(float(o)), 1e-6):
                        n = 0
                else:
                    n = o + c
                if n == 0:
                    del r[m]
                else:
                    r[m] = n
    if len(r) > MAXTERMS:
        raise Undecided('polynomial too large')
    return r


ONE = {(): Fraction(1)}


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_const(p):
    return p.get((), Fraction(0))


def p_scale(p, k):
    out = {}
    for m, c in p.items():
        if isinstance(c, float) or isinstance(k, float):
            out[m] = float(c) * float(k)
        else:
            out[m] = c * k
    return out


def p_lead(p):
    """canonical leading monomial"""
    return max(p, key=lambda m: (sum(e for _, e in m), m))


def p_key(p):
    return tuple(sorted((m, round(c, 9) if isinstance(c, float) else c) for m, c in p.items()))


def p_eq(a, b):
    return not _p_nonzero(p_add(a, b, -1), a, b)


def _p_nonzero(d, a, b):
    if not d:
        return False
    if all(isinstance(c, float) for c in d.values()):
        s = max([abs(float(c)) for c in list(a.values()) + list(b.values())] or [1.0])
        return any(abs(c) > FTOL * max(s, 1.0) for c in d.values())
    return True


def p_divexact(a, b):
    """a / b when b divides a, else None"""
    if not a:
        return {}
    lb = p_lead(b)
    cb = b[lb]
    db = dict(lb)
    q = {}
    r = dict(a)
    n = 0
    while r:
        n += 1
        if n > 200:
            return None
        lr = p_lead(r)
        dr = dict(lr)
        if any(dr.get(x, 0) < e for x, e in db.items()):
            return None
        m = tuple(sorted((x, e - db.get(x, 0)) for x, e in dr.items() if e - db.get(x, 0)))
        c = r[lr] / cb if not (isinstance(r[lr], float) or isinstance(cb, float)) else float(r[lr]) / float(cb)
        q[m] = c
        r = p_add(r, p_mul({m: c}, b), -1)
    return q


def _reduce_poly(p):
    """applies sqrt(a)^2 = a, abs(a)^2 = a^2, cos^2 = 1 - sin^2; returns a Num or None when nothing applies"""
    hit = False
    for m in p:
        for x, e in m:
            if e >= 2 and ATOMS[x].kind in ('sqrt', 'abs', 'cos'):
                hit = True
    if not hit:
        return None
    total = Num({}, ONE)
    for m, c in p.items():
        t = Num({(): c}, ONE)
        rest = []
        for x, e in m:
            a = ATOMS[x]
            if e >= 2 and a.kind == 'sqrt':
                t = t * (a.args[0] ** (e // 2))
                if e % 2:
                    rest.append((x, 1))
            elif e >= 2 and a.kind == 'abs':
                t = t * (a.args[0] ** (e - e % 2))
                if e % 2:
                    rest.append((x, 1))
            elif e >= 2 and a.kind == 'cos':
                s = sin_(a.args[0])
                t = t * ((num(1) - s * s) ** (e // 2))
                if e % 2:
                    rest.append((x, 1))
            else:
                rest.append((x, e))
        total = total + t * Num({tuple(sorted(rest)): Fraction(1)}, ONE)
    return total


class Num(object):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=ONE):
        self.n, self.d = n, d

    @staticmethod
    def make(n, d):
        if not d:
            raise Undecided('division by a constant zero')
        if not n:
            return Num({}, ONE)
        if p_isconst(d):
            k = p_const(d)
            if k != 1:
                n = p_scale(n, 1 / k)
            d = ONE
        else:
            # common monomial content
            common = None
            for m in itertools.chain(n, d):
                dm = dict(m)
                common = dm if common is None else {x: min(e, dm[x]) for x, e in common.items() if x in dm}
                if not common:
                    break
            if common:
                def strip(p):
                    return {tuple((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)): c
                            for m, c in p.items()}
                n, d = strip(n), strip(d)
            if not p_isconst(d) and len(d) <= 40 and len(n) <= 400:
                q = p_divexact(n, d)
                if q is not None:
                    n, d = q, ONE
            if not p_isconst(d):
                k = d[p_lead(d)]
                if k != 1:
                    n, d = p_scale(n, 1 / k), p_scale(d, 1 / k)
            elif d != ONE:
                k = p_const(d)
                n, d = p_scale(n, 1 / k), ONE
        rn = _reduce_poly(n)
        rd = _reduce_poly(d) if d is not ONE else None
        if rn is not None or rd is not None:
            a = rn if rn is not None else Num(n, ONE)
            b = rd if rd is not None else Num(d, ONE)
            return Num.make(p_mul(a.n, b.d), p_mul(a.d, b.n))
        return Num(n, d)

    def __add__(self, o):
        if self.d == o.d:
            return Num.make(p_add(self.n, o.n), self.d)
        return Num.make(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    def __neg__(self):
        return Num(p_scale(self.n, -1), self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Num.make(p_mul(self.n, o.n), p_mul(self.d, o.d))

    def __truediv__(self, o):
        return Num.make(p_mul(self.n, o.d), p_mul(self.d, o.n))

    def __pow__(self, k):
        r = num(1)
        b = self
        if k < 0:
            return num(1) / (self ** (-k))
        for _ in range(k):
            r = r * b
        return r

    def eq(self, o):
        if self is o:
            return True
        if self.d == o.d:
            return p_eq(self.n, o.n)
        try:
            return p_eq(p_mul(self.n, o.d), p_mul(o.n, self.d))
        except Undecided:
            return False

    def isconst(self):
        return p_isconst(self.n) and p_isconst(self.d)

    def const(self):
        """constant value (Fraction/float) or None"""
        if self.isconst():
            return p_const(self.n)
        # a multiple of pi only
        v = _pi_const(self)
        return v

    def exactconst(self):
        return p_const(self.n) if self.isconst() else None

    def atoms(self):
        return set(x for p in (self.n, self.d) for m in p for x, _ in m)

    def key(self):
        return (p_key(self.n), p_key(self.d))

    def __repr__(self):
        def pr(p):
            if not p:
                return '0'
            t = []
            for m, c in sorted(p.items(), key=lambda kv: (-sum(e for _, e in kv[0]), kv[0])):
                f = '*'.join('%r%s' % (ATOMS[x], '^%d' % e if e != 1 else '') for x, e in m)
                cs = ('%.9g' % c) if isinstance(c, float) else str(c)
                t.append(cs if not f else (f if cs == '1' else ('-' + f if cs == '-1' else cs + '*' + f)))
            return ' + '.join(t).replace('+ -', '- ')
        if self.d == ONE:
            return pr(self.n)
        return '(%s)/(%s)' % (pr(self.n), pr(self.d))


def _pi_const(v):
    pid = _SYMS.get('pi')
    if pid is None or not v.atoms() or v.atoms() != {pid.id}:
        return None
    f = lambda p: sum(float(c) * math.pi ** sum(e for _, e in m) for m, c in p.items())
    return f(v.n) / f(v.d)


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x in (float('inf'), float('-inf')):
            s = Num({((atom('sym', 'inf').id, 1),): Fraction(1)})
            return s if x > 0 else -s
        # decimal literal: exact decimal value
        f = Fraction(repr(x))
        return Num({(): f} if f else {}, ONE)
    f = Fraction(x)
    return Num({(): f} if f else {}, ONE)


def fnum(x):
    """irrational constant"""
    x = float(x)
    r = round(x)
    if abs(x - r) < 1e-12 * max(1.0, abs(x)):
        return num(int(r))
    # a short rational is kept exact
    f = Fraction(x).limit_denominator(1000)
    if abs(float(f) - x) < 1e-13 * max(1.0, abs(x)):
        return num(f)
    return Num({(): x}, ONE)


def sym(name):
    return Num({((atom('sym', name).id, 1),): Fraction(1)}, ONE)


POSITIVE = set()      # names of symbols assumed positive


def of(a):
    return Num({((a.id, 1),): Fraction(1)}, ONE)


def pi_():
    return sym('pi')


def _lead_neg(v):
    if not v.n:
        return False
    c = v.n[p_lead(v.n)]
    return c < 0


def _perfect(p):
    """sqrt of a polynomial that is a single term with even exponents (symbols assumed positive), or a
    perfect square of a polynomial with one variable term... only the first form is used"""
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if float(c) < 0:
        return None
    half = []
    for x, e in m:
        if e % 2:
            return None
        half.append((x, e // 2, e))
    for x, h, e in half:
        a = ATOMS[x]
        if not ((a.kind == 'sym' and a.args[0] in POSITIVE) or a.kind in ('sqrt',)):
            return None
    if isinstance(c, Fraction):
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            k = num(Fraction(rn, rd))
        else:
            k = fnum(math.sqrt(c))
    else:
        k = fnum(math.sqrt(c))
    return k * Num({tuple((x, h) for x, h, e in half): Fraction(1)}, ONE)


def sqrt_(v):
    c = v.const()
    if c is not None:
        if float(c) < 0:
            if float(c) > -1e-12:
                return num(0)
            raise Undecided('sqrt of a negative constant')
        if isinstance(c, Fraction):
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return num(Fraction(rn, rd))
        return fnum(math.sqrt(c))
    if v.d == ONE:
        k = _perfect(v.n)
        if k is not None:
            return k
    # perfect square of a simple expression  e*e -> abs(e)
    s = _try_square(v)
    if s is not None:
        return abs_(s)
    return of(atom('sqrt', v))


def _try_square(v):
    if v.d != ONE:
        return None
    p = v.n
    if len(p) == 1:
        (m, c), = p.items()
        if isinstance(c, Fraction) and c > 0 and all(e % 2 == 0 for _, e in m):
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return Num({tuple((x, e // 2) for x, e in m): Fraction(rn, rd)}, ONE)
        return None
    return _poly_root(p)


def _poly_root(p):
    """q with q * q == p, for polynomials with few terms, or None"""
    if not 3 <= len(p) <= 60 or any(not isinstance(c, Fraction) or any(e < 0 or e != int(e) for _, e in m) for m, c in p.items()):
        return None
    vs = sorted({x for m in p for x, _ in m})
    if not vs:
        return None
    vec = {m: tuple(dict(m).get(x, 0) for x in vs) for m in p}
    for i in range(len(vs)):        # extreme terms of a square are squares
        for f in (max, min):
            m = f(p, key=lambda m: (vec[m][i:] + vec[m][:i]))
            if any(e % 2 for e in vec[m]) or p[m] < 0:
                return None

    def root(c):
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fraction(rn, rd) if rn * rn == c.numerator and rd * rd == c.denominator else None

    def order(m):
        d = dict(m)
        return tuple(d.get(x, 0) for x in vs)
    lead = max(p, key=order)
    k = root(p[lead])
    if k is None:
        return None
    r = {tuple((x, e // 2) for x, e in lead): k}
    lm = order(lead)
    rest = p_add(p, p_mul(r, r), -1)
    while rest:
        m = max(rest, key=order)
        e = tuple(a - b // 2 for a, b in zip(order(m), lm))
        if min(e) < 0 or len(r) > 12:
            return None
        t = tuple((x, n) for x, n in zip(vs, e) if n)
        if t in r:
            return None
        q = {t: rest[m] / (2 * k)}
        rest = p_add(p_add(rest, p_mul(r, q), -2), p_mul(q, q), -1)
        r = p_add(r, q)
    return Num(r, ONE)


def abs_(v):
    c = v.const()
    if c is not None:
        return num(abs(c)) if isinstance(c, Fraction) else fnum(abs(c))
    if _lead_neg(v):
        v = -v
    # pull out the leading coefficient, so that abs(2x) == 2 abs(x)
    if v.d == ONE:
        k = v.n[p_lead(v.n)]
        if len(v.n) == 1:
            (m, _c0), = v.n.items()
            if all(ATOMS[x].kind in ('sqrt', 'abs') or e % 2 == 0 or
                   (ATOMS[x].kind == 'sym' and ATOMS[x].args[0] in POSITIVE) for x, e in m):
                return v
        if k != 1:
            kk = Num({(): k}, ONE)
            return kk * of(atom('abs', v / kk))
    return of(atom('abs', v))


def _unwind(v):
    """whole turns do not matter:  pi/180 * mod(x, 360)  is  pi/180 * x"""
    if v.d != ONE:
        return v
    for m, c in v.n.items():
        for x, e in m:
            a = ATOMS[x]
            if a.kind == 'mod' and e == 1 and a.args[1].const() is not None:
                k = Num({tuple(t for t in m if t[0] != x): c}, ONE)
                turn = (k * a.args[1] / (num(2) * pi_())).const()
                if isinstance(turn, Fraction) and turn.denominator == 1:
                    return _unwind(v - k * of(a) + k * a.args[0])
    return v


def sin_(v):
    v = _unwind(v)
    c = v.const()
    if c is not None:
        return _trigc(math.sin, c)
    if _lead_neg(v):
        return -sin_(-v)
    return of(atom('sin', v))


def cos_(v):
    v = _unwind(v)
    c = v.const()
    if c is not None:
        return _trigc(math.cos, c)
    if _lead_neg(v):
        v = -v
    return of(atom('cos', v))


def _trigc(f, c):
    x = f(float(c))
    return fnum(x)


def acos_(v):
    c = v.const()
    if c is not None:
        return fnum(math.acos(max(-1.0, min(1.0, float(c)))))
    v = strip_clamp(v)
    return of(atom('acos', v))


def strip_clamp(v):
    """acos only sees [-1, 1]: a clamp to this interval does not change its value where it is defined"""
    a = single_atom(v)
    if a is None:
        return v
    if a.kind in ('max', 'min'):
        lim = -1 if a.kind == 'max' else 1
        rest = [x for x in a.args if not (x.const() is not None and x.const() == lim)]
        if len(rest) == 1 and len(a.args) == 2:
            return strip_clamp(rest[0])
    return v


def single_atom(v):
    if v.d == ONE and len(v.n) == 1:
        (m, c), = v.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def _posinf(v):
    a = single_atom(v)
    return a is not None and a.kind == 'sym' and a.args[0] == 'inf'


def minmax(kind, args):
    flat = []
    for a in args:
        s = single_atom(a)
        if s is not None and s.kind == kind:
            flat.extend(s.args)
        else:
            flat.append(a)
    out = []
    for a in flat:
        if kind == 'min' and _posinf(a) or kind == 'max' and _posinf(-a):
            if len(flat) > 1:
                continue
        if not any(a.eq(b) for b in out):
            out.append(a)
    if not out:
        out = flat[:1]
    # constants, and arguments that differ by a constant
    res = []
    for a in out:
        done = False
        for i, b in enumerate(res):
            c = (a - b).const()
            if c is None and POSITIVE:
                c = _sign_val(a - b)
            if c is not None:
                if (kind == 'min') == (float(c) < 0):
                    res[i] = a
                done = True
                break
        if not done:
            res.append(a)
    if len(res) == 1:
        return res[0]
    res.sort(key=lambda v: repr(v.key()))
    return of(atom(kind, *res))


# ---------------------------------------------------------------- booleans

class Bool(object):
    __slots__ = ('op', 'args', '_k', '_m')

    def __init__(self, op, args):
        self.op, self.args, self._k, self._m = op, args, None, None

    def key(self):
        if self._k is None:
            if self.op == 'rel':
                p, s = self.args
                self._k = ('rel', p_key(p), tuple(sorted(s)))
            elif self.op in ('and', 'or'):
                self._k = (self.op,) + tuple(sorted((a.key() for a in self.args), key=repr))
            elif self.op == 'not':
                self._k = ('not', self.args[0].key())
            elif self.op == 'const':
                self._k = ('const', self.args[0])
            else:
                self._k = (self.op, self.args[0].id)
        return self._k

    def __repr__(self):
        if self.op == 'const':
            return str(self.args[0])
        if self.op == 'rel':
            p, s = self.args
            o = {frozenset([NEG]): '<', frozenset([POS]): '>', frozenset([ZERO]): '==', frozenset([NEG, ZERO]): '<=',
                 frozenset([POS, ZERO]): '>=', frozenset([NEG, POS]): '!='}[s]
            return '(%r %s 0)' % (Num(p), o)
        if self.op == 'not':
            return 'not %r' % self.args[0]
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(map(repr, self.args)) + ')'
        return repr(self.args[0])

    @property
    def isconst(self):
        return self.op == 'const'

    @property
    def value(self):
        return self.args[0]


TRUE = Bool('const', (True,))
FALSE = Bool('const', (False,))


def b_const(x):
    return TRUE if x else FALSE


def b_atom(kind, *args):
    return Bool('atom', (atom(kind, *args),))


def b_not(a):
    if a.isconst:
        return b_const(not a.value)
    if a.op == 'not':
        return a.args[0]
    if a.op == 'rel':
        p, s = a.args
        return Bool('rel', (p, frozenset([NEG, ZERO, POS]) - s))
    if a.op == 'and':
        return b_or(*[b_not(x) for x in a.args])
    if a.op == 'or':
        return b_and(*[b_not(x) for x in a.args])
    return Bool('not', (a,))


def _tiny_band(op, rels):
    """generic position: -tiny < e < tiny is false for an e that is not identically zero (for 'or', its negation is true)"""
    seen = {}
    for r in rels:
        p, s = r.args
        c = p.get((), 0)
        if c == 0 or abs(float(c)) >= 1e-4:
            continue
        q = {m: x for m, x in p.items() if m != ()}
        side = POS if c > 0 else NEG
        # below the upper bound / above the lower bound for 'and', the contrary for 'or'
        want = (NEG if side == NEG else POS) if op == 'and' else (POS if side == NEG else NEG)
        if want not in s or -want in s:
            continue
        k = p_key(q)
        if seen.setdefault(k, side) != side:
            return True
    return False


def _nary(op, args):
    unit, zero = (True, False) if op == 'and' else (False, True)
    out, keys = [], set()
    stack = list(args)
    while stack:
        a = stack.pop(0)
        if a.isconst:
            if a.value == zero:
                return b_const(zero)
            continue
        if a.op == op:
            stack = list(a.args) + stack
            continue
        k = a.key()
        if k in keys:
            continue
        keys.add(k)
        out.append(a)
    # merge relations of the same polynomial
    rels = {}
    rest = []
    for a in out:
        if a.op == 'rel':
            k = p_key(a.args[0])
            if k in rels:
                p, s = rels[k]
                rels[k] = (p, (s & a.args[1]) if op == 'and' else (s | a.args[1]))
            else:
                rels[k] = a.args
        else:
            rest.append(a)
    out = []
    for k, (p, s) in rels.items():
        if not s:
            if op == 'and':
                return FALSE
            continue
        if len(s) == 3:
            if op == 'or':
                return TRUE
            continue
        out.append(Bool('rel', (p, s)))
    if GENERIC[0] and len(out) > 1 and _tiny_band(op, out):
        return b_const(zero)
    out += rest
    ks = {a.key() for a in out}
    for a in out:
        if b_not(a).key() in ks:
            return b_const(zero)
    if not out:
        return b_const(unit)
    # absorption / factor:  (a & c) | (a & !c) -> a
    if op == 'or' and len(out) == 2:
        f = _factor(out[0], out[1])
        if f is not None:
            return f
    if len(out) == 1:
        return out[0]
    return Bool(op, tuple(out))


def _factor(a, b):
    sa = list(a.args) if a.op == 'and' else [a]
    sb = list(b.args) if b.op == 'and' else [b]
    ka, kb = {x.key() for x in sa}, {x.key() for x in sb}
    common = ka & kb
    if not common:
        return None
    ra = [x for x in sa if x.key() not in common]
    rb = [x for x in sb if x.key() not in common]
    cm = [x for x in sa if x.key() in common]
    if not ra or not rb:
        return b_and(*cm)
    rest = b_or(b_and(*ra), b_and(*rb))
    if rest.isconst or rest.op != 'or':
        return b_and(*(cm + [rest]))
    return None


def b_and(*a):
    return _nary('and', a)


def b_or(*a):
    return _nary('or', a)


def b_ite(c, a, b):
    if c.isconst:
        return a if c.value else b
    if a.key() == b.key():
        return a
    return b_or(b_and(c, a), b_and(b_not(c), b))


def _sign_atom(a):
    """evident strict sign of an atom, or None"""
    if a.kind == 'sym':
        return 1 if a.args[0] in POSITIVE or a.args[0] == 'pi' else None
    if a.kind in ('min', 'max', 'sqrt', 'abs', 'ite'):
        sg = [_sign_val(x) for x in a.args if isinstance(x, Num)]
        lo, hi = (-1, 1) if a.kind == 'min' else (1, -1)
        if a.kind in ('min', 'max'):
            if lo in sg:
                return lo
            return hi if sg and all(x == hi for x in sg) else None
        if a.kind == 'sqrt':
            return 1 if sg == [1] else None
        if a.kind == 'abs':
            return 1 if sg[0] is not None else None
        return sg[0] if len(sg) == 2 and sg[0] == sg[1] else None
    return None


def _sign_val(v):
    if v.d != ONE:
        a, b = _sign_known(v.n), _sign_known(v.d)
        return a * b if a and b else None
    return _sign_known(v.n)


def _sign_known(p):
    """sign of a polynomial that is evident: every monomial has the same sign under the POSITIVE symbols"""
    s = None
    for m, c in p.items():
        t = 1 if c > 0 else -1
        for x, e in m:
            g = _sign_atom(ATOMS[x])
            if g is None:
                return None
            if e % 2:
                t *= g
        if s is None:
            s = t
        elif s != t:
            return None
    return s


GENERIC = [False]


def b_rel(v, signs):
    """sign(v) in signs"""
    signs = frozenset(signs)
    a = single_atom(v) or single_atom(-v)
    if a is not None and a.kind == 'sym' and a.args[0] == 'inf':
        return b_const((POS if single_atom(v) is not None else NEG) in signs)
    p = v.n if v.d == ONE else p_mul(v.n, v.d)
    if v.d != ONE:
        r = _reduce_poly(p)
        if r is not None:
            p = r.n if r.d == ONE else p_mul(r.n, r.d)
    if not p:
        return b_const(ZERO in signs)
    if p_isconst(p):
        c = p_const(p)
        return b_const((POS if c > 0 else NEG) in signs)
    cc = _pi_const(Num(p))
    if cc is not None:
        return b_const((POS if cc > 0 else NEG if cc < 0 else ZERO) in signs)
    s = _sign_known(p)
    if s is not None:
        return b_const((POS if s > 0 else NEG) in signs)
    if GENERIC[0]:
        g = _generic_sign(p)
        if g is None:
            g = _generic_sign(p_scale(p, -1))
            g = g if g is None else -g
        if g is not None:
            return b_const(g in signs)
    l = p[p_lead(p)]
    if l < 0:
        signs = frozenset(-x for x in signs)
    p = p_scale(p, 1 / l)
    if not signs:
        return FALSE
    if len(signs) == 3:
        return TRUE
    return Bool('rel', (p, signs))


def _generic_sign(p):
    """generic position: |e| - tiny is positive for an e that is not identically zero"""
    rest = {m: c for m, c in p.items() if m != ()}
    c0 = p.get((), Fraction(0))
    if c0 < 0 and abs(float(c0)) < 1e-4 and len(rest) == 1:
        (m, c), = rest.items()
        if c > 0 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('abs', 'sqrt'):
            return POS
    if c0 < 0 and abs(float(c0)) < 1e-4 and rest and all(
            c > 0 and all(ATOMS[x].kind == 'sym' and ATOMS[x].args[0] in POSITIVE for x, e in m) for m, c in rest.items()):
        return POS
    return None


def lt(a, b):
    return b_rel(a - b, [NEG])


def le(a, b):
    return b_rel(a - b, [NEG, ZERO])


def eq(a, b):
    return b_rel(a - b, [ZERO])


# ---------------------------------------------------------------- decision diagrams: a canonical form of the conditions
#
# one level per polynomial (three signs) or atom (two truth values), in the order of their first appearance; equal conditions over
# independent signs and truth values are the same node

class _TooBig(Exception):
    pass


_LEVELS = {}        # variable -> level
_NODES = [(1 << 60, False), (1 << 60, True)]
_UNIQUE = {}
_AND = {}
_NOT = {}
_LIMIT = [0]
_MD = {}            # key of a condition -> node or None


def _md_reset():
    for d in (_LEVELS, _UNIQUE, _AND, _NOT, _MD):
        d.clear()
    del _NODES[2:]


def _mk(level, kids):
    if all(k == kids[0] for k in kids[1:]):
        return kids[0]
    k = (level, kids)
    n = _UNIQUE.get(k)
    if n is None:
        if len(_NODES) > _LIMIT[0]:
            raise _TooBig()
        n = _UNIQUE[k] = len(_NODES)
        _NODES.append(k)
    return n


def _neg(u):
    if u < 2:
        return 1 - u
    r = _NOT.get(u)
    if r is None:
        l, kids = _NODES[u]
        r = _NOT[u] = _mk(l, tuple(_neg(k) for k in kids))
        _NOT[r] = u
    return r


def _conj(u, v):
    if u == v:
        return u
    if u > v:
        u, v = v, u
    if u == 0:
        return 0
    if u == 1:
        return v
    r = _AND.get((u, v))
    if r is None:
        lu, ku = _NODES[u]
        lv, kv = _NODES[v]
        if lu == lv:
            r = _mk(lu, tuple(_conj(x, y) for x, y in zip(ku, kv)))
        elif lu < lv:
            r = _mk(lu, tuple(_conj(x, v) for x in ku))
        else:
            r = _mk(lv, tuple(_conj(u, x) for x in kv))
        _AND[(u, v)] = r
    return r


def _md(b):
    r = b._m
    if r is not None:
        if r < 0:
            raise _TooBig()
        return r
    op = b.op
    if op == 'const':
        r = 1 if b.value else 0
    elif op == 'rel':
        l = _LEVELS.setdefault(('rel', p_key(b.args[0])), len(_LEVELS))
        r = _mk(l, tuple(1 if s in b.args[1] else 0 for s in (NEG, ZERO, POS)))
    elif op == 'atom':
        l = _LEVELS.setdefault(('atom', b.args[0].id), len(_LEVELS))
        r = _mk(l, (0, 1))
    elif op == 'not':
        r = _neg(_md(b.args[0]))
    elif op == 'and':
        r = 1
        for x in b.args:
            r = _conj(r, _md(x))
    else:
        r = 1
        for x in b.args:
            r = _conj(r, _neg(_md(x)))
        r = _neg(r)
    b._m = r
    return r


def node(b, more=30000):
    """the canonical node of a condition, None where its diagram gets too big"""
    if b._m is not None:
        return b._m if b._m >= 0 else None
    _LIMIT[0] = len(_NODES) + more
    try:
        return _md(b)
    except _TooBig:
        b._m = -1
        return None


def proven_equiv(a, b, limit=60000):
    """the two conditions agree for every combination of signs and truth values"""
    if a is b:
        return True
    x = node(a)
    if x is None:
        return a.key() == b.key()
    y = node(b)
    return y is not None and x == y or y is None and a.key() == b.key()


def implied(a, b):
    """a => b for every sign assignment"""
    return proven_equiv(b_or(b_not(a), b), TRUE)


# ---------------------------------------------------------------- evaluation of formulas

class Skip(Exception):
    pass


class Fl(object):
    """an inexact real: value and a bound of its error"""
    __slots__ = ('v', 'e')

    def __init__(self, v, e=None):
        v = float(v)
        if v != v or v in (float('inf'), float('-inf')):
            raise Skip('not finite')
        self.v = v
        self.e = abs(v) * 3e-16 + 1e-300 if e is None else e

    @staticmethod
    def of(x):
        if isinstance(x, Fl):
            return x
        try:
            return Fl(x)
        except OverflowError:
            raise Skip('overflow')

    def __add__(self, o):
        o = Fl.of(o)
        v = self.v + o.v
        return Fl(v, self.e + o.e + abs(v) * 3e-16)
    __radd__ = __add__

    def __neg__(self):
        return Fl(-self.v, self.e)

    def __sub__(self, o):
        return self + (-Fl.of(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Fraction) and o == 0:
            return o
        o = Fl.of(o)
        v = self.v * o.v
        return Fl(v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e + abs(v) * 3e-16)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Fl.of(o)
        if abs(o.v) <= 2 * o.e:
            raise Skip('zero denominator')
        v = self.v / o.v
        return Fl(v, (self.e + abs(v) * o.e) / (abs(o.v) - o.e) + abs(v) * 3e-16)

    def __rtruediv__(self, o):
        return Fl.of(o) / self

    def __pow__(self, k):
        if k < 0:
            return Fl.of(1) / (self ** -k)
        r = Fl(1.0, 0.0)
        for _ in range(k):
            r = r * self
        return r

    def __abs__(self):
        return Fl(abs(self.v), self.e)

    def __float__(self):
        return self.v

    def sign(self):
        if abs(self.v) <= 2 * self.e:
            raise Skip('too close')
        return POS if self.v > 0 else NEG

    def fun(self, f, slope=1.0):
        v = f(self.v)
        return Fl(v, self.e * slope + abs(v) * 1e-15 + 1e-16)


def _cmp(x, y):
    """sign of x - y"""
    d = x - y
    if isinstance(d, Fl):
        return 1 if d.sign() == POS else -1
    return (d > 0) - (d < 0)


def _exact_or_clear(x, f):
    """f (a step function with steps at integers) of x"""
    if isinstance(x, Fl):
        if abs(x.v - round(x.v)) <= 2 * x.e + 1e-12:
            raise Skip('at a step')
        return Fraction(f(x.v))
    return Fraction(f(x))


class Valuation(object):
    """values for the symbols (and for the elements of abstract collections) of a formula"""

    def __init__(self, rng, style, bases=None, fixed=None):
        self.rng, self.style = rng, style
        self.v = dict(fixed or {})
        self.inst = {}
        self.stack = []
        self.opaque = {}
        self.chain = False

    def draw(self, name=None):
        r = self.rng
        if name in POSITIVE:
            return Fraction(r.randint(1, 60), r.choice([1, 2, 4]))
        if self.style == 'int':
            return Fraction(r.randint(-2, 2))
        if self.style == 'half':
            return Fraction(r.randint(-6, 6), 2)
        if self.style == 'big':
            return Fraction(r.randint(-10 ** 13, 10 ** 13), 7)
        return Fraction(r.randint(-1000, 1000), r.choice([8, 10, 16]))

    def sym(self, name):
        if name == 'pi':
            return Fl(math.pi)
        if name == 'inf':
            raise Skip('infinite')
        # symbols of collection elements are written  base[tag].rest
        if '[' in name:
            base, rest = name.split('[', 1)
            tag, rest = rest.split(']', 1)
            if tag in ('first', 'last'):
                self.instances(base + '@e')
                el = self.inst[base][0 if tag == 'first' else -1]
                if rest not in el:
                    el[rest] = self.draw(name)
                return el[rest]
            for scope in reversed(self.stack):
                el = scope.get((base, tag))
                if el is not None:
                    if self.chain and rest.startswith('.j.') and el.get('#next') is not None:
                        el, rest = el['#next'], '.i.' + rest[3:]
                    if rest not in el:
                        el[rest] = self.draw(name)
                    return el[rest]
        if name not in self.v:
            self.v[name] = self.draw(name)
        return self.v[name]

    def num(self, x):
        n = self._poly(x.n)
        if x.d == ONE:
            return n
        d = self._poly(x.d)
        if not isinstance(d, Fl) and d == 0:
            raise Skip('zero denominator')
        return n / d

    def _poly(self, p):
        t = Fraction(0)
        for m, c in p.items():
            v = c
            for x, e in m:
                a = self.atom(ATOMS[x])
                try:
                    v = v * a ** e
                except (OverflowError, TypeError):
                    raise Skip('overflow')
            t = t + v
        return t

    def atom(self, a):
        k = a.kind
        if k == 'sym':
            return self.sym(a.args[0])
        if k == 'sqrt':
            v = self.num(a.args[0])
            if not isinstance(v, Fl):
                if v < 0:
                    raise Skip('sqrt of negative')
                rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if rn * rn == v.numerator and rd * rd == v.denominator:
                    return Fraction(rn, rd)
                v = Fl.of(v)
            if v.v + 2 * v.e < 0:
                raise Skip('sqrt of negative')
            if v.v - 2 * v.e <= 0:
                return Fl(math.sqrt(max(v.v, 0.0)), math.sqrt(abs(v.v) + 2 * v.e))
            return v.fun(math.sqrt, .5 / math.sqrt(v.v - v.e))
        if k == 'abs':
            return abs(self.num(a.args[0]))
        if k == 'sin':
            return Fl.of(self.num(a.args[0])).fun(math.sin)
        if k == 'cos':
            return Fl.of(self.num(a.args[0])).fun(math.cos)
        if k == 'tan':
            v = Fl.of(self.num(a.args[0]))
            c = abs(math.cos(v.v))
            if c < 1e-3:
                raise Skip('tan')
            return v.fun(math.tan, 1.1 / c ** 2)
        if k in ('acos', 'asin'):
            v = Fl.of(self.num(a.args[0]))
            if abs(v.v) > 1 + 2 * v.e:
                raise Skip(k)
            f = math.acos if k == 'acos' else math.asin
            w = 1 - v.v * v.v
            x = max(-1.0, min(1.0, v.v))
            if w <= 4 * v.e:
                return Fl(f(x), math.sqrt(8 * v.e + 1e-15))
            return Fl(f(x), v.e * 1.5 / math.sqrt(w) + 1e-15)
        if k == 'atan2':
            y, x = self.num(a.args[0]), self.num(a.args[1])
            if isinstance(y, Fl) and abs(y.v) <= 2 * y.e and (x.v if isinstance(x, Fl) else x) <= 0:
                raise Skip('branch cut')
            ex, ey = Fl.of(x), Fl.of(y)
            r = math.hypot(ex.v, ey.v)
            if r == 0:
                return Fraction(0)
            return Fl(math.atan2(ey.v, ex.v), (abs(ex.v) * ey.e + abs(ey.v) * ex.e) / r / r * 1.1 + 1e-15)
        if k == 'hypot':
            y, x = Fl.of(self.num(a.args[0])), Fl.of(self.num(a.args[1]))
            return Fl(math.hypot(y.v, x.v), y.e + x.e + 1e-15 * math.hypot(y.v, x.v))
        if k in ('min', 'max'):
            return self._pick([self.num(x) for x in a.args], k)
        if k == 'mod':
            x, y = self.num(a.args[0]), self.num(a.args[1])
            if not isinstance(y, Fl) and y == 0:
                raise Skip('mod 0')
            return x - y * _exact_or_clear(x / y, math.floor)
        if k == 'floordiv':
            x, y = self.num(a.args[0]), self.num(a.args[1])
            if not isinstance(y, Fl) and y == 0:
                raise Skip('div 0')
            return _exact_or_clear(x / y, math.floor)
        if k == 'int':
            return _exact_or_clear(self.num(a.args[0]), int)
        if k == 'round':
            x = self.num(a.args[0])
            if isinstance(x, Fl):
                n = a.args[1]
                n = n if isinstance(n, int) else 0
                return Fl(x.v, x.e + .6 * 10.0 ** -n)
            return Fraction(round(x, a.args[1]))
        if k == 'ite':
            return self.num(a.args[1]) if self.bool(a.args[0]) else self.num(a.args[2])
        if k in ('aggsum', 'aggmin', 'aggmax', 'aggcount'):
            base, guard, val = a.args
            vals = []
            scopes = self.instances(base)
            if base.endswith('~'):
                # the distinct end points of an open chain
                if k == 'aggcount':
                    return Fraction(len(scopes) + 1, 2)
                kinds = {x.split(']')[1].split('.')[1] for x in sym_names(val) if ']' in x}
                if kinds == {'j'}:
                    scopes = scopes[-1:]
                elif kinds != {'i'} or not guard.isconst:
                    raise Skip('distinct')
            for scope in scopes:
                self.stack.append(scope)
                try:
                    if self.bool(guard):
                        vals.append(self.num(val))
                finally:
                    self.stack.pop()
            if k in ('aggsum', 'aggcount'):
                return sum(vals, Fraction(0))
            if not vals:
                raise Skip('empty')
            return self._pick(vals, k[3:])
        if k in ('opaque', 'rand'):
            key = (k,) + tuple(str(x) for x in a.args)
            if key not in self.opaque:
                self.opaque[key] = self.draw()
            return self.opaque[key]
        raise Skip('no evaluation for %s' % k)

    def _pick(self, vals, k):
        best = vals[0]
        for x in vals[1:]:
            d = x - best
            if isinstance(d, Fl):
                if abs(d.v) <= 2 * d.e:
                    best = Fl(Fl.of(best).v, max(Fl.of(best).e, Fl.of(x).e) + abs(d.v))
                    continue
                d = d.v
            if d < 0 if k == 'min' else d > 0:
                best = x
        return best

    def instances(self, base):
        """the elements of an abstract collection in this valuation: 1..4 of them.
        base is  name@tag  (each element), name:pairs (neighbours) or name:cyc (neighbours, cyclic)"""
        base = base.rstrip('~')
        if ':' in base:
            b0, kind = base.split(':')
        else:
            b0, kind = base.split('@')
        if b0 not in self.inst:
            n = self.rng.choice([1, 2, 2, 3, 3, 4])
            self.inst[b0] = [{} for _ in range(n)]
            for x, y in zip(self.inst[b0], self.inst[b0][1:]):
                x['#next'] = y
        els = self.inst[b0]
        n = len(els)
        if kind == 'pairs':
            return [{(b0, 'cur'): els[i], (b0, 'next'): els[i + 1]} for i in range(n - 1)]
        if kind == 'cyc':
            return [{(b0, 'cur'): els[i], (b0, 'next'): els[(i + 1) % n]} for i in range(n)]
        return [{(b0, kind): e} for e in els]

    def bool(self, b):
        if b.op == 'const':
            return b.value
        if b.op == 'rel':
            v = self._poly(b.args[0])
            if isinstance(v, Fl):
                s = v.sign()        # inexact: a value close to zero decides nothing
            else:
                s = POS if v > 0 else NEG if v < 0 else ZERO
                if s == ZERO and _tiny_const(b.args[0]):
                    raise Skip('on a tolerance limit')
            return s in b.args[1]
        if b.op == 'not':
            return not self.bool(b.args[0])
        if b.op == 'and':
            return all(self.bool(a) for a in b.args)
        if b.op == 'or':
            return any(self.bool(a) for a in b.args)
        a = b.args[0]
        if a.kind == 'exists':
            base, f = a.args
            for scope in self.instances(base):
                self.stack.append(scope)
                try:
                    if self.bool(f):
                        return True
                finally:
                    self.stack.pop()
            return False
        key = ('b', a.id)
        if key not in self.opaque:
            self.opaque[key] = self.rng.choice([True, False])
        return self.opaque[key]


def _tiny_const(p):
    c = p.get((), 0)
    return c != 0 and abs(float(c)) < 1e-4 and len(p) > 1


def sym_names(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, Num):
        for x in v.atoms():
            a = ATOMS[x]
            if a.kind == 'sym':
                acc.add(a.args[0])
            else:
                for y in a.args:
                    sym_names(y, acc)
    elif isinstance(v, Bool):
        if v.op == 'rel':
            sym_names(Num(v.args[0]), acc)
        elif v.op == 'atom':
            for y in v.args[0].args:
                sym_names(y, acc)
        elif v.op != 'const':
            for y in v.args:
                sym_names(y, acc)
    return acc


def rels_of(v, acc=None):
    """all polynomials compared with zero somewhere in v"""
    acc = [] if acc is None else acc
    if isinstance(v, Num):
        for x in v.atoms():
            for y in ATOMS[x].args:
                if isinstance(y, (Num, Bool)):
                    rels_of(y, acc)
    elif isinstance(v, Bool):
        if v.op == 'rel':
            if not any(p_key(v.args[0]) == p_key(q) for q in acc):
                acc.append(v.args[0])
            rels_of(Num(v.args[0]), acc)
        elif v.op == 'atom':
            for y in v.args[0].args:
                if isinstance(y, (Num, Bool)):
                    rels_of(y, acc)
        elif v.op != 'const':
            for y in v.args:
                rels_of(y, acc)
    return acc


def valuations(items, seed, n, assume=TRUE, fixed=None):
    """valuations for the symbols of `items`: random ones, small integers, and ones that put a compared
    polynomial on or next to its zero"""
    rng = random.Random(seed)
    styles = ['int', 'half', 'wide', 'int', 'half', 'wide', 'big']
    names = set()
    rels = []
    for it in items:
        sym_names(it, names)
        rels_of(it, rels)
    plain = sorted(x for x in names if '[' not in x and x not in ('pi', 'inf') and x not in (fixed or {}))
    chain = any(_mentions_base(it, '~') for it in items)
    # end points that can be made to (nearly) coincide: symbols that differ in their prefix only
    byprefix = {}
    for x in plain:
        if '.' in x:
            byprefix.setdefault(x.rsplit('.', 1)[0], set()).add(x.rsplit('.', 1)[1])
    points = sorted(p for p, c in byprefix.items() if c == {'x', 'y'})
    # objects of the same make: points whose names differ in the leading letters only
    byobj = {}
    for x in points:
        head = x.rstrip('0123456789') if '.' not in x else x.split('.', 1)[0].rstrip('0123456789')
        byobj.setdefault(head, set()).add(x[len(head):])
    heads = sorted(h for h in byobj if h)
    near = [Fraction(0), Fraction(0), Fraction(5, 10 ** 9), Fraction(4, 10 ** 7), Fraction(4, 10 ** 6), Fraction(2, 10 ** 5),
            Fraction(1, 10 ** 3), Fraction(1, 10), Fraction(1)]
    for i in range(n):
        val = Valuation(rng, styles[i % len(styles)], fixed=fixed)
        val.chain = chain
        if len(points) > 1 and i % 3 == 0:
            for _ in range(rng.choice([1, 1, 2])):
                p, q = rng.sample(points, 2)
                d = rng.choice(near)
                for c in 'xy':
                    val.v[q + '.' + c] = val.sym(p + '.' + c) + rng.choice([-1, 0, 1]) * rng.choice([d, d, rng.choice(near)])
        elif len(points) > 1 and i % 6 == 4:
            # a nearly axis-parallel pair of points
            p, q = rng.sample(points, 2)
            c, o = rng.choice(['xy', 'yx'])
            d, e = rng.choice([(Fraction(5, 10 ** 9), Fraction(4000)), (rng.choice(near), rng.choice([Fraction(1, 10), Fraction(1, 3), Fraction(3, 2)]))])
            val.v[q + '.' + c] = val.sym(p + '.' + c) + rng.choice([-1, 1]) * d
            val.v[q + '.' + o] = val.sym(p + '.' + o) + rng.choice([-1, 1]) * e
        elif len(heads) > 1 and i % 6 == 1:
            # two objects in (nearly) the same place
            a, b = rng.sample(heads, 2)
            for t in sorted(byobj[a] & byobj[b]):
                for c in 'xy':
                    val.v[b + t + '.' + c] = val.sym(a + t + '.' + c) + rng.choice([0, 0, 0, 1]) * rng.choice(near[:4])
            if rng.random() < .7:
                yield val
                continue
        if rels and plain and i % 2:
            # solve one compared polynomial for a symbol it is linear in
            p = _branch(rng.choice(rels), rng)
            cand = [x for x in plain if x in sym_names(Num(p))]
            rng.shuffle(cand)
            for s in cand:
                sid = _SYMS[s].id
                if any(x == sid and e > 1 for m in p for x, e in m):
                    continue
                if any(ATOMS[x].kind != 'sym' and s in sym_names(Num({((x, 1),): Fraction(1)})) for m in p for x, e in m):
                    continue
                a = {tuple(t for t in m if t[0] != sid): c for m, c in p.items() if any(t[0] == sid for t in m)}
                b = {m: c for m, c in p.items() if not any(t[0] == sid for t in m)}
                try:
                    av, bv = val._poly(a), val._poly(b)
                    if isinstance(av, Fl) or isinstance(bv, Fl):
                        if isinstance(av, Fl):
                            av.sign()
                        av, bv = Fraction(float(av)), Fraction(float(bv))
                    if av == 0:
                        continue
                    delta = rng.choice([0, 0, 0, Fraction(1, 10 ** 9), -Fraction(1, 10 ** 9), Fraction(1, 10 ** 6),
                                        -Fraction(1, 10 ** 6), Fraction(1, 10 ** 4), -Fraction(1, 10 ** 4),
                                        Fraction(1, 2), -Fraction(1, 2)])
                    x = (delta - bv) / av
                    if s in POSITIVE and x <= 0:
                        continue
                    val.v[s] = x
                except (Skip, KeyError, ZeroDivisionError, OverflowError, ValueError):
                    continue
                break
        yield val


def _mentions_base(v, mark):
    if isinstance(v, Num):
        return any(_atom_mentions(ATOMS[x], mark) for x in v.atoms())
    if isinstance(v, Bool):
        if v.op == 'rel':
            return _mentions_base(Num(v.args[0]), mark)
        if v.op == 'atom':
            return _atom_mentions(v.args[0], mark)
        if v.op == 'const':
            return False
        return any(_mentions_base(x, mark) for x in v.args)
    return False


def _atom_mentions(a, mark):
    return any(isinstance(x, str) and a.kind.startswith('agg') and mark in x or isinstance(x, (Num, Bool)) and _mentions_base(x, mark)
               for x in a.args)


def _branch(p, rng):
    """p with every abs/min/max in it replaced by one of its branches"""
    out = Num({(): Fraction(0)}, ONE)
    hit = False
    for m, c in p.items():
        t = Num({(): c}, ONE)
        for x, e in m:
            a = ATOMS[x]
            v = of(a)
            if a.kind == 'abs':
                v, hit = (a.args[0] if rng.random() < .5 else -a.args[0]), True
            elif a.kind in ('min', 'max'):
                v, hit = rng.choice(a.args), True
            t = t * v ** e
        out = out + t
    if not hit:
        return p
    return out.n


def opaque_atoms(v, acc=None):
    """identities of the uninterpreted parts of v"""
    acc = set() if acc is None else acc
    if isinstance(v, Num):
        for x in v.atoms():
            a = ATOMS[x]
            if a.kind in ('opaque', 'rand'):
                acc.add(x)
            for y in a.args:
                if isinstance(y, (Num, Bool)):
                    opaque_atoms(y, acc)
    elif isinstance(v, Bool):
        if v.op == 'rel':
            opaque_atoms(Num(v.args[0]), acc)
        elif v.op == 'atom':
            if v.args[0].kind != 'exists':
                acc.add(v.args[0].id)
            for y in v.args[0].args:
                if isinstance(y, (Num, Bool)):
                    opaque_atoms(y, acc)
        elif v.op != 'const':
            for y in v.args:
                opaque_atoms(y, acc)
    return acc


def find_difference(a, b, assume=TRUE, seed=1, n=600, fixed=None):
    """a valuation under which a and b differ, as text; None when none was found"""
    if opaque_atoms(a) != opaque_atoms(b):
        return None        # an uninterpreted part stands for an unknown value: a difference proves nothing
    for val in valuations([a, b, assume], seed, n, fixed=fixed):
        try:
            if not val.bool(assume):
                continue
            if isinstance(a, Bool):
                x, y = val.bool(a), val.bool(b)
                if x != y:
                    return _show(val, x, y)
            else:
                x, y = val.num(a), val.num(b)
                d = x - y
                if isinstance(d, Fl):
                    bad = abs(d.v) > 4 * d.e + 2e-8 + 1e-9 * max(abs(float(x)), abs(float(y)))
                else:
                    bad = d != 0 and abs(float(d)) > 2e-8
                if bad:
                    return _show(val, x, y)
        except (Skip, KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
    return None


def _f(x):
    if isinstance(x, bool):
        return str(x)
    return '%.9g' % float(x)


def _show(val, x, y):
    s = ', '.join('%s=%s' % (k, _f(v)) for k, v in sorted(val.v.items()))
    for b, els in sorted(val.inst.items()):
        for i, e in enumerate(els):
            t = ', '.join('%s[%d]%s=%s' % (b, i, k, _f(v)) for k, v in sorted(e.items()))
            if t:
                s += '; ' + t
    return 'at {%s}: source gives %s, required %s' % (s, _f(x), _f(y))
