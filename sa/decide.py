# -*- coding: utf-8 -*-
"""
Decision of conditions on normal forms by sign regions.

The comparisons in a formula that share a base polynomial q (q itself, q + constant, |q| + constant,
sqrt(q) + constant) partition the line of values of q into finitely many regions, and on each region all of them are
constant.  A formula is valid when it is on every region of every base; where a region is a single value and q is
linear in a symbol, the equation is substituted.  No search for models, no solver: a finite case table.
"""
from fractions import Fraction

from . import alg
from .alg import (ATOMS, Num, Bool, TRUE, FALSE, ONE, POS, NEG, ZERO, Undecided, num, of, single_atom, b_and, b_or, b_not,
                  p_key, p_lead, p_scale, p_isconst)


class Budget(Exception):
    pass


def _const(c):
    return Num({(): Fraction(c)}, ONE)


class Rewriter(object):
    """rebuilds a formula bottom up; `atomf(atom)` may give a Num for an atom, `relf(p, signs)` a Bool for a comparison"""

    def __init__(self, atomf=None, relf=None):
        self.atomf, self.relf = atomf, relf
        self.memo = {}

    def num(self, v):
        n = self.poly(v.n)
        if v.d == ONE:
            return n
        d = self.poly(v.d)
        if not d.n:
            return of(alg.atom('opaque', 'undefined'))      # a quotient that is not reached in this case
        return n / d

    def poly(self, p):
        keep, hit = {}, []
        for m, c in p.items():
            if any(self.atom(x) is not None for x, e in m):
                hit.append((m, c))
            else:
                keep[m] = c
        if not hit:
            return Num(p, ONE)
        t = Num(keep, ONE)
        for m, c in hit:
            f = Num({tuple((x, e) for x, e in m if self.atom(x) is None): c}, ONE)
            for x, e in m:
                r = self.atom(x)
                if r is not None:
                    f = f * r ** e
            t = t + f
        return t

    def atom(self, x):
        """None when unchanged"""
        if x in self.memo:
            return self.memo[x]
        a = ATOMS[x]
        r = self.atomf(a) if self.atomf else None
        if r is None and a.kind != 'sym':
            args = []
            ch = False
            for y in a.args:
                if isinstance(y, Num):
                    z = self.num(y)
                    ch = ch or not z.eq(y)
                elif isinstance(y, Bool):
                    z = self.bool(y)
                    ch = ch or z.key() != y.key()
                else:
                    z = y
                args.append(z)
            if ch:
                r = mk(a.kind, args)
        self.memo[x] = r
        return r

    def bool(self, b):
        if b.op == 'const':
            return b
        if b.op == 'rel':
            p, s = b.args
            if self.relf:
                r = self.relf(p, s)
                if r is not None:
                    return r
            q = self.poly(p)
            if q.d == ONE and q.n is p:
                return b
            return alg.b_rel(q, s)
        if b.op == 'not':
            return b_not(self.bool(b.args[0]))
        if b.op == 'and':
            return b_and(*[self.bool(x) for x in b.args])
        if b.op == 'or':
            return b_or(*[self.bool(x) for x in b.args])
        a = b.args[0]
        args = [self.num(y) if isinstance(y, Num) else self.bool(y) if isinstance(y, Bool) else y for y in a.args]
        if a.kind == 'exists' and args[1].isconst:
            return args[1]
        return alg.b_atom(a.kind, *args)


def mk(kind, args):
    if kind == 'sqrt':
        return alg.sqrt_(args[0])
    if kind == 'abs':
        return alg.abs_(args[0])
    if kind == 'sin':
        return alg.sin_(args[0])
    if kind == 'cos':
        return alg.cos_(args[0])
    if kind == 'acos':
        return alg.acos_(args[0])
    if kind in ('min', 'max'):
        return alg.minmax(kind, args)
    if kind == 'ite':
        c, a, b = args
        if c.isconst:
            return a if c.value else b
        if a.eq(b):
            return a
    return of(alg.atom(kind, *args))


def base_of(p):
    """(base key, base polynomial, form, k, c):  p == k * form(base) + c"""
    c = p.get((), Fraction(0))
    q = {m: x for m, x in p.items() if m != ()}
    if len(q) == 1:
        (m, k), = q.items()
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind in ('abs', 'sqrt') and a.args[0].d == ONE:
                n = a.args[0].n
                c0 = n.get((), Fraction(0))
                n1 = {x: y for x, y in n.items() if x != ()}
                l = n1[p_lead(n1)]
                n2 = p_scale(n1, 1 / l)
                return p_key(n2), n2, (a.kind, l, c0), k, c
    l = q[p_lead(q)]
    return p_key(p_scale(q, 1 / l)), p_scale(q, 1 / l), None, l, c


def thresholds(form, k, c):
    t = -Fraction(c) / Fraction(k)
    if form is None:
        return [t]
    kind, l, c0 = form
    inv = lambda y: (y - Fraction(c0)) / Fraction(l)
    if kind == 'abs':
        return [inv(0)] + ([inv(t), inv(-t)] if t > 0 else [])
    return [inv(0)] + ([inv(t * t)] if t > 0 else [])


def evaluate(form, k, c, x):
    """sign of k*form(x)+c, None when the form is not defined at x"""
    t = -Fraction(c) / Fraction(k)
    if form is None:
        d = x - t
    else:
        kind, l, c0 = form
        y = l * x + c0
        if kind == 'abs':
            d = abs(y) - t
        else:
            if y < 0:
                return None
            d = Fraction(1) if t < 0 else y - t * t
    if k < 0:
        d = -d
    return POS if d > 0 else NEG if d < 0 else ZERO


def rels_in(x, acc):
    """comparisons in x that can be decided one by one (not inside quantified parts)"""
    if isinstance(x, Num):
        for i in x.atoms():
            a = ATOMS[i]
            if a.kind.startswith('agg'):
                continue
            for y in a.args:
                if isinstance(y, (Num, Bool)):
                    rels_in(y, acc)
    elif x.op == 'rel':
        acc.append(x)
        rels_in(Num(x.args[0], ONE), acc)
    elif x.op in ('and', 'or', 'not'):
        for y in x.args:
            rels_in(y, acc)
    return acc


def choices_in(x, acc):
    """min and max atoms in x (not inside quantified parts)"""
    if isinstance(x, Num):
        for i in x.atoms():
            a = ATOMS[i]
            if a.kind.startswith('agg'):
                continue
            if a.kind in ('min', 'max'):
                acc[i] = a
            for y in a.args:
                if isinstance(y, (Num, Bool)):
                    choices_in(y, acc)
    elif x.op == 'rel':
        choices_in(Num(x.args[0], ONE), acc)
    elif x.op in ('and', 'or', 'not'):
        for y in x.args:
            choices_in(y, acc)
    return acc


def differences(a):
    """[(i, j, base key, base, k, c)] for the pairs of arguments of a min or max"""
    out = []
    for i in range(len(a.args)):
        for j in range(i):
            d = a.args[i] - a.args[j]
            if d.d == ONE and d.n and not p_isconst(d.n) and not any(isinstance(c, float) for c in d.n.values()):
                try:
                    key, q, form, k, c = base_of(d.n)
                except (Undecided, ValueError, KeyError):
                    continue
                if form is None:
                    out.append((i, j, key, q, k, c, d.n))
    return out


def nonneg(p):
    """the polynomial cannot be negative: a sum of squares and absolute values with positive coefficients"""
    for m, c in p.items():
        if c < 0:
            return False
        for x, e in m:
            if e % 2 and ATOMS[x].kind not in ('abs', 'sqrt') and not (
                    ATOMS[x].kind == 'sym' and ATOMS[x].args[0] in alg.POSITIVE):
                return False
    return True


def linear_symbol(q):
    """a symbol that occurs in q only linearly with a constant coefficient: (symbol atom, coefficient, rest)"""
    for m, c in sorted(q.items(), key=lambda t: repr(t[0])):
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym' and ATOMS[m[0][0]].args[0] not in ('pi', 'inf'):
            i = m[0][0]
            if any(i in deep_atoms(n) for n in q if n != m):
                continue
            return ATOMS[i], c, {n: k for n, k in q.items() if n != m}
    return None


def deep_atoms(m):
    acc = set()
    stack = [x for x, e in m]
    while stack:
        x = stack.pop()
        if x in acc:
            continue
        acc.add(x)
        for y in ATOMS[x].args:
            if isinstance(y, Num):
                stack.extend(y.atoms())
            elif isinstance(y, Bool):
                for r in rels_in(y, []):
                    stack.extend(Num(r.args[0], ONE).atoms())
    return acc


def tidy(b, env=None):
    """literals that a sibling already decides are removed:  x or (not x and y)  is  x or y"""
    env = env or {}
    if b.op == 'rel':
        k = p_key(b.args[0])
        if k in env:
            s = b.args[1] & env[k]
            if not s:
                return FALSE
            if env[k] <= b.args[1]:
                return TRUE
            if s != b.args[1]:
                return Bool('rel', (b.args[0], frozenset(s)))
        return b
    if b.op == 'not':
        return b_not(tidy(b.args[0], env))
    if b.op in ('and', 'or'):
        full = frozenset([NEG, ZERO, POS])
        inner = dict(env)
        lits = []
        rest = []
        for x in b.args:
            (lits if x.op == 'rel' else rest).append(x)
        lits = [tidy(x, env) for x in lits]
        for x in lits:
            if x.op == 'rel':
                k = p_key(x.args[0])
                s = x.args[1] if b.op == 'and' else full - x.args[1]
                inner[k] = inner.get(k, full) & s
        rest = [tidy(x, inner) for x in rest]
        r = (b_and if b.op == 'and' else b_or)(*(lits + rest))
        if any(x.op == 'rel' for x in rest) and r.op == b.op:
            return tidy(r, env)
        return r
    return b


def rew(rw, x):
    return rw.num(x) if isinstance(x, Num) else rw.bool(x)


class Prover(object):
    def __init__(self, budget=4000):
        self.budget = budget
        self.memo = set()

    def spend(self, items):
        n = 0
        for x in items:
            n += len(rels_in(x, []))
        self.budget -= 1 + n / 10
        if self.budget < 0:
            raise Budget()

    def groups(self, items):
        out = {}
        rels = []
        for x in items:
            rels_in(x, rels)
        for r in rels:
            p = r.args[0]
            try:
                if any(isinstance(c, float) for c in p.values()):
                    continue
                if any(ATOMS[i].kind == 'ite' for m in p for i, e in m):
                    continue        # decided by the comparisons inside
                if any(ATOMS[i].kind in ('min', 'max') and differences(ATOMS[i]) for m in p for i, e in m):
                    continue        # decided by the order of the arguments
                key, q, form, k, c = base_of(p)
            except (Undecided, ValueError, KeyError):
                continue
            out.setdefault(key, (q, {}))[1][p_key(p)] = (p, form, k, c)
        for x in items:
            for a in choices_in(x, {}).values():
                for i, j, key, q, k, c, p in differences(a):
                    out.setdefault(key, (q, {}))[1][('pair',) + p_key(p)] = (p, None, k, c)
        return out

    def split(self, assume, facts, a, b):
        """the cases of one base polynomial of the comparisons; None when there is none to split on"""
        groups = None
        for items in ([a, b], [assume]):
            if items[0] is a and not isinstance(a, Num) and a.isconst and b.isconst:
                continue
            groups = self.groups(items)
            if groups:
                break
        if not groups:
            return None
        every = self.groups([assume, a, b] + facts)

        order = {k: i for i, k in enumerate(groups)}

        def prio(key):
            q, rs = every[key]
            return (not any(f and f[0] == 'sqrt' for p, f, k, c in rs.values()), order[key])
        key = sorted(groups, key=prio)[0]
        q, rs = every[key]
        ths = set()
        for p, form, k, c in rs.values():
            ths.update(thresholds(form, k, c))
        ths = sorted(ths)
        regions = [('open', ths[0] - 1, None, ths[0])]
        for x, y in zip(ths, ths[1:] + [None]):
            regions.append(('point', x, x, x))
            regions.append(('open', (x + y) / 2 if y is not None else x + 1, x, y))
        paired = any(k[0] == 'pair' for k in rs)
        out = []
        merged = {}
        for kind, x, lo, hi in regions:
            if nonneg(q) and x < 0:
                continue
            ev = {}
            for pk, (p, form, k, c) in rs.items():
                ev[pk] = evaluate(form, k, c, x)
            if None in ev.values():
                continue

            def relf(p, s, ev=ev):
                v = ev.get(p_key(p))
                return None if v is None else alg.b_const(v in s)

            def pick(at, x=x):
                if at.kind not in ('min', 'max'):
                    return None
                drop = set()
                for i, j, dk, dq, k, c, p in differences(at):
                    if dk == key:
                        sg = evaluate(None, k, c, x)      # sign of args[i] - args[j]
                        big = i if sg == POS else j
                        small = j if big == i else i
                        drop.add(big if at.kind == 'min' else small)
                if not drop:
                    return None
                return alg.minmax(at.kind, [y for i, y in enumerate(at.args) if i not in drop])
            rw = Rewriter(pick, relf)
            new = [rew(rw, assume), rew(rw, a), rew(rw, b)]
            fnew = [rew(rw, f) for f in facts]
            if any(f.isconst and not f.value for f in fnew):
                continue
            nk = tuple(y.key() for y in new + fnew)
            m = merged.setdefault(nk, (new, {}, [], fnew))
            m[2].append((kind, x, lo, hi))
            for pk, (p, form, k, c) in rs.items():
                if form and form[0] == 'sqrt':
                    m[1].setdefault(pk, (p, set()))[1].add(ev[pk])
        for new, fs, regs, fnew in merged.values():
            ls = linear_symbol(q) if all(r[0] == 'point' for r in regs) else None
            if ls is not None:
                for kind, x, lo, hi in regs:
                    at, c, rest = ls
                    val = (_const(x) - Num(rest, ONE)) / _const(c)
                    rw = Rewriter(lambda y, at=at, val=val: val if y is at else None, None)
                    n2 = [rew(rw, y) for y in new]
                    out.append((n2[0], [rew(rw, y) for y in fnew], n2[1], n2[2]))
                continue
            f2 = fnew + [Bool('rel', (p, frozenset(sg))) for p, sg in fs.values() if len(sg) < 3]
            if paired:
                lo, hi = regs[0][2], regs[-1][3]
                if lo is not None:
                    f2.append(alg.b_rel(Num(q, ONE) - _const(lo), [POS] if regs[0][0] == 'open' else [POS, ZERO]))
                if hi is not None:
                    f2.append(alg.b_rel(Num(q, ONE) - _const(hi), [NEG] if regs[-1][0] == 'open' else [NEG, ZERO]))
            out.append((new[0], f2, new[1], new[2]))
        return out

    def prove(self, assume, facts, a, b):
        """a is b wherever assume and all the facts hold"""
        if assume.isconst and not assume.value or any(f.isconst and not f.value for f in facts):
            return True
        if isinstance(a, Num):
            if a.eq(b):
                return True
        else:
            a, b = tidy(a), tidy(b)
            if a.key() == b.key():
                return True
        assume = tidy(assume)
        facts = [f for f in facts if not f.isconst]
        k = (assume.key(), a.key(), b.key(), tuple(f.key() for f in facts))
        if k in self.memo:
            return True
        self.spend([assume, a, b])
        try:
            cs = self.split(assume, facts, a, b)
        except (Undecided, ZeroDivisionError, OverflowError):
            return False
        if cs is None:
            if isinstance(a, Num):
                return False
            return alg.proven_equiv(b_and(assume, a), b_and(assume, b), 2000)
        for c in cs:
            if not self.prove(*c):
                return False
        self.memo.add(k)
        return True


def valid(b, budget=4000):
    return equiv(TRUE, b, TRUE, budget)


def equal(assume, a, b, budget=4000):
    was = alg.PLAIN_ATOMS[0]
    alg.PLAIN_ATOMS[0] = True
    try:
        return Prover(budget).prove(assume, [], a, b)
    except (Budget, RecursionError):
        return False
    finally:
        alg.PLAIN_ATOMS[0] = was


equiv = equal
