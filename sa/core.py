# -*- coding: utf-8 -*-
"""
Obligations, comparison of abstract values with their specification, reporting.

A rule produces obligations.  Each is tied to a construct of the repository (module, function, line) and ends as
    ok         decided: holds
    violation  decided: broken, with the construct and a witness or the offending path
    undecided  the analysis does not cover what the code does there (reported in the evidence, never an alarm)
"""
import ast
import json
import os
import sys
import signal
import time
import traceback

from . import alg, decide, model, vn
from .alg import TRUE, FALSE, Bool, Num, Undecided, num, sym
from .model import AnchorMissing, Func, Cls, ConstExpr
from .vn import Interp, State, Frame, Tup, Phi, Ref, LRef, DRef, LRec, DRec, Rec, Gen, GItem, Shift, Top, PyRaise, Fn, SymDict

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Ob(object):
    def __init__(self, rule, where, status, detail='', construct=None):
        self.rule, self.where, self.status, self.detail = rule, where, status, detail
        self.construct = construct or where

    @property
    def key(self):
        return '%s %s' % (self.rule, self.construct)


class Ctx(object):
    def __init__(self, prop, tier='quick', seed=1, program=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.P = program or model.Program()
        self.obs = []
        self.functions = set()      # functions of the repository whose bodies were analysed
        self.sites = 0              # call sites / statements inspected by site rules
        self.notes = []
        self._spec = None
        self.samples = 300 if tier == 'quick' else 2500
        self.cases = 3000 if tier == 'quick' else 20000
        self.budget = 3000000 if tier == 'quick' else 20000000
        self.calls = set()
        self.each = 150 if tier == 'quick' else 900     # seconds for one obligation

    # ------------------------------------------------------------ reporting
    def ok(self, rule, where, detail='', construct=None):
        self.obs.append(Ob(rule, where, 'ok', detail, construct))

    def bad(self, rule, where, detail, construct=None):
        self.obs.append(Ob(rule, where, 'violation', detail, construct))

    def und(self, rule, where, detail, construct=None):
        self.obs.append(Ob(rule, where, 'undecided', detail, construct))

    def where(self, f):
        if isinstance(f, Func):
            self.functions.add(f.id)
            return '%s:%d %s' % (os.path.relpath(f.module.path, self.P.root), f.node.lineno, f.qual)
        if isinstance(f, ConstExpr):
            return '%s:%d' % (os.path.relpath(f.module.path, self.P.root), f.node.lineno)
        if isinstance(f, Cls):
            return '%s:%d %s' % (os.path.relpath(f.module.path, self.P.root), f.node.lineno, f.name)
        return str(f)

    def at(self, func, node):
        self.functions.add(func.id)
        return '%s:%d %s' % (os.path.relpath(func.module.path, self.P.root), getattr(node, 'lineno', 0), func.qual)

    # ------------------------------------------------------------ spec functions
    def spec(self, src):
        """a specification: python expressions over coordinates, value numbered by the same engine"""
        m = SpecModule(self.P, src)
        return m

    def guard(self, rule, where, f, construct=None):
        """runs f; everything the analysis cannot do is an undecided obligation, never an alarm"""
        limit(self.each)
        try:
            try:
                f()
            finally:
                limit(0)
        except AnchorMissing:
            raise
        except Undecided as e:
            self.und(rule, where, 'undecided: %s' % e, construct)
        except PyRaise as e:
            self.und(rule, where, 'undecided: as the engine sees it, always ends in %s (%s)' % (e.name, e.msg), construct)
        except RecursionError:
            self.und(rule, where, 'undecided: recursion limit', construct)
        except Exception as e:          # an engine gap is not a verdict
            self.und(rule, where, 'undecided: engine: %s: %s @ %s' % (type(e).__name__, e, _tail()), construct)


END = [None]        # when the whole check has to end


def _late(*a):
    raise Undecided('time limit')


def limit(seconds):
    """time limit of the obligation that follows (0: none but that of the whole check)"""
    if END[0] is None:
        return
    rest = max(END[0] - time.time(), 0.01)
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, min(rest, seconds or rest), 5)


def _tail():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return '; '.join('%s:%d' % (os.path.basename(t.filename), t.lineno) for t in tb[-2:])


class SpecModule(model.Module):
    def __init__(self, program, src):
        self.program, self.name, self.path = program, 'spec', '/spec.py'
        self.src = src
        self.tree = ast.parse(src)
        self.ispkg = False
        self.env = {}
        self.assigned = {}
        self._scan(self.tree.body)
        model.set_parents(self.tree)


class World(object):
    """one abstract execution environment: interpreter, state and the symbolic inputs"""

    def __init__(self, ctx, intercepts=None, positive=(), generic=False, opaque=()):
        self.ctx = ctx
        self.P = ctx.P
        alg.GENERIC[0] = generic
        alg.POSITIVE.clear()
        alg.POSITIVE.update(positive)
        self.ip = Interp(ctx.P, intercepts or {}, budget=ctx.budget)
        self.st = State({}, {})
        P = ctx.P
        self.Point = P.cls('geometry.SR_point', 'Point')
        self.Segment = P.cls('geometry.SR_line', 'LineSegment')

    # -------------------------------------------------- inputs
    def new(self, cls, /, *args, **kw):
        if isinstance(cls, str):
            cls = self.P.find_class(cls)
        return self.ip.call(self.st, cls, list(args), kw)

    def pt(self, n):
        return self.new(self.Point, Tup([sym(n + '.x'), sym(n + '.y')]))

    def xy(self, n):
        return Tup([sym(n + '.x'), sym(n + '.y')])

    def seg(self, n, cls=None):
        return self.new(cls or self.Segment, self.pt(n + '.i'), self.pt(n + '.j'))

    def ixy(self, n):
        return [sym(n + '.i.x'), sym(n + '.i.y'), sym(n + '.j.x'), sym(n + '.j.y')]

    def segs(self, n):
        return self.ip.generic(self.st, n, lambda ip, st, m: ip.call(
            st, self.Segment, [ip.call(st, self.Point, [Tup([sym(m + '.i.x'), sym(m + '.i.y')])], {}),
                               ip.call(st, self.Point, [Tup([sym(m + '.j.x'), sym(m + '.j.y')])], {})], {}))

    def poly(self, n):
        return self.new(self.P.cls('geometry.SR_polygon', 'PolygonLine'), self.segs(n))

    def fixedpoly(self, n, k, closed=True, shared=True):
        """a chain of k segments over named vertices n0..; the vertex objects are shared between the segments"""
        m = k if closed else k + 1
        pts = [self.pt('%s%d' % (n, i)) for i in range(m)]
        segs = []
        for i in range(k):
            a = pts[i]
            b = pts[(i + 1) % m]
            if not shared:
                a = self.pt('%s%d' % (n, i)) if i else a
                b = self.pt('%s%d' % (n, (i + 1) % m))
            segs.append(self.new(self.Segment, a, b))
        return self.new(self.P.cls('geometry.SR_polygon', 'PolygonLine'), self.ip.mklist(self.st, segs))

    # -------------------------------------------------- running
    def get(self, v, name):
        return self.ip.getattr(self.st, v, name, None)

    def call(self, v, name, /, *args, **kw):
        f = self.ip.getattr(self.st, v, name, None)
        return self.ip.call(self.st, f, list(args), kw)

    def attr_or_call(self, v, name, /, *args, **kw):
        """a query that may be a property or a method without arguments"""
        f = self.ip.getattr(self.st, v, name, None)
        if isinstance(f, (Fn,)) or args or kw:
            return self.ip.call(self.st, f, list(args), kw)
        return f

    def fn(self, module, name, /, *args, **kw):
        e = self.ip.entity(self.P.func(module, name), self.st, Frame(None, self.P.modules[module]))
        return self.ip.call(self.st, e, list(args), kw)

    def spec(self, specmod, name, *args):
        f = specmod.env[name]
        e = self.ip.entity(f, self.st, Frame(None, specmod))
        return self.ip.call(self.st, e, list(args), {})

    @property
    def raises(self):
        return list(getattr(self.ip, 'top_raises', []))

    def fork(self):
        """a second state that shares the past"""
        w = object.__new__(World)
        w.__dict__.update(self.__dict__)
        w.st = self.st.fork()
        return w

    # -------------------------------------------------- plain structures
    def plain(self, v, kinds=False, depth=0, memo=None):
        """objects as what can be observed of them: points as coordinates, segments as end points ..."""
        st, ip = self.st, self.ip
        if depth > 25:
            raise Undecided('nesting')
        rec = lambda x: self.plain(x, kinds, depth + 1)
        if v is None or isinstance(v, (Num, Bool, str)):
            return v
        if isinstance(v, bool):
            return alg.b_const(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, Phi):
            return Phi(v.c, rec(v.a), rec(v.b))
        if isinstance(v, Top):
            raise Undecided('unknown value: %s' % v.reason)
        if isinstance(v, Tup):
            return Tup([rec(x) for x in v.pieces], 'seq')
        if isinstance(v, GItem):
            return GItem(v.guard, rec(v.val))
        if isinstance(v, Gen):
            return Gen(v.base, [rec(x) for x in v.vals], v.guard, v.distinct, v.raw, v.dk)
        if isinstance(v, Shift):
            return v
        if isinstance(v, LRef):
            r = st.heap[v.id]
            return Tup([rec(x) for x in r.pieces], 'set' if r.kind == 'set' else 'seq')
        if isinstance(v, DRef):
            return Tup([Tup([rec(a), rec(b)], 'seq') for a, b in st.heap[v.id].items], 'map')
        if isinstance(v, Ref):
            c = st.heap[v.id].cls
            names = [k.name for k in c.mro]
            if 'Point' in names:
                return Tup(['pt', rec(self.get(v, 'x')), rec(self.get(v, 'y'))], 'seq')
            if 'LineSegment' in names:
                return Tup([c.name if kinds else 'seg', rec(self.get(v, 'i')), rec(self.get(v, 'j'))], 'seq')
            if 'PolygonLine' in names:
                return Tup(['poly', rec(self.get(v, 'segments'))], 'seq')
        raise Undecided('no plain form of %r' % (v,))


class Differ(Exception):
    def __init__(self, path, detail):
        self.path, self.detail = path, detail


def _sat(ctx, assume):
    """text of a valuation that satisfies assume, or None"""
    if assume.isconst:
        return 'always' if assume.value else None
    for val in alg.valuations([assume], ctx.seed, ctx.samples):
        try:
            if val.bool(assume):
                return alg._show(val, '', '')
        except (alg.Skip, KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
            continue
    return None


def _infeasible(assume):
    if assume.isconst:
        return not assume.value
    k = assume.key()
    if k not in _INF:
        try:
            _INF[k] = bool(alg.proven_equiv(assume, FALSE))
        except Undecided:
            _INF[k] = False
    return _INF[k]


_INF = {}


def show(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + '...'


def compare(ctx, got, want, assume=TRUE, path='', fixed=None):
    """None when equal under assume; raises Differ with a witness or Undecided"""
    if assume.isconst and not assume.value:
        return
    if _infeasible(assume):
        return
    if isinstance(got, Phi) or isinstance(want, Phi):
        c = got.c if isinstance(got, Phi) else want.c
        open_ = None
        for cc, side in ((c, 'a'), (alg.b_not(c), 'b')):
            g = getattr(got, side) if isinstance(got, Phi) else got
            w = want
            if isinstance(want, Phi):
                if want.c is c or want.c.key() == c.key():
                    w = getattr(want, side)
                elif not isinstance(got, Phi):
                    w = getattr(want, side)
            try:
                compare(ctx, g, w, alg.b_and(assume, cc), path, fixed)
            except Undecided as e:          # a difference on the other branch still counts
                open_ = open_ or e
        if open_ is not None:
            raise open_
        return
    if isinstance(got, Bool) and isinstance(want, Num):
        got = _bnum(got)
    if isinstance(want, Bool) and isinstance(got, Num):
        want = _bnum(want)
    if isinstance(got, Num) and isinstance(want, Num):
        if got.eq(want):
            return
        if decide.equal(assume, got, want, 300):
            return
        d = alg.find_difference(got, want, assume, ctx.seed, ctx.samples, fixed)
        if d is not None:
            raise Differ(path, 'is %s, not %s; with %s' % (show(got), show(want), d))
        if decide.equal(assume, got, want, ctx.cases):
            return
        raise Undecided('%s: %s and %s neither proven equal nor told apart' % (path, show(got), show(want)))
    if isinstance(got, Bool) and isinstance(want, Bool):
        a, b = alg.b_and(assume, got), alg.b_and(assume, want)
        if a.key() == b.key():
            return
        try:
            if alg.proven_equiv(a, b):
                return
        except Undecided:
            pass
        if decide.equiv(assume, got, want, 300):
            return
        d = alg.find_difference(got, want, assume, ctx.seed, ctx.samples, fixed)
        if d is not None:
            raise Differ(path, 'condition is %s, not %s; with %s' % (show(got), show(want), d))
        if decide.equiv(assume, got, want, ctx.cases):
            return
        raise Undecided('%s: conditions %s and %s neither proven equal nor told apart' % (path, show(got), show(want)))
    if isinstance(got, Tup) and isinstance(want, Tup):
        gp, wp = list(got.pieces), list(want.pieces)
        if got.kind == 'set' or want.kind == 'set':
            _compare_sets(ctx, gp, wp, assume, path, fixed)
            return
        sg = any(isinstance(x, (Gen, GItem, Shift)) for x in gp)
        sw = any(isinstance(x, (Gen, GItem, Shift)) for x in wp)
        if len(gp) != len(wp) and not sg and not sw:
            w = _sat(ctx, assume)
            if w is None:
                raise Undecided('%s: lengths differ on a path not shown feasible' % path)
            raise Differ(path, 'has %d elements, not %d; with %s' % (len(gp), len(wp), w))
        if len(gp) != len(wp):
            raise Undecided('%s: collections built differently' % path)
        open_ = None
        for i, (x, y) in enumerate(zip(gp, wp)):
            try:
                compare(ctx, x, y, assume, '%s[%d]' % (path, i), fixed)
            except Undecided as e:
                open_ = open_ or e
        if open_ is not None:
            raise open_
        return
    if isinstance(got, Gen) and isinstance(want, Gen):
        if got.base != want.base or len(got.vals) != len(want.vals):
            raise Undecided('%s: collections built differently' % path)
        ga, wa = alg.b_and(assume, got.guard), alg.b_and(assume, want.guard)
        if ga.key() != wa.key() and not alg.proven_equiv(ga, wa):
            d = alg.find_difference(_ex(got.base, ga), _ex(want.base, wa), TRUE, ctx.seed, ctx.samples, fixed)
            if decide.equiv(assume, got.guard, want.guard, ctx.cases):
                d = None
            elif d is None:
                raise Undecided('%s: filters neither proven equal nor told apart' % path)
            if d is not None:
                raise Differ(path, 'elements are taken when %s, not when %s; with %s' % (show(got.guard), show(want.guard), d))
        for i, (x, y) in enumerate(zip(got.vals, want.vals)):
            _compare_generic(ctx, x, y, assume, '%s[*%d]' % (path, i), got.base, fixed)
        return
    if isinstance(got, GItem) and isinstance(want, GItem):
        compare(ctx, got.guard, want.guard, assume, path + '.present', fixed)
        compare(ctx, got.val, want.val, alg.b_and(assume, want.guard), path, fixed)
        return
    if isinstance(got, Shift) and isinstance(want, Shift) and got.base == want.base:
        return
    if got is None and want is None or isinstance(got, str) and got == want:
        return
    kinds = {type(x) for x in (got, want)}
    if kinds & {Gen, GItem, Shift, Top}:
        raise Undecided('%s: collections built differently' % path)
    w = _sat(ctx, assume)
    if w is None:
        raise Undecided('%s: %s instead of %s on a path not shown feasible' % (path, show(got), show(want)))
    raise Differ(path, 'is %s, not %s; with %s' % (show(got), show(want), w))


def _bnum(b):
    if b.isconst:
        return num(1 if b.value else 0)
    return alg.of(alg.atom('ite', b, num(1), num(0)))


def _ex(base, f):
    return alg.b_atom('exists', base, f) if not f.isconst else f


def _compare_generic(ctx, x, y, assume, path, base, fixed):
    """elements of a generic collection: the symbols of the element behave like plain symbols"""
    ren = {}
    compare(ctx, x, y, assume, path, fixed)


def _compare_sets(ctx, gp, wp, assume, path, fixed):
    if any(isinstance(x, (Gen, Shift)) for x in gp + wp):
        if len(gp) == len(wp):
            for i, (x, y) in enumerate(zip(gp, wp)):
                compare(ctx, x, y, assume, '%s{%d}' % (path, i), fixed)
            return
        raise Undecided('%s: sets built differently' % path)
    if len(gp) != len(wp):
        raise Undecided('%s: sets of different construction' % path)
    left = list(wp)
    for x in gp:
        for y in left:
            try:
                compare(ctx, x, y, assume, path, fixed)
            except (Differ, Undecided):
                continue
            left.remove(y)
            break
        else:
            if len(left) == 1:
                compare(ctx, x, left[0], assume, path, fixed)
            raise Undecided('%s: no counterpart of a set element' % path)


# ---------------------------------------------------------------- value rules

def value_rule(ctx, rule, anchor, build, want, assume=None, raises=None, kinds=False, fixed=None, world=None,
               construct=None, intercepts=None, positive=(), generic=False):
    """
    build(w) -> value computed by the repository's code; want(w) -> specified value (computed in a fork of the state
    before the code ran is the business of the rule).  raises: condition under which an exception is specified.
    """
    where = ctx.where(anchor)

    def go():
        w = World(ctx, intercepts, positive, generic) if world is None else world()
        r0 = len(w.raises)
        try:
            got = build(w)
        except PyRaise as e:
            if raises is None or not (lambda b: b.isconst and b.value)(raises(w)):
                if e.explicit and raises is None:
                    ctx.bad(rule, where, 'always refused: %s (%s)' % (e.name, e.msg), construct)
                    return
                raise
            ctx.ok(rule, where, '%s: refused (%s)' % (rule, e.name), construct)
            return
        finally:
            ctx.calls |= w.ip.calls
        rs = w.raises[r0:]
        a = assume(w) if assume else TRUE
        rc = raises(w) if raises else FALSE
        gotr = alg.b_or(*[c for c, e in rs]) if rs else FALSE
        exp = want(w)
        pg, pw = w.plain(got, kinds), w.plain(exp, kinds)
        try:
            open_ = None
            if rs or raises:
                try:
                    compare(ctx, gotr, rc, a, 'exception', fixed)
                except Undecided as e:
                    open_ = e
            compare(ctx, pg, pw, alg.b_and(a, alg.b_not(rc)), '', fixed)
            if open_ is not None:
                raise open_
        except Differ as e:
            ctx.bad(rule, where, ('%s %s' % (e.path, e.detail)).strip(), construct)
            return
        ctx.ok(rule, where, '%s = %s' % (rule, show(pw)), construct)
    ctx.guard(rule, where, go, construct)


def cond_rule(ctx, rule, where, cond, detail, construct=None, fixed=None, assume=TRUE):
    """the abstract condition must hold for all inputs"""
    try:
        compare(ctx, cond, TRUE, assume, '', fixed)
    except Differ as e:
        ctx.bad(rule, where, '%s: %s' % (detail, e.detail), construct)
    except Undecided as e:
        ctx.und(rule, where, '%s: %s' % (detail, e), construct)
    else:
        ctx.ok(rule, where, detail, construct)


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """[(key, text)] of the listed findings of a property"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    parts = dict(x.split('=', 1) for x in line[7:].split(' :: ')[0].split(' | '))
                    if parts.get('property') == prop:
                        out.append((parts['rule'] + ' ' + parts['construct'], line.split(' :: ', 1)[1]))
    return out


def report(ctx, level_note, method, started):
    known = known_findings(ctx.prop)
    viol, kf, und, okn = [], [], 0, 0
    for o in ctx.obs:
        if o.status == 'violation':
            hit = [t for k, t in known if k == o.key]
            if hit:
                kf.append((o, hit[0]))
            else:
                viol.append(o)
        elif o.status == 'undecided':
            und += 1
        else:
            okn += 1
    seen = set()
    for o, t in kf:
        if t not in seen:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, t))
            seen.add(t)
    evd = os.environ.get('SA_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, '%s.violations.txt' % ctx.prop)
    if viol:
        with open(rep, 'w', encoding='utf-8') as f:
            for o in viol:
                f.write('%s: [%s] %s\n    %s\n' % (o.where, o.rule, o.construct, o.detail))
    elif os.path.exists(rep):
        os.remove(rep)
    for o in viol:
        print('%s: [%s] %s' % (o.where, o.rule, o.detail))
    for o in ctx.obs:
        if o.status == 'undecided':
            print('undecided %s: [%s] %s' % (o.where, o.rule, o.detail[:200]))
    rules = {}
    for o in ctx.obs:
        r = rules.setdefault(o.rule, {'ok': 0, 'violation': 0, 'undecided': 0})
        r[o.status] += 1
    fns = sorted(ctx.functions | ctx.calls)
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'other',
        'coverage': {
            'explanation': method,
            'obligations': len(ctx.obs),
            'discharged': okn,
            'undecided': und,
            'known_findings': len(kf),
            'functions_analysed': len(fns),
            'sites_inspected': ctx.sites,
            'functions': fns,
            'rules': rules,
            'details': [{'rule': o.rule, 'where': o.where, 'status': o.status, 'detail': o.detail[:300]} for o in ctx.obs][:400],
            'violated': [{'rule': o.rule, 'where': o.where, 'detail': o.detail[:1000], 'replay': rep} for o in viol],
            'modules': {m.name: os.path.relpath(m.path, ctx.P.root) for m in ctx.P.modules.values()},
        },
        'wall_s': round(time.time() - started, 3),
        'violations': len(viol),
        'assumptions': [level_note] + ctx.notes,
    }
    with open(os.path.join(evd, '%s.json' % ctx.prop), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%s: %d obligations, %d hold, %d violated, %d known, %d undecided; %d functions; %.1fs' % (
        ctx.prop, len(ctx.obs), okn, len(viol), len(kf), und, len(fns), time.time() - started))
    if viol:
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rep))
        return 1
    if not okn and not kf:
        print('analysis broken: nothing was decided for %s' % ctx.prop)
        return 2
    return 0
