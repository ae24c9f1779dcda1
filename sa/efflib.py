# -*- coding: utf-8 -*-
"""models of builtins, of the standard library and of container methods for the effect analysis"""
from .effects import (Lab, Const, BM, Clo, Builtin, SCV, SC, EMPTYV, TRUE_, FALSE_, NONE_, MUTATORS, CONTAINERS, str_, lab, bum)
from .model import Cls, Func


def container(E, kind, els, node, fr, what, keys=None):
    n = E.new(kind, node, fr, what)
    E.put(n, '*', els)
    if keys is not None:
        E.put(n, 'k', keys)
    return frozenset([n])


def allargs(args, kw, star):
    out = set()
    for a in args:
        out |= a
    for v in kw.values():
        out |= v
    if star:
        out |= star
    return frozenset(out)


def callback(E, f, vals, node, st, fr):
    """a function argument called some number of times"""
    fs = frozenset(x for x in f if not isinstance(x, Const))
    if not fs:
        return SCV
    ts = st.ts
    r = EMPTYV
    for _ in range(6):
        st.ts = ts
        r = r | E.call(fs, list(vals), {}, node, st, fr)
        if st.ts <= ts:
            break
        ts = ts | st.ts
    st.ts = ts
    return r


def builtin(E, name, args, kw, node, st, fr, star):
    a0 = args[0] if args else (star or EMPTYV)
    if name == 'isinstance' and len(args) == 2:
        rs = {E._inst(x, args[1]) for x in a0}
        if rs == {True}:
            return frozenset([TRUE_])
        if rs == {False}:
            return frozenset([FALSE_])
        return SCV
    if name in ('list', 'tuple', 'set', 'frozenset'):
        els = EMPTYV
        for a in args:
            els = els | E.elements(a)
        return container(E, {'frozenset': 'set'}.get(name, name), els, node, fr, name)
    if name == 'sorted':
        els = E.elements(a0)
        if 'key' in kw:
            callback(E, kw['key'], [els], node, st, fr)
        return container(E, 'list', els, node, fr, name)
    if name in ('reversed', 'iter'):
        return container(E, 'gen', E.elements(a0), node, fr, name)
    if name == 'dict':
        out = E.new('dict', node, fr, name)
        for a in args:
            for l in a:
                if isinstance(l, Lab) and l.kind == 'dict':
                    E.put(out, 'k', E.load(l, 'k'))
                    E.put(out, '*', E.load(l, '*'))
                else:
                    for t in E.elements(frozenset([l])):
                        E.put(out, 'k', E.item(frozenset([t]), 0))
                        E.put(out, '*', E.item(frozenset([t]), 1))
        for k, v in kw.items():
            E.put(out, 'k', SCV)
            E.put(out, '*', v)
        return frozenset([out])
    if name in ('zip', 'enumerate'):
        t = E.new('tuple', node, fr, name + '.t')
        if name == 'enumerate':
            E.put(t, 0, SCV)
            E.put(t, 1, E.elements(a0))
        else:
            for i, a in enumerate(args):
                E.put(t, i, E.elements(a))
            if star:
                E.put(t, '*', E.elements(star))
        ok = name == 'enumerate' and E.elements(a0) or name == 'zip' and all(E.elements(a) for a in args)
        return container(E, 'gen', frozenset([t]) if ok else EMPTYV, node, fr, name)
    if name == 'map':
        r = callback(E, a0, [E.elements(a) for a in args[1:]], node, st, fr)
        return container(E, 'gen', r, node, fr, name)
    if name == 'filter':
        els = E.elements(args[1]) if len(args) > 1 else EMPTYV
        callback(E, a0, [els], node, st, fr)
        return container(E, 'gen', els, node, fr, name)
    if name in ('min', 'max'):
        if len(args) == 1 and star is None:
            els = E.elements(a0)
        else:
            els = allargs(args, {}, star)
        if 'key' in kw:
            callback(E, kw['key'], [els], node, st, fr)
        return els | kw.get('default', EMPTYV)
    if name == 'next':
        return E.elements(a0) | (args[1] if len(args) > 1 else EMPTYV)
    if name == 'sum':
        els = E.elements(a0)
        start = args[1] if len(args) > 1 else kw.get('start', EMPTYV)
        out = set()
        cs = [x for x in els | start if isinstance(x, Lab) and isinstance(x.kind, str)]
        if cs:
            out |= container(E, 'list', E.elements(frozenset(cs)), node, fr, name)
        objs = [x for x in els if isinstance(x, Lab) and isinstance(x.kind, Cls)]
        if objs:
            import ast as _a
            out |= E.binop(_a.Add(), frozenset(objs) | start, frozenset(objs), node, st, fr)
        if SC in els or not out:
            out.add(SC)
        return frozenset(out)
    if name == 'range':
        return container(E, 'gen', SCV, node, fr, name)
    if name == 'getattr':
        names = [x.value for x in args[1] if isinstance(x, Const) and isinstance(x.value, str)] if len(args) > 1 else []
        out = args[2] if len(args) > 2 else EMPTYV
        if not names:
            E.note('getattr with a computed name', node, fr)
            return out | SCV
        for n in names:
            out = out | E.attr(a0, n, node, st, fr)
        return out
    if name in ('setattr', 'delattr'):
        names = [x.value for x in args[1] if isinstance(x, Const) and isinstance(x.value, str)] if len(args) > 1 else []
        v = args[2] if len(args) > 2 else SCV
        for n in names or ['?']:
            E.write(a0, n, v, node, fr, st, weak=len(names) != 1)
        return frozenset([NONE_])
    if name == 'vars':
        return E.attr(a0, '__dict__', node, st, fr)
    if name == 'type':
        out = set()
        for x in a0:
            if isinstance(x, Lab) and isinstance(x.kind, Cls):
                out.add(x.kind)
            elif isinstance(x, Lab):
                from .effects import _BUILTINS
                out.add(_BUILTINS.setdefault(x.kind, Builtin(x.kind)))
            else:
                out.add(SC)
        return frozenset(out)
    if name in ('any', 'all', 'len', 'abs', 'round', 'int', 'float', 'str', 'repr', 'bool', 'print', 'hash', 'id', 'pow', 'divmod', 'ord', 'chr',
                'hasattr', 'callable', 'issubclass', 'format', 'open', 'input', 'complex', 'bytes'):
        return SCV
    if name in ('True', 'False'):
        return SCV
    if name[:1].isupper():          # exceptions
        return SCV
    if name == 'super':
        return SCV
    E.note('builtin %s' % name, node, fr)
    return SCV | allargs(args, kw, star)


def clone(E, vals, node, fr, deep, site):
    out = set()
    for x in vals:
        if isinstance(x, Lab):
            out.add(_clone1(E, x, node, fr, site))
        elif isinstance(x, BM) and isinstance(x.recv, Lab):
            from .effects import bm
            out.add(bm(x.func, _clone1(E, x.recv, node, fr, site)))
        else:
            out.add(x)
    return frozenset(out)


def _clone1(E, x, node, fr, site):
    """deep copies made at one place are represented by one label per class; a copy of such a copy is the same label"""
    n = E.new(x.kind, node, fr, 'deepcopy')
    key = (x, n)
    if key in E._cloning:
        return n
    E._cloning.add(key)
    for f in E.fields(x):
        E.put(n, f, clone(E, E.heap[(x, f)], node, fr, True, site))
    return n


def external(E, path, args, kw, node, st, fr, star):
    a0 = args[0] if args else (star or EMPTYV)
    p = path.split('.')
    last = p[-1]
    if path == 'copy.deepcopy' or path == 'copy.copy':
        out = set()
        hook = '__deepcopy__' if last == 'deepcopy' else '__copy__'
        rest = set()
        for x in a0:
            if isinstance(x, Lab) and isinstance(x.kind, Cls) and isinstance(x.kind.lookup(hook), Func):
                from .effects import bm
                out |= E.call(frozenset([bm(x.kind.lookup(hook), x)]), [frozenset([E.new('dict', node, fr, 'memo')])] if last == 'deepcopy' else [], {}, node, st, fr)
            else:
                rest.add(x)
        if last == 'deepcopy':
            E._cloning = set()
            out |= clone(E, frozenset(rest), node, fr, True, None)
        else:
            for x in rest:
                if isinstance(x, Lab):
                    n = E.new(x.kind, node, fr, 'copy')
                    for f in E.fields(x):
                        E.put(n, f, E.heap[(x, f)])
                    out.add(n)
                else:
                    out.add(x)
        return frozenset(out)
    if p[0] == 'itertools':
        if path == 'itertools.chain':
            els = EMPTYV
            for a in args:
                els = els | E.elements(a)
            if star:
                els = els | E.elements(star)
            return container(E, 'gen', els, node, fr, last)
        if path == 'itertools.chain.from_iterable':
            return container(E, 'gen', E.elements(E.elements(a0)), node, fr, last)
        if last in ('combinations', 'permutations', 'combinations_with_replacement', 'product', 'zip_longest', 'pairwise'):
            els = EMPTYV
            for a in (args if last in ('product', 'zip_longest') else args[:1]):
                els = els | E.elements(a)
            t = container(E, 'tuple', els, node, fr, last + '.t')
            return container(E, 'gen', t if els else EMPTYV, node, fr, last)
        if last in ('islice', 'cycle', 'takewhile', 'dropwhile', 'filterfalse', 'repeat', 'accumulate', 'compress'):
            src = args[1] if last in ('takewhile', 'dropwhile', 'filterfalse') and len(args) > 1 else a0
            els = E.elements(src) if last != 'repeat' else src
            if last in ('takewhile', 'dropwhile', 'filterfalse'):
                callback(E, a0, [els], node, st, fr)
            return container(E, 'gen', els, node, fr, last)
        if last in ('starmap',):
            return container(E, 'gen', callback(E, a0, [E.elements(E.elements(args[1]))], node, st, fr), node, fr, last)
        if last == 'count':
            return container(E, 'gen', SCV, node, fr, last)
    if p[0] == 'collections':
        if last in ('deque',):
            return container(E, 'deque', E.elements(a0), node, fr, last)
        if last in ('Counter',):
            return container(E, 'dict', SCV, node, fr, last, keys=E.elements(a0))
        if last in ('OrderedDict',):
            return builtin(E, 'dict', args, kw, node, st, fr, star)
        if last == 'defaultdict':
            return container(E, 'dict', EMPTYV, node, fr, last)
    if path in ('random.choice',):
        return E.elements(a0)
    if path in ('random.sample', 'random.choices'):
        return container(E, 'list', E.elements(a0), node, fr, last)
    if path == 'random.shuffle':
        E.write(a0, '*', E.elements(a0), node, fr, st, weak=True)
        return frozenset([NONE_])
    if path == 'functools.reduce':
        els = E.elements(args[1]) if len(args) > 1 else EMPTYV
        els = els | (args[2] if len(args) > 2 else EMPTYV)
        r = callback(E, a0, [els, els], node, st, fr)
        return els | r | callback(E, a0, [r, els], node, st, fr)
    if path in ('operator.attrgetter', 'operator.itemgetter'):
        return SCV
    if p[0] in ('math', 'cmath', 'random', 'time', 'pprint', 'matplotlib', 'numpy', 'triangle', 'os', 'fnmatch', 'sys', 'statistics', 'numbers', 'warnings', 'logging'):
        return SCV
    E.note('external %s' % path, node, fr)
    return SCV | allargs(args, kw, star)


def method(E, recv, name, args, kw, node, st, fr, star):
    a0 = args[0] if args else (star or EMPTYV)
    if not isinstance(recv, Lab):
        return SCV
    k = recv.kind
    one = frozenset([recv])
    if not isinstance(k, str):
        return SCV
    if name in MUTATORS:
        if name in ('append', 'add', 'appendleft'):
            E.write([recv], '*', a0, node, fr, st, weak=True)
        elif name == 'insert':
            E.write([recv], '*', args[1] if len(args) > 1 else SCV, node, fr, st, weak=True)
        elif name in ('extend', 'extendleft') or name == 'update' and k == 'set':
            for a in args:
                E.write([recv], '*', E.elements(a) or EMPTYV, node, fr, st, weak=True)
        elif name == 'update':
            for a in args:
                E.put(recv, 'k', E.elements(a))
                E.write([recv], '*', E.values(a), node, fr, st, weak=True)
            for v in kw.values():
                E.write([recv], '*', v, node, fr, st, weak=True)
        elif name == 'setdefault':
            E.put(recv, 'k', a0)
            E.write([recv], '*', args[1] if len(args) > 1 else frozenset([NONE_]), node, fr, st, weak=True)
        else:
            if name == 'sort' and 'key' in kw:
                callback(E, kw['key'], [E.elements(one)], node, st, fr)
            E.write([recv], '*', EMPTYV, node, fr, st, weak=True)
        if name in ('pop', 'popleft', 'setdefault'):
            return (E.load(recv, '*') if k == 'dict' else E.elements(one)) | (args[1] if len(args) > 1 else EMPTYV)
        if name == 'popitem':
            return container(E, 'tuple', E.load(recv, 'k') | E.load(recv, '*'), node, fr, name)
        return frozenset([NONE_])
    if name in ('keys',):
        return container(E, 'gen', E.load(recv, 'k'), node, fr, name)
    if name == 'values':
        return container(E, 'gen', E.load(recv, '*'), node, fr, name)
    if name == 'items':
        t = E.new('tuple', node, fr, 'items.t')
        E.put(t, 0, E.load(recv, 'k'))
        E.put(t, 1, E.load(recv, '*'))
        return container(E, 'gen', frozenset([t]) if E.load(recv, 'k') else EMPTYV, node, fr, name)
    if name in ('get',):
        return E.load(recv, '*') | (args[1] if len(args) > 1 else frozenset([NONE_]))
    if name == 'copy':
        n = E.new(k, node, fr, 'copy')
        for f in E.fields(recv):
            E.put(n, f, E.heap[(recv, f)])
        return frozenset([n])
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        els = E.elements(one)
        if name in ('union', 'symmetric_difference', 'intersection'):
            for a in args:
                els = els | E.elements(a)
        return container(E, 'set', els, node, fr, name)
    if name in ('index', 'count', 'issubset', 'issuperset', 'isdisjoint', 'join', 'format', '__len__', '__contains__'):
        return SCV
    if name == '__iter__':
        return container(E, 'gen', E.elements(one), node, fr, name)
    if name in ('__next__',):
        return E.elements(one)
    if name == '__getitem__':
        return E.values(one)
    if name in ('most_common', 'elements'):
        return container(E, 'list', E.load(recv, 'k'), node, fr, name)
    E.note('method %s of %s' % (name, k), node, fr)
    return SCV
