# -*- coding: utf-8 -*-
"""
python3 tools/mutate.py N SEED OUT: N random small changes of the sources; those the tests do not notice are written to OUT/ as patches.
Not used by any check.
"""
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

FILES = ['geometry/SR_line.py', 'geometry/SR_point.py', 'geometry/SR_polygon.py', 'geometry/SR_polygon_group.py', 'geometry/additional_stuff.py', 'SR_Vessel/SR_hauptteile.py']
SKIP = {'plot', 'show', 'run', 'plot_triangulation', 'triangle_mesh', 'graphical_testing', '__repr__', '__str__', 'raum_dict_checker', 'linenum'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
ARI = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult]}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'sorted': 'list', 'i': 'j', 'j': 'i', 'x': 'y', 'y': 'x', 'True': 'False', 'sin': 'cos', 'cos': 'sin'}


def sites(tree):
    """(path to replace, new node text) as functions"""
    out = []

    def walk(n, fn, parents):
        if isinstance(n, ast.FunctionDef):
            if n.name in SKIP:
                return
            fn = n.name
        if fn:
            if isinstance(n, ast.Compare):
                for k, o in enumerate(n.ops):
                    for c in CMP.get(type(o), []):
                        out.append((n, 'op', k, c))
            if isinstance(n, ast.BinOp):
                for c in ARI.get(type(n.op), []):
                    out.append((n, 'bin', None, c))
            if isinstance(n, ast.BoolOp):
                out.append((n, 'bool', None, ast.Or if isinstance(n.op, ast.And) else ast.And))
                for k in range(len(n.values)):
                    out.append((n, 'drop', k, None))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                out.append((n, 'unary', None, None))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                out.append((n, 'const', None, not n.value))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                out.append((n, 'const', None, n.value + 1))
                if n.value:
                    out.append((n, 'const', None, n.value * 2))
            if isinstance(n, ast.Name) and n.id in ('any', 'all', 'min', 'max', 'sorted'):
                out.append((n, 'name', None, NAMES[n.id]))
            if isinstance(n, ast.Attribute) and n.attr in ('i', 'j', 'x', 'y', 'sin', 'cos'):
                out.append((n, 'attr', None, NAMES[n.attr]))
            if isinstance(n, (ast.If, ast.IfExp)):
                out.append((n, 'cond', None, True))
                out.append((n, 'cond', None, False))
            if isinstance(n, ast.comprehension) and n.ifs:
                out.append((n, 'ifs', None, None))
            if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') != 'print':
                out.append((n, 'del', None, None))
            if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
                out.append((n, 'swap', None, None))
        for c in ast.iter_child_nodes(n):
            walk(c, fn, parents)
    walk(tree, None, [])
    return out


def apply(n, kind, k, v):
    if kind == 'op':
        n.ops[k] = v()
    elif kind in ('bin', 'bool'):
        n.op = v()
    elif kind == 'drop':
        del n.values[k]
    elif kind == 'unary':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'const':
        n.value = v
    elif kind == 'name':
        n.id = v
    elif kind == 'attr':
        n.attr = v
    elif kind == 'cond':
        n.test = ast.Constant(v)
    elif kind == 'ifs':
        n.ifs = []
    elif kind == 'del':
        n.__class__ = ast.Pass
        n._fields = ()
    elif kind == 'swap':
        n.args.reverse()


def run(cmd, cwd):
    try:
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, text=True,
                              env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')).returncode
    except subprocess.TimeoutExpired:
        return -1


def one(a):
    n, f, k, out = a
    src = open(os.path.join('/repo', f)).read()
    tree = ast.parse(src)
    s = sites(tree)[k]
    node = s[0]
    line = node.lineno if hasattr(node, 'lineno') else getattr(getattr(node, 'target', None), 'lineno', 0)
    old = ast.unparse(node) if not isinstance(node, ast.comprehension) else 'filter'
    # replace only the text of the smallest statement line range by the unparsed one
    apply(*s)
    try:
        new = ast.unparse(node) if not isinstance(node, ast.comprehension) else 'no filter'
        text = ast.unparse(ast.fix_missing_locations(tree))
    except Exception:
        return None
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        base = ast.unparse(ast.parse(src))
        with open(os.path.join(repo, f), 'w') as h:
            h.write(text + '\n')
        rc = run(['/opt/pypyvenv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], repo)
        if rc == 0:
            import difflib
            p = os.path.join(out, 'm%04d' % n)
            os.makedirs(p)
            with open(os.path.join(p, 'info'), 'w') as h:
                h.write('%s:%d %s\n%s\n->\n%s\n' % (f, line, s[1], old[:300], new[:300]))
                h.write('\n'.join(difflib.unified_diff(base.splitlines(), text.splitlines(), f, f, lineterm='', n=4)))
            shutil.copy(os.path.join(repo, f), os.path.join(p, os.path.basename(f)))
            open(os.path.join(p, 'file'), 'w').write(f)
        return n, rc
    finally:
        shutil.rmtree(d)


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    os.makedirs(out, exist_ok=True)
    rnd = random.Random(seed)
    al = []
    for f in FILES:
        t = ast.parse(open(os.path.join('/repo', f)).read())
        al += [(f, k) for k in range(len(sites(t)))]
    print(len(al), 'sites', flush=True)
    pick = rnd.sample(al, min(n, len(al)))
    with cf.ThreadPoolExecutor(int(os.environ.get('W', '3'))) as ex:
        for r in ex.map(one, [(i, f, k, out) for i, (f, k) in enumerate(pick)]):
            print(r, flush=True)


main()
