#!/usr/bin/env python3
"""Mutation testing of the checks: small syntactic changes of the source, one at a time, in scratch copies of the repository.  Those that the test suite
does not notice go through the checks of their file until one reports a violation; what no check reports is left to be read.
usage: mutate.py OUT.jsonl [--files a,b] [--sample N] [--jobs J] [--seed S]"""
import argparse, ast, json, os, random, shutil, subprocess, sys, time
import multiprocessing as mp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
U = 'pylib/uxml/'
CHECKS = {U + 'parser.py': 'C03 C02 C01 C04 C05', U + 'tree.py': 'C06 C05 C07 C08 C04 C17 C18 C30 C32', U + 'treeutil.py': 'C11 C12 C13', U + 'treeiter.py': 'C14 C16 C31 C32', U + 'writer.py': 'C10 C09 C33',
          U + 'xml.py': 'C15 C16 C04 C33', U + 'xmliter.py': 'C16 C33', U + 'html5.py': 'C28 C25 C35', U + 'html5iter.py': 'C34', U + 'uxpath/xast.py': 'C22 C19 C21 C18 C20 C17 C24 C23 C29', U + 'uxpath/functions.py': 'C21 C19 C20',
          U + 'uxpath/lexrules.py': 'C18 C29 C24', U + 'uxpath/parserules.py': 'C18 C29 C24 C19', U + 'uxpath/__init__.py': 'C23 C18 C21 C29', 'exec/microx': 'C27'}


def offsets(src):
    o = [0]
    for l in src.split('\n'): o.append(o[-1] + len(l.encode()) + 1)
    return o


def mutants(src):
    """(start, end, replacement, what) over the bytes of the source."""
    off = offsets(src)
    b = src.encode()
    tree = ast.parse(src)
    out = []
    def span(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    def text(n): s, e = span(n); return b[s:e].decode()
    def add(n, new, what): s, e = span(n); out.append((s, e, new, what))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(id(n.body[0])); docs.add(id(n.body[0].value))
    CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not', '=='], ast.IsNot: ['is', '!=']}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Mod: '*', ast.Div: '*', ast.FloorDiv: '/'}
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(f): infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) in docs or not hasattr(n, 'lineno'): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []): add(n, '(%s %s %s)' % (text(n.left), r, text(n.comparators[0])), 'cmp')
            c = n.comparators[0]
            if isinstance(c, ast.Tuple) and len(c.elts) > 1:
                for i in range(len(c.elts)): add(c, '(%s,)' % ', '.join(text(e) for j, e in enumerate(c.elts) if j != i), 'tuple element')
        elif isinstance(n, ast.BoolOp):
            alt = 'or' if isinstance(n.op, ast.And) else 'and'
            add(n, '(' + (' %s ' % alt).join('(' + text(v) + ')' for v in n.values) + ')', 'and/or')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                add(n, '(' + (' %s ' % ('and' if alt == 'or' else 'or')).join('(' + text(v) + ')' for v in rest) + ')', 'operand dropped')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, '(' + text(n.operand) + ')', 'not dropped')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): add(n, '(' + text(n.operand) + ')', 'minus dropped')
        elif isinstance(n, ast.BinOp):
            r = BIN.get(type(n.op))
            if r and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)): add(n, '(%s %s %s)' % (text(n.left), r, text(n.right)), 'operator')
            if isinstance(n.op, ast.Add): add(n, '(%s)' % text(n.left), 'right dropped'); add(n, '(%s)' % text(n.right), 'left dropped')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False: add(n, str(not v), 'constant')
            elif isinstance(v, int): add(n, str(v + 1), 'constant'); add(n, '(%d)' % (v - 1), 'constant')
            elif isinstance(v, str) and id(n) in infunc:
                if v: add(n, "''", 'constant')
                add(n, repr(v + 'x') if text(n)[:1] in '\'"' else 'r' + repr(v + 'x'), 'constant')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)) and id(n) in infunc:
            t = n.test
            add(t, 'not (%s)' % text(t), 'negated')
            add(t, 'True', 'always'); add(t, 'False', 'never')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'strip', 'lstrip', 'rstrip', 'lower', 'upper'): add(n, text(f.value), 'call dropped')
            elif isinstance(f, ast.Name) and f.id in ('list', 'tuple', 'set', 'str', 'int', 'float', 'bool', 'iter', 'escape', 'quoteattr', 'strval', 'to_string', 'to_number', 'to_boolean') and len(n.args) == 1: add(n, text(n.args[0]), 'call dropped')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = n.args
                new = b[span(n)[0]:span(a[0])[0]].decode() + text(a[1]) + b[span(a[0])[1]:span(a[1])[0]].decode() + text(a[0]) + b[span(a[1])[1]:span(n)[1]].decode()
                add(n, new, 'arguments swapped')
        elif isinstance(n, ast.Break): add(n, 'continue', 'break/continue')
        elif isinstance(n, ast.Continue): add(n, 'break', 'break/continue')
        elif isinstance(n, ast.YieldFrom): pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in ('lower', 'upper', 'step'):
                p = getattr(n.slice, part)
                if p is not None and not isinstance(p, ast.Constant): add(p, '(%s)+1' % text(p), 'slice'); add(p, '(%s)-1' % text(p), 'slice')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Delete)) and id(n) in infunc and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Return): 
                if n.value is not None: add(n, 'return None', 'statement')
                else: add(n, 'pass', 'statement')
            else: add(n, 'pass', 'statement')
        if isinstance(n, ast.For) and id(n) in infunc: add(n.iter, 'list(%s)[1:]' % text(n.iter), 'first skipped'); add(n.iter, 'list(%s)[:-1]' % text(n.iter), 'last skipped'); add(n.iter, 'list(%s)[::-1]' % text(n.iter), 'reversed')
    seen, res = set(), []
    for s, e, new, what in out:
        m = b[:s] + new.encode() + b[e:]
        if m in seen or m == b: continue
        seen.add(m)
        try:
            if ast.dump(ast.parse(m)) == ast.dump(tree): continue
        except (SyntaxError, ValueError): continue
        res.append((s, e, new, what))
    return res


def work(k, q, out, opts):
    d = '/tmp/mut/w%d' % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'])
    os.symlink(d + '/repo/pylib', d + '/amara3')
    subprocess.run(['rsync', '-a', '--exclude', '.git', '--exclude', 'seeded', ROOT + '/', d + '/verif/']) if shutil.which('rsync') else subprocess.run('mkdir %s/verif && cp -a %s/symx %s/vprops %s/cprops %s/KNOWN_FINDINGS.txt %s/verif/ && mkdir %s/verif/evidence' % (d, ROOT, ROOT, ROOT, ROOT, d, d), shell=True)
    env = dict(os.environ, PYTHONPATH=d + ':' + d + '/repo/build/lib', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_AMARA=d)
    while True:
        item = q.get()
        if item is None: break
        f, s, e, new, what = item
        p = os.path.join(d, 'repo', f)
        orig = open(p, 'rb').read()
        mod = orig[:s] + new.encode() + orig[e:]
        line = orig[:s].count(b'\n') + 1
        rec = dict(file=f, line=line, what=what, old=orig[s:e].decode()[:120], new=new[:120], start=s, end=e, full=new)
        try:
            open(p, 'wb').write(mod)
            for junk in ('parsetab.py', 'parser.out'):
                j = os.path.join(d, 'repo/pylib/uxml/uxpath', junk)
                if os.path.exists(j): os.remove(j)
            for dp, dn, fn in os.walk(os.path.join(d, 'repo')):
                if dp.endswith('__pycache__'): shutil.rmtree(dp, ignore_errors=True)
            if f.startswith('pylib'):
                try: t = subprocess.run([PY, '-c', 'import sys; sys.path.insert(0, %r); import pytest; sys.exit(pytest.main(["-q", "-x", "-p", "no:cacheprovider", "test"]))' % d, ], cwd=d + '/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
                except subprocess.TimeoutExpired: t = None
                if t is None or t.returncode:
                    rec['killed'] = 'tests'
                    out.put(rec)
                    continue
            rec['tried'] = {}
            for c in (opts.checks or CHECKS[f]).split():
                t = time.time()
                try: r = subprocess.run(['python3-vt', 'symx/check.py', c, '--tier', 'quick', '--workers', '2', '--budget', '200'], cwd=d + '/verif', env=dict(env, PYTHONPATH=''), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                except subprocess.TimeoutExpired:
                    rec['tried'][c] = ['timeout', 400]
                    continue
                rec['tried'][c] = [r.returncode, round(time.time() - t)]
                if r.returncode == 1:
                    rec['killed'] = c
                    break
                if r.returncode != 0: rec.setdefault('trouble', []).append(c + ': ' + r.stdout.decode('utf-8', 'replace')[-300:])
            out.put(rec)
        finally:
            open(p, 'wb').write(orig)
    out.put(None)
    shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--sample', type=int); ap.add_argument('--jobs', type=int, default=4); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--checks'); ap.add_argument('--survivors', help='only the mutants that survived in this earlier output')
    o = ap.parse_args()
    todo = []
    if o.survivors:
        for l in open(o.survivors):
            r = json.loads(l)
            if not r.get('killed'): todo.append((r['file'], r['start'], r['end'], r['full'], r['what']))
    else:
        for f in CHECKS:
            if o.files and not any(x in f for x in o.files.split(',')): continue
            ms = mutants(open('/repo/' + f).read())
            random.Random(o.seed).shuffle(ms)
            if o.sample: ms = ms[:o.sample]
            todo += [(f,) + m for m in ms]
    random.Random(o.seed).shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    q, out = mp.Queue(), mp.Queue()
    for t in todo: q.put(t)
    for _ in range(o.jobs): q.put(None)
    ps = [mp.Process(target=work, args=(k, q, out, o)) for k in range(o.jobs)]
    for p in ps: p.start()
    left = o.jobs
    with open(o.out, 'w') as f:
        while left:
            r = out.get()
            if r is None: left -= 1; continue
            f.write(json.dumps(r) + '\n'); f.flush()
main()
