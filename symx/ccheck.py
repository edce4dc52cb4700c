#!/usr/bin/env python3
"""C26: bounded model checking of string_isxml in clib/xmlstring.c with CBMC.

The function is compiled from /repo's current source against a small model of the CPython API (cprops/); the bytes of the argument are
symbolic; assertions on the answer, the pending exception, released objects and every memory access are decided by the SAT solver for each
length.  A counterexample counts if it shows on the extension built from the same source (against Python's own codecs), or, for memory and
reference errors, on the same code run natively under the address sanitizer."""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SRC = os.path.join(os.path.realpath(os.environ.get('VERIF_AMARA', '/opt/amara3-path') + '/amara3/..'), 'clib', 'xmlstring.c')
CP = os.path.join(ROOT, 'cprops')
REALPY = '/opt/venv/bin/python'
PROP = 'C26'

ORACLE = r'''
import sys, json, importlib.util
def want(b):
    if b[:4] in (b'<?xm', b'\0<\0?', b'<\0?\0', b'\x4c\x6f\xa7\x94', b'\0\0\0<', b'<\0\0\0', b'\0\0<\0', b'\0<\0\0'): return True
    for bom, enc in ((b'\0\0\xfe\xff', 'utf-32-be'), (b'\xff\xfe\0\0', 'utf-32-le'), (b'\xef\xbb\xbf', 'utf-8'), (b'\xfe\xff', 'utf-16-be'), (b'\xff\xfe', 'utf-16-le'), (b'', 'utf-8')):
        if b.startswith(bom):
            try: return b[len(bom):].decode(enc).lstrip(' \t\r\n')[:1] == '<'
            except UnicodeDecodeError: return False
def main():
    spec = importlib.util.spec_from_file_location('cxmlstring', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for line in sys.stdin:
        b = bytes.fromhex(line.strip())
        try: got = m.isxml(b)
        except BaseException as e: got = 'exc:' + type(e).__name__
        print(json.dumps([line.strip(), got if isinstance(got, (bool, str)) else repr(got), want(b)]), flush=True)
main()
'''


def sh(cmd, timeout, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **k)


def real(d, so, cases):
    """[(hex, got, want)] of the real extension; the list ends where the process died."""
    p = subprocess.run([REALPY, os.path.join(d, 'oracle.py'), so], input='\n'.join(cases) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return [json.loads(l) for l in p.stdout.split('\n') if l.startswith('[')], p.stderr[-600:]


def cbmc(n, extra=(), timeout=850, trace=False):
    cmd = ['cbmc', '-D__CPROVER', '-DNMAX=%d' % max(1, n), '-DNMIN=%d' % n] + list(extra) + [
        '-DXMLSTRING_C="%s"' % SRC, '-I' + os.path.join(CP, 'include'), '-I' + os.path.dirname(SRC), os.path.join(CP, 'isxml_harness.c'), '--unwind', str(n + 5), '--no-standard-checks',
        '--bounds-check', '--pointer-check', '--unwinding-assertions', '--drop-unused-functions', '--verbosity', '8', '--json-ui'] + (['--trace'] if trace else [])
    t = time.time()
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return dict(n=n, status='timeout', wall=time.time() - t)
    try: doc = json.loads(p.stdout.decode('utf-8', 'replace'))
    except ValueError: return dict(n=n, status='error', text=(p.stdout + p.stderr).decode('utf-8', 'replace')[-1500:], wall=time.time() - t)
    r = dict(n=n, status='error', failed=[], props=0, nobody=[], steps=0, vccs=0, variables=0, clauses=0, solver_s=0.0, traces=[], wall=time.time() - t, functions=set(), text='')
    for e in doc:
        m = e.get('messageText', '')
        if 'no body for' in m: r['nobody'].append(m)
        if e.get('messageType') == 'ERROR': r['text'] += m + '\n'
        x = re.search(r'size of program expression: (\d+) steps', m)
        if x: r['steps'] = int(x.group(1))
        x = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
        if x: r['vccs'] = int(x.group(2))
        x = re.search(r'(\d+) variables, (\d+) clauses', m)
        if x: r['variables'], r['clauses'] = int(x.group(1)), int(x.group(2))
        x = re.search(r'Runtime Solver: ([\d.e-]+)s', m)
        if x: r['solver_s'] += float(x.group(1))
        for q in e.get('result', []):
            r['props'] += 1
            loc = q.get('sourceLocation', {})
            if loc.get('file', '').endswith('xmlstring.c'): r['functions'].add('clib/xmlstring.c:' + loc.get('function', ''))
            if q['status'] == 'FAILURE':
                r['failed'].append(q['description'])
                if 'trace' in q: r['traces'].append((q['description'], q['trace']))
        if 'cProverStatus' in e: r['status'] = e['cProverStatus']
    return r


def inputs(trace, n):
    b, bad = [0] * n, False
    for s in trace:
        if s.get('stepType') != 'assignment': continue
        l, v = s.get('lhs', ''), s.get('value', {})
        m = re.match(r'BYTES\[(\d+)l?\]$', l)
        if m and int(m.group(1)) < n and 'binary' in v: b[int(m.group(1))] = int(v['binary'], 2)
        if l == 'ARGS_BAD' and 'data' in v: bad = v['data'] not in ('0', 'FALSE')
    return 'bad' if bad else bytes(b).hex()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rnd = random.Random(seed)
    t0 = time.time()
    top = 8 if args.tier == 'quick' else 14
    d = tempfile.mkdtemp(prefix='isxml')
    rc, lines, notes, viol = 0, [], [], None
    try:
        with open(os.path.join(d, 'oracle.py'), 'w') as f: f.write(ORACLE)
        inc = sh([REALPY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], 60).stdout.decode().strip()
        so = os.path.join(d, 'cxmlstring.so')
        b = sh(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + os.path.dirname(SRC), '-I' + inc, SRC, '-o', so], 120)
        if b.returncode:
            print('ERROR: the extension does not compile\n' + b.stdout.decode('utf-8', 'replace')[-1500:])
            return 2
        common = ['gcc', '-w', '-g', '-DNMAX=64', '-DXMLSTRING_C="%s"' % SRC, '-I' + os.path.join(CP, 'include'), '-I' + os.path.dirname(SRC), os.path.join(CP, 'isxml_harness.c'), '-Wl,--unresolved-symbols=ignore-all']
        model, native = os.path.join(d, 'model'), os.path.join(d, 'native')
        sh(common + ['-DMODEL', '-o', model], 120)
        sh(common + ['-fsanitize=address', '-o', native], 120)
        # ---- the decoder model against Python's codecs
        pool = [bytes([x]) for x in range(256)] + [bytes([x, y]) for x in (0, 0x3C, 0x7F, 0x80, 0xC2, 0xD8, 0xDC, 0xE0, 0xFE, 0xFF) for y in range(256)]
        marks = [b'\xef\xbb\xbf', b'\xfe\xff', b'\xff\xfe', b'\0\0\xfe\xff', b'\xff\xfe\0\0', b'\xfe\xff\0\0', b'\0\0\xff\xfe', b'<?xm', b'\0<\0?', b'<\0?\0', b'\x4c\x6f\xa7\x94', b'\0\0\0<', b'<\0\0\0', b'\0\0<\0', b'\0<\0\0',
                 b'', b'<', b' ', b' \n\t\r<', '\u20ac'.encode(), '\U0001f600'.encode(), b'\xed\xa0\x80', b'\xd8\x3d\xde\x00', b'\xf4\x90\x80\x80', b'\0<', b'<\0', b'\0 \0<', b' \0<\0', b'\0\0\0 ', b'\xc0\xbc', b'a']
        for _ in range(3000): pool.append(b''.join(rnd.choice(marks) if rnd.random() < .7 else bytes([rnd.randrange(256)]) for _ in range(rnd.randrange(1, 6))))
        validated_model = 0
        if os.path.exists(model):
            ask, exp = [], []
            for s in pool:
                for enc in ('utf-8', 'utf-16', 'utf-32', 'utf-16-be', 'utf-32-be', 'utf-8-sig'):
                    ask.append('%s %s' % (enc, s.hex() or '-'))
                    try: exp.append([ord(c) for c in s.decode(enc)])
                    except UnicodeDecodeError: exp.append(None)
            out = subprocess.run([model], input='\n'.join(ask) + '\n', stdout=subprocess.PIPE, timeout=120, text=True).stdout.split('\n')
            for q, e, o in zip(ask, exp, out):
                o = o.split()
                got = None if int(o[0]) < 0 else [int(x, 16) for x in o[1:]]
                if got != e:
                    print('ERROR: the decoder model differs from Python on %s: %r %r' % (q, got, e))
                    return 2
                validated_model += 1
        # ---- the solver
        with ThreadPoolExecutor(8) as ex:
            cover = ex.submit(cbmc, 4, ['-DCOVER'])
            runs = list(ex.map(cbmc, range(top, -1, -1)))
            cover = cover.result()
        undecided = []
        for r in runs:
            if args.v: print(r['n'], r['status'], '%.1fs' % r['wall'], r.get('failed'), r.get('nobody'), r.get('text', '')[:300])
            if r['status'] == 'success': continue
            if r['status'] != 'failure':
                undecided.append((r['n'], r['status'], r.get('text', '')[:400]))
                continue
            if viol: continue
            r2 = cbmc(r['n'], trace=True)
            for what, tr in r2.get('traces', []):
                case = inputs(tr, r['n'])
                if case != 'bad':
                    got, err = real(d, so, [case])
                    if not got or got[0][1] != got[0][2]:
                        viol = (case, '%s; the extension gives %r for bytes %s, expected %r %s' % (what, got[0][1] if got else 'a crash', case, got[0][2] if got else '', err))
                        break
                if os.path.exists(native) and not r['nobody']:
                    p = sh([native, case], 60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
                    if p.returncode != 0:
                        viol = (case, '%s; run natively on bytes %s: %s' % (what, case, p.stdout.decode('utf-8', 'replace')[:500]))
                        break
            else: undecided.append((r['n'], 'counterexample not reproduced', r['failed'][:4]))
        # ---- the real extension on a sample, against Python's codecs
        sample = sorted(set(s.hex() for s in pool))
        rnd.shuffle(sample)
        sample = sample[:1500] + ['']
        got, err = real(d, so, sample)
        bad = [g for g in got if g[1] != g[2]]
        if viol is None and (bad or len(got) < len(sample)):
            case = bad[0][0] if bad else sample[len(got)]
            viol = (case, 'the extension gives %r for bytes %s, expected %r %s' % (bad[0][1], case, bad[0][2], '') if bad else 'the extension fails at bytes %s: %s' % (case, err))
        wanted = {'cover: true after decoding', 'cover: true by signature', 'cover: false', 'cover: bad arguments'}
        missing = wanted - set(cover.get('failed', []))
        if viol:
            os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
            path = os.path.join(ROOT, 'evidence', 'replays', PROP + '.json')
            with open(path, 'w') as f: json.dump(dict(property=PROP, bytes_hex=viol[0], message=viol[1], note='isxml(bytes.fromhex(...)) of the extension built from clib/xmlstring.c'), f, indent=1)
            print('counterexample: ' + viol[1])
            print('VIOLATION property=%s replay=%s' % (PROP, path))
            rc = 1
        elif missing and cover.get('status') == 'failure' and not any(r.get('nobody') for r in runs):
            print('ERROR: vacuous: not reached: %s' % sorted(missing))
            rc = 2
        for u in undecided: print('note: undecided: length %s: %s %s' % u)
        ok = [r for r in runs if r['status'] == 'success']
        ev = dict(property=PROP, tier=args.tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
                  coverage=dict(states=sum(r.get('steps', 0) for r in runs), transitions=sum(r.get('vccs', 0) for r in runs), traces_validated_against_impl=len(got),
                                samples=[dict(bytes=g[0], isxml=g[1], expected=g[2]) for g in got[:12]],
                                rule='states = steps of the unrolled symbolic program, transitions = verification conditions given to the solver, over all argument lengths',
                                bounds=[dict(length=r['n'], status=r['status'], steps=r.get('steps'), conditions=r.get('vccs'), properties=r.get('props'), variables=r.get('variables'), clauses=r.get('clauses'),
                                             solver_s=round(r.get('solver_s', 0), 2), wall_s=round(r['wall'], 1)) for r in sorted(runs, key=lambda r: r['n'])],
                                exhaustive=len(ok) == len(runs), undecided=[list(map(str, u)) for u in undecided], functions_encoded=sorted(set().union(*[r.get('functions', set()) for r in runs])),
                                solver='CBMC 6.11 (SAT)', solver_queries=len(runs) + 1, solver_time_s=round(sum(r.get('solver_s', 0) for r in runs), 2), unwinding_assertions=True,
                                reached=sorted(wanted - missing), functions_without_a_model=sorted(set(x for r in runs for x in r.get('nobody', []))), decoder_model_cases_compared_with_python=validated_model),
                  assumptions=['The CPython API is the model in cprops/ (its decoders are compared with Python\'s codecs on every run). True and False are immortal. Memory allocation succeeds. '
                               'Arguments longer than the bound are not covered, nor is the module initialisation, beyond that the built extension loads and answers.'])
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', PROP + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: rc=%d lengths=0..%d decided=%d conditions=%d solver=%.1fs validated=%d wall=%.1fs' % (PROP, args.tier, rc, top, len(ok), ev['coverage']['transitions'], ev['coverage']['solver_time_s'], len(got), time.time() - t0))
        return rc
    finally: shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__': sys.exit(main())
