"""Run harness cases on the real, uninstrumented package: real.py CASES.json -> one JSON result per line."""
import importlib
import json
import os
import resource
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    sys.path.insert(1, os.environ.get('VERIF_AMARA', '/opt/amara3-path'))
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from symx.yaccpatch import patch_yacc
    patch_yacc()
    from symx.ctx import RealCtx, RealViolation, RealAbort, RealHang
    with open(sys.argv[1]) as f: data = json.load(f)
    mod = importlib.import_module('vprops.' + data['prop'].lower())
    for case in data['cases']:
        scn = mod.SCENARIOS[case['scenario']]
        params = scn.variants(case['tier'])[case['variant']]
        ctx = RealCtx(case['asg'], timeout=data.get('timeout', 8.0))
        res = dict(verdict='ok', msg='', key=None)
        try:
            scn.fn(ctx, **params)
        except RealViolation as v: res = dict(verdict='violation', msg=v.msg, key=v.key)
        except RealAbort: res['verdict'] = 'aborted'
        except RealHang: res = dict(verdict='violation', msg='hang', key='hang')
        except Exception as e:
            res = dict(verdict='violation', msg='unexpected %s: %s' % (type(e).__name__, e), key='exc:' + type(e).__name__,
                       tb=traceback.format_exc()[-1500:])
        res['obs'] = ctx.observed
        sys.stdout.write(json.dumps(res) + '\n')
        sys.stdout.flush()


if __name__ == '__main__': main()
