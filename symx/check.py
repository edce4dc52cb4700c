"""check.py PROP [--tier quick|thorough] : decide a property by exhaustive symbolic exploration of its harnesses."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from symx import load
from symx.engine import E, Abort, Hang, Violation
from symx.ctx import plain

REALPY = '/opt/venv/bin/python'
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')


def known_keys(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                k, _, text = rest.partition(' ')
                assert k.startswith('key=')
                out[k[4:]] = text
    return out


class Runner:
    """Runs one exploration item in this process."""
    def __init__(self, mod, tier, known):
        from symx.symctx import SymCtx
        self.SymCtx = SymCtx
        self.mod, self.tier, self.known = mod, tier, known

    def run(self, item):
        sname, variant, asg, bound, expect = item
        scn = self.mod.SCENARIOS[sname]
        params = scn.variants(self.tier)[variant]
        load.restore()
        from symx import fakexpat, fakehtml
        fakexpat.reset()
        fakehtml.reset()
        E.reset(dict(asg), bound, expect)
        E.step_limit = 4000000
        ctx = self.SymCtx(scn.steps)
        status, msg, key = 'ok', '', None
        try:
            scn.fn(ctx, **params)
        except Abort: status = 'aborted'
        except Violation as v: status, msg, key = 'violation', v.msg, v.key
        except Hang: status, msg, key = 'violation', 'hang', 'hang'
        except Exception as e:
            status, msg, key = 'violation', 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), 'exc:' + type(e).__name__
            self.last_tb = traceback.format_exc()[-2500:]
        st = E.stats
        st.runs += 1
        st.checks += ctx.nchecks
        if status == 'aborted': st.aborted += 1
        else: st.paths += 1
        if status == 'violation' and key in self.known:
            status = 'known'
            st.known += 1
        if E.incomplete: st.truncated += 1
        kids = [(sname, variant, a, b, e) for a, b, e in E.children()]
        return status, msg, key, ctx, dict(E.asg), kids


def worker(wid, mod, tier, known, workq, resq, pending, idle, stop, seed, nworkers, keep):
    try:
        import signal, ctypes
        try: ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        except Exception: pass
        rnd = random.Random(seed * 1000 + wid)
        r = Runner(mod, tier, known)
        stack = []
        samples = {}
        counts = {}
        labels = {}
        sent = {}
        knownhit = {}
        waiting = False
        turn = time.time()
        while not stop.value:
            # every scenario gets its turn, even when the time is too short for all of them
            if stack and time.time() - turn > 5:
                turn = time.time()
                if workq.qsize() > 0:
                    workq.put(stack)
                    stack = []
            if not stack:
                if not waiting:
                    waiting = True
                    with idle.get_lock(): idle.value += 1
                try: got = workq.get(timeout=0.05)
                except queue.Empty:
                    if pending.value == 0: break
                    continue
                waiting = False
                with idle.get_lock(): idle.value -= 1
                stack = list(got)
                turn = time.time()
            item = stack.pop()
            status, msg, key, ctx, asg, kids = r.run(item)
            sname, variant = item[0], item[1]
            if status == 'violation':
                n = sent.get((sname, key), 0)
                if n < 4:
                    sent[(sname, key)] = n + 1
                    resq.put(('violation', dict(scenario=sname, variant=variant, tier=tier, asg=asg), msg, key,
                              getattr(r, 'last_tb', None) if key and key.startswith('exc:') else None))
            elif status == 'known':
                if key not in knownhit:
                    knownhit[key] = (dict(scenario=sname, variant=variant, tier=tier, asg=asg), msg)
            elif status == 'ok':
                labels.setdefault(sname, set()).update(ctx.labels)
                k = (sname, variant)
                c = counts[k] = counts.get(k, 0) + 1
                lst = samples.setdefault(k, [])
                rec = (dict(scenario=sname, variant=variant, tier=tier, asg=asg), ctx.observed,
                       [('%s%s' % ('' if o else 'not ', repr(cd)[:160])) for cd, o, _, kd in E.trace][:12])
                if len(lst) < keep: lst.append(rec)
                else:
                    j = rnd.randrange(c)
                    if j < keep: lst[j] = rec
            stack.extend(kids)
            if len(kids) != 1:
                with pending.get_lock(): pending.value += len(kids) - 1
            if idle.value > 0 and len(stack) > 1 and workq.qsize() < nworkers:
                n = max(1, len(stack) // 2)
                give, stack = stack[:n], stack[n:]
                if len(give) > 64:
                    stack = give[64:] + stack
                    give = give[:64]
                workq.put(give)
        from symx import rt
        resq.put(('done', E.stats.as_dict(), samples, counts, labels, sorted(E.entered), knownhit, dict(rt.UNKNOWN_NATIVE)))
        resq.close()
        resq.join_thread()
    except BaseException:
        resq.put(('crash', traceback.format_exc()))
        resq.close()
        resq.join_thread()
    os._exit(0)


def run_real(prop, cases, timeout=120, per=8.0):
    """Run cases on the real package in a fresh process; list of results (None where the process died)."""
    d = tempfile.mkdtemp(prefix='symx')
    try:
        p = os.path.join(d, 'cases.json')
        with open(p, 'w') as f: json.dump(dict(prop=prop, cases=cases, timeout=per), f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=os.environ.get('VERIF_AMARA', '/opt/amara3-path'))
        try:
            out = subprocess.run([REALPY, os.path.join(HERE, 'real.py'), p], cwd=d, env=env, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, timeout=timeout)
            lines, err = out.stdout.decode('utf-8', 'replace').split('\n'), out.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            lines, err = (e.stdout or b'').decode('utf-8', 'replace').split('\n'), 'timeout'
        res = []
        for l in lines:
            if l.startswith('{'):
                try: res.append(json.loads(l))
                except ValueError: break
        missing = len(cases) - len(res)
        if missing: res += [dict(verdict='died', msg=err[-500:], key=None, obs=None)] + [None] * (missing - 1)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def show_asg(asg):
    """Readable rendering of an assignment: texts joined."""
    texts, other = {}, {}
    for k, v in asg.items():
        base, _, i = k.rpartition('.')
        if base and i.isdigit(): texts.setdefault(base, {})[int(i)] = v
        else: other[k] = v
    out = {}
    for b, d in texts.items():
        out[b] = ''.join(chr(d.get(i, 63)) for i in range(max(d) + 1))
    out.update(other)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', default=None, help='run only these scenarios (comma separated)')
    ap.add_argument('--no-validate', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    random.seed(seed)
    t0 = time.time()
    budget = args.budget if args.budget is not None else (300 if tier == 'quick' else 3000)
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    load.install()
    mod = importlib.import_module('vprops.' + prop.lower())
    load.snapshot()
    known = known_keys(prop)
    names = [n for n in mod.SCENARIOS if not args.only or n in args.only.split(',')]
    mgr_workq = mp.Queue()
    resq = mp.Queue()
    items = [(n, v, {}, 0, None) for n in names for v in range(len(mod.SCENARIOS[n].variants(tier)))]
    pending = mp.Value('l', len(items))
    idle = mp.Value('i', 0)
    stop = mp.Value('b', 0)
    keep = max(4, (400 if tier == 'quick' else 2000) // max(1, len(items)) // args.workers)
    for it in items: mgr_workq.put([it])
    procs = [mp.Process(target=worker, args=(i, mod, tier, set(known), mgr_workq, resq, pending, idle, stop, seed, args.workers, keep),
                        daemon=True) for i in range(args.workers)]
    for p in procs: p.start()
    done, viols, unrep, tot = 0, [], [], {}
    samples, counts, labels, entered, knownhit, natives = {}, {}, {}, set(), {}, {}
    crashed = None
    exhaustive = True
    confirmed = None
    stop_at = None
    while done < len(procs):
        try: m = resq.get(timeout=0.5)
        except queue.Empty:
            if time.time() - t0 > budget and not stop.value:
                exhaustive = False
                stop.value = 1
                stop_at = time.time()
            if stop_at and time.time() - stop_at > 60: break
            if not any(p.is_alive() for p in procs) and resq.empty():
                crashed = crashed or 'worker died'
                break
            continue
        if m[0] == 'done':
            done += 1
            for k, v in m[1].items(): tot[k] = tot.get(k, 0) + v
            for k, v in m[2].items(): samples.setdefault(k, []).extend(v)
            for k, v in m[3].items(): counts[k] = counts.get(k, 0) + v
            for k, v in m[4].items(): labels.setdefault(k, set()).update(v)
            entered.update(m[5])
            for k, v in m[6].items(): knownhit.setdefault(k, v)
            for k, v in m[7].items(): natives[k] = natives.get(k, 0) + v
        elif m[0] == 'crash':
            done += 1
            crashed = m[1]
            stop.value = 1
            stop_at = stop_at or time.time()
        elif m[0] == 'violation':
            if confirmed is None:
                rr = run_real(prop, [m[1]], timeout=60)[0]
                if args.v: print('candidate:', m[3], m[2][:400], show_asg(m[1]['asg']), '-> real:', rr['verdict'], rr['msg'][:200], flush=True)
                # the replay decides: the real code must fail, and not merely with a failure that is listed
                if rr['verdict'] in ('violation', 'died') and rr.get('key') not in known:
                    confirmed = (m[1], m[2], m[3], rr)
                    stop.value = 1
                    stop_at = time.time()
                else:
                    unrep.append((m[1], m[2], m[3], rr, m[4]))
                    if len(unrep) > 60:
                        stop.value = 1
                        stop_at = stop_at or time.time()
    for p in procs:
        p.join(timeout=1)
        if p.is_alive(): p.kill()
    rc = 0
    out = []
    # ---- validate a sample of explored paths on the real code
    validated = mismatched = 0
    mism = []
    if not args.no_validate and confirmed is None and not crashed:
        cap = 240 if tier == 'quick' else 2000
        allc = []
        rnd = random.Random(seed)
        keys = sorted(samples)
        per = max(2, cap // max(1, len(keys)))
        for k in keys:
            l = samples[k]
            rnd.shuffle(l)
            allc.extend(l[:per])
        chunks = [allc[i::8] for i in range(8)]
        from concurrent.futures import ThreadPoolExecutor
        threading.stack_size(0)
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda c: run_real(prop, [x[0] for x in c], timeout=300) if c else [], chunks))
        for c, rs in zip(chunks, results):
            for (case, obs, tr), r in zip(c, rs):
                if r is None: continue
                if r['verdict'] != 'ok' or json.loads(json.dumps(obs)) != r['obs']:
                    r2 = run_real(prop, [case], timeout=60)[0]
                    if r2['verdict'] == 'violation' and r2.get('key') not in known and confirmed is None:
                        confirmed = (case, r2['msg'], r2.get('key'), r2)
                    elif r2['verdict'] == 'ok' and json.loads(json.dumps(obs)) == r2['obs']:
                        validated += 1
                        continue
                    mismatched += 1
                    mism.append((case, obs, r2))
                else: validated += 1
    wall = time.time() - t0
    # ---- known findings: each one hit is replayed on the real code as well
    for k in sorted(knownhit):
        case, msg = knownhit[k]
        rr = run_real(prop, [case], timeout=60)[0]
        if rr['verdict'] == 'violation' and rr.get('key') == k:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    missing = []
    for n in names:
        for c in mod.SCENARIOS[n].covers:
            if c not in labels.get(n, ()): missing.append('%s:%s' % (n, c))
    rep_dir = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(rep_dir, exist_ok=True)
    if confirmed:
        case, msg, key, rr = confirmed
        path = os.path.join(rep_dir, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(prop=prop, cases=[case], note='run: %s %s <this file>' % (REALPY, os.path.join(HERE, 'real.py')),
                           message=msg, inputs=show_asg(case['asg']), real=rr), f, indent=1)
        print('counterexample (%s): %s' % (case['scenario'], rr['msg'][:1500] or msg))
        print('inputs: %s' % json.dumps(show_asg(case['asg']))[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif crashed:
        print('ERROR: worker crashed\n%s' % crashed)
        rc = 2
    elif len(unrep) > 20:
        for case, msg, key, rr, tb in unrep[:3]:
            print('ERROR: counterexample does not reproduce on the real code: %s %s %s -> %s\n%s' % (case['scenario'], msg[:600], show_asg(case['asg']), rr, tb or ''))
        rc = 2
    elif mismatched > 0.02 * max(50, validated):
        for case, obs, r in mism[:3]:
            print('ERROR: symbolic and real runs disagree: %s %s\n sym %.1500r\n real %.1500r' % (case['scenario'], show_asg(case['asg']), obs, r))
        rc = 2
    elif missing and exhaustive:
        print('ERROR: vacuous: not reached: %s' % ', '.join(missing))
        rc = 2
    for case, msg, key, rr, tb in unrep[:3] if rc == 0 else []:
        print('note: a counterexample did not reproduce on the real code; its path counts as undecided: %s %s %s' % (case['scenario'], msg[:600], show_asg(case['asg'])))
    if mism and rc == 0 or args.v:
        for case, obs, r in mism[:3]:
            print('note: mismatch %s %s\n sym %.1500r\n real %.1500r' % (case['scenario'], show_asg(case['asg']), obs, r))
    nfun = sorted(f for f in entered if f.startswith(('amara3.', 'microx:')))
    samp = []
    for k in sorted(samples):
        for case, obs, tr in samples[k][:2]:
            samp.append(dict(scenario=k[0], inputs=show_asg(case['asg']), observed=repr(obs)[:400], path_condition=tr))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=1 if confirmed else 0,
              coverage=dict(
                  states=tot.get('paths', 0), transitions=tot.get('branches', 0), traces_validated_against_impl=validated,
                  samples=samp[:40], exhaustive=bool(exhaustive and not unrep and not tot.get('truncated') and not tot.get('unknown')), paths_undecided=len(unrep),
                  rule='states = complete symbolic paths (each stands for all inputs satisfying its path condition); transitions = '
                       'decisions on symbolic values; every decision\'s other side was given to z3',
                  functions_encoded=nfun, functions_encoded_count=len(nfun),
                  bounds=[dict(scenario=n, parameters=mod.SCENARIOS[n].variants(tier), text=mod.SCENARIOS[n].bounds,
                               paths=sum(v for k, v in counts.items() if k[0] == n), reached=sorted(labels.get(n, ())))
                          for n in names],
                  assertions_checked=tot.get('checks', 0), flips_asked=tot.get('flips', 0), flips_satisfiable=tot.get('feasible', 0),
                  flips_unsatisfiable=tot.get('infeasible', 0), flips_unknown=tot.get('unknown', 0), solver='z3 (python bindings)',
                  solver_queries=tot.get('z3_queries', 0), solver_memo_hits=tot.get('memo_hits', 0),
                  solver_time_s=round(tot.get('z3_time', 0), 3), implied_by_interval_domains=tot.get('implied', 0),
                  paths_outside_assumptions=tot.get('aborted', 0), paths_with_concretised_values=tot.get('truncated', 0),
                  native_calls_concretised=natives, replay_mismatches=mismatched, known_finding_paths=tot.get('known', 0)),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: rc=%d paths=%d branches=%d checks=%d z3=%d (%.1fs) validated=%d exhaustive=%s truncated=%d unknown=%d known=%d wall=%.1fs'
          % (prop, tier, rc, tot.get('paths', 0), tot.get('branches', 0), tot.get('checks', 0), tot.get('z3_queries', 0),
             tot.get('z3_time', 0), validated, exhaustive, tot.get('truncated', 0), tot.get('unknown', 0), tot.get('known', 0), wall))
    if args.v:
        for b in ev['coverage']['bounds']: print('  ', b['scenario'], b['paths'], b['reached'])
        for k, v in sorted(counts.items(), key=lambda x: -x[1])[:14]: print('     ', k[0], mod.SCENARIOS[k[0]].variants(tier)[k[1]], v)
        print('   natives', natives, 'unrep', len(unrep))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__': main()
