"""One check run: model check, replay, record, validate, report."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

from . import graph, tlc
from .tlc import MachineryError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NOBODY = 65534


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.rnd = random.Random('%s/%s' % (pid, seed))
        self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % pid, dir='/var/tmp' if os.path.isdir('/var/tmp') else None)
        os.chmod(self.scratch, 0o755)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'trace_steps': 0, 'samples': [], 'parts': []}
        self.violations = []
        self.assumptions = []

    # -- model ----------------------------------------------------------
    def model_check(self, module, consts=None, emit=True, **kw):
        r, trs = tlc.model_check(self.scratch, module, consts, emit=emit, **kw)
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.states
        trs.sort(key=lambda t: json.dumps(t, sort_keys=True))
        ops = {}
        for t in trs:
            k = t['c'].get('op', '?')
            ops[k] = ops.get(k, 0) + 1
        self.cov['parts'].append({'model': module, 'constants': consts, 'distinct_states': r.distinct,
                                  'transitions': r.states, 'depth': r.depth, 'ops': ops})
        if emit and not trs:
            raise MachineryError('model %s has no transitions: vacuous' % module)
        self.last_inits = sorted(r.inits, key=graph.key)
        return trs

    # -- code -----------------------------------------------------------
    def numba_cache(self):
        """The installed packages' compiled numba functions, where the unprivileged worker can use them."""
        d = os.path.join(self.scratch, 'numba')
        if not os.path.isdir(d):
            os.mkdir(d)
            for top, _, names in os.walk(os.path.dirname(PY) + '/../lib'):
                if os.path.basename(top) != '__pycache__':
                    continue
                names = [n for n in names if n.endswith(('.nbi', '.nbc'))]
                if names:
                    src = os.path.realpath(os.path.dirname(top))
                    t = os.path.join(d, os.path.basename(src) + '_' + hashlib.sha1(src.encode()).hexdigest())
                    os.mkdir(t)
                    for n in names:
                        shutil.copy2(os.path.join(top, n), t)
            for top, ds, fs in os.walk(d):
                for n in [top] + [os.path.join(top, f) for f in fs]:
                    os.chown(n, NOBODY, NOBODY)
        return d

    def run_code(self, driver, sessions, op_timeout=60, procs=6, stall=None):
        """Execute sessions on the code in /repo; returns recorded sessions in order."""
        if not sessions:
            return []
        procs = max(1, min(procs, len(sessions)))
        jobs = []
        for p in range(procs):
            d = tempfile.mkdtemp(prefix='w%d_' % p, dir=self.scratch)
            sd = os.path.join(d, 'scratch')
            os.mkdir(sd)
            inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.ndjson')
            mine = [(i, s) for i, s in enumerate(sessions) if i % procs == p]
            with open(inp, 'w') as f:
                json.dump({'sessions': mine, 'op_timeout': op_timeout}, f)
            for x in (d, sd, inp):
                os.chown(x, NOBODY, NOBODY)
            env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': sd, 'PYTHONDONTWRITEBYTECODE': '1',
                   'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'TZ': 'UTC', 'OMP_NUM_THREADS': '1',
                   'OPENBLAS_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1', 'LANG': 'C.UTF-8',
                   'TMPDIR': sd, 'MPLCONFIGDIR': sd, 'NUMBA_CACHE_DIR': self.numba_cache(), 'USER': 'nobody', 'LOGNAME': 'nobody',
                   'VF_SEED': str(self.seed)}
            err = open(os.path.join(d, 'err.txt'), 'wb')
            pr = subprocess.Popen([PY, '-W', 'ignore', os.path.join(ROOT, 'vf', 'worker.py'), driver, inp, outp, sd],
                                  cwd=sd, env=env, stderr=err, stdout=subprocess.DEVNULL,
                                  stdin=subprocess.DEVNULL, user=NOBODY, group=NOBODY, extra_groups=[],
                                  start_new_session=True)
            jobs.append({'d': d, 'p': pr, 'out': outp, 'mine': [i for i, _ in mine], 'size': -1, 't': time.time()})
        stall = stall or (op_timeout * 2 + 60)
        live = list(jobs)
        while live:
            time.sleep(0.05)
            for j in list(live):
                if j['p'].poll() is not None:
                    live.remove(j)
                    continue
                sz = os.path.getsize(j['out']) if os.path.exists(j['out']) else -1
                if sz != j['size']:
                    j['size'], j['t'] = sz, time.time()
                elif time.time() - j['t'] > stall:
                    j['killed'] = True
                    self._killpg(j['p'])
                    live.remove(j)
        recs = {}
        for j in jobs:
            self._killpg(j['p'])
            started = done = False
            if os.path.exists(j['out']):
                with open(j['out']) as f:
                    for line in f:
                        try:
                            o = json.loads(line)
                        except ValueError:
                            continue
                        if 'fatal' in o:
                            for i in j['mine']:
                                recs[i] = {'steps': [], 'broken': 'the code could not be imported:\n' + o['trace']}
                            done = True
                        elif 'started' in o:
                            started = True
                        elif 'done' in o:
                            done = True
                        elif 'n' in o:
                            recs[o['n']] = o
            if not done:
                err = open(os.path.join(j['d'], 'err.txt'), errors='replace').read()[-3000:]
                if not started and not j.get('killed'):
                    raise MachineryError('worker %s did not start (rc %s): %s' % (driver, j['p'].returncode, err))
                why = 'the code hung and was killed' if j.get('killed') else \
                    'the process running the code died (rc %s)' % j['p'].returncode
                first = [i for i in j['mine'] if i not in recs][:1]
                for i in j['mine']:
                    if i not in recs:
                        recs[i] = {'steps': [], 'broken' if i in first else 'skipped': why + '\n' + err}
            shutil.rmtree(j['d'], ignore_errors=True)
        return [recs[i] for i in range(len(sessions))]

    @staticmethod
    def _killpg(p):
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            pass

    # -- verdict --------------------------------------------------------
    def validate(self, module, sessions, recs, consts=None, label='', canary=None, batch=4000, first=True, **kw):
        """Trace-validate what the code did; anything TLC rejects is a violation."""
        ok, idx = [], []
        for i, r in enumerate(recs):
            if r.get('skipped'):
                continue
            if r.get('broken'):
                self.violation({'kind': 'the code did not complete the session', 'what': r['broken'],
                                'module': module, 'session': sessions[i], 'recorded': r['steps'][-3:]})
                if r.get('init') is None or not r['steps']:
                    continue
            ok.append({'init': r['init'], 'steps': r['steps']})
            w = sessions[i].get('init')
            if w is not None and set(w) == set(r['init']):
                ok[-1]['want'] = w
            elif w is not None or not first:
                ok[-1]['want'] = r['init']
            idx.append(i)
        canaries = []
        if ok and canary:
            for k in range(min(len(ok), 200)):
                c = canary(json.loads(json.dumps(ok[k])))
                if c is not None:
                    canaries.append(c)
                if len(canaries) >= 2:
                    break
        for b in range(0, len(ok), batch):
            part = ok[b:b + batch]
            extra = canaries if b == 0 else []
            r, rej = tlc.validate(self.scratch, module, part + extra, consts, **kw)
            self.cov['traces_validated_against_impl'] += len(part)
            self.cov['trace_steps'] += sum(len(s['steps']) for s in part)
            self.cov['parts'].append({'trace_spec': module, 'label': label, 'sessions': len(part),
                                      'steps': sum(len(s['steps']) for s in part), 'tlc_states': r.states,
                                      'canaries_rejected': len([x for x in rej if x >= len(part)])})
            for k in range(len(extra)):
                if len(part) + k not in rej and not [x for x in rej if x < len(part)]:
                    raise MachineryError('corrupted trace accepted by %s: the binding is vacuous' % module)
            for k in sorted(rej):
                if k < len(part):
                    pos = rej[k]
                    s = part[k]
                    self.violation({'kind': 'behaviour not allowed by the specification', 'module': module,
                                    'accepted_prefix': pos,
                                    'state_before': s['steps'][pos - 1]['s'] if pos > 0 else s['init'],
                                    'rejected_step': s['steps'][pos] if 0 <= pos < len(s['steps']) else None,
                                    'session': sessions[idx[b + k]]})
        if ok and len(self.cov['samples']) < 6:
            s = max(ok[:50], key=lambda z: len(z['steps']))
            self.cov['samples'].append({'module': module, 'label': label, 'init': s['init'], 'steps': s['steps'][:4]})

    def sample(self, obj):
        self.cov['samples'].append(obj)

    def violation(self, info):
        self.violations.append(info)

    def bump(self, traces=0, steps=0):
        self.cov['traces_validated_against_impl'] += traces
        self.cov['trace_steps'] += steps

    # -- the usual shape of a check ---------------------------------------
    def conform(self, module, driver, consts, extra_sessions=(), concretise=None, trace_consts=None,
                variants=1, spread=True, max_len=30, max_paths=100000, canary=None, mc_kw=None, label='', **code_kw):
        """model check -> tour of every (state, call) -> run on the code -> TLC validates."""
        trs = self.model_check(module, consts, **(mc_kw or {}))
        inits = self.last_inits
        paths, stat = graph.cover(trs, inits, self.seed, max_len=max_len, max_paths=max_paths)
        self.cov['parts'].append({'tour_of': module, 'paths': len(paths), **stat})
        sessions = []
        for v in range(variants):
            for k, (init, calls) in enumerate(paths):
                s = {'init': init, 'calls': calls, 'variant': (v + k) if spread else v, 'seed': self.rnd.randrange(1 << 30)}
                if concretise:
                    s = concretise(s)
                sessions.append(s)
        sessions += list(extra_sessions)
        recs = self.run_code(driver, sessions, **code_kw)
        self.validate(module, sessions, recs, trace_consts or consts, label=label or 'tour+random', canary=canary)
        return trs, sessions, recs

    def finish(self, level):
        wall = time.time() - self.t0
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.violations)}
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + '.json'))
        rp = os.path.join(d, 'replay_%s.json' % self.pid)
        if os.path.exists(rp):
            os.remove(rp)
        if self.violations:
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                           'rerun': 'VERIF_SEED=%d VERIF_TIER=%s ./check %s' % (self.seed, self.tier, self.pid),
                           'violations': self.violations[:50]}, f, indent=1)
            v = self.violations[0]
            print('%d violation(s); first: %s' % (len(self.violations), json.dumps(v)[:2500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
