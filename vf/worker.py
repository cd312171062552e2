"""Runs sessions against the code in /repo, in a process of its own.

    worker.py DRIVER IN.json OUT.ndjson SCRATCH

The process drops root: the code under test runs as an unprivileged user that
owns nothing but SCRATCH.  Everything the code does -- including raising,
hanging or dying -- becomes part of the recorded session.
"""
import faulthandler
import importlib
import json
import os
import signal
import sys
import traceback
import warnings


class OpTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise OpTimeout()


def main():
    driver, inp, outp, scratch = sys.argv[1:5]
    warnings.simplefilter('ignore')
    faulthandler.enable()
    sys.path.insert(0, '/verif')
    sys.path.insert(0, '/repo')
    sys.dont_write_bytecode = True
    with open(inp) as f:
        job = json.load(f)
    out = open(outp, 'w')

    def emit(o):
        out.write(json.dumps(o) + '\n')
        out.flush()

    os.chdir(scratch)
    # the code under test may print
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    limit = job.get('op_timeout', 60)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        mod = importlib.import_module('drivers.' + driver)
    except BaseException:
        emit({'fatal': 'import', 'trace': traceback.format_exc()[-2000:]})
        return
    emit({'started': True})
    hung = 0
    for n, sess in job['sessions']:
        if hung >= 2:          # enough to report; the rest would take its time too
            emit({'n': n, 'steps': [], 'skipped': 'calls do not return'})
            continue
        steps = []
        rec = {'n': n, 'steps': steps}
        try:
            sd = os.path.join(scratch, 's%d' % n)
            os.makedirs(sd)
            os.chdir(sd)
            d = None
            try:
                signal.alarm(limit)
                d = mod.Driver(sess, sd)
                rec['init'] = d.state()
                if hasattr(d, 'trace'):
                    for c, r, s in d.trace():
                        signal.alarm(limit)
                        steps.append({'c': c, 'r': r, 's': s})
                for call in sess['calls']:
                    signal.alarm(limit)
                    r = d.do(call)
                    s = d.state()
                    steps.append({'c': call, 'r': r, 's': s})
            finally:
                signal.alarm(limit)
                if d is not None and hasattr(d, 'close'):
                    d.close()
                signal.alarm(0)
            rec['note'] = getattr(d, 'note', None)
        except OpTimeout:
            hung += 1
            rec['broken'] = 'call did not return within %ss: %s' % (
                limit, json.dumps(sess['calls'][len(steps)] if len(steps) < len(sess['calls']) else None)[:1000])
        except MemoryError:
            raise
        except BaseException:
            rec['broken'] = traceback.format_exc()[-3000:]
        signal.alarm(0)
        os.chdir(scratch)
        emit(rec)
    emit({'done': True})


if __name__ == '__main__':
    main()
