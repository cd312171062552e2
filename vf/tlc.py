"""Running TLC: model checking with transition emission, and trace validation.

Every spec module M in /verif/spec follows one convention, so that the same
text serves both directions of the binding:

    InitStates          set of initial abstract states
    Calls(st)           set of calls the bounded model offers in st
    Outcomes(st, c)     set of [st |-> , res |-> ] the specification allows
                        for call c in state st
    Inv(st)             state invariant
    StepInv(st,c,o)     invariant of a single transition
    StOf(j) / CallOf(j) decode a state / call read from a JSON trace
    Accept(st,c,r,s2)   does the specification allow call c in st to give result
                        r and state s2 (usually: some member of Outcomes does)

MC.tla.in wraps that into Init/Next and prints every generated transition
(spec -> code); TR.tla.in wraps it into a trace specification that accepts
exactly the recorded behaviours the specification allows (code -> spec).
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Run(object):
    def __init__(self):
        self.states = 0
        self.inits = []
        self.distinct = 0
        self.depth = 0
        self.out = ''
        self.rc = None
        self.wall = 0.0


def _prepare(scratch, module, template, cfg_lines, consts):
    d = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    name = template.split('.')[0] + '_' + module
    text = open(os.path.join(SPEC, template)).read().replace('@M@', module)
    text = text.replace('@DEFS@', '\n'.join('K_%s == %s' % kv for kv in (consts or {}).items()))
    with open(os.path.join(d, name + '.tla'), 'w') as f:
        f.write(text)
    with open(os.path.join(d, name + '.cfg'), 'w') as f:
        f.write('\n'.join(cfg_lines) + '\n')
    return d, name


def _tlc(d, name, workers, env, timeout, heap, extra=()):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC',
           '-config', name + '.cfg', '-workers', str(workers), '-metadir', os.path.join(d, 'meta'),
           '-noGenerateSpecTE', '-lncheck', 'final'] + list(extra) + [name + '.tla']
    outp = os.path.join(d, 'out.txt')
    with open(outp, 'wb') as f:
        p = subprocess.Popen(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=e)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise MachineryError('TLC timed out on %s after %ss' % (name, timeout))
    return rc, outp


_STATS = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)
_DEPTH = re.compile(r'depth of the complete state graph search is (\d+)')
TAG = '"@T@'


def _unquote(line):
    # TLC prints a string value with \" and \\ escaped
    s = line[len(TAG):]
    if s.endswith('"'):
        s = s[:-1]
    return s.replace('\\"', '"').replace('\\\\', '\\')


def constants(consts):
    return ['CONSTANT %s <- K_%s' % (k, k) for k, v in (consts or {}).items()]


def model_check(scratch, module, consts, timeout=600, heap='4g', emit=True, workers=4):
    """Exhaustively explore the bounded model of `module`.

    Returns (Run, transitions); a transition is {'s','c','r','t'}.
    A failed invariant here is an error in the specification, never a verdict
    on the implementation: MachineryError.
    """
    cfg = ['SPECIFICATION Spec', 'VIEW View', 'INVARIANT InvOK', 'CHECK_DEADLOCK FALSE',
           'ACTION_CONSTRAINT StepOK']
    if emit:
        cfg.append('ACTION_CONSTRAINT Emit')
    d, name = _prepare(scratch, module, 'MC.tla.in', cfg + constants(consts), consts)
    rc, outp = _tlc(d, name, workers, None, timeout, heap)
    r = Run()
    r.rc = rc
    trs = []
    rest = []
    with open(outp, encoding='utf-8', errors='replace') as f:
        for line in f:
            if line.startswith(TAG):
                trs.append(json.loads(_unquote(line.rstrip('\n'))))
            elif line.startswith('"@I@'):
                r.inits.append(json.loads(_unquote(line.rstrip('\n'))))
            else:
                rest.append(line)
    text = ''.join(rest)
    if rc != 0:
        raise MachineryError('model check of %s failed (rc %s):\n%s' % (module, rc, text[-4000:]))
    m = _STATS.findall(text)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = _DEPTH.search(text)
    if m:
        r.depth = int(m.group(1))
    r.out = text
    shutil.rmtree(d, ignore_errors=True)
    return r, trs


def validate(scratch, module, sessions, consts, timeout=700, heap='4g'):
    """Check recorded sessions against the trace specification of `module`.

    sessions: list of {'init': state, 'steps': [{'c':call,'r':result,'s':state}]}
    Returns (Run, rejected) where rejected is {session index: accepted prefix length}.
    """
    d, name = _prepare(scratch, module, 'TR.tla.in',
                       ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE', 'CONSTRAINT Mark',
                        'POSTCONDITION Report'] + constants(consts), consts)
    tf = os.path.join(d, 'trace.ndjson')
    with open(tf, 'w') as f:
        for s in sessions:
            f.write(json.dumps(s) + '\n')
    rc, outp = _tlc(d, name, 1, {'TRACE_FILE': tf}, timeout, heap)
    r = Run()
    r.rc = rc
    text = open(outp, encoding='utf-8', errors='replace').read()
    m = _STATS.findall(text)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    rej = None
    for line in text.splitlines():
        if line.startswith('"@R@'):
            j = json.loads(line[4:-1].replace('\\"', '"').replace('\\\\', '\\'))
            rej = {int(x['sid']) - 1: int(x['pos']) for x in j}
    if rc != 0 or rej is None:
        raise MachineryError('trace validation of %s failed to run (rc %s):\n%s' % (module, rc, text[-4000:]))
    shutil.rmtree(d, ignore_errors=True)
    return r, rej
