"""C25: external codes run faithfully and failures are reported."""
import io
import os
import shlex
import signal
import subprocess
import time
import uuid

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, HarnessError, Scratch, check, check_close

ASSUMPTIONS = ['POSIX', 'a process that catches or ignores SIGTERM may be killed', 'a declared output file left by an earlier run counts as existing',
               'processes that a command leaves in the background while it ends by itself are its own business']

TEXT = st.one_of(st.text(st.characters(codec='ascii', min_codepoint=32, max_codepoint=126), max_size=8), st.sampled_from(['', ' ', 'a b', '"', "'", '$HOME', '*', '\\', ';', '`x`', '-n', '%s', 'é€', '\n', 'a\nb', '&&', '|']))
ACTIONS = ['ok', 'ok', 'ok', 'exit', 'exit', 'signal', 'noout', 'noin', 'nocmd', 'timeout', 'timeout', 'interrupt', 'empty']
SIGS = ['HUP', 'INT', 'QUIT', 'ILL', 'ABRT', 'FPE', 'KILL', 'SEGV', 'PIPE', 'ALRM', 'TERM', 'USR1', 'USR2', 'BUS']

# what the command does when it is to be stopped
SLOW = {'plain': 'sleep 60', 'exec': 'exec sleep 60', 'ignore': 'trap "" TERM; sleep 60', 'catch': 'trap "sleep 60" TERM; n=0; while [ $n -lt 3000 ]; do sleep 0.02; n=$((n+1)); done',
        'child': 'sleep 60 & wait', 'stubborn child': '(trap "" TERM; sleep 60) & wait', 'orphan': '(trap "" TERM; sleep 60) & sleep 60', 'busy': 'ulimit -t 20; while :; do :; done'}


def processes(token):
    """pids of live processes that carry the token in their environment"""
    found = []
    mark = ('PBT_TOKEN=' + token).encode()
    for pid in os.listdir('/proc'):
        if not pid.isdigit() or int(pid) == os.getpid():
            continue
        try:
            with open('/proc/%s/environ' % pid, 'rb') as f:
                if mark not in f.read():
                    continue
            with open('/proc/%s/stat' % pid) as f:
                s = f.read()
            if s[s.rindex(')') + 2] not in 'ZX':
                found.append(int(pid))
        except (IOError, OSError):
            pass
    return found


def none_left(token, what):
    """SIGKILL needs a moment; nothing else may be waited for."""
    for _ in range(100):
        left = processes(token)
        if not left:
            return
        time.sleep(0.02)
    names = []
    for pid in left:
        try:
            with open('/proc/%d/cmdline' % pid) as f:
                names.append(f.read().replace('\0', ' '))
        except (IOError, OSError):
            pass
    check(False, '%s%d processes are left behind: %s', what, len(left), names)


def clean(token):
    for _ in range(50):
        left = processes(token)
        if not left:
            return
        for pid in left:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.01)


def fds():
    return len(os.listdir('/proc/self/fd'))


def normal_signals():
    """Commands must not inherit ignored signals, as from a shell's background job."""
    for name in SIGS:
        num = getattr(signal, 'SIG' + name)
        if name not in ('KILL', 'PIPE') and signal.getsignal(num) == signal.SIG_IGN:
            signal.signal(num, signal.SIG_DFL)


class Interrupt(Exception):
    pass


class Alarm(object):
    """Raises Interrupt while the (started) command is waited for."""

    def __init__(self, delay, ready):
        self.delay, self.ready = delay, ready

    def __enter__(self):
        until = time.time() + 30

        def handler(num, frame):
            names = []
            while frame is not None:
                names.append((os.path.basename(frame.f_code.co_filename), frame.f_code.co_name))
                frame = frame.f_back
            waiting = os.path.exists(self.ready) and any(f == 'shell_proc.py' for f, n in names) and \
                not any(f in ('shell_proc.py', 'subprocess.py') and n in ('__init__', '_execute_child') for f, n in names)
            if waiting or time.time() > until:
                # again, if this one is lost (in a finalizer, say)
                signal.setitimer(signal.ITIMER_REAL, 20)
                raise Interrupt('interrupted')
            signal.setitimer(signal.ITIMER_REAL, 0.01)
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.delay)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


@st.composite
def one_run(draw):
    return dict(v=draw(st.integers(-80, 80)), action=draw(st.sampled_from(ACTIONS)), code=draw(st.integers(1, 255)), sig=draw(st.sampled_from(SIGS)), slow=draw(st.sampled_from(sorted(SLOW))),
                pick=draw(st.integers(0, 5)), timeout=draw(st.sampled_from([0.0, 0.0, 30.0])), poll=draw(st.sampled_from([0.001, 0.005, 0.005, 0.0, 0.02])), lines=draw(st.sampled_from([0, 1, 3, 3, 4000])),
                hard=draw(st.booleans()), limit=draw(st.sampled_from([0.05, 0.1, 0.2])), how=draw(st.sampled_from(['run', 'run', 'run', 'once', 'grad', 'partials'])))


@st.composite
def codes(draw):
    return dict(args=draw(st.lists(TEXT, max_size=4)), env=draw(st.dictionaries(st.sampled_from(['A', 'B_1', 'HOME', 'LANG', 'PBT_X']), TEXT, max_size=3)),
                stdin=draw(st.sampled_from(['default', 'default', 'file', 'object'])), text=draw(TEXT), stdout=draw(st.sampled_from([None, 'out.txt', 'out.txt', 'null'])),
                stderr=draw(st.sampled_from(['error.out', 'error.out', 'other.err', 'STDOUT', None, 'null'])), nin=draw(st.integers(0, 3)), nout=draw(st.integers(0, 3)),
                dirs=draw(st.sampled_from([[], [], ['d'], ['', 'd'], ['d', ''], ['d', 'e'], ['', ''], ['d e', '']])), viapath=draw(st.booleans()), newton=draw(st.sampled_from([None, None, 'newton', 'gs'])), loop=draw(st.booleans()), root=draw(st.sampled_from(['', '', 'r'])), compdir=draw(st.booleans()),
                runs=draw(st.lists(one_run(), min_size=1, max_size=4)))


def build(spec, token):
    from openmdao.api import Component, ExternalCode, Group, IndepVarComp, Problem

    dirs = spec['dirs'][:-1] if spec['compdir'] else spec['dirs']
    inside = os.path.join(os.getcwd(), spec.get('root', ''), *[d for d in dirs if d]).rstrip('/')

    class Back(Component):
        def __init__(self):
            super(Back, self).__init__()
            self.add_param('y', 0.0)
            self.add_output('z', 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['z'] = params['y'] * 0.5
            check(os.getcwd() == inside, 'a component next to the external code runs in %s, not in %s', os.getcwd(), inside)

        def linearize(self, params, unknowns, resids):
            return {('z', 'y'): 0.5}

    class Code(ExternalCode):
        def __init__(self):
            super(Code, self).__init__()
            self.add_param('x', 0.0)
            self.add_param('z', 0.0)      # makes a cycle, where connected; not used
            self.add_output('y', 0.0)
            self.add_output('n', 0.0)
            self.calls = 0
            self.deriv_options['type'] = 'fd'
            self.deriv_options['form'] = 'central'
            self.deriv_options['step_size'] = 0.5
            self.deriv_options['step_calc'] = 'absolute'

        def solve_nonlinear(self, params, unknowns, resids):
            self.calls += 1
            with open('value.in', 'w') as f:
                f.write(repr(float(params['x'])))
            super(Code, self).solve_nonlinear(params, unknowns, resids)
            with open('value.out') as f:
                unknowns['y'] = float(f.read()) * 3 - 1
            unknowns['n'] = unknowns['n']

    code = Code()
    prob = Problem(root=Group())
    grp = prob.root
    grp.add('p', IndepVarComp('x', 0.0))
    name = ''
    for k, d in enumerate(spec['dirs']):
        g = grp.add('g%d' % k, Group())
        g.directory, g.create_dirs = d, True
        name += 'g%d.' % k
        grp = g
    if spec['dirs'] and spec['compdir']:
        # the last directory belongs to the component
        g.directory, g.create_dirs = '', False
        code.directory, code.create_dirs = spec['dirs'][-1], True
    grp.add('code', code)
    prob.root.connect('p.x', name + 'code.x')
    if spec.get('root', ''):
        prob.root.directory, prob.root.create_dirs = spec.get('root', ''), True
    if spec['newton'] and spec.get('loop') and spec['stdin'] != 'object':
        # the residuals of the code are evaluated as well
        grp.add('back', Back())
        grp.connect('code.y', 'back.y')
        grp.connect('back.z', 'code.z')
    if spec['newton']:
        from openmdao.api import DirectSolver, Newton, NLGaussSeidel
        for g in prob.root.subgroups(recurse=True, include_self=True):
            g.nl_solver, g.ln_solver = Newton() if spec['newton'] == 'newton' else NLGaussSeidel(), DirectSolver()
            g.nl_solver.options['iprint'] = -1
            g.nl_solver.options['maxiter'] = 2
    return prob, code, name + 'code'


def expected_output(lines):
    return ''.join('out line %d\n' % k for k in range(lines))


def expected_errors(lines):
    return ''.join('err line %d\n' % k for k in range(lines))


def run_codes(spec, log):
    normal_signals()
    from openmdao.api import AnalysisError
    token = uuid.uuid4().hex
    start = os.getcwd()
    try:
        with Scratch() as top:
            top = os.path.realpath(top)
            os.chdir(top)
            prob, code, name = build(spec, token)
            where = os.path.join(top, spec.get('root', ''), *[d for d in spec['dirs'] if d])
            where = where.rstrip('/')
            os.makedirs(where, exist_ok=True)
            shared = dict(spec['env'], PBT_TOKEN=token)
            code.options['env_vars'] = dict(shared)
            if spec['viapath']:
                # found through the path, as another name than any tool has
                base = ['sh', 'prog.sh']
            else:
                base = [os.path.join(where, 'prog.sh')]
            command = base + list(spec['args'])
            opened = None
            if spec['stdin'] == 'file':
                with open(os.path.join(where, 'std.in'), 'w') as f:
                    f.write(spec['text'])
                code.stdin = 'std.in'
            code.stdout = {'null': code.DEV_NULL}.get(spec['stdout'], spec['stdout'])
            code.stderr = {'null': code.DEV_NULL, 'STDOUT': code.STDOUT}.get(spec['stderr'], spec['stderr'])
            ins = ['in%d.dat' % k for k in range(spec['nin'])]
            outs = ['out%d.dat' % k for k in range(spec['nout'])]
            code.options['external_input_files'] = list(ins)
            code.options['external_output_files'] = list(outs)
            code.options['command'] = list(command)
            prob.setup(check=False)
            check(os.getcwd() == top, 'setup changed the working directory to %s', os.getcwd())
            good = 0
            for k, r in enumerate(spec['runs']):
                what = 'run %d (%s): ' % (k, r['action'])
                opened = one(spec, r, prob, code, name, where, top, command, ins, outs, what, log, token)
                good += opened
            log.nontrivial(len(spec['runs']) > 1 or spec['dirs'] != [])
    finally:
        os.chdir(start)
        clean(token)


def at(where, name):
    return os.path.join(where, name)


def slurp(path):
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()


def one(spec, r, prob, code, name, where, top, command, ins, outs, what, log, token):
    from openmdao.api import AnalysisError
    act = r['action']
    if act == 'noout' and not outs or act == 'noin' and not ins:
        act = 'ok'
    body = ['printf "%s" ran >> ran.log', 'cat > stdin.copy', ': > args.copy', 'for a in "$@"; do printf "%s\\0" "$a" >> args.copy; done', 'pwd -P >> %s' % shlex.quote(at(where, 'pwd.copy'))]
    for e in sorted(spec['env']):
        body.append('printf "%%s" "$%s" > env.%s' % (e, e))
    body += ['i=0', 'while [ $i -lt %d ]; do echo "out line $i"; echo "err line $i" >&2; i=$((i+1)); done' % r['lines']] if r['lines'] < 100 else \
        ['seq -f "out line %%.0f" 0 %d' % (r['lines'] - 1), 'seq -f "err line %%.0f" 0 %d >&2' % (r['lines'] - 1)]
    body.append('cp value.in value.out')
    made = list(outs)
    if act == 'noout':
        gone = made.pop(r['pick'] % len(made))
    body += ['printf made > %s' % o for o in made]
    if act == 'exit':
        body.append('exit %d' % r['code'])
    elif act == 'signal':
        body.append('kill -%s $$; sleep 60' % r['sig'])
    elif act in ('timeout', 'interrupt'):
        body.append(SLOW[r['slow']])
    script = at(where, 'prog.sh')
    with open(script, 'w') as f:
        f.write('#!/bin/sh\n' + '\n'.join(body) + '\n')
    os.chmod(script, 0o755)
    for k, n in enumerate(ins):
        with open(at(where, n), 'w') as f:
            f.write('input')
    if act == 'noin':
        os.unlink(at(where, ins[r['pick'] % len(ins)]))
    for n in outs + ['ran.log', 'stdin.copy', 'args.copy', 'value.out', 'pwd.copy', 'out.txt', 'error.out', 'other.err']:
        if os.path.exists(at(where, n)):
            os.unlink(at(where, n))
    code.options['fail_hard'] = r['hard']
    code.options['poll_delay'] = r['poll']
    code.options['timeout'] = r['limit'] if act == 'timeout' else r['timeout']
    code.options['command'] = list(command)
    if act == 'nocmd':
        code.options['command'] = ['no-such-command-%s' % token]
    elif act == 'empty':
        code.options['command'] = []
    opened = None
    if spec['stdin'] == 'object':
        with open(at(where, 'std.in'), 'w') as f:
            f.write(spec['text'])
        opened = code.stdin = open(at(where, 'std.in'))
    how = r['how'] if act in ('ok', 'exit', 'noin') else 'run'
    prob['p.x'] = v = r['v'] / 8.0
    if how in ('grad', 'partials') and act != 'ok':
        how = 'run'
    if how in ('grad', 'partials') and opened is not None:
        how = 'run'

    # what check_setup has to say
    report = io.StringIO()
    messages = prob.check_setup(out_stream=report)
    text = messages.get('@' + name, '')
    missing = [n for n in ins if not os.path.exists(at(where, n))]
    for n in ins:
        check((n in text) == (n in missing), '%scheck_setup says %r, missing are %s', what, text, missing)
    if act == 'empty':
        check('empty' in text, '%scheck_setup says %r', what, text)
    elif act == 'nocmd':
        check('cannot be found' in text and code.options['command'][0] in text, '%scheck_setup says %r', what, text)
    elif not missing:
        check(not text, '%scheck_setup says %r', what, text)
    check(os.getcwd() == top, '%scheck_setup changed the working directory', what)

    before, err = fds(), None
    t0 = time.time()
    J = None
    try:
        if act == 'interrupt':
            with Alarm(r['limit'], at(where, 'value.out')):
                prob.run()
        elif how == 'once':
            prob.run_once()
        else:
            prob.run()
            if how == 'grad':
                J = prob.calc_gradient(['p.x'], [name + '.y'], mode=['fwd', 'rev', 'fd'][r['pick'] % 3], return_format='dict')
            elif how == 'partials':
                data = prob.check_partial_derivatives(out_stream=None)
                J = {name + '.y': {'p.x': data[name]['y', 'x']['J_fd']}}
    except Exception as e:
        err = e
    took = time.time() - t0
    check(os.getcwd() == top, '%safter the run the working directory is %s', what, os.getcwd())
    if opened is not None:
        check(not opened.closed, '%sthe stdin object of the user was closed', what)
        opened.close()
        before -= 1
    check(fds() <= before, '%s%d file descriptors, %d before', what, fds(), before)
    hard = RuntimeError if r['hard'] else AnalysisError

    def refused(kind, *words):
        check(type(err) is kind, '%sended with %r, not with %s', what, err, kind.__name__)
        for w in words:
            check(w in str(err), '%smessage %r does not tell %r', what, str(err), w)
    ran = os.path.exists(at(where, 'ran.log'))
    if act in ('timeout', 'interrupt'):
        log.label(act + ':' + r['slow'])
        if act == 'timeout':
            refused(AnalysisError, 'Timed out')
            check(code.return_code == -999999, '%sreturn code %r', what, code.return_code)
        else:
            refused(Interrupt)
        check(took < 40, '%sreturned after %.1f s, before it was told to stop', what, took)
        none_left(token, what)
        return False
    log.label(act)
    if act == 'nocmd':
        refused(ValueError, 'no-such-command')
        check(not ran and code.return_code == -999999, '%sran %r, return code %r', what, ran, code.return_code)
    elif act == 'empty':
        refused(ValueError, 'mpty')
        check(not ran, '%ssomething ran', what)
    elif act == 'noin':
        refused(hard, ins[r['pick'] % len(ins)], 'input')
        check(not ran, '%sthe command ran all the same', what)
        check(code.return_code == -999999, '%sreturn code %r', what, code.return_code)
    else:
        rc = r['code'] if act == 'exit' else -getattr(signal, 'SIG' + r['sig']) if act == 'signal' else 0
        check(code.return_code == rc, '%sreturn code %r, expected %d (%r)', what, code.return_code, rc, err)
        if act in ('exit', 'signal'):
            words = ['return_code = %d' % rc]
            if spec['stderr'] in ('error.out', 'other.err'):
                words.append(expected_errors(r['lines']))
            elif spec['stderr'] in ('STDOUT', None):
                words.append(os.strerror(rc) if rc > 0 else ': SIG' + r['sig'])
            if words[-1] == ': SIGABRT' and 'SIGIOT' in str(err):
                words.pop()
            refused(hard, *words)
        elif act == 'noout':
            refused(hard, gone, 'output')
        else:
            if err is not None:
                raise err
            check_close(prob[name + '.y'], v * 3 - 1, what + 'y', 1e-12 if spec['newton'] else 0, 1e-12 if spec['newton'] else 0)
            if J is not None:
                check_close(J[name + '.y']['p.x'], [[3.0]], what + how, 0, 1e-6 if spec['newton'] else 1e-9)
        # the command saw what it was given and left what it made
        inner = what + 'the command: '
        check(set(slurp(at(where, 'pwd.copy')).split('\n')) == set([where, '']), '%sran in %r, not in %r', inner, slurp(at(where, 'pwd.copy')), where)
        if J is None and not spec['newton']:
            check(slurp(at(where, 'ran.log')) == 'ran', '%sran more than once: %r', inner, slurp(at(where, 'ran.log')))
        want = ''.join(a + '\0' for a in spec['args'])
        check(slurp(at(where, 'args.copy')) == want, '%sarguments %r, not %r', inner, slurp(at(where, 'args.copy')), want)
        for e, val in spec['env'].items():
            check(slurp(at(where, 'env.' + e)) == val, '%svariable %s was %r, not %r', inner, e, slurp(at(where, 'env.' + e)), val)
            check(os.environ.get(e) != val or ORIGINAL.get(e) == val, '%svariable %s was set in this process', inner, e)
        text = spec['text'] if spec['stdin'] != 'default' else ''
        check(slurp(at(where, 'stdin.copy')) == text, '%sread %r from its standard input, not %r', inner, slurp(at(where, 'stdin.copy')), text)
        so, se = expected_output(r['lines']), expected_errors(r['lines'])
        if spec['stdout'] == 'out.txt':
            got = slurp(at(where, 'out.txt'))
            if spec['stderr'] == 'STDOUT':
                check(sorted(got.split('\n')) == sorted((so + se).split('\n')), '%sstandard output and error hold %r...', inner, got[:80])
            else:
                check(got == so, '%sstandard output holds %d characters %r..., not %d', inner, len(got), got[:80], len(so))
        if spec['stderr'] in ('error.out', 'other.err'):
            got = slurp(at(where, spec['stderr']))
            check(got == se, '%sstandard error holds %d characters %r..., not %d', inner, len(got), got[:80], len(se))
        for o in outs:
            check(os.path.exists(at(where, o)) == (act != 'noout' or o != gone), '%sfile %s', inner, o)
    none_left(token, what)
    return act == 'ok'


ORIGINAL = dict(os.environ)


# ---------------------------------------------------------------- ShellProc, call, check_call

@st.composite
def procs(draw):
    return dict(api=draw(st.sampled_from(['call', 'check_call', 'ShellProc', 'terminate'])), text=draw(st.booleans()), args=draw(st.lists(TEXT.filter(lambda t: '\0' not in t), max_size=3)),
                end=draw(st.sampled_from(['exit', 'exit', 'exit', 'signal', 'slow', 'slow', 'late'])), code=draw(st.one_of(st.just(0), st.integers(0, 255))), sig=draw(st.sampled_from(SIGS)), slow=draw(st.sampled_from(sorted(SLOW))),
                poll=draw(st.sampled_from([0.0, 0.001, 0.01, 2.0])), limit=draw(st.sampled_from([0.05, 0.1, 0.25])), env=draw(st.dictionaries(st.sampled_from(['A', 'B', 'PATH']), TEXT, max_size=2)),
                streams=draw(st.lists(st.sampled_from(['name', 'object', 'null']), min_size=3, max_size=3)), lines=draw(st.sampled_from([0, 2, 5000])), stdin=draw(TEXT), missing=draw(st.integers(0, 9)))


def run_procs(spec, log):
    normal_signals()
    from openmdao.util.shell_proc import CalledProcessError, DEV_NULL, ShellProc, call, check_call
    token = uuid.uuid4().hex
    start = os.getcwd()
    end = spec['end']
    if spec['api'] == 'terminate':
        end = 'slow'
    late = end == 'late'
    try:
        with Scratch() as top:
            os.chdir(top)
            with open('std.in', 'w') as f:
                f.write(spec['stdin'])
            body = ['/bin/cat > stdin.copy', ': > args.copy', 'for a in "$@"; do printf "%s\\0" "$a" >> args.copy; done', 'printf "%s" "$A" > env.A']
            if spec['lines']:
                body += ['/usr/bin/seq -f "out line %%.0f" 0 %d' % (spec['lines'] - 1), '/usr/bin/seq -f "err line %%.0f" 0 %d >&2' % (spec['lines'] - 1)]
            slow = SLOW[spec['slow']].replace('sleep', '/bin/sleep')
            body.append({'exit': 'exit %d' % spec['code'], 'signal': 'kill -%s $$; /bin/sleep 60' % spec['sig'], 'slow': ': > ready; ' + slow, 'late': '/bin/sleep 1.2'}[end])
            with open('prog.sh', 'w') as f:
                f.write('\n'.join(body) + '\n')
            args = ['/bin/sh', 'prog.sh'] + spec['args']
            if spec['text']:
                args = 'exec ' + ' '.join(shlex.quote(a) for a in args)
            opened = []

            def stream(kind, name, mode):
                if kind == 'null':
                    return DEV_NULL
                if kind == 'object':
                    opened.append(open(name, mode))
                    return opened[-1]
                return name
            before = fds()
            streams = [stream(k, n, m) for k, n, m in zip(spec['streams'], ['std.in', 'std.out', 'std.err'], 'rww')]
            env = dict(spec['env'], PBT_TOKEN=token)
            poll = spec['poll'] if end in ('slow', 'late') else min(spec['poll'], 0.01)
            if late:
                poll = 2.0
            limit = spec['limit'] if end in ('slow', 'late') else 0.0
            result = err = proc = None
            t0 = time.time()
            try:
                if spec['missing'] == 0 and not spec['text']:
                    args = ['./no-such-command']
                if spec['api'] == 'call':
                    result = call(args, streams[0], streams[1], streams[2], env, poll, limit)
                elif spec['api'] == 'check_call':
                    result = check_call(args, streams[0], streams[1], streams[2], env, poll, limit)
                else:
                    proc = ShellProc(args, streams[0], streams[1], streams[2], env)
                    if spec['api'] == 'terminate':
                        for _ in range(2000):
                            if os.path.exists('ready'):
                                break
                            time.sleep(0.005)
                        else:
                            raise HarnessError('the command does not start')
                        if spec['slow'] in ('plain', 'exec', 'busy', 'child'):
                            result = proc.terminate(timeout=30.0)
                        else:
                            result = proc.wait(0.01, 0.05)
                    else:
                        result = proc.wait(poll, limit)
            except (OSError, subprocess.CalledProcessError) as e:
                err = e
            took = time.time() - t0
            what = '%s: ' % spec['api']
            for f in opened:
                check(not f.closed, '%sa stream of the caller was closed', what)
                f.close()
            check(fds() == before, '%s%d file descriptors, %d before', what, fds(), before)
            if args == ['./no-such-command']:
                log.label('missing')
                check(isinstance(err, OSError), '%sa missing command gives %r, %r', what, err, result)
                return
            check(not isinstance(err, OSError), '%s%r', what, err)
            none_left(token, what)
            if end in ('slow', 'late'):
                log.label('late' if late else spec['slow'])
                check(took < 40, '%sreturned after %.1f s', what, took)
                if spec['api'] == 'check_call':
                    check(isinstance(err, CalledProcessError), '%stimed out, but returned %r', what, result)
                    str(err)
                elif spec['api'] == 'terminate' and spec['slow'] in ('plain', 'exec', 'busy', 'child'):
                    check(result[0] == -signal.SIGTERM and 'SIGTERM' in result[1], '%sresult %r', what, result)
                else:
                    check(err is None and result[0] is None and 'imed out' in result[1], '%sresult %r, error %r', what, result, err)
                log.nontrivial()
                return
            rc = spec['code'] if end == 'exit' else -getattr(signal, 'SIG' + spec['sig'])
            msgs = [''] if rc == 0 else [': ' + os.strerror(rc)] if rc > 0 else [': SIG' + spec['sig']] + ([': SIGIOT'] if spec['sig'] == 'ABRT' else [])
            if spec['api'] == 'check_call':
                check((err is None) == (rc == 0), '%sreturn code %d gives %r', what, rc, err)
                if err is not None:
                    check(err.returncode == rc and err.cmd == args and err.errormsg in msgs, '%s%r with message %r', what, err, err.errormsg)
                    check('status %d' % rc in str(err), '%smessage %r', what, str(err))
            else:
                check(err is None and result[0] == rc and result[1] in msgs, '%sresult %r, error %r, expected %d %s', what, result, err, rc, msgs)
            want = ''.join(a + '\0' for a in spec['args'])
            check(slurp('args.copy') == want, '%sarguments %r, not %r', what, slurp('args.copy'), want)
            check(slurp('env.A') == spec['env'].get('A', ORIGINAL.get('A', '')), '%senvironment %r', what, slurp('env.A'))
            text = '' if spec['streams'][0] == 'null' else spec['stdin']
            check(slurp('stdin.copy') == text, '%sread %r, not %r', what, slurp('stdin.copy'), text)
            for kind, name, content in zip(spec['streams'][1:], ['std.out', 'std.err'], [expected_output(spec['lines']), expected_errors(spec['lines'])]):
                if kind != 'null':
                    check(slurp(name) == content, '%s%s holds %r...', what, name, slurp(name)[:80])
            log.label('exit' if rc >= 0 else 'signal')
            log.nontrivial(bool(spec['args'] or spec['env'] or rc))
    finally:
        os.chdir(start)
        clean(token)


FACETS = [
    Facet('codes', codes, run_codes, 130, rule='histories of runs of an ExternalCode; non-trivial: more than one run or a directory of its own'),
    Facet('procs', procs, run_procs, 200, rule='ShellProc, call and check_call; non-trivial: a timeout, arguments, environment or a failure'),
]
