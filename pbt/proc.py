"""Running a case in a supervised process group, so that a deadlock or a left-over process is seen.

A deadlock is recognised by what the processes do, not by a time limit: every thread of every process of the
group is asleep, and none has used CPU time, during 2.5 s of continuous sampling.
"""
import ctypes
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

from pbt.core import HarnessError, Violation


def _members(sid):
    out = []
    for pid in os.listdir('/proc'):
        if not pid.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % pid) as f:
                s = f.read()
        except (IOError, OSError):
            continue
        rest = s[s.rindex(')') + 2:].split()
        if int(rest[3]) == sid and rest[0] not in 'ZX':
            out.append(int(pid))
    return out


def _activity(sid):
    """None if some thread of the session is not asleep, else their CPU times."""
    out = []
    for pid in _members(sid):
        try:
            for t in os.listdir('/proc/%d/task' % pid):
                with open('/proc/%d/task/%s/stat' % (pid, t)) as f:
                    s = f.read()
                rest = s[s.rindex(')') + 2:].split()
                if rest[0] != 'S':
                    return None
                out.append((pid, t, rest[11], rest[12]))
        except (IOError, OSError):
            return None
    return out


def kill_session(sid):
    for _ in range(200):
        left = _members(sid)
        if not left:
            return
        for pid in left:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.02)


def supervised(fn, sleepy=False, wall=300):
    """Run fn() in a process of its own; returns its value.  Violations are passed on; any other exception comes
    back as Violation('unexpected ...').  sleepy: fn may sleep, so a deadlock cannot be recognised."""
    fd, path = tempfile.mkstemp(prefix='pbtproc-')
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        try:
            try:
                os.setsid()
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                signal.setitimer(signal.ITIMER_PROF, 0)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
                try:
                    res = ('ok', fn())
                except Violation as err:
                    res = ('violation', str(err))
                except HarnessError as err:
                    res = ('harness', str(err))
                except BaseException as err:
                    res = ('violation', 'unexpected %s: %s\n%s' % (type(err).__name__, err, traceback.format_exc()[-800:]))
                with open(path, 'wb') as f:
                    pickle.dump(res, f)
                os._exit(0)
            except BaseException:
                os._exit(9)
        finally:
            os._exit(9)
    try:
        t0 = time.time()
        last, still, t1 = None, 0, t0 + 0.3
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() < t1:
                time.sleep(0.005)
                continue
            t1 = time.time() + 0.05
            act = _activity(pid)
            if act is not None and act == last:
                still += 1
            else:
                still, last = 0, act
            if still >= 50 and not sleepy:
                raise Violation('deadlock: all %d processes of the run wait forever' % len(set(a[0] for a in act)))
            if time.time() - t0 > wall:
                raise HarnessError('supervised case still running after %d s' % wall)
        with open(path, 'rb') as f:
            data = f.read()
        if not data:
            raise Violation('the process running the case died (status %d)' % status)
        kind, val = pickle.loads(data)
        if kind == 'violation':
            raise Violation(val)
        if kind == 'harness':
            raise HarnessError(val)
        for _ in range(100):
            left = _members(pid)
            if not left:
                break
            time.sleep(0.05)
        else:
            raise Violation('%d processes are left behind' % len(left))
        return val
    finally:
        kill_session(pid)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        os.unlink(path)
