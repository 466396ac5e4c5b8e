"""Run a function in a forked child and get its (picklable) answer."""
import os, pickle, signal, sys, traceback


def run(f, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(300)
            try:
                out = ('ok', f(*args))
            except BaseException as e:
                out = ('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-800:])
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(('error', 'unpicklable answer: %s' % e, ''))
            with os.fdopen(w, 'wb') as f2:
                f2.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f2:
            data = f2.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        return ('error', 'the process died', '')
    return pickle.loads(data)
