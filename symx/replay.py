"""Replay recorded inputs against the real, uninstrumented code.

usage: python replay.py FILE.json   (exit 1: the recorded violation is reproduced)
"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong()


def run_case(case, seconds=30):
    """One case, with a limit on its time and memory."""
    import signal
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return _run_case(case)
    except TooLong:
        return True, 'no end within %d s' % seconds
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_case(case):
    """-> (reproduced, text)"""
    from symx.native import NatH, Stop, Violated
    mod = importlib.import_module(case['module'])
    fn = getattr(mod, case['fn'])
    out = 'held'
    for mode in getattr(mod, 'SOURCE_MODES', ('plain',)):
        h = NatH(case['values'], case['params'])
        h.mode = mode
        at = '' if mode == 'plain' else ' (%s source)' % mode
        try:
            fn(h, **case['params'])
        except Stop as ex:
            out = 'stopped: %s' % ex
        except Violated as ex:
            return True, 'violated: %s%s' % (ex, at)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = '; '.join('%s:%d' % (f.filename.replace(REPO + '/', ''), f.lineno) for f in tb[-3:])
            return True, 'uncaught %s: %s [%s]%s' % (type(ex).__name__, str(ex)[:200], where, at)
    return False, out


def forked(case):
    """run_case in a process of its own, so that no case sees what another one left behind."""
    try:
        importlib.import_module(case['module'])
    except Exception:
        pass
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = run_case(case)
            except BaseException as ex:
                res = (False, 'replay failed: %r' % (ex,))
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
            from symx import xmldoc
            for d in xmldoc._tmp:
                import shutil
                shutil.rmtree(d, True)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return tuple(json.loads(t)) if t else (False, 'replay ended without a result')


def main():
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except Exception:
        pass
    import logging
    logging.disable(logging.CRITICAL)
    if sys.argv[1] == '--batch':
        cases = json.load(sys.stdin)
        out = []
        for c in cases:
            if sum('no end within' in t for _, t in out) >= 2:
                out.append((False, 'not replayed: earlier cases did not end'))
                continue
            out.append(forked(c))
        sys.stdout.write('\n@@RESULT@@' + json.dumps(out))
        return 0
    with open(sys.argv[1]) as f:
        case = json.load(f)
    print('property:', case.get('property'))
    print('harness : %s.%s %s' % (case['module'], case['fn'], json.dumps(case['params'])))
    print('inputs  :', json.dumps(case['values']))
    ok, text = run_case(case)
    print('REPRODUCED' if ok else 'not reproduced', '-', text)
    return 1 if ok else 0


if __name__ == '__main__':
    sys.exit(main())
