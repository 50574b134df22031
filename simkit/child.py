"""Run a function in a forked child and bring back its JSON result: simulated processes with their own history."""
import json
import os
import signal
import sys
import traceback

from . import core


def run(f, seconds=100):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(seconds))
            try:
                body = {'ok': f()}
            except BaseException:
                body = {'error': traceback.format_exc()[-3000:]}
            data = json.dumps(body).encode()
            while data:
                data = data[os.write(w, data):]
            os.close(w)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        data = b''
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        try:
            _, st = os.waitpid(pid, 0)
        except ChildProcessError:
            st = 0
    if not data:
        raise core.HarnessError('child ended with status %s and no answer' % st)
    body = json.loads(data.decode())
    if 'error' in body:
        raise core.HarnessError('in child:\n' + body['error'])
    return body['ok']
