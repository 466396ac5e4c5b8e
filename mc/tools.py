"""Runs the command-line tools in this process, with stand-ins for the world."""
import base64, io, os, sys
from . import common

_code = {}


def path(name):
    if os.environ.get('VERIF_TOOLS'):
        return os.path.join(os.environ['VERIF_TOOLS'], name)
    import pyasn1_modules
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pyasn1_modules.__file__))), 'tools', name)


def text(s=''):
    return io.TextIOWrapper(io.BytesIO(s.encode()), 'utf-8', write_through=True)


def run(name, args=(), stdin='', patch=()):
    """Returns (how it ended, what it printed).  patch: [(object, attribute, stand-in)]."""
    if name not in _code:
        p = path(name)
        _code[name] = compile(open(p, 'rb').read(), p, 'exec')
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    saved = [(o, a, getattr(o, a)) for o, a, x in patch]
    out = text()
    paths = list(sys.path)
    try:
        sys.path.insert(0, os.path.dirname(path(name)))
        sys.argv = [path(name)] + list(args)
        sys.stdin = text(stdin)
        sys.stdout = out
        sys.stderr = text()
        for o, a, x in patch:
            setattr(o, a, x)
        common.alarm(30)
        try:
            exec(_code[name], {'__name__': '__main__', '__file__': path(name)})
            end = 'done'
        except SystemExit as e:
            end = 'done' if e.code in (None, 0) else 'exit %s' % (e.code,)
        except common.Timeout:
            end = 'never ends'
        except Exception as e:
            end = 'raises ' + common.desc(e)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        sys.path[:] = paths
        for o, a, x in saved:
            setattr(o, a, x)
    out.flush()
    return end, out.buffer.getvalue().decode('utf-8', 'replace')


def armour(b, kind, width=64):
    s = base64.b64encode(b).decode()
    return '-----BEGIN %s-----\n%s-----END %s-----\n' % (
        kind, ''.join(s[i:i + width] + '\n' for i in range(0, len(s), width)), kind)


def plain(b, width=64):
    s = base64.b64encode(b).decode()
    return ''.join(s[i:i + width] + '\n' for i in range(0, len(s), width))
