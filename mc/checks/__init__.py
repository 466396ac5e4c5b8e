"""One module per property; each defines CHECK."""
import importlib, os


def names():
    d = os.path.dirname(os.path.abspath(__file__))
    return sorted(f[:-3] for f in os.listdir(d) if f[0] == 'c' and f.endswith('.py'))


def get(pid):
    for n in names():
        if n.split('_')[0].upper() == pid:
            return importlib.import_module('mc.checks.' + n).CHECK
    raise SystemExit('no check for %s' % pid)
