"""C27: the package behaves the same in every interpreter configuration.

Explored: the product of optimisation levels (assertions and docstrings there or
not), hash seeds (the order of sets), the form the package has on disk (source, a
zip archive, byte code without source; in a directory with a blank and an accent
in its name) and surroundings (strict bytes comparison and development mode,
another time zone, the C locale).  In each configuration a process of its own runs
the explorers of other properties on the real code: every violation, and every
count of what was explored, has to be the same as in the plain configuration."""
import concurrent.futures, itertools, os, pickle, py_compile, shutil, subprocess, sys, tempfile, zipfile
from .. import common, REPO

GROUPS = [
    [('C06', None), ('C07', None), ('C22', None), ('C15', ('short', 'files')), ('C16', None), ('C20', None)],
    [('C18', None)],
    [('C10', None)],
    [('C05', None)],
    [('C02', None)],
    [('C24', None)],
]
FORMS = ('source', 'zip', 'bytecode')
STRICT = (0, 2, 'source', 'strict')
PLAIN_BUT = [(1, 0, 'source', 'plain'), (2, 0, 'source', 'plain'), (0, 1, 'source', 'plain')]
TOOLS = 1           # they check their input with assertions, which -O switches off on request
MORE = [[('C14', None)], [('C21', None)], [('C28', None)]]


class Configurations(common.Check):
    id = 'C27'
    title = 'The same in every interpreter configuration'
    assumptions = ['pyasn1 and the standard library behave the same in every configuration']
    task_timeout = 3600

    def configs(self, tier):
        if tier == 'quick':
            return [(1, 0, 'source', 'plain'), (2, 0, 'source', 'plain'), (0, 1, 'source', 'plain'), (0, 2, 'source', 'strict'),
                    (0, 0, 'zip', 'plain'), (0, 0, 'bytecode', 'plain'), (2, 3, 'bytecode', 'strict')]
        # every seed with every level, form and surroundings, though not with all of them at once
        return [c for c in itertools.product((0, 1, 2), (0, 1, 2), ('source', 'zip', 'bytecode'), ('plain', 'strict'))
                if c != PLAIN and (c[1] == (c[0] + FORMS.index(c[2]) + (c[3] == 'strict')) % 3 or c[2:] == PLAIN[2:])]

    def rule(self, tier):
        return '%d configurations, up to %d groups of explorers in each, against the plain configuration' % (
            len(self.configs(tier)), len(self.groups(tier)))

    def groups(self, tier):
        return GROUPS if tier == 'quick' else GROUPS + MORE

    serial = True

    def tasks(self, tier):
        return [tuple((c, g) for g in range(len(self.groups(tier)) - 1, -1, -1) for c in self.configs(tier) if (g != TOOLS or not c[0])
                      and (tier != 'quick' or g <= 2 or c in PLAIN_BUT and g <= 4 or c == STRICT))]

    def run_task(self, task, tier, res):
        common.alarm(870 if tier == 'quick' else 7200)
        d = tempfile.mkdtemp()
        try:
            self.compare(task, tier, stage(d, {c for c, g in task} | {PLAIN}), d, res)
        finally:
            shutil.rmtree(d)

    def compare(self, task, tier, where, d, res):
        runs = sorted({(PLAIN, g) for c, g in task} | set(task), key=lambda x: (-x[1], x[0] != PLAIN, x[0]))
        ex = concurrent.futures.ThreadPoolExecutor(common.JOBS)
        futs = {r: ex.submit(child, r, self.groups(tier)[r[1]], tier, where[r[0]], os.path.join(d, 'out%d' % i))
                for i, r in enumerate(runs)}
        try:
            got = {r: f.result() for r, f in futs.items()}
        finally:
            ex.shutdown(cancel_futures=True)
        for c, g in task:
            case = {'type': 'configuration', 'value': name(c), 'task': repr(((c, g),))}
            a, b = got[PLAIN, g], got[c, g]
            if isinstance(a, str):
                res.fail(case, 'plain', 'the plain configuration fails: ' + a)
                continue
            if isinstance(b, str):
                res.fail(case, 'start', 'fails in %s: %s' % (name(c), b))
                continue
            if b['optimize'] != c[0] or not b['where'].startswith(os.fsencode(where[c][0])):
                res.fail(case, 'start', 'not the configuration meant: %r, -O %d' % (b['where'], b['optimize']))
            res.count('explorers run in a configuration', len(self.groups(tier)[g]))
            for n, _ in self.groups(tier)[g]:
                res.states += b[n][0]
                res.transitions += b[n][1]
                res.traces += b[n][2]
                more, less = set(b[n][4]) - set(a[n][4]), set(a[n][4]) - set(b[n][4])
                for st, cs, m in [v for v in b[n][5] if (v[0], str(v[1].get('type')), str(v[1].get('value'))[:300]) in more][:20]:
                    res.fail({'type': str(cs.get('type')), 'value': str(cs.get('value'))[:600], 'configuration': name(c), 'task': case['task']}, n,
                             'in %s: %s' % (name(c), m))
                if less:
                    res.fail(case, n, 'in %s what is wrong otherwise is not: %r' % (name(c), sorted(less)[:2]))
                if not more and a[n][:4] != b[n][:4]:
                    res.fail(case, n, '%s in %s explores %r, otherwise %r' % (n, name(c), b[n][:4], a[n][:4]))
        res.samples += [name(c) for c in sorted({c for c, g in task})]


def name(c):
    return '-O %d, hash seed %d, %s, %s' % c


def stage(d, configs):
    """Puts the package on disk in the forms wanted: {configuration: (path, tools)}"""
    out = {}
    tools = os.path.join(REPO, 'tools')
    src = os.path.join(REPO, 'pyasn1_modules')
    d = os.path.join(d, 'p\xe2t\xe9 x')
    os.mkdir(d)
    files = sorted(f for f in os.listdir(src) if f.endswith('.py'))
    for c in configs:
        o, _, form, _ = c
        if form == 'source':
            out[c] = REPO, tools
        elif form == 'zip':
            p = os.path.join(d, 'package.zip')
            if not os.path.exists(p):
                with zipfile.ZipFile(p, 'w', zipfile.ZIP_DEFLATED) as z:
                    for f in files:
                        z.write(os.path.join(src, f), 'pyasn1_modules/' + f)
            out[c] = p, tools
        else:
            p = os.path.join(d, 'byte code %d' % o)
            if not os.path.exists(p):
                os.makedirs(os.path.join(p, 'pyasn1_modules'))
                for f in files:
                    py_compile.compile(os.path.join(src, f), os.path.join(p, 'pyasn1_modules', f + 'c'), optimize=o, doraise=True)
            out[c] = p, tools
    return out


def child(run, group, tier, where, out):
    (o, seed, form, how), g = run
    env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=where[0], VERIF_TOOLS=where[1], MC_CONFIG_OUT=out, PYTHONDONTWRITEBYTECODE='1')
    flags = ['-O'] * o
    if how == 'strict':
        flags.append('-bb')
        env.update(TZ='XXX-14', LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    p = subprocess.run([sys.executable] + flags + ['-m', 'mc.config'], cwd=common.ROOT, env=env, input=pickle.dumps((group, tier)),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=840 if tier == 'quick' else 3600)
    if not os.path.exists(out):
        return 'exit %d: %s' % (p.returncode, p.stdout.decode('latin-1')[-600:])
    with open(out, 'rb') as f:
        x = pickle.load(f)
    os.remove(out)
    return x


PLAIN = (0, 0, 'source', 'plain')
CHECK = Configurations()
