"""Runner shared by every check: tasks over all cores, violations with a
replayable artefact, known findings, evidence."""
import ast, concurrent.futures, hashlib, json, os, re, signal, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = min(8, os.cpu_count() or 1)
MAXVIOL = 6          # VIOLATION lines printed; all are counted


class Timeout(BaseException):
    """Nothing came back; not an Exception, so that no handler takes it for a refusal."""


class Result(object):
    """What one task explored."""

    def __init__(self):
        self.hung, self.skipped = False, 0
        self.states = 0          # model states / abstract values / histories
        self.transitions = 0     # operations performed on the implementation
        self.traces = 0          # model traces replayed against it
        self.violations = []     # dicts: case, stage, message
        self.samples = []
        self.outcomes = {}       # named counters

    def count(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def fail(self, case, stage, message):
        self.violations.append({'case': case, 'stage': stage, 'message': str(message)[:1500]})

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.violations += o.violations
        for s in o.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in o.outcomes.items():
            self.count(k, v)


def desc(e):
    s = str(e)
    return '%s: %s' % (type(e).__name__, s if len(s) < 500 else s[:120] + ' ... ' + s[-260:])


class Check(object):
    id = None
    title = None
    level = 'model_checking'
    assumptions = []
    exhaustive = True
    task_timeout = 600

    def tasks(self, tier):
        """Picklable task descriptors."""
        raise NotImplementedError

    def run_task(self, task, tier, res):
        """Explore one task, recording into res."""
        raise NotImplementedError

    def replay(self, case, res):
        """Re-execute one recorded case against the implementation."""
        raise NotImplementedError

    def rule(self, tier):
        return ''


def alarm(sec):
    def h(*a):
        raise Timeout('no answer within %d s' % sec)
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec, 5)


def run_one(arg):
    check, task, tier = arg
    res = Result()
    try:
        alarm(check.task_timeout if tier != 'quick' else min(check.task_timeout, 240))
        check.run_task(task, tier, res)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        res.fail({'task': repr(task)}, 'explore', 'exploration stopped: %s: %s\n%s\nin %s' % (
            type(e).__name__, str(e)[:300], traceback.format_exc()[-1200:], repr(task)[:200]))
        res.hung = isinstance(e, Timeout)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return res


def explore(check, tier):
    total = Result()
    tasks = list(check.tasks(tier))
    if getattr(check, 'serial', False) or len(tasks) == 1:
        for t in tasks:
            total.merge(run_one((check, t, tier)))
        return total, len(tasks)
    todo = [(check, t, tier) for t in tasks]
    with concurrent.futures.ProcessPoolExecutor(JOBS) as ex:
        futs = {ex.submit(run_one, a): a[1] for a in todo}
        for f in concurrent.futures.as_completed(futs):
            try:
                total.merge(f.result())
                if f.result().hung:         # the rest would hang as well
                    for g in futs:
                        g.cancel()
            except concurrent.futures.CancelledError:
                total.skipped += 1
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                total.fail({'task': repr(futs[f])}, 'explore', 'process died: %s: %s' % (type(e).__name__, e))
    total.violations.sort(key=lambda v: (v['case'].get('type', ''), len(repr(v['case'])), repr(v['case'])))
    return total, len(tasks)


# ------------------------------------------------------------ known findings

def known(prop):
    """Findings listed for a property: [(match, what)]."""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\w+) match=(\{.*\}) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


def matches(match, v):
    c = v['case']
    if 'type' in match and c.get('type') not in match['type'].split('|'):
        return False
    if 'stage' in match and v['stage'] not in match['stage'].split('|'):
        return False
    if 'case' in match and c.get('case') != match['case']:
        return False
    if 'valueis' in match and c.get('value') != match['valueis']:
        return False
    if 'contains' in match and match['contains'] not in c.get('value', ''):
        return False
    if 'message' in match and match['message'] not in v['message']:
        return False
    return True


# ------------------------------------------------------------------ running

def main(check, argv):
    tier = 'quick'
    replay = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--replay':
            replay = a.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if replay:
        d = json.load(open(replay))
        res = Result()
        case = d['case']
        if 'task' in case:
            print(d['message'])
            task = ast.literal_eval(case['task'])
            check.run_task(task, d['tier'], res)
        else:
            check.replay(case, res)
        for v in res.violations:
            print('%s %s: %s' % (check.id, v['stage'], v['message']))
        if res.violations:
            print('VIOLATION property=%s replay=%s' % (check.id, replay))
            return 1
        print('not reproduced')
        return 0
    t0 = time.time()
    total, ntasks = explore(check, tier)
    wall = time.time() - t0
    kn = known(check.id)
    hit = [0] * len(kn)
    fresh = []
    for v in total.violations:
        for i, (m, what) in enumerate(kn):
            if matches(m, v):
                hit[i] += 1
                break
        else:
            fresh.append(v)
    for i, (m, what) in enumerate(kn):
        if hit[i]:
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (check.id, what, hit[i]))
    paths = []
    outdir = os.path.join(ROOT, 'replays', check.id)
    for v in fresh[:MAXVIOL]:
        os.makedirs(outdir, exist_ok=True)
        d = {'property': check.id, 'tier': tier, 'case': v['case'], 'stage': v['stage'], 'message': v['message'],
             'how': '/opt/venv/bin/python /verif/check.py %s --replay <this file>' % check.id}
        s = json.dumps(d, indent=1, sort_keys=True, default=repr)
        p = os.path.join(outdir, hashlib.sha1(s.encode()).hexdigest()[:12] + '.json')
        with open(p, 'w') as f:
            f.write(s + '\n')
        paths.append(p)
        print('  %s [%s] %s' % (v['stage'], ', '.join('%s=%s' % (k, str(x)[:120]) for k, x in sorted(v['case'].items())
                                                      if k != 'literal'), v['message'][:300]))
        print('VIOLATION property=%s replay=%s' % (check.id, p))
    if len(fresh) > MAXVIOL:
        print('  ... %d violations in all' % len(fresh))
    cov = {'states': total.states, 'transitions': total.transitions,
           'traces_validated_against_impl': total.traces, 'samples': total.samples,
           'tasks': ntasks, 'outcomes': total.outcomes, 'rule': check.rule(tier),
           'exhaustive': check.exhaustive, 'known_finding_cases': sum(hit)}
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
          'assumptions': check.assumptions, 'wall_s': round(wall, 3), 'violations': len(fresh)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (check.id, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    os.replace(tmp, os.path.join(ROOT, 'evidence', check.id + '.json'))
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%s violations=%d wall=%.1fs' % (
        check.id, tier, total.states, total.transitions, total.traces,
        json.dumps(total.outcomes, sort_keys=True), len(fresh), wall))
    if not total.states:
        print('  nothing was explored')
        p = os.path.join(ROOT, 'evidence', check.id + '.json')
        print('VIOLATION property=%s replay=%s' % (check.id, p))
        return 1
    return 1 if fresh else 0
