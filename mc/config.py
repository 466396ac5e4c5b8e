"""Child process of C27: runs tasks of other checks in the interpreter
configuration it was started with, and writes down what it saw."""
import os, pickle, sys


def main():
    sys.setrecursionlimit(20000)
    names, tier = pickle.load(sys.stdin.buffer)
    from mc import common, checks, model
    import pyasn1_modules
    out = {'where': os.fsencode(pyasn1_modules.__file__), 'optimize': sys.flags.optimize}
    for name, pick in names:
        c = checks.get(name)
        total = common.Result()
        for t in c.tasks(tier):
            if pick is None or t in pick or t[0] in pick:
                total.merge(common.run_one((c, t, tier)))
        out[name] = (total.states, total.transitions, total.traces, sorted(total.outcomes.items()),
                     sorted({(v['stage'], str(v['case'].get('type')), str(v['case'].get('value'))[:300]) for v in total.violations}),
                     [(v['stage'], v['case'], v['message'][:600]) for v in total.violations[:400]])
    sys.stdout.flush()
    with open(os.environ['MC_CONFIG_OUT'], 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main()
