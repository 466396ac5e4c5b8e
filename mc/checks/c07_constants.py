"""C07: published identifiers and limits have the standard's values.

Every constant of the model: same value, right kind, same DER encoding, equal
to (and hashing like) an identifier an application builds itself or decodes, and
unchanged by use."""
from .. import common, model, ref, gen, impl
from ..common import desc


class Constants(common.Check):
    id = 'C07'
    title = 'Published constants'

    def rule(self, tier):
        return 'every published constant of every module, each compared with every other of its module'

    def tasks(self, tier):
        return sorted(model.load().modules)

    def run_task(self, mn, tier, res):
        S = model.load()
        mod = impl.module(mn)
        for rounds in (1, 2):          # the second time after everything was used once
            self.pass_(S, mn, mod, res)
        ns = {}
        try:
            exec('from %s import *' % mod.__name__, ns)
        except Exception as e:
            res.fail({'type': '%s.*' % mn, 'value': ''}, 'asterisk', 'from %s import * fails: %s' % (mn, desc(e)))
        for name in list(S.modules[mn].values) + list(S.modules[mn].types) + [n for m, n in S.registry_keys if m == mn]:
            res.transitions += 1
            if not name.startswith('_') and hasattr(mod, name) and ns.get(name, self) is not getattr(mod, name):
                res.fail({'type': '%s.%s' % (mn, name), 'value': 'asterisk'}, 'asterisk', 'from %s import * does not give %s' % (mn, name))

    def pass_(self, S, mn, mod, res):
        for name, (t, v) in S.modules[mn].values.items():
            r = S.resolve(t)
            case = {'type': '%s.%s' % (mn, name), 'value': repr(v)[:200] if isinstance(v, bytes) else str(v)[:200]}
            res.states += 1
            res.traces += 1
            try:
                x = getattr(mod, name)
            except AttributeError:
                res.fail(case, 'missing', '%s.%s is not published' % (mn, name))
                continue
            try:
                self.one(S, mn, name, r, v, x, case, res)
            except Exception as e:
                res.fail(case, 'unusable', '%s.%s: %s' % (mn, name, desc(e)))

    def one(self, S, mn, name, r, v, x, case, res):
        if isinstance(v, dict):                   # a template: only these components are laid down
            names = impl.check_names(r, x) if v else []
            for k, want in v.items():
                c = [y for y in r.comps if y.name == k][0]
                res.transitions += 1
                w = impl.walk(S, S.resolve(c.type), x.getComponentByPosition(names.index(k)))
                if isinstance(want, bytes) and not isinstance(w, bytes):
                    want = ref.decode(S, S.resolve(c.type), want)
                if w != want:
                    res.fail(case, 'value', '%s.%s: %s is %s, should be %s' % (
                        mn, name, k, impl.show(w)[:200], impl.show(want)[:200]))
            return
        if isinstance(v, bytes):                  # a complete value, by its encoding
            res.transitions += 1
            if impl.der_encoder.encode(x) != v:
                res.fail(case, 'encode', '%s.%s encodes as %s, should be %s' % (
                    mn, name, impl.der_encoder.encode(x).hex()[:200], v.hex()[:200]))
            return
        if r.kind == 'INTEGER':
            res.transitions += 1
            if int(x) != v:
                res.fail(case, 'value', '%s.%s is %d, should be %d' % (mn, name, int(x), v))
            return
        if r.kind == 'OBJECT IDENTIFIER':
            res.transitions += 4
            dots = '.'.join(map(str, v))
            if isinstance(x, str):
                if x != dots:
                    res.fail(case, 'value', '%s.%s is %s, should be %s' % (mn, name, x, dots))
                return
            if tuple(x) != v or str(x) != dots:
                res.fail(case, 'value', '%s.%s is %s, should be %s' % (mn, name, x, dots))
                return
            mine = impl.univ.ObjectIdentifier(v)
            e = ref.encode(S, r, v)
            if x != mine or {mine: 1}.get(x) != 1 or {x: 1}.get(mine) != 1:
                res.fail(case, 'lookup', '%s.%s is not interchangeable with %s' % (mn, name, dots))
            if not r.label or len(r.stack) == 1:
                if impl.der_encoder.encode(x) != e:
                    res.fail(case, 'encode', '%s.%s encodes as %s' % (mn, name, impl.der_encoder.encode(x).hex()))
                elif impl.der_decoder.decode(e, asn1Spec=x.clone())[0] != x:
                    res.fail(case, 'decode', '%s.%s does not decode to itself' % (mn, name))
            return
        w = impl.walk(S, r, x) if hasattr(x, 'isValue') else x
        res.transitions += 1
        if w != v:
            res.fail(case, 'value', '%s.%s is %s, should be %s' % (mn, name, impl.show(w)[:100], impl.show(v)[:100]))

    def replay(self, case, res):
        self.run_task(case['type'].split('.')[0], 'quick', res)


CHECK = Constants()
