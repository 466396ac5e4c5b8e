"""C19: the OCSP client asks about the right certificate and reports the answer given.

Explored: certificate pairs (every variant of the issuer's name, serial numbers,
keys) - the request that arrives at a responder on the loopback interface must be
the standard's; and responses (every status, certificate status, response variant,
damage) - the tool must print what a good one says and must not print a verdict
for any other."""
import hashlib, http.server, threading
from .. import common, model, ref, gen, impl, tools

SHA1 = (1, 3, 14, 3, 2, 26)
BASIC = (1, 3, 6, 1, 5, 5, 7, 48, 1, 1)


class Responder(object):
    """A responder on the loopback interface that records and answers."""

    def __init__(self):
        self.got = []
        self.answer = b''
        me = self

        class H(http.server.BaseHTTPRequestHandler):
            def reply(self):
                n = int(self.headers.get('Content-Length') or 0)
                me.got.append((self.command, self.path, self.headers.get('Content-Type'), self.rfile.read(n)))
                self.send_response(200)
                self.send_header('Content-Type', 'application/ocsp-response')
                self.send_header('Content-Length', str(len(me.answer)))
                self.end_headers()
                self.wfile.write(me.answer)
            do_GET = do_POST = reply

            def log_message(self, *a):
                pass
        self.srv = http.server.HTTPServer(('127.0.0.1', 0), H)
        self.url = 'http://127.0.0.1:%d/ocsp/x' % self.srv.server_address[1]
        self.t = threading.Thread(target=self.srv.serve_forever, args=(0.05,))
        self.t.daemon = True
        self.t.start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


class Ocsp(common.Check):
    id = 'C19'
    title = 'OCSP client'

    def rule(self, tier):
        return 'every issuer name variant, 12 serial numbers x 6 keys; every response variant %d deep, every single octet truncation' % (
            2 if tier == "quick" else 3)

    def tasks(self, tier):
        return [('names',), ('serials',), ('status',), ('single', 0), ('single', 1), ('damage',), ('pairs',), ('usage',)]

    def types(self, S):
        t = lambda m, n: S.resolve(S.modules[m].types[n])
        self.cert, self.name = t('rfc2459', 'Certificate'), t('rfc2459', 'Name')
        self.resp, self.basic = t('rfc2560', 'OCSPResponse'), t('rfc2560', 'BasicOCSPResponse')
        self.sresp, self.req = t('rfc2560', 'SingleResponse'), t('rfc2560', 'OCSPRequest')

    def certs(self, S, name, serial, key, other=None):
        G = gen.Gen(S, 0)
        m = G.minimal(self.cert)
        tbs = dict(m['tbsCertificate'])
        spki = dict(tbs['subjectPublicKeyInfo'])
        spki['subjectPublicKey'] = ''.join(format(x, '08b') for x in key)
        tbs.update(subject=name, serialNumber=4711, subjectPublicKeyInfo=spki)
        ca = dict(m, tbsCertificate=tbs)
        ee = dict(m, tbsCertificate=dict(m['tbsCertificate'], issuer=other if other is not None else name, serialNumber=serial))
        return tools.armour(ref.encode(S, self.cert, ca), 'CERTIFICATE') + tools.armour(ref.encode(S, self.cert, ee), 'CERTIFICATE')

    def response(self, S, serial=5, single=None, **kw):
        G = gen.Gen(S, 0)
        sr = dict(G.minimal(self.sresp), **(single or {}))
        sr['certID'] = dict(sr['certID'], serialNumber=serial)
        b = G.minimal(self.basic)
        rd = dict(b['tbsResponseData'], responses=[sr] + kw.get('more', []), producedAt='20200102030405Z')
        if 'version' in kw:
            rd['responderID'] = kw['version']
        b = dict(b, tbsResponseData=rd)
        return {'responseStatus': kw.get('status', 0),
                'responseBytes': {'responseType': kw.get('type', BASIC), 'response': kw.get('raw') or ref.encode(S, self.basic, b)}}, sr

    def ask(self, S, R, certs, answer, res):
        R.got[:] = []
        R.answer = answer
        res.states += 1
        res.transitions += 1
        res.traces += 1
        end, out = tools.run('ocspclient.py', (R.url,), certs)
        if end == 'never ends':
            raise common.Timeout('ocspclient never ends')
        return end, out

    def check_request(self, S, R, name, serial, key, end, case, res):
        want = {'tbsRequest': {'requestList': [{'reqCert': {
            'hashAlgorithm': {'algorithm': SHA1}, 'serialNumber': serial,
            'issuerNameHash': hashlib.sha1(ref.encode(S, self.name, name)).digest(),
            'issuerKeyHash': hashlib.sha1(key).digest()}}]}}
        if len(R.got) != 1:
            return res.fail(case, 'request', '%d requests arrive; the tool: %s' % (len(R.got), end))
        cmd, path, typ, body = R.got[0]
        if (cmd, path, typ) != ('POST', '/ocsp/x', 'application/ocsp-request'):
            res.fail(case, 'request', 'request is %s %s, %s' % (cmd, path, typ))
        alg = want['tbsRequest']['requestList'][0]['reqCert']['hashAlgorithm']
        ok = [ref.encode(S, self.req, want)]
        alg['parameters'] = b'\x05\x00'                 # both forms are in use
        ok.append(ref.encode(S, self.req, want))
        if body not in ok:
            res.fail(case, 'request', 'request is %s, should be %s' % (body.hex(), ok[0].hex()))

    def check_answer(self, S, r, sr, end, out, case, res):
        text = 'Certificate ID %d is %s at %s till %s' % (sr['certID']['serialNumber'], sr['certStatus'][0], '20200102030405Z', sr['thisUpdate'])
        if end != 'done' or text not in out:
            res.fail(case, 'answer', 'the tool should print %r; it prints %r and %s' % (text, out[:300], end))

    def run_task(self, task, tier, res):
        S = model.load()
        self.types(S)
        R = Responder()
        try:
            getattr(self, task[0])(S, R, tier, res, *task[1:])
        finally:
            R.close()

    def names(self, S, R, tier, res):
        good = ref.encode(S, self.resp, self.response(S)[0])
        vs = [v for v in gen.Gen(S, 4).variants(self.name) if not ref.lossy(S, self.name, v)]
        for v in vs:
            end, out = self.ask(S, R, self.certs(S, v, 5, b'\x00key'), good, res)
            case = {'type': 'issuer name', 'value': impl.show(v)[:300]}
            self.check_request(S, R, v, 5, b'\x00key', end, case, res)
        res.samples.append('%d issuer names' % len(vs))

    def pairs(self, S, R, tier, res):
        """The issuer given did not issue the certificate: nothing may be asked."""
        good = ref.encode(S, self.resp, self.response(S)[0])
        vs = [v for v in gen.Gen(S, 1).variants(self.name) if not ref.lossy(S, self.name, v)]
        lim = 8 if tier == 'quick' else 30
        vs = vs[:lim]
        for a in vs:
            for b in vs:
                if ref.encode(S, self.name, a) != ref.encode(S, self.name, b):
                    end, out = self.ask(S, R, self.certs(S, a, 5, b'key', b), good, res)
                    if end == 'done' or R.got:
                        res.fail({'type': 'issuer name', 'value': '%s / %s' % (impl.show(a)[:150], impl.show(b)[:150])}, 'mismatch',
                                 'certificate of another issuer, yet a request is sent')
        one = self.certs(S, vs[0], 5, b'key')
        one = one[:one.index('-----END') + 30]
        for text in ('', one):
            end, out = self.ask(S, R, text, good, res)
            if end == 'done' or R.got:
                res.fail({'type': 'input', 'value': text}, 'mismatch', 'certificates are missing, yet a request is sent')

    def serials(self, S, R, tier, res):
        name = gen.Gen(S, 0).minimal(self.name)
        for serial in (0, 1, 5, 127, 128, 255, 256, 65535, 2 ** 31, 2 ** 63, 2 ** 127 + 1, 2 ** 159 - 1):
            r, sr = self.response(S, serial)
            for key in (b'', b'\x00', b'\x00\x00\x01', b'\x80', bytes(range(256)), b'\xff' * 65):
                end, out = self.ask(S, R, self.certs(S, name, serial, key), ref.encode(S, self.resp, r), res)
                case = {'type': 'serial and key', 'value': '%d %s' % (serial, key.hex())}
                self.check_request(S, R, name, serial, key, end, case, res)
                self.check_answer(S, r, sr, end, out, case, res)

    def status(self, S, R, tier, res):
        name = gen.Gen(S, 0).minimal(self.name)
        certs = self.certs(S, name, 5, b'key')
        for st in range(7):
            for typ in (BASIC, BASIC[:-1], BASIC[:-1] + (2,), (2, 5, 4, 3)):
                for form in ('full', 'bare', 'empty', 'wrong'):
                    r, sr = self.response(S, 5, status=st, type=typ, raw={'empty': b'\x30\x00', 'wrong': b'\x05\x00'}.get(form))
                    if form == 'bare':
                        del r['responseBytes']
                    end, out = self.ask(S, R, certs, ref.encode(S, self.resp, r), res)
                    case = {'type': 'response', 'value': 'status %d type %s %s' % (st, typ, form)}
                    if st == 0 and typ == BASIC and form == 'full':
                        self.check_answer(S, r, sr, end, out, case, res)
                    elif end == 'done' or 'Certificate ID' in out:
                        res.fail(case, 'answer', 'no answer about the certificate, yet the tool prints %r' % out[-200:])

    def single(self, S, R, tier, res, half):
        name = gen.Gen(S, 0).minimal(self.name)
        certs = self.certs(S, name, 5, b'key')
        G = gen.Gen(S, 2 if tier == "quick" else 3)
        rest = [x for x in G.reduced(self.sresp)]
        for i, v in enumerate(x for x in G.variants(self.sresp) if not ref.lossy(S, self.sresp, x)):
            if i % 2 != half or v['certID']['serialNumber'] < 0:
                continue
            for more in ([], rest[-1:]):
                r, sr = self.response(S, v['certID']['serialNumber'], v, more=more)
                if any(ref.lossy(S, self.sresp, x) for x in more):
                    continue
                end, out = self.ask(S, R, certs, ref.encode(S, self.resp, r), res)
                self.check_answer(S, r, sr, end, out, {'type': 'response', 'value': impl.show(v)[:300]}, res)

    def damage(self, S, R, tier, res):
        name = gen.Gen(S, 0).minimal(self.name)
        certs = self.certs(S, name, 5, b'key')
        for st in (('good', None), ('revoked', {'revocationTime': '20200101000000Z'}), ('unknown', None)):
            r, sr = self.response(S, 5, {'certStatus': st})
            e = ref.encode(S, self.resp, r)
            for n in range(len(e)):
                end, out = self.ask(S, R, certs, e[:n], res)
                if end == 'done' or 'Certificate ID' in out:
                    res.fail({'type': 'response', 'value': '%s cut at octet %d' % (st[0], n)}, 'answer',
                             'damaged response, yet the tool prints %r' % out[-200:])

    def usage(self, S, R, tier, res):
        certs = self.certs(S, gen.Gen(S, 0).minimal(self.name), 5, b'key')
        R.answer = ref.encode(S, self.resp, self.response(S)[0])
        for args in ((), (R.url, R.url), (R.url, 'x', 'y')):
            R.got[:] = []
            res.states += 1
            end, out = tools.run('ocspclient.py', args, certs)
            if end == 'done' or 'Usage' not in out or R.got:
                res.fail({'type': 'usage', 'value': '%d arguments' % len(args)}, 'usage', 'with %d arguments: %s, %r' % (len(args), end, out[:200]))

    def replay(self, case, res):
        S = model.load()
        for t in self.tasks('quick'):
            r2 = common.Result()
            self.run_task(t, 'quick', r2)
            for v in r2.violations:
                if v['case'] == case:
                    res.violations.append(v)


CHECK = Ocsp()
