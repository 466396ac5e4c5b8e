"""C20: the SNMP client sends the request it was asked for and shows the response.

Explored: communities, hosts and object names - the datagram handed to the
(stand-in) socket must be the standard's request; and responses: every variant of
a response message, every truncation.  No real socket is used: port 161 may be
closed to the check."""
import socket
from .. import common, model, ref, gen, impl, tools
from .c18_dump_tools import shown


class Socket(object):
    """Stand-in: records what is sent, hands out one datagram."""
    log = []
    answer = b''

    def __init__(self, *a, **kw):
        self.peer = None

    def connect(self, addr):
        self.peer = addr

    def sendto(self, data, *addr):
        Socket.log.append((bytes(data), addr[-1]))
        return len(data)

    def send(self, data, *a):
        Socket.log.append((bytes(data), self.peer))
        return len(data)
    sendall = send

    def recvfrom(self, n, *a):
        return Socket.answer[:n], (Socket.log[-1][1] if Socket.log else ('127.0.0.1', 161))

    def recv(self, n, *a):
        return Socket.answer[:n]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, name):
        return lambda *a, **kw: None


class Snmp(common.Check):
    id = 'C20'
    title = 'SNMP client'
    assumptions = ['the datagram socket is a stand-in']

    def rule(self, tier):
        return '16 communities x 3 hosts x 16 object names; every response variant %d deep, every truncation of 4' % (3 if tier == 'quick' else 5)

    def tasks(self, tier):
        return ['request', 'response', 'damage']

    def ask(self, args, answer, res):
        res.states += 1
        res.transitions += 1
        res.traces += 1
        Socket.log = []
        Socket.answer = answer
        end, out = tools.run('snmpget.py', args, '', [(socket, 'socket', Socket)])
        if end == 'never ends':
            raise common.Timeout('snmpget never ends')
        return end, out

    def run_task(self, task, tier, res):
        S = model.load()
        r = S.resolve(S.modules['rfc1157'].types['Message'])
        G = gen.Gen(S, 3 if tier == 'quick' else 5)
        pdu = {'request-id': 123, 'error-status': 0, 'error-index': 0,
               'variable-bindings': [{'name': (1, 3, 6, 1), 'value': ('simple', ('string', b'Linux'))}]}
        good = {'version': 0, 'community': b'public', 'data': ('get-response', pdu)}
        getattr(self, task)(S, r, G, good, res)

    def request(self, S, r, G, good, res):
        oids = ['1.3.6.1.2.1.1.1.0', '1.3', '1.3.6.1', '0.0', '0.39.1', '1.39', '2.5.4.3', '2.100.3', '2.999', '1.3.0', '1.3.127', '1.3.128',
                '1.3.16383.16384', '1.3.2097152', '1.3.4294967295', '.'.join(['1'] * 60)]
        for com in ('public', '', 'a', 'x' * 127, 'x' * 128, 'x' * 300, 'with space', '12', ' public ', '\tx', 'PUBLIC', '0x41', "'00'H", '-v', '%s', '"q"'):
            for host in ('127.0.0.1', 'agent.example', 'AGENT'):
                for oid in oids:
                    end, out = self.ask((com, host, oid), ref.encode(S, r, good), res)
                    case = {'type': 'request', 'value': '%s %s %s' % (com, host, oid), 'args': [com, host, oid]}
                    if end != 'done' or len(Socket.log) != 1:
                        res.fail(case, 'request', '%d datagrams sent; the tool: %s' % (len(Socket.log), end))
                        continue
                    b, to = Socket.log[0]
                    if to != (host, 161):
                        res.fail(case, 'request', 'sent to %r' % (to,))
                    try:
                        v = ref.decode(S, r, b)
                        rid = v['data'][1]['request-id']
                    except Exception as e:
                        rid = 0
                        v = common.desc(e)
                    want = {'version': 0, 'community': com.encode(), 'data': ('get-request', {
                        'request-id': rid, 'error-status': 0, 'error-index': 0, 'variable-bindings': [
                            {'name': tuple(map(int, oid.split('.'))), 'value': ('simple', ('empty', None))}]})}
                    if v != want or b != ref.encode(S, r, want):
                        res.fail(case, 'request', 'sends %s, should send %s' % (b.hex()[:300], ref.encode(S, r, want).hex()[:300]))
                    if 'sending' not in out or 'received' not in out:
                        res.fail(case, 'request', 'prints %r' % out[:200])
        for args in ((), ('public',), ('public', '127.0.0.1'), ('public', '127.0.0.1', '1.3', 'x')):
            end, out = self.ask(args, b'', res)
            if end == 'done' or 'Usage' not in out or Socket.log:
                res.fail({'type': 'request', 'value': repr(args)}, 'usage', 'with %d arguments: %s' % (len(args), end))
        res.samples.append('snmpget public 127.0.0.1 2.999')

    def response(self, S, r, G, good, res):
        vs = [v for v in G.variants(r) if not ref.lossy(S, r, v) and v['version'] == 0]
        c = {x.name: S.resolve(x.type) for x in S.resolve(S.modules['rfc1157'].types['Pdus']).comps}
        for alt in c:
            vs += [{'version': 0, 'community': b'public', 'data': (alt, x)} for x in G.variants(c[alt]) if not ref.lossy(S, c[alt], x)]
        pdu = good['data'][1]
        for n in list(range(430, 450)) + [470, 500, 1000, 1400, 1430, 1460, 1472, 1500] + list(range(1990, 2048)):     # up to the 2048 octets the tool reads
            vs.append(dict(good, data=('get-response', dict(pdu, **{'variable-bindings': [
                {'name': (1, 3), 'value': ('simple', ('string', b'x' * n))}]}))))
        seen = set()
        for v in vs:
            e = ref.encode(S, r, v)
            if e in seen or len(e) > 2048:
                continue
            seen.add(e)
            end, out = self.ask(('public', '127.0.0.1', '1.3.6.1'), e, res)
            case = {'type': 'response', 'value': impl.show(v)[:300], 'bytes': e.hex()}
            if end != 'done' or 'received' not in out:
                res.fail(case, 'response', 'response not shown: %s' % end)
                continue
            miss = shown(S, r, v, out[out.index('received'):].replace('received: ', '', 1))
            if miss:
                res.fail(case, 'response', 'response is shown without %s: %r' % (miss, out[-300:]))

    def damage(self, S, r, G, good, res):
        pdu = good['data'][1]
        for val in (('simple', ('string', b'Linux')), ('simple', ('number', 5)), ('application-wide', ('ticks', 77)),
                    ('application-wide', ('address', ('internet', b'\x7f\x00\x00\x01')))):
            v = dict(good, data=('get-response', dict(pdu, **{'variable-bindings': [{'name': (1, 3), 'value': val}]})))
            e = ref.encode(S, r, v)
            for n in range(len(e)):
                end, out = self.ask(('public', '127.0.0.1', '1.3.6.1'), e[:n], res)
                if end == 'done' or 'received' in out:
                    res.fail({'type': 'damage', 'value': 'cut at octet %d' % n, 'bytes': e[:n].hex()}, 'response',
                             'damaged response, yet shown: %r' % out[-200:])

    def replay(self, case, res):
        for t in self.tasks('quick'):
            r2 = common.Result()
            self.run_task(t, 'quick', r2)
            res.violations += [v for v in r2.violations if v['case'] == case]


CHECK = Snmp()
