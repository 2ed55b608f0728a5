"""A real OpenADRClient in virtual time, talking to a scripted VTN."""
import asyncio
import vclock
vclock.install()
import net
net.install()
import wire
import vtn
import xmlsig
import aiohttp
import uuid

FAULTS = ['refuse', 'timeout', 'reset', 'payload', 'http500', 'http404', 'http403', 'empty', 'bytes', 'notxml', 'cut',
          'invalid', 'foreign', 'wrong']

# answers that a VEN which knows the VTN's fingerprint must not act upon
SIGFAULTS = ['sig-none', 'sig-other', 'sig-key', 'sig-content', 'sig-wrapped', 'sig-stale', 'sig-again', 'sig-norp', 'sig-malformed',
             'sig-nononce', 'sig-value', 'sig-digest', 'sig-hmac', 'sig-oneref', 'sig-second', 'sig-comment', 'sig-keyinfo',
             'sig-dropped']


class Signer:
    """The VTN's signing, right or wrong"""
    last = None

    def good(self, xml, n=0):
        kw = [{}, {}, {}, {'exclusive': True}, {'alg': 'sha512'}, {'flat': True}, {'refs': ('prop', 'object')},
              {'chain': ('vtn2',)}][n % 8]
        stamp, nonce = vclock.Clock.t + [0, 0, -5, -1, 3600][n % 5], uuid.uuid4().hex
        self.last = stamp, nonce
        return xmlsig.sign(xml, 'vtn', stamp, nonce, **kw)

    def bad(self, kind, xml):
        kind = kind[4:]
        now, nonce = vclock.Clock.t, uuid.uuid4().hex
        if kind in ('again', 'comment') and self.last is None:
            kind = 'other'
        kw = {'other': {'key': 'mallory'}, 'key': {'key': 'mallory', 'shown': 'vtn'}, 'stale': {'stamp': now - 5.5},
              'norp': {'rp': '<x:nothing xmlns:x="urn:x"/>'}, 'malformed': {'stamp': 'yesterday'}, 'nononce': {'nonce': None},
              'hmac': {'hmac': True}, 'oneref': {'refs': ('object',)}, 'keyinfo': {'keyinfo': ''},
              'second': {'stamp': now - 60}}.get(kind, {})
        if kind in ('again', 'comment'):
            kw = dict(zip(('stamp', 'nonce'), self.last))
        kw = dict({'key': 'vtn', 'stamp': now, 'nonce': nonce}, **kw)
        sign = lambda x: xmlsig.sign(x, **kw)
        if kind == 'none':
            return xml
        if kind in ('content', 'wrapped', 'dropped'):
            s = sign(wire.response('somebody', 200, 'signed'))
            if kind == 'wrapped':
                return xmlsig.wrap(s, xml)
            c = xmlsig.content(xml)
            return s.replace(xmlsig.content(s), c if kind == 'content' else c.replace(' oadr:Id="oadrSignedObject"', ''))
        s = sign(xml)
        if kind in ('value', 'digest'):
            t = {'value': '<ds:SignatureValue>', 'digest': '<ds:DigestValue>'}[kind]
            i = s.index(t) + len(t)
            return s[:i] + ('A' if s[i] != 'A' else 'B') + s[i + 1:]
        if kind == 'second':
            return s.replace('<ds:Object Id="prop">', '<ds:Object>' + xmlsig.protect(now, nonce + 'y', 'other') +
                             '</ds:Object><ds:Object Id="prop">')
        if kind == 'comment':
            n = kw['nonce']
            return s.replace(n, n[:3] + '<!-- c -->' + n[3:])
        return s


class Forged(net.Reply):
    """A reply with a signature that is not right"""


def fault_reply(kind, good, signer=None):
    """What happens instead of the good answer; good: a function that makes it"""
    if kind == 'refuse':
        raise net.connection_error()
    if kind == 'timeout':
        raise aiohttp.ServerTimeoutError('Timeout on reading data from socket')
    if kind == 'reset':
        raise aiohttp.ServerDisconnectedError()
    if kind == 'payload':
        return BadRead()
    if kind.startswith('http'):
        return net.Reply(int(kind[4:]), b'failure \xc3\xa9 <x/>', 'text/plain')
    if kind == 'empty':
        return net.Reply(200, b'')
    if kind == 'bytes':
        return net.Reply(200, b'\xff\xfe\x00\x01\x80')
    if kind == 'notxml':
        return net.Reply(200, b'hello')
    if kind == 'foreign':
        return net.Reply(200, b'<html><body>Service unavailable</body></html>')
    if kind == 'wrong':
        return net.Reply(200, wire.created_opt(wire.rid(), 'opt1').encode())
    if kind.startswith('sig-'):
        if signer is None:       # the same execution without signatures
            good()
            return net.Reply(500, b'failure', 'text/plain')
        return Forged(200, signer.bad(kind, good()).encode())
    x = good().encode()
    if kind == 'cut':
        return net.Reply(200, x[:len(x) * 2 // 3])
    if kind == 'invalid':
        return net.Reply(200, x.replace(b'</oadr:oadrSignedObject>', b'<oadr:oadrNonsense/></oadr:oadrSignedObject>'))
    raise ValueError(kind)


class BadRead(net.Reply):
    def __init__(self):
        super().__init__(200, b'')

    async def read(self):
        raise aiohttp.ClientPayloadError('Response payload is not completed')


def message_text(data):
    return data.decode('utf-8') if isinstance(data, (bytes, bytearray)) else data


class Box:
    """The scripted VTN: `plan[type]` is a list of answers for the next requests of that type, each a function
    (request message) -> XML text or Reply, which may raise; when it is empty, a well-behaved default answers."""

    def __init__(self, t=0.0, ven_name='ven', poll=20, vtn_id='VTN1', ven_id='ven1', reg_id='reg1', loop=None, **kw):
        self.loop = loop or vclock.new_loop(t)
        self.poll, self.vtn_id, self.ven_id, self.reg_id = poll, vtn_id, ven_id, reg_id
        self.log = []          # [(time, Msg)]
        self.plan = {}
        self.raw = []          # [(time, sent text, Reply)]
        self.host = 'vtn' if vclock.part() is None else f'vtn{vclock.part()}'
        self.path = vtn.some_prefix(ven_name, vtn_id, ven_id, vclock.offset())
        net.Net.hosts[self.host] = self.intercept
        self.signer = None
        xmlsig.install()
        from openleadr import OpenADRClient
        self.client = OpenADRClient(ven_name=ven_name, vtn_url=f'http://{self.host}{self.path}',
                                    show_fingerprint=False, **kw)

    async def intercept(self, req):
        m = wire.read(req.data)
        m['service'] = req.service
        if req.path != self.path.rstrip('/') + '/' + req.service:
            return net.Reply(404, b'Not Found', 'text/plain')
        self.log.append((vclock.Clock.t, m))
        todo = self.plan.get(m.type)
        r = todo.pop(0)(m) if todo else self.default(m)
        if asyncio.iscoroutine(r):
            r = await r
        if isinstance(r, str):
            r = net.Reply(200, r.encode())
        if self.signer and type(r) is net.Reply and r.status == 200 and wire.read(r.body).valid:
            r.body = self.signer.good(r.body.decode(), len(self.log)).encode()
        return r

    def default(self, m):
        rq = m.request_id or ''
        t = m.type
        if t == 'oadrQueryRegistration':
            return wire.created_party_registration(rq, None, None, self.vtn_id, self.poll)
        if t == 'oadrCreatePartyRegistration':
            return wire.created_party_registration(rq, self.reg_id, self.ven_id, self.vtn_id, self.poll)
        if t == 'oadrRegisterReport':
            return wire.registered_report(rq, m.ven_id, [])
        if t == 'oadrUpdateReport':
            return wire.updated_report(rq, m.ven_id)
        if t == 'oadrCancelPartyRegistration':
            return wire.canceled_party_registration(rq, m.registration_id, m.ven_id)
        if t == 'oadrCreateOpt':
            return wire.created_opt(rq, m.opt_id)
        if t == 'oadrCancelOpt':
            return wire.canceled_opt(rq, m.opt_id)
        if t in ('oadrResponse', 'oadrCanceledPartyRegistration'):
            return net.Reply(200, b'')
        return wire.response(m.ven_id, 200, rq)

    def expect(self, type, answer):
        self.plan.setdefault(type, []).append(answer)

    def answer(self, make, fault=''):
        """An answer for expect(): make(m) -> XML, unless a fault happens"""
        def go(m):
            if fault == 'lost':
                make(m)
                raise aiohttp.ServerDisconnectedError()
            return fault_reply(fault, lambda: make(m), self.signer) if fault else make(m)
        return go

    def run(self, coro):
        """Start a coroutine as a task"""
        return self.loop.create_task(coro)

    def advance(self, t):
        self.loop.advance_to(t)

    def take(self):
        log, self.log = self.log, []
        return log

    def close(self):
        try:
            if self.client.scheduler.running:
                self.client.scheduler.shutdown(wait=False)
        except Exception:
            pass
        net.Net.hosts.pop(self.host, None)
        vtn.close_loop(self.loop)
