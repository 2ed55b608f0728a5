"""A VTN and VENs of this library, end to end (C29): a real OpenADRServer and real OpenADRClients on one virtual
network that loses messages, against spec/System.tla."""
import asyncio
import functools
import json
import random
import aiohttp
import venbox
import vclock
import vtn
import net
import wire
import xmlsig
import m_vtnevents
from core import rng_for
from datetime import timedelta
from m_venevents import secs, tstamp

TRACE_MODULE, MC_MODULE = 'TraceSystem', 'MCSystem'
KINDS = {'poll': 'oadrPoll', 'sync': 'oadrRequestEvent', 'created': 'oadrCreatedEvent', 'create': 'oadrCreatePartyRegistration',
         'offer': 'oadrRegisterReport', 'dereg': 'oadrCancelPartyRegistration'}
NOLOSS = {k: '' for k in KINDS}
CERTS = ['ven1', 'ven2', 'mallory']


def seen(ev):
    """what the VEN's application sees, in the form of m_vtnevents.expected"""
    try:
        d, p = ev['event_descriptor'], ev['active_period']
        tol = p.get('tolerance')
        for k in ('tolerate', 'startafter'):
            tol = tol.get(k) if isinstance(tol, dict) else tol
        t = d.get('test_event')
        return json.dumps({
            'prio': str(d.get('priority') or 0), 'ctx': d['market_context'], 'resp': ev['response_required'],
            'start': tstamp(p['dtstart']), 'dur': secs(p['duration']), 'ramp': secs(p.get('ramp_up')) or 0,
            'notif': secs(p.get('notification')) or 0, 'recov': secs(p.get('recovery')) or 0, 'tol': secs(tol) or 0,
            'test': {None: 'false', False: 'false', True: 'true'}.get(t, t), 'comment': d.get('vtn_comment') or '',
            'targets': sorted([k, wire.target_flat(k, v)] for t in ev.get('targets') or [] for k, v in t.items()),
            'signals': [{'name': s['signal_name'], 'type': s['signal_type'],
                         'cur': '' if s.get('current_value') is None or s['signal_name'] == 'SIMPLE' and s['current_value'] == 0 else wire.num(str(s['current_value'])),
                         'meas': wire.meas_seen(s.get('measurement')) or [],
                         'tg': [wire.target_flat(k, v) for t in s.get('targets') or [] for k, v in t.items()],
                         'intervals': [[tstamp(i['dtstart']), secs(i['duration']), str(i['uid']), wire.num(str(i['signal_payload']))]
                                       for i in s['intervals']]} for s in ev['event_signals']]}, sort_keys=True)
    except Exception as err:
        return f'unreadable: {err!r} {ev!r}'


class Vtn(m_vtnevents.Driver):
    """The application at the VTN"""

    def __init__(self, loop, cfg, opts):
        from openleadr import OpenADRServer, objects
        self.objects, self.loop, self.cfg, self.opts = objects, loop, cfg, opts
        self.calls, self.data, self.known, self.banned = [], [], set(), set()
        self.vens = {c['v']: c for c in cfg['vens']}
        self.names = {opts['names'][c['v']]: c['v'] for c in cfg['vens']}
        kw = {'ven_lookup': self.styled(self.lookup)}
        if opts['signed']:
            xmlsig.install()
            kw.update(cert=xmlsig.path('vtn'), key=xmlsig.path('vtn', 'key'))
        self.path = vtn.some_prefix(cfg, vclock.offset())
        self.server = OpenADRServer(http_path_prefix=self.path, vtn_id=opts['vtn_id'], show_fingerprint=False,
                                    requested_poll_freq=timedelta(seconds=cfg['P']), **kw)
        self.server.add_handler('on_create_party_registration', self.styled(self.register))
        self.server.add_handler('on_cancel_party_registration', self.styled(self.cancelled))
        self.server.add_handler('on_register_report', self.full_offer() if opts['full'] else self.compact_offer())

    def styled(self, f):
        if not self.opts['async']:
            return f

        @functools.wraps(f)
        async def g(*a, **kw):
            await asyncio.sleep(0)
            return f(*a, **kw)
        return g

    def fingerprint(self, v):
        return xmlsig.cert(self.opts['certs'][v]).fingerprint if self.opts['signed'] else None

    def lookup(self, ven_id):
        if ven_id not in self.vens:
            return None
        return {'ven_id': ven_id, 'ven_name': 'x', 'registration_id': f'reg {ven_id}' if ven_id in self.known else None,
                'fingerprint': self.fingerprint(ven_id)}

    def register(self, payload):
        v = self.names.get(payload['ven_name'])
        if v is None or v in self.banned:
            return self.opts['refusal'] == 'False' and False or None
        if self.opts['signed'] and payload.get('fingerprint') != self.fingerprint(v):
            return None
        self.known.add(v)
        return v, f'reg {v}'

    def cancelled(self, payload):
        self.known.discard(payload['ven_id'])

    # ---- reports
    def arrived(self, data, v, r):
        for t, x in data:
            self.data.append({'v': v, 'r': r, 't': tstamp(t), 'x': int(x) if x == int(x) else repr(x)})

    def taker(self, v, r):
        f = functools.partial(self.arrived, v=v, r=r)

        async def slow(data):
            await asyncio.sleep(0)
            f(data)
        return slow if self.opts['async'] else f

    def want(self, v, r):
        c = self.vens[v]
        if r not in [p['r'] for p in c['wanted']]:
            return None
        return (self.taker(v, r), timedelta(seconds=c['g'])) + ((timedelta(seconds=c['back']),) if c['back'] > c['g'] else ())

    def compact_offer(self):
        def offered(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            return self.want(ven_id, resource_id[4:])

        async def slow(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            return self.want(ven_id, resource_id[4:])
        return slow if self.opts['async'] else offered

    def full_offer(self):
        def offered(report):
            v = report['report_specifier_id'][5:]
            return [(d['r_id'], *self.want(v, d['r_id'])) for d in report['report_descriptions'] if self.want(v, d['r_id'])]

        async def slow(report):
            return offered(report)
        return slow if self.opts['async'] else offered


class Driver:
    def __init__(self, cfg, opts):
        self.cfg, self.opts, self.script = cfg, opts, []
        self.loop = vclock.new_loop(0.0)
        self.vtn = Vtn(self.loop, cfg, opts)
        self.clients, self.hands, self.down, self.decs, self.lost, self.how = {}, [], set(), {}, {}, random.Random(0)
        self.base = {}
        self.old = []

    # ---- the network
    def wires(self, v):
        async def carry(req):
            r = self.how
            m = wire.read(req.data)
            if v in self.down:
                raise r.choice([net.connection_error, lambda: aiohttp.ServerTimeoutError('Timeout')])()
            lost = self.lost.get(m.type, '')
            signed = self.opts['signed']
            send = lambda data: net.serve(self.vtn.server.app, req.path, data, headers=dict(req.headers), secure=bool(signed),
                                          der=xmlsig.cert(self.opts['certs'][v]).der if signed else None)
            if lost == 'req':
                if signed and m.ven_id and v in self.vtn.known and r.random() < .5:       # (others are told to register first)
                    bad = r.choice(['digest', 'value', 'content', 'connection'])
                    text = req.data.decode()
                    if bad == 'connection':         # somebody else sends it, over a connection of their own
                        other = [n for n in CERTS if n != self.opts['certs'][v]]
                        return await net.serve(self.vtn.server.app, req.path, req.data, headers=dict(req.headers), secure=True,
                                               der=xmlsig.cert(r.choice(other)).der)
                    return await send(self.tampered(bad, text).encode())
                raise r.choice([net.connection_error, lambda: aiohttp.ServerTimeoutError('Timeout'), aiohttp.ServerDisconnectedError])()
            reply = await send(req.data)
            if signed and m.ven_id and r.random() < .06:      # the message a second time, from whoever overheard it
                await send(req.data)
            if lost == 'resp':
                how = r.choice(['reset', 'payload', 'cut', 'http500', 'empty', 'bytes', 'notxml'] + ['digest', 'value', 'content'] * bool(signed))
                if how == 'cut' and reply.status == 200:
                    return net.Reply(200, reply.body[:len(reply.body) * 2 // 3])
                if how in ('digest', 'value', 'content') and b'<ds:' in reply.body:
                    return net.Reply(200, self.tampered(how, reply.body.decode()).encode())
                return venbox.fault_reply(how if how not in ('cut', 'digest', 'value', 'content') else 'reset', None)
            return reply
        return carry

    @staticmethod
    def tampered(how, text):
        if how == 'content':
            i = text.index('</oadr:oadrSignedObject>') if '</oadr:oadrSignedObject>' in text else -1
            j = text.rfind('</', 0, i)
            k = text.rfind('>', 0, j) + 1 if i > 0 else -1
            return text[:k] + 'x' + text[k:] if i > 0 else text[:len(text) // 2]
        i = text.find({'digest': 'DigestValue>', 'value': 'SignatureValue>'}[how])
        if i < 0:
            return text[:len(text) // 2]
        i = text.index('>', i) + 1
        while text[i].isspace():
            i += 1
        return text[:i] + ('A' if text[i] != 'A' else 'B') + text[i + 1:]

    # ---- the applications at the VENs
    def start(self, v):
        from openleadr import OpenADRClient
        o, c = self.opts, self.vtn.vens[v]
        host = f'vtn-{self.cfg["vens"].index(c)}'
        net.Net.hosts[host] = self.wires(v)
        kw = {}
        if o['signed']:
            n = o['certs'][v]
            kw.update(cert=xmlsig.path(n), key=xmlsig.path(n, 'key'), ca_file=xmlsig.path('vtn'),
                      vtn_fingerprint=xmlsig.cert('vtn').fingerprint)
        client = OpenADRClient(ven_name=o['names'][v], vtn_url=f'http{"s" if o["signed"] else ""}://{host}{self.vtn.path}',
                               show_fingerprint=False, event_status_log_period=self.cfg['L'], events_clean_up_period=self.cfg['C'], **kw)
        client.add_handler('on_event', self.handler(v, 'event'))
        if c['upd']:
            client.add_handler('on_update_event', self.handler(v, 'update'))
        for p in c['points'] if c['g'] else []:
            client.add_report(self.meter(p), 'res-' + p['r'], measurement=o['measure'], r_id=p['r'], report_specifier_id='spec ' + v,
                              sampling_rate=timedelta(seconds=c['g']))
        self.clients[v] = client
        self.base[v] = vclock.Clock.t
        self.loop.create_task(client.run())
        self.settle()
        if not self.up(v):
            self.gone(v)

    def meter(self, p):
        def read():
            return 10 * int(vclock.Clock.t) + p['k']

        async def slow():
            await asyncio.sleep(0)
            return read()
        return slow if self.opts['async'] else read

    def handler(self, v, kind):
        def note(ev):
            try:
                d = ev['event_descriptor']
                k = d['event_id'], d['modification_number']
                e = self.decs.get((v, k[0]), ['optOut', 'optOut'])[d['event_status'] == 'cancelled']
            except Exception:
                k, e = (repr(ev)[:200], -1), 'optOut'
            self.hands.append({'v': v, 'h': kind, 'id': str(k[0]), 'mod': k[1] if isinstance(k[1], int) else -1, 'c': seen(ev)})
            if e == 'raise':
                raise RuntimeError('handler fails')
            return None if e == 'bad' else e

        async def slow(ev):
            await asyncio.sleep(0)
            return note(ev)
        return slow if self.opts['async'] else note

    def gone(self, v):
        self.old.append(self.clients.pop(v))
        self.base.pop(v)

    def up(self, v):
        c = self.clients[v]
        return bool(c.scheduler.running and c.registration_id)

    def settle(self):
        self.loop.settle()

    def next_poll(self, v):
        return int(self.base[v] + ((vclock.Clock.t - self.base[v]) // self.cfg['P'] + 1) * self.cfg['P'])

    def do(self, a, spec=None):
        self.script.append([a, spec])
        self.hands, self.vtn.calls, self.vtn.data = [], [], []
        self.how = random.Random(spec['how'] if spec else 0)
        self.lost = {KINDS[k]: x for k, x in a.get('lost', {}).items()}
        op, v, err = a['op'], a.get('v'), False
        now = vclock.Clock.t
        if op == 'tick':
            self.loop.advance_to(now + a['d'])
        elif op == 'poll':
            self.loop.advance_to(self.next_poll(v))
        elif op == 'add':
            self.decs[v, a['id']] = a['decs']
            try:
                err = self.vtn.add(a, spec) != a['id']
            except Exception:
                err = True
        elif op == 'cancel':
            try:
                self.vtn.server.cancel_event(v, a['id'])
            except Exception:
                err = True
        elif op == 'join':
            self.start(v)
        elif op == 'crash':
            self.loop.create_task(self.clients[v].stop())
            self.settle()
            self.gone(v)
        elif op == 'leave':
            self.loop.create_task(self.clients[v].cancel_party_registration())
        elif op == 'forget':
            self.vtn.known.discard(v)
        elif op == 'ban':
            if a['on']:
                self.vtn.banned.add(v)
                self.vtn.known.discard(v)
            else:
                self.vtn.banned.discard(v)
        elif op == 'net':
            (self.down.discard if a['on'] else self.down.add)(v)
        self.settle()
        for x in list(self.clients):
            if not self.up(x):
                self.gone(x)
        held = []
        for x, c in self.clients.items():
            for ev in c.received_events:
                d = ev['event_descriptor']
                held.append({'v': x, 'id': d['event_id'], 'mod': d['modification_number'], 'st': d['event_status'], 'c': seen(ev)})
        calls = [{k: c[k] for k in ('k', 'v', 'id', 'opt')} if c['for'] == [c['v'], c['id']]
                 else dict(k=c['k'], v=c['v'], id=c['id'], opt=f"{c['opt']} (callback given for {c['for']})")
                 for c in self.vtn.calls]
        return {'calls': calls, 'data': self.vtn.data, 'hands': self.hands, 'err': err,
                'held': sorted(held, key=lambda h: (h['v'], h['id'])), 'up': sorted(self.clients)}

    def close(self):
        for c in list(self.clients.values()) + self.old:
            try:
                if c.scheduler.running:
                    c.scheduler.shutdown(wait=False)
            except Exception:
                pass
        for n in range(len(self.cfg['vens'])):
            net.Net.hosts.pop(f'vtn-{n}', None)
        vtn.close_loop(self.loop)


IDS = ['ven1', 'VEN1', '07', '7', 'a&b', 'My VEN', 'né', 'true']
DECS = ['optIn', 'optIn', 'optOut', 'bad', 'raise']


def mk_world(r, vens):
    P = r.choice([20, 30])
    rids = ['p1', '2', 'x & y', 'null']
    out = []
    for i, v in enumerate(vens):
        points = [{'r': x, 'k': j} for j, x in enumerate(r.sample(rids, r.choice([1, 1, 2, 3])))]
        g = r.choice([0, 10, 10, 20, 30, 60])
        out.append({'v': v, 'upd': r.random() < .7, 'g': g, 'back': g * r.choice([1, 1, 2, 3, 5]), 'points': points,
                    'wanted': [p for p in points if r.random() < .8] if g else []})
    return {'P': P, 'L': r.choice([37, 71]), 'C': r.choice([77, 91, 203]), 'vens': out}


def mk_opts(r, cfg):
    vens = [c['v'] for c in cfg['vens']]
    certs = r.sample(CERTS, 3)
    return {'signed': r.random() < .35, 'async': r.random() < .5, 'full': r.random() < .5, 'vtn_id': r.choice(['VTN1', 'vtn', 'My VTN', '07']),
            'names': {v: n for v, n in zip(vens, r.sample(['name1', 'My Ven', '12', 'a<b'], len(vens)))},
            'certs': dict(zip(vens, certs)), 'refusal': r.choice(['False', 'None']), 'measure': r.choice(['voltage', 'REAL_POWER', 'x things'])}


def random_trace(arg):
    r = rng_for('system', arg['seed'], arg['n'])
    vens = r.sample(IDS, r.choice([1, 2, 2, 3]))
    cfg = mk_world(r, vens)
    opts = mk_opts(r, cfg)
    d = Driver(cfg, opts)
    steps, ids, nid = [], [], [0]
    P, lossy = cfg['P'], r.choice([0, .1, .3])
    rough = r.choice([.2, 1])

    def loss(*kinds):
        return dict(NOLOSS, **{k: r.choice(['req', 'resp']) for k in kinds if r.random() < lossy})

    def do(a, spec=None):
        a = {k: v for k, v in a.items() if v is not None}
        steps.append({'a': a, 'o': d.do(a, dict(spec or {}, how=r.randrange(10 ** 9)))})

    def room():
        return int(min([d.next_poll(v) for v in d.clients], default=10 ** 9) - vclock.Clock.t - 1)

    def tick(n):
        n = min(n, room())
        if n > 0:
            do({'op': 'tick', 'd': n})

    def join(v):
        busy = {b % P for b in d.base.values()}
        for n in range(min(P, room() + 1)):
            t = int(vclock.Clock.t) + n
            if t % 2 and t % P not in busy:
                if n:
                    tick(n)
                do({'op': 'join', 'v': v, 'lost': loss('create', 'offer', 'sync', 'poll', 'created')})
                return

    def add(v):
        nid[0] += 1
        i = r.choice([f'e{nid[0]}', str(nid[0]), f'0{nid[0]}', f'e&{nid[0]}'])
        if ids and r.random() < .2:
            x = r.choice(ids)[1]
            if (v, x) not in ids:
                i = x
        bad = r.choice(m_vtnevents.BADS) if r.random() < .04 else ''
        a, spec = m_vtnevents.mk_add(r, v, i, int(vclock.Clock.t) + r.choice([-40, -1, 0, 1, P, r.randint(0, 4 * P), r.randint(0, 20 * P)]),
                                     r.choice([0, 1, P, r.randint(1, 3 * P), r.randint(1, 20 * P)]), r.choice([-1, -1, 0, 10, 2 * P]),
                                     r.choice([0, 0, 1, 3]), r.choice([0, 0, 2]), r.choice(['none', 'sync', 'sync', 'async', 'future', 'raise']),
                                     r.choice(['none', 'none', 'none', 'sync', 'async'] + ['raise'] * (r.random() < .1)), bad)
        if 'comment' in spec['c']:          # the XML parser strips surrounding blanks
            spec['c']['comment'] = (spec['c']['comment'] or '').strip() or None
            a['c'] = m_vtnevents.expected(spec['c'], v, a['prio'])
        a.update(resp=spec['c']['resp'], decs=[r.choice(DECS), r.choice(DECS)])
        do(a, spec)
        if not bad:
            ids.append((v, i))

    try:
        for v in vens:
            if r.random() < .5:
                for _ in range(r.choice([1, 1, 2, 12 if r.random() < .1 else 3])):
                    add(v)
            if r.random() < .8:
                join(v)
        for _ in range(arg['steps']):
            x, v = r.random(), r.choice(vens)
            up = sorted(d.clients)
            if not up and x < .7 and any(w not in d.vtn.banned for w in vens):
                join(r.choice([w for w in vens if w not in d.vtn.banned]))
            elif x < .45 and up:
                w = min(up, key=d.next_poll)
                do({'op': 'poll', 'v': w, 'lost': loss('create', 'offer', 'sync', 'poll', 'created')})
            elif x < .6:
                add(v)
            elif x < .7:
                do({'op': 'cancel', 'v': v, 'id': r.choice([i for w, i in ids] or ['no']) if r.random() < .3 else
                    r.choice([i for w, i in ids if w == v] or ['none'])})
            elif x < .78:
                tick(r.choice([1, 3, 8, 15]))
            elif x < .85 or r.random() > rough:
                w = [w for w in vens if w not in d.clients]
                if w:
                    join(r.choice(w))
            elif x < .88:
                if up:
                    do({'op': 'crash', 'v': r.choice(up)})
            elif x < .90:
                if up:
                    do({'op': 'leave', 'v': r.choice(up), 'lost': loss('dereg')})
            elif x < .94:
                do({'op': 'forget', 'v': v})
            elif x < .96:
                do({'op': 'ban', 'v': v, 'on': v not in d.vtn.banned})
            else:
                do({'op': 'net', 'v': v, 'on': v in d.down})
        # when all is well again, they agree
        for v in vens:
            if v in d.down:
                do({'op': 'net', 'v': v, 'on': True})
        lossy = 0
        for _ in range(2 * len(d.clients)):
            if d.clients:
                do({'op': 'poll', 'v': min(d.clients, key=d.next_poll), 'lost': NOLOSS})
    finally:
        d.close()
    return finish(d, steps, 'random_trace', arg)


def finish(d, steps, fn, arg):
    return {'cfg': d.cfg, 'steps': steps, 'meta': {'module': 'm_system', 'fn': fn, 'arg': arg, 'script': d.script, 'cfg': d.cfg,
                                                   'opts': d.opts}}


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}"""
    r = rng_for('system-replay', arg['seed'], arg['n'])
    cfg = arg['b'][0]['cfg']
    name = dict(zip([c['v'] for c in cfg['vens']], r.sample(IDS, len(cfg['vens']))))
    cfg = dict(cfg, vens=[dict(c, v=name[c['v']]) for c in cfg['vens']])
    eid = dict(zip('123456', r.sample(['e1', '2', '03', 'a&b', 'true', 'é'], 6)))
    opts = mk_opts(r, cfg)
    d = Driver(cfg, opts)
    steps = []
    try:
        for a in arg['b']:
            a = {k: x for k, x in a.items() if k != 'cfg'}
            spec = {}
            if 'v' in a:
                a['v'] = name[a['v']]
            if 'id' in a:
                a['id'] = eid[a['id']]
            if a['op'] == 'add':
                b, spec = m_vtnevents.mk_add(r, a['v'], a['id'], a['start'], a['dur'], a['ramp'], a['prio'], a['mod'], a['cb'], a['dcb'], '')
                spec['c']['resp'] = a['resp']
                spec['c']['comment'] = (spec['c'].get('comment') or '').strip() or None
                b['c'] = m_vtnevents.expected(spec['c'], a['v'], b['prio'])
                a = dict(a, **b)
            steps.append({'a': a, 'o': d.do(a, dict(spec, how=r.randrange(10 ** 9)))})
    finally:
        d.close()
    return finish(d, steps, 'replay_trace', arg)


def rerun(arg):
    """arg: {cfg, opts, script}"""
    d = Driver(arg['cfg'], arg['opts'])
    steps = []
    try:
        for a, spec in arg['script']:
            steps.append({'a': a, 'o': d.do(a, spec)})
    finally:
        d.close()
    return finish(d, steps, 'rerun', arg)


PLAN = {
    'quick': {'mc': [dict(MaxLen=4), dict(MaxLen=5, Started='TRUE')], 'gen': [dict(MaxLen=20, Worlds='{"one", "two", "three"}')], 'gen_num': 200, 'gen_depth': 20, 'random': 1200, 'steps': 28},
    'thorough': {'mc': [dict(MaxLen=6), dict(MaxLen=6, Started='TRUE')], 'gen': [dict(MaxLen=40, Worlds='{"one", "two", "three"}')], 'gen_num': 1000, 'gen_depth': 40, 'random': 6000, 'steps': 45},
}
