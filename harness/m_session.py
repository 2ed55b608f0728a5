"""Conformance of a VEN's session (registration, polling, reports, deregistration) to spec/VenSession.tla:
drives a real OpenADRClient.  Times are ticks of half a second."""
import asyncio
import json
import random
import venbox
import vclock
import wire
import net
import xmlsig
from core import rng_for
from dataclasses import replace
from datetime import timedelta, timezone

TRACE_MODULE = 'TraceVenSession'
MC_MODULE = 'MCVenSession'

SERVICE = {'oadrPoll': 'OadrPoll', 'oadrQueryRegistration': 'EiRegisterParty',
           'oadrCreatePartyRegistration': 'EiRegisterParty', 'oadrCancelPartyRegistration': 'EiRegisterParty',
           'oadrCanceledPartyRegistration': 'EiRegisterParty', 'oadrResponse': 'EiRegisterParty',
           'oadrRegisterReport': 'EiReport', 'oadrCreatedReport': 'EiReport', 'oadrUpdateReport': 'EiReport',
           'oadrCanceledReport': 'EiReport', 'oadrRegisteredReport': 'EiReport', 'oadrRequestEvent': 'EiEvent'}
HOOKS = ['before_send_xml', 'after_receive_xml', 'before_schema_validation', 'before_parse_xml', 'after_parse_xml']
#            argument of add_report -> what must be offered: element, description, unit, power attributes
MEASURE = {'voltage': ('voltage', 'Voltage', 'V', None), 'REAL_POWER': ('powerReal', 'RealPower', 'W', True),
           'real_energy': ('energyReal', 'RealEnergy', 'Wh', None), 'current': ('current', 'Current', 'A', None),
           'frequency': ('frequency', 'Frequency', 'Hz', None), 'temperature': ('temperature', 'temperature', 'celsius', None),
           'apparent_power': ('powerApparent', 'ApparentPower', 'VA', True),
           'Things': ('customUnit', 'Things', 'boxes', None), 'a & b': ('customUnit', 'a & b', '<u>', None)}
NS = {'voltage': 'power', 'powerReal': 'power', 'energyReal': 'power', 'powerApparent': 'power', 'current': 'oadr',
      'frequency': 'oadr', 'temperature': 'oadr', 'customUnit': 'oadr', '': 'oadr'}
HOW = ['name', 'name', 'name', 'object', 'enum', 'dict', 'case']
READING = ['Direct Read', 'Net', 'Mean']
RTYPE = ['reading', 'usage', 'operatingState', 'x-own']


def ticks(t):
    x = t * 2
    return int(x) if x == int(x) else -1


def tick_of(dt):
    """a datetime the application sees"""
    return ticks((dt - vclock.EPOCH).total_seconds())


ODD = {'NaN': 2000000001, 'INF': 2000000002, '-INF': 2000000003}     # in the specification


def at_tick(t, rep=0):
    d = vclock.EPOCH + timedelta(seconds=t / 2)
    return vclock.local(d) if rep == 1 else d.astimezone(timezone(timedelta(minutes=rep))) if rep else d


def offered(reports):
    """what oadrRegisterReport must contain for the offered reports (specifications of the application)"""
    return json.dumps([[r['rs'], r['name'] if r['name'].startswith('x-') else 'METADATA_' + r['name'], r['dur'], '0',
                        [[d['r'], d['resource'], d['type'], d['reading'],
                          None if r['name'] == 'TELEMETRY_STATUS' else
                          [MEASURE[d['meas']][0], d['desc'], d['unit'], d['scale'], bool(MEASURE[d['meas']][3])],
                          d['ctx'], d['min'], d['max'], d['onchange']] for d in r['dps']]] for r in reports])


def read_offer(m):
    def meas(x):
        return None if x is None else [x['name'], x['description'], x['unit'], x['scale'], x['pa'] == ['50', '230', 'true']]
    return json.dumps([[r['spec'], r['name'], r['duration'], r['req'],
                        [[d['r_id'], d['resource'], d['type'], d['reading'], meas(d['meas']), d['context'],
                          None if d['min'] is None else int(2 * d['min']), None if d['max'] is None else int(2 * d['max']),
                          d['onchange'] == 'true'] for d in r['rds']]] for r in m['reports'] or []])


class Driver:
    def __init__(self, cfg, opts):
        """cfg: for the specification; opts: how to realise it"""
        self.cfg, self.opts = cfg, opts
        self.script, self.calls, self.seen = [], [], {h: [] for h in HOOKS}
        self.traffic, self.inflight = [], 0
        self.box = box = venbox.Box(t=0.5, ven_name=cfg['vname'], vtn_id=opts['vtn_id'],
                                    ven_id='other', reg_id='other',
                                    **self.security(),
                                    **(dict(event_status_log_period=10 ** 7, events_clean_up_period=10 ** 7)))
        if opts['auth'] == 'on':
            box.signer = venbox.Signer()
        self.nonces, self.signed = set(), True
        box.default = self.default
        self.plain = net.Net.hosts[box.host]
        net.Net.hosts[box.host] = self.intercept
        c = box.client
        if cfg['ven']:
            c.ven_id = cfg['ven']
        from openleadr import objects
        for r in opts['reports']:
            for d in r['dps']:
                kw = {}
                if d['explicit']:
                    kw['sampling_rate'] = timedelta(seconds=d['min'] / 2) if d['min'] == d['max'] and not d['onchange'] \
                        else objects.SamplingRate(min_period=timedelta(seconds=d['min'] / 2),
                                                  max_period=timedelta(seconds=d['max'] / 2),
                                                  on_change=d['onchange'])
                if r['name'] != 'TELEMETRY_STATUS':
                    kw.update(measurement=self.measurement(d), scale=d['scale'])
                    if isinstance(kw['measurement'], str) and MEASURE[d['meas']][0] == 'customUnit':
                        kw['unit'] = d['unit']
                c.add_report(self.callback(r, d), d['resource'], data_collection_mode=r['mode'],
                             report_specifier_id=r['rs'], r_id=d['r'], report_name=r['name'],
                             reading_type=d['reading'], report_type=d['type'],
                             report_duration=timedelta(seconds=r['dur']), market_context=d['ctx'], **kw)
        if opts['hooks']:
            for h in HOOKS:
                c.add_hook(h, self.hook(h))
                if opts['hooks'] == 'bad':
                    c.add_hook(h, self.bad_hook())
                    c.add_hook(h, self.hook(h))

    def measurement(self, d):
        """The measurement by name, or an object or a dict that the application uses for everything of the kind"""
        from openleadr import enums, objects
        how = d.get('how', 'name')
        if how == 'name':
            return d['meas']
        pool = self.box.loop.real.__dict__.setdefault('pool', {})
        if (d['meas'], how) not in pool:
            name, desc, unit, pa = MEASURE[d['meas']]
            m = {'name': name, 'description': desc, 'unit': unit, 'scale': 'none'}
            if how == 'object':
                m = replace(enums.MEASUREMENTS[d['meas'].upper()]) if name != 'customUnit' else objects.Measurement(**m)
            elif how == 'enum':
                m = enums.MEASUREMENTS[d['meas'].upper()] if name != 'customUnit' else d['meas']
            elif pa:
                m['power_attributes'] = {'ac': True, 'voltage': 230, 'hertz': 50}
            if how == 'case':
                m['description'] = desc.lower()
            pool[d['meas'], how] = m
        return pool[d['meas'], how]

    def security(self):
        kw = {}
        if self.opts['auth'] == 'on':
            kw['vtn_fingerprint'] = xmlsig.cert('vtn').fingerprint
        if self.opts['key']:
            kw.update(cert=xmlsig.path('ven1'), key=xmlsig.path('ven1', 'key'), ca_file=xmlsig.path('vtn'),
                      disable_signature=self.opts['key'] == 'off')
        return kw

    def signature_ok(self, text):
        """A VEN that has a key signs what it sends"""
        try:
            v = xmlsig.verify(text)
        except Exception:
            return False
        if v is None or self.opts['key'] != 'on':
            return (v is None) == (self.opts['key'] != 'on')
        used = v[2] in self.nonces
        self.nonces.add(v[2])
        # A callback that takes long (the clock moves while it runs) can sit between
        # the creation of a message and the moment it goes out.
        return v[0] == 'ven1' and not used and -30 <= v[1] - vclock.Clock.t <= 1

    def hook(self, h):
        def note(*a):
            self.seen[h].append(a[0])

        async def slow(*a):
            await asyncio.sleep(0)
            self.seen[h].append(a[0])
        return slow if self.opts['async'] else note

    def bad_hook(self):
        async def slow(*a):
            await asyncio.sleep(0)
            raise ValueError('hook fails')

        def fast(*a):
            raise RuntimeError('hook fails')
        return slow if self.opts['async'] else fast

    def callback(self, r, d):
        def one(x):
            v, y = 10 * x + d['k'], x // 2 + d['k']
            v = 0 if y % 7 == 0 else -v if y % 5 == 0 else v
            if y % 11 == 0:
                return float('nan')
            if y % 13 == 0:
                return float('inf' if y % 2 else '-inf')
            return bool(v) if d['num'] == 'bool' and not v else int(v) if d['num'] != 'float' else float(v)

        def pack(q):
            return {'list': list, 'tuple': tuple, 'gen': lambda x: (y for y in x)}[d['pack']](q[::-1] if d['k'] % 2 else q)

        def note(a=-1, b=-1, si=-1):
            self.calls.append({'t': ticks(vclock.Clock.t), 'k': d['k'], 'a': a, 'b': b, 'si': si})
            self.lag += d['lag']

        def result(t, now):
            if d['style'] == 'flaky' and t // 2 % 3 == 0:
                raise {'r': RuntimeError, 'k': KeyError, 'v': ValueError}[d['err']]('callback fails')
            if d['style'] == 'none':
                return {'None': None, 'str': 'abc', 'dict': {}, 'empty': [], 'bad': [5]}[d['none']]
            if d['style'] == 'list':
                n = t // 2 % 3
                return pack([(at_tick(t - 2 * (n - j), d['rep']), one(t - 2 * (n - j))) for j in range(1, n + 1)])
            return one(now)

        def all_(a, b):
            if d['style'] == 'flaky' and b // 2 % 3 == 0:
                raise RuntimeError('callback fails')
            if d['style'] == 'none':
                return {'None': None, 'str': 'abc', 'dict': {}, 'empty': [], 'bad': [5]}[d['none']]
            return pack([(at_tick(a, d['rep']), one(a)), (at_tick(b, d['rep']), one(b))])

        def args(date_from, date_to, sampling_interval):
            return tick_of(date_from), tick_of(date_to), ticks(sampling_interval.total_seconds())

        if r['mode'] == 'full':
            if d['async'] or d['lag']:
                async def full(date_from, date_to, sampling_interval):
                    a = args(date_from, date_to, sampling_interval)
                    note(*a)
                    if d['lag']:
                        await asyncio.sleep(d['lag'] / 2)
                    return all_(*a[:2])
            else:
                def full(date_from, date_to, sampling_interval):
                    a = args(date_from, date_to, sampling_interval)
                    note(*a)
                    return all_(*a[:2])
            return full
        if d['async'] or d['lag']:
            async def sample():
                note()
                t = ticks(vclock.Clock.t)
                if d['lag']:
                    await asyncio.sleep(d['lag'] / 2)
                return result(t, ticks(vclock.Clock.t))
        else:
            def sample():
                note()
                t = ticks(vclock.Clock.t)
                return result(t, t)
        return sample

    # ---- the VTN

    async def intercept(self, req):
        sent = req.data.decode()
        self.signed = self.signature_ok(sent) and self.signed
        self.inflight += 1
        try:
            r = await self.plain(req)
        except BaseException:
            self.traffic.append((sent, None, 0, False))
            raise
        finally:
            self.inflight -= 1
        self.traffic.append((sent, None if isinstance(r, venbox.BadRead) else r.body, r.status,
                             isinstance(r, venbox.Forged)))
        return r

    def default(self, m):
        """the answer to a message whose answer does not matter"""
        rq = m.request_id or ''
        if m.type == 'oadrUpdateReport' and self.rc and not self.rc_done:
            for r in m.reports or []:
                if r['req'] == self.rc['rid'] and r['intervals']:
                    self.rc_done = True
                    return wire.updated_report(rq, m.ven_id, {'rq': self.rc['rq'], 'ids': [self.rc['x']],
                                                              'follow': self.rc['follow']})
        rng = self.chaos
        if rng is not None and self.opts['auth'] and rng.random() < .5:
            return venbox.fault_reply(rng.choice(venbox.SIGFAULTS), lambda: self.tempting(m, rng), self.box.signer)
        if rng is not None and rng.random() < .45:
            x = rng.choice(venbox.FAULTS + ['odd'] * 4 + (['slow'] if m.type == 'oadrPoll' and self.op != 'start' else []))
            if x == 'slow':
                async def slow():
                    await asyncio.sleep(1)
                    return net.Reply(200, wire.response(m.ven_id, 200, rq).encode())
                return slow()
            if x == 'odd':
                return self.odd(m, rng)
            return venbox.fault_reply(x, lambda: wire.response(m.ven_id, 200, rq))
        b = {'oadrQueryRegistration': lambda: wire.created_party_registration(rq, None, None, self.opts['vtn_id'], 10),
             'oadrUpdateReport': lambda: wire.updated_report(rq, m.ven_id)}.get(m.type)
        if m.type in ('oadrResponse', 'oadrCanceledPartyRegistration'):
            return net.Reply(200, b'')
        return b() if b else wire.response(m.ven_id, 200, rq)

    def odd(self, m, rng):
        """a valid message that makes no sense at this point, or an error"""
        rq = rng.choice([m.request_id or '', 'other'])
        v = m.ven_id or 'ven'
        q = [lambda: wire.response(v, rng.choice([400, 403, 452, 500]), rq),
             lambda: wire.created_opt(rq, 'o1'), lambda: wire.canceled_opt(rq, 'o1'),
             lambda: wire.updated_report(rq, v, None, 450), lambda: wire.created_report(rq, v, ['r1']),
             lambda: wire.canceled_report(rq, v, ['r1']), lambda: wire.canceled_party_registration(rq, 'reg1', v),
             lambda: wire.poll(v), lambda: wire.query_registration(rq)]
        if m.type != 'oadrPoll':
            q += [lambda: wire.request_reregistration(v), lambda: wire.cancel_party_registration(rq, self.reg(), v)]
        if m.type != 'oadrUpdateReport':
            q += [lambda: wire.updated_report(rq, v)]
        if m.type not in ('oadrPoll', 'oadrRequestEvent'):
            q += [lambda: wire.distribute_event(rq, [], self.opts['vtn_id'])]
        return rng.choice(q)()

    def tempting(self, m, rng):
        """an answer that would have consequences if it were authentic"""
        rq, v, c = 'forged', m.ven_id or 'ven', self.box.client
        q = [lambda: wire.created_party_registration(m.request_id or rq, 'forged', 'forged', 'forged', 3),
             lambda: wire.cancel_party_registration(rq, self.reg(), v), lambda: wire.request_reregistration(v),
             lambda: wire.response(v, 200, rq)]
        if m.type == 'oadrPoll':
            q += [lambda: wire.register_report(rq, v, [])]
        reqs = []
        for r in self.cfg['reports']:
            for d in r['dps']:
                reqs.append({'rid': rq, 'rs': r['rs'], 'g': d['min'], 'rb': d['min'], 'at': -1,
                             'points': [{'r': d['r'], 'desc': '', 'unit': ''}]})
        if reqs:
            x = [rng.choice(reqs)]
            f = [{'idur': 0, 'names': ['']}]
            q += [lambda: wire.create_report(rq, v, self.requests(x, f)),
                  lambda: wire.registered_report(m.request_id or rq, v, self.requests(x, f))] * 2
        ids = [r['report_request_id'] for r in c.report_requests]
        if ids:
            i = rng.choice(ids)
            q += [lambda: wire.cancel_report(rq, [i], rng.random() < .3, v),
                  lambda: wire.updated_report(m.request_id or rq, v, {'rq': rq, 'ids': [i], 'follow': False})] * 2
        return rng.choice(q)()

    def reg(self):
        return self.box.client.registration_id or 'none'

    def created(self, c):
        def make(m):
            return wire.created_party_registration(m.request_id, c['reg'] or None, c['ven'] or None, self.opts['vtn_id'],
                                                   None if c['poll'] < 0 else c['poll'] / 2, int(c['code']))
        return self.box.answer(make, c['fault'])

    def requests(self, rs, spec):
        out = []
        for r, x in zip(rs, spec):
            items = [{'r_id': p['r'], 'reading': 'Direct Read', 'meas': None if p['desc'] == '' else
                      {'name': x['names'][i] or 'customUnit', 'ns': NS[x['names'][i]], 'description': p['desc'], 'unit': p['unit'], 'scale': 'none',
                       'pa': (50, 230, True) if x['names'][i] in ('powerReal', 'powerApparent') else None}}
                     for i, p in enumerate(r['points'])]
            out.append({'req': r['rid'], 'spec': r['rs'], 'gran': r['g'] / 2, 'back': r['rb'] / 2, 'items': items,
                        'interval': None if r['at'] < 0 else (r['at'] / 2, x['idur'])})
        return out

    def polled(self, p, spec):
        v = self.box.client.ven_id
        k = p['k']

        def make(m):
            if k == 'create':
                return wire.create_report(p['rq'], v, self.requests(p['requests'], spec))
            if k == 'cancel':
                return wire.cancel_report(p['rq'], [p['rid']], p['follow'], v)
            if k == 'rereg':
                return wire.request_reregistration(m.ven_id)
            if k == 'offer':
                return wire.register_report(p['rq'], m.ven_id, [])
            if k == 'dereg':
                return wire.cancel_party_registration(p['rq'], p['reg'], m.ven_id)
            return self.default(m)
        return make

    # ---- actions

    def do(self, a, spec=None):
        self.script.append([a, spec])
        box, op = self.box, a['op']
        self.op, c = op, box.client
        self.calls, self.lag, self.signed = [], 0, True
        if not self.inflight:
            self.traffic, self.seen = [], {h: [] for h in HOOKS}
        box.log, box.plan = [], {}
        self.chaos = random.Random(a['chaos']) if a.get('chaos') else None
        self.rc, self.rc_done = (a.get('rc') if a.get('rc', {}).get('rid') else None), False
        now = vclock.Clock.t

        def registering(x, y, f):
            box.expect('oadrCreatePartyRegistration', self.created(x))
            box.expect('oadrRegisterReport', box.answer(
                lambda m: wire.registered_report(m.request_id, m.ven_id, self.requests(y['requests'], f)), y['fault']))
        if op == 'start':
            registering(a['c'], a['r'], spec['r'])
            box.expect('oadrPoll', self.polled(a['p'], spec['p']))
            box.run(c.run())
            box.advance(now)
            done = 0
            while self.lag > done:
                done = self.lag
                box.advance(now + done / 2)
        elif op == 'tick':
            box.advance(now + a['d'] / 2)
        elif op == 'poll':
            t = spec['t'] / 2
            box.advance(t - .25)
            if a['p']['k'] == 'rereg':
                registering(a['p']['c'], a['p']['r'], spec['r'])
            box.expect('oadrPoll', self.polled(a['p'], spec['p']))
            box.advance(t + a['w'] / 2)
        elif op == 'cancelparty':
            def ans(m):
                if a['ans'] == 'ok':
                    return wire.canceled_party_registration(m.request_id, m.registration_id, m.ven_id)
                if a['ans'] == 'code':
                    return wire.canceled_party_registration(m.request_id, m.registration_id, m.ven_id, 452)
                return wire.response(m.ven_id, 200, m.request_id)
            box.expect('oadrCancelPartyRegistration',
                       box.answer(ans, '' if a['ans'] in ('ok', 'code', 'other') else a['ans']))
            box.run(c.cancel_party_registration())
            box.advance(now)
        elif op == 'stop':
            box.run(c.stop())
            box.advance(now)
        return self.observe()

    def observe(self):
        msgs, reps, regs = [], [], []
        for t, m in self.box.log:
            k = m.type
            if not m.valid or SERVICE.get(k) != m.service:
                k += '!'
            if m.type == 'oadrUpdateReport' and k[-1] != '!':
                for r in m.reports:
                    if r['intervals']:
                        if r['dtstart'] is None or r['dtstart'] != min(i['t'] for i in r['intervals']):
                            k += '!'
                            break
                        reps.append({'t': ticks(t), 'ven': m.ven_id or '', 'rid': r['req'], 'rs': r['spec'], 'name': r['name'] or '',
                                     'vals': [{'r': i['r_id'], 't': ticks(i['t']),
                                               'v': ODD[i['value']] if i['value'] in ODD else int(i['value']) if i['value'].lstrip('-').isdigit() else -1}
                                              for i in r['intervals']]})
                if k[-1] != '!':
                    continue
            ids, rq = [], ''
            if m.type == 'oadrRegisterReport':
                regs.append(m.request_id)
                ids = [read_offer(m)]
            elif m.type == 'oadrCreatePartyRegistration':
                ids = [m.registration_id or '', m.ven_name or '']
            elif m.type in ('oadrCancelPartyRegistration', 'oadrCanceledPartyRegistration'):
                ids = [m.registration_id or '']
            elif m.type in ('oadrCreatedReport', 'oadrCanceledReport'):
                ids = m.pending or []
            if m.type in ('oadrCreatedReport', 'oadrCanceledReport', 'oadrRegisteredReport',
                          'oadrCanceledPartyRegistration'):
                rq = m.response_id or ''
                if regs and rq == regs[-1] and m.type == 'oadrCreatedReport':
                    rq = 'register'
            msgs.append({'t': ticks(t), 'k': k, 'ven': m.ven_id or '', 'code': m.code or '', 'rq': rq, 'ids': ids})
        c = self.box.client
        bag = {}
        for x in self.calls:
            k = json.dumps(x, sort_keys=True)
            bag[k] = bag.get(k, 0) + 1
        up = bool(c.registration_id)
        return {'msgs': msgs, 'reps': reps, 'calls': [{'c': json.loads(k), 'n': n} for k, n in sorted(bag.items())],
                'reg': {'reg': c.registration_id or '', 'ven': c.ven_id or '',
                        'poll': ticks(c.poll_frequency.total_seconds()) if up and c.poll_frequency else 0},
                'hooks': self.hooks_ok(), 'signed': self.signed}

    def hooks_ok(self):
        if not self.opts['hooks'] or self.inflight:
            return True
        n = 2 if self.opts['hooks'] == 'bad' else 1
        want = {h: [] for h in HOOKS}
        for sent, got, status, forged in self.traffic:
            want['before_send_xml'] += [sent] * n
            if got is None:
                continue
            try:
                text = got.decode()
            except UnicodeDecodeError:
                continue
            want['after_receive_xml'] += [text] * n
            if status != 200 or not text:
                continue
            want['before_schema_validation'] += [text] * n
            m = wire.read(got)
            if m.valid and not forged:
                want['before_parse_xml'] += [text] * n
                want['after_parse_xml'] += [m.type] * n
        return all(sorted(want[h]) == sorted(map(str, self.seen[h])) for h in HOOKS)

    def close(self):
        self.box.close()


# ---------------------------------------------------------------------------
# random sessions

S, M, H, D = 2, 120, 7200, 172800
SCALES = {'s': ([2 * S, 3 * S, 4 * S, 5 * S, 7 * S, 10 * S, 30 * S], [2 * S, 5 * S, 10 * S, 20 * S, -1]),
          'm': ([M, 2 * M, 5 * M, 7 * M, 30 * M, 90 * S], [30 * S, M, 5 * M, 16 * M]),
          'h': ([H, 2 * H, 6 * H, 7 * H, 90 * M], [30 * M, H, 5 * H]),
          'd': ([12 * H, D, 2 * D], [6 * H, 12 * H, D, 2 * D])}


def mk_security(rng, focus):
    return {'auth': 'on' if rng.random() < (.9 if focus == 'C19' else .12) else '',
            'key': rng.choice(['', 'on', 'on', 'off'] if focus == 'C19' else [''] * 8 + ['on', 'off'])}


def mk_world(rng, focus):
    """cfg and opts of a session"""
    scale = rng.choice(['s', 's', 's', 's', 'm', 'm', 'h', 'd'])
    grans, polls = SCALES[scale]
    lags = scale == 's' and rng.random() < .3
    bulk = not lags and rng.random() < .05      # large numbers
    if lags:
        polls = [20 * S, 30 * S]
    nrep = rng.choice([0, 1, 1, 2, 2, 3]) if focus in ('C09', 'C10', 'C11', 'C22') else rng.choice([1, 1, 2, 3])
    names = rng.sample(['TELEMETRY_USAGE', 'HISTORY_USAGE', 'TELEMETRY_STATUS', 'x-report'], nrep)
    specs = rng.sample(['rs1', '2', 'true', 'r&s', 'rs 4'], nrep)
    reports, k = [], 0
    for n, rs in zip(names, specs):
        mode = 'full' if rng.random() < .3 else 'incremental'
        dps = []
        rids = rng.sample(['d1', '2', 'null', 'd<3>', 'é'], rng.choice([1, 1, 2, 3]))
        if bulk and rng.random() < .5:
            rids += [f'm{i}' for i in range(rng.choice([6, 9, 14]))]
        for r in rids:
            meas = rng.choice(list(MEASURE))
            lo, hi = sorted(rng.sample(grans, 2))
            explicit = rng.random() < .85
            if rng.random() < .3:
                hi = lo
            if not explicit:
                lo, hi = 10 * S, H
            lag = rng.choice([0, 2, 4, 6]) if lags else 0
            style = rng.choice(['one', 'one', 'one', 'flaky', 'list', 'none'] if mode == 'incremental'
                               else ['one', 'one', 'flaky', 'none'])
            status = n == 'TELEMETRY_STATUS'
            dps.append({'r': r, 'k': k % 10, 'desc': '' if status else MEASURE[meas][1],
                        'unit': '' if status else MEASURE[meas][2],
                        'min': lo, 'max': hi, 'style': style, 'lag': lag, 'meas': meas, 'explicit': explicit,
                        'scale': rng.choice(['none', 'k', 'M', 'm']), 'resource': rng.choice(['dev1', '07', 'a&b']),
                        'ctx': rng.choice([None, 'http://ctx']), 'type': rng.choice(RTYPE),
                        'reading': rng.choice(READING), 'onchange': explicit and rng.random() < .3,
                        'how': rng.choice(HOW) if MEASURE[meas][0] != 'customUnit' else rng.choice(['name', 'object', 'dict']),
                        'async': rng.random() < .4, 'num': rng.choice(['int', 'float', 'bool']),
                        'pack': rng.choice(['list', 'tuple', 'gen']), 'err': rng.choice('rkv'), 'rep': rng.choice([0, 0, 1, 345, -210]),
                        'none': rng.choice(['None', 'str', 'dict', 'empty', 'bad'])})
            k += 1
        reports.append({'rs': rs, 'name': n, 'mode': mode, 'dps': dps, 'dur': rng.choice([3600, 3600, 60, 90000])})
    cfg = {'vname': rng.choice(['ven', 'My Ven', '123', 'a&b']), 'ven': rng.choice(['', '', 'preset', '77']),
           'offer': offered(reports), 'zone': ticks(vclock.offset()),
           'reports': [{'rs': r['rs'], 'name': r['name'], 'mode': r['mode'], 'dps': [
               {x: d[x] for x in ('r', 'k', 'desc', 'unit', 'min', 'max', 'style', 'lag')} for d in r['dps']]}
               for r in reports]}
    opts = {'reports': reports, 'vtn_id': rng.choice(['VTN1', 'vtn', '5']), 'async': rng.random() < .5,
            'hooks': rng.choice(['', '', 'good', 'bad']), **mk_security(rng, focus)}
    return cfg, opts, dict(grans=grans, polls=polls, lags=lags, bulk=bulk)


class Shadow:
    """Enough of the specification to choose actions without ties"""

    def __init__(self, cfg):
        self.cfg, self.reqs, self.now, self.base, self.P, self.up, self.reg = cfg, [], 1, 1, 0, False, ''

    def served(self, r):
        for x in self.cfg['reports']:
            if x['rs'] == r['rs']:
                return x, [d for p in r['points'] for d in x['dps'] if d['r'] == p['r'] and (
                    p['desc'] == '' or (p['desc'] == d['desc'] and p['unit'] == d['unit'])) and (
                    r['g'] == 0 or d['min'] <= r['g'] <= d['max'])]
        return None, []

    @staticmethod
    def fits(e):
        return (e < M and e % S == 0 and M % e == 0) or (M <= e < H and e % M == 0 and H % e == 0) or \
            (e >= H and e % H == 0 and D % e == 0)

    def accept(self, rs):
        """returns the time it takes"""
        lag = 0
        for r in rs:
            if r['inv']:
                continue
            self.reqs = [q for q in self.reqs if q['rid'] != r['rid']]
            x, dps = self.served(r)
            q = {'rid': r['rid'], 'valid': bool(dps), 'lag': sum(d['lag'] for d in dps), 'at': -1, 'job': 'no',
                 'from': self.now + lag}
            if dps and r['g'] > 0 and r['rb'] > 0:
                q['every'] = max(r['g'], r['rb']) if x['mode'] == 'full' else r['g']
                q['job'] = 'cron' if self.fits(q['every']) else 'iv'
            elif dps and r['at'] > self.now:
                q['at'] = r['at']
            elif dps:
                lag += q['lag']
            self.reqs.append(q)
        return lag

    def fires(self, q, a, b):
        """fire times in (a, b]"""
        if q['at'] >= 0:
            return [q['at']] if a < q['at'] <= b else []
        if q['job'] == 'no' or not q['valid']:
            return []
        e = q['every']
        if q['job'] == 'cron':
            a, z = max(a, q['from']), self.cfg['zone']
            return list(range(((a + z) // e + 1) * e - z, b + 1, e))
        f = q['from'] + e if a < q['from'] else q['from'] + ((a - q['from']) // e + 1) * e
        return list(range(f, b + 1, e))

    def busy(self, t, inclusive):
        """is any sampling in progress at t?"""
        for q in self.reqs:
            for f in self.fires(q, t - q['lag'] - 1, t):
                if inclusive or (f + q['lag'] > t):
                    return True
        return False

    def next_poll(self, n):
        return self.base + ((self.now - self.base) // self.P + n) * self.P


def near(rng, reg):
    """a registration id that is another one, but perhaps not by much"""
    return rng.choice([x for x in ('foreign', reg + '1', 'x' + reg, reg[:-1], reg.swapcase(), reg.replace('&', '+')) if x and x != reg])


def random_trace(arg):
    rng = rng_for('session', arg['seed'], arg['n'], arg['focus'])
    focus = arg['focus']
    cfg, opts, w = mk_world(rng, focus)
    d = Driver(cfg, opts)
    sh = Shadow(cfg)
    steps, seq = [], [0]
    chaotic = rng.random() < (.7 if focus in ('C21', 'C19') else .3)
    faults = venbox.FAULTS + (venbox.SIGFAULTS * 2 if opts['auth'] else [])
    used = []
    dates = set()         # requests for a one-off report later that may still be pending

    def chaos():
        return rng.randint(1, 10 ** 6) if chaotic and rng.random() < .6 else 0

    def name(p):
        seq[0] += 1
        return rng.choice([f'{p}{seq[0]}', f'{seq[0]}', f'{p}&{seq[0]}'])

    def mk_request(immediate_lag):
        rep = rng.choice(cfg['reports']) if cfg['reports'] and rng.random() < .93 else None
        inv = rng.random() < .04
        known = [q['rid'] for q in sh.reqs]
        rid = rng.choice(known) if known and rng.random() < .2 else \
            rng.choice(used) if used and rng.random() < .2 else name('r')
        used.append(rid)
        if rid in dates:
            rid = name('q')
        pts, g = [], 0
        if rep:
            sel = rng.sample(rep['dps'], rng.randint(1, len(rep['dps'])))
            for p in sel:
                x = rng.random()
                y = {'r': p['r'], 'desc': '', 'unit': ''}
                if x < .5:
                    y.update(desc=p['desc'], unit=p['unit'])
                elif x < .58:
                    y.update(desc='Voltage', unit='V')
                elif x < .63:
                    y.update(desc=p['desc'], unit='fahrenheit' if p['unit'] == 'celsius' else 'nonsense' if p['desc'] else '')
                elif x < .68 and p['unit'] == 'celsius':
                    y.update(desc=p['desc'], unit='fahrenheit')
                if x > .93:
                    y = {'r': rng.choice(['nope', 'd9']), 'desc': '', 'unit': ''}
                if inv and rng.random() < .5:
                    y = {'r': 'dINVALID', 'desc': '', 'unit': ''}
                pts.append(y)
            if rng.random() < .12 and not inv:
                pts.insert(rng.randrange(len(pts) + 1), {'r': 'other', 'desc': '', 'unit': ''})
            g = rng.choice([sel[0]['min'], sel[0]['max'], rng.choice(w['grans']), 0])
        else:
            pts = [{'r': 'x', 'desc': '', 'unit': ''}]
            g = rng.choice(w['grans'] + [0])
        lag = sum(p['lag'] for p in (rep or {'dps': []})['dps'])
        if g and g <= 2 * lag + 2:
            g = 0 if lag else g
        rb = rng.choice([0, g, 2 * g, 3 * g, 3 * g // 2, 5 * g] + [12 * g, 17 * g] * w['bulk']) if g else rng.choice([0, 0, w['grans'][0]])
        rb -= rb % 2
        at = -1
        if rng.random() < (.5 if not g or not rb else .15):
            at = sh.now + 1 + 2 * rng.randint(1, 20) * (w['grans'][0] // 4)
            at -= at % 2
            if not w['lags'] and rng.random() < .3:
                at = max(0, sh.now - 1 - 2 * rng.randint(0, 5))
        if lag and at < 0 and not (g and rb) and not immediate_lag:
            at = sh.now + 1 + 2 * 20
        rs = rep['rs'] if rep else 'unknown'
        if inv and not any('INVALID' in p['r'] for p in pts[:1]):
            rs = 'rsINVALID'
        r = {'rid': rid, 'rs': rs, 'g': g, 'rb': rb, 'at': at, 'inv': inv, 'points': pts}
        if at >= 0:
            dates.add(rid)
        x = {'idur': rng.choice([0, 60])}
        by = {v[1]: v[0] for v in MEASURE.values()}
        x['names'] = ['customUnit' if p['unit'] == 'nonsense' else by.get(p['desc'], '') for p in pts]
        return r, x

    def mk_requests(start):
        n = rng.choice([0, 1, 1, 2, 3])
        if w['bulk'] and rng.random() < .3:
            n = rng.choice([6, 11, 15])
        q = []
        for i in range(n):
            r, x = mk_request(not start and i == n - 1 and n == 1)
            if any(r['rid'] == y[0]['rid'] for y in q):
                continue
            q.append((r, x))
        return [r for r, _ in q], [x for _, x in q]

    def note_dates(rs):
        for r in rs:
            if r['at'] >= 0 and not (r['g'] and r['rb']):
                dates.add(r['rid'])

    def mk_c(reg, first):
        c = {'fault': '', 'code': '200', 'reg': reg, 'ven': rng.choice([cfg['ven'] or 'ven1', 'ven1', '9']),
             'poll': rng.choice(w['polls'])}
        if w['lags'] and c['poll'] < 0:
            c['poll'] = 20 * S
        x = rng.random()
        if x < .08:
            c['fault'] = rng.choice(faults)
        elif x < .12:
            c['code'] = rng.choice(['403', '450', '452'])
        elif x < .14:
            c['reg'] = ''
        elif x < .17 and (first or not cfg['ven']):
            c['ven'] = ''
        return c

    regs = ['reg1', 'Reg2', '33', 'r&4']

    def usable(c):
        return c['fault'] == '' and c['code'] == '200' and c['reg'] != '' and (c['ven'] or cfg['ven'] or sh.reg)

    def assign(c):
        sh.reg = c['reg']
        P = 20 if c['poll'] < 0 else min(c['poll'], D)
        changed, sh.P = P != sh.P, P
        return changed

    def run(a, spec=None):
        steps.append({'a': a, 'o': d.do(a, spec)})

    def start():
        c = mk_c(rng.choice(regs), True)
        f = rng.choice(faults) if rng.random() < .07 else ''
        rs, xs = mk_requests(True)
        r = {'fault': f, 'requests': rs}
        p, xp, ps = {'k': 'none'}, [], []
        if rng.random() < .3:
            k = rng.choice(['create', 'offer', 'dereg', 'dereg'])
            if k == 'dereg' and any(not (r['g'] and r['rb']) for r in rs):
                k = 'offer'
            p = {'k': k, 'rq': name('p')}
            if k == 'create':
                ps, xp = mk_requests(True)
                p['requests'] = ps
            if k == 'dereg':
                p['reg'] = rng.choice([c['reg'], c['reg'], near(rng, c['reg'])]) or 'none'
        a = {'op': 'start', 'c': c, 'r': r, 'p': p, 'chaos': chaos()}
        if usable(c):
            assign(c)
            sh.up = True
            if not f:
                sh.accept(rs)
                note_dates(rs)
            if p['k'] == 'create':
                sh.accept(ps)
                note_dates(ps)
            if p['k'] == 'dereg' and p['reg'] == sh.reg:
                sh.up, sh.reg, sh.reqs = False, '', []
        run(a, {'r': xs, 'p': xp})

    def min_every():
        e = [q['every'] for q in sh.reqs if q['job'] != 'no' and q['valid']]
        return min(e) if e else 10 ** 9

    def tick():
        unit = min(min_every(), sh.P if sh.up else 20)
        n = rng.randint(1, max(1, min(60 * unit, 200 * S if unit < M else 60 * unit)))
        rc = {'rid': '', 'x': '', 'follow': False, 'rq': ''}
        crons = [q['rid'] for q in sh.reqs if q['job'] == 'cron' and q['valid']]
        if sh.up and crons and not w['lags'] and rng.random() < (.5 if focus == 'C16' else .25):
            x = rng.choice([q for q in sh.reqs])
            if x['rid'] not in dates:
                rid = rng.choice(crons)
                rc = {'rid': rid, 'x': rng.choice([x['rid']] * 5 + ['nope']), 'rq': name('c'),
                      'follow': x['valid'] and x['rid'] not in dates and rng.random() < .3}
                if rc['x'] == 'nope':
                    rc['follow'] = False
        while sh.up and sh.busy(sh.now + n, False):
            n += 1
        a = {'op': 'tick', 'd': n, 'rc': rc, 'chaos': chaos()}
        if rc['rid']:
            # the cancellation needs a second
            mark = len(steps)
            sent = d.first_sent = None
            o = None
            a['d'] = n + 6
            while sh.busy(sh.now + a['d'], False):
                a['d'] += 1
            run(a)
            ts = [r['t'] for r in steps[-1]['o']['reps'] if r['rid'] == rc['rid']]
            if ts:
                sh.reqs = [q for q in sh.reqs if q['rid'] != rc['x']]
                extra = ts[0] + 3 - (sh.now + a['d'])
                if extra > 0:
                    return False          # too close: the trace ends here, without this step
            sh.now += a['d']
            return True
        run(a)
        sh.now += n
        return True

    def poll():
        n = rng.choice([1, 1, 1, 2, 3])
        t = sh.next_poll(n)
        for _ in range(30):
            if not sh.busy(t, True):
                break
            n += 1
            t = sh.next_poll(n)
        else:
            return
        if (t - sh.now) > 80 * min_every():
            return
        ks = ['create'] * 5 + ['cancel'] * (8 if focus == 'C16' else 4) + ['rereg'] * (6 if focus == 'C11' else 2) \
            + ['offer', 'none', 'dereg', 'alien']
        k = rng.choice(ks)
        p, spec, wait = {'k': 'none'}, {'r': [], 'p': [], 't': t}, 0
        now0, sh.now = sh.now, t
        if k == 'create':
            rs, xs = mk_requests(False)
            p = {'k': 'create', 'rq': name('p'), 'requests': rs}
            spec['p'] = xs
            old = list(sh.reqs)
            wait = sh.accept(rs)
            if wait and (wait >= sh.P - 1 or any(sh.fires(q, t, t + wait + 8) for q in old)):
                pass
            note_dates(rs)
        elif k == 'cancel':
            c = [q for q in sh.reqs if q['rid'] not in dates]
            if c and rng.random() < .93:
                q = rng.choice(c)
                follow = q['valid'] and rng.random() < .35
                p = {'k': 'cancel', 'rid': q['rid'], 'follow': follow, 'rq': name('c')}
                wait = 2 + q['lag'] * (2 if follow else 1) + 1
                sh.reqs.remove(q)
            else:
                p = {'k': 'cancel', 'rid': 'nope', 'follow': False, 'rq': name('c')}
        elif k == 'rereg':
            c = mk_c(rng.choice([sh.reg] * 2 + regs), False)
            f = rng.choice(faults) if rng.random() < .1 else ''
            rs, xs = mk_requests(True)
            p = {'k': 'rereg', 'c': c, 'r': {'fault': f, 'requests': rs}, 'rq': ''}
            spec['r'] = xs
            if c['fault'] == '' and c['code'] == '200' and not c['reg']:
                sh.up, sh.reg, sh.reqs = False, '', []
            else:
                if c['fault'] == '' and c['code'] == '200' and assign(c):
                    sh.base = t
                if not f:
                    sh.reqs = []
                    sh.accept(rs)
                    note_dates(rs)
        elif k == 'offer':
            p = {'k': 'offer', 'rq': name('o')}
        elif k in ('dereg', 'alien'):
            if rng.random() < .5:
                p = {'k': 'dereg', 'rq': name('d'), 'reg': sh.reg if k == 'dereg' else near(rng, sh.reg)}
                if k == 'dereg':
                    sh.up, sh.reg, sh.reqs = False, '', []
        while sh.up and (sh.busy(t + wait, False)):
            wait += 1
        sh.now = t + wait
        p.setdefault('rq', '')
        a = {'op': 'poll', 'n': n, 'p': p, 'w': wait, 'chaos': chaos()}
        run(a, spec)

    try:
        start()
        sh.now = ticks(vclock.Clock.t)
        sh.base = sh.now
        ok = True
        for _ in range(arg['steps']):
            if not sh.up:
                break
            x = rng.random()
            if x < .5:
                poll()
            elif x < .93:
                ok = tick()
                if not ok:
                    steps.pop()
                    d.script.pop()
                    break
            elif x < .95:
                a = {'op': 'cancelparty', 'ans': rng.choice(['ok', 'ok', 'code', 'other', rng.choice(faults)]),
                     'chaos': 0}
                if not sh.busy(sh.now, True):
                    run(a)
                    if a['ans'] == 'ok':
                        sh.up, sh.reg, sh.reqs = False, '', []
            elif x < .96 and not sh.busy(sh.now, True):
                run({'op': 'stop', 'chaos': 0})
                sh.up, sh.reqs = False, []
        if ok:
            if not sh.up:
                run({'op': 'tick', 'd': rng.choice([100 * S, 3 * H]), 'rc': {'rid': '', 'x': '', 'follow': False,
                                                                            'rq': ''}, 'chaos': chaos()})
                run({'op': 'cancelparty', 'ans': 'ok', 'chaos': 0}) if not sh.reg else None
            elif not tick():
                steps.pop()
                d.script.pop()
    finally:
        d.close()
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_session', 'fn': 'random_trace', 'arg': arg,
                                                 'script': d.script, 'cfg': cfg, 'opts': opts}}


def realise(rng, cfg, focus=''):
    """opts for a configuration of the model-checking module"""
    reports = []
    for r in cfg['reports']:
        dps = []
        for d in r['dps']:
            meas = [m for m, v in MEASURE.items() if v[1] == d['desc']]
            dps.append(dict(d, meas=meas[0] if meas else 'voltage', explicit=True, scale=rng.choice(['none', 'k', 'M']),
                            resource=rng.choice(['dev1', '07']), ctx=rng.choice([None, 'http://ctx']),
                            type=rng.choice(RTYPE), reading=rng.choice(READING), onchange=rng.random() < .3,
                            num=rng.choice(['int', 'float', 'bool']), pack=rng.choice(['list', 'tuple', 'gen']),
                            err=rng.choice('rkv'), rep=rng.choice([0, 0, 1, 345, -210]), how=rng.choice(['name', 'object', 'dict']), none=rng.choice(['None', 'str', 'dict', 'empty', 'bad']),
                            **{'async': rng.random() < .4}))
        reports.append({'rs': r['rs'], 'name': r['name'], 'mode': r['mode'], 'dps': dps, 'dur': 3600})
    return {'reports': reports, 'vtn_id': rng.choice(['VTN1', 'vtn', '5']), 'async': rng.random() < .5,
            'hooks': rng.choice(['', '', 'good', 'bad']), **mk_security(rng, focus)}


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}"""
    rng = rng_for('session-replay', arg['seed'], arg['n'])
    cfg = dict(arg['b'][0]['cfg'])
    opts = realise(rng, cfg, arg.get('focus', ''))
    faults = venbox.FAULTS + (venbox.SIGFAULTS * 2 if opts['auth'] else [])
    cfg['offer'], cfg['zone'] = offered(opts['reports']), ticks(vclock.offset())
    d = Driver(cfg, opts)
    by = {v[1]: v[0] for v in MEASURE.values()}

    def spec_of(rs):
        return [{'idur': rng.choice([0, 60]), 'names': [
            'customUnit' if p['unit'] == 'nonsense' else by.get(p['desc'], '') for p in r['points']]} for r in rs]
    steps = []
    try:
        for a in arg['b']:
            a = {k: x for k, x in a.items() if k != 'cfg'}
            if rng.random() < .3 and a['op'] in ('start', 'poll', 'tick'):
                a['chaos'] = rng.randint(1, 10 ** 6)
            p = a.get('p', {})
            if p:
                p = a['p'] = dict(p)
                if p.get('reg') in ('other', 'else'):
                    p['reg'] = near(rng, d.box.client.registration_id or 'reg')
            for x in (a, p):
                for k in ('c', 'r'):
                    if k in x and x[k]['fault']:
                        x[k] = dict(x[k], fault=rng.choice(faults))
            r = a.get('r') or p.get('r') or {'requests': []}
            spec = {'r': spec_of(r['requests']), 'p': spec_of(p.get('requests', [])), 't': a.get('at', 0)}
            if a['op'] == 'cancelparty' and a['ans'] == 'f':
                a['ans'] = rng.choice(faults + ['code', 'other'])
            steps.append({'a': a, 'o': d.do(a, spec)})
            rid = a['rc']['rid'] if a['op'] == 'tick' else ''
            ts = [r['t'] for r in steps[-1]['o']['reps'] if rid and r['rid'] == rid]
            if ts and ts[0] + 3 > ticks(vclock.Clock.t):
                # in this time zone the report is so late that the cancellation is not over by the end of the tick
                steps.pop()
                break
    finally:
        d.close()
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_session', 'fn': 'replay_trace', 'arg': arg,
                                                 'script': d.script, 'cfg': cfg, 'opts': opts}}


def rerun(arg):
    """arg: {cfg, opts, script}"""
    d = Driver(arg['cfg'], arg['opts'])
    steps = []
    try:
        for a, spec in arg['script']:
            steps.append({'a': a, 'o': d.do(a, spec)})
    finally:
        d.close()
    return {'cfg': arg['cfg'], 'steps': steps, 'meta': {'module': 'm_session', 'fn': 'rerun', 'arg': arg,
                                                        'script': d.script, 'cfg': arg['cfg'], 'opts': arg['opts']}}


def one_point(m, trace, step):
    """A start whose offer was wrong, by a client that offers only the first data point that it offered wrongly"""
    st, (a, spec) = trace['steps'][step - 1], m['script'][step - 1]
    got = [x['ids'][0] for x in st['o']['msgs'] if x['k'] == 'oadrRegisterReport']
    want = m['cfg']['offer']
    if a['op'] != 'start' or not got or got[0] == want or m['opts']['auth']:
        return None
    got, want = json.loads(got[0]), json.loads(want)
    for i, r in enumerate(m['opts']['reports']):
        for j, d in enumerate(r['dps']):
            if i >= len(got) or got[i][:4] != want[i][:4] or j >= len(got[i][4]) or got[i][4][j] != want[i][4][j]:
                opts = dict(m['opts'], reports=[dict(r, dps=[d])], hooks='')
                c = m['cfg']['reports'][i]
                cfg = dict(m['cfg'], offer=offered(opts['reports']), reports=[dict(c, dps=[c['dps'][j]])])
                a = dict(a, r=dict(a['r'], requests=[]), p={'k': 'none', 'rq': ''}, chaos=0)
                return {'cfg': cfg, 'opts': opts, 'script': [[a, dict(spec, r=[], p=[])]]}
    return None


def twin(prop, trace, step):
    """The same execution up to the mismatch without what must not matter for the property"""
    m = trace['meta']
    if prop == 'C26':
        return one_point(m, trace, step)
    t, opts, changed, longest = [], m['opts'], False, 4000
    if prop == 'C19' and opts['auth']:      # signatures must make no difference, a bad one is like a failure
        opts, changed = dict(opts, auth='twin'), True
    if prop == 'C21':
        changed = bool(opts['hooks'])
        opts = dict(opts, hooks='')
    for a, spec in m['script'][:step]:
        if prop == 'C21' and a.get('chaos'):
            a, changed = dict(a, chaos=0), True
        elif prop == 'C16' and a['op'] == 'tick' and a['rc']['rid']:
            a, changed = dict(a, rc=dict(a['rc'], rid='')), True
        elif prop in ('C16', 'C11') and a['op'] == 'poll' and a['p']['k'] == {'C16': 'cancel', 'C11': 'rereg'}[prop]:
            a, changed = dict(a, p={'k': 'none', 'rq': ''}), True
        elif changed and prop == 'C16' and a.get('d', 0) > longest:
            a = dict(a, d=longest)          # what was not cancelled goes on, do not wait for it
        t.append([a, spec])
    return {'cfg': m['cfg'], 'opts': opts, 'script': t} if changed else None


PLAN = {
    'quick': {
        'mc': [dict(MaxLen=2, Worlds='{1,2,3}'), dict(MaxLen=3, Worlds='{1}')],
        'gen': [dict(MaxLen=12, Worlds='{1,2,3}', Tmax=900, Ps='{14,20,40}')],
        'gen_num': 400, 'gen_depth': 12, 'random': 1000, 'steps': 14},
    'thorough': {
        'mc': [dict(MaxLen=3, Worlds='{1,2,3}'), dict(MaxLen=4, Worlds='{1}', Ticks='{48}', Ps='{20}', Faults='{""}')],
        'gen': [dict(MaxLen=18, Worlds='{1,2,3}', Tmax=2000, Ps='{14,20,40}')],
        'gen_num': 1500, 'gen_depth': 18, 'random': 6000, 'steps': 30},
}
