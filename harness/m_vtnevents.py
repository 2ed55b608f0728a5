"""Conformance of the VTN's event queue to spec/VtnEvents.tla: drives a real OpenADRServer."""
import asyncio
import copy
import json
import random
import vtn
import vclock
import wire
import net
from core import rng_for
from dataclasses import asdict
from datetime import timedelta, timezone

TRACE_MODULE = 'TraceVtnEvents'
MC_MODULE = 'MCVtnEvents'

SIGNALS = [('SIMPLE', 'level', ['0', '1', '2', '3']), ('ELECTRICITY_PRICE', 'price', ['0.25', '1', '12.5', '-3']),
           ('LOAD_DISPATCH', 'setpoint', ['100', '0', '-50.5']), ('BID_LOAD', 'setpoint', ['7', '0.1']),
           ('x-custom', 'delta', ['1', '2.75']), ('ENERGY_PRICE', 'priceRelative', ['0.5', '2'])]
CTX = ['oadr://unknown.context', 'http://market.example/prog?a=1&b=2', 'urn:x:y', 'context-1']
COMMENTS = ['', 'hello', 'a & b <c>', 'tëst "quoted"', '5', 'true', ' two  spaces ']
GROUPS = ['ven_id', 'group_id', 'group_name', 'resource_id', 'party_id']
NODES = ['aggregated_p_node', 'end_device_asset', 'meter_asset', 'p_node', 'service_delivery_point', 'transport_interface']
CLASSES = {'aggregated_p_node': 'AggregatedPNode', 'end_device_asset': 'EndDeviceAsset', 'meter_asset': 'MeterAsset',
           'p_node': 'PNode', 'service_delivery_point': 'ServiceDeliveryPoint', 'transport_interface': 'TransportInterface'}


def some_target(rng, ven):
    k = rng.choice(GROUPS if rng.random() < .7 else NODES)
    one = lambda: rng.choice(['t1', 'T2', ven, '07'])
    return [k, one() + '>' + one() if k == 'transport_interface' else one()]


def when(t, rng):
    """A datetime for virtual second t, in some representation"""
    d = vclock.EPOCH + timedelta(seconds=t)
    d = vclock.VDatetime._mk(d)
    k = rng.random()
    if k < 0.5:
        return d
    if k < 0.85:
        return d.astimezone(timezone(timedelta(minutes=rng.choice([-720, -210, 60, 120, 345, 840]))))
    return vclock.VDatetime._mk(vclock.local(d))


def content(rng, kind, ven, eid, start, dur, ramp, prio, mod, simple=False):
    """-> (how to call the API, expected wire content).  kind: 'add' | 'dict' | 'obj'"""
    n = 1 if dur < 2 else rng.randint(1, min(4, dur))
    cuts = sorted(rng.sample(range(1, dur), n - 1)) if n > 1 else []
    bounds = [0] + cuts + [dur]
    name, typ, vals = rng.choice(SIGNALS)
    raw = kind != 'add'
    nsig = 1 if not raw or rng.random() < 0.6 else 2
    sigs = []
    for k in range(nsig):
        if k:
            name, typ, vals = rng.choice(SIGNALS)
        sigs.append({'name': name, 'type': typ, 'intervals':
                     [{'t': start + bounds[j], 'dur': bounds[j + 1] - bounds[j], 'val': rng.choice(vals)}
                      for j in range(n)]})
    c = {'ctx': rng.choice(CTX), 'resp': rng.choice(['always', 'always', 'never']), 'start': start, 'dur': dur,
         'ramp': ramp, 'signals': sigs}
    c['notif'] = rng.choice([None, None, 3600, 86400 * 8, 0]) if not raw or rng.random() < .5 else None
    c['recov'] = rng.choice([None, None, 60])
    if raw:
        c['comment'] = rng.choice([None] + COMMENTS)
        c['test'] = rng.choice([False, False, True])
        # without a period of its own, the event's period follows from its intervals
        c['own_period'] = ramp >= 0 or rng.random() < 0.5
        c['tol'] = rng.choice([None, None, 300, 3600])
        if not c['own_period']:
            c['notif'] = c['recov'] = c['tol'] = None
        for s in sigs:
            s['cur'] = rng.choice([None, None, '0', '2.5', '-7']) if s['name'] != 'SIMPLE' else None
            s['meas'] = rng.choice(wire.MEASUREMENTS) if rng.random() < .3 else None
            s['tg'] = rng.sample(['Thermostat', '07', 'a & b'], rng.choice([1, 2])) if rng.random() < .25 else []
    if rng.random() < 0.3 and not raw:
        c['targets'] = None
    else:
        c['targets'] = [some_target(rng, ven) for _ in range(rng.choice([1, 1, 2]))]
        if not raw and len({x[0] for x in c['targets']}) == 1 and rng.random() < .5:
            c['tstyle'] = 'by_type'
        elif len(c['targets']) == 1 and not raw and rng.random() < .5:
            c['tstyle'] = 'single'
        else:
            c['tstyle'] = 'list'
    return c


def expected(c, ven, prio):
    order = {g: i for i, g in enumerate(['group_id', 'group_name', 'resource_id', 'ven_id', 'party_id'])}
    tg = c['targets'] if c['targets'] is not None else [['ven_id', ven]]
    tg = sorted(tg)
    x = {'prio': str(prio), 'ctx': c['ctx'], 'resp': c['resp'], 'start': c['start'], 'dur': c['dur'],
         'ramp': max(0, c['ramp']), 'notif': c['notif'] or 0, 'recov': c['recov'] or 0,
         'tol': c.get('tol') or 0,
         'test': 'true' if c.get('test') else 'false', 'comment': c.get('comment') or '',
         'targets': tg,
         'signals': [{'name': s['name'], 'type': s['type'], 'cur': wire.num(s.get('cur')) or '',
                      'meas': wire.meas_flat(s.get('meas')) or [], 'tg': s.get('tg') or [],
                      'intervals': [[i['t'], i['dur'], str(n), wire.num(i['val'])]
                                    for n, i in enumerate(s['intervals'])]} for s in c['signals']]}
    return json.dumps(x, sort_keys=True)


def observed(ev):
    """Wire event -> the same canonical content"""
    test = (ev['test'] or 'false').lower()
    x = {'prio': ev['prio'] or '0', 'ctx': ev['ctx'], 'resp': ev['resp'], 'start': ev['start'], 'dur': ev['dur'],
         'ramp': ev['ramp'] or 0, 'notif': ev['notif'] or 0, 'recov': ev['recov'] or 0, 'tol': ev['tol'] or 0,
         'test': test if test != '0' else 'false', 'comment': ev['comment'] or '',
         'targets': sorted(ev['targets']),
         'signals': [{'name': s['name'], 'type': s['type'], 'cur': s['cur'] or '' if s['name'] != 'SIMPLE' or s['cur'] != '0' else '', 'meas': wire.meas_flat(s['meas']) or [],
                      'tg': [x[1] for x in s['targets']],
                      'intervals': [[i['t'], i['dur'], i['uid'], i['val']] for i in s['intervals']]}
                     for s in ev['signals']]}
    return json.dumps(x, sort_keys=True)


class RecFuture(asyncio.Future):
    rec = None

    def set_result(self, value):
        super().set_result(value)
        self.rec(value)


class Driver:
    def __init__(self, rng):
        from openleadr import OpenADRServer, objects
        self.objects = objects
        self.rng = rng
        self.loop = vclock.new_loop()
        at = vtn.some_prefix(rng.random())
        self.server = OpenADRServer(http_path_prefix=at, vtn_id='VTN1', show_fingerprint=False)
        self.reqs = vtn.Requests(self.loop, self.server.app, at)
        self.calls = []
        self.script = []     # what was done, so that it can be done again

    # -------------------------------------------------------------- callbacks
    def callback(self, mode, v, id):
        def note(ven_id, event_id, opt_type):
            self.calls.append({'k': 'cb', 'v': str(ven_id) if isinstance(ven_id, str) else f'!{ven_id!r}',
                               'id': event_id if isinstance(event_id, str) else f'!{event_id!r}',
                               'opt': opt_type if isinstance(opt_type, str) else f'!{opt_type!r}',
                               'for': [v, id]})
        if mode == 'none':
            return None
        if mode == 'future':
            f = RecFuture(loop=self.loop.real)
            f.rec = lambda x: self.calls.append({'k': 'fut', 'v': v, 'id': id, 'opt': x, 'for': [v, id]})
            return f
        if mode == 'sync':
            return lambda ven_id, event_id, opt_type: note(ven_id, event_id, opt_type)
        if mode == 'raise':
            def bad(ven_id, event_id, opt_type):
                note(ven_id, event_id, opt_type)
                raise RuntimeError('callback fails')
            return bad
        if mode == 'async':
            async def co(ven_id, event_id, opt_type):
                note(ven_id, event_id, opt_type)
                await asyncio.sleep(0)
            return co
        async def gated(ven_id, event_id, opt_type):
            note(ven_id, event_id, opt_type)
            await self.reqs.gate()
        return gated

    def delivery(self, mode, v, id):
        def note():
            self.calls.append({'k': 'dcb', 'v': v, 'id': id, 'opt': '', 'for': [v, id]})
        if mode == 'none':
            return None
        if mode == 'sync':
            return lambda: note()
        if mode == 'raise':
            def bad():
                note()
                raise RuntimeError('callback fails')
            return bad
        if mode == 'async':
            async def co():
                note()
                await asyncio.sleep(0)
            return co
        async def gated():
            note()
            await self.reqs.gate()
        return gated

    # -------------------------------------------------------------- what applications write
    def target_value(self, k, x):
        v = wire.target_parts(k, x)
        return getattr(self.objects, CLASSES[k])(**v) if isinstance(v, dict) and self.rng.random() < .5 else v

    def target(self, k, x):
        v = {k: self.target_value(k, x)}
        return self.objects.Target(**v) if self.rng.random() < .5 else v

    def some_measurement(self, m):
        from openleadr import enums
        known = [x for x in enums.MEASUREMENTS.values
                 if [x.name, x.description, x.unit, x.scale] == [m['name'], m['description'], m['unit'], m.get('scale')]
                 and wire.meas_seen(dict(vars(x), power_attributes=x.power_attributes and vars(x.power_attributes))) ==
                 wire.meas_flat(m)]
        if known and self.rng.random() < .5:
            return known[0]
        kw = dict(name=m['name'], description=m['description'], unit=m['unit'], scale=m.get('scale'),
                  pulse_factor=int(m['pulse']) if m.get('pulse') else None)
        if m.get('pa'):
            pa = dict(zip(('hertz', 'voltage', 'ac'), m['pa']))
            kw['power_attributes'] = pa if self.rng.random() < .3 else self.objects.PowerAttributes(**pa)
        return self.objects.Measurement(**kw)

    # -------------------------------------------------------------- actions
    def add(self, a, spec):
        """a: the action; spec: dict(kind, c) concrete content"""
        self.rng = random.Random(spec['r'])
        rng, c = self.rng, spec['c']
        ivs = [[{'dtstart': when(i['t'], rng), 'duration': timedelta(seconds=i['dur']),
                 'signal_payload': float(i['val']) if '.' in i['val'] else rng.choice([int, float])(i['val'])}
                for i in s['intervals']] for s in c['signals']]
        cb, dcb = self.callback(a['cb'], a['v'], a['id']), self.delivery(a['dcb'], a['v'], a['id'])
        td = lambda x: None if x is None else timedelta(seconds=x)
        O = self.objects
        if spec['kind'] == 'add':
            kw = dict(ven_id=a['v'], signal_name=c['signals'][0]['name'], signal_type=c['signals'][0]['type'],
                      intervals=ivs[0], callback=cb, delivery_callback=dcb, event_id=a['id'],
                      response_required=c['resp'], market_context=c['ctx'], notification_period=td(c['notif']),
                      ramp_up_period=td(c['ramp'] if c['ramp'] >= 0 else None), recovery_period=td(c['recov']))
            if spec.get('objiv'):
                kw['intervals'] = [O.Interval(**i) for i in ivs[0]]
            if c['targets'] is not None:
                if c['tstyle'] == 'by_type':
                    kw['targets_by_type'] = {c['targets'][0][0]: [self.target_value(*x) for x in c['targets']]}
                elif c['tstyle'] == 'single':
                    kw['target'] = O.Target(**{c['targets'][0][0]: self.target_value(*c['targets'][0])})
                else:
                    kw['targets'] = [self.target(k, x) for k, x in c['targets']]
            self.bad(kw, a['bad'])
            return self.server.add_event(**kw)
        desc = dict(event_id=a['id'], modification_number=a['mod'], market_context=c['ctx'], event_status='far',
                    priority=a['prio'], test_event=c['test'], vtn_comment=c['comment'])
        period = None
        if c['own_period']:
            period = dict(dtstart=when(c['start'], rng).astimezone(timezone.utc), duration=timedelta(seconds=c['dur']),
                          notification_period=td(c['notif']), recovery_period=td(c['recov']),
                          ramp_up_period=td(c['ramp'] if c['ramp'] >= 0 else None))
            if c.get('tol') is not None:
                period['tolerance'] = {'startafter': td(c['tol'])}
        if rng.random() < .15:      # all without a time zone
            for x in [i for s in ivs for i in s] + ([period] if period else []):
                x['dtstart'] = vclock.VDatetime._mk(vclock.local(x['dtstart'])) if x['dtstart'].tzinfo else x['dtstart']
        else:
            for s in ivs:
                for i in s:
                    if i['dtstart'].tzinfo is None:       # only add_event promises to handle a mixture
                        i['dtstart'] = i['dtstart'].astimezone(timezone.utc)
        sigs = [dict(signal_name=s['name'], signal_type=s['type'], signal_id=f's{n}', intervals=iv)
                for n, (s, iv) in enumerate(zip(c['signals'], ivs))]
        for x, s in zip(sigs, c['signals']):
            if s.get('cur') is not None:
                x['current_value'] = float(s['cur']) if '.' in s['cur'] else rng.choice([int, float])(s['cur'])
            if s.get('meas'):
                m = self.some_measurement(s['meas'])
                x['measurement'] = asdict(m) if spec['kind'] == 'dict' else m
            if s.get('tg'):
                x['targets'] = [self.target('end_device_asset', y) for y in s['tg']]
        if a['bad'] == 'content':
            self.unsendable(sigs, desc)
        if spec['kind'] == 'dict':
            desc['created_date_time'] = vclock.VDatetime.now(timezone.utc)
            if rng.random() < .3:
                for k in ('event_status',):
                    desc.pop(k)
            if a['prio'] == 0 and rng.random() < .5:
                desc.pop('priority')
            ev = {'event_descriptor': desc, 'event_signals': sigs, 'response_required': c['resp'],
                  'targets': [{k: self.target_value(k, x)} for k, x in c['targets']]}
            if period:
                ev['active_period'] = period
        else:
            ev = O.Event(event_descriptor=O.EventDescriptor(**desc),
                         event_signals=[O.EventSignal(**dict(s, intervals=[O.Interval(**i) for i in s['intervals']]))
                                        for s in sigs],
                         targets=[O.Target(**{k: self.target_value(k, x)}) for k, x in c['targets']],
                         active_period=O.ActivePeriod(**period) if period else None,
                         response_required=c['resp'])
        if a['bad'] == 'callback':
            cb = self.badcb()
        return self.server.add_raw_event(ven_id=a['v'], event=ev, callback=cb, delivery_callback=dcb)

    def badcb(self):
        return self.rng.choice([lambda: None, lambda ven_id, event_id: None, lambda ven_id, opt_type: None,
                                lambda event_id, opt_type: None, lambda a, b, c: None, 17])

    def unsendable(self, sigs, desc):
        """changes an event so that no valid message can say it"""
        r, s = self.rng, self.rng.choice(sigs)
        iv = s['intervals'] = [i if isinstance(i, dict) else dict(vars(i)) for i in s['intervals']]
        i, k = r.choice(iv), r.randrange(6 if len(sigs) == 1 else 7)
        if k == 0:
            desc['event_id'] += r.choice('\x00\x01\x0b\x1f')
        elif k == 1:
            i['duration'] = -i['duration'] - timedelta(seconds=1)
        elif k in (2, 3):
            i['signal_payload'] = r.choice(['abc', None, '', [1], {}, '1,5'])
        elif k in (4, 5):
            s['signal_name'], i['signal_payload'] = 'SIMPLE', r.choice([-1, 4, 1.5, 3.0001, '1', 100, None, float('nan')])
        else:
            i['duration'] += timedelta(seconds=1)

    def bad(self, kw, what):
        r = self.rng
        if what == 'market_context':
            kw['market_context'] = r.choice([None, 5, ['x'], 'http://[x', 'http://a\x01b'])
        elif what == 'response_required':
            kw['response_required'] = r.choice(['sometimes', 'ALWAYS', '', None, True])
        elif what == 'signal_name':
            kw['signal_name'] = r.choice(['Simple', 'FOO', 'X-custom', '', 'level'])
        elif what == 'signal_type':
            kw['signal_type'] = r.choice(['SIMPLE', 'Level', '', None, 'x-level'])
        elif what == 'intervals':
            kw['intervals'] = r.choice([[], None, (), {}, {'a': 1}, 'abc', 0,
                                        [{'duration': timedelta(seconds=1), 'signal_payload': 1}],
                                        kw['intervals'] + [{'dtstart': 'tomorrow', 'duration': timedelta(seconds=1),
                                                            'signal_payload': 1}],
                                        kw['intervals'] + [None]])
        elif what == 'content':
            sig, desc = {'signal_name': kw['signal_name'], 'intervals': kw['intervals']}, {'event_id': kw['event_id']}
            self.unsendable([sig], desc)
            kw.update(sig, event_id=desc['event_id'])
        elif what == 'callback':
            kw['callback'] = self.badcb()
            kw['response_required'] = 'always'

    def do(self, a, spec=None):
        """Perform an action; returns the observed output in the specification's terms"""
        self.calls = []
        err = False
        op = a['op']
        self.script.append([a, spec])
        if op == 'tick':
            self.loop.advance_to(vclock.Clock.t + a['d'])
        elif op == 'add':
            try:
                r = self.add(a, spec)
                if r != a['id']:
                    err = True
            except Exception:
                err = True
        elif op == 'cancel':
            try:
                self.server.cancel_event(a['v'], a['id'])
            except Exception:
                err = True
        elif op == 'poll':
            self.reqs.start(a['pid'], 'OadrPoll', wire.poll(a['v']))
        elif op == 'request':
            self.reqs.start(a['pid'], 'EiEvent', wire.request_event(a['v'], wire.rid()))
        elif op == 'created':
            self.reqs.start(a['pid'], 'EiEvent', wire.created_event(
                a['v'], [dict(id=o['id'], mod=o['mod'], opt=o['opt'], rq=wire.rid()) for o in a['opts']]))
        elif op == 'resume':
            self.reqs.resume(a['pid'], a['ok'])
        self.loop.settle()
        replies = []
        for pid, r in self.reqs.finished():
            rec, m = vtn.reply_record(pid, r)
            if rec['type'] == 'oadrDistributeEvent':
                for e in m.events:
                    rec['events'].append({'id': e['id'], 'mod': e['mod'], 'st': e['status'], 'c': observed(e)})
            replies.append(rec)
        pid = a.get('pid')
        if pid in self.reqs.tasks and pid not in self.reqs.gates:
            self.reqs.tasks.pop(pid).cancel()
            replies.append({'pid': pid, 'type': 'HANG', 'code': '', 'events': []})
        calls = [{k: c[k] for k in ('k', 'v', 'id', 'opt')} if c['for'] == [c['v'], c['id']]
                 else dict(k=c['k'], v=c['v'], id=c['id'], opt=f"{c['opt']} (callback given for {c['for']})")
                 for c in self.calls]
        return {'calls': calls, 'replies': replies, 'err': err}

    def close(self):
        self.reqs.close()
        vtn.close_loop(self.loop)


CBMODES = ['none', 'sync', 'sync', 'async', 'gate', 'raise', 'future']
BADS = ['market_context', 'response_required', 'signal_name', 'signal_type', 'intervals', 'callback', 'content', 'content']


def mk_add(rng, v, id, start, dur, ramp, prio, mod, cb, dcb, bad, kind=None):
    kind = kind or rng.choice(['add', 'add', 'dict', 'obj'])
    if kind == 'add':
        prio = mod = 0
    if bad:
        kind = 'add' if bad not in ('callback', 'content') else rng.choice(['add', 'dict', 'obj'])
    c = content(rng, kind, v, id, start, dur, ramp, prio, mod)
    if bad == 'callback':
        c['resp'] = 'always'
    if cb == 'raise' and c['resp'] == 'x':
        pass
    a = {'op': 'add', 'v': v, 'id': id, 'start': start, 'dur': dur, 'ramp': ramp, 'prio': prio, 'mod': mod, 'cb': cb,
         'dcb': dcb, 'bad': bad, 'c': expected(c, v, prio)}
    return a, {'kind': kind, 'c': c, 'objiv': rng.random() < .3, 'r': rng.randrange(2 ** 30)}


def random_trace(arg):
    """arg: {seed, n, steps, focus}"""
    rng = rng_for('vtnevents', arg['seed'], arg['n'])
    d = Driver(rng)
    steps = []
    focus = arg.get('focus', '')
    nv = rng.choice([1, 1, 2, 2, 3])
    vens = rng.sample(['ven1', 'VEN1', 'ven-3', '44', '044', 'ven11'], nv)
    ids = rng.sample(['e1', 'e2', 'E1', 'ev & <3>', '5', 'true', '007', '1.0', 'x' * 40], rng.choice([2, 3, 5]))
    quiet = rng.random() < (0.15 if focus == 'C05' else 0.3)
    modes = ['none', 'sync', 'async'] if rng.random() < 0.3 else CBMODES
    dmodes = ['none'] if rng.random() < 0.35 else ['none', 'none', 'sync', 'async', 'gate', 'raise']
    known = {}
    mods = {}
    npid = [0]
    maxpr = rng.choice([1, 2, 3])
    span = rng.choice([10, 100, 4000, 100000])
    unit = rng.choice([1, 1, 1, 60, 3600, 86400])      # round numbers are special, too
    if unit > 1:
        span = rng.choice([5, 20])

    def do(a, spec=None):
        o = d.do(a, spec)
        steps.append({'a': a, 'o': o})
        return o

    def start(op, v, **kw):
        npid[0] += 1
        return do(dict(op=op, v=v, pid=npid[0], **kw))

    def opts_for(v):
        out = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            src = v if rng.random() < 0.9 else rng.choice(vens)
            cand = [k for k in known.get(src, [])]
            i = rng.choice(cand) if cand and rng.random() < 0.9 else rng.choice(ids + ['nope'])
            cur = mods.get((src, i), 0)
            m = cur if rng.random() < 0.75 else rng.choice([0, cur + 1, max(0, cur - 1), 3])
            out.append({'id': i, 'mod': m, 'opt': rng.choice(['optIn', 'optOut'])})
        return out

    try:
        if rng.random() < .04:          # large numbers
            many, one = rng.choice([12, 17, 33, 60]), rng.random() < .7
            if one:
                ids = ids + [f'n{i}' for i in range(many)]
            else:
                vens = vens + [f'ven{i}' for i in range(100, 100 + many)]
            for i in range(many):
                v = vens[0] if one else vens[-1 - i]
                a, spec = mk_add(rng, v, f'n{i}', int(vclock.Clock.t) + unit * rng.randint(-2, span), unit * rng.randint(1, span), -1,
                                 rng.choice([0, 0, 1, 2]), 0, rng.choice(['none', 'sync']), 'none', '')
                do(a, spec)
                known.setdefault(v, []).append(a['id'])
                mods[(v, a['id'])] = a['mod']
            vens = vens[:1] + rng.sample(vens[1:], min(3, len(vens) - 1))
            start('poll', vens[0])
        for _ in range(arg['steps']):
            pend = d.reqs.pending()
            x = rng.random()
            v = rng.choice(vens)
            if pend and (x < 0.3 or len(pend) >= maxpr):
                do({'op': 'resume', 'pid': rng.choice(pend), 'ok': rng.random() < 0.7})
            elif x < 0.42 and not pend:
                do({'op': 'tick', 'd': unit * rng.choice([1, 1, 2, 3, max(1, span // 10), max(1, span // 3)])})
            elif x < 0.58 or not any(known.values()):
                free = [i for i in ids if i not in known.get(v, [])]
                if not free and rng.random() < .5:
                    continue
                now = int(vclock.Clock.t)
                st = now + unit * rng.choice([-span, -1, 0, 1, 2, rng.randint(0, span)])
                du = rng.choice([0, 1, 2, rng.randint(1, span)]) if rng.random() < .9 else span * 3
                bad = rng.choice(BADS) if rng.random() < (0.5 if focus == 'C25' else 0.12) or not free else ''
                ramp = rng.choice([-1, -1, 0, unit, unit * rng.randint(0, span)])
                a, spec = mk_add(rng, v, rng.choice(free) if free and (not bad or rng.random() < .5)
                                 else rng.choice(ids), st, unit * max(du, 0), ramp, rng.choice([0, 0, 1, 2, 3, 10]),
                                 rng.choice([0, 0, 0, 1, 4]), rng.choice(modes), rng.choice(dmodes), bad)
                do(a, spec)
                if not bad:
                    known.setdefault(v, []).append(a['id'])
                    mods[(v, a['id'])] = a['mod']
            elif x < 0.66:
                i = rng.choice(known.get(v) or ids) if rng.random() < .85 else rng.choice(ids + ['nope'])
                do({'op': 'cancel', 'v': v if rng.random() < .95 else 'stranger', 'id': i})
                if (v, i) in mods and steps[-1]['a']['v'] == v:
                    mods[(v, i)] += 1
            elif x < 0.8:
                start('poll', v if rng.random() < .97 else 'stranger')
            elif x < 0.88:
                start('request', v if rng.random() < .97 else 'stranger')
            else:
                start('created', v if rng.random() < .97 else 'stranger', opts=opts_for(v))
        # final probing
        for _ in range(60):
            pend = d.reqs.pending()
            if not pend:
                break
            do({'op': 'resume', 'pid': pend[0], 'ok': True})

        def drain(op, v, **kw):
            start(op, v, **kw)
            for _ in range(40):
                pend = d.reqs.pending()
                if not pend:
                    return
                do({'op': 'resume', 'pid': pend[0], 'ok': True})
        for v in vens:
            drain('poll', v)
            drain('poll', v)
            drain('request', v)
        do({'op': 'tick', 'd': unit * (5 * span + 10)})
        for v in vens:
            for i in known.get(v, []):
                if rng.random() < .5:
                    drain('created', v, opts=[{'id': i, 'mod': mods[(v, i)], 'opt': 'optIn'}])
            drain('request', v)
            for i in known.get(v, []):
                if rng.random() < .3:
                    drain('created', v, opts=[{'id': i, 'mod': mods[(v, i)], 'opt': 'optOut'}])
            drain('request', v)
            drain('poll', v)
            drain('poll', v)
    finally:
        d.close()
    return {'steps': steps, 'meta': {'module': 'm_vtnevents', 'fn': 'random_trace', 'arg': arg, 'script': d.script}}


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}; carries it out against the server"""
    rng = rng_for('vtnevents-replay', arg['seed'], arg['n'])
    d = Driver(rng)
    steps = []
    scale = rng.choice([1, 1, 60, 3600, 86400])
    vname = dict(zip(['A', 'B', 'C'], rng.sample(['venA', 'VenB', '12', 'v c'], 3)))
    iname = dict(zip(['1', '2', '3', 'x'], rng.sample(['1', 'E2', '03', 'a&b', 'true'], 4)))
    try:
        for a in arg['b']:
            a = dict(a)
            if 'v' in a:
                a['v'] = vname[a['v']]
            if 'id' in a:
                a['id'] = iname[a['id']]
            if 'opts' in a:
                a['opts'] = [dict(o, id=iname[o['id']]) for o in a['opts']]
            spec = None
            if a['op'] == 'tick':
                a['d'] *= scale
            if a['op'] == 'add':
                if a['bad']:
                    a, spec = mk_add(rng, a['v'], a['id'], 0, 1, -1, 0, 0, 'sync', 'none', a['bad'])
                else:
                    a, spec = mk_add(rng, a['v'], a['id'], a['start'] * scale, a['dur'] * scale,
                                     a['ramp'] * scale if a['ramp'] > 0 else a['ramp'], a['prio'], a['mod'],
                                     a['cb'], a['dcb'], '', kind=rng.choice(['dict', 'obj']) if a['prio'] else None)
            steps.append({'a': a, 'o': d.do(a, spec)})
    finally:
        d.close()
    return {'steps': steps, 'meta': {'module': 'm_vtnevents', 'fn': 'replay_trace', 'arg': arg, 'script': d.script}}


def rerun(arg):
    """arg: {script: [[action, spec], ...]}"""
    rng = rng_for('rerun')
    d = Driver(rng)
    steps = []
    try:
        for a, spec in arg['script']:
            steps.append({'a': a, 'o': d.do(a, spec)})
    finally:
        d.close()
    return {'steps': steps, 'meta': {'module': 'm_vtnevents', 'fn': 'rerun', 'arg': arg, 'script': d.script}}


def twin(prop, trace, step):
    """A refused add must change nothing: the same execution without the refused adds, up to the mismatch"""
    if prop != 'C25':
        return None
    s = trace['meta']['script'][:step]
    t = [x for x in s if not (x[0]['op'] == 'add' and x[0]['bad'])]
    return None if len(s) == len(t) else {'script': t}


# ------------------------------------------------------------------ plan of the checks
PLAN = {
    'quick': {
        'mc': [dict(Vens='{"A"}', MaxLen=7, Modes='{"sync","gate","raise"}', DModes='{"none"}', MaxProcs=2),
               dict(Vens='{"A"}', MaxLen=6, Modes='{"gate"}', DModes='{"gate","raise"}', MaxProcs=2, Prios='{0,1}'),
               dict(Vens='{"A","B"}', Ids='{"1"}', MaxLen=6, MaxProcs=1)],
        'gen': [dict(MaxLen=14, Modes='{"none","sync","gate","raise","async","future"}',
                     DModes='{"none","gate","raise","sync"}', MaxProcs=2, Prios='{0,1,2}', MaxMod=2)],
        'gen_num': 400, 'gen_depth': 14,
        'random': 900, 'steps': 30},
    'thorough': {
        'mc': [dict(MaxLen=7), dict(Vens='{"A"}', MaxLen=8, Modes='{"sync","gate","raise"}', DModes='{"none"}', MaxProcs=2),
               dict(Vens='{"A"}', MaxLen=7, Modes='{"gate"}', DModes='{"gate","raise"}', MaxProcs=2, Prios='{0,1}'),
               dict(Vens='{"A","B"}', Ids='{"1"}', MaxLen=7, MaxProcs=2)],
        'gen': [dict(MaxLen=20, Modes='{"none","sync","gate","raise","async","future"}',
                     DModes='{"none","gate","raise","sync"}', MaxProcs=3, Prios='{0,1,2}', MaxMod=3, Tmax=5,
                     Starts='{0,1,2,3}')],
        'gen_num': 3000, 'gen_depth': 20,
        'random': 6000, 'steps': 60},
}
