"""Conformance of the VEN's event handling to spec/VenEvents.tla: drives a real OpenADRClient."""
import asyncio
import json
import venbox
import vclock
import wire
from core import rng_for
from datetime import timedelta

TRACE_MODULE = 'TraceVenEvents'
MC_MODULE = 'MCVenEvents'

SIGNALS = ['SIMPLE', 'simple', 'ELECTRICITY_PRICE', 'LOAD_CONTROL', 'CHARGE_STATE']
UNKNOWN = ['x-custom', 'x-other']     # any other unknown name makes the message invalid
TYPES = ['level', 'price', 'setpoint', 'delta']


def secs(x):
    return None if x is None else int(x.total_seconds())


def tstamp(x):
    return int((x - vclock.EPOCH).total_seconds())


def canonical(v):
    """wire.event() argument -> canonical content, without status"""
    return json.dumps({
        'prio': int(v.get('prio') or 0), 'ctx': v['ctx'], 'resp': v['resp'], 'created': v['created'],
        'test': v.get('test') not in (None, 'false'),
        'comment': v.get('comment') or '', 'start': v['start'], 'dur': v['dur'], 'ramp': v.get('ramp') or 0,
        'notif': v.get('notif') or 0, 'recov': v.get('recov') or 0, 'tol': v.get('tol') or 0,
        'targets': sorted(v['targets']),
        'signals': [[s['name'], s['type'], s['id'], [[i['t'], i['dur'], float(i['val'])] for i in s['intervals']],
                     wire.num(s.get('cur')) or '', wire.meas_flat(s.get('meas')) or [], s.get('tg') or []]
                    for s in v['signals']]}, sort_keys=True)


def received(ev):
    """what the application sees -> canonical content"""
    try:
        d, p = ev['event_descriptor'], ev['active_period']
        tol = p.get('tolerance')
        for k in ('tolerate', 'startafter'):
            tol = tol.get(k) if isinstance(tol, dict) else tol
        t = d.get('test_event')
        return json.dumps({
            'prio': int(d.get('priority') or 0), 'ctx': d['market_context'], 'resp': ev['response_required'],
            'created': tstamp(d['created_date_time']), 'test': {None: False}.get(t, t),
            'comment': d.get('vtn_comment') or '', 'start': tstamp(p['dtstart']), 'dur': secs(p['duration']),
            'ramp': secs(p.get('ramp_up')) or 0, 'notif': secs(p.get('notification')) or 0,
            'recov': secs(p.get('recovery')) or 0, 'tol': secs(tol) or 0,
            'targets': sorted([k, wire.target_flat(k, v)] for t in ev.get('targets') or [] for k, v in t.items()),
            'signals': [[s['signal_name'], s['signal_type'], s['signal_id'],
                         [[tstamp(i['dtstart']), secs(i['duration']), float(i['signal_payload'])]
                          for i in s['intervals']],
                         '' if s.get('current_value') is None else wire.num(str(s['current_value'])),
                         wire.meas_seen(s.get('measurement')) or [],
                         [wire.target_flat(k, v) for t in s.get('targets') or [] for k, v in t.items()]]
                        for s in ev['event_signals']]}, sort_keys=True)
    except Exception as err:
        return f'unreadable: {err!r} {ev!r}'


def mk_content(rng, e):
    """Wire content for a version of an event"""
    n = 1 if e['dur'] < 2 else rng.randint(1, min(3, e['dur']))
    cuts = sorted(rng.sample(range(1, e['dur']), n - 1)) if n > 1 else []
    bounds = [0] + cuts + [e['dur']]
    k = rng.choice([1, 1, 2, 3])
    bad = None if e['ok'] else rng.randrange(k)
    return {'id': e['id'], 'mod': e['mod'], 'prio': rng.choice([None, 0, 1, 7]),
            'ctx': rng.choice(['http://ctx', 'ctx-1', 'a&b']), 'created': rng.choice([0, -500]), 'resp': e['resp'],
            'test': rng.choice([None, 'false', 'true', 'a test']),
            'comment': rng.choice([None, 'hello', '12', 'true', 'tëst <&>']),
            'start': e['start'], 'dur': e['dur'], 'ramp': e['ramp'] if e['ramp'] >= 0 else None,
            'notif': rng.choice([None, 0, 3600]), 'recov': rng.choice([None, 60]), 'tol': rng.choice([None, 300]),
            'targets': [[g, rng.choice(['a', '07', 'B b']) + ('>true' if g == 'transport_interface' else '')]
                        for g in rng.sample(['group_id', 'resource_id', 'ven_id', 'party_id'] if rng.random() < .7
                                            else [t[0] for t in wire.TARGETS], rng.choice([1, 1, 2, 3]))],
            'signals': [{'name': rng.choice(UNKNOWN if j == bad else SIGNALS), 'type': rng.choice(TYPES),
                         'id': f's{j}', 'cur': rng.choice([None, None, '0', '1', '-2.5']),
                         'meas': rng.choice(wire.MEASUREMENTS) if rng.random() < .2 else None,
                         'tg': rng.sample(['Thermostat', '07', 'a & b'], rng.choice([1, 2])) if rng.random() < .2
                         else [], 'intervals': [
                             {'t': e['start'] + bounds[i], 'dur': bounds[i + 1] - bounds[i],
                              'val': rng.choice(['0', '1', '2.5', '-3'])} for i in range(n)]} for j in range(k)]}


class Driver:
    def __init__(self, cfg, opts):
        """opts: how handlers are made"""
        self.cfg, self.opts = cfg, opts
        self.box = venbox.Box(poll=cfg['P'], vtn_id=opts['vtn_id'], event_status_log_period=cfg['L'],
                              events_clean_up_period=cfg['C'])
        c = self.box.client
        self.current = {}       # (id, mod) -> event of the delivery in progress
        self.handlers = []
        self.script = []
        self.on = False
        self.base = 0
        c.add_handler('on_event', self.handler('event', opts['on']))
        if cfg['upd']:
            c.add_handler('on_update_event', self.handler('update', opts['up']))
        for h in opts['hooks']:
            c.add_hook(h, self.bad_hook(opts['hookstyle']))

    @staticmethod
    def bad_hook(style):
        if style == 'async':
            async def hook(*a):
                await asyncio.sleep(0)
                raise RuntimeError('hook fails')
            return hook

        def hook(*a):
            raise RuntimeError('hook fails')
        return hook

    def handler(self, kind, style):
        def note(ev):
            try:
                d = ev['event_descriptor']
                k = (d['event_id'], d['modification_number'])
            except Exception:
                k = (repr(ev)[:200], -1)
            self.handlers.append({'h': kind, 'id': k[0] if isinstance(k[0], str) else repr(k[0]),
                                  'mod': k[1] if isinstance(k[1], int) else -1, 'c': received(ev)})
            e = self.current.get(k, {'dec': 'optOut', 'lag': 0})
            self.lag += e['lag']
            return e

        def result(e):
            if e['dec'] == 'raise':
                raise RuntimeError('handler fails')
            return e['badval'] if e['dec'] == 'bad' else e['dec']

        async def slow(ev):
            e = note(ev)
            await asyncio.sleep(e['lag'])
            return result(e)
        if style == 'async':
            return slow

        def fast(ev):            # takes no time unless it returns a coroutine
            e = note(ev)
            if not e['lag']:
                return result(e)

            async def rest():
                await asyncio.sleep(e['lag'])
                return result(e)
            return rest()
        return fast

    def advance(self, t):
        self.box.advance(t)

    def do(self, a, spec=None):
        """spec: {(index): wire content} for the events of the action, and how handlers misbehave"""
        self.script.append([a, spec])
        self.handlers = []
        self.box.log = []
        box, op = self.box, a['op']
        now = vclock.Clock.t
        if op == 'tick':
            self.advance(now + a['d'])
        else:
            wires = []
            self.current = {}
            for e, w, b in zip(a['events'], spec['wires'], spec['bad']):
                wires.append(dict(w, status=e['st']))
                self.current[(e['id'], e['mod'])] = dict(e, badval=b)
            good = box.answer(lambda m: wire.distribute_event(a['rq'], wires, box.vtn_id, spec.get('rid')), a['fault'])
            empty = box.answer(lambda m: wire.response(m.ven_id, 200, m.request_id or ''), a['fault'])
            answer = good if wires else empty
            cf = box.answer(lambda m: wire.response(m.ven_id, 200, m.request_id or ''), a['cfault'])
            box.plan = {'oadrCreatedEvent': [cf]}
            if op == 'start':
                box.expect('oadrRequestEvent', answer)
                box.run(box.client.run())
                self.finish(now)
                self.base = vclock.Clock.t
            else:
                t = now - self.base
                c = self.cfg
                t = (t // c['P'] + 1) * c['P']
                while t % c['L'] == 0 or t % c['C'] == 0:
                    t += c['P']
                self.advance(self.base + t - 1)
                if a['via'] == 'rereg':
                    box.expect('oadrPoll', lambda m: wire.request_reregistration(m.ven_id))
                    box.expect('oadrRequestEvent', answer)
                else:
                    box.expect('oadrPoll', answer)
                self.finish(self.base + t)
        created = []
        for t, m in box.log:
            if m.type == 'oadrCreatedEvent':
                created.append({'code': m.code,
                                'resps': [{k: r[k] for k in ('id', 'mod', 'opt', 'code', 'rq')} for r in m.responses]
                                if m.valid and m.service == 'EiEvent' else []})
        held = []
        for ev in box.client.received_events:
            d = ev['event_descriptor']
            held.append({'id': d['event_id'], 'mod': d['modification_number'], 'st': d['event_status'],
                         'c': received(ev)})
        held.sort(key=lambda x: x['id'])
        return {'handlers': self.handlers, 'created': created, 'held': held}

    def finish(self, t):
        """Let the handlers that are called take their time"""
        self.lag = 0
        self.advance(t)
        done = 0
        while self.lag > done and self.lag <= 100:
            done = self.lag
            self.advance(t + done)

    def close(self):
        self.box.close()


def mk_opts(rng):
    hooks = ['before_send_xml', 'after_receive_xml', 'before_schema_validation', 'before_parse_xml', 'after_parse_xml']
    return {'on': rng.choice(['sync', 'async']), 'up': rng.choice(['sync', 'async']),
            'vtn_id': rng.choice(['VTN1', 'VTN1', 'vtn-lower', 'My VTN', '07', 'true']),
            'hooks': rng.sample(hooks, rng.choice([0, 0, 1, 2, 5])), 'hookstyle': rng.choice(['sync', 'async'])}


BADVALS = [None, '', 'OptIn', 'yes', 1, True, ['optIn'], {'opt': 'optIn'}]


def status(e, t):
    if e['dur'] > 0 and t >= e['start'] + e['dur']:
        return 'completed'
    if t >= e['start']:
        return 'active'
    if e['ramp'] >= 0 and t >= e['start'] - e['ramp']:
        return 'near'
    return 'far'


def next_poll(cfg, base, now):
    t = ((now - base) // cfg['P'] + 1) * cfg['P']
    while t % cfg['L'] == 0 or t % cfg['C'] == 0:
        t += cfg['P']
    return int(base + t)


def random_trace(arg):
    rng = rng_for('venevents', arg['seed'], arg['n'], arg['focus'])
    cfg = {'P': 20, 'L': rng.choice([6, 14, 26, 34, 70]), 'C': rng.choice([14, 30, 50, 70, 90, 130, 310]),
           'upd': rng.random() < .65}
    opts = mk_opts(rng)
    d = Driver(cfg, opts)
    ids = rng.sample(['e1', 'E1', '1', '02', '2', 'E&<', 'true', 'a b', '3.0', 'né', 'e11'], rng.choice([1, 2, 4, 8]))
    bulk = rng.random() < .05           # large numbers
    if bulk:
        ids += [f'n{i}' for i in range(rng.choice([11, 20, 35]))]
    span = rng.choice([30, 60, 150])
    faulty = 0.3 if arg['focus'] == 'C21' else 0.1
    versions = {}         # id -> current version (event, wire)
    steps = []
    nrq = [0]

    def tie(t):
        t -= d.base
        return d.on and (t % cfg['L'] == 0 or t % cfg['C'] == 0 or t % cfg['P'] == 0)

    def deliver(op):
        now = int(vclock.Clock.t)
        t0 = now if op == 'start' else next_poll(cfg, d.base, now)
        n = rng.choice([0, 1, 1, 2, 3, 5]) if len(ids) > 1 else rng.choice([0, 1, 1])
        if bulk and rng.random() < .6:
            n = rng.choice([10, 11, 17, 40])
        evs, wires, bad = [], [], []
        held = {h['id']: h['mod'] for h in steps[-1]['o']['held']} if steps else {}
        t, budget = t0, cfg['P'] - 2
        chosen = rng.sample(ids, min(n, len(ids))) + ([rng.choice(ids)] if n and rng.random() < .05 else [])
        for i in chosen:
            v = versions.get(i)
            x = rng.random()
            twice = chosen.count(i) > 1       # the same event twice in a message: the handler cannot tell them apart
            if v is None or (x < .35 and not twice):
                e = {'id': i, 'mod': rng.choice([0, 0, 3]) if v is None else v[0]['mod'] + rng.choice([1, 1, 2]),
                     'resp': 'always' if rng.random() < .8 else 'never',
                     'start': t0 + 2 * rng.choice([-span // 2, -3, 0, 2, rng.randint(0, span)]) + 1,
                     'dur': rng.choice([0, 2, 2 * rng.randint(0, span), 2 * rng.randint(1, 15)]),
                     'ramp': rng.choice([-1, -1, 0, 2, 2 * rng.randint(0, span)]), 'ok': rng.random() < .9}
                if v is not None and rng.random() < .5:
                    for k in ('start', 'dur', 'ramp', 'resp', 'ok'):
                        e[k] = v[0][k]
                canc = rng.random() < .2
            else:
                e = {k: v[0][k] for k in ('id', 'mod', 'resp', 'start', 'dur', 'ramp', 'ok')}
                canc = v[0]['st'] == 'cancelled'
            e['dec'] = v[0]['dec'] if v and twice else rng.choice(['optIn', 'optIn', 'optOut', 'bad', 'raise'])
            lag = rng.choice([0, 0, 2, 4, 12])
            called = i not in held or (held[i] != e['mod'] and cfg['upd'])
            if not called or twice or lag > budget or tie(t + lag):
                lag = 0
            e['lag'] = lag
            if called:
                t += lag
                budget -= lag
            held[i] = e['mod']
            stale = rng.random() < .15
            e['st'] = 'cancelled' if canc else (rng.choice(['none', 'far', 'near', 'active', 'completed']) if stale
                                                else status(e, t0))
            w = mk_content(rng, e) if v is None or v[0]['mod'] != e['mod'] else v[1]
            versions[i] = (e, w)
            e['c'] = canonical(w)
            evs.append(e)
            wires.append(w)
            bad.append(rng.choice(BADVALS))
        nrq[0] += 1
        a = {'op': op, 'via': rng.choice(['poll', 'poll', 'rereg']) if op == 'deliver' else 'poll',
             'rq': rng.choice([f'rq{nrq[0]}', f'{nrq[0]}', f'00{nrq[0]}', f'{nrq[0]}.50', 'true', 'a&b']), 'fault': '', 'cfault': '', 'events': evs}
        if evs and rng.random() < faulty:
            if rng.random() < .5 and a['via'] == 'poll' and op != 'start':
                a['fault'] = rng.choice(venbox.FAULTS + ['lost'])
            else:
                a['cfault'] = rng.choice(venbox.FAULTS + ['lost'])
        o = d.do(a, {'wires': wires, 'bad': bad, 'rid': rng.choice([None, 'other', ''])})
        steps.append({'a': a, 'o': o})

    def tick(n):
        a = {'op': 'tick', 'd': n}
        steps.append({'a': a, 'o': d.do(a)})

    try:
        deliver('start')
        d.on = True
        for _ in range(arg['steps']):
            if rng.random() < .75:
                deliver('deliver')
            else:
                tick(2 * rng.choice([1, 3, 8, rng.randint(1, span)]))
        tick(2 * span)
        deliver('deliver')
        tick(4 * span + 2 * cfg['C'])
    finally:
        d.close()
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_venevents', 'fn': 'random_trace', 'arg': arg,
                                                 'script': d.script, 'cfg': cfg, 'opts': opts}}


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}"""
    rng = rng_for('venevents-replay', arg['seed'], arg['n'])
    cfg = arg['b'][0]['cfg']
    opts = mk_opts(rng)
    d = Driver(cfg, opts)
    name = dict(zip(['1', '2', '3'], rng.sample(['1', 'E2', 'e2', '03', '3', 'a&b', 'true'], 3)))
    steps, contents = [], {}
    try:
        for n, a in enumerate(arg['b']):
            a = {k: x for k, x in a.items() if k != 'cfg'}
            spec = None
            if a['op'] != 'tick':
                evs, wires = [], []
                for e in a['events']:
                    e = dict(e, id=name[e['id']])
                    k = json.dumps([e[x] for x in ('id', 'mod', 'start', 'dur', 'ramp', 'resp', 'ok')])
                    if k not in contents:
                        contents[k] = mk_content(rng, e)
                    e['c'] = canonical(contents[k])
                    evs.append(e)
                    wires.append(contents[k])
                a.update(events=evs, rq=f'rq{n}')
                if a['fault']:
                    a['fault'] = rng.choice(venbox.FAULTS + ['lost'])
                elif rng.random() < .2:
                    a['cfault'] = rng.choice(venbox.FAULTS + ['lost'])
                spec = {'wires': wires, 'bad': [rng.choice(BADVALS) for _ in evs]}
            steps.append({'a': a, 'o': d.do(a, spec)})
            d.on = True
    finally:
        d.close()
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_venevents', 'fn': 'replay_trace', 'arg': arg,
                                                 'script': d.script, 'cfg': cfg, 'opts': opts}}


def rerun(arg):
    """arg: {cfg, opts, script}"""
    d = Driver(arg['cfg'], arg['opts'])
    steps = []
    try:
        for a, spec in arg['script']:
            steps.append({'a': a, 'o': d.do(a, spec)})
            d.on = True
    finally:
        d.close()
    return {'cfg': arg['cfg'], 'steps': steps, 'meta': {'module': 'm_venevents', 'fn': 'rerun', 'arg': arg,
                                                        'script': d.script, 'cfg': arg['cfg'], 'opts': arg['opts']}}


def twin(prop, trace, step):
    """Faults and failing hooks must not matter: the same execution without them, up to the mismatch"""
    if prop != 'C21':
        return None
    m = trace['meta']
    t = []
    for a, spec in m['script'][:step]:
        if a['op'] != 'tick':
            if a['fault'] and a['op'] != 'start':
                a, spec = dict(a, fault='', events=[]), dict(spec, wires=[], bad=[])
            a = dict(a, cfault='')
        t.append([a, spec])
    opts = dict(m['opts'], hooks=[])
    if t == m['script'][:step] and not m['opts']['hooks']:
        return None
    return {'cfg': m['cfg'], 'opts': opts, 'script': t}


PLAN = {
    'quick': {
        'mc': [dict(MaxLen=7, Lags='{0}', Decs='{"optIn"}', Starts='{5}', Ids_='{"1"}', Tmax=130),
               dict(MaxLen=4, Lags='{0}', Decs='{"optIn"}', Starts='{5}'),
               dict(MaxLen=3, Decs='{"optIn","raise","bad"}', Ids_='{"1"}')],
        'gen': [dict(MaxLen=12, Tmax=600, MaxMod=2, Ids_='{"1","2","3"}', Starts='{5,25,75,135}', Ticks='{8,32,60}',
                     Decs='{"optIn","optOut","bad","raise"}')],
        'gen_num': 200, 'gen_depth': 12, 'random': 900, 'steps': 14},
    'thorough': {
        'mc': [dict(MaxLen=9, Lags='{0}', Decs='{"optIn"}', Starts='{5}', Ids_='{"1"}', Tmax=130),
               dict(MaxLen=5, Lags='{0}', Decs='{"optIn"}', Starts='{5}', Ls='{14,26}'),
               dict(MaxLen=4, Decs='{"optIn","raise","bad"}', Ids_='{"1"}'),
               dict(MaxLen=4, Lags='{0}', Decs='{"optIn"}', Starts='{5,25}', Cs='{30,50}')],
        'gen': [dict(MaxLen=20, Tmax=1000, MaxMod=3, Ids_='{"1","2","3"}', Starts='{5,25,75,135,255}',
                     Ticks='{8,32,60}', Decs='{"optIn","optOut","bad","raise"}'),
                dict(MaxLen=20, Tmax=1000, MaxMod=3, Ids_='{"1","2"}', Starts='{5,25,75,135,255}', Cs='{130}',
                     Ls='{6}', Ticks='{8,32,60}', Decs='{"optIn","optOut","bad","raise"}')],
        'gen_num': 800, 'gen_depth': 20, 'random': 6000, 'steps': 30},
}
