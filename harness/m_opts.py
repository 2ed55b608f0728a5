"""Conformance of a VEN's opts to spec/Opts.tla: a real OpenADRClient whose VTN acknowledges, refuses or loses its
opts, at once or later."""
import asyncio
import vclock
import venbox
import wire
import net
from core import rng_for
from datetime import timedelta, timezone

TRACE_MODULE = 'TraceOpts'
MC_MODULE = 'MCOpts'
TICK = .5
FAULTS = venbox.FAULTS
REASONS = ['economic', 'emergency', 'mustRun', 'notParticipating', 'outageRunStatus', 'overrideStatus', 'participating',
           'x-schedule']
KINDS = ['group_id', 'group_name', 'resource_id', 'ven_id', 'party_id']
BADS = ['type', 'reason', 'mrid', 'neither', 'both', 'notargets', 'slot']
MRIDS = ['', 'Thermostat', 'Sauna', 'Electric_Vehicle', 'x-own', 'x-<&>']
PLAIN = {'type': 'optIn', 'reason': 'economic', 'event': 'e', 'mod': -1, 'slots': [],
         'targets': [{'kind': 'ven_id', 'v': 'ven1'}], 'ctx': '', 'mrid': ''}


def content(r):
    ev = r.random() < .5
    return {'type': r.choice(['optIn', 'optOut']), 'reason': r.choice(REASONS),
            'event': r.choice(['e', '07', 'a&b', 'Event 1']) if ev else '', 'mod': r.choice([-1, 0, 1, 12]) if ev else -1,
            'slots': [] if ev else [[r.choice([0, 3600, 86399, -5000, 31536000]), r.choice([1, 60, 3600, 90061, 604800])]
                                    for _ in range(r.choice([1, 1, 2, 3]))],
            'targets': [{'kind': r.choice(KINDS), 'v': r.choice(['v1', '07', 'a&b', 'x y', 'v2'])}
                        for _ in range(r.choice([1, 1, 1, 2, 3, 0]))],
            'ctx': r.choice(['', '', 'http://market', 'http://m?a=1&b=2']), 'mrid': r.choice(MRIDS)}


class Driver:
    def __init__(self, cfg, opts):
        self.cfg, self.opts, self.script = cfg, opts, []
        self.box = venbox.Box(ven_id=cfg['ven'], poll=opts['poll'])
        self.now, self.rets, self.msgs = 0, [], []
        self.real, self.name, self.rqs, self.todo = {}, {}, {}, {}
        self.used = set()
        self.box.default, self.std = self.default, self.box.default
        self.box.run(self.box.client.run())
        self.box.advance(vclock.Clock.t + 1)
        self.base = vclock.Clock.t
        self.box.take()

    def default(self, m):
        if m.service != 'EiOpt':
            return self.std(m)
        return self.opt(m)

    async def opt(self, m):
        # a call whose id was left to the VEN
        if m.opt_id not in self.name and m.type == 'oadrCreateOpt' and self.unnamed:
            self.name[m.opt_id] = self.unnamed.pop(0)
            self.real[self.name[m.opt_id]] = m.opt_id
        n = self.name.get(m.opt_id, m.opt_id)
        kind = 'create' if m.type == 'oadrCreateOpt' else 'cancel'
        c = self.todo.get((kind, n))
        rq = m.request_id or 'NONE'
        known = c and c['rq'] and kind == 'create'
        if not known:
            rq, fresh = '', rq
            if kind == 'create' and (fresh in self.used or fresh == 'NONE'):
                rq = 'used before'
            self.used.add(fresh)
        o = {'k': kind, 'id': n, 'ven': m.get('ven_id') or '', 'rq': rq}
        if kind == 'create':
            at = (m.created - self.base) / TICK
            o['at'] = int(at) if abs(at - round(at)) < .01 else repr(at)
            o['p'] = self.read(m)
        if not m.valid:
            o['id'] += ' INVALID'
        self.msgs.append(o)
        if c is None:
            return wire.response(self.cfg['ven'], 452, m.request_id)
        if c['lag']:
            await asyncio.sleep(c['lag'] * TICK)
        return self.reply(c, m)

    def read(self, m):
        return {'type': m.opt_type, 'reason': m.reason, 'event': m.event_id or '',
                'mod': -1 if m.mod is None else int(m.mod) if m.mod.isdigit() else m.mod,
                'slots': [[self.secs(t), self.secs(d, 0)] for t, d in m.comps],
                'targets': [{'kind': k, 'v': v} for k, v in m.targets], 'ctx': m.ctx or '', 'mrid': m.mrid or ''}

    def secs(self, t, base=None):
        x = t - (self.base if base is None else base)
        return int(x) if x == int(x) else repr(x)

    def reply(self, c, m):
        create, rq = c['k'] == 'create', m.request_id or ''
        made, other = (wire.created_opt, wire.canceled_opt) if create else (wire.canceled_opt, wire.created_opt)
        ans = c['ans']
        if ans == 'ok':
            return made(rq, m.opt_id)
        if ans == 'refused':
            return made(rq, m.opt_id, code=self.opts['code'])
        if ans == 'wrong':
            return other(rq, m.opt_id)
        if ans == 'noid':
            return wire.canceled_opt(rq, None)
        if ans == 'plain':
            return wire.response(self.cfg['ven'], [200, 452][len(rq) % 2], rq)
        if ans == 'lost':
            raise net.connection_error()
        return venbox.fault_reply(ans, lambda: made(rq, m.opt_id))

    def args(self, c, spec):
        from openleadr import objects
        p, bad = c['p'], c['bad']
        tz = timezone(timedelta(hours=0 if spec['tz'] == 'local' else spec['tz']))

        def when(t):
            d = vclock.EPOCH + timedelta(seconds=self.base + t)
            return vclock.local(d) if spec['tz'] == 'local' else d.astimezone(tz)
        comps = [objects.VavailabilityComponent(when(t), timedelta(seconds=d)) for t, d in p['slots']]
        targets = []
        for t in p['targets']:
            one = {t['kind']: t['v']}
            if spec['merge'] and targets and not set(one) & set(targets[-1]):
                targets[-1].update(one)
            else:
                targets.append(one)
        if spec['dict'] == 0:
            targets = [objects.Target(**t) for t in targets]
        elif spec['dict'] == 1:
            targets = [objects.Target(**t) if i % 2 else t for i, t in enumerate(targets)]
        kw = {'opt_type': p['type'], 'opt_reason': p['reason'], 'targets': targets}
        if p['slots']:
            kw['vavailability'] = objects.Vavailability(components=comps)
        if p['event']:
            kw['event_id'] = p['event']
        if p['mod'] != -1:
            kw['modification_number'] = p['mod']
        if p['ctx']:
            kw['market_context'] = p['ctx']
        if p['mrid']:
            kw['signal_target_mrid'] = p['mrid']
        if not spec['auto']:
            kw['opt_id'] = c['id']
        if c['rq']:
            kw['request_id'] = c['rq']
        v = objects.Vavailability(components=[objects.VavailabilityComponent(when(0), timedelta(hours=1))])
        if bad == 'type':
            kw['opt_type'] = 'optMaybe'
        elif bad == 'reason':
            kw['opt_reason'] = 'x-because'
        elif bad == 'mrid':
            kw['signal_target_mrid'] = 'Toaster'
        elif bad == 'neither':
            kw.pop('event_id', None), kw.pop('vavailability', None)
        elif bad == 'both':
            kw.update(event_id='e', vavailability=v)
        elif bad == 'notargets':
            kw['targets'] = None
        elif bad == 'slot':
            kw.pop('event_id', None)
            kw.pop('modification_number', None)
            kw['vavailability'] = objects.Vavailability(components=[None, 3][len(c['id']) % 2])
        return kw

    async def call(self, c, spec):
        try:
            if c['k'] == 'create':
                r = await self.box.client.create_opt(**self.args(c, spec))
                r = 'no' if r is False else self.name.get(r, r)
            else:
                r = await self.box.client.cancel_opt(self.real.get(c['id'], c['id']))
                r = {True: 'yes', False: 'no'}.get(r, repr(r))
        except Exception as err:
            r = 'error' if c['bad'] else repr(err)
        self.todo.pop((c['k'], c['id']), None)
        self.rets.append({'n': c['n'], 'r': r})

    def do(self, a, specs):
        self.script.append([a, specs])
        self.unnamed = []
        for c, spec in zip(a['calls'], specs):
            if c['k'] == 'create':
                if spec['auto'] and not c['bad']:
                    self.unnamed.append(c['id'])
                else:
                    self.name[c['id']] = self.real[c['id']] = c['id']
            self.todo[c['k'], c['id']] = c
            self.box.run(self.call(c, spec))
        self.box.loop.settle()
        self.now += a['w']
        self.box.advance(self.base + self.now * TICK)
        msgs, self.msgs = self.msgs, []
        rets, self.rets = self.rets, []
        return {'msgs': msgs, 'rets': rets, 'opts': [self.name.get(o.opt_id, o.opt_id) for o in self.box.client.opts]}

    def close(self):
        self.box.close()


def mk_opts(r):
    return {'poll': r.choice([10, 60]), 'code': r.choice([452, 459, 463, 500])}


def mk_spec(r, c):
    # an id that the VEN makes is known once the message is out; before, it cannot be cancelled
    return {'tz': r.choice([0, 0, 2, -7, 'local']), 'merge': r.random() < .3, 'dict': r.choice([0, 1, 2]), 'auto': c.get('auto', False)}


def finish(d, cfg, opts, steps, fn, arg):
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_opts', 'fn': fn, 'arg': arg, 'script': d.script,
                                                 'cfg': cfg, 'opts': opts}}


def near(x):
    return [y for y in (x.upper(), x[:-1], x + '0', '0' + x, x.strip('0')) if y and y.strip() == y]


def random_trace(arg):
    r = rng_for('opts', arg['seed'], arg['n'])
    cfg, opts = {'ven': r.choice(['ven1', '07', 'a&b', 'true', '1.50'])}, mk_opts(r)
    d = Driver(cfg, opts)
    steps, n, ids, busy, now = [], 0, [], {}, 0
    faulty = r.choice([.1, .3, .5])
    few = [0, 1, 1, 1, 2, 3] if r.random() < .95 else [3, 9, 17]

    def ans(k):
        x = r.random()
        return 'ok' if x > faulty else r.choice(['refused', 'refused', 'plain', 'wrong', 'noid' if k == 'cancel' else 'refused', 'lost',
                                                 r.choice(FAULTS)])
    try:
        for _ in range(arg['steps']):
            calls = []
            for _ in range(r.choice(few)):
                n += 1
                lag = r.choice([0, 0, 0, 1, 3, 7])
                k = r.choice(['create', 'cancel']) if ids else 'create'
                if k == 'create':
                    bad = r.choice(BADS) if r.random() < .15 else ''
                    c = {'id': f'{r.choice(["o", "opt ", "0", "a&"])}{n}', 'bad': bad, 'rq': r.choice(['', '', f'q{n}', f'0{n}', f'{n}.0'])}
                    if r.random() < .4 and not bad:
                        c.update(id=f'auto{n}', auto=True)
                    if not c.get('auto') or len(calls) == 0:
                        ids.append(c['id'])
                else:
                    i = r.choice(ids) if r.random() < .85 else r.choice([f'nobody{n}'] + [x for x in near(r.choice(ids)) if x not in ids])
                    if busy.get(i, -1) >= now or any(c['id'] == i and (c['k'] == 'cancel' or c.get('auto')) for c in calls):
                        continue
                    c = {'id': i, 'bad': '', 'rq': ''}
                    busy[i] = now + lag
                p = content(r)
                if c['bad'] == 'neither':
                    p['event'], p['mod'], p['slots'] = '', -1, []
                a = ans(k)
                calls.append(dict(c, n=n, k=k, p=p if k == 'create' else PLAIN, ans=a, lag=lag))
            specs = [mk_spec(r, c) for c in calls]
            calls = [{x: y for x, y in c.items() if x != 'auto'} for c in calls]
            a = {'op': 'go', 'calls': calls, 'w': r.choice([1, 1, 2, 5, 9])}
            now += a['w']
            steps.append({'a': a, 'o': d.do(a, specs)})
    finally:
        d.close()
    return finish(d, cfg, opts, steps, 'random_trace', arg)


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}"""
    r = rng_for('opts-replay', arg['seed'], arg['n'])
    cfg, opts = {'ven': 'ven1'}, mk_opts(r)
    d = Driver(cfg, opts)
    steps = []
    try:
        for a in arg['b']:
            calls, specs = [], []
            for c in a['calls']:
                c = dict(c)
                if c['k'] == 'create':
                    c['p'] = content(r)
                    c['bad'] = r.choice(BADS) if c['bad'] else ''
                    c['rq'] = r.choice(['', f'q{c["n"]}'])
                if c['ans'] == 'lost':
                    c['ans'] = r.choice(FAULTS + ['lost', 'plain', 'wrong'])
                calls.append(c)
                specs.append(mk_spec(r, c))
            a = dict(a, calls=calls)
            steps.append({'a': a, 'o': d.do(a, specs)})
    finally:
        d.close()
    return finish(d, cfg, opts, steps, 'replay_trace', arg)


def rerun(arg):
    """arg: {cfg, opts, script}"""
    d = Driver(arg['cfg'], arg['opts'])
    steps = []
    try:
        for a, specs in arg['script']:
            steps.append({'a': a, 'o': d.do(a, specs)})
    finally:
        d.close()
    return finish(d, arg['cfg'], arg['opts'], steps, 'rerun', arg)


_GEN = dict(Ids='{"a", "b", "c", "d", "e", "f", "g"}', CreateAns='{"ok", "refused", "lost"}', CancelAns='{"ok", "noid", "refused", "lost"}',
            Lags='{0, 1, 4}', Waits='{1, 2, 5}')
PLAN = {
    'quick': {
        'mc': [dict(), dict(MaxLen=6, MaxBatch=1)],
        'gen': [dict(_GEN, MaxLen=14)],
        'gen_num': 200, 'gen_depth': 14, 'random': 1200, 'steps': 14},
    'thorough': {
        'mc': [dict(MaxLen=5), dict(MaxLen=8, MaxBatch=1), dict(Ids='{"a", "b", "c"}')],
        'gen': [dict(_GEN, MaxLen=25)],
        'gen_num': 800, 'gen_depth': 25, 'random': 6000, 'steps': 30},
}
