"""Conformance of the VTN's message handling to spec/VtnService.tla: drives a real OpenADRServer."""
import asyncio
import functools
import json
import random
import re
import vtn
import vclock
import wire
import net
from core import rng_for
from datetime import timedelta, timezone

TRACE_MODULE = 'TraceVtnService'
MC_MODULE = 'MCVtnService'

SERVICES = ['EiEvent', 'EiReport', 'OadrPoll', 'EiRegisterParty']
HOME = {'query': 'EiRegisterParty', 'create': 'EiRegisterParty', 'cancelreg': 'EiRegisterParty',
        'regreport': 'EiReport', 'createdreport': 'EiReport', 'registeredreport': 'EiReport', 'update': 'EiReport',
        'poll': 'OadrPoll', 'reqevent': 'EiEvent', 'createdevent': 'EiEvent'}
OTHER = ['canceledreg', 'distribute', 'createdpartyreg', 'rereg', 'createreport', 'cancelreport', 'updatedreport',
         'canceledreport', 'createopt', 'cancelopt', 'createdopt']
ECHO = {'query', 'create', 'cancelreg', 'reqevent', 'regreport', 'update', 'distribute', 'createreport',
        'cancelreport', 'createopt', 'cancelopt'}
NOVEN = {'query', 'distribute', 'createdopt'}
MAYBEVEN = {'create', 'cancelreg', 'regreport', 'createdreport', 'registeredreport', 'createreport', 'cancelreport',
            'updatedreport'}
VENS = ['v1', 'V1', 'ven-2', '07', '7', 'true', 'A&<b>', 'né', 'VTN1']
CODES = {'450': 'OutOfSequenceError', '451': 'NotAllowedError', '452': 'InvalidIdError', '453': 'NotRecognizedError',
         '454': 'InvalidDataError', '459': 'ComplianceError', '460': 'SignalNotSupportedError',
         '461': 'ReportNotSupportedError', '462': 'TargetMismatchError', '463': 'NotRegisteredOrAuthorizedError',
         '469': 'DeploymentError'}
MEAS = wire.MEASUREMENTS
BAD = ['ctype', 'notxml', 'empty', 'schema', 'root', 'cut', 'extra', 'order']
FORMS = ['plain', 'plain', 'plain', 'latin1', 'utf16', 'prefixes', 'comment', 'comment3', 'ws', 'bom', 'wsval', 'ctype']


def tstamp(x):
    return wire.num((x - vclock.EPOCH).total_seconds())


def secs(x):
    return None if x is None else int(x.total_seconds())


# ------------------------------------------------------------------ messages
def report_seen(report):
    """what a full-mode handler is given, canonical"""
    def meas(m):
        return None if m is None else [m.get('description'), m.get('unit'),
                                       m.get('scale') if m.get('scale') is not None else m.get('pulse_factor')]
    try:
        return json.dumps([report['report_specifier_id'], report['report_name'],
                           [[d['r_id'], (d.get('report_data_source') or {}).get('resource_id'), d['report_type'],
                             d['reading_type'], meas(d.get('measurement')),
                             secs((d.get('sampling_rate') or {}).get('min_period')),
                             secs((d.get('sampling_rate') or {}).get('max_period'))]
                            for d in report['report_descriptions']]])
    except Exception as err:
        return f'unreadable {err!r}'


def report_given(rep, w):
    return json.dumps([rep['spec'], rep['name'],
                       [[d['r_id'], d['resource'], d['type'], d['reading'],
                         None if d['meas'] is None else [d['meas']['description'], d['meas']['unit'],
                                                         d['meas'].get('scale') or int(d['meas']['pulse'])],
                         d['min'], d['max']] for d in w]])


def offer_seen(a):
    return json.dumps([a['resource_id'], a['measurement'], a['unit'], a['scale'], secs(a['min_sampling_interval']),
                       secs(a['max_sampling_interval'])])


def offer_given(rep, d):
    if rep['name'] == 'METADATA_TELEMETRY_STATUS':
        m = ['Status', None, None]
    else:
        m = [None] * 3 if d['meas'] is None else [d['meas'][k] if k in d['meas'] else None
                                                  for k in ('description', 'unit', 'scale')]
    return json.dumps([d['resource']] + m + [d['min'], d['max']])


def fill(rng, p):
    """Complete a message of the specification with concrete content; -> what is needed to build it"""
    w = {'form': rng.choice(FORMS), 'seed': rng.randrange(10 ** 9), 'inner': rng.choice(['', 'in-1', p['rq']])}
    k = p['kind']
    if k == 'create':
        w['who'] = {'ven_name': rng.choice(['name', 'n & m', '12', 'ünï']), 'report_only': rng.random() < .3,
                    'xml_signature': rng.random() < .3, 'pull': rng.random() < .6,
                    'transport': rng.choice(['simpleHttp', 'xmpp']), 'address': rng.choice(['', 'http://a/b?c=d&e', '12', '007'])}
        p['who'] = json.dumps(w['who'], sort_keys=True)
    elif k == 'regreport':
        w['reports'] = []
        for rep in p['reports']:
            rds = []
            for d in rep['rds']:
                status = rep['name'] == 'METADATA_TELEMETRY_STATUS'
                lo = rng.choice([1, 10, 60, 900, None])
                c = {'r_id': d['r'], 'resource': rng.choice(['dev', 'dev-' + d['r'], '07', None]),
                     'type': 'x-status' if status else rng.choice(['usage', 'reading', 'x-own']),
                     'reading': d['reading'], 'meas': None if status or rng.random() < .1 else rng.choice(MEAS),
                     'min': lo, 'max': lo and lo * rng.choice([1, 6]), 'onchange': rng.random() < .3,
                     'context': rng.choice([None, 'http://m'])}
                rds.append(c)
                d['d'] = offer_given(rep, c)
            rep['d'] = report_given(rep, rds)
            w['reports'].append({'spec': rep['spec'], 'name': rep['name'], 'duration': rng.choice([None, 3600]),
                                 'rds': rds, 'req': rng.choice([0, 'x'])})
    elif k == 'update':
        w['names'] = [rng.choice([None, 'TELEMETRY_USAGE', 'TELEMETRY_STATUS']) for _ in p['reports']]
        w['dur'] = rng.choice([None, 10])
    return w


def build(p, w, driver):
    """-> (body, headers)"""
    k, ven, rq = p['kind'], p['ven'] or None, p['rq']
    rng = random.Random(w['seed'])
    inner = w['inner']
    if k == 'bad':
        x = wire.poll(rng.choice(VENS))
        h = None
        b = p['what']
        if b == 'ctype':
            c = rng.choice(['text/plain', 'application/json', 'text/xml', 'xapplication/xml', ''])
            h = {'content-type': c} if c else {}
        elif b == 'notxml':
            x = rng.choice(['hello', '{"a": 1}', '<a>', '\x00\x01', '<?xml version="1.0"?>'])
        elif b == 'empty':
            x = ''
        elif b == 'schema':
            x = rng.choice([x.replace('venID', 'venXD'), x.replace('2.0b"', '2.0b" foo="bar"'),
                            x.replace('<ei:venID>', '<ei:venID>a</ei:venID><ei:venID>'),
                            x.replace('oadrPoll', 'oadrPull')])
        elif b == 'root':
            x = rng.choice(['<?xml version="1.0"?><html/>', '<oadrPayload/>',
                            '<oadr:oadrPayload xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07"/>'])
        elif b == 'cut':
            x = x[:rng.randrange(10, len(x) - 1)]
        elif b == 'extra':
            x = x + rng.choice(['x', x])
        elif b == 'order':
            x = wire.update_report('a', 'v', []).replace('<pyld:requestID>a</pyld:requestID>', '')
        return x, h
    if k == 'query':
        x = wire.query_registration(rq)
    elif k == 'create':
        x = wire.create_party_registration(rq, ven_id=ven, registration_id=rng.choice([None, 'old']), **w['who'])
    elif k == 'cancelreg':
        x = wire.cancel_party_registration(rq, p['reg'], ven)
    elif k == 'regreport':
        x = wire.register_report(rq, ven, w['reports'])
    elif k == 'createdreport':
        x = wire.created_report(inner, ven, json.loads(p['ids']))
    elif k == 'registeredreport':
        x = wire.registered_report(inner, ven, [])
    elif k == 'update':
        x = wire.update_report(rq, ven, [
            {'req': driver.uuid(r['req']), 'spec': 's', 'name': n,
             'intervals': [{'t': int(i['t']), 'r_id': i['r'], 'value': i['v'], 'dur': w['dur']} for i in r['iv']]}
            for r, n in zip(p['reports'], w['names'])])
    elif k == 'poll':
        x = wire.poll(ven)
    elif k == 'reqevent':
        x = wire.request_event(ven, rq, rng.choice([None, 1, 99]))
    elif k == 'createdevent':
        x = wire.created_event(ven, p['resps'], inner)
    elif k == 'resp':
        x = wire.response(ven, rng.choice([200, 452]), inner)
    elif k == 'canceledreg':
        x = wire.canceled_party_registration(inner, 'reg', ven)
    elif k == 'distribute':
        x = wire.distribute_event(rq, [], p['vtn'], rng.choice([None, inner]))
    elif k == 'createdpartyreg':
        x = wire.created_party_registration(inner, 'reg', ven, p['vtn'], 10)
    elif k == 'rereg':
        x = wire.request_reregistration(ven)
    elif k == 'createreport':
        x = wire.create_report(rq, ven, [{'req': 'a', 'spec': 's', 'gran': 10, 'back': 20, 'items': [{'r_id': 'x'}]}])
    elif k == 'cancelreport':
        x = wire.cancel_report(rq, ['a'], False, ven)
    elif k == 'updatedreport':
        x = wire.updated_report(inner, ven)
    elif k == 'canceledreport':
        x = wire.canceled_report(inner, ven, ['a'])
    elif k == 'createopt':
        x = wire.create_opt(rq, ven, 'o1')
    elif k == 'cancelopt':
        x = wire.cancel_opt(rq, ven, 'o1')
    elif k == 'createdopt':
        x = wire.created_opt(inner, 'o1')
    f = w['form']
    h = None
    if f == 'latin1':
        x = x.replace('encoding="utf-8"', 'encoding="iso-8859-1"').encode('latin-1', 'xmlcharrefreplace')
    elif f == 'utf16':
        x = x.replace('encoding="utf-8"', 'encoding="utf-16"').encode('utf-16')
    elif f == 'prefixes':
        for q in ('oadr', 'ei', 'pyld', 'emix', 'xcal', 'strm', 'power', 'scale'):
            x = x.replace(f'<{q}:', f'<{q}9:').replace(f'</{q}:', f'</{q}9:').replace(f'xmlns:{q}=', f'xmlns:{q}9=')
            x = x.replace(f' {q}:', f' {q}9:')
    elif f == 'comment':
        x = x.replace('<oadr:oadrSignedObject', '<!-- a comment --><oadr:oadrSignedObject', 1)
    elif f == 'comment3':
        x = re.sub(r'(<ei:venID>)', r'\1<!-- a -->', x)
    elif f == 'ws':
        x = x.replace('><', '>\n   <')
    elif f == 'wsval':
        x = re.sub(r'<ei:venID>(.*?)</ei:venID>', r'<ei:venID> \1 </ei:venID>', x)
    elif f == 'bom':
        x = b'\xef\xbb\xbf' + x.encode()
    elif f == 'ctype':
        h = {'content-type': rng.choice(['application/xml; charset=utf-8', 'Application/XML', 'application/xml;x=y'])}
    return x, h


# ------------------------------------------------------------------ the server and its application
NOANS = {'t': '', 'code': '', 'rq': '', 'ven': '', 'vtn': '', 'poll': -1, 'reg': '', 'reqs': [], 'evs': [], 'pay': ''}


class Driver:
    """loop: to share a loop with others; tag tells the drivers of one loop apart"""

    def __init__(self, cfg, opts, loop=None, tag=''):
        self.own = loop is None
        self.loop = loop or vclock.new_loop(0.0)
        self.cfg, self.opts, self.tag = cfg, opts, tag
        from openleadr import OpenADRServer, objects, errors
        self.O, self.errors = objects, errors
        self.known, self.script, self.calls, self.stray, self.now = {}, [], {}, [], {}
        self.uuids = {}      # what the server chose -> q<n>
        self.counts = {}
        kw = {'ven_lookup': self.lookup(opts['lookup'])} if cfg['lookup'] else {}
        at = vtn.some_prefix(cfg, vclock.offset())
        s = OpenADRServer(http_path_prefix=at, vtn_id=cfg['vtn'], requested_poll_freq=timedelta(seconds=cfg['poll']), **kw)
        self.server = s
        if not cfg['bare']:
            if cfg['qh']:
                s.add_handler('on_query_registration', self.handler('query', lambda p: ('', p['request_id'])))
            s.add_handler('on_create_party_registration', self.handler('create', self.seen_create))
            s.add_handler('on_cancel_party_registration',
                          self.handler('cancel', lambda p: (p.get('ven_id') or '', p['registration_id'])))
            if cfg['crh']:
                s.add_handler('on_created_report', self.handler('created_report', self.seen_created))
            if cfg['urh']:
                s.add_handler('on_update_report', self.handler('update', self.seen_update))
        if cfg['mode'] == 'full':
            s.add_handler('on_register_report', self.handler('offer', lambda report: ('', report_seen(report))))
        elif cfg['mode'] == 'compact':
            s.add_handler('on_register_report', self.compact())
        if cfg['ext']:
            s.add_handler('on_poll', self.handler('poll', lambda ven_id: (ven_id, '')))
            s.add_handler('on_request_event', self.handler('reqevent', lambda ven_id: (ven_id, '')))
            s.add_handler('on_created_event', self.handler(
                'created', lambda ven_id, event_id, opt_type: (ven_id, f'{event_id}|{opt_type}')))
        self.rq = vtn.Requests(self.loop, s.app, at)
        self.seen, self.bodies, self.hooks = {}, {}, []
        if cfg['hooks']:
            self.add_hooks(opts['hooks'])

    # ---- application code
    def add_hooks(self, style):
        from openleadr import hooks
        late, bad = style

        def add(point, f):
            hooks.register(point, f)
            self.hooks.append((hooks.HOOKS[point], f))

        def recorder(point):
            def record(*args):
                if vtn.PID.get() in self.seen:
                    self.seen[vtn.PID.get()].append((point, args))

            async def later(*args):
                record(*args)
            return later if late else record

        def fail(*args):
            raise RuntimeError('hook fails')

        async def fail_later(*args):
            raise RuntimeError('hook fails')
        for point in ('before_parse', 'before_handle', 'after_handle', 'before_respond'):
            for x in bad:
                add(point, {'r': recorder(point), 'f': fail, 'l': fail_later}[x])

    def hooked(self, pid, reply):
        """which hooks were called for a request; with a mark if they saw something else than what came and went"""
        out, ours = [], {'before_parse': 'parse', 'before_handle': 'handle', 'after_handle': 'handled', 'before_respond': 'respond'}
        body = self.bodies.pop(pid)
        body = body.encode() if isinstance(body, str) else body
        for point, args in self.seen.pop(pid):
            try:
                if point == 'before_parse':
                    ok = args == (body,)
                elif point == 'before_handle':
                    ok = args[0] == wire.read(body).type and isinstance(args[1], dict)
                elif point == 'after_handle':
                    ok = args[0] == wire.read(reply.body).type and isinstance(args[1], dict)
                else:
                    ok = len(args) == 1 and (args[0] or '').encode() == reply.body
            except Exception as err:
                ok, out = False, out + [repr(err)]
            out.append(ours[point] + ('' if ok else f'! {args!r}'[:300]))
        return out

    def lookup(self, style):
        def find(ven_id):
            k = self.known.get(ven_id, 'none')
            if k == 'raise':
                raise RuntimeError('no database')
            i = len(ven_id) % 2
            return {'none': None, 'noreg': [{}, {'ven_id': ven_id, 'registration_id': None}][i],
                    'reg': {'ven_id': ven_id, 'registration_id': 'reg1', 'ven_name': 'x'}}[k]
        if style == 'async':
            async def look(ven_id):
                await asyncio.sleep(.3)
                return find(ven_id)
            return look
        return lambda ven_id: find(ven_id)

    def note(self, h, ven, x, vals=()):
        pid = vtn.PID.get()
        text = lambda v: v if isinstance(v, str) else repr(v)
        c = {'h': h, 'ven': text(ven), 'x': text(x), 'vals': [{k: text(v) for k, v in i.items()} for i in vals]}
        if pid is None or pid not in self.calls:
            self.stray.append(c)
            return None
        self.calls[pid].append(c)
        return self.now[pid]

    @staticmethod
    def seen_create(p):
        b = lambda x: x
        return (p.get('ven_id') or '', json.dumps({
            'ven_name': p.get('ven_name'), 'report_only': b(p.get('report_only')),
            'xml_signature': b(p.get('xml_signature')), 'pull': b(p.get('http_pull_model')),
            'transport': p.get('transport_name'), 'address': p.get('transport_address') or ''}, sort_keys=True))

    @staticmethod
    def seen_created(p):
        return p.get('ven_id') or '', json.dumps([x['report_request_id'] for x in p.get('pending_reports') or []])

    def seen_update(self, report):
        iv = report.get('intervals') or []
        return '', self.uuids.get(report['report_request_id'], report['report_request_id']), [
            {'t': tstamp(i['dtstart']), 'v': wire.num(i['report_payload']['value'])} for i in iv]

    def handler(self, h, see):
        """A handler that records what it sees and then does what the message's outcome says"""
        def first(args, kw):
            try:
                ven, x, *vals = see(*args, **kw)
            except Exception as err:
                ven, x, vals = '', f'unreadable {err!r} {args!r} {kw!r}'[:300], []
            return self.note(h, ven, x, *vals)
        return self.shaped(first, lambda now: self.outcome(h, now), see)

    def shaped(self, first, result, like=None):
        style = self.opts['style']
        lag = self.opts['lag']

        async def rest(now):
            await asyncio.sleep(lag * (1 + len(now[0]['ven']) % 3) if now else 0)
            return result(now)

        def sync(*args, **kw):
            now = first(args, kw)
            if style == 'coro' and now is not None:
                return rest(now)
            return result(now)

        async def asyn(*args, **kw):
            return await rest(first(args, kw))
        f = asyn if style == 'async' else sync
        if like is not None:
            f = functools.wraps(like)(f)      # the arguments decide about the style of some handlers
            f.__dict__.pop('__wrapped__', None)
        return f

    def compact(self):
        def first(a):
            return self.note('offer', a['ven_id'], offer_seen(a))

        def result(now, n):
            if now is None:
                return None
            p, w = now
            if n == 0:
                self.fail(p)
            ds = [d for rep in p['reports'] if rep['name'] in ('METADATA_TELEMETRY_USAGE', 'METADATA_TELEMETRY_STATUS')
                  for d in rep['rds']]
            if n >= len(ds):
                return None
            return self.wanted(ds[n]['res'], random.Random(w['seed'] + n), ())

        def count():
            pid = vtn.PID.get()
            self.counts[pid] = self.counts.get(pid, -1) + 1
            return self.counts[pid]
        style, lag = self.opts['style'], self.opts['lag']

        async def rest(now, n):
            await asyncio.sleep(lag * (1 + n % 3))
            return result(now, n)

        async def slow(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            return await rest(first(locals()), count())

        def fast(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            now, n = first(locals()), count()
            if style == 'coro' and n % 3 != 1:
                return rest(now, n)
            return result(now, n)
        return slow if style == 'async' else fast

    def wanted(self, res, rng, head):
        """what the application returns for one data point"""
        td = lambda x: timedelta(seconds=x)
        k = res['k']
        if k == 'ok':
            return head + (self.callback(res['cb'], rng), td(res['samp'])) + ((td(res['back']),) if res['back'] >= 0 else ())
        if k == 'none':
            return None
        f = self.callback('cb-never', rng)
        return rng.choice([head + x for x in [(), (f,), (f, 10), (f, '10'), (f, None), ('f', td(10)), (None, td(10)),
                                              (f, td(10), 20), (f, td(10), td(10), td(10))]]
                          + [[f, td(10)], 'x', 5, False, {'a': 1}])

    def callback(self, name, rng):
        def first(args, kw):
            try:
                vals = [{'t': tstamp(t), 'v': wire.num(v)} for t, v in args[0]]
            except Exception as err:
                vals = [{'t': 'unreadable', 'v': f'{err!r} {args!r} {kw!r}'[:300]}]
            return self.note(name, '', '', vals)

        def result(now):
            if now is not None:
                pid = vtn.PID.get()
                if len(self.calls.get(pid, ())) == 1:
                    self.fail(now[0])

        async def slow(*args, **kw):
            now = first(args, kw)
            await asyncio.sleep(.7)
            return result(now)

        def fast(*args, **kw):
            return result(first(args, kw))

        def coro(*args, **kw):
            now = first(args, kw)

            async def rest():
                await asyncio.sleep(.2)
                return result(now)
            return rest()
        return rng.choice([slow, fast, coro, lambda data: fast(data), functools.partial(fast)])

    def fail(self, p):
        r = p['r']
        if r['k'] == 'exc':
            raise random.Random(len(p['ven'])).choice([RuntimeError, ValueError, KeyError, TypeError])('application fails')
        if r['k'] == 'perr':
            cls = getattr(self.errors, CODES[r['code']])
            raise cls()

    def outcome(self, h, now):
        if now is None:
            return None
        p, w = now
        self.fail(p)
        k, r = r_k = p['r']['k'], p['r']
        rng = random.Random(w['seed'])
        if h == 'query':
            return ('oadrCreatedPartyRegistration',
                    {'profiles': [{'profile_name': '2.0b', 'transports': [{'transport_name': 'simpleHttp'}]}],
                     'requested_oadr_poll_freq': timedelta(seconds=r['poll'])})
        if h == 'create':
            return {'ok': (r.get('ven'), r.get('reg')), 'none': None, 'false': False,
                    'three': ('a', 'b', 'c'), 'true': True}[k]
        if h == 'cancel':
            return ('oadrCanceledPartyRegistration', {'registration_id': r['reg']}) if k == 'ok' else None
        if h == 'offer':        # full style
            n = sum(1 for c in self.calls[vtn.PID.get()]) - 1
            reps = [x for x in p['reports'] if x['name'] in ('METADATA_TELEMETRY_USAGE', 'METADATA_TELEMETRY_STATUS')]
            if n >= len(reps):
                return None
            f = reps[n]['full']
            if f['k'] == 'none':
                return None
            es = [self.wanted(e, rng, (e['r'],)) for e in f['es']]
            if f['k'] == 'list':
                return es
            return rng.choice([tuple(es), 'x', 7, {'a': es}, True])
        if h in ('poll', 'reqevent'):
            if k == 'none':
                return rng.choice([None, ('oadrResponse', {}), ('oadrResponse', None)]) if h == 'poll' else None
            if k == 'events':
                evs = [self.event(e, rng) for e in r['evs']]
                if len(evs) == 1 and rng.random() < .6:
                    return evs[0]
                return ('oadrDistributeEvent', {'events': evs}) if h == 'poll' and rng.random() < .2 else evs
            if k == 'msg':
                return {'oadrRequestReregistration': ('oadrRequestReregistration', {'ven_id': p['ven']}),
                        'oadrCancelPartyRegistration': ('oadrCancelPartyRegistration',
                                                        {'registration_id': r['pay'], 'ven_id': p['ven']}),
                        'oadrCancelReport': ('oadrCancelReport', {'report_request_id': r['pay'],
                                                                  'report_to_follow': False, 'ven_id': p['ven']}),
                        'oadrCreateReport': ('oadrCreateReport', {'ven_id': p['ven'], 'report_requests': [
                            {'report_request_id': r['pay'], 'report_specifier': {
                                'report_specifier_id': 'sp', 'granularity': timedelta(seconds=10),
                                'report_back_duration': timedelta(seconds=20),
                                'specifier_payloads': [{'r_id': 'x', 'reading_type': 'Direct Read'}]}}]})}[r['t']]
        return None

    def event(self, e, rng):
        from dataclasses import asdict
        O = self.O
        t = vclock.VDatetime._mk(vclock.EPOCH + timedelta(seconds=e['start']))
        ev = O.Event(event_descriptor=O.EventDescriptor(event_id=e['id'], modification_number=e['mod'],
                                                        market_context='http://m', event_status=e['st'],
                                                        priority=e['prio']),
                     event_signals=[O.EventSignal(signal_name='SIMPLE', signal_type='level', signal_id='s', intervals=[
                         O.Interval(dtstart=t, duration=timedelta(seconds=e['dur']), signal_payload=1)])],
                     targets=[O.Target(ven_id='v')],
                     active_period=O.ActivePeriod(dtstart=t, duration=timedelta(seconds=e['dur'])))
        if rng.random() < .5:
            return ev
        ev = asdict(ev)
        ev['event_descriptor']['event_status'] = e['st']
        return ev

    # ---- driving
    def uuid(self, q):
        for u, name in self.uuids.items():
            if name == q:
                return u
        return q

    def launch(self, a, spec):
        self.script.append([a, spec])
        self.a = a
        if a['op'] == 'know':
            self.known[a['v']] = a['k']
        elif a['op'] == 'add':
            try:
                self.server.add_event(ven_id=a['v'], signal_name='SIMPLE', signal_type='level', intervals=[
                    {'dtstart': vclock.VDatetime.now(timezone.utc) + timedelta(days=30),
                     'duration': timedelta(seconds=60), 'signal_payload': 1}])
            except Exception as err:
                self.stray.append({'h': 'add', 'ven': '', 'x': repr(err), 'vals': []})
        else:
            self.pids = []
            for n, (p, w) in enumerate(zip(a['posts'], spec['posts'])):
                pid = f'{self.tag}{len(self.script)}.{n}'
                self.pids.append(pid)
                self.calls[pid], self.now[pid] = [], (p, w)
                body, headers = build(p, w, self)
                self.seen[pid], self.bodies[pid] = [], body
                self.rq.start(pid, p['svc'], body, headers=headers)

    def busy(self):
        return self.a['op'] == 'post' and len(self.rq.order) < len(self.pids)

    def run(self):
        t = vclock.Clock.t
        for n in range(3000):
            if not self.busy():
                break
            self.loop.advance_to(t + n)

    def collect(self):
        posts, a = [], self.a
        if a['op'] == 'post':
            done = dict(self.rq.finished())
            answers = []
            for pid, p in zip(self.pids, a['posts']):
                answers.append(self.answer(p, done.get(pid)))
            for pid, ans in zip(self.pids, answers):
                posts.append({'ans': ans, 'calls': self.calls.pop(pid), 'free': False,
                              'hooks': self.hooked(pid, done.get(pid))})
                self.now.pop(pid)
        stray, self.stray = self.stray, []
        return {'posts': posts, 'stray': stray}

    def answer(self, p, reply):
        ans = dict(NOANS, reqs=[])
        if reply is None:
            ans['t'] = 'PENDING'
            return ans
        if reply.status != 200:
            ans['t'] = f'HTTP{reply.status}'
            return ans
        if not reply.body:
            ans['t'] = 'EMPTY'
            return ans
        m = wire.read(reply.body)
        ans['t'] = m.type if m.valid else 'INVALID'
        if not m.valid:
            ans['pay'] = str(m.why)[:200]
            return ans
        if reply.content_type != 'application/xml':
            ans['t'] += ' as ' + reply.content_type
        ans.update(code=m.code or '', rq=m.response_id or '', ven=m.ven_id or '', vtn=m.vtn_id or '')
        if m.type in ('oadrCreatedPartyRegistration', 'oadrCanceledPartyRegistration'):
            ans['reg'] = m.registration_id or ''
        if m.poll is not None:
            ans['poll'] = m.poll
        if m.type == 'oadrRegisteredReport':
            for r in m.requests:
                if r['req'] not in self.uuids:
                    self.uuids[r['req']] = f'q{len(self.uuids) + 1}'
                ans['reqs'].append({'q': self.uuids[r['req']], 'spec': r['spec'], 'gran': -1 if r['gran'] is None else r['gran'],
                                    'back': -1 if r['back'] is None else r['back'],
                                    'items': [{'r': i['r_id'], 'reading': i['reading']} for i in r['items']]})
        elif m.type == 'oadrDistributeEvent':
            ans['evs'] = [{'id': e['id'], 'mod': e['mod'], 'st': e['status'], 'prio': int(e['prio'] or 0),
                           'start': e['start'], 'dur': e['dur']} for e in m.events]
        elif m.type == 'oadrCancelPartyRegistration':
            ans['pay'] = m.registration_id or ''
        elif m.type == 'oadrCreateReport':
            ans['pay'] = ','.join(r['req'] for r in m.requests)
        elif m.type == 'oadrCancelReport':
            ans['pay'] = ','.join(k.text or '' for k in wire.kids(wire.at(wire.etree.fromstring(reply.body),
                                                                          'oadrSignedObject/oadrCancelReport'), 'reportRequestID'))
        return ans

    def do(self, a, spec=None):
        self.launch(a, spec)
        self.run()
        return self.collect()

    def close(self):
        for hooks, f in self.hooks:
            hooks.remove(f)
        self.rq.close()
        if self.own:
            vtn.close_loop(self.loop)


def mk_opts(rng):
    return {'style': rng.choice(['sync', 'async', 'coro']), 'lag': rng.choice([0, .1, .5]),
            'lookup': rng.choice(['sync', 'async']),
            'hooks': [rng.random() < .5, rng.choice(['r', 'r', 'fr', 'lr', 'rfl'])]}


def mk_cfg(rng, focus=''):
    return {'vtn': rng.choice(['VTN1', 'vtn-a', 'My & VTN', '07', '1.0', 'true']), 'poll': rng.choice([10, 60, 3600, 86400 * 3]),
            'lookup': rng.random() < (.9 if focus == 'C11' else .5),
            'ext': rng.random() < (1 if focus == 'C23' else .4),
            'mode': rng.choice(['compact', 'compact', 'full', 'full', 'none'] if focus not in ('C12', 'C15')
                               else ['compact', 'full']),
            'bare': rng.random() < .1, 'qh': rng.random() < .3, 'crh': rng.random() < .5, 'urh': rng.random() < .5,
            'hooks': rng.random() < .4}


# ------------------------------------------------------------------ random executions
class Chooser:
    def __init__(self, rng, cfg, focus):
        self.rng, self.cfg, self.focus = rng, cfg, focus
        self.n = self.ncb = 0
        self.bulk = rng.random() < .05     # large numbers
        self.made = []        # (q, [r ids]) that were requested
        self.vens = rng.sample(VENS, rng.choice([1, 2, 4]))

    def outcome(self, kinds, **kw):
        r = self.rng
        x = r.random()
        if x < .08:
            return {'k': 'exc', 'code': ''}
        if x < .16:
            return {'k': 'perr', 'code': r.choice(list(CODES))}
        return dict({'k': r.choice(kinds), 'code': ''}, **kw)

    def many(self, *few):
        if self.bulk and self.rng.random() < .5:
            return self.rng.choice([9, 11, 16, 26, 40])
        return self.rng.choice(few)

    def evs(self, n):
        r = self.rng
        out = []
        ids = ['e1', '02', 'x & y', 'e4', 'e5'] + [f'n{i}' for i in range(n)]
        for i, k in zip(ids if n > 5 else r.sample(ids[:5], n), r.sample(range(20 + n), n)):
            on = r.random() < .4
            out.append({'id': i, 'mod': r.choice([0, 1, 7]), 'st': 'cancelled' if r.random() < .1 else 'active' if on else 'far',
                        'prio': r.choice([0, 0, 1, 2, 9]), 'start': -9000 + 60 * k if on else 90000 + 60 * k,
                        'dur': 360000 if on else r.choice([0, 60, 3600])})
        return out

    def res(self):
        r = self.rng
        k = r.choice(['ok', 'ok', 'ok', 'none', 'bad'])
        self.ncb += 1
        return {'k': k, 'cb': f'cb{self.ncb}', 'samp': r.choice([1, 10, 10, 60, 900]), 'back': -1}

    def post(self):
        r, cfg = self.rng, self.cfg
        kinds = {'C09': ['create', 'query'], 'C10': ['cancelreg'], 'C11': list(HOME), 'C12': ['regreport'],
                 'C15': ['update', 'update', 'regreport'], 'C23': ['poll', 'reqevent', 'createdevent'],
                 'C20': list(HOME) + ['bad']}.get(self.focus, list(HOME))
        if r.random() < .5:
            k = r.choice(kinds)
        else:
            k = r.choice(list(HOME) * 2 + OTHER + ['bad', 'bad', 'resp'])
        ven = r.choice(self.vens) if r.random() < .9 else 'stranger'
        if k in NOVEN or (k in MAYBEVEN and r.random() < .1):
            ven = ''
        self.n += 1
        p = {'svc': HOME.get(k, r.choice(SERVICES)) if r.random() < .92 else r.choice(SERVICES), 'kind': k, 'ven': ven,
             'vtn': '', 'rq': r.choice([f'rq{self.n}', str(self.n), 'same', 'a & b', f'00{self.n}', '1.50', 'true']) if k in ECHO else '',
             'r': {'k': 'none', 'code': ''}}
        if k in ('distribute', 'createdpartyreg'):
            p['vtn'] = r.choice([cfg['vtn']] * 3 + [x for x in ('other', cfg['vtn'].lower(), cfg['vtn'].upper(), cfg['vtn'] + '1', cfg['vtn'][:-1], cfg['vtn'].lstrip('0')) if x != cfg['vtn']])
        if k == 'bad':
            p.update(what=r.choice(BAD), ven='')
        elif k == 'query':
            p['r'] = self.outcome(['ok'], poll=r.choice([5, 77]))
        elif k == 'create':
            p['r'] = self.outcome(['ok', 'ok', 'ok', 'none', 'false', 'three', 'true'], ven=r.choice(VENS),
                                  reg=r.choice(['reg1', '12', 'a&b']))
        elif k == 'cancelreg':
            p['reg'] = r.choice(['reg1', '12', 'other & more'])
            p['r'] = self.outcome(['none', 'none', 'ok'], reg='mine')
        elif k == 'regreport':
            p['r'] = self.outcome(['ok'])
            p['reports'] = []
            for i in range(self.many(0, 1, 1, 2, 3)):
                rids = r.sample(['a', 'b', '03', 'd & e', 'true'], r.choice([1, 2, 3, 5]))
                if len(p['reports']) < 2:
                    rids += [f'm{j}' for j in range(self.many(0))]
                back = r.choice([-1, 60, 3600])
                rds = [{'r': x, 'reading': r.choice(['Direct Read', 'Net', 'Mean']), 'res': self.res()} for x in rids]
                for d in rds:
                    d['res']['back'] = r.choice([-1, back])
                es = [dict(self.res(), r=x) for x in r.sample(rids + ['nope'], r.randint(0, len(rids) + 1))]
                for x in es:
                    x['back'] = r.choice([-1, back])
                p['reports'].append({'spec': f'sp{i}' if r.random() < .8 else '7', 'name': r.choice(
                    ['METADATA_TELEMETRY_USAGE'] * 4 + ['METADATA_TELEMETRY_STATUS'] * 2 +
                    ['METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON', 'x-own']),
                    'rds': rds, 'full': {'k': r.choice(['list'] * 6 + ['none', 'notlist']), 'es': es}})
        elif k == 'createdreport':
            p['ids'] = json.dumps(r.sample(['q1', 'a', '2'], r.choice([0, 1, 2])))
            p['r'] = self.outcome(['ok'])
        elif k == 'update':
            p['r'] = self.outcome(['ok'])
            p['reports'] = []
            for _ in range(self.many(0, 1, 1, 2, 3)):
                q, rids = r.choice(self.made) if self.made and r.random() < .85 else ('nothing', ['a', 'b'])
                rids = rids + r.sample(['a', 'b', 'nope'], 1)
                iv = []
                t = r.choice([0, -100, 50])
                for _ in range(self.many(0, 1, 2, 3, 6)):
                    iv.append({'t': str(t), 'r': r.choice(rids), 'v': r.choice(['0', '1', '2.5', '-3', '1000000', '0.5', 'NaN', 'INF', '-INF', '-0.125'])})
                    t += r.choice([0, 10, 10, -5])
                p['reports'].append({'req': q, 'iv': iv})
        elif k == 'poll':
            p['r'] = self.outcome(['none', 'events', 'events', 'msg'])
            if p['r']['k'] == 'events':
                p['r']['evs'] = self.evs(self.many(1, 1, 2, 3))
            elif p['r']['k'] == 'msg':
                t = r.choice(['oadrRequestReregistration', 'oadrCancelPartyRegistration', 'oadrCancelReport', 'oadrCreateReport'])
                p['r'].update(t=t, pay='' if t == 'oadrRequestReregistration' else r.choice(['id1', '07', 'a & b']))
        elif k == 'reqevent':
            p['r'] = self.outcome(['none', 'events', 'events'])
            if p['r']['k'] == 'events':
                p['r']['evs'] = self.evs(self.many(1, 1, 2, 3, 5))
                if r.random() < .3:      # the statuses are out of date
                    for e in p['r']['evs']:
                        e['st'] = r.choice(['far', 'near', 'active', e['st']])
        elif k == 'createdevent':
            p['r'] = self.outcome(['ok'])
            p['resps'] = [{'id': r.choice(['e1', '02', 'a & b']), 'mod': r.choice([0, 2]), 'opt': r.choice(['optIn', 'optOut'])}
                          for _ in range(self.many(0, 1, 1, 2, 3))]
        return p

    def action(self):
        r = self.rng
        x = r.random()
        if self.cfg['lookup'] and x < .2:
            return {'op': 'know', 'v': r.choice(self.vens + ['stranger', self.vens[0].swapcase()]), 'k': r.choice(['none', 'noreg', 'reg', 'reg', 'reg', 'raise'])}
        if self.cfg['ext'] and x > .95:
            return {'op': 'add', 'v': r.choice(self.vens)}
        posts = [self.post() for _ in range(r.choice([1, 1, 1, 2, 3]))]
        if not self.made and any(p['kind'] == 'regreport' for p in posts):
            posts = [p for p in posts if p['kind'] != 'update']
        return {'op': 'post', 'posts': posts}

    def learn(self, o):
        for p in o['posts']:
            for q in p['ans']['reqs']:
                self.made.append((q['q'], [i['r'] for i in q['items']]))
        del self.made[:-6]


def finish(d, cfg, opts, steps, fn, arg):
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_vtnservice', 'fn': fn, 'arg': arg, 'script': d.script,
                                                 'cfg': cfg, 'opts': opts}}


def random_trace(arg):
    rng = rng_for('vtnservice', arg['seed'], arg['n'], arg['focus'])
    cfg, opts = mk_cfg(rng, arg['focus']), mk_opts(rng)
    cfg['hooks'] = cfg['hooks'] and arg.get('hooks', True)
    d = Driver(cfg, opts)
    ch = Chooser(rng, cfg, arg['focus'])
    steps = []
    try:
        if cfg['lookup']:
            for v in ch.vens:
                if rng.random() < .8:
                    a = {'op': 'know', 'v': v, 'k': 'reg'}
                    steps.append({'a': a, 'o': d.do(a)})
        for _ in range(arg['steps']):
            a = ch.action()
            spec = {'posts': [fill(rng, p) for p in a['posts']]} if a['op'] == 'post' else None
            o = d.do(a, spec)
            ch.learn(o)
            steps.append({'a': a, 'o': o})
    finally:
        d.close()
    return finish(d, cfg, opts, steps, 'random_trace', arg)


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}"""
    rng = rng_for('vtnservice-replay', arg['seed'], arg['n'])
    cfg, opts = dict(arg['b'][0]['cfg']), mk_opts(rng)
    cfg['hooks'] = cfg['hooks'] and arg.get('hooks', True)
    d = Driver(cfg, opts)
    steps = []
    try:
        for a in arg['b']:
            a = {k: x for k, x in a.items() if k != 'cfg'}
            spec = None
            if a['op'] == 'post':
                a['posts'] = [dict(p) for p in a['posts']]
                for p in a['posts']:
                    if p['kind'] == 'bad':
                        p['what'] = rng.choice(BAD)
                    if p['kind'] == 'createdreport':
                        p['ids'] = json.dumps(['q1'])
                spec = {'posts': [fill(rng, p) for p in a['posts']]}
            steps.append({'a': a, 'o': d.do(a, spec)})
    finally:
        d.close()
    return finish(d, cfg, opts, steps, 'replay_trace', arg)


def rerun(arg):
    """arg: {cfg, opts, script}"""
    d = Driver(arg['cfg'], arg['opts'])
    steps = []
    try:
        for a, spec in arg['script']:
            steps.append({'a': a, 'o': d.do(a, spec)})
    finally:
        d.close()
    return finish(d, arg['cfg'], arg['opts'], steps, 'rerun', arg)


def twin(prop, trace, step):
    """Messages that fail must not matter: the same execution without them, up to the mismatch"""
    if prop != 'C20':
        return None
    m = trace['meta']
    t = []
    for a, spec in m['script'][:step]:
        if a['op'] == 'post':
            keep = [(p, w) for p, w in zip(a['posts'], spec['posts'])
                    if p['kind'] not in ('bad', 'resp') and p['r']['k'] not in ('exc', 'perr') and p['svc'] == HOME.get(p['kind'])]
            a, spec = dict(a, posts=[p for p, _ in keep]), {'posts': [w for _, w in keep]}
        t.append([a, spec])
    if t == m['script'][:step] and (not m['cfg']['hooks'] or m['opts']['hooks'][1] == 'r'):
        return None
    return {'cfg': dict(m['cfg'], hooks=False), 'opts': m['opts'], 'script': t}


_RU = dict(Kinds='{"regreport", "update"}', Modes='{"compact", "full"}', MaxRds=2, Vens='{"v1"}', Lookups='{FALSE}',
           Exts='{FALSE}', Wrong='FALSE')
_GEN = dict(MaxBatch=2, MaxReps=2, MaxRds=2, Bares='{TRUE, FALSE}')
PLAN = {
    'quick': {
        'mc': [dict(MaxLen=2), dict(MaxLen=3, Vens='{"v1"}'), dict(_RU, MaxLen=5)],
        'gen': [dict(_GEN, MaxLen=12), dict(_GEN, MaxLen=12, Kinds='{"regreport", "update", "bad"}', Exts='{FALSE}',
                                            Modes='{"compact", "full"}')],
        'gen_num': 200, 'gen_depth': 12, 'random': 900, 'steps': 12},
    'thorough': {
        'mc': [dict(MaxLen=3), dict(MaxLen=4, Vens='{"v1"}'), dict(_RU, MaxLen=6),
               dict(MaxLen=1, MaxBatch=2, Vens='{"v1"}', Modes='{"compact"}')],
        'gen': [dict(_GEN, MaxLen=20), dict(_GEN, MaxLen=20, Kinds='{"regreport", "update", "bad"}', Exts='{FALSE}',
                                            Modes='{"compact", "full"}'),
                dict(_GEN, MaxLen=20, Exts='{TRUE}', Kinds='{"poll", "reqevent", "createdevent", "create", "resp"}')],
        'gen_num': 800, 'gen_depth': 20, 'random': 6000, 'steps': 30},
}
