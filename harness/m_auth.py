"""Conformance of the VTN's authentication to spec/Auth.tla: a real OpenADRServer is sent messages with all kinds of
connections, signatures, alterations and ages."""
import asyncio
import json
import os
import vtn
import vclock
import wire
import net
import xmlsig
from core import rng_for
from datetime import timedelta

TRACE_MODULE = 'TraceAuth'
MC_MODULE = 'MCAuth'
TICK = .5
HOME = {'query': 'EiRegisterParty', 'create': 'EiRegisterParty', 'cancelreg': 'EiRegisterParty', 'update': 'EiReport',
        'createdreport': 'EiReport', 'poll': 'OadrPoll', 'reqevent': 'EiEvent', 'createdevent': 'EiEvent'}
NORQ = {'poll', 'createdreport', 'createdevent'}
MAYBE = {'create', 'cancelreg', 'update'}
BENIGN = ['exclusive', 'sha384', 'sha512', 'flat', 'chain', 'order', 'comment', 'outer', 'nocomment']
EXTRA = ['second', 'noncecomment']
BROKEN = ['content', 'ven', 'wrapped', 'digest', 'digest2', 'value', 'oneref', 'onlyprops', 'stamp', 'nonce', 'hmac', 'keyinfo',
          'twocerts', 'moved', 'dropped', 'empty']
RPS = ['ok', 'missing', 'malformed', 'nostamp', 'nonce', 'both', 'emptystamp']


def text(v):
    return v if isinstance(v, str) else repr(v)


def plain(p):
    k, ven, x, rq = p['kind'], p['ven'] or None, p['x'], p['rq']
    if k == 'query':
        return wire.query_registration(rq)
    if k == 'create':
        return wire.create_party_registration(rq, ven_id=ven, ven_name=x or 'n')
    if k == 'cancelreg':
        return wire.cancel_party_registration(rq, x, ven)
    if k == 'update':
        return wire.update_report(rq, ven, [{'req': x or 'q', 'spec': 's', 'name': None, 'intervals': [
            {'t': 0, 'r_id': 'a', 'value': '1', 'dur': None}]}])
    if k == 'createdreport':
        return wire.created_report('in', ven, [x] if x else [])
    if k == 'poll':
        return wire.poll(ven)
    if k == 'reqevent':
        return wire.request_event(ven, rq)
    return wire.created_event(ven, [{'id': x or 'e', 'mod': 0, 'opt': 'optIn'}], 'in')


def build(p, prefix, base=0):
    """The same message is the same text every time"""
    x = plain(p)
    if not p['by']:
        return x
    alt, rp = p['alt'], p['rp']
    nonce = prefix + p['nonce']
    stamp = base + p['stamp'] * TICK
    kw = {}
    if rp != 'ok':
        good, n = f'<dsp:timestamp>{xmlsig.stamp_text(stamp)}</dsp:timestamp>', f'<dsp:nonce>{nonce}</dsp:nonce>'
        inner = {'missing': None, 'malformed': '<dsp:timestamp>yesterday</dsp:timestamp>' + n, 'nostamp': n, 'nonce': good,
                 'both': '', 'emptystamp': '<dsp:timestamp/>' + n}[rp]
        kw['rp'] = ('<x:nothing xmlns:x="urn:x"/>' if inner is None else
                    f'<dsp:ReplayProtect xmlns:dsp="{xmlsig.DSP}" Id="myid" Target="#mytarget">{inner}</dsp:ReplayProtect>')
    kw.update({'exclusive': {'exclusive': True}, 'sha384': {'alg': 'sha384'}, 'sha512': {'alg': 'sha512'},
               'flat': {'flat': True}, 'chain': {'chain': ('vtn',)}, 'order': {'refs': ('prop', 'object')},
               'oneref': {'refs': ('object',)}, 'onlyprops': {'refs': ('prop', 'prop')}, 'hmac': {'hmac': True},
               'keyinfo': {'keyinfo': ''}, 'twocerts': {'chain': ('mallory',)}}.get(alt, {}))
    if alt in ('content', 'ven', 'moved', 'wrapped', 'dropped'):      # another content was signed than the one that is sent
        other = dict(p, ven='v2' if p['ven'] == 'v1' else 'v1')
        if alt != 'ven':
            other.update(ven=p['ven'], x='signed', rq=p['rq'] and 'signed')
        if alt == 'moved' or plain(other) == x:
            other.update(kind='cancelreg' if p['kind'] != 'cancelreg' else 'reqevent', ven=p['ven'] or 'v1', rq='signed')
        s = xmlsig.sign(plain(other), p['by'], stamp, nonce, shown=p['shown'], **kw)
        if alt == 'wrapped':
            return xmlsig.wrap(s, x)
        c = xmlsig.content(x)
        return s.replace(xmlsig.content(s), c if alt != 'dropped' else c.replace(' oadr:Id="oadrSignedObject"', ''))
    if alt == 'nocomment':       # signed with a comment in it, sent without
        a, b = x.split('</oadr:oadrSignedObject>')
        return xmlsig.sign(a + '<!-- c --></oadr:oadrSignedObject>' + b, p['by'], stamp, nonce, shown=p['shown']
                           ).replace('<!-- c -->', '')
    if alt == 'twocerts':        # signed by somebody else, whose certificate comes second
        return xmlsig.sign(x, 'mallory' if p['by'] != 'mallory' else 'ven2', stamp, nonce, shown=p['shown'], **kw)
    s = xmlsig.sign(x, p['by'], stamp, nonce, shown=p['shown'], **kw)
    if alt in ('digest', 'digest2'):
        i = s.index('<ds:DigestValue>') if alt == 'digest' else s.rindex('<ds:DigestValue>')
        s = s[:i + 16] + ('A' if s[i + 16] != 'A' else 'B') + s[i + 17:]
    elif alt == 'value':
        i = s.index('<ds:SignatureValue>') + 19
        s = s[:i + 9] + ('A' if s[i + 9] != 'A' else 'B') + s[i + 10:]
    elif alt == 'stamp' and rp == 'ok':
        i = s.index('<dsp:timestamp>')
        s = s[:i] + '<dsp:timestamp>' + xmlsig.stamp_text(stamp + 3600) + s[s.index('</dsp:timestamp>'):]
    elif alt == 'nonce':
        s = s.replace(nonce + '<', nonce + 'x<')
    elif alt == 'empty':
        i = s.index('<ds:SignatureValue>') + 19
        s = s[:i] + s[s.index('</ds:SignatureValue>'):]
    elif alt == 'comment':
        s = s.replace('</oadr:oadrSignedObject>', '<!-- c --></oadr:oadrSignedObject>')
    elif alt == 'outer':
        s = s.replace('<ds:Signature ', '\n  <ds:Signature ', 1).replace('</ds:Signature>', '</ds:Signature>\n <!-- c -->')
    elif alt == 'second':
        s = s.replace('<ds:Object Id="prop">', '<ds:Object>' + xmlsig.protect(3600.0 * 24 * 300, nonce + 'y', 'other') +
                      '</ds:Object><ds:Object Id="prop">')
    elif alt == 'noncecomment':
        s = s.replace(nonce, nonce[:3] + '<!-- c -->' + nonce[3:])
    return s


class Driver:
    """loop: to share a loop with other drivers, tag tells them apart"""

    def __init__(self, cfg, opts, loop=None, tag=''):
        self.own = loop is None
        self.loop = loop or vclock.new_loop(0.0)
        self.cfg, self.opts, self.tag = cfg, opts, tag
        from openleadr import OpenADRServer
        xmlsig.install()
        self.known, self.script, self.calls, self.stray, self.asked = {}, [], {}, [], set()
        self.prefix = os.urandom(6).hex() + '-'
        self.now, self.base = 0, vclock.Clock.t
        kw = {}
        if cfg['fl']:
            kw['fingerprint_lookup'] = self.lookup(self.find_fp)
        if cfg['vl']:
            kw['ven_lookup'] = self.lookup(self.find_ven)
        if cfg['sign']:
            kw.update(cert=xmlsig.path(cfg['sign']), key=xmlsig.path(cfg['sign'], 'key'), show_fingerprint=False)
        at = vtn.some_prefix(cfg, vclock.offset())
        s = self.server = OpenADRServer(http_path_prefix=at, vtn_id=opts['vtn'], verify_message_signatures=cfg['verify'],
                                        requested_poll_freq=timedelta(seconds=10), **kw)
        info = ('oadrCreatedPartyRegistration', {'profiles': [{'profile_name': '2.0b', 'transports': [
            {'transport_name': 'simpleHttp'}]}], 'requested_oadr_poll_freq': timedelta(seconds=10)})
        h = self.handler
        s.add_handler('on_query_registration', h('query', lambda p: (p.get('ven_id') or '', ''), info))
        s.add_handler('on_create_party_registration', h(
            'create', lambda p: (p.get('ven_id') or '', p['ven_name'] if p['ven_name'] != 'n' else '', p.get('fingerprint') or ''),
            ('v9', 'reg9')))
        s.add_handler('on_cancel_party_registration', h('cancelreg', lambda p: (p.get('ven_id') or '', p['registration_id'])))
        s.add_handler('on_created_report', h('createdreport', lambda p: (
            p.get('ven_id') or '', ','.join(x['report_request_id'] for x in p.get('pending_reports') or []))))
        s.add_handler('on_update_report', h('update', lambda report: ('?', report['report_request_id'])))
        s.add_handler('on_poll', h('poll', lambda ven_id: (ven_id, '')))
        s.add_handler('on_request_event', h('reqevent', lambda ven_id: (ven_id, ''), 'EV'))
        s.add_handler('on_created_event', h('createdevent', lambda ven_id, event_id, opt_type: (ven_id, event_id)))
        self.rq = vtn.Requests(self.loop, s.app, at)

    def lookup(self, find):
        lag, style = self.cfg['lag'] * TICK, self.opts['lookup']
        if lag or style == 'async':
            async def look(ven_id):
                if lag:
                    await asyncio.sleep(lag)
                return find(ven_id)
            return look
        return lambda ven_id: find(ven_id)

    def find_ven(self, ven_id):
        k = self.known.get(ven_id, {'reg': 'none', 'fp': ''})
        if k['reg'] == 'raise':
            raise RuntimeError('no database')
        if k['reg'] == 'none':
            return None
        ven = {'ven_id': ven_id, 'ven_name': 'x', 'registration_id': 'reg1' if k['reg'] == 'reg' else None}
        if k['fp'] in xmlsig.NAMES:
            ven['fingerprint'] = xmlsig.cert(k['fp']).fingerprint
        elif self.opts['falsy']:
            ven['fingerprint'] = None
        return ven

    def find_fp(self, ven_id):
        fp = self.known.get(ven_id, {'fp': ''})['fp']
        if fp == 'raise':
            raise [ValueError, KeyError, RuntimeError][len(ven_id) % 3]('no such VEN')
        return xmlsig.cert(fp).fingerprint if fp else [None, ''][self.opts['falsy']]

    def handler(self, h, see, result=None):
        def note(args, kw):
            try:
                ven, x, *fp = see(*args, **kw)
            except Exception as err:
                ven, x, fp = '', f'unreadable {err!r}', []
            pid = vtn.PID.get()
            if h == 'update':
                ven = self.ven_of.get(pid, '')
            c = {'h': h, 'ven': text(ven), 'x': text(x), 'fp': xmlsig.named(fp[0]) if fp and fp[0] else ''}
            if pid in self.calls:
                self.calls[pid].append(c)
            else:
                self.stray.append(c)
            return [] if result == 'EV' else result
        if h == 'createdevent':
            return lambda ven_id, event_id, opt_type: note((ven_id, event_id, opt_type), {})
        if h in ('poll', 'reqevent'):
            return lambda ven_id: note((ven_id,), {})
        if h == 'update':
            return lambda report: note((report,), {})
        return lambda payload: note((payload,), {})

    ven_of = {}

    def launch(self, a, spec=None):
        self.script.append([a, spec])
        self.a = a
        if a['op'] == 'know':
            self.known[a['v']] = {'reg': a['reg'], 'fp': a['fp']}
        elif a['op'] == 'wait':
            self.now += a['n']
        else:
            self.now += 2 * self.cfg['lag']
            self.pids = []
            if 'ven_of' not in self.__dict__:
                self.ven_of = {}
            for n, p in enumerate(a['posts']):
                pid = f'{self.tag}{len(self.script)}.{n}'
                self.pids.append(pid)
                self.calls[pid] = []
                self.ven_of[pid] = p['ven']
                self.rq.start(pid, p['svc'], build(p, self.prefix, self.base), secure=p['tls'],
                              der=xmlsig.cert(p['conn']).der if p['conn'] else None)

    def run(self):
        self.loop.advance_to(self.base + self.now * TICK)

    def collect(self):
        posts = []
        if self.a['op'] == 'post':
            done = dict(self.rq.finished())
            for pid in self.pids:
                posts.append(dict(self.answer(done.get(pid)), calls=self.calls.pop(pid)))
        stray, self.stray = self.stray, []
        return {'posts': posts, 'stray': stray}

    def answer(self, reply):
        if reply is None:
            return {'ans': 'PENDING', 'sig': '', 'http': True}
        if reply.status != 200:
            return {'ans': 'refused' if reply.status >= 400 else f'HTTP{reply.status}', 'sig': '', 'http': True}
        if not reply.body:
            return {'ans': 'EMPTY', 'sig': '', 'http': True}
        m = wire.read(reply.body)
        t = m.type if m.valid else 'INVALID'
        ans = ('rereg' if t == 'oadrRequestReregistration' else 'refused' if m.code == '463' else f'{t}:{m.code}')
        try:
            v = xmlsig.verify(reply.body)
            if v is None:
                sig = ''
            else:
                sig = v[0]
                if v[2] in self.asked:
                    sig = 'nonce used before'
                self.asked.add(v[2])
                if abs(v[1] - vclock.Clock.t) > self.cfg['lag'] * 2 * TICK + 1:
                    sig = f'stamp {v[1]} at {vclock.Clock.t}'
        except Exception as err:
            sig = f'bad: {err}'
        return {'ans': ans, 'sig': sig, 'http': False}

    def do(self, a, spec=None):
        self.launch(a, spec)
        self.run()
        return self.collect()

    def close(self):
        self.rq.close()
        if self.own:
            vtn.close_loop(self.loop)


def mk_opts(rng):
    return {'lookup': rng.choice(['sync', 'async']), 'falsy': rng.choice([0, 1]), 'vtn': rng.choice(['VTN1', 'My VTN', '07'])}


def mk_cfg(rng, focus=''):
    fl, vl = rng.choice([(True, False), (False, True), (False, True), (True, True), (False, False)] if focus != 'C18' else
                        [(True, False), (False, True), (True, True)])
    return {'fl': fl, 'vl': vl, 'verify': rng.random() < (1 if focus == 'C18' else .8),
            'sign': rng.choice(['', 'vtn', 'vtn2']) if focus == 'C19' else 'vtn' if rng.random() < .3 else '',
            'lag': rng.choice([0, 0, 0, 1])}


class Chooser:
    def __init__(self, rng, cfg, focus):
        self.rng, self.cfg, self.focus = rng, cfg, focus
        self.known, self.sent, self.n, self.now = {}, [], 0, 0
        self.vens = rng.sample(['v1', 'V1', '07'], 3)[:rng.choice([1, 2, 3])]
        self.own = {'v1': 'ven1', 'V1': 'ven2', '07': rng.choice(['ven1', 'ven2'])}

    def know(self, v):
        r = self.rng
        a = {'op': 'know', 'v': v, 'reg': r.choice(['reg'] * 9 + ['none', 'noreg', 'raise']),
             'fp': self.own[v] if r.random() < .8 else r.choice(['', 'raise', 'ven1', 'ven2'])}
        self.known[v] = a
        return a

    def fresh(self, p):
        """surely fresh, or surely not: lookups take time"""
        age = self.now - p['stamp']
        return age <= 10 - 2 * self.cfg['lag'] or age > 10

    def post(self):
        r = self.rng
        self.n += 1
        x = r.random()
        old = [p for p in self.sent[-12:] if self.fresh(p)]
        if old and x < (.45 if self.focus == 'C18' else .2):
            p = dict(r.choice(old))        # once more, perhaps in another way
            if p['by'] and r.random() < .3 and (p['stamp'], p['nonce'], p['by']) in self.accepted:
                p['alt'] = r.choice(EXTRA)
            elif r.random() < .15:
                p['alt'] = r.choice(BROKEN) if p['by'] else ''
            elif r.random() < .15:
                p['conn'] = r.choice(xmlsig.NAMES + ['']) if p['tls'] else ''
            return p
        k = r.choice(list(HOME))
        ven = '' if k == 'query' or (k in MAYBE and r.random() < .1) else r.choice(self.vens) if r.random() < .95 else 'v7'
        own = self.known.get(ven, {}).get('fp') or 'ven1'
        own = own if own in xmlsig.NAMES else 'ven1'
        some = lambda good, all_, q=.12: r.choice(all_) if r.random() < q else good
        tls = r.random() < .93
        by = some(own, xmlsig.NAMES + ['', '']) if self.cfg['verify'] or r.random() < .5 else ''
        age = some(0, [9, 10, 11, 12, 200, -1, -20, -7200, 5, 10, 10], .6 if self.focus == 'C18' else .3)
        p = {'kind': k, 'svc': HOME[k] if r.random() < .95 else r.choice(sorted(set(HOME.values()))), 'ven': ven,
             'x': r.choice(['a', 'b']) + str(self.n) if k in ('create', 'cancelreg', 'update', 'createdreport', 'createdevent') else '',
             'rq': '' if k in NORQ else f'r{self.n}', 'tls': tls, 'conn': some(own, xmlsig.NAMES + ['']) if tls else '',
             'by': by, 'shown': some(by, xmlsig.NAMES) if by else '', 'alt': '', 'rp': 'ok', 'stamp': self.now - age,
             'nonce': f'n{self.n}'}
        if by:
            y = r.random()
            if y < .15:
                p['alt'] = r.choice(BENIGN)
            elif y < .3:
                p['alt'] = r.choice(BROKEN)
            elif y < .36:
                p['rp'] = r.choice(RPS[1:])
            if r.random() < .1 and self.sent:
                q = r.choice(self.sent[-5:])
                if r.random() < .5:
                    p['nonce'] = q['nonce']      # another time stamp, or not
                if r.random() < .5:
                    p['stamp'] = q['stamp']
        if not self.fresh(p):
            p['stamp'] = self.now
        if p['rp'] != 'ok' and p['alt'] in ('stamp', 'nonce', 'second', 'noncecomment'):
            p['alt'] = ''
        return p

    accepted = ()

    def action(self):
        r = self.rng
        x = r.random()
        if x < .1:
            return self.know(r.choice(self.vens))
        if x < .3:
            a = {'op': 'wait', 'n': r.choice([1, 1, 2, 5, 10, 11, 12, 30, 7300])}
            self.now += a['n']
            return a
        n = r.choice([1, 1, 1, 1, 2, 3])
        posts = [self.post()]
        for _ in range(n - 1):
            posts.append(dict(posts[0]) if r.random() < .6 else self.post())
        # which of two different messages comes first may be up to the server: no common nonces then
        seen = {}
        keep = []
        for p in posts:
            k = (p['stamp'], p['nonce'])
            if p['by'] and seen.setdefault(k, p['kind'] + p['ven']) != p['kind'] + p['ven']:
                continue
            keep.append(p)
        self.now += 2 * self.cfg['lag']
        return {'op': 'post', 'posts': keep}

    def learn(self, a, o):
        if a['op'] == 'post':
            for p, q in zip(a['posts'], o['posts']):
                if p['by'] or self.rng.random() < .3:
                    self.sent.append(p)
                if q['calls'] and p['tls'] and p['by']:
                    self.accepted = tuple(self.accepted) + ((p['stamp'], p['nonce'], p['by']),)


def finish(d, cfg, opts, steps, fn, arg):
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_auth', 'fn': fn, 'arg': arg, 'script': d.script,
                                                 'cfg': cfg, 'opts': opts}}


def random_trace(arg):
    rng = rng_for('auth', arg['seed'], arg['n'], arg['focus'])
    cfg, opts = mk_cfg(rng, arg['focus']), mk_opts(rng)
    d = Driver(cfg, opts)
    ch = Chooser(rng, cfg, arg['focus'])
    steps = []
    try:
        for v in ch.vens:
            a = ch.know(v)
            steps.append({'a': a, 'o': d.do(a)})
        for _ in range(arg['steps']):
            a = ch.action()
            o = d.do(a)
            ch.learn(a, o)
            steps.append({'a': a, 'o': o})
    finally:
        d.close()
    return finish(d, cfg, opts, steps, 'random_trace', arg)


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}"""
    rng = rng_for('auth-replay', arg['seed'], arg['n'])
    cfg, opts = arg['b'][0]['cfg'], mk_opts(rng)
    d = Driver(cfg, opts)
    steps = []
    texts = {}
    try:
        for a in arg['b']:
            a = {k: x for k, x in a.items() if k != 'cfg'}
            if a['op'] == 'post':
                a['posts'] = [dict(p) for p in a['posts']]
                for p in a['posts']:
                    key = json.dumps(p, sort_keys=True)
                    if key not in texts:
                        texts[key] = (rng.choice(BROKEN), rng.choice(BENIGN), rng.choice(RPS[1:]))
                    b, g, rp = texts[key]
                    if p['kind'] in ('create', 'cancelreg', 'update', 'createdreport', 'createdevent'):
                        p['x'] = p['x'] or 'x1'
                    p['alt'] = b if p['alt'] == 'content' else g if p['alt'] == 'comment' else p['alt']
                    p['rp'] = rp if p['rp'] == 'missing' else p['rp']
                    if p['rp'] != 'ok' and p['alt'] in ('stamp', 'nonce'):
                        p['alt'] = ''
            steps.append({'a': a, 'o': d.do(a)})
    finally:
        d.close()
    return finish(d, cfg, opts, steps, 'replay_trace', arg)


def rerun(arg):
    """arg: {cfg, opts, script}"""
    d = Driver(arg['cfg'], arg['opts'])
    steps = []
    try:
        for a, spec in arg['script']:
            steps.append({'a': a, 'o': d.do(a, spec)})
    finally:
        d.close()
    return finish(d, arg['cfg'], arg['opts'], steps, 'rerun', arg)


_GEN = dict(MaxBatch=2, Tls='{TRUE, FALSE}', Lags='{0, 1}', Kinds='{"poll", "create", "cancelreg", "createdevent"}',
            Conns='{"ven1", "ven2", "mallory", ""}', Keys='{"ven1", "ven2", "mallory"}', Alts='{"", "content", "comment"}',
            Ages='{0, 8, 11, 12}', Aheads='{4, 7200}', Nonces='{"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8"}', Waits='{1, 5, 10, 11}',
            Signs='{"", "vtn"}', Regs='{"none", "noreg", "reg", "raise"}', MaxUsed=100)
_HIST = dict(Kinds='{"poll"}', Vens='{"v1"}', Fps='{"ven1"}', Regs='{"reg"}', Conns='{"ven1"}', Keys='{"ven1", "mallory"}',
             Fls='{FALSE}', Vls='{TRUE}', Verifies='{TRUE}', Ages='{0, 10, 11}', Aheads='{6}', Waits='{1, 6}', Alts='{"", "content"}')
PLAN = {
    'quick': {
        'mc': [dict(MaxLen=2, Vens='{"v1"}'), dict(_HIST, MaxLen=6, Rps='{"ok"}'), dict(_HIST, MaxLen=3, MaxBatch=2, Alts='{""}')],
        'gen': [dict(_GEN, MaxLen=14), dict(_GEN, MaxLen=14, Verifies='{TRUE}', Vens='{"v1"}')],
        'gen_num': 200, 'gen_depth': 14, 'random': 900, 'steps': 14},
    'thorough': {
        'mc': [dict(MaxLen=3, Fls='{TRUE}'), dict(MaxLen=3, Fls='{FALSE}'), dict(_HIST, MaxLen=7), dict(_HIST, MaxLen=4, MaxBatch=2)],
        'gen': [dict(_GEN, MaxLen=25), dict(_GEN, MaxLen=25, Verifies='{TRUE}', Vens='{"v1"}')],
        'gen_num': 800, 'gen_depth': 25, 'random': 6000, 'steps': 30},
}
