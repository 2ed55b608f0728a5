"""Several servers and clients in one process (C26): the drivers of the other modules, each in its own turn, on one
event loop in one virtual time.  Every instance must behave as its specification says of it alone."""
import vclock
import core
import importlib
import traceback
from core import rng_for

TRACE_MODULE, MC_MODULE = 'TraceMulti', 'MCMulti'
KINDS = ['opts', 'auth', 'vtnevents', 'vtnservice', 'venevents', 'session']
FOCUS = {'opts': ['C27'], 'auth': ['C17', 'C18'], 'vtnevents': ['C01', 'C04', 'C05'],
         'vtnservice': ['C11', 'C12', 'C15', 'C20', 'C23'], 'venevents': ['C06', 'C08'],
         'session': ['C09', 'C13', 'C14', 'C16', 'C22']}
STEPS = {'opts': 12, 'auth': 12, 'vtnevents': 20, 'vtnservice': 10, 'venevents': 12, 'session': 10}
LATE = {'opts', 'auth', 'vtnservice'}            # these can start at any time


def module(kind):
    M = importlib.import_module('m_' + kind)
    if not hasattr(M, 'alone'):
        M.alone = M.Driver.do

        def do(self, a, *more):
            n = vclock.part()
            if n is None:
                return M.alone(self, a, *more)
            turns = vclock.LOCAL.turn.turns
            r = turns.pause[n]
            if kind == 'vtnservice':
                self.loop.advance_to(vclock.Clock.t + r.choice([0, 0, .5, 1, 1, 7, 20]))
            o = M.alone(self, a, *more)
            turns.order.append(n)
            return o
        M.Driver.do = do
    return M


def choose(r, steps):
    pairs = r.random() < .75
    first = r.choice(KINDS)
    kinds = [first] + ([first] if pairs else []) + [r.choice(KINDS) for _ in range(r.choice([0, 0, 1, 2] if pairs else [1, 1, 2, 3]))]
    r.shuffle(kinds)
    return [{'kind': k, 'fn': 'random_trace', 'at': r.choice([0, 0, .5, 3, 20, 60.5]) if k in LATE else 0,
             'arg': {'seed': r.randrange(10 ** 9), 'n': 0, 'steps': max(3, STEPS[k] * steps // 10), 'focus': r.choice(FOCUS[k]),
                     'hooks': False}}     # the hooks of VTNs are those of the process
            for k in kinds]


def together(parts, seed, only=None):
    """-> [(trace or None, error)] of the parts (None for those left out), order of the steps"""
    # the modules must be there before the drivers run
    mods = [module(p['kind']) for p in parts]
    r = rng_for('turns', seed)
    turns = vclock.Turns(lambda ds: r.choice(ds))
    turns.pause, turns.order = [rng_for('pause', seed, n) for n in range(len(parts))], []
    jobs = []
    for n, (p, M) in enumerate(zip(parts, mods)):
        if only is None or n == only:
            jobs.append((p['at'], lambda M=M, p=p: getattr(M, p['fn'])(p['arg'])))
        else:
            jobs.append((0, lambda: None))
    return turns.run(jobs), turns.order


def make(arg):
    """arg: {seed, parts, only}"""
    parts, only = arg['parts'], arg.get('only')
    res, order = together(parts, arg['seed'], only)
    for n, (_, err) in enumerate(res):
        if err is not None and not isinstance(err, vclock.Stop):
            if only is None and isinstance(err, Exception):
                # is it due to the company?
                alone, _ = together(parts, arg['seed'], n)
                if alone[n][1] is not None:
                    return {'cfg': [], 'steps': [], 'meta': {'module': 'm_multi', 'fn': 'rerun', 'arg': arg, 'alone': traceback.format_exc()}}
            raise err
    traces = [t for t, _ in res]
    cfg = [{'kind': p['kind'], 'cfg': t.get('cfg', {'x': 0}) if t else {'x': 0}} for p, t in zip(parts, traces)]
    if only is not None:
        cfg = [c if n == only else {'kind': 'none', 'cfg': {'x': 0}} for n, c in enumerate(cfg)]
    at, steps = [0] * len(parts), []
    for n in order:
        if at[n] >= len(traces[n]['steps']):
            continue                     # steps at the end that the driver withdrew
        st = traces[n]['steps'][at[n]]
        at[n] += 1
        steps.append({'a': {'i': n + 1, 'k': parts[n]['kind'], 'a': st['a']}, 'o': st['o']})
    return {'cfg': cfg, 'steps': steps, 'meta': {'module': 'm_multi', 'fn': 'rerun', 'arg': arg}}


def random_trace(arg):
    r = rng_for('multi', arg['seed'], arg['n'])
    return make({'seed': r.randrange(10 ** 9), 'parts': choose(r, arg['steps']), 'zone': arg['zone']})


def replay_trace(arg):
    """arg: {seed, n, b: behaviour of the specification}: each instance gets its part of it"""
    r = rng_for('multi-replay', arg['seed'], arg['n'])
    b, parts = arg['b'], []
    for n, kind in enumerate(b[0]['kinds']):
        sub = [x['a'] for x in b if x['i'] == n + 1]
        if sub:
            parts.append({'kind': kind, 'fn': 'replay_trace', 'at': 0,
                          'arg': {'seed': r.randrange(10 ** 9), 'n': 0, 'b': sub, 'focus': '', 'hooks': False}})
    return make({'seed': r.randrange(10 ** 9), 'parts': parts, 'zone': arg['zone']})


def rerun(arg):
    return make(arg)


def twin(prop, trace, step):
    """The same instance without the others"""
    if prop != 'C26':
        return None
    return dict(trace['meta']['arg'], only=trace['steps'][step - 1]['a']['i'] - 1)


PLAN = {
    'quick': {'mc': [dict()], 'gen': [dict(MaxLen=14)], 'gen_num': 120, 'gen_depth': 14, 'random': 1200, 'steps': 10},
    'thorough': {'mc': [dict(MaxLen=5)], 'gen': [dict(MaxLen=24)], 'gen_num': 600, 'gen_depth': 24, 'random': 5000, 'steps': 20},
}
