"""check.py Cxx: decide one property on the code in /repo.  Tier from VERIF_TIER, seed from VERIF_SEED.

Every part of a check has three layers:
  1. TLC checks the properties of the specification itself exhaustively on bounded instances;
  2. behaviours that TLC generates from the specification are carried out on the real code;
  3. the executions recorded from the real code (those, and randomly driven ones) are validated by TLC
     against the specification, which says for every step what must be observed.
A mismatch is attributed to properties by the specification's Clauses operator."""
import importlib
import json
import os
import sys
import threading
import time
import collections
import core

HERE = os.path.dirname(os.path.abspath(__file__))
TITLES = {}

# property -> [(module, share of the module's plan)]
PARTS = {
    'C01': [('m_vtnevents', 1)], 'C02': [('m_vtnevents', 1)], 'C03': [('m_vtnevents', 1)],
    'C04': [('m_vtnevents', 1)], 'C05': [('m_vtnevents', 1)],
    'C06': [('m_venevents', 1)], 'C07': [('m_venevents', 1)], 'C08': [('m_venevents', 1)],
    'C09': [('m_session', 1), ('m_vtnservice', .6)], 'C10': [('m_session', 1), ('m_vtnservice', .6)],
    'C11': [('m_session', 1), ('m_vtnservice', .6)], 'C12': [('m_vtnservice', 1)], 'C13': [('m_session', 1)],
    'C14': [('m_session', 1)], 'C15': [('m_vtnservice', 1)], 'C16': [('m_session', 1)],
    'C17': [('m_auth', 1)], 'C18': [('m_auth', 1)], 'C19': [('m_session', 1), ('m_auth', .4)],
    'C20': [('m_vtnservice', 1), ('m_vtnevents', .5)], 'C21': [('m_session', 1), ('m_venevents', 1)],
    'C22': [('m_session', 1)], 'C23': [('m_vtnservice', 1)],
    'C24': [('m_vtnevents', .7), ('m_venevents', .7), ('m_vtnservice', .7)], 'C25': [('m_vtnevents', 1)],
    'C26': [('m_multi', 1), ('m_session', .4)], 'C27': [('m_opts', 1)],
    'C29': [('m_system', 1)],
}


class Result:
    def __init__(self):
        self.states = self.transitions = 0
        self.mc = []
        self.traces = self.steps = self.validated = 0
        self.violations = []        # (module, trace, step, expected, clauses)
        self.other = collections.Counter()
        self.samples = []
        self.counts = collections.Counter()


def mc_part(M, plan, res, errors):
    try:
        for over in plan.get('mc', []):
            over = dict(over)
            module = over.pop('module', M.MC_MODULE)
            g, d = core.model_check(module, core.cfg(module, **over), workers=4)
            res.mc.append({'module': module, 'constants': over, 'states': d, 'transitions': g})
            res.states += d
            res.transitions += g
    except BaseException as err:
        errors.append(err)


def part(prop, modname, share, tier, seed, res, deadline):
    M = load(modname)
    plan = M.PLAN[tier]
    errors = []
    th = threading.Thread(target=mc_part, args=(M, plan, res, errors))
    th.start()
    try:
        rnd = 0
        while True:
            s = seed if rnd == 0 else f'{seed}+{rnd}'
            beh = []
            for over in plan.get('gen', []):
                over = dict(over, Emit='TRUE')
                module = over.pop('module', M.MC_MODULE)
                text = core.cfg(module, **over).replace('INVARIANT Inv', '')
                text = text.replace('PROPERTY StepOk', '')
                n = max(20, int(plan['gen_num'] * share / len(plan['gen'])))
                b = core.behaviours(module, text, num=n, depth=over.get('MaxLen', plan['gen_depth']),
                                    seed=core.int_seed(s, rnd))
                if not b:
                    raise core.MachineryError(f'no behaviours from {module}')
                beh += b
            jobs = [(modname, 'replay_trace', {'seed': s, 'n': i, 'b': b, 'focus': prop}) for i, b in enumerate(beh)]
            jobs += [(modname, 'random_trace', {'seed': s, 'n': i, 'steps': plan['steps'], 'focus': prop})
                     for i in range(max(20, int(plan['random'] * share)))]
            traces, crashes = core.drive(jobs)
            for c in crashes:
                res.violations.append((modname, {'steps': [], 'crash': c['crash'], 'meta': {
                    'module': modname, 'fn': c['job'][1], 'arg': c['job'][2]}}, 0, None, [prop]))
            acc, states, bad = core.validate(M.TRACE_MODULE, traces)
            res.states += states
            res.transitions += states
            res.traces += len(traces)
            res.validated += acc
            for t in traces:
                res.steps += len(t['steps'])
                for st in t['steps']:
                    res.counts[f"{modname[2:]}.{st['a'].get('op', st['a'].get('k', '?'))}"] += 1
                    for p in st['a'].get('posts', ()):
                        res.counts[f"{modname[2:]}.post.{p['kind']}"] += 1
            for i, step, clauses, expected in bad:
                if prop in clauses:
                    res.violations.append((modname, traces[i], step, expected, clauses))
                else:
                    res.other[','.join(clauses)] += 1
            if hasattr(M, 'twin') and not res.violations:
                # mismatches that only occur because of an action that should not matter
                cand = [(i, step, clauses, expected, M.twin(prop, traces[i], step)) for i, step, clauses, expected
                        in bad if prop not in clauses]
                cand = [c[:4] + (dict(c[4], zone=traces[c[0]]['meta']['arg']['zone']),) for c in cand if c[4]][:40]
                tw, _ = core.drive([(modname, 'rerun', c[4]) for c in cand])
                try:
                    _, _, tbad = core.validate(M.TRACE_MODULE, tw, timeout=150)
                except core.MachineryError as err:        # they can only add to what was found
                    print(f'twins not compared: {err}', file=sys.stderr)
                    tw, tbad = [], []
                fails = {b[0] for b in tbad}
                fine = [t['meta']['arg'] for n, t in enumerate(tw) if n not in fails]
                for i, step, clauses, expected, arg in cand:
                    if arg in fine:
                        res.violations.append((modname, traces[i], step, expected, clauses + [prop]))
            if not res.samples and traces:
                t = traces[len(beh) // 2] if beh else traces[0]
                res.samples.append({'module': modname, 'actions': [st['a'] for st in t['steps']][:12]})
                t = traces[-1]
                res.samples.append({'module': modname, 'steps': t['steps'][:4]})
            rnd += 1
            if tier == 'quick' or res.violations or time.time() > deadline:
                break
    finally:
        th.join()
    if errors:
        raise errors[0]


def load(modname):
    sys.path.insert(0, HERE)
    sys.path.insert(0, core.REPO)
    return importlib.import_module(modname)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for x in sys.argv[2:]:
        if x in ('quick', 'thorough'):
            tier = x
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    base = os.environ.get('VERIF_EVIDENCE', core.VERIF)       # another place only in development
    os.makedirs(os.path.join(base, 'evidence'), exist_ok=True)
    os.environ['PYTHONPYCACHEPREFIX'] = os.path.join(core.scratch(), 'pyc')
    os.environ['PYTHONHASHSEED'] = '0'
    sys.pycache_prefix = os.environ['PYTHONPYCACHEPREFIX']
    res = Result()
    parts = PARTS[prop]
    budget = 480 if tier == 'thorough' else 0
    try:
        for n, (modname, share) in enumerate(parts):
            deadline = t0 + budget * (n + 1) / len(parts) if tier == 'thorough' else 0
            part(prop, modname, share, tier, seed, res, deadline)
    except core.MachineryError as err:
        print(f'MACHINERY-ERROR {prop}: {err}', file=sys.stderr)
        sys.exit(2)
    known = core.known_findings(prop)
    viol, seen_known = [], []
    for v in res.violations:
        k = core.match_known(known, v)
        (seen_known if k else viol).append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': res.states, 'transitions': res.transitions,
                       'traces_validated_against_impl': res.validated, 'traces_driven': res.traces,
                       'steps_driven': res.steps, 'model_checking_runs': res.mc,
                       'actions': dict(sorted(res.counts.items())),
                       'mismatches_of_other_properties': dict(res.other), 'samples': res.samples},
          'assumptions': ['virtual time: the code under test sees time only through datetime.now and the event loop',
                          'in-process transport in place of sockets'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    with open(os.path.join(base, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {res.traces} traces, {res.validated} accepted, {res.states} states, "
          f"{len(viol)} violations, other mismatches {dict(res.other)}, {time.time() - t0:.1f} s")
    if viol:
        modname, trace, step, expected, clauses = min(viol, key=lambda v: v[2] if v[3] is not None else 10 ** 6)
        d = os.path.join(base, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'module': modname, 'job': trace['meta'], 'step': step, 'clauses': clauses,
                       'expected': expected, 'observed': trace['steps'][step - 1]['o'] if step else None,
                       'action': trace['steps'][step - 1]['a'] if step else None,
                       'crash': trace.get('crash'), 'cfg': trace.get('cfg'), 'steps': trace['steps'][:step]}, f, indent=1)
        print(f'VIOLATION property={prop} replay={path}')
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
