"""Machinery shared by all checks: running TLC, driving the code in parallel, validating traces, evidence."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
REPO = os.environ.get('VERIF_REPO', '/repo')


class MachineryError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-')
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def tlc(module, cfg_text, args=(), env=None, workers=1, timeout=600, heap='3g'):
    """Run TLC on spec/<module>.tla with the given configuration text; returns its output."""
    d = tempfile.mkdtemp(dir=scratch())
    cfg = os.path.join(d, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', JAVA_CP, 'tlc2.TLC', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-config', cfg, *args,
           os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as err:
        raise MachineryError(f'TLC timeout on {module}: {(err.stdout or b"")[-500:]}')
    finally:
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    out = p.stdout.decode('utf-8', 'replace')
    return p.returncode, out


def tlc_strings(out, prefix):
    """Values printed with PrintT("PREFIX " \\o ToJson(x))"""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + prefix + ' '):
            res.append(json.loads(line)[len(prefix) + 1:])
    return res


def cfg(name, **over):
    """Read spec/<name>.cfg, with constants replaced."""
    with open(os.path.join(SPEC, name + '.cfg')) as f:
        t = f.read()
    for k, v in over.items():
        t, n = re.subn(rf'(?m)^(\s*){k}\s*=.*$', lambda m: f'{m.group(1)}{k} = {v}', t)
        if not n:
            raise MachineryError(f'no constant {k} in {name}.cfg')
    return t


def model_check(module, cfg_text, workers=8, timeout=800):
    """Exhaustive check of a bounded instance; returns (generated, distinct).  An error here is an error in the
    specification, which does not depend on the code under test."""
    rc, out = tlc(module, cfg_text, workers=workers, timeout=timeout, heap='8g')
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    if rc != 0 or not m or 'No error has been found' not in out:
        raise MachineryError(f'model checking {module} failed:\n{out[-3000:]}')
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def behaviours(module, cfg_text, num=100, depth=20, seed=1, simulate=True, timeout=300):
    """Action lists (JSON) that the specification allows, from TLC's simulator or from its exhaustive search."""
    args = ['-simulate', f'num={num}', '-depth', str(depth + 2), '-seed', str(seed)] if simulate else []
    rc, out = tlc(module, cfg_text, args=args, workers=1 if simulate else 4, timeout=timeout)
    if rc != 0:
        raise MachineryError(f'simulating {module} failed:\n{out[-3000:]}')
    seen, res = set(), []
    for x in tlc_strings(out, 'BEHAVIOUR'):
        if x not in seen:
            seen.add(x)
            res.append(json.loads(x))
    return res


# ------------------------------------------------------------------ driving the code in parallel
class Hang(KeyboardInterrupt):
    """passes through handlers of exceptions in the code under test and in asyncio"""


def _alarm(*a):
    raise Hang('no progress in real time')


REAL_LIMIT = 30         # seconds of real time for one trace; they normally take milliseconds


def _work(job):
    modname, fn, arg = job
    sys.path.insert(0, HERE)
    import importlib
    mod = importlib.import_module(modname)
    import vclock
    if 'zone' not in arg:
        arg = dict(arg, zone=vclock.ZONES[rng_for('zone', arg.get('seed'), arg.get('n')).randrange(len(vclock.ZONES))])
    vclock.set_zone(arg['zone'])
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, REAL_LIMIT, .5)
    try:
        return getattr(mod, fn)(arg)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def prep_process():
    """Import path and quietness for a process that runs the code under test."""
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(3000)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def _init():
    prep_process()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    os.close(devnull)


DRIVE_LIMIT = 200       # seconds of real time for all of them; they normally take some 10 s


def drive(jobs, procs=8):
    """jobs: list of (module, function, argument).  Returns (traces, crashes).  A crash is an exception out of the
    code under test at a place where the driver calls it and none may occur, or a trace that does not end; a failure
    of the driver itself is a machinery error."""
    if not jobs:
        return [], []
    ctx = mp.get_context('spawn')
    traces, crashes = [], []
    t0 = time.time()
    with ctx.Pool(min(procs, len(jobs)), initializer=_init) as pool:
        for r in pool.imap(_safe, jobs, chunksize=max(1, min(8, len(jobs) // (procs * 4)))):
            if 'crash' in r:
                crashes.append(r)
                if len(crashes) >= 3:
                    pool.terminate()
                    break
            elif 'driver_error' in r:
                pool.terminate()
                raise MachineryError('driver failed:\n' + r['driver_error'])
            else:
                traces.append(r)
            if time.time() - t0 > DRIVE_LIMIT:
                pool.terminate()
                break
    return traces, crashes


def _safe(job):
    try:
        return _work(job)
    except BaseException as err:
        tb = traceback.extract_tb(err.__traceback__)
        text = f'{job}\n' + traceback.format_exc()
        where = [f for f in tb if f.filename.startswith(REPO + '/openleadr/')]
        last_own = max([i for i, f in enumerate(tb) if f.filename.startswith(HERE)], default=-1)
        if isinstance(err, Hang) or any(f in where for f in tb[last_own + 1:]):
            return {'crash': text[-4000:], 'job': job}
        return {'driver_error': text}


# ------------------------------------------------------------------ trace validation
def error_part(out):
    i = out.find('Error:')
    return out[i:i + 1500] + '\n...\n' + out[-1500:] if i >= 0 else out[-4000:]


LONGEST = 1000


def clip(o):
    """Code that runs away is caught by its first thousand outputs; correct code does not come near that in one step."""
    if isinstance(o, list):
        return [clip(x) for x in o[:LONGEST]]
    return {k: clip(v) for k, v in o.items()} if isinstance(o, dict) else o


def validate(trace_module, traces, shards=6, timeout=800):
    """Check traces against the specification; returns (accepted, states, [(trace index, step, clauses, expected)])."""
    if not traces:
        return 0, 0, []
    n = min(shards, max(1, len(traces) // 20))
    groups = [list(range(i, len(traces), n)) for i in range(n)]
    from concurrent.futures import ThreadPoolExecutor
    text = cfg(trace_module)

    def one(idx):
        d = tempfile.mkdtemp(dir=scratch())
        p = os.path.join(d, 'traces.json')
        with open(p, 'w') as f:
            json.dump([{'cfg': traces[i].get('cfg', {'x': 0}), 'steps': [dict(s, o=clip(s['o'])) for s in traces[i]['steps']]}
                       for i in idx], f)
        rc, out = tlc(trace_module, text, env={'TRACE_FILE': p}, workers=1, timeout=timeout)
        os.unlink(p)
        acc = re.findall(r'"ACCEPTED (\d+)"', out)
        if rc != 0 or not acc:
            raise MachineryError(f'trace validation with {trace_module} failed:\n{error_part(out)}')
        m = re.findall(r'(\d[\d,]*) states generated', out)
        bad = []
        for v in tlc_strings(out, 'VERDICT'):
            v = json.loads(v)
            bad.append((idx[v['trace'] - 1], v['step'], sorted(v['clauses']), v['expected']))
        return int(acc[-1]), int(m[-1].replace(',', '')), bad

    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, groups))
    bad = sorted({(b[0], b[1]): b for r in rs for b in r[2]}.values(), key=lambda b: b[:2])
    return sum(r[0] for r in rs), sum(r[1] for r in rs), bad


def rng_for(*parts):
    return random.Random('/'.join(str(p) for p in parts))


def prep_path():
    sys.path.insert(0, HERE)


def int_seed(*parts):
    return rng_for('int', *parts).randrange(1, 2 ** 31)


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines 'known: property=<id> match=<json> <what fails>' of KNOWN_FINDINGS.md.  match: the steps of the trace
    up to the failing one must contain these fragments, in order."""
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.md')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=(\[.*?\]) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append({'match': json.loads(m.group(2)), 'what': m.group(3)})
    return res


def match_known(known, v):
    modname, trace, step, expected, clauses = v
    text = json.dumps([trace['steps'][step - 1] if step else trace.get('crash'), expected])
    return any(all(f in text for f in k['match']) for k in known)
