#!/opt/venv/bin/python
"""replay.py FILE: carry out again what a check reported, and compare each step with the specification"""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import core


def main():
    r = json.load(open(sys.argv[1]))
    job = r['job']
    M = __import__(job['module'])
    if r['step'] and hasattr(M, 'rerun') and 'script' in job:
        arg = {k: job[k] for k in ('cfg', 'opts') if k in job}
        arg.update({k: job['arg'][k] for k in ('zone',) if k in job['arg']})
        jobs = [(job['module'], 'rerun', dict(arg, script=job['script'][:r['step']]))]
    else:
        jobs = [(job['module'], job['fn'], job['arg'])]
    print(r['property'], 'clauses', r['clauses'], 'step', r['step'])
    traces, crashes = core.drive(jobs)
    for c in crashes:
        print('CRASH', c['crash'])
    _, _, bad = core.validate(M.TRACE_MODULE, traces)
    for t in traces:
        for i, s in enumerate(t['steps'], 1):
            print(f'-- {i}', json.dumps(s['a']))
            print('   observed', json.dumps(s['o']))
            for _, k, clauses, x in bad:
                if k == i:
                    print('   EXPECTED', json.dumps(x))
                    print('   violates', clauses)
    sys.exit(1 if bad or crashes else 0)


if __name__ == '__main__':
    main()
