#!/opt/venv/bin/python
"""Decide one property of /repo by static analysis.

    check.py C01 [--tier quick|thorough] [--root /repo] [-v]

exit 0: every obligation that could be decided holds
exit 1: a VIOLATION line (and the report in the file named after replay=)
exit 2: the analysis is broken (anchors vanished, hardly anything decidable)
"""
import argparse
import glob
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import law                           # noqa: E402
from sa.query import make_world              # noqa: E402

TECH = json.load(open(os.path.join(HERE, 'techniques.json')))


class Timeout(Exception):
    pass


def on_alarm(sig, frame):
    raise Timeout()


def want(cls_or_props, prop):
    return prop in [p.strip() for p in cls_or_props.split(',')]


# C09: the laws of these files are about operations that change nothing
READERS = ('c01_reading', 'c03_pointers', 'c05_pointers', 'c07_unions', 'c08_messages', 'c10_hash', 'c11_accessors',
           'c11_groups', 'c11_pointers', 'c13_pickle', 'c17_compact', 'c18_lists', 'c19_enums', 'c22_anypointer')


def frames(worlds):
    jobs = []
    for fname in READERS:
        if not os.path.exists(os.path.join(HERE, 'laws', fname + '.py')):
            continue
        for kind, w in worlds.items():
            for c in law.law_classes(w, fname):
                if kind in (c.lookup('worlds') or ('compiled', 'pure')) and c.lookup('frame') is not False:
                    for name, case in law.law_cases(w, c):
                        jobs.append(('frame', kind, fname, name, c, case))
    return jobs


def collect(prop, worlds):
    """obligations of one property: [(kind, type, key, ...)]"""
    jobs = frames(worlds) if prop == 'C09' else []
    for path in sorted(glob.glob(os.path.join(HERE, 'laws', '*.py'))):
        fname = os.path.basename(path)[:-3]
        src = open(path).read()
        if prop not in src:
            continue
        for kind, w in worlds.items():
            for c in law.law_classes(w, fname):
                if not want(c.lookup('prop') or '', prop):
                    continue
                if kind not in (c.lookup('worlds') or ('compiled', 'pure')):
                    continue
                for name, case in law.law_cases(w, c):
                    jobs.append(('law', kind, fname, name, c, case))
    for path in sorted(glob.glob(os.path.join(HERE, 'rules', '*.py'))):
        fname = os.path.basename(path)[:-3]
        if fname == '__init__':
            continue
        mod = __import__('rules.' + fname, fromlist=['x'])
        for r in getattr(mod, 'RULES', []):
            if want(r.props, prop):
                for kind in worlds:
                    if kind in r.worlds:
                        jobs.append(('rule', kind, fname, r.name, r, None))
    return jobs


W = {}
PROP = None
LIMIT = 60


def run_job(i):
    typ, kind, fname, name, obj, case = JOBS[i]
    w = W[kind]
    t = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(LIMIT)
    out = {'i': i, 'key': '%s/%s:%s' % (fname, name, kind), 'status': 'undecided', 'detail': [],
           'paths': 0, 'accesses': 0, 'funcs': [], 'instances': 1}
    try:
        if typ in ('law', 'frame'):
            r = law.check_law(w, obj, case, name=name, frame=typ == 'frame')
            out.update(status=r.status, detail=r.detail, paths=r.paths, accesses=r.accesses,
                       funcs=sorted(r.visited))
        else:
            r = obj.check(w, PROP)
            out.update(r)
    except Timeout:
        out['detail'] = [('undecided', 'time limit of %d s' % LIMIT)]
    except MemoryError:
        out['detail'] = [('undecided', 'out of memory')]
    except Exception:
        out['status'] = 'undecided'
        out['detail'] = [('undecided', 'analysis error: ' + traceback.format_exc(limit=-6))]
    finally:
        signal.alarm(0)
    out['wall'] = time.time() - t
    return out


def known(prop):
    """{key prefix: text} of the known (unrepaired) findings"""
    res = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                key, _, text = rest.partition(' ')
                res[key.replace('key=', '', 1)] = text
    return res


def main():
    global JOBS, PROP, LIMIT
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    PROP = prop = a.prop
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    LIMIT = 100 if tier == 'quick' else 400
    t0 = time.time()
    broken = []
    for kind in ('compiled', 'pure'):
        try:
            W[kind] = make_world(kind, a.root)
            W[kind].tier = tier
        except Exception:
            broken.append('%s world: %s' % (kind, traceback.format_exc(limit=-4)))
    try:
        JOBS = collect(prop, W)
    except Exception:
        print('ANALYSIS-BROKEN property=%s cannot set up: %s' % (prop, traceback.format_exc(limit=-4)))
        return 2
    order = list(range(len(JOBS)))
    if a.jobs > 1 and len(order) > 1:
        with multiprocessing.get_context('fork').Pool(a.jobs) as pool:
            results = pool.map(run_job, order, chunksize=1)
    else:
        results = [run_job(i) for i in order]
    results.sort(key=lambda r: r['i'])
    st = {}
    for r in results:
        st[r['status']] = st.get(r['status'], 0) + 1
    listed = known(prop)
    viol, hits = [], []
    for r in results:
        if r['status'] != 'violated':
            continue
        if r['key'] in listed:
            hits.append(r)
        else:
            viol.append(r)
    decided = st.get('proved', 0) + st.get('violated', 0)
    floor = json.load(open(os.path.join(HERE, 'floors.json'))).get(prop, 1)
    report = []
    for r in viol:
        for s, d in r['detail']:
            if s == 'violated':
                report.append('%s: %s' % (r['key'], d))
    wall = time.time() - t0
    evdir = os.path.join(HERE, 'evidence')
    if not a.no_evidence:
        os.makedirs(evdir, exist_ok=True)
        funcs = sorted(set(f for r in results for f in r['funcs']))
        tech = TECH.get(prop, {})
        ev = {
            'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
            'level': 'other', 'wall_s': round(wall, 2), 'violations': len(viol),
            'coverage': {
                'explanation': tech.get('explanation', '') + ' Each obligation is one law (or rule instance) '
                               'in one build variant, decided by abstract interpretation of the current source '
                               'of /repo; "undecided" obligations are not claimed.',
                'obligations': len(results), 'discharged': st.get('proved', 0),
                'undecided': st.get('undecided', 0) + st.get('missing', 0),
                'violated': st.get('violated', 0),
                'paths_compared': sum(r['paths'] for r in results),
                'raw_memory_accesses_checked': sum(r['accesses'] for r in results),
                'rule_instances': sum(r['instances'] for r in results),
                'functions_analysed': len(funcs), 'functions': funcs[:400],
                'undecided_list': [[r['key'], r['detail'][0][1][:200] if r['detail'] else '']
                                   for r in results if r['status'] in ('undecided', 'missing')],
                'samples': [{'obligation': r['key'], 'status': r['status'], 'paths': r['paths'],
                             'functions': r['funcs'][:12]} for r in results[:400]],
            },
            'assumptions': tech.get('assumptions', []),
        }
        json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    if a.v:
        for r in results:
            print('%-9s %-60s paths=%d %.1fs' % (r['status'], r['key'], r['paths'], r['wall']))
            for s, d in r['detail'][:2]:
                print('     ', s, d[:400])
    print('property=%s tier=%s obligations=%d proved=%d undecided=%d violated=%d functions=%d wall=%.1fs'
          % (prop, tier, len(results), st.get('proved', 0), st.get('undecided', 0) + st.get('missing', 0),
             st.get('violated', 0), len(set(f for r in results for f in r['funcs'])), wall))
    for r in hits:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, r['key'], listed[r['key']]))
    if viol:
        path = os.path.join(evdir, prop + '.violation.txt')
        os.makedirs(evdir, exist_ok=True)
        with open(path, 'w') as f:
            f.write('\n\n'.join(report) + '\n')
        for x in report[:5]:
            print('  ' + x[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if broken or decided < 0.5 * floor:
        print('ANALYSIS-BROKEN property=%s only %d of at least %d obligations could be decided %s'
              % (prop, decided, floor, ' '.join(broken)[:1500]))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
