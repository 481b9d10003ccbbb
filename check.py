#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--repo DIR] [--jobs N] [-v]

Decides one property of the tree in /repo from its source.  Exit 0: it holds on everything analysed (known
findings are listed; entry points that could not be decided are listed as UNDECIDED here and in the evidence).
Exit 1: VIOLATION line.  Exit 2: no answer (the tree does not load, or no entry point could be decided).
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from absint import run as R          # noqa: E402
from absint.engine import Unsup      # noqa: E402
import registry                      # noqa: E402


def rel(path):
    for base in (ARGS.repo, HERE):
        if path and path.startswith(base + '/'):
            return path[len(base) + 1:]
    return path


def loc_str(loc):
    if not loc:
        return '?'
    return '%s:%s %s' % (rel(loc[0]), loc[1], loc[2] if len(loc) > 2 else '')


def analyse(an, module, entry, budget):
    """runs in a child process; returns a plain dictionary"""
    ip = an.ip
    t0 = time.time()
    out = {'entry': entry, 'module': module, 'error': None, 'states': 0}
    try:
        out['states'] = an.run(module, entry, deadline=budget)
    except Unsup as ex:
        out['error'] = 'undecided: %s' % ex
    except RecursionError:
        out['error'] = 'undecided: recursion limit of the analyser'
    except Exception:
        out['error'] = 'internal: ' + traceback.format_exc()[-1500:]
    out['violations'] = [{
        'label': v['label'], 'where': loc_str(v['loc']), 'at': loc_str(v['at']), 'values': v['values'],
        'paths': v['count'], 'trail': ['%s  %s' % (loc_str(a), t) for a, t in v['trail']],
    } for v in ip.violations.values()]
    out['checked'] = dict(ip.checked)
    out['reached'] = sorted(set('%s %s' % (rel(f), q) for f, q in ip.reached if f.startswith(ARGS.repo)))
    out['branches'] = len(ip.branches)
    out['truncated'] = sorted(str(x) for x in ip.truncated)[:20]
    out['stats'] = dict(ip.stats)
    out['wall'] = round(time.time() - t0, 2)
    return out


def child(an, module, entry, budget, wfd):
    try:
        res = R.big_stack(lambda: analyse(an, module, entry, budget))
    except BaseException:
        res = {'entry': entry, 'module': module, 'error': 'internal: ' + traceback.format_exc()[-1500:],
               'violations': [], 'checked': {}, 'reached': [], 'branches': 0, 'truncated': [], 'stats': {}, 'states': 0,
               'wall': 0}
    with os.fdopen(wfd, 'w') as fo:
        fo.write(json.dumps(res))
    os._exit(0)


def nothing(module, entry, error):
    return {'entry': entry, 'module': module, 'error': error, 'violations': [], 'checked': {}, 'reached': [],
            'branches': 0, 'truncated': [], 'stats': {}, 'states': 0, 'wall': 0}


def run_all(an, jobs, entries, budget, total, enough):
    """one child per entry point; the loaded abstract tree is shared by fork.  All of them together get `total`
    seconds; once `enough` says the answer is known the others get a minute more"""
    import select
    import signal
    todo, running, results = list(entries), {}, []
    end = T0 + total
    known = False
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < jobs:
            module, entry = todo.pop(0)
            left = end - time.time()
            if left < 5:
                results.append(nothing(module, entry, 'undecided: no time left'))
                continue
            limit = min(budget, left)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                child(an, module, entry, limit, wfd)
            os.close(wfd)
            running[rfd] = (pid, module, entry, [], time.time() + limit + 20)
        ready, _, _ = select.select(list(running), [], [], 2)
        for fd in list(running):
            pid, module, entry, buf, last = running[fd]
            if fd not in ready and time.time() > min(last, end + 20):
                os.kill(pid, signal.SIGKILL)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if data:
                running[fd][3].append(data)
                continue
            pid, module, entry, buf, _ = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                results.append(json.loads(b''.join(buf).decode()))
            except ValueError:
                results.append(nothing(module, entry, 'undecided: the analyser was stopped'))
            if not known and enough(results[-1]):
                known = True
                end = min(end, time.time() + 60)
            if ARGS.verbose:
                r = results[-1]
                print('  %-40s %5d states %6.2fs %s' % (entry, r['states'], r['wall'], r['error'] or ''), flush=True)
    return results


def load_known():
    known = []
    with open(os.path.join(HERE, 'known_findings.jsonl')) as fo:
        for line in fo:
            line = line.strip()
            if line and not line.startswith('#'):
                known.append(json.loads(line))
    return known


def known_finding(pid, v):
    """the entry of the known-findings file that describes the violation"""
    for k in KNOWN:
        if k.get('status') == 'known' and k['property'] == pid and k['entry'] == v['entry'] and \
                k['label'] == v['label'] and (not k.get('where') or k['where'] in v['where']):
            return k
    return None


def main():
    pid = ARGS.property
    spec = registry.PROPS[pid]
    tier = ARGS.tier
    t0 = time.time()
    errors, results = [], []
    an = R.Analysis(ARGS.repo, os.path.join(HERE, 'spec'), K=registry.K[tier])
    an.ip.portable = bool(spec.get('portable'))
    entries = []
    spec_error = None
    try:
        if spec.get('specs'):
            R.big_stack(lambda: an.load(spec['specs']))
    except R.SpecError as ex:
        spec_error = {'entry': ex.args[0], 'label': 'declaring the forms of the specification raises ' + ex.args[1],
                      'where': loc_str(ex.args[2]), 'values': []}
    if spec.get('specs') and not spec_error:
        for mod in spec['specs']:
            for name, _ in an.entry_points(mod):
                if ARGS.only and name not in ARGS.only:
                    continue
                if tier == 'quick' and name.startswith('spec_deep_'):
                    continue
                entries.append((mod, name))
        results = run_all(an, ARGS.jobs, entries, registry.BUDGET[tier], registry.TOTAL[tier],
                          lambda r: any(known_finding(pid, dict(v, entry=r['entry'])) is None for v in r['violations']))
    rules = []
    for rule in spec.get('rules', ()):
        rules.append(rule(ARGS.repo))

    checked, reached, violations = {}, set(), []
    if spec_error:
        violations.append(spec_error)
    for r in results:
        for k, v in r['checked'].items():
            checked[k] = checked.get(k, 0) + v
        reached.update(r['reached'])
        if r['error']:
            errors.append('%s.%s: %s' % (r['module'], r['entry'], r['error']))
        for v in r['violations']:
            violations.append(dict(v, entry=r['entry']))
    for rr in rules:
        for v in rr['violations']:
            violations.append(dict(v, entry='rule:' + rr['rule']))
        errors.extend(rr.get('errors', ()))

    fresh, hit = [], []
    for v in violations:
        k = known_finding(pid, v)
        if k is None:
            fresh.append(v)
        elif k not in hit:
            hit.append(k)

    # vacuity: every obligation written down must have been decided on at least one path.  When all entry points
    # were analysed to their end, an obligation that no path reaches means the behaviour it is about is gone.
    vacuous = []
    if not ARGS.only and not fresh:
        for mod in spec.get('specs', ()):
            for lab in sorted(R.labels_of(os.path.join(HERE, 'spec', mod + '.py'), tier)):
                if not checked.get(lab):
                    vacuous.append((mod, lab))
    for mod, lab in vacuous:
        if errors:
            errors.append('%s: obligation %r was not reached' % (mod, lab))
        else:
            fresh.append({'entry': mod, 'label': 'no path reaches: ' + lab, 'where': 'spec/%s.py' % mod, 'values': []})

    files = sorted(set(x.split(' ')[0] for x in reached))
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    n_rule = sum(rr.get('sites', 0) for rr in rules)
    evidence = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': spec.get('level', 'other'),
        'coverage': {
            'explanation': spec['explanation'],
            'rule': spec.get('rule', registry.RULE),
            'entry_points': [{'entry': r['entry'], 'abstract_states': r['states'], 'wall_s': r['wall'],
                              'violations': len(r['violations']), 'error': r['error']} for r in results],
            'obligations_decided': sum(checked.values()),
            'obligation_labels': checked,
            'functions_reached': sorted(reached),
            'functions_reached_count': len(reached),
            'files_reached': files,
            'branch_sites': sum(r['branches'] for r in results),
            'abstract_interpreter': stats,
            'collection_bound_K': registry.K[tier],
            'cut_at_bound': sorted(set(x for r in results for x in r['truncated']))[:20],
            'structural_rules': [dict((k, v) for k, v in rr.items() if k != 'violations') for rr in rules],
            'structural_sites': n_rule,
            'evaluations': sum(r['states'] for r in results) + n_rule,
            'distinct_nontrivial': len(checked) + sum(1 for rr in rules if rr.get('sites')),
            'samples': [{'entry': r['entry'], 'labels': sorted(r['checked'])[:6]} for r in results[:3]] +
                       [{'rule': rr['rule'], 'sites': rr.get('samples', [])[:5]} for rr in rules],
            'known_findings': [k['label'] for k in hit],
            'undecided': errors,
        },
        'assumptions': registry.ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as fo:
        json.dump(evidence, fo, indent=1, sort_keys=True)
        fo.write('\n')

    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d entry points, %d obligations decided, %d functions of the tree, %d structural sites, %.1fs' % (
        pid, len(results), sum(checked.values()), len(reached), n_rule, time.time() - t0))
    decided = any(not r['error'] for r in results) or any(rr.get('sites') for rr in rules)
    for e in errors:
        print('%s property=%s %s' % ('UNDECIDED' if decided else 'NO-ANSWER', pid, e))
    if fresh:
        replay = os.path.join('evidence', pid + '.violations.json')
        with open(os.path.join(HERE, replay), 'w') as fo:
            json.dump(fresh, fo, indent=1)
        for v in fresh[:20]:
            print('  %s [%s] at %s' % (v['label'], v['entry'], v['where']))
            for x in v.get('values', ()):
                print('      %s' % x)
            if ARGS.verbose:
                for x in v.get('trail', ()):
                    print('        ', x)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0 if decided else 2


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--only', action='append')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', '--verbose', action='store_true')
    ARGS = ap.parse_args()
    ARGS.repo = os.path.abspath(ARGS.repo)
    T0 = time.time()
    KNOWN = load_known()
    try:
        code = main()
    except R.LoadError as ex:
        print('NO-ANSWER property=%s %s' % (ARGS.property, ex))
        code = 2
    sys.stdout.flush()
    os._exit(code)
