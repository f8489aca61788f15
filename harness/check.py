"""check.py PROPERTY [quick|thorough]: decide one property."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import engines
import registry


def known_findings():
    path = os.path.join(common.VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('KNOWN-FINDING:'):
                out.append(line.strip())
    return out


def save_replay(prop, k, bad):
    os.makedirs(os.path.join(common.VERIF, 'replays'), exist_ok=True)
    path = os.path.join(common.VERIF, 'replays', f'{prop}-{k}.json')
    doc = {x: y for x, y in bad.items() if x not in ('owners', 'trace')}
    tr = bad.get('trace')
    if tr:
        evs = tr['evs']
        if 'prefix' in tr:
            evs = tr['prefix'] + [evs[bad['upto'] - 1]]
        else:
            evs = evs[:bad['upto']]
        doc['trace'] = {'mode': tr.get('mode'), 'kind': tr.get('kind', 'space'), 'seed': tr.get('seed'),
                        'evs': [{x: y for x, y in ev.items() if x not in ('d',)} for ev in evs]}
        for x in ('world', 'case', 'cases', 'opts', 'profile', 'ops', 'budget', 'script'):
            if x in tr:
                doc['trace'][x] = tr[x]
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    return path


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    results = []
    for make in registry.engines_for(prop, tier, seed):
        t1 = time.time()
        r = make()
        r.wall = time.time() - t1
        results.append(r)
        print(f'{prop} {r.name}: {json.dumps(r.cov)} {r.wall:.1f}s', flush=True)
    mine, seen, other = [], set(), {}
    for r in results:
        for b in r.bad:
            if b['owners'] is None or prop in b['owners']:
                key = (b['op'], b['clause'])
                if key not in seen:
                    seen.add(key)
                    mine.append(b)
            else:
                other[b['what'].split(' (')[0]] = other.get(b['what'].split(' (')[0], 0) + 1
    for k, v in sorted(other.items()):
        print(f'note: {v} difference(s) belonging to other properties: {k}')
    violations = []
    for k, b in enumerate(mine[:10]):
        path = save_replay(prop, k, b)
        violations.append({'what': b['what'][:400], 'replay': path})
    cov, detail = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'executions': 0}, {}
    for r in results:
        c = r.cov
        cov['states'] += c.get('states', 0) + c.get('model_states', 0)
        cov['transitions'] += c.get('transitions', 0) + c.get('model_transitions', 0)
        cov['traces_validated_against_impl'] += c.get('traces', 0)
        cov['executions'] += c.get('events', 0) + c.get('replayed', 0) + c.get('cases', 0)
        detail[r.name] = dict(c, wall_s=round(r.wall, 1))
    cov['samples'] = [s for r in results for s in r.samples][:6]
    cov['by_engine'] = detail
    common.write_evidence(prop, tier, registry.LEVEL.get(prop, 'model_checking'), cov, time.time() - t0,
                          assumptions=registry.ASSUME.get(prop), violations=len(violations))
    for line in known_findings():
        if f'property={prop} ' in line:
            print(line)
    for v in violations:
        print(f"  {v['what']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
