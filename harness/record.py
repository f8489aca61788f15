"""Records random executions of real data spaces (see gen.py, space.py)."""
import json
import os
import random
import sys
import tempfile
import shutil

import common
import observe
from observe import unit, UNITS


def record(seed, profile, length, workdir, modes=('mem', 'rw', 'drive')):
    r = random.Random(seed + 1)
    u = r.choice(UNITS) if r.random() < 0.25 else 1.0
    with unit(u):
        return dict(_record(seed, profile, length, workdir, modes), unit=u)


def _record(seed, profile, length, workdir, modes):
    import gen
    import space
    script, _, cats = profile.rpartition(':')
    g = gen.Gen(seed, 'mixed' if profile == 'bulk' else cats)
    others = {u: space.make_other(u, workdir) for u in gen.UIDS}
    mode = g.pick(modes)
    sub = space.Subject(workdir, others, mode)
    init, used = sub.state, sub.used
    evs = []
    for make in (g.bulk(length) if profile == 'bulk' else g.wide() if script == 'wide' else g.script(sub.state)):
        ev = make(sub.state)
        ev.setdefault('fs', g.r.randrange(1 << 30))
        evs.append(sub.run(ev))
    while profile != 'bulk' and len(evs) < length:
        evs.append(sub.run(g.event(sub.state)))
    sub.close()
    return {'seed': seed, 'profile': profile, 'mode': mode, 'init': init, 'used': used, 'evs': evs}


def replay(trace, workdir):
    """Run a recorded trace's logical events again."""
    with unit(trace.get('unit', 1.0)):
        return _replay(trace, workdir)


def _replay(trace, workdir):
    import gen
    import space
    others = {u: space.make_other(u, workdir) for u in gen.UIDS}
    sub = space.Subject(workdir, others, trace['mode'])
    out = dict(trace, init=sub.state, used=sub.used)
    out['evs'] = [sub.run({k: v for k, v in ev.items() if k not in ('res', 'd', 'rd', 'why')}) for ev in trace['evs']]
    sub.close()
    return out
