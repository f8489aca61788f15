"""The ways a property is explored.  Every engine returns a Result."""
import json
import multiprocessing as mp
import os
import random
import time

import common
from common import run_tlc, parse_marked, tlc_stats


class Result:
    def __init__(self, name):
        self.name = name
        self.cov = {}
        self.samples = []       # a few of the cases of this run
        self.bad = []           # [{'owners', 'clause', 'what', 'replay'}]

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v


def fork_map(func, jobs, procs=None, timeout=600):
    """Run func over jobs in forked processes; exceptions become ('error', text)."""
    ctx = mp.get_context('fork')
    with ctx.Pool(procs or int(common.WORKERS), maxtasksperchild=None) as pool:
        res = pool.map_async(_Safe(func), jobs, chunksize=1)
        try:
            return res.get(timeout)
        except mp.TimeoutError:
            return [('error', 'no answer in time')] * len(jobs)


class _Safe:
    def __init__(self, func):
        self.func = func

    def __call__(self, job):
        import signal
        import traceback
        signal.signal(signal.SIGALRM, _no_answer)
        signal.alarm(JOB_SECONDS)
        try:
            return ('ok', self.func(job))
        except Exception:
            return ('error', traceback.format_exc()[-1500:])
        finally:
            signal.alarm(0)


JOB_SECONDS = 150


def _no_answer(*args):
    raise RuntimeError('the code did not return')


def validate(traces, module='Trace_Space', timeout=800):
    """Have TLC judge recorded traces; return (fails, states, transitions).

    A trace that TLC cannot make sense of (the code returned something of
    another shape) is reported as a difference of its own.
    """
    try:
        return _validate(traces, module, timeout)
    except common.TlcError as err:
        base = 0
        while len(traces) > 1:
            half = traces[:len(traces) // 2]
            try:
                _validate(half, module, timeout)
            except common.TlcError as sub:
                traces, err = half, sub
            else:
                base += len(half)
                traces = traces[len(half):]
        print(f'{module}: {str(err)[-1500:]}')
        return [{'t': base + 1, 'i': len(traces[0]['evs']), 'op': '', 'bad': ['unreadable']}], 0, 0


def _validate(traces, module, timeout):
    with common.Scratch() as d:
        path = os.path.join(d, 'traces.json')
        slim = [{k: v for k, v in t.items() if k in ('init', 'used', 'evs', 'world')} for t in traces]
        for t in slim:
            t['evs'] = [{k: v for k, v in ev.items() if k not in ('why', 'fs')} for ev in t['evs']]
        common.write_json(path, slim)
        rc, out = run_tlc(module, env={'TRACES': path}, timeout=timeout)
    done = parse_marked(out, '@@DONE ')
    if rc != 0 or {d['t'] for d in done} != set(range(1, len(traces) + 1)):
        raise common.TlcError(f'{module}: TLC ended with {rc}, {len(done)} of {len(traces)} traces judged\n'
                              + '\n'.join(l for l in out.splitlines() if not l.startswith('"@@'))[-3000:])
    gen, states = tlc_stats(out)
    return parse_marked(out, '@@FAIL '), states, gen - len(traces)


def judge(res, traces, fails, owners, by_trace=False):
    for f in fails:
        tr = traces[f['t'] - 1]
        ev = tr['evs'][f['i'] - 1]
        for clause in f['bad']:
            if clause == 'unreadable':
                res.bad.append({'owners': None, 'clause': clause, 'op': '', 'trace': tr, 'upto': f['i'],
                                'what': 'the specification cannot make sense of what the code returned'})
                continue
            res.bad.append({'owners': owners(tr, f['i'], clause) if by_trace else owners(f['op'], clause), 'clause': clause, 'op': f['op'],
                            'what': f"{f['op']}: {clause}" + (f" ({ev['why']})" if ev.get('why') else ''),
                            'trace': tr, 'upto': f['i']})


# -- random executions checked against the specification --------------------
def _record(args):
    import record
    seed, profile, length = args
    with common.Scratch() as d:
        return record.record(seed, profile, length, d)


def traces_engine(profile, count, length, seed):
    import own
    res = Result(f'traces/{profile}')
    jobs = [(seed * 1000003 + k, profile, length) for k in range(count)]
    out = fork_map(_record, jobs)
    traces = []
    for job, (st, val) in zip(jobs, out):
        if st == 'ok':
            traces.append(val)
        else:
            res.bad.append({'owners': None, 'clause': 'harness', 'op': '', 'what': 'the space could not be observed: ' + val[-300:],
                            'job': list(job)})
    if traces:
        fails, states, trans = validate(traces)
        res.add(states=states, transitions=trans, traces=len(traces), events=sum(len(t['evs']) for t in traces))
        judge(res, traces, fails, own.owners)
        res.samples.append({'kind': 'recorded execution checked against the specification', 'mode': traces[0]['mode'],
                            'events': brief(traces[0]['evs'][-4:])})
    return res


def brief(evs):
    return [{k: v for k, v in ev.items() if k not in ('d', 'rd', 'fs')} for ev in evs]


# -- the model explored exhaustively, its transitions replayed ---------------
def mc_engine(profile, depth, seed, limit=None, emit=True):
    import own
    res = Result(f'model/{profile}')
    rc, out = run_tlc('MC_Space', env={'PROFILE': profile, 'DEPTH': str(depth), 'EMIT': '1' if emit else '0'})
    if rc != 0:
        raise common.TlcError('MC_Space: ' + out[-2000:])
    gen, states = tlc_stats(out)
    res.add(model_states=states, model_transitions=gen - 1)
    for f in parse_marked(out, '@@MFAIL '):
        for b in f['bad']:
            res.bad.append({'owners': own.owners('', b), 'clause': 'model:' + b, 'op': '', 'what': 'the model itself breaks ' + b,
                            'trace': {'mode': 'mem', 'evs': f['h']}, 'upto': len(f['h'])})
    if not emit:
        return res
    setup = parse_marked(out, '@@SETUP ')[0]
    groups = {}
    for h in parse_marked(out, '@@H '):
        groups.setdefault(json.dumps(h['h'][:-1], sort_keys=True), []).append(h['h'])
    keys = sorted(groups)
    random.Random(seed).shuffle(keys)
    keys.sort(key=lambda k: len(groups[k][0]) > 2)      # all shallow ones first
    jobs, total = [], 0
    for k in keys:
        if limit and total >= limit:
            break
        jobs.append((setup, groups[k]))
        total += len(groups[k])
    out = fork_map(_star, jobs)
    traces = []
    for job, (st, val) in zip(jobs, out):
        if st == 'ok':
            traces.append(val)
        else:
            res.bad.append({'owners': None, 'clause': 'harness', 'op': '', 'what': 'replay failed: ' + val[-300:], 'job': []})
    if traces:
        fails, states, trans = validate(traces)
        res.add(states=states, transitions=trans, traces=len(traces), replayed=total)
        judge(res, traces, fails, own.owners)
        tr = traces[-1]
        res.samples.append({'kind': 'transition of the model replayed on the code',
                            'history': brief(tr['prefix'] + tr['evs'][:1])})
    return res


def _star(job):
    """Run a history prefix once and every event that follows it on a copy."""
    import shutil
    import gen
    import observe
    import space
    import toron
    setup, hists = job
    with common.Scratch() as d:
        others = {u: space.make_other(u, d) for u in gen.UIDS}
        sub = space.Subject(d, others, 'rw')
        prefix = [dict(ev, fs=1) for ev in setup + hists[0][:-1]]
        for ev in prefix:
            sub.run(ev)
        sub.sp = None
        base = sub.file
        init, used = sub.state, sub.used
        evs = []
        for k, h in enumerate(sorted(hists, key=lambda h: json.dumps(h[-1], sort_keys=True))):
            path = os.path.join(d, f'branch{k}.toron')
            shutil.copy(base, path)
            child = space.Subject.attach(d, others, path, init, sub.memo)
            evs.append(child.run(dict(h[-1], fs=k)))
            evs.append({'op': 'reset', 'res': 'ok', 'd': {}})
            child.sp = None
            os.unlink(path)
    return {'mode': 'rw', 'init': init, 'used': used, 'evs': evs, 'prefix': prefix}


# -- readers, translations, pivots -------------------------------------------
def _flow(job):
    import flow
    seed, opts, cases = job
    with common.Scratch() as d:
        return flow.record(seed, d, opts, cases)


def _flow_case(case):
    import flow
    with common.Scratch() as d:
        return flow.record_case(case, d)


def run_traces(res, func, jobs, module, owners, by_trace=False, batch=1500):
    """Record one trace per job, have TLC judge them all, collect what differs."""
    for k in range(0, len(jobs), batch):
        part = jobs[k:k + batch]
        traces = []
        for job, (st, val) in zip(part, fork_map(func, part)):
            if st == 'ok':
                traces.append(val)
            else:
                res.bad.append({'owners': None, 'clause': 'harness', 'op': '', 'job': job,
                                'what': 'could not be recorded: ' + val[-300:]})
        if traces:
            fails, states, trans = validate(traces, module)
            res.add(states=states, transitions=trans, traces=len(traces), events=sum(len(t['evs']) for t in traces))
            judge(res, traces, fails, owners, by_trace)
            if not res.samples:
                res.samples.append({'kind': 'recorded execution checked against ' + module,
                                    'events': brief(traces[-1]['evs'][-3:])})
    return res


def flow_engine(count, seed, opts=None, cases=10):
    import flow
    res = Result('flows' + ('/quantized' if opts else ''))
    jobs = [(seed * 1000003 + k, opts or {}, cases) for k in range(count)]
    return run_traces(res, _flow, jobs, 'Trace_Flow', flow.owners, True)


def model_cases(res, module, env, mark='@@C '):
    rc, out = run_tlc(module, env=dict(env, EMIT='1'))
    if rc != 0:
        raise common.TlcError(module + ': ' + '\n'.join(l for l in out.splitlines() if not l.startswith('"@@'))[-2500:])
    gen, states = tlc_stats(out)
    res.add(model_states=states, model_transitions=gen - 1)
    return sorted(parse_marked(out, mark), key=lambda c: json.dumps(c, sort_keys=True))


def pick(cases, limit, seed):
    if limit and len(cases) > limit:
        return random.Random(seed).sample(cases, limit)
    return cases


def mc_flow_engine(profile, seed, limit):
    import flow
    res = Result('model/flow-' + profile)
    cases = pick(model_cases(res, 'MC_Flow', {'PROFILE': profile}), limit, seed)
    return run_traces(res, _flow_case, cases, 'Trace_Flow', flow.owners, True)


# -- label pairs matched, loaded and reported ----------------------------------
def _match(job):
    import match
    seed, opts, cases = job
    with common.Scratch() as d:
        return match.record(seed, d, opts, cases)


def _match_case(case):
    import match
    with common.Scratch() as d:
        return match.record_case(case, d)


def match_engine(count, seed, opts=None, cases=10):
    import match
    res = Result('matching' + (f'/{opts["focus"]}' if opts else ''))
    jobs = [(seed * 1000003 + k, opts or {}, cases) for k in range(count)]
    return run_traces(res, _match, jobs, 'Trace_Match', match.owners)


def mc_match_engine(seed, limit, step):
    import match
    res = Result('model/match')
    cases = pick(model_cases(res, 'MC_Match', {'STEP': str(step)}), limit, seed)
    return run_traces(res, _match_case, cases, 'Trace_Match', match.owners)


# -- operations disturbed half-way ---------------------------------------------
def _faults(job):
    import faults
    seed, ops, budget = job
    with common.Scratch() as d:
        return faults.record(seed, 'C08', d, ops, budget)


def faults_engine(count, seed, ops, budget):
    import faults
    res = Result('faults')
    jobs = [(seed * 1000003 + k, ops, budget) for k in range(count)]
    traces = []
    for job, (st, val) in zip(jobs, fork_map(_faults, jobs, timeout=None)):
        if st == 'ok':
            traces += val
        else:
            res.bad.append({'owners': None, 'clause': 'harness', 'op': '', 'job': job,
                            'what': 'could not be recorded: ' + val[-300:]})
    kinds = {}
    for k in range(0, len(traces), 1500):
        part = traces[k:k + 1500]
        fails, states, trans = validate(part)
        res.add(states=states, transitions=trans, traces=len(part), events=sum(len(t['evs']) // 2 for t in part))
        judge(res, part, fails, faults.owners)
        for t in part:
            for e in t['evs']:
                if 'fault' in e:
                    kinds[e['fault'] + ' -> ' + e['res']] = kinds.get(e['fault'] + ' -> ' + e['res'], 0) + 1
    res.cov['faults'] = kinds
    if traces:
        res.samples.append({'kind': 'operation disturbed half-way, outcome checked against the specification',
                            'events': brief(traces[-1]['evs'][-4:])})
    return res


# -- files and the spaces opened on them ---------------------------------------
def _storage(job):
    import storage
    seed, opts, length = job
    with common.Scratch() as d:
        return storage.record(seed, d, opts, length)


def _storage_case(evs):
    import storage
    with common.Scratch() as d:
        return storage.record_case(evs, d)


def storage_engine(count, seed, length=25):
    import storage
    res = Result('files')
    jobs = [(seed * 1000003 + k, {}, length) for k in range(count)]
    return run_traces(res, _storage, jobs, 'Trace_Storage', storage.owners, batch=800)


def tour_engine(count, seed):
    """Every kind of thing at a path, opened in every way."""
    import storage
    res = Result('tour')
    return run_traces(res, _storage_case, [storage.tour(seed * 1000003 + k) for k in range(count)], 'Trace_Storage', storage.owners, batch=2000)


def mc_storage_engine(profile, depth, emit_depth, seed, limit):
    """Explore the steps of saves and modifications; replay the histories."""
    import storage
    res = Result('model/storage-' + profile)
    rc, out = run_tlc('MC_Storage', env={'PROFILE': profile, 'DEPTH': str(depth), 'EMIT': '0'})
    if rc != 0:
        raise common.TlcError('MC_Storage: ' + out[-2000:])
    gen, states = tlc_stats(out)
    res.add(model_states=states, model_transitions=gen - 1)
    for f in parse_marked(out, '@@MFAIL '):
        res.bad.append({'owners': None, 'clause': 'model', 'op': '', 'what': f'the model itself fails: {f["res"]}',
                        'trace': {'kind': 'storage', 'evs': f['h']}, 'upto': len(f['h'])})
    if not limit:
        return res
    cases = model_cases(res, 'MC_Storage', {'PROFILE': profile, 'DEPTH': str(emit_depth)})
    cases = [storage.physical(c, k) for k, c in enumerate(pick([c for c in cases if len(c) == emit_depth], limit, seed))]
    return run_traces(res, _storage_case, cases, 'Trace_Storage', storage.owners, batch=2000)


# -- files of earlier formats --------------------------------------------------
def _migrate(job):
    import migrate
    seed, opts, cases = job
    with common.Scratch() as d:
        return migrate.record(seed, d, opts) if cases is None else migrate.record_cases(cases, d, seed)


def migrate_engine(count, seed, opts):
    import migrate
    res = Result('migrations')
    jobs = [(seed * 1000003 + k, opts, None) for k in range(count)]
    return run_traces(res, _migrate, jobs, 'Trace_Space', migrate.owners)


def mc_migrate_engine(profile, seed, limit, maxq, group=12):
    """Open every small old content TLC printed."""
    import migrate
    res = Result('model/migrate-' + profile)
    cases = pick(model_cases(res, 'MC_Migrate', {'PROFILE': profile, 'MAXQ': str(maxq)}), limit, seed)
    res.add(cases=len(cases))
    jobs = [(seed + k, None, cases[k:k + group]) for k in range(0, len(cases), group)]
    return run_traces(res, _migrate, jobs, 'Trace_Space', migrate.owners)


# -- the command line ------------------------------------------------------------
def _cli(job):
    import cli
    with common.Scratch() as d:
        return cli.record(job[0], d, job[1], job[2])


def _cli_case(case):
    import cli
    with common.Scratch() as d:
        return cli.record_case(case, d)


def cli_engine(count, seed, length=24, opts=None):
    import cli
    res = Result('commands')
    jobs = [(seed * 1000003 + k, opts or {}, length) for k in range(count)]
    return run_traces(res, _cli, jobs, 'Trace_Cli', cli.owners, batch=800)


def mc_cli_engine(profile, depth, emit_depth, seed, limit):
    """Explore histories of commands; run those that were printed for real."""
    import cli
    res = Result('model/cli-' + profile)
    rc, out = run_tlc('MC_Cli', env={'PROFILE': profile, 'DEPTH': str(depth), 'EMIT': '0'})
    if rc != 0:
        raise common.TlcError('MC_Cli: ' + out[-2000:])
    gen, states = tlc_stats(out)
    res.add(model_states=states, model_transitions=gen - 1)
    for f in parse_marked(out, '@@MFAIL '):
        res.bad.append({'owners': None, 'clause': 'model', 'op': '', 'what': f'the model itself fails: {f["bad"]}',
                        'trace': {'kind': 'cli', 'case': {'seed': 1, 'prefix': f['h'][:-1], 'last': f['h'][-1:]}, 'evs': f['h']},
                        'upto': len(f['h'])})
    rc, out = run_tlc('MC_Cli', env={'PROFILE': profile, 'DEPTH': str(emit_depth), 'EMIT': '1'})
    if rc != 0:
        raise common.TlcError('MC_Cli: ' + out[-2000:])
    setup = parse_marked(out, '@@SETUP ')[0]
    groups = {}
    for h in parse_marked(out, '@@H '):
        groups.setdefault(json.dumps(h['h'][:-1], sort_keys=True), []).append(h['h'])
    keys = sorted(groups)
    random.Random(seed).shuffle(keys)
    keys.sort(key=lambda k: len(groups[k][0]))
    jobs, total = [], 0
    for k in keys:
        if limit and total >= limit:
            break
        hs = sorted(groups[k], key=lambda h: json.dumps(h[-1], sort_keys=True))
        for j in range(0, len(hs), 25):
            jobs.append({'seed': seed + len(jobs), 'prefix': setup + hs[0][:-1], 'last': [h[-1] for h in hs[j:j + 25]]})
        total += len(hs)
    res.add(cases=total)
    return run_traces(res, _cli_case, jobs, 'Trace_Cli', cli.owners, batch=800)


# -- functions without state --------------------------------------------------
def _calls(job):
    import calls
    name, arg = job
    return getattr(calls, name)(arg)


def calls_engine(name, count, seed):
    import calls
    res = Result('calls/' + name)
    jobs = [(name, seed * 1000003 + k) for k in range(count)]
    return run_traces(res, _calls, jobs, 'Trace_Calls', calls.owners)


def mc_calls_engine(module, name, env, seed, limit, group=20):
    """Ask the code every question TLC printed; have TLC judge the answers."""
    import calls
    res = Result('model/' + module)
    cases = pick(model_cases(res, module, env), limit, seed)
    res.add(cases=len(cases))
    jobs = [(name, cases[k:k + group]) for k in range(0, len(cases), group)]
    return run_traces(res, _calls, jobs, 'Trace_Calls', calls.owners)
