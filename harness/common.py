"""Shared plumbing: where things are, running TLC, evidence files."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TORON_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, os.path.join(REPO, 'src'))

SCALE = 720720
NOID, JUNKID, BLANK, BAD = -9, -8, -900001, -900002

TLA_DIR = '/opt/veriftools/tla'
CP = ':'.join(os.path.join(TLA_DIR, x) for x in ('tla2tools.jar', 'CommunityModules-deps.jar'))
WORKERS = str(min(8, os.cpu_count() or 4))


def find_classpath():
    """Return TLC's class path (the jars beside the tlc launcher)."""
    if os.path.exists(CP.split(':')[0]):
        return ':'.join(os.path.join(TLA_DIR, x) for x in sorted(os.listdir(TLA_DIR)) if x.endswith('.jar'))
    exe = shutil.which('tlc')
    text = open(exe).read()
    m = re.search(r'-cp\s+"?([^\s"]+)', text)
    return m.group(1)


class Scratch:
    """A private scratch directory under /tmp that is always removed."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='toronchk-')
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


class TlcError(Exception):
    pass


def run_tlc(module, *, env=None, cfg=None, args=(), timeout=800, workers=None, heap='6g', workdir=None):
    """Run TLC on a module of /verif/spec and return its output text."""
    own = None
    if workdir is None:
        own = workdir = tempfile.mkdtemp(prefix='toronchk-tlc-')
    try:
        for name in os.listdir(SPEC):
            if name.endswith('.tla') or name.endswith('.cfg'):
                dst = os.path.join(workdir, name)
                if not os.path.exists(dst):
                    shutil.copy(os.path.join(SPEC, name), dst)
        cfgname = cfg or f'{module}.cfg'
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC',
               '-Djava.io.tmpdir=' + workdir, '-cp', find_classpath(), 'tlc2.TLC',
               '-metadir', os.path.join(workdir, 'states'), '-workers', workers or WORKERS,
               '-config', cfgname, *args, f'{module}.tla']
        full_env = dict(os.environ)
        full_env.update(env or {})
        if 'RANK' not in full_env:
            write_json(os.path.join(workdir, 'rank.json'), splitmix_rank())
            full_env['RANK'] = os.path.join(workdir, 'rank.json')
        proc = subprocess.run(cmd, cwd=workdir, env=full_env, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return proc.returncode, proc.stdout
    finally:
        if own:
            shutil.rmtree(own, ignore_errors=True)


def splitmix_rank(n=64):
    """Ids 0..n-1 ordered by SplitMix64 (written from its published definition)."""
    def mix(x):
        m = (1 << 64) - 1
        z = (x + 0x9e3779b97f4a7c15) & m
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & m
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & m
        return z ^ (z >> 31)
    return sorted(range(n), key=mix)


def tlc_stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def parse_marked(out, mark):
    """Return the JSON payloads TLC printed as strings starting with mark."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + mark):
            text = json.loads(line) if _is_json(line) else _unescape(line)
            res.append(json.loads(text[len(mark):]))
    return res


def _is_json(line):
    try:
        json.loads(line)
        return True
    except ValueError:
        return False


def _unescape(line):
    return line[1:-1].replace('\\"', '"').replace('\\\\', '\\')


def ids_hash(ids):
    h = hashlib.sha256()
    for i in sorted(ids):
        h.update(int(i).to_bytes(8, 'big'))
    return h.hexdigest()


def write_json(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f, ensure_ascii=True, separators=(',', ':'))


def write_evidence(prop, tier, level, coverage, wall_s, assumptions=None, violations=0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    doc = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
           'level': level, 'coverage': coverage, 'wall_s': round(wall_s, 2)}
    if assumptions:
        doc['assumptions'] = assumptions
    doc['violations'] = violations
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(doc, f, indent=1)
