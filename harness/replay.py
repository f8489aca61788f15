"""replay.py FILE: run the events of a replay file again and judge them."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import engines


def main(argv):
    doc = json.load(open(argv[0]))
    tr = doc.get('trace')
    print(doc['what'])
    if not tr:
        return 0
    if tr.get('kind', 'space') != 'space':
        import importlib
        return importlib.import_module(tr['kind']).replay(doc)
    import record
    with common.Scratch() as d:
        out = record.replay(tr, d)
    fails, _, _ = engines.validate([out])
    for f in fails:
        ev = out['evs'][f['i'] - 1]
        print(f"event {f['i']} of {len(out['evs'])}: {json.dumps({k: v for k, v in ev.items() if k != 'd'})}")
        print('   changed:', json.dumps(ev['d'])[:600])
        print('   differs:', f['bad'])
    if not fails:
        print('no difference on this run')
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
