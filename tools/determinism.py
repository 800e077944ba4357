"""Same seed, same executions: python3 tools/determinism.py [--runs N] [ID ...]

Runs each check three times on N runs (1 worker; 3 workers; another
PYTHONHASHSEED and 4 workers) and compares the digests over plan, schedule and
history of every run.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(pid, runs, workers, hashseed):
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, VERIF_EVIDENCE=d, VERIF_REPLAYS=d, PYTHONHASHSEED=hashseed)
        subprocess.run(
            [os.path.join(HERE, 'check'), pid, '--runs', str(runs), '--workers', str(workers)],
            cwd=HERE, env=env, check=True, stdout=subprocess.DEVNULL)
        text = json.dumps(json.load(open(os.path.join(d, pid + '.json'))))
    i = text.index('"digest": ')
    return json.JSONDecoder().raw_decode(text[i + len('"digest": '):])[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--runs', type=int, default=200)
    args = ap.parse_args()
    bad = 0
    for pid in args.ids or ['C{0:02}'.format(i) for i in range(1, 21)]:
        found = [digest(pid, args.runs, *how) for how in ((1, '0'), (3, '0'), (4, '12345'))]
        same = len(set(found)) == 1
        bad += not same
        print(pid, 'same' if same else 'DIFFERENT', found if not same else found[0], flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
