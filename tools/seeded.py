"""Confirm planted bugs: python3 tools/seeded.py [--checks] [--tier quick] [ID ...]

For each /verif/seeded/ID: the patch applies to a scratch copy of /repo, it
byte-compiles, the stable tests pass with it, demo.sh exits 0 without it and
non-zero with it.  With --checks the check of its property is run against the
patched copy too (or the checks named by --prop, comma separated).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    full = dict(os.environ, **(env or {}))
    done = subprocess.run(cmd, cwd=cwd, env=full, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return done.returncode, done.stdout.decode('utf-8', 'replace')


def demo(src, copy, scratch):
    """The demonstration, laid out without the patch and the description."""
    laid = os.path.join(scratch, 'demo')
    shutil.rmtree(laid, ignore_errors=True)
    os.mkdir(laid)
    for name in os.listdir(src):
        if name.endswith(('.diff', '.patch')) or name == 'meta.json':
            continue
        shutil.copy(os.path.join(src, name), laid)
    return sh(['bash', os.path.join(laid, 'demo.sh')], copy, timeout=300)


def stable(copy, scratch):
    test = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + copy)
    path = os.path.join(scratch, 'test.sh')
    open(path, 'w').write(test)
    out = os.path.join(scratch, 'out.json')
    code, text = sh(['bash', path, out], copy)
    return code == 0, text[-600:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks', action='store_true')
    ap.add_argument('--only-checks', action='store_true')
    ap.add_argument('--prop')
    ap.add_argument('--tier', default='quick')
    args = ap.parse_args()
    root = os.path.join(HERE, 'seeded')
    bad = 0
    for name in args.ids or sorted(os.listdir(root)):
        src = os.path.join(root, name)
        meta = json.load(open(os.path.join(src, 'meta.json')))
        scratch = tempfile.mkdtemp(prefix='seeded.')
        try:
            copy = os.path.join(scratch, 'repo')
            shutil.copytree('/repo', copy, symlinks=True)
            notes = []
            if not args.only_checks:
                code, text = demo(src, copy, scratch)
                notes.append('clean demo %s' % ('ok' if code == 0 else 'BAD\n' + text[-800:]))
                bad += code != 0
            code, text = sh(['git', 'apply', os.path.join(src, 'patch.diff')], copy)
            if code:
                notes.append('BAD patch ' + text)
                bad += 1
            if not args.only_checks:
                sh(['find', copy, '-name', '__pycache__', '-exec', 'rm', '-rf', '{}', '+'], copy)
                ok, text = stable(copy, scratch)
                notes.append('tests %s' % ('ok' if ok else 'BAD\n' + text))
                bad += not ok
                code, text = demo(src, copy, scratch)
                notes.append('patched demo %s' % ('ok(%d) %s' % (code, text.strip()[-120:]) if code else 'BAD (0)'))
                bad += code == 0
            if args.checks or args.only_checks:
                for prop in (args.prop.split(',') if args.prop else [meta['property']]):
                    code, text = sh(
                        [os.path.join(HERE, 'check'), prop], HERE,
                        {'VERIF_REPO': copy, 'VERIF_SEED': '1', 'VERIF_TIER': args.tier,
                         'VERIF_EVIDENCE': os.path.join(scratch, 'evidence'),
                         'VERIF_REPLAYS': os.path.join(scratch, 'replays')})
                    hit = code == 1 and 'VIOLATION property=%s ' % prop in text
                    notes.append('%s %s' % (prop, 'CAUGHT' if hit else 'missed (exit %d) %s' % (code, text[-200:])))
            print(name, meta['property'], '|', ' | '.join(notes), flush=True)
        finally:
            shutil.rmtree(scratch)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
