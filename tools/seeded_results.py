"""Runs the own check of every planted bug on a scratch copy with the bug; writes tools/seeded_results.json. Args: planted bugs (default all)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, 'tools/seeded_results.json')
res = json.load(open(out)) if os.path.exists(out) else {}
for s in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    c = json.load(open(f'{V}/seeded/{s}/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        shutil.copytree('/repo', tmp + '/r', symlinks=True)
        subprocess.run(['git', 'apply', f'{V}/seeded/{s}/patch.diff'], cwd=tmp + '/r', check=True)
        r = subprocess.run(['./check', c, 'quick'], cwd=V, env={**os.environ, 'RICHARD_REPO': tmp + '/r'}, capture_output=True, text=True)
    finally:
        shutil.rmtree(tmp)
    hit = r.returncode == 1 and f'VIOLATION property={c}' in r.stdout
    res[s] = [c] if hit else []
    print('CAUGHT' if hit else 'MISSED', c, s, flush=True)
res = {s: v for s, v in sorted(res.items()) if os.path.exists(f'{V}/seeded/{s}')}
json.dump(res, open(out, 'w'), indent=1)
