#!/usr/bin/env python3
"""try_seeded.py [-all] [-t TIER] [BUG...]: applies each planted bug to a scratch copy of /repo and
runs the check of its property (-all: every check) against it. No check uses this."""
import json, os, subprocess, sys, tempfile, glob
args = sys.argv[1:]
every = '-all' in args
tier = args[args.index('-t') + 1] if '-t' in args else 'quick'
names = [a for a in args if not a.startswith('-') and a != tier] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob('/verif/seeded/*/meta.json'))
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
ids = [i for i in ids if i.startswith('C')]
evid = tempfile.mkdtemp(prefix='seeded.')
for n in names:
    d = '/verif/seeded/' + n
    meta = json.load(open(d + '/meta.json'))
    with tempfile.TemporaryDirectory(prefix='seeded.') as w:
        r = w + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, check=True)
        out = []
        for i in ids if every else [meta['property']]:
            p = subprocess.run(['/verif/check', i, tier, '-evidence', w + '/e.json', '-replays', w + '/replays'], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            line = [l for l in p.stdout.split('\n') if 'VIOLATION' in l or 'violat' in l][:2]
            if p.returncode == 1:
                out.append(i + ('' if every else ' ' + ' '.join(line)[:160]))
            elif p.returncode != 0:
                out.append('%s=rc%d %s' % (i, p.returncode, p.stdout[-300:]))
        print(n, meta['property'], 'CAUGHT' if any(o.startswith(meta['property']) and '=rc' not in o for o in out) else 'MISSED', ' | '.join(out), flush=True)
