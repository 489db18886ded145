#!/usr/bin/env python3
"""campaign.py OUT LANE LANES PERFILE [FILEREGEX]: runs sampled mutants (made by main.go) through the checks that own the changed file.
A development aid: nothing in MANIFEST.json uses it. One JSON line per mutant is appended to OUT."""
import json, os, random, re, shutil, subprocess, sys, time
OUT, LANE, LANES, PER = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
RX = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE))
MAP = [
 (r'cmd/.*/(state|widget)/|internal/ui/|internal/tracker/', 'P33 P27 P25 P18 P16 P32'),
 (r'internal/pbf/', 'P01 P27 P28 P18 P29 P19 P30 P02 P16'),
 (r'internal/pool/', 'P17 P16 P28 P02'),
 (r'internal/pb/', 'P13 P14 P05 P08 P09 P06 P03 P30 P38'),
 (r'internal/t/string_table', 'P31 P14 P13 P09 P30'),
 (r'internal/t/', 'P14 P10 P30 P01 P05 P09 P11 P12 P03 P06 P08 P17 P19 P38'),
 (r'internal/nodeindex/', 'P03 P04 P22 P20 P29 P23 P05 P32 P28 P36 P39'),
 (r'internal/wayindex/', 'P06 P07 P22 P20 P29 P23 P08 P32 P28 P39'),
 (r'internal/morton/', 'P15 P03'),
 (r'internal/iunsafe/', 'P26 P03 P06'),
 (r'internal/iio/', 'P19 P28 P29 P24 P03 P06 P11 P32'),
 (r'internal/tracker/', 'P25 P16'),
 (r'internal/ui/', 'P27 P32 P18 P25 P16'),
 (r'internal/system/', 'P32 P24 P19 P18 P34'),
 (r'internal/args/', 'P32'),
 (r'internal/imath/', 'P11 P27 P04 P07'),
 (r'cmd/nodeindex/', 'P03 P22 P29 P18 P24 P27 P25 P32 P19 P28 P33'),
 (r'cmd/wayindex/', 'P06 P22 P29 P18 P24 P27 P25 P32 P19 P28 P33'),
 (r'cmd/rewritenodes/', 'P05 P11 P36 P21 P18 P24 P27 P25 P32 P19 P28 P29 P33 P35'),
 (r'cmd/relindex/', 'P08 P36 P18 P24 P27 P25 P32 P19 P28 P29 P33'),
 (r'cmd/tagfilter/', 'P09 P10 P18 P24 P27 P25 P32 P19 P28 P33'),
 (r'cmd/decompress/', 'P10 P18 P24 P27 P25 P32 P19 P28 P33'),
 (r'cmd/blockcount/', 'P11 P24 P32 P19 P30'),
 (r'cmd/entitycount/', 'P11 P24 P32 P30 P19'),
 (r'cmd/entityfind/', 'P12 P24 P32 P30 P19'),
 (r'cmd/dump', 'P23 P24 P32 P29 P19'),
]
def props(f):
    for r, p in MAP:
        if re.match(r, f): return p.split()
    return []
def sh(cmd, **k):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], capture_output=True, text=True, **k)
base = f'/tmp/lane{LANE}'
shutil.rmtree(base, ignore_errors=True); os.makedirs(base + '/ev'); os.makedirs(base + '/rp')
repo = base + '/repo'; subprocess.check_call(['cp', '-a', '/repo', repo])
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d['file'], d['what'], d['line']))
files = sh('cd /repo && git ls-files "*.go" | grep -v _test.go').stdout.split()
jobs = []
for f in files:
    if not RX.search(f): continue
    if 'observe_o' in f: continue
    d = base + '/m/' + f.replace('/', '_')
    sh(f'/tmp/mutate /repo {f} {d}')
    ms = [l.rstrip('\n').split('\t') for l in open(d + '/list')]
    ms = [m for m in ms if re.search(os.environ.get('KINDS', '.'), m[2])]
    # state shown on the screen for a moment: nothing can miss one in 257
    ms = [m for m in ms if not (m[2] == 'rare' and re.search(r'SetCurrentState|SetState|TrackWorker|NextWay|state\.', m[3]))]
    random.Random(f).shuffle(ms)
    for m in ms[:PER]: jobs.append((f, d, m))
random.Random(5).shuffle(jobs)
for i, (f, d, (n, line, kind, what)) in enumerate(jobs):
    if i % LANES != LANE or (f, what, int(line)) in done: continue
    shutil.copy(f'{d}/{n}.go', f'{repo}/{f}')
    t0 = time.time(); res = {'file': f, 'n': n, 'line': int(line), 'kind': kind, 'what': what}
    b = sh(f'cd {repo} && go build ./... && go vet ./internal/pool >/dev/null 2>&1; go build ./...', timeout=300)
    if b.returncode: res['status'] = 'nobuild'
    elif sh(f'cd {repo} && timeout 60 go test ./... >/dev/null 2>&1').returncode: res['status'] = 'tests'
    else:
        res['status'] = 'SURVIVED'; res['odd'] = []
        for p in props(f):
            r = subprocess.run(['timeout', '900', VERIF + '/run.sh', p], capture_output=True, text=True,
                env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=base + '/ev', VERIF_REPLAYS=base + '/rp', VERIF_SEED='1', VERIF_TIER='quick'))
            if r.returncode == 1 and 'VIOLATION' in r.stdout: res['status'] = 'killed'; res['by'] = p; break
            if r.returncode != 0: res['odd'].append(f'{p}:{r.returncode}')
        shutil.rmtree(base + '/rp', ignore_errors=True); os.makedirs(base + '/rp')
    res['s'] = round(time.time() - t0)
    sh(f'cd {repo} && git checkout -q -- .')
    with open(OUT, 'a') as o: o.write(json.dumps(res) + '\n')
