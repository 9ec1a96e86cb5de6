#!/usr/bin/env python3
"""mutate.py <seed> <count> [file-substring]: random small mutants of /repo's sources (run in a mount-namespace with copies of /repo and /verif):
those that build and pass the stable tests are given to the checks of the properties anchored there; survivors are logged to /tmp/mut.log"""
import re, sys, random, subprocess, json, os
R = '/repo/src/'
MAP = [('routing/dijkstra.rs', 'C01 C02 C03', 4), ('routing/paths.rs', 'C07 C14 C02', 2), ('network/graph/building.rs', 'C04 C05 C06 C08 C09', 10), ('network/graph/mod.rs', 'C04 C05 C06 C07 C13', 5), ('network/graph/indexing.rs', 'C04 C05', 1), ('network/mod.rs', 'C15 C04', 1),
       ('io/parsing/network/graph/fmi.rs', 'C11 C12', 4), ('io/parsing/network/graph/mod.rs', 'C11 C12 C15 C18', 2), ('io/parsing/network/edges.rs', 'C09 C12 C18', 1), ('io/parsing/network/graph/pbf.rs', 'C15', 3), ('io/parsing/routing/routes.rs', 'C14 C12 C18', 2),
       ('io/writing/routing/random_or_all.rs', 'C14 C18', 2), ('io/writing/network/mod.rs', 'C13', 2), ('io/writing/network/edges.rs', 'C13 C18', 2), ('io/writing/network/graph/fmi.rs', 'C13 C18', 2), ('io/writing/smarts.rs', 'C14 C18', 1), ('io/mod.rs', 'C19 C12', 1),
       ('configs/routing.rs', 'C19', 2), ('configs/parsing/mod.rs', 'C19', 1), ('configs/parsing/edges/mod.rs', 'C19', 2), ('configs/parsing/edges/metrics.rs', 'C19 C10', 2), ('configs/parsing/generating/edges/mod.rs', 'C09 C19', 2), ('configs/parsing/generating/edges/metrics.rs', 'C10 C09', 2), ('configs/parsing/nodes/mod.rs', 'C19 C11', 1), ('configs/parsing/vehicles.rs', 'C19 C15', 1),
       ('configs/writing/network/edges.rs', 'C19 C13', 1), ('configs/writing/network/graph/mod.rs', 'C19 C13', 1), ('configs/writing/routing.rs', 'C19 C14', 1), ('approximating.rs', 'C17', 3), ('helpers/algebra.rs', 'C20', 1), ('helpers/mod.rs', 'C20', 1), ('defaults.rs', 'C16', 4),
       ('routing/explorating.rs', 'C21', 4), ('configs/balancing.rs', 'C22 C24', 2), ('bin/osmgraphing/balancing/mod.rs', 'C23 C24', 4), ('bin/osmgraphing/balancing/multithreading.rs', 'C23', 4), ('bin/osmgraphing/mod.rs', 'C24', 4), ('multi_ch_constructor/mod.rs', 'C24', 1), ('multi_ch_constructor/configs.rs', 'C24', 1), ('bin/multi-ch-constructor.rs', 'C24', 1), ('configs/evaluating_balance.rs', 'C24', 1), ('io/writing/evaluating_balance.rs', 'C23', 1)]
OPS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\b0\.\.', ['1..']), (r'\bcontinue\b', ['break']), (r'\bbreak\b', ['continue']), (r'\.rev\(\)', ['']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']), (r'\bsrc', ['dst']), (r'\bdst', ['src']), (r'\.lat\b', ['.lon']), (r'\bis_none\(\)', ['is_some()']), (r'\bis_some\(\)', ['is_none()']), (r'\bfwd', ['bwd']), (r'\bbwd', ['fwd']),
       (r'\bmax\(', ['min(']), (r'\bmin\(', ['max(']), (r'Some\((\w+)\)(?!.*=>)', ['None']), (r'\bany\(', ['all(']), (r'\ball\(', ['any(']), (r' \*= ', [' /= ']), (r' /= ', [' *= ']), (r' \+= ', [' -= ', ' = ']), (r'if !', ['if ']), (r'if (?!let)(?!!)([\w.()]+) \{', [r'if !\1 {']), (r'\b(\d+)\b', ['7']), (r'^(\s+)[\w.]+(\.\w+\(.*\))+\??;$', [r'\1']), (r'^(\s+)[\w.\[\]*]+ [-+*/]?= .*;$', [r'\1']), (r'Less', ['Greater']), (r'Greater', ['Less']), (r'Idx0', ['Idx1']), (r'NodeIdx', ['NodeId'])]
def sh(c, t=1000):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired: return None
def main():
    rnd = random.Random(int(sys.argv[1])); n = int(sys.argv[2]); sub = sys.argv[3] if len(sys.argv) > 3 else ''
    files = [m for m in MAP if sub in m[0]]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    stat = {}
    def log(*a):
        with open('/tmp/mut.log', 'a') as f: print(*a, file=f, flush=True)
    k = 0
    while k < n:
        f, props, _ = rnd.choices(files, [m[2] for m in files])[0]
        lines = open(R + f).read().split('\n')
        i = rnd.randrange(len(lines)); l = lines[i]
        s = l.strip()
        if not s or s.startswith(('//', 'use ', '#', 'pub mod', 'info!', '///')) or 'info!' in l or 'progress' in l or '"' in l and rnd.random() < .8 or 'cfg(test)' in l: continue
        c = [(m, r) for p, rs in OPS for m in re.finditer(p, l) for r in rs]
        if not c: continue
        m, r = rnd.choice(c)
        new = l[:m.start()] + m.expand(r) + l[m.end():]
        if new == l: continue
        k += 1
        lines[i] = new
        open(R + f, 'w').write('\n'.join(lines))
        tag = '%s:%d  %s  ==>  %s' % (f, i + 1, l.strip(), new.strip())
        try:
            b = sh('bash /opt/vp/build.sh', 300)
            if b is None or b.returncode: stat['nobuild'] = stat.get('nobuild', 0) + 1; continue
            sh('timeout 120 bash /opt/vp/test.sh /tmp/mut.json', 150)
            try: o = json.load(open('/tmp/mut.json'))
            except Exception: o = {'passed': []}
            os.path.exists('/tmp/mut.json') and os.remove('/tmp/mut.json')
            if [t for t in stable if t not in o['passed']]: stat['tests'] = stat.get('tests', 0) + 1; continue
            res = 'SURVIVED'
            for p in props.split():
                c = sh('cd /verif && python3 check.py %s quick' % p, 900)
                if c is None: res = 'timeout ' + p; break
                if c.returncode == 1: res = 'caught ' + p; break
                if c.returncode: res = 'rc%d %s %s' % (c.returncode, p, c.stdout.decode()[-200:]); break
            log(res, '|', tag)
            stat[res.split()[0]] = stat.get(res.split()[0], 0) + 1
        finally:
            sh('git -C /repo checkout -q -- .')
            log('#', stat) if k % 10 == 0 else None
    log('END', sys.argv, stat)
main()
