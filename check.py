#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decide one property by symbolic execution of /repo's current code.

Builds the harness of the property together with /repo into one LLVM module, executes every harness entry
symbolically (engine/symex, Z3), replays sampled paths and every counterexample natively, writes evidence.
Exit 0: held for every input within the bounds. Exit 1: VIOLATION line. Exit 2: no answer (error)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from specs import SPECS

def native(exe, entry, replay, workdir, timeout=20):
    """returns (kind, text, obs): kind in ok, check, panic, hang, assume, other"""
    d = tempfile.mkdtemp(prefix='nat-', dir=workdir)
    obs = os.path.join(workdir, 'obs.txt')
    try:
        open(obs, 'w').close()
        env = dict(os.environ, RUST_BACKTRACE='0')
        try:
            p = subprocess.run([exe, entry, replay, obs], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return 'hang', 'no end after %d s' % timeout, ''
        err = p.stderr.decode('utf-8', 'replace').strip()
        o = open(obs).read()
        if p.returncode == 0: return 'ok', '', o
        if p.returncode == 1 and 'CHECK-FAIL' in err: return 'check', err[-400:], o
        if p.returncode == 3: return 'assume', err[-200:], o
        if p.returncode < 0 or p.returncode == 101: return 'panic', err[-600:], o
        return 'other', 'exit %d: %s' % (p.returncode, err[-300:]), o
    finally:
        shutil.rmtree(d, ignore_errors=True)

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = SPECS[prop]
    feat = prop.lower()
    t0 = time.time()
    out = os.path.join(V, 'build', feat)
    work = os.path.join(out, 'work')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in ('harness', 'harness.bc'):
        try: os.remove(os.path.join(out, f))
        except OSError: pass
    b = subprocess.run(['bash', os.path.join(V, 'build.sh'), feat, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode:
        sys.stdout.write(b.stdout.decode('utf-8', 'replace')[-3000:] + '\nERROR: build failed\n')
        return 2
    tbuild = time.time() - t0
    exe, bc, symex = os.path.join(out, 'harness'), os.path.join(out, 'harness.bc'), os.path.join(V, 'build/engine/symex')
    jobs = str(os.cpu_count() or 8)
    tot, funcs, checks, samples, harnesses, violations, errors = {}, set(), set(), [], [], [], []
    validated = 0
    cexdir = os.path.join(V, 'build', 'cex', prop)
    shutil.rmtree(cexdir, ignore_errors=True)
    for h in spec['harnesses']:
        if tier not in h.get('tiers', ('quick', 'thorough')): continue
        entry = h['entry']
        o = os.path.join(work, entry); os.makedirs(o)
        th = time.time()
        lim = h.get('max_time', 600 if tier == 'quick' else 6000)
        if tier == 'quick': lim = max(20, min(lim, 830 - (time.time() - t0)))
        cmd = [symex, '--entry', entry, '--out', o, '--jobs', jobs, '--seed', str(seed), '--max-time', str(lim), '--samples', str(h.get('samples', 4)), '--max-steps', str(h.get('max_steps', 50000000))] + h.get('opts', []) + [bc]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        covers, st = set(), {}
        for f in sorted(os.listdir(o)):
            if not f.startswith('worker-'): continue
            for line in open(os.path.join(o, f)):
                a = line.rstrip('\n').split(' ', 2)
                if a[0] == 'stat': st[a[1]] = st.get(a[1], 0) + int(a[2])
                elif a[0] == 'cover': covers.add(line[6:].strip())
                elif a[0] == 'check': checks.add(line[6:].strip())
                elif a[0] == 'func': funcs.add(line[5:].strip())
        for k, v in st.items(): tot[k] = tot.get(k, 0) + v
        rec = {'entry': entry, 'what': h['what'], 'bounds': h['bounds'], 'seconds': round(time.time() - th, 2)}
        rec.update({k: st.get(k, 0) for k in ('paths', 'infeasible', 'queries', 'sat', 'unsat')})
        harnesses.append(rec)
        # counterexamples and unfinished paths are judged by the real code
        bad = sorted(f for f in os.listdir(o) if f.endswith('.replay') and not f.startswith('sample-'))
        conf = False
        for f in bad:
            kind, text, _ = native(exe, entry, os.path.join(o, f), work)
            desc = open(os.path.join(o, f.replace('.txt.replay', '.txt') if f.startswith('error') else f.replace('.replay', '.txt'))).read().strip()
            if kind in ('check', 'panic', 'hang'):
                os.makedirs(cexdir, exist_ok=True)
                dst = os.path.join(cexdir, entry + '.replay')
                shutil.copy(os.path.join(o, f), dst)
                with open(dst[:-7] + '.txt', 'w') as fh: fh.write('%s\nnative: %s %s\nrerun: %s %s %s /dev/null\n' % (desc, kind, text, exe, entry, dst))
                violations.append({'harness': entry, 'symbolic': desc.split('\n')[0], 'native': kind + ': ' + text.split('\n')[-1][:300], 'replay': dst})
                conf = True
                break
            errors.append('%s: %s; native replay says %s %s' % (entry, desc.split('\n')[0], kind, text[:200]))
        if not conf and p.returncode != 0 and not bad:
            msg = p.stdout.decode('utf-8', 'replace').strip()[-300:]
            for f in os.listdir(o):
                if f.startswith('error') and f.endswith('.txt'): msg += ' ' + open(os.path.join(o, f)).read()[:300]
            errors.append('%s: symex exit %d %s' % (entry, p.returncode, msg))
        if conf: break
        # translation validation: completed paths replayed through the native binary
        for f in sorted(x for x in os.listdir(o) if x.startswith('sample-')):
            path = os.path.join(o, f)
            kind, text, obs = native(exe, entry, path, work)
            want = ''.join(l for l in open(path) if l[0] in 'oe')
            if kind != 'ok' or want != obs: errors.append('%s: %s does not replay natively (%s %s)' % (entry, f, kind, text[:200]))
            else: validated += 1
            if len(samples) < 3 or (f == 'sample-0-0.replay' and len(samples) < 12):
                samples.append({'harness': entry, 'inputs': [l[2:].strip() for l in open(path) if l[0] == 'v'][:60], 'observed': [l[2:].strip() for l in open(path) if l[0] == 'o'][:30]})
        if not p.returncode:
            miss = [c for c in h.get('covers', []) if c not in covers]
            if miss: errors.append('%s: vacuous, never reached: %s' % (entry, ', '.join(miss)))
            if st.get('paths', 0) == 0: errors.append('%s: no complete path' % entry)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('forks', 0) + len(harnesses), 'transitions': tot.get('steps', 0),
            'traces_validated_against_impl': validated, 'samples': samples,
            'symbolic_paths': tot.get('paths', 0), 'infeasible_paths': tot.get('infeasible', 0),
            'solver_queries': tot.get('queries', 0), 'queries_sat': tot.get('sat', 0), 'queries_unsat': tot.get('unsat', 0),
            'queries_answered_by_earlier_unsat_core': tot.get('corehits', 0), 'solver_seconds': round(tot.get('solver_us', 0) / 1e6, 2),
            'harnesses': harnesses, 'assertions': sorted(checks), 'functions_encoded': sorted(funcs),
            'bounds': spec.get('bounds', ''), 'outside_bounds': spec.get('outside', ''), 'build_seconds': round(tbuild, 1),
        },
        'wall_s': round(time.time() - t0, 2), 'assumptions': spec.get('assumptions', []) + COMMON, 'violations': violations,
    }
    if errors: ev['errors'] = errors
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for h in harnesses: print('%(entry)s: %(paths)d paths, %(queries)d queries, %(seconds).1fs' % h)
    if violations:
        for v in violations: print('%s: %s | %s' % (v['harness'], v['symbolic'], v['native'])); print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        return 1
    if errors:
        for e in errors: print('ERROR: ' + e)
        return 2
    print('OK property=%s tier=%s: %d paths, %d queries, %d native replays, %.1fs' % (prop, tier, tot.get('paths', 0), tot.get('queries', 0), validated, time.time() - t0))
    return 0

COMMON = [
    'the harness and /repo are compiled by rustc 1.63 at opt-level 1 with overflow checks and debug assertions; the LLVM bitcode of that build is what is executed symbolically and what is replayed natively',
    'the environment (heap, files, clock, randomness) is the deterministic model of engine/libc.h: allocation never fails, files behave as POSIX files in one directory, HashMap seeds are zero',
    'Z3 4.8 answers, the bitcode interpreter and its exact finite-domain arithmetic on f64 are trusted; sampled paths are replayed natively and have to agree bit for bit',
]
if __name__ == '__main__': sys.exit(main())
