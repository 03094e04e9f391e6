#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.

1. extracts /repo/src/lib.rs mechanically, puts the contracts of /verif/spec on its functions and
   lets Verus discharge every obligation;
2. runs the bounded battery of the property against the real crate (labelled bounded);
3. a failed obligation of the property is a violation: a failing input is searched for with the
   battery; the replay file holds it, or the failed obligation and the verifier's output.
Exit 0: held; 1: VIOLATION line printed."""
import sys, os, re, json, subprocess, time, shutil, hashlib, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compose
from props import PROPS, CFG0
T0 = time.time()
VERIF = compose.VERIF
BUDGET = 840


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print('[%5.1fs]' % (time.time() - T0), *a, flush=True)


def sh(cmd, cwd=None, timeout=None, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        o = e.stdout.decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        return subprocess.CompletedProcess(cmd, 124, o, 'timeout')


def build_extract():
    if not os.path.exists(compose.EXTRACT):
        r = sh(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'tools/extract'), timeout=600)
        if r.returncode != 0:
            raise SystemExit('cannot build the extractor: ' + r.stderr[-1500:])


BAT = os.path.join(VERIF, 'battery/target/release/battery')


def build_battery():
    for _ in range(2):
        r = sh(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'battery'), timeout=600)
        if r.returncode == 0:
            return None
    return r.stderr[-3000:]


# ------------------------------------------------------------------------------------------
class Failure:
    def __init__(self, fn, kind, tag, src, msg, text):
        self.fn, self.kind, self.tag, self.src, self.msg, self.text = fn, kind, tag, src, msg, text

    def name(self):
        return '%s/%s%s @src/lib.rs:%s (%s)' % (self.fn, self.kind, ':' + self.tag if self.tag else '', self.src or '?', self.msg)


def classify(diag, out, gen):
    """one JSON diagnostic of Verus -> Failure, ('rlimit', fn), ('hard', fn, text) or None"""
    if diag.get('level') != 'error':
        return None
    msg = diag['message']
    if msg.startswith('aborting due to'):
        return None
    text = diag.get('rendered') or msg
    spans = []
    def add(d):
        for s in d.get('spans', []):
            spans.append(s)
        for c in d.get('children', []):
            add(c)
    add(diag)
    ms = []
    for s in spans:
        if os.path.basename(s['file_name']) == os.path.basename(gen):
            ln = s['line_start']
            m = out.meta[ln - 1] if 0 < ln <= len(out.meta) else None
            ms.append((s, m or {}))
    fn = next((m.get('fn') for s, m in ms if m.get('fn') and m.get('k') in ('body', 'inv', 'loopdec', 'hint')), None)
    anyfn = fn or next((m.get('fn') for s, m in ms if m.get('fn')), None)
    src = next((m.get('src') for s, m in ms if m.get('k') in ('body', 'inv', 'loopdec') and m.get('src')), None)
    if 'esource limit' in msg or 'rlimit' in msg:
        return ('rlimit', anyfn, text)
    low = msg.lower()
    if 'postcondition' in low:
        t = next((m for s, m in ms if m.get('k') == 'ens'), {})
        # clauses of nested functions stand in the body and carry their tag themselves
        hl = ' '.join(x['text'][x['highlight_start'] - 1:x['highlight_end'] - 1] for s, m in ms for x in s.get('text', [])[:1])
        nt = re.search(r'/\*@tag:(\w+)\*/', hl)
        return Failure(t.get('fn') or anyfn, 'ensures', t.get('tag') or (nt and nt.group(1)) or 'other', src, msg, text)
    if 'precondition' in low:
        t = next((m for s, m in ms if m.get('k') == 'req'), None)
        if t is not None:
            return Failure(fn or anyfn, 'requires of ' + t['fn'], t.get('tag') or 'other', src, msg, text)
        return Failure(fn or anyfn, 'requires', 'panic', src, msg, text)
    if 'invariant' in low:
        t = next((m for s, m in ms if m.get('k') == 'inv' and m.get('tag')), {})
        return Failure(fn or anyfn, 'invariant', t.get('tag') or 'other', src, msg, text)
    if 'decreases' in low or 'termination' in low:
        return Failure(anyfn, 'decreases', 'progress', src, msg, text)
    if 'arithmetic' in low or 'overflow' in low or 'underflow' in low or 'division' in low or 'index' in low or 'unreachable' in low:
        return Failure(anyfn, 'arithmetic', 'panic', src, msg, text)
    if 'assertion failed' in low:
        return Failure(anyfn, 'assert', 'other', src, msg, text)
    return ('hard', anyfn, text)


def run_verus(cfg, lib, contracts, degraded, only, gen, smt, timeout):
    out, info = compose.compose(cfg, lib, contracts, degraded, only=only, probe=True)
    open(gen, 'w').write(out.text())
    cmd = ['verus', gen, '--num-threads', '8', '--multiple-errors', '8', '--output-json', '--time-expanded', '--error-format=json']
    for o in smt:
        cmd += ['--smt-option', o]
    r = sh(cmd, cwd=os.path.dirname(gen), timeout=timeout)
    fails, rl, hard, probe = [], {}, [], False
    for l in r.stderr.split('\n'):
        if not l.startswith('{'):
            if 'panicked' in l or 'error: internal' in l:
                hard.append((None, l))
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        c = classify(d, out, gen)
        if c is None:
            continue
        if isinstance(c, Failure):
            if c.fn == '__probe':
                probe = True
            else:
                fails.append(c)
        elif c[0] == 'rlimit':
            rl[c[1]] = c[2]
        else:
            hard.append((c[1], c[2]))
    summ = {}
    try:
        summ = json.loads(r.stdout[r.stdout.index('{'):])
    except ValueError:
        pass
    vr = summ.get('verification-results', {})
    times = summ.get('times-ms', {})
    return dict(out=out, info=info, fails=fails, rlimit=rl, hard=hard, probe=probe, verified=vr.get('verified', 0), errors=vr.get('errors', 0),
                vir_error=vr.get('encountered-vir-error', True), rc=r.returncode, smt_ms=times.get('total-verify', 0), smt=times.get('smt', {}), cmd=' '.join(cmd), raw=r.stderr[-3000:], total_ms=times.get('total', 0))


PORTFOLIO = [['smt.case_split=1'], ['smt.case_split=0'], ['smt.case_split=2'], ['smt.case_split=6'], ['smt.case_split=1', 'smt.random_seed=7'], ['smt.case_split=3']]


def prove(cfg_over, only, lib, contracts, work, degraded0=None):
    """one run of the verifier under the given toggles; returns dict with failures (after the
    portfolio), undecided functions and statistics"""
    cfg = dict(CFG0)
    cfg.update(cfg_over)
    contracts.CFG.clear()
    contracts.CFG.update(cfg)
    keys = {compose.fn_key(f): f for f in lib['fns'] if not f['cfg_test'] and not (f['trait'] or '').endswith('Display')}
    known = set(contracts.KNOWN)
    new = sorted(set(keys) - known)
    gone = sorted(known - set(keys))
    degraded = dict(degraded0 or {})
    gen = os.path.join(work, 'gen.rs')
    res = None
    smt_ms = 0
    for attempt in range(12):
        res = run_verus(cfg, lib, contracts, list(degraded), only, gen, PORTFOLIO[0], max(60, left() - 150))
        smt_ms += res['smt_ms']
        if res['rc'] == 124:
            log('verus timed out')
            return dict(decided=False, why='verus exceeded its time', res=res, fails=[], undecided=sorted(only or keys), degraded=degraded, new=new, gone=gone, smt_ms=smt_ms, keys=keys)
        if not res['hard'] and res['verified'] + res['errors'] > 0:
            break
        progress = False
        for fn, text in res['hard']:
            if fn and fn not in degraded and fn != '__probe':
                degraded[fn] = text[:1500]
                progress = True
                log('cannot bring under the verifier:', fn, text.split('\n')[0][:200])
        if not progress:
            why = res['hard'][0][1][:1500] if res['hard'] else res['raw'][-1500:]
            log('verus gave no answer:', why[:600])
            return dict(decided=False, why=why, res=res, fails=[], undecided=sorted(only or keys), degraded=degraded, new=new, gone=gone, smt_ms=smt_ms, keys=keys)
        if left() < 250:
            break
    # portfolio on the functions that failed
    bad = sorted(set(f.fn for f in res['fails'] if f.fn) | set(k for k in res['rlimit'] if k))
    first = {b: [f for f in res['fails'] if f.fn == b] for b in bad}
    rl = {k: v for k, v in res['rlimit'].items() if k}
    verified = res['verified']
    for smt in PORTFOLIO[1:]:
        if not bad or left() < 200:
            break
        log('retrying', len(bad), 'functions with', ' '.join(smt), ':', ' '.join(bad)[:300])
        r2 = run_verus(cfg, lib, contracts, list(degraded), set(bad), os.path.join(work, 'gen2.rs'), smt, max(30, min(200, left() - 150)))
        smt_ms += r2['smt_ms']
        if r2['rc'] == 124 or r2['hard']:
            continue
        still = set(f.fn for f in r2['fails'] if f.fn) | set(k for k in r2['rlimit'] if k)
        for f in r2['fails']:
            # keep only what fails under every strategy: drop clauses that some strategy proves
            pass
        for b in list(bad):
            if b not in still:
                bad.remove(b)
                first.pop(b, None)
                rl.pop(b, None)
                verified += 1
            else:
                f2 = [(f.kind, f.tag) for f in r2['fails'] if f.fn == b]
                if b in r2['rlimit']:
                    continue
                if b in rl:
                    rl.pop(b)
                    first[b] = [f for f in r2['fails'] if f.fn == b]
                else:
                    first[b] = [f for f in first[b] if (f.kind, f.tag) in f2] or first[b]
    fails = [f for b in bad for f in first.get(b, []) if b not in rl or first.get(b)]
    # functions whose proof says nothing: unsupported, out of resources, unknown or depending on an unknown helper
    undecided = set(degraded) | set(b for b in bad if b in rl and not first.get(b))
    for k in new:
        undecided.add(k)
    # invariants are attached to loops by position: a function whose loops were rewritten is not decided
    relooped = [k for k, f in keys.items() if k in known and contracts.LOOPS.get(k, '') != ' '.join(l['kind'] for l in f['loops'])]
    def touches(k, names):
        body = keys[k]['body'] if k in keys else ''
        return any(re.search(r'\b%s\s*\(' % re.escape(n.split('::')[-1]), body) for n in names)
    soft = [n for n in set(new) | set(degraded)]
    und_fail = set()
    for f in fails:
        if f.fn in undecided or f.fn in relooped or (soft and touches(f.fn, soft)):
            und_fail.add(f.fn)
    undecided |= und_fail
    fails = [f for f in fails if f.fn not in und_fail]
    return dict(decided=True, res=res, fails=fails, undecided=sorted(undecided), degraded=degraded, new=new, gone=gone, smt_ms=smt_ms, keys=keys, verified=verified, rl=sorted(rl))


# ------------------------------------------------------------------------------------------
def battery(area, seed, iters, outf, timeout):
    if os.path.exists(outf):
        os.unlink(outf)
    r = sh([BAT, area, str(seed), str(iters), outf], timeout=timeout)
    m = re.search(r'cases=(\{[^}]*\}) held=(\d+) failed=(\d+)(?: distinct=(\d+))?', r.stdout)
    cases = json.loads(m.group(1)) if m else {}
    return dict(rc=r.returncode, cases=cases, distinct=int(m.group(4) or 0) if m else 0, held=int(m.group(2)) if m else 0, failed=int(m.group(3)) if m else -1, out=r.stdout[-3000:], err=r.stderr[-1500:], file=outf)


def battery_many(area, jobs, timeout):
    res = [None] * len(jobs)
    def go(i):
        seed, iters, outf = jobs[i]
        res[i] = battery(area, seed, iters, outf, timeout)
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    for t in ths: t.start()
    for t in ths: t.join()
    return res


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    import tempfile
    work = tempfile.mkdtemp(prefix='ressa_%s_' % pid)
    rep_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    try:
        code = run(pid, P, tier, seed, work, rep_dir)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, P, tier, seed, work, rep_dir):
    area = P['area']
    bt = {}
    th = threading.Thread(target=lambda: bt.update(err=build_battery()))
    th.start()
    build_extract()
    import contracts
    pr = None
    proof_error = None
    prs = []
    try:
        lib = compose.extract()
        for rn in [dict(cfg={}, only=None, tags=P['tags'])] + P.get('runs', []):
            if left() < 240 and prs:
                log('no time for the run', rn.get('name'))
                prs.append(dict(decided=False, why='out of time', res=None, fails=[], undecided=sorted(rn['only']), degraded={}, new=[], gone=[], smt_ms=0, run=rn))
                continue
            p1 = prove(rn['cfg'], set(rn['only']) if rn['only'] else None, lib, contracts, work, prs[0]['degraded'] if prs else None)
            p1['run'] = rn
            prs.append(p1)
            p1['elsewhere'] = []
            if rn.get('base_cfg') is not None and p1['decided'] and p1['fails'] and left() > 200:
                # what fails with the clauses of this property switched off as well is not its failure
                bad = set(f.fn for f in p1['fails'] if f.fn)
                b1 = prove(rn['base_cfg'], bad, lib, contracts, work, p1['degraded'])
                p1['smt_ms'] += b1['smt_ms']
                if b1['decided']:
                    same = set((f.fn, f.kind, f.tag) for f in b1['fails'])
                    lost = set(b1['undecided']) | set(b1.get('rl', []))
                    p1['elsewhere'] = [f for f in p1['fails'] if (f.tag == 'ctx' or f.tag not in P['tags']) and ((f.fn, f.kind, f.tag) in same or f.fn in lost)]
                    p1['fails'] = [f for f in p1['fails'] if f not in p1['elsewhere']]
                    p1['undecided'] = sorted(set(p1['undecided']) | set(f.fn for f in p1['elsewhere']))
            log('verus run %s: %s verified, %d failed clauses, undecided: %s' % (rn.get('name', 'base'), p1.get('verified', 0), len(p1['fails']), ' '.join(p1['undecided'])[:600] or 'none'))
        pr = prs[0]
    except SystemExit as e:
        proof_error = str(e)
    except Exception as e:       # a source the machinery cannot digest is undecided, not a violation
        import traceback
        proof_error = traceback.format_exc()[-1500:]
    if proof_error:
        log('the proof could not be attempted:', proof_error[:800])
    th.join()
    violations = []
    own, other, und = [], [], False
    for p1 in prs:
        und = und or bool(p1['undecided'])
        for f in p1['fails']:
            (own if f.tag in p1['run']['tags'] else other).append(f)
    for f in own:
        log('FAILED OBLIGATION', f.name())
    for f in other:
        log('(obligation of another property fails: %s)' % f.name())
    # --- bounded battery on the real crate ---
    bres = []
    if bt.get('err'):
        log('battery does not build:', bt['err'][-1500:])
    else:
        n = P.get('iters', 12000)
        if tier == 'thorough':
            jobs = [(seed + 100 * j, n * 10, os.path.join(rep_dir, '%s.bat.%d' % (pid, j))) for j in range(8)]
        elif own or other or und or proof_error:
            jobs = [(seed + 100 * j, n * 4, os.path.join(rep_dir, '%s.bat.%d' % (pid, j))) for j in range(8)]
        else:
            jobs = [(seed + 100 * j, n, os.path.join(rep_dir, '%s.bat.%d' % (pid, j))) for j in range(4)]
        bres = battery_many(area, jobs, max(30, min(left() - 20, 500)))
        for r in bres:
            if r['rc'] not in (0, 1):
                log('battery ended with', r['rc'], r['err'][-300:])
        tot = {}
        for r in bres:
            for k, v in r['cases'].items():
                tot[k] = tot.get(k, 0) + v
        log('battery %s: %s cases, %d failed (bounded)' % (area, tot, sum(max(0, r['failed']) for r in bres)))
    failing = [r for r in bres if r['rc'] == 1 and os.path.exists(r['file'])]
    fails_total = sum(max(0, r['failed']) for r in bres)
    if failing:
        path = os.path.join(rep_dir, '%s.replay' % pid)
        shutil.copy(failing[0]['file'], path)
        rp = sh([BAT, 'replay', path], timeout=60)
        print(failing[0]['out'][:2500])
        if own:
            with open(path + '.obligation', 'w') as fh:
                fh.write('\n\n'.join(f.name() + '\n' + f.text for f in own))
        log('replayed on the real crate: exit', rp.returncode)
        violations.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif own:
        path = os.path.join(rep_dir, '%s.replay' % pid)
        with open(path, 'w') as fh:
            fh.write('no failing input found; failed obligations of %s\n\n' % pid)
            for f in own:
                fh.write(f.name() + '\n' + f.text + '\n\n')
            fh.write('commands: ' + ' ; '.join(p1['res']['cmd'] for p1 in prs if p1['res']) + '\n')
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    evidence(pid, P, tier, seed, prs, proof_error, bres, violations)
    for r in bres:
        try:
            os.unlink(r['file'])
        except OSError:
            pass
    for v in violations:
        print(v, flush=True)
    return 1 if violations else 0


def evidence(pid, P, tier, seed, prs, proof_error, bres, violations):
    cov = {}
    obligations = discharged = 0
    fns, trusted, und_all, assumed = set(), set(), set(), set()
    cov['verus_runs'] = []
    for pr in prs:
        rn = pr['run']
        tags = set(rn['tags'])
        und_all |= set(pr['undecided'])
        ent = dict(run=rn.get('name', 'base'), toggles=sorted(k for k, v in rn['cfg'].items() if v), items_verified=pr.get('verified', 0),
                   clauses_failed=[f.name() for f in pr['fails']], undecided=pr['undecided'], solver_ms=pr['smt_ms'])
        cov['verus_runs'].append(ent)
        if not pr['decided']:
            ent['not_decided'] = pr.get('why', '')[:600]
            continue
        info, out = pr['res']['info'], pr['res']['out']
        ent['vacuity_probe'] = 'an assert(false) under the parser invariant fails, as it must' if pr['res']['probe'] else 'PROBE VERIFIED: the assumptions are inconsistent'
        failed = set((f.fn, f.kind, f.tag) for f in pr['fails'])
        und = set(pr['undecided'])
        n_by = {}
        for m in out.meta:
            if not m or not m.get('fn') or m['fn'] == '__probe':
                continue
            i = info.get(m['fn'])
            if not i:
                continue
            if i['external']:
                if m['k'] == 'ens' and m.get('tag', '') in tags and not i['trusted'] and rn['only']:
                    assumed.add(m['fn'])
                continue
            if m['k'] in ('ens', 'inv') and m.get('tag') in tags:
                n_by[m['fn']] = n_by.get(m['fn'], 0) + (2 if m['k'] == 'inv' else 1)
            elif m['k'] in ('loopdec', 'dec') and 'progress' in tags:
                n_by[m['fn']] = n_by.get(m['fn'], 0) + 1
        obl0 = obligations
        for k, i in info.items():
            if i['external']:
                if i['trusted']:
                    trusted.add(k)
                continue
            if 'panic' in tags:
                n_by[k] = n_by.get(k, 0) + 1
            c = n_by.get(k, 0)
            if not c:
                continue
            obligations += c
            bad = len([1 for f in failed if f[0] == k and f[2] in tags])
            if k not in und:
                discharged += max(0, c - bad)
                fns.add(k)
        ent['obligations_of_this_property'] = obligations - obl0
    cov['functions_under_contract'] = sorted(fns)
    if prs and prs[0]['decided']:
        cov['functions_total'] = len(prs[0]['res']['info'])
    cov['undecided_functions'] = sorted(und_all)
    cov['assumed_contracts_decided_by_other_runs'] = sorted(assumed)
    cov['solver_ms'] = sum(p['smt_ms'] for p in prs)
    cov['backend'] = 'Verus 0.2026.09.13 / Z3'
    cov['obligations'] = obligations
    cov['discharged'] = discharged
    cov['checker_cmd'] = 'python3 tools/py/check.py %s' % pid
    cov['trusted_base'] = ['Verus 0.2026.09.13 and Z3', 'tools/extract (mechanical rewriting of src/lib.rs; rules listed in DESIGN.md)',
                           'spec/prelude.rs: specifications of ress 0.6.3 (scanner), resast 0.2.1 (tree types) and std operations vstd does not specify',
                           'axioms on the token stream (ax_*) in spec/prelude.rs'] + ['contract of fn %s is assumed (external_body)' % t for t in sorted(trusted)]
    if proof_error:
        cov['proof_not_attempted'] = proof_error[:800]
    tot = {}
    for r in bres:
        for k, v in r['cases'].items():
            tot[k] = tot.get(k, 0) + v
    held = sum(r['held'] for r in bres)
    cov['evaluations'] = sum(tot.values())
    cov['distinct_nontrivial'] = sum(r.get('distinct', 0) for r in bres)
    cov['cases_held'] = held
    cov['rule'] = P.get('rule', 'bounded stand-in: random programs of area %s printed from a generated syntax tree, parsed by the real crate and compared; a case counts when its text was generated, parsed and compared' % P['area'])
    sm = sh([BAT, P['area'], str(seed), '3', '/dev/null', 'show'], timeout=30) if os.path.exists(BAT) else None
    cov['samples'] = [l[:400] for l in (sm.stdout.split('\n') if sm else []) if l.strip()][:3] or ['-']
    cov['bounded_part'] = 'the battery is bounded (%s cases this run) and is not counted as proved' % sum(tot.values())
    cov['explanation'] = P.get('explain', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], coverage=cov,
              assumptions=P.get('assume', []) + ['machine arithmetic is checked (usize is 64 bit)', 'the heap and the call stack do not run out'],
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
