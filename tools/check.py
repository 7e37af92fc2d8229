#!/usr/bin/env python3
"""Decides one property: python3 tools/check.py C01
1. extracts the functions of /repo the property depends on into Verus, with the contracts of contracts/*.vc;
2. lets Verus discharge every obligation of those functions and of the lemmas over the contracts;
3. runs the property's oracle against the real crate (confirms that the contracts describe the code that runs,
   and turns a failed obligation into a failing input of the real code where there is one)."""
import json, os, re, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
sys.path.insert(0, os.path.join(V, 'tools'))
from cones import CONES, ASSUMPTIONS, COMMON, BOUNDED, UNCALLABLE
T0 = time.time()
RLIMIT = '40'

def sh(cmd, timeout, cwd=V, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'

def build(what):
    return sh(['cargo', 'build', '--offline', '-q'], 500, os.path.join(V, what))

# ---------------------------------------------------------------- oracle
def oracle(prop, seed, secs, work, tag, extra=()):
    out = os.path.join(work, f'o_{tag}.json')
    rc, so, se = sh([os.path.join(V, 'replay/target/debug/replay'), 'run', prop, '--seed', str(seed), '--secs', str(secs), '--out', out, *extra], secs + 280)
    try:
        return json.load(open(out))
    except Exception:
        return {'error': f'oracle ended with {rc}: {so[-500:]} {se[-1500:]}', 'evaluations': 0, 'distinct': 0, 'samples': [], 'known': {}, 'violation': None if rc == -9 else {'case_seed': -1, 'size': -1, 'message': f'the oracle process ended abnormally ({rc}): {se[-1500:]}'}}

# ---------------------------------------------------------------- proof
def extract(keys, skip, work, vac=None):
    gen, meta = os.path.join(work, 'gen.rs'), os.path.join(work, 'meta.json')
    cmd = [os.path.join(V, 'extract/target/debug/extract'), '--repo', REPO, '--contracts', os.path.join(V, 'contracts'), '--out', gen, '--meta', meta, '--verify', ','.join(keys) or 'NONE']
    if skip: cmd += ['--skip', ','.join(skip)]
    if vac: cmd += ['--vacuity', vac]
    rc, so, se = sh(cmd, 120)
    if rc != 0: return None, None, (so + se)[-3000:]
    return gen, json.load(open(meta)), ''

def prune(gen, meta):
    """Lemmas that no verified function uses, directly or through other lemmas, are not proved again here."""
    L = open(gen).read().split('\n')
    top = re.compile(r'^(pub |impl|#\[|fn |use |mod |broadcast|axiom|trait |struct |enum |unsafe |type )')
    starts = [i for i, l in enumerate(L) if top.match(l)] + [len(L)]
    body = {}
    for a, b in zip(starts, starts[1:]):
        m = re.match(r'^pub proof fn (\w+)', L[a])
        if m: body[m.group(1)] = (a, '\n'.join(L[a:b]))
    word = re.compile(r'\w+')
    todo = set()
    for f in meta['fns']:
        if f['verified']: todo |= set(word.findall('\n'.join(L[f['start'] - 1:f['end']])))
    need = set()
    todo &= set(body)
    while todo:
        x = todo.pop()
        if x in need: continue
        need.add(x); todo |= set(word.findall(body[x][1])) & set(body)
    for x, (a, _) in body.items():
        if x not in need and 'external_body' not in L[max(a - 1, 0)]: L[a] = '#[verifier::external_body] ' + L[a]
    open(gen, 'w').write('\n'.join(L))
    return need

def ranges(gen, meta):
    L = open(gen).read().split('\n')
    R = []
    for f in meta['fns']:
        s, e = f['start'], f['end']
        b = next((i for i in range(s, e + 1) if i <= len(L) and L[i - 1].startswith('{')), s)
        R.append((f['key'], s, b, e))
    return R

def verus(gen, work, extra=(), limit='3', rlimit=RLIMIT):
    rc, so, se = sh(['verus', gen, '--triggers-mode', 'silent', '--multiple-errors', limit, '--no-report-long-running', '--output-json', '--time-expanded', '--error-format=json', '--rlimit', rlimit, *extra], 780, work)
    msgs = []
    for l in se.split('\n'):
        try: d = json.loads(l)
        except Exception: continue
        if d.get('level') == 'error' and d.get('spans'): msgs.append(d)
    try: o = json.loads(so[so.index('{'):])
    except Exception: o = {}
    return rc, o, msgs, se

def where(msg, R):
    sp = sorted(msg['spans'], key=lambda s: not s['is_primary'])
    for s in sp:
        for k, a, b, e in R:
            if b <= s['line_start'] <= e: return k
    for s in sp:
        for k, a, b, e in R:
            if a <= s['line_start'] <= e: return k
    return None

def prove(prop, work):
    """-> dict(proved, failed={key:[text]}, undecided={key:why}, ...)"""
    r = dict(failed={}, undecided={}, lemmas_failed=[], runs=0, smt_ms=0, queries=0, discharged=0, changed=[], inlined=[], trusted=[], meta=None, vac=None)
    pats = CONES[prop]
    gen, meta, err = extract([], [], work)
    if gen is None:
        r['undecided']['*'] = 'extraction: ' + err; return r
    allk = [f['key'] for f in meta['fns']]
    keys = [k for k in allk if any(re.fullmatch(p, k) for p in pats)]
    for p in pats:
        if not any(re.fullmatch(p, k) for k in allk): r['undecided'][p] = 'no such function in the source'
    for k in meta.get('missing', []):
        if any(re.fullmatch(p, k) for p in pats): r['undecided'][k] = 'no such function in the source'
    skip = []
    for attempt in range(10):
        gen, meta, err = extract(keys, skip, work)
        if gen is None:
            r['undecided']['*'] = 'extraction: ' + err; return r
        r['meta'] = meta
        r['lemmas'] = sorted(prune(gen, meta))
        R = ranges(gen, meta)
        for f in meta['fns']:
            if f['key'] in keys and f['reason'] and f['reason'] != 'trusted' and f['key'] not in skip: r['undecided'][f['key']] = 'outside the extractor: ' + f['reason']
        rc, o, msgs, se = verus(gen, work)
        r['runs'] += 1
        res = o.get('verification-results', {})
        if 'verified' in res and not res.get('encountered-vir-error') and (res.get('verified') or res.get('errors')): break
        bad = set()
        for m in msgs:
            k = where(m, R)
            if k and k not in skip: bad.add((k, m['message']))
        if not bad:
            r['undecided']['*'] = 'the verifier does not accept the extracted file: ' + '; '.join(m['message'] for m in msgs)[:1500] + (se[-800:] if not msgs else '')
            return r
        for k, m in bad:
            if k in keys: r['undecided'][k] = 'outside the verifier: ' + m
            skip.append(k)
        skip = sorted(set(skip))
    else:
        r['undecided']['*'] = 'the verifier does not accept the extracted file'
        return r
    r['queries'] = res['verified'] + res['errors']; r['discharged'] = res['verified']
    t = o.get('times-ms', {})
    r['smt_ms'] = t.get('smt', {}).get('smt-run', 0); r['total_ms'] = t.get('total', 0)
    for m in msgs:
        if 'aborting due to' in m['message']: continue
        k = where(m, R)
        if k and k not in keys: k = None
        line = [s['text'][0]['text'].strip() for s in m['spans'] if s.get('text')]
        txt = f"{m['message']}: {' | '.join(line)[:600]}"
        if k is None: r['lemmas_failed'].append(txt)
        elif 'Resource limit' in m['message'] or 'rlimit' in m['message']: r['undecided'].setdefault(k, 'solver resource limit')
        else: r['failed'].setdefault(k, []).append(txt)
    for k in r['failed']: r['undecided'].pop(k, None)
    if res['errors'] and not r['failed'] and not r['undecided'] and not r['lemmas_failed']: r['undecided']['*'] = 'verifier reported errors without position'
    fm = {f['key']: f for f in meta['fns']}
    r['keys'] = keys
    r['proved'] = [k for k in keys if fm[k]['verified'] and k not in r['failed'] and k not in r['undecided']] if not r['undecided'].get('*') else []
    r['changed'] = [k for k in keys if fm[k]['changed']]
    r['inlined'] = sorted({i for k in keys for i in fm[k]['inlined']})
    r['trusted'] = [k for k in keys if fm[k]['reason'] == 'trusted']
    r['loops'] = sum(fm[k]['loops'] for k in keys)
    r['skel'] = {k: fm[k]['changed'] for k in keys}
    return r

def vacuity(prop, work, mode):
    """Reachability probes. entry: assert(false) in place of every body under contract, which the verifier has to reject
    (otherwise the preconditions are contradictory). full: an assert(false) in every loop body and at every function's end,
    which the verifier has to reject too (otherwise an invariant or a used contract is contradictory)."""
    w = os.path.join(work, 'vac_' + mode); os.makedirs(w, exist_ok=True)
    gen, meta, err = extract([], [], w)
    if gen is None: return {'error': err[:300]}
    keys = [f['key'] for f in meta['fns'] if any(re.fullmatch(p, f['key']) for p in CONES[prop])]
    gen, meta, err = extract(keys, [], w, vac=mode)
    if gen is None: return {'error': err[:300]}
    prune(gen, meta)
    rc, o, msgs, se = verus(gen, w, limit='60', rlimit='80' if mode == 'full' else RLIMIT)
    L = open(gen).read().split('\n')
    hit = {s['line_start'] for m in msgs for s in m['spans']}
    probes = [(f['key'], i) for f in meta['fns'] if f['verified'] for i in range(f['start'], f['end'] + 1) if i <= len(L) and '/* VAC_' in L[i - 1]]
    lim = {where(m, R) for R in [ranges(gen, meta)] for m in msgs if 'Resource limit' in m['message'] or 'rlimit' in m['message']}
    acc = sorted({k + ' ' + re.search(r'VAC_\w+ ?\d*', L[i - 1]).group(0) for k, i in probes if i not in hit and k not in UNCALLABLE and k not in lim})
    if not o.get('verification-results') or o['verification-results'].get('encountered-vir-error'): return {'error': 'the verifier did not accept the probe file'}
    return {'probes': len([1 for k, _ in probes if k not in UNCALLABLE]), 'rejected': len([1 for k, i in probes if i in hit and k not in UNCALLABLE]), 'accepted': acc, 'beyond_resource_limit': sorted({k for k, i in probes if i not in hit and k in lim}), 'uncallable_by_contract': sorted({k for k, _ in probes if k in UNCALLABLE})}

def main():
    prop = sys.argv[1]
    work = tempfile.mkdtemp(prefix=f'chk_{prop}_')
    try: return run(prop, work)
    finally: subprocess.run(['rm', '-rf', work])

def run(prop, work):
    known = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
    secs = 600 if THOROUGH else 10
    res = {}
    def t_or():
        rc, so, se = build('replay')
        if rc != 0: res['or'] = {'error': 'the oracle does not build against this tree: ' + (so + se)[-1500:], 'evaluations': 0, 'distinct': 0, 'samples': [], 'known': {}, 'violation': None}; return
        res['or'] = oracle(prop, SEED, secs, work, 'a')
        res['trusted'] = oracle('TRUSTED', SEED, 60 if THOROUGH else 1, work, 'trusted')
    def t_pr():
        rc, so, se = build('extract')
        if rc != 0: res['pr'] = None; res['prerr'] = (so + se)[-1500:]; return
        def t_vac():
            try: res['vac'] = vacuity(prop, work, 'entry')
            except Exception as e: res['vac'] = {'error': str(e)[:300]}
        c = threading.Thread(target=t_vac); c.start()
        try: res['pr'] = prove(prop, work)
        except Exception as e:
            import traceback
            res['pr'] = None; res['prerr'] = traceback.format_exc()
        c.join()
    a, b = threading.Thread(target=t_or), threading.Thread(target=t_pr)
    a.start(); b.start(); a.join(); b.join()
    orc, pr = res['or'], res['pr']
    if pr is None: pr = dict(failed={}, undecided={'*': res.get('prerr', '')}, lemmas_failed=[], runs=0, smt_ms=0, queries=0, discharged=0, changed=[], inlined=[], trusted=[], meta=None, proved=[], keys=[], loops=0, total_ms=0)
    for k, d in (('proved', []), ('keys', []), ('loops', 0), ('total_ms', 0)): pr.setdefault(k, d)
    # every key that is "known" to the oracle has to be in the file of known findings
    def judge(o):
        if o.get('violation'): return o['violation']
        for k, x in (o.get('known') or {}).items():
            if not any(k == kk for kk, _ in known): return dict(case_seed=x['case_seed'], size=x['size'], message=f'{k}: {x["message"]}')
        return None
    viol = judge(orc)
    searched = 0
    if not viol and (pr['failed'] or pr['undecided'] or pr['lemmas_failed']) and 'error' not in orc:
        # look longer for a failing input of the real code
        budget = 900 if THOROUGH else 150
        outs = {}
        def go(i): outs[i] = oracle(prop, SEED * 1000 + 17 + i, budget, work, f's{i}', ('--max-size', str([3, 4, 4, 5, 6, 2, 7][i])))
        th = [threading.Thread(target=go, args=(i,)) for i in range(7)]
        [x.start() for x in th]; [x.join() for x in th]
        for i in sorted(outs):
            searched += outs[i].get('evaluations', 0)
            viol = viol or judge(outs[i])
    verdict, nfi = 'held', False
    if viol: verdict = 'violated'
    elif pr['failed']:
        same = [k for k in pr['failed'] if k not in pr['changed']]
        if same: verdict, nfi = 'violated', True
    proofdone = bool(pr['proved']) and not pr['failed'] and not pr['undecided'] and not pr['lemmas_failed']
    vac = {'entry': res.get('vac')}
    if proofdone and THOROUGH: vac['loops_and_ends'] = vacuity(prop, work, 'full')
    for k, v in vac.items():
        if v and v.get('accepted'):
            print(f'  vacuous ({k}):', v['accepted']); proofdone = False
    rp = None
    if verdict == 'violated':
        rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f'{prop}.json')
        json.dump({'property': prop, 'failed_obligations': pr['failed'], 'undecided': pr['undecided'],
                   'failing_input': None if nfi else viol,
                   'replay': None if nfi else f"cd {V} && replay/target/debug/replay case {prop} --case-seed {viol['case_seed']} --size {viol['size']}",
                   'verifier_output': [t for v in pr['failed'].values() for t in v], 'oracle_cases_without_failure': searched + orc.get('evaluations', 0) if nfi else None}, open(rp, 'w'), indent=1)
    tr = res.get('trusted') or {}
    if tr.get('violation'): print('  assumed library contract refuted:', tr['violation']['message'][:300]); proofdone = False
    evidence(prop, pr, orc, verdict, proofdone, searched, vac, tr)
    for k, t in known: print(f'KNOWN-FINDING: property={prop} {k}: {t}')
    print(f"{prop}: {len(pr['proved'])}/{len(pr['keys'])} functions proved, {pr['discharged']}/{pr['queries']} obligations discharged, {orc.get('evaluations', 0) + searched} oracle cases, {time.time() - T0:.0f} s")
    for k, v in pr['failed'].items(): print('  obligation failed in', k, ':', v[0][:300])
    for k, v in pr['undecided'].items(): print('  not decided by proof (bounded check instead):', k, ':', str(v)[:300])
    for t in pr['lemmas_failed']: print('  lemma not discharged:', t[:300])
    if 'error' in orc: print('  oracle:', orc['error'][:600])
    if verdict == 'violated':
        if not nfi: print('  failing input:', str(viol['message'])[:400])
        print(f"VIOLATION property={prop} replay={rp}" + (' no-failing-input-found' if nfi else ''))
        return 1
    return 0

def evidence(prop, pr, orc, verdict, proofdone, searched, vac, tr):
    fm = {f['key']: f for f in (pr['meta'] or {'fns': []})['fns']}
    tb = ['Verus 0.2026.09.13 and Z3 (back end of every obligation)',
          'contracts/a_prelude.rs: contracts of the standard library, ndarray, rand, statrs, itertools, rayon items the source uses (external_body); f64 as reals with +inf, -inf, NaN and without rounding',
          'extract/: the mechanical translation of /repo/src into the verifier\'s dialect (iterator chains become loops, log macros dropped, private items made visible)']
    tb += [f'assumed contract: {k}' for k in pr['trusted']]
    cov = dict(obligations=pr['queries'], discharged=pr['discharged'], checker_cmd='verus gen.rs --triggers-mode silent --multiple-errors 3 --rlimit ' + RLIMIT + '  (gen.rs = extract --repo /repo --contracts contracts --verify <functions>)',
               trusted_base=tb, proof_complete=proofdone, functions_under_contract=[dict(function=k, file=fm[k]['file'], line=fm[k]['line'], loops=fm[k]['loops'], proved=k in pr['proved'], inlined_helpers=fm[k]['inlined']) for k in pr['keys'] if k in fm],
               obligations_failed=pr['failed'], bounded_instead_of_proved={**BOUNDED.get(prop, {}), **{k: str(v)[:400] for k, v in pr['undecided'].items()}}, lemmas_failed=pr['lemmas_failed'], loop_structure_changed=pr['changed'],
               lemmas_proved=len(pr.get('lemmas', [])), back_end='Verus/Z3', solver_ms=pr['smt_ms'], verifier_ms=pr['total_ms'], verifier_runs=pr['runs'],
               evaluations=orc.get('evaluations', 0) + searched, distinct_nontrivial=orc.get('distinct', 0),
               rule='oracle cases against the real crate: a case is (seed, size); the seed generates networks, parameters, data or calls; distinct and non-trivial = the case drew a different stream and ran the code under test to a verdict',
               samples=orc.get('samples', [])[:3] or [{'note': orc.get('error', 'none')}], known_findings_seen={k: v['count'] for k, v in (orc.get('known') or {}).items()})
    if vac is not None: cov['vacuity'] = vac
    cov['assumed_library_contracts_exercised'] = dict(cases=tr.get('evaluations', 0), refuted=(tr.get('violation') or {}).get('message'), rule='each case runs the library items of contracts/a_prelude.rs on random arguments and compares them with their assumed contracts; exercised, not proved')
    e = dict(property=prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level='proof', coverage=cov, assumptions=COMMON + ASSUMPTIONS.get(prop, []), wall_s=round(time.time() - T0, 2), violations=1 if verdict == 'violated' else 0)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(e, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)

if __name__ == '__main__': sys.exit(main())
