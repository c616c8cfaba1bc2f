#!/usr/bin/env python3
"""Decides one property: runs its symbolic cases, replays counterexamples against the real build, writes the evidence.
usage: check.py <property-id> [--tier quick|thorough] [--only substr] [-v]"""
import os, sys, json, time, subprocess, re, hashlib, shutil, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import V, B
import cases as CASES
import proptext; NOTE = {p["id"]: p["note"] for p in proptext.P}

MEMK = {'oob-read', 'oob-write', 'use-after-free', 'double-free', 'bad-free', 'null-deref', 'wild-pointer', 'write-const', 'div-by-zero', 'stack-overflow', 'abort', 'trap'}

def load_known():
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.append((m.group(1), re.compile(m.group(2) + r'\Z'), m.group(2), m.group(3)))
    return out

def case_name(c): return c['e'] + ''.join(',%s=%s' % kv for kv in sorted(c.get('p', {}).items()))

def write_model(path, params, inputs):
    with open(path, 'w') as f:
        for k, v in params.items(): f.write('P %s %d\n' % (k, v))
        for i in inputs: f.write('I %s %s\n' % (i['name'], i['hex']))

def run_native(binp, model, fill=None, timeout=60, stackfill=None):
    env = dict(os.environ, VP_MODEL=model, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:detect_odr_violation=0:max_malloc_fill_size=1048576:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=78')
    if fill is not None: env['VP_FILL'] = str(fill)
    try:
        r = subprocess.run([binp], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd='/tmp', preexec_fn=_limit)
        return r.returncode, r.stdout.decode('latin1'), r.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1')
def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24))

def sanitizer(rc, err): return 'AddressSanitizer' in err or 'runtime error' in err or (isinstance(rc, int) and rc < 0)

def confirm(err, binp, model):
    """does the counterexample reproduce on the real code?"""
    k = err['kind']
    if k == 'uninit':
        outs = []
        for fill in (0x00, 0xA5, 0xFF):
            rc, o, e = run_native(binp, model, fill)
            outs.append('\n'.join(l for l in o.splitlines() if l.startswith('INIT ')))
        return len(set(outs)) > 1, 'outputs differ with the fill pattern of fresh heap memory' if len(set(outs)) > 1 else 'same output for every fill pattern'
    for fill in (0xA5, 0x00, 0xFF):
        rc, o, e = run_native(binp, model, fill, 25 if k == 'hang' else 60)
        if k == 'hang':
            if 'HANG' in o or rc == 'timeout': return True, 'does not terminate'
            if sanitizer(rc, e): return True, 'sanitizer: ' + first_san(e)
            continue
        if k == 'assert':
            if 'ASSERT-FAILED' in o: return True, [l for l in o.splitlines() if 'ASSERT-FAILED' in l][0]
            if sanitizer(rc, e): return True, 'sanitizer: ' + first_san(e)
        else:
            if sanitizer(rc, e): return True, 'sanitizer: ' + first_san(e)
            if 'ASSERT-FAILED' in o: return True, [l for l in o.splitlines() if 'ASSERT-FAILED' in l][0]
            if rc == 'timeout': return True, 'timeout'
    return False, 'native rc=%s' % rc
def first_san(e):
    for l in e.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l: return re.sub(r'==\d+==', '', l)[:200]
    return 'crash'

def compare_obs(sample, out):
    nat = [l.split(' ', 2)[1:] for l in out.splitlines() if l.startswith('OBS ')]
    exp = sample['obs']
    if len(nat) != len(exp): return 'observation count %d vs %d' % (len(exp), len(nat))
    for (n, v), x in zip(exp, nat):
        y = x[1] if len(x) > 1 else ''
        if n != x[0]: return 'observation name %s vs %s' % (n, x[0])
        if len(v) != len(y) and '?' not in v: return '%s: %s vs %s' % (n, v, y)
        if v == '?': continue
        if '?' in v:
            for i in range(0, len(v), 2):
                if v[i] != '?' and v[i:i+2] != y[i:i+2]: return '%s: byte %d' % (n, i // 2)
        elif v != y: return '%s: %s vs %s' % (n, v[:60], y[:60])
    return None

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i+1]; i += 1
        elif a[i] == '--only': only = a[i+1]; i += 1
        elif a[i] == '-v': verbose = True
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = CASES.PROPS[pid]
    cs = [c for c in spec['cases'] if tier == 'thorough' or not c.get('thorough')]
    if only: cs = [c for c in cs if only in case_name(c)]
    budget = spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)   # wall seconds for the symbolic part
    hs = sorted(set(c['h'] for c in cs))
    eng = build.engine()
    bcs = {h: build.harness_bc(h) for h in hs}
    t_build = time.time() - t0
    work = '%s/run/%s-%d' % (B, pid, os.getpid()); os.makedirs(work, exist_ok=True)
    rdir = '%s/replays' % B; os.makedirs(rdir, exist_ok=True)
    nat = {}; nlock = threading.Lock()
    def native(h, e):
        with nlock:
            if (h, e) not in nat: nat[(h, e)] = build.native_bin(h, e)
            return nat[(h, e)]
    NP = build.NP
    tlim_default = spec.get('time', {}).get(tier, 60 if tier == 'quick' else 400)
    tstart = time.time()
    def run_case(ci):
        c = cs[ci]; left = budget - (time.time() - tstart)
        if left < 3: return ci, None, 'not started: the budget of the tier was used up'
        tl = min(left, c.get('time_' + tier, c.get('time', tlim_default)))
        out = '%s/%d.json' % (work, ci)
        cmd = [eng, bcs[c['h']], '--entry', c['e'], '--out', out, '--time', '%.1f' % tl, '--seed', str(seed), '--samples', str(c.get('samples', 3)), '--steps', str(c.get('steps', 200000000))]
        for k, v in c.get('p', {}).items(): cmd += ['--param', '%s=%d' % (k, v)]
        if c.get('merge'): cmd += ['--merge']
        for m in c.get('merge_fn', []): cmd += ['--merge-fn', m]
        if c.get('max_err'): cmd += ['--max-err', str(c['max_err'])]
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tl + 90)
        except subprocess.TimeoutExpired: return ci, None, 'engine timeout'
        if not os.path.exists(out): return ci, None, 'engine failed rc=%s %s' % (r.returncode, r.stderr.decode('latin1')[-300:])
        try: return ci, json.load(open(out)), ''
        except Exception as e: return ci, None, 'bad engine output: %s' % e
    known = load_known(); results = {}; violations = []; knownhits = {}; unconfirmed = []; problems = []
    order = sorted(range(len(cs)), key=lambda i: -cs[i].get('prio', cs[i].get('time', 0)))
    ex = ThreadPoolExecutor(NP)
    natf = ThreadPoolExecutor(1); nf = natf.submit(build.native_lib)    # builds while the solver works
    for f in as_completed([ex.submit(run_case, i) for i in order]):
        ci, r, msg = f.result(); results[ci] = (r, msg)
        if os.environ.get('VP_FAST') and r and r['errors']:   # development: stop at the first counterexample, unconfirmed
            for e in r['errors']:
                key = ('%s|%s|%s|%s' % (case_name(cs[ci]), e['kind'], e['func'], e['msg'] if e['kind'] in ('assert', 'uninit') else '')).replace(' ', '_')
                if not any(k[0] == pid and k[1].match(key) for k in known): print('FAST %s %s' % (pid, key), flush=True); os._exit(1)
        if verbose: print('%-60s %s' % (case_name(cs[ci]), msg or 'paths=%d err=%d inc=%s cuts=%s z3=%d t=%.1f' % (r['paths'], len(r['errors']), r['incomplete'], r['cuts'], r['z3_queries'], r['wall_s'])), flush=True)
    nf.result()
    tot = dict(paths=0, instructions=0, forks=0, queries=0, z3_queries=0, sat=0, unsat=0, unknown=0, asserts=0, mem_checks=0, solver_s=0.0, states=0, merges=0, small_domain=0, cache_hits=0, model_hits=0, bad_models=0)
    funcs = set(); incomplete = {}; cuts = {}; modelled = {}; validated = 0; mismatches = []; samples = []; perCase = []; missing = []; nunstarted = 0; obligations = 0
    todo = []
    for ci in sorted(results):
        r, msg = results[ci]; c = cs[ci]; name = case_name(c)
        if r is None: problems.append('%s: %s' % (name, msg)); nunstarted += 1; continue
        for k in tot: tot[k] += r.get(k, 0)
        funcs |= set(r['functions'])
        for k, v in r['incomplete'].items(): incomplete['%s' % k] = incomplete.get(k, 0) + v
        for k, v in r['cuts'].items(): cuts[k] = cuts.get(k, 0) + v
        for k, v in r['modelled'].items(): modelled[k] = 1
        for l in c.get('must', ['end']):
            if l not in r['reached'] and not r['errors']: missing.append('%s: label %s not reached' % (name, l))
        perCase.append({'case': name, 'paths': r['paths'], 'queries': r['queries'], 'z3': r['z3_queries'], 'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 2), 'complete': not r['incomplete'], 'incomplete': r['incomplete'], 'cuts': r['cuts']})
        for e in r['errors']: todo.append((ci, 'err', e))
        for s in r['samples'][:c.get('samples', 3)]: todo.append((ci, 'sample', s))
        if len(samples) < 12 and r['samples']:
            s = r['samples'][0]; samples.append({'case': name, 'steps': s['steps'], 'reached': s['reached'], 'inputs': {i['name']: i['hex'][:160] for i in s['inputs']}, 'observed': [[o[0], o[1][:160]] for o in s['obs']][:12]})
    def post(t):
        ci, kind, x = t; c = cs[ci]; name = case_name(c)
        binp = native(c['h'], c['e'])
        hsh = hashlib.sha256((name + json.dumps(x['inputs']) + kind).encode()).hexdigest()[:16]
        if kind == 'sample':
            mf = '%s/s-%s.model' % (work, hsh); write_model(mf, c.get('p', {}), x['inputs'])
            rc, o, e = run_native(binp, mf)
            if rc != 0: return ('mismatch', name, 'native rc=%s %s %s' % (rc, o[-200:].replace('\n', ';'), first_san(e) if e else ''), mf)
            d = compare_obs(x, o)
            if d: return ('mismatch', name, d, mf)
            return ('ok', name, None, None)
        key = '%s|%s|%s|%s' % (name, x['kind'], x['func'], x['msg'] if x['kind'] == 'assert' or x['kind'] == 'uninit' else '')
        key = key.replace(' ', '_')
        mf = '%s/%s-%s.model' % (rdir, pid, hsh); write_model(mf, c.get('p', {}), x['inputs'])
        ok, why = confirm(x, binp, mf)
        if ok and c.get('native_confirms') is False: pass
        return ('err', name, (x, key, ok, why), mf)
    if todo:
        hes = sorted(set((cs[t[0]]['h'], cs[t[0]]['e']) for t in todo))
        with ThreadPoolExecutor(NP) as pe: list(pe.map(lambda he: nat.__setitem__(he, build.native_bin(*he)), hes))
        with ThreadPoolExecutor(NP) as pe: posts = list(pe.map(post, todo))
    else: posts = []
    seenv = set()
    for st, name, x, mf in posts:
        if st == 'ok': validated += 1
        elif st == 'mismatch': mismatches.append('%s: %s (%s)' % (name, x, mf))
        else:
            e, key, ok, why = x
            kn = [k for k in known if k[0] == pid and k[1].match(key)]
            if kn:
                knownhits[kn[0][2]] = kn[0][3]; continue
            rec = {'case': name, 'kind': e['kind'], 'message': e['msg'], 'function': e['func'], 'location': e['loc'], 'stack': e['stack'][:400], 'key': key, 'replay': mf, 'native': why}
            if ok:
                violations.append(rec)
            else: unconfirmed.append(rec)
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(violations),
      'coverage': {'states': tot['states'], 'transitions': tot['instructions'], 'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no completed path'}],
        'exhaustive': not incomplete and not problems and not cuts, 'paths_completed': tot['paths'], 'cases': len(cs), 'cases_complete': sum(1 for p in perCase if p['complete']), 'cases_not_started': nunstarted,
        'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs), 'bounds': spec.get('bounds') or NOTE.get(pid, '') or 'see the cases listed under samples', 'outside_bounds': spec.get('outside') or 'larger images and longer histories than the cases name; formats decoded by external libraries',
        'queries': tot['queries'], 'queries_sent_to_z3': tot['z3_queries'], 'fp_queries_decided_over_whole_domain': tot['small_domain'], 'queries_answered_by_cache': tot['cache_hits'], 'queries_answered_by_known_model': tot['model_hits'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 2),
        'assertions_decided': tot['asserts'], 'memory_accesses_checked': tot['mem_checks'], 'forks': tot['forks'], 'merges': tot['merges'], 'models_rejected': tot['bad_models'],
        'incomplete_reasons': incomplete, 'cuts': cuts, 'not_explored': problems, 'vacuity_missing': missing, 'encoding_mismatches': mismatches, 'unconfirmed_counterexamples': unconfirmed, 'violations': violations, 'known_findings_hit': knownhits, 'per_case': perCase, 'build_s': round(t_build, 2)},
      'assumptions': CASES.ASSUMPTIONS + spec.get('assumptions', [])}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json.tmp' % pid, 'w'), indent=1); os.rename(V + '/evidence/%s.json.tmp' % pid, V + '/evidence/%s.json' % pid)
    for k, v in sorted(knownhits.items()): print('KNOWN-FINDING: property=%s %s' % (pid, v))
    print('%s: cases=%d complete=%d paths=%d queries=%d z3=%d solver=%.1fs asserts=%d memchecks=%d validated=%d mismatches=%d unconfirmed=%d wall=%.1fs' % (pid, len(cs), ev['coverage']['cases_complete'], tot['paths'], tot['queries'], tot['z3_queries'], tot['solver_s'], tot['asserts'], tot['mem_checks'], validated, len(mismatches), len(unconfirmed), wall))
    if incomplete: print('  incomplete: %s' % incomplete)
    for m in missing[:10]: print('  VACUITY: ' + m)
    for m in mismatches[:10]: print('  MISMATCH: ' + m)
    for m in problems[:10]: print('  NOT-EXPLORED: ' + m)
    for u in unconfirmed[:20]: print('  UNCONFIRMED: %s  %s %s in %s %s [%s] %s' % (u['case'], u['kind'], u['message'], u['function'], u['location'], u['native'], u['replay']))
    for v in violations:
        print('  %s: %s %s in %s at %s\n    key=%s\n    native: %s' % (v['case'], v['kind'], v['message'], v['function'], v['location'], v['key'], v['native']))
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    shutil.rmtree(work, ignore_errors=True); build.prune()
    sys.stdout.flush()
    os._exit(1 if violations else 0)
main()
