#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on the current /repo tree
   check.py --replay FILE                 replay a recorded counterexample natively
   check.py --setup                       build the engine and configure"""
import sys, os, re, json, time, subprocess, shutil, collections, fnmatch
import vlib
from props import PROPS
from concurrent.futures import ThreadPoolExecutor
V = vlib.VERIF

def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) target=(\S+) case=(\S+) what="([^"]*)"(?: :: (.*))?', l.strip())
            if m and m.group(1) == pid: out.append(m.groups()[1:])
    return out

def run_target(pid, ti, t, tier, so, bl, info, budget):
    out = os.path.join(vlib.CACHE, 'out-%s-%d-%d.json' % (pid, ti, os.getpid()))
    th = tier == 'thorough'
    o = dict(t.get('opts', {})); o.update(t.get('thorough_opts', {}) if th else {})
    cmd = [info['engine'] + '/symex', '--so', so, '--bclist', bl, '--out', out, '--jobs', str(o.get('jobs', vlib.NCPU)), '--case-budget', str(o.get('case_budget', 600 if th else 120)),
           '--budget', str(budget), '--query-timeout', str(o.get('query_timeout', 120 if th else 20)), '--max-paths', str(o.get('max_paths', 200000)), '--max-insts', str(o.get('max_insts', 3000000))]
    if th: cmd.append('--thorough')
    t0 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 600)
    if r.returncode: raise RuntimeError('engine failed: ' + r.stdout.decode(errors='replace')[-2000:])
    res = [json.loads(l) for l in open(out, errors='replace') if l.strip()]
    os.remove(out)
    return res, time.time() - t0

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        vlib.prepare(); return 0
    if a and a[0] == '--replay':
        hdr = dict(re.findall(r'^# (\w+): (.*)$', open(a[1]).read(), re.M))
        t = PROPS[hdr['property']]['targets'][int(hdr['target'])]
        vlib.prepare(); so, bl, info = vlib.build_target(t['h'], t['sims'], defs=t.get('defs', ()), without=t.get('without', ()))
        r = subprocess.run([info['engine'] + '/symex', '--so', so, '--bclist', bl, '--replay', a[1]]); return r.returncode
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    P = PROPS[pid]; t_start = time.time()
    vlib.prepare()
    targets = [(i, t) for i, t in enumerate(P['targets']) if tier == 'thorough' or not t.get('thorough_only')]
    built = [(i, t) + vlib.build_target(t['h'], t['sims'], defs=t.get('defs', ()), without=t.get('without', ())) for i, t in targets]
    total_budget = P.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    kn = known(pid); tot = collections.Counter(); und = collections.Counter(); reach = collections.Counter(); funcs = set(); viol = []; hits = collections.OrderedDict(); notes = []; samples = []; cases = 0; inc = []
    for i, t, so, bl, info in built:
        left = max(20, total_budget - (time.time() - t_start))
        res, secs = run_target(pid, i, t, tier, so, bl, info, left)
        ndone = 0
        for d in res:
            if 'funcs' in d: funcs.update(d['funcs'])
            if 'crash' in d: notes.append('engine worker ended abnormally (%s) on target %d' % (d['crash'], i)); tot['crash'] += 1
            if d.get('skipped'): und['time budget of the run (case not started)'] += 1; inc.append('%d/%s' % (i, d['name']))
            if 'paths' not in d: continue
            ndone += 1; cases += 1
            for k, v in d.items():
                if isinstance(v, (int, float)) and k != 'case': tot[k] += v
            for k, v in d['undecided'].items(): und[k] += v; inc.append('%d/%s' % (i, d['name']))
            for k, v in d['reach'].items(): reach[k] += v
            if d['valmsg']: notes.append('model/native mismatch in %d/%s: %s' % (i, d['name'], d['valmsg'][:200]))
            if d['paths'] and len(samples) < 6 and (cases % 37 == 1): samples.append({'target': i, 'case': d['name'], 'paths': d['paths'], 'assertions': d['asserts'], 'queries': d['queries'], 'solver_s': d['solver_s']})
            for v in d['violations']:
                what = v['msg'] if v['kind'] == 'assert' else '%s: %s in %s' % (v['kind'], v['msg'], v['where'].split(' < ')[0])
                k = next((x for x in kn if fnmatch.fnmatchcase(t['h'] + ('' if len(P['targets']) == 1 else ''), x[0]) and fnmatch.fnmatchcase(d['name'], x[1]) and x[2] == what), None)
                if k: hits.setdefault(k, []).append(d['name'])
                else: viol.append((i, t, d['name'], what, v))
    rd = os.path.join(V, 'replays'); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + '-'): os.remove(os.path.join(rd, f))
    for k, c in hits.items(): print('KNOWN-FINDING: property=%s %s: %s (%s)' % (pid, k[1], k[2], k[3] or ''))
    for n, (i, t, cn, what, v) in enumerate(viol[:40]):
        rp = os.path.join('replays', '%s-%d.txt' % (pid, n))
        with open(os.path.join(V, rp), 'w') as f:
            f.write('# property: %s\n# target: %d\n# harness: %s\n# violated: %s\n# where: %s\ncase %s\n%s' % (pid, i, t['h'], what, v['where'], cn, v['inputs']))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); print('  case %s: %s [%s] inputs: %s' % (cn, what, v['where'], v['inputs'].replace('\n', '; ')[:300]))
    for k, n in und.most_common(12): print('INCONCLUSIVE %s: %s (x%d)' % (pid, k, n))
    for n in notes[:10]: print('NOTE %s: %s' % (pid, n))
    miss = [r for r in P.get('witness', []) if not reach.get(r)]
    wall = time.time() - t_start
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(viol),
          'coverage': {'states': int(tot['paths']), 'transitions': int(tot['forks'] + tot['paths']), 'traces_validated_against_impl': int(tot['validated']), 'validation_mismatches': int(tot['valfail']),
                       'cases': cases, 'symbolic_instructions': int(tot['insts']), 'assertions_checked': int(tot['asserts']), 'assertion_queries': int(tot['assertq']),
                       'solver_queries': int(tot['queries']), 'sat': int(tot['sat']), 'unsat': int(tot['unsat']), 'unknown': int(tot['unknown']), 'query_cache_hits': int(tot['cache']), 'solver_s': round(tot['solver_s'], 2),
                       'paths_with_opaque_floating_point': int(tot['opaque']), 'undecided': dict(und), 'undecided_cases': sorted(set(inc))[:50], 'reachability_witnesses': dict(reach),
                       'functions_encoded': sorted(re.sub(r'__v\d.*', '', f) for f in funcs if not f.startswith('vrt_')), 'functions_encoded_count': len(funcs), 'known_findings_seen': len(hits),
                       'explanation': 'states = feasible symbolic paths explored to the end (each stands for all inputs meeting its path condition); transitions = path segments; bounds: ' + P.get('bounds', ''),
                       'samples': samples or [{'cases': cases}]},
          'assumptions': P.get('assumptions', [])}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths, %d assertions, %d queries (%.1f s solver), %d undecided, %d violations, %d known; %.1f s' % (pid, tier, cases, tot['paths'], tot['asserts'], tot['queries'], tot['solver_s'], sum(und.values()), len(viol), len(hits), wall))
    if viol: return 1
    if not tot['paths'] or not tot['asserts'] and not P.get('noassert') or miss:
        print('ERROR %s: vacuous run (paths=%d asserts=%d missing witnesses=%s)' % (pid, tot['paths'], tot['asserts'], miss)); return 2
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Exception as e:
        import traceback; traceback.print_exc(); print('ERROR: %s' % e); sys.exit(2)
