#!/usr/bin/env python3
"""check.py <property>: decide one property on the current working tree of /repo.

Every run: build the extractor, extract the functions the property depends on
from /repo's sources, put them under the contracts in contracts/, let Verus
discharge the obligations, probe that no contract is vacuous, and run the real
crate against an independent reference for a while (this validates the assumed
contracts and finds inputs for failed obligations).

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: no answer.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from units import KANI, PROPS, PRELUDES  # noqa: E402

EXTRACT = VERIF + '/extract/target/debug/extract'
SEARCH = VERIF + '/search/target/debug/search'
VERIFY_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'assertion not satisfied', 'invariant not satisfied',
               'arithmetic underflow/overflow', 'overflow', 'division by zero', 'recommendation not met', 'unable to prove', 'possible ',
               'index out of bounds', 'assert', 'loop invariant', 'decreases not satisfied', 'could not prove termination', 'resource limit', 'rlimit', 'solver', 'unreachable', 'not satisfied')
UNDECIDED = ('resource limit', 'rlimit', 'termination', 'decreases', 'solver')


def sh(cmd, timeout=600, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'


def build(crate):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    rc, _, err = sh(['cargo', 'build', '--offline', '-q'], cwd=f'{VERIF}/{crate}', env=env)
    return rc, err


def assemble(mode, body, preludes):
    t = ''
    for p in preludes:
        t += open(f'{VERIF}/contracts/{p}').read() + '\n'
    if mode == 'A':
        t = t.replace('//PANICREQ', 'requires false,').replace('//EXREQ', 'requires self.ex_ok(),')
    head = '#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n' + t.replace('use vstd::prelude::*;', '', 1) + '\n'
    return head + body + '\n}\nfn main() {}\n', head.count('\n')


def probe(body, report):
    """assert(false) at the entry of every emitted function: each must fail."""
    lines = body.split('\n')
    where = {}
    for f in report['functions']:
        if f['trusted']:
            continue
        for i in range(f['out_start'] - 1, f['out_end']):
            if lines[i].strip() == '{':
                while lines[i + 1].startswith('hide('):
                    i += 1
                lines[i] += ' proof { assert(false); }'
                where[i + 1] = f['key']
                break
    return '\n'.join(lines), where


def scan(text):
    """Everything the verifier takes on faith in the assembled file."""
    out = []
    pat = re.compile(r'(external_body|assume_specification|external_type_specification|external_fn_specification|\baxiom\b|\buninterp\b|\bassume\s*\(|\badmit\s*\()')
    name = re.compile(r'(?:fn|struct|enum|type)\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+?)\s*\]')
    lines = text.split('\n')
    ctx = ''
    for i, l in enumerate(lines):
        s = l.strip()
        m = re.match(r'(?:pub )?impl\b(.*?)\{', s)
        if m:
            ctx = m.group(1).strip()
        if s == '}' and l.startswith('}'):
            ctx = ''
        if s.startswith('//'):
            continue
        m = pat.search(l)
        if not m:
            continue
        kind = m.group(1).strip(' (')
        for j in range(i, min(i + 6, len(lines))):
            n = name.search(lines[j])
            if n:
                out.append(f"{kind}: {(n.group(1) or n.group(2))}" + (f" [{ctx}]" if ctx else ''))
                break
        else:
            out.append(f'{kind}: line {i + 1}')
    return sorted(set(out))


def verus(path, extra=()):
    d = os.path.dirname(path)
    cmd = ['verus', os.path.basename(path), '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '4', '--rlimit', '30', *extra]
    rc, out, err = sh(cmd, timeout=400, cwd=d)
    try:
        js = json.loads(out[out.index('{'):])
    except ValueError:
        js = None
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return rc, js, diags, err


def functions_of(js):
    out = []
    for m in js['times-ms']['smt'].get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            out.append((m['module'], f['function'], f['success'], f['time-micros']))
    return out


def span_text(s):
    t = ' '.join(x['text'][x['highlight_start'] - 1:x['highlight_end'] - 1] for x in s['text'])
    return re.sub(r'\s+', ' ', t).strip()


def collect(errors, fns, off):
    where_of = lambda line: next((f for f in fns if f['out_start'] <= line - off <= f['out_end']), None)
    out = []
    for x in errors:
        f = None
        clause = ''
        callee = None
        for s in x['spans']:
            lab = s['label'] or ''
            g = where_of(s['line_start'])
            if 'failed' in lab:
                clause = span_text(s)
            if g and 'failed precondition' in lab:
                callee = g['key']
            if g and 'failed precondition' not in lab and (f is None or s['is_primary']):
                f = g
        if not clause and x['spans']:
            clause = span_text(next((s for s in x['spans'] if s['is_primary']), x['spans'][0]))
        out.append(dict(function=f['key'] if f else None, file=f['file'] if f else None, line=f['line'] if f else None,
                                    module=f['module'] if f else None, callee=callee, message=x['message'], clause=clause[:400],
                                    at=[dict(label=s['label'], text=span_text(s)[:200]) for s in x['spans']], loops=f['loops'] if f else 0, loop_text=f['loop_text'] if f else [],
                                    rendered=(x.get('rendered') or '')[:1500]))
    return out


def run_unit(unit, work):
    res = run_unit_once(unit, work)
    if res['status'] != 'failed':
        return res
    # The contract of a function inside the crate is a means, not the claim: where it no longer holds, or a caller
    # no longer keeps to it, the callers are verified against the body of the function instead.
    roots = {r.replace('INST', unit['inst']) for r in unit['roots']}
    loops = {f['key']: f['loops'] for f in res['functions']}
    cand = sorted({k for f in res['failures'] for k in (f['function'], f['callee']) if k in loops and k not in roots and not loops[k]})
    if not cand:
        return res
    again = run_unit_once(dict(unit, name=unit['name'] + '_inlined', inline=cand), work)
    if again['status'] == 'ok' and not again['vacuous']:
        again['name'] = res['name']
        again['without_contract'] = cand
        return again
    return res


def run_unit_once(unit, work):
    """-> dict(status, failures, ...); status ok|failed|unsupported"""
    name = unit['name']
    d = f"{work}/{name}"
    os.makedirs(d)
    t0 = time.time()
    args = [EXTRACT, '--repo', REPO, '--inst', unit['inst'], '--mode', unit['mode']]
    for o in unit['overlays']:
        args += ['--overlay', f'{VERIF}/contracts/{o}']
    for r in unit['roots']:
        args += ['--root', r.replace('INST', unit['inst'])]
    for r in unit.get('inline', []):
        args += ['--inline', r]
    args += ['--out', d + '/body.rs', '--report', d + '/report.json']
    rc, out, err = sh(args, timeout=60)
    res = dict(name=name, status='unsupported', why='', failures=[], functions=[], obligations=0, discharged=0, own_obligations=0,
               solver_ms=0, assumptions=[], rules=[], vacuous=[], trusted=[], loops={})
    if rc != 0:
        res['why'] = 'extraction: ' + (out + err).strip()[-600:]
        return res
    body = open(d + '/body.rs').read()
    report = json.load(open(d + '/report.json'))
    res['rules'] = report['rules']
    res['derives'] = report.get('derives', {})
    lost = [f'{t}: {x}' for t, ds in baseline().get('derives', {}).items() if t in res['derives'] for x in ds if not re.search(r'\b' + x + r'\b', res['derives'][t])]
    if lost:
        res['why'] = 'a derived implementation the contracts rely on is no longer derived: ' + ', '.join(lost)
        return res
    preludes = unit.get('base') or PRELUDES[unit['inst']] + unit.get('preludes', [])
    text, off = assemble(unit['mode'], body, preludes)
    open(d + '/main.rs', 'w').write(text)
    ptext, where = probe(body, report)
    ptext, _ = assemble(unit['mode'], ptext, preludes)
    open(d + '/probe.rs', 'w').write(ptext)
    mods = sorted({f['module'] for f in report['functions']})
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(verus, d + '/main.rs', ['--multiple-errors', '6'])
        b = ex.submit(verus, d + '/probe.rs', ['--multiple-errors', '1'] + [x for m in mods for x in ('--verify-only-module', m)])
        rc, js, diags, err = a.result()
        prc, pjs, pdiags, _ = b.result()
    res['assumptions'] = scan(text)
    fns = report['functions']
    res['functions'] = [dict(key=f['key'], file=f['file'], line=f['line'], end_line=f['end_line'], inlined=f['inlined'], loops=f['loops']) for f in fns if not f['trusted']]
    res['trusted'] = [f"{f['key']} ({f['file']}): {f['trusted']}" for f in fns if f['trusted']]
    errors = [x for x in diags if x['level'] == 'error' and not x['message'].startswith('aborting')]
    if js is None or 'verification-results' not in js or js['verification-results'].get('encountered-vir-error') or 'smt' not in js.get('times-ms', {}):
        res['why'] = 'verifier front end: ' + '; '.join(x['message'] + ' @ ' + ','.join(span_text(s)[:80] for s in x['spans'] if s['is_primary']) for x in errors[:4])
        if not errors:
            res['why'] += err[-500:]
        return res
    front = [x for x in errors if x.get('code') or not any(m in x['message'].lower() for m in VERIFY_MSGS)]
    vr = js['verification-results']
    if front or vr['verified'] + vr['errors'] == 0:
        res['why'] = 'verifier front end: ' + '; '.join(x['message'] + ' @ ' + ','.join(span_text(s)[:80] for s in x['spans'] if s['is_primary']) for x in front[:4])
        return res
    allf = functions_of(js)
    res['obligations'] = vr['verified'] + vr['errors']
    res['discharged'] = vr['verified']
    res['solver_ms'] = round(sum(f[3] for f in allf) / 1000)
    own = [f for f in allf if f[0] in mods]
    res['own_obligations'] = len(own)
    if vr['encountered-error'] and not errors:
        res['why'] = 'verifier: ' + err[-500:]
        return res
    res['failures'] = collect(errors, fns, off)
    if res['failures'] and not unit.get('inline'):
        # an obligation counts as failed if it fails with every seed
        with cf.ThreadPoolExecutor(2) as ex:
            for _, js2, diags2, _ in ex.map(lambda k: verus(d + '/main.rs', ['--multiple-errors', '6', '--smt-option', f'smt.random_seed={k}', '--smt-option', f'sat.random_seed={k}']), (7, 23)):
                if js2 is None or 'smt' not in js2.get('times-ms', {}):
                    continue
                again = {f['function'] for f in collect([x for x in diags2 if x['level'] == 'error' and not x['message'].startswith('aborting')], fns, off)}
                gone = [f for f in res['failures'] if f['function'] not in again]
                res['failures'] = [f for f in res['failures'] if f['function'] in again]
                res['discharged'] += len({f['function'] for f in gone})
        vr = dict(vr, success=not res['failures'])
    # vacuity: every probe must fail
    hit = set()
    for x in pdiags:
        if x['level'] == 'error':
            for s in x['spans']:
                hit.add(s['line_start'] - off)
    if pjs is not None and 'smt' in pjs.get('times-ms', {}):
        res['vacuous'] = [k for l, k in where.items() if l not in hit]
        res['probes'] = len(where)
    else:
        res['vacuous'] = ['probe run failed']
    res['status'] = 'failed' if res['failures'] else 'ok'
    if not res['failures'] and not vr['success']:
        res['status'] = 'unsupported'
        res['why'] = 'verifier reported no success: ' + err[-300:]
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def search(prop, seed, ms, suite_args=()):
    rc, out, err = sh([SEARCH, prop, '--seed', str(seed), '--ms', str(ms), '--src', REPO + '/src', *suite_args], timeout=ms / 1000 * 2 + 120)
    try:
        return json.loads(out.strip().split('\n')[-1])
    except (ValueError, IndexError):
        pass
    if rc < 0 or rc > 128:  # the process was killed by a signal, for example by a stack overflow: find the case
        with tempfile.TemporaryDirectory(prefix='verif-trace-') as d:
            rc2, _, _ = sh([SEARCH, prop, '--seed', str(seed), '--ms', str(ms), '--src', REPO + '/src', '--trace', d], timeout=ms / 1000 * 2 + 120)
            for f in sorted(os.listdir(d)) if rc2 < 0 or rc2 > 128 else []:
                w = open(f'{d}/{f}').read().split()
                if len(w) >= 3:
                    rc3, _, e3 = sh([SEARCH, prop, '--replay', w[1], '--size', w[2], '--suite', w[0]], timeout=60)
                    if rc3 < 0 or rc3 > 128:
                        return dict(cases=0, suites=[w[0]], fail=dict(suite=w[0], case_seed=int(w[1]), size=int(w[2]), message=f'the process was killed (signal {-rc3}): {e3[-300:]}', input=''))
    return dict(error=f'exit {rc}: {(out + err)[-600:]}', cases=0, suites=[], fail=None)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = PROPS[prop]
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex:
        be, bs = ex.submit(build, 'extract'), ex.submit(build, 'search')
        (rce, erre), (rcs, errs) = be.result(), bs.result()
    if rce:
        print('extractor does not build:', erre[-2000:])
        sys.exit(2)
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        code = decide(prop, cfg, tier, seed, t0, work, rcs, errs)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, cfg, tier, seed, t0, work, rcs, errs):
    units = [dict(u, name=f'u{i}') for i, u in enumerate(cfg['units'])]
    ms = cfg.get('search_ms', 8000) * (8 if tier == 'thorough' else 1)
    with cf.ThreadPoolExecutor(5) as ex:
        fk = ex.submit(run_kani, cfg.get('kani'))
        fs = ex.submit(search, prop, seed, ms) if rcs == 0 else None
        results = list(ex.map(lambda u: run_unit(u, work), units))
        sr = fs.result() if fs else dict(error='harness does not build: ' + errs[-800:], cases=0, suites=[], fail=None)
    for u, r in zip(units, results):
        r['inst'], r['mode'], r['roots'] = u['inst'], u['mode'], u['roots']

    kani = fk.result()

    hard, soft = [], []
    if kani and kani['status'] != 'ok':
        soft.append(dict(unit='kani', why='contracts of dependencies not discharged: ' + (', '.join(kani['failed']) or kani['output'][-300:])))
    for r in results:
        if r['status'] == 'unsupported':
            soft.append(dict(unit=r['name'], why=r['why']))
        if r['vacuous']:
            soft.append(dict(unit=r['name'], why='vacuous or unprobed: ' + ', '.join(r['vacuous'])))
        for f in r['failures']:
            f['unit'] = f"{r['inst']}/{r['mode']}"
            if f['function'] is None or any(u in f['message'].lower() for u in UNDECIDED):
                soft.append(f)
            elif any(c in f['clause'] for c in cfg.get('other_clauses', [])):
                soft.append(f)
            elif cfg.get('modules') and f['module'] not in cfg['modules']:
                soft.append(f)
            elif loops_changed(f):
                soft.append(dict(f, why='a loop differs from the one its invariant was written for', loop_changed=True))
            else:
                hard.append(f)
    long_run = None
    if (hard or soft) and not sr.get('fail') and rcs == 0:
        long_run = search(prop, seed + 1000003, int(os.environ.get('VERIF_LONG_MS') or cfg.get('long_ms', 90000)))
        if long_run.get('fail'):
            sr = dict(long_run, cases=sr['cases'] + long_run['cases'])
        else:
            sr['cases'] += long_run['cases']
            sr['distinct'] = sr.get('distinct', 0) + long_run.get('distinct', 0)

    if sr.get('fail'):
        # with a failing input there is no doubt about these
        hard += [f for f in soft if f.get('loop_changed')]
        soft = [f for f in soft if not f.get('loop_changed')]
    proved = bool(units) and not hard and not soft
    level = cfg['level'] if proved else 'exploration'
    fnmap = {}
    for r in results:
        for f in r['functions']:
            e = fnmap.setdefault(f['key'].replace('StandardTrie::', 'INST::') if False else f['key'], dict(f, units=[]))
            e['units'].append(f"{r['inst']}/{r['mode']}")
    assumptions = sorted({a for r in results for a in r['assumptions']})
    by = {a: h for h, l in KANI.items() for a in l}
    here = kani['harnesses'] if kani and kani['status'] == 'ok' else []
    at = {h: p for p, c in PROPS.items() for h in c.get('kani', [])}
    discharged = sorted(f'{a}: by Kani harness {by[a]} in this run' for a in assumptions if by.get(a) in here)
    assumptions = [a if a not in by else f'{a} (discharged by Kani harness {by[a]} in the check of {at[by[a]]})' for a in assumptions if by.get(a) not in here]
    trusted = sorted({a for r in results for a in r['trusted']})
    violations = 0
    replay = None
    line = None
    if sr.get('fail'):
        violations = 1
        replay = f'{VERIF}/evidence/{prop}.replay.json'
        fl = sr['fail']
        json.dump(dict(property=prop, kind='failing input on the real code', failing_input=fl,
                       replay_cmd=f"cd {VERIF}/search && cargo build --offline -q && ./target/debug/search {prop} --replay {fl['case_seed']} --size {fl['size']} --suite {fl['suite']}",
                       failed_obligations=hard, undecided=soft), open(replay, 'w'), indent=1)
        line = f'VIOLATION property={prop} replay={replay}'
    elif hard:
        violations = 1
        replay = f'{VERIF}/evidence/{prop}.replay.json'
        json.dump(dict(property=prop, kind='failed obligation', failed_obligations=hard, undecided=soft,
                       searched=dict(cases=sr['cases'])), open(replay, 'w'), indent=1)
        line = f'VIOLATION property={prop} replay={replay} no-failing-input-found'
    cov = dict(
        obligations=sum(r['obligations'] for r in results) + (len(kani['harnesses']) if kani else 0), discharged=sum(r['discharged'] for r in results) + (kani['verified'] if kani else 0),
        obligations_of_extracted_functions=sum(r['own_obligations'] for r in results),
        checker_cmd='verus (z3) on the file extracted from /repo by extract/ and assembled with contracts/: ' + '; '.join(
            f"{r['inst']} mode {r['mode']} roots {','.join(r['roots'])}" for r in results),
        trusted_base=trusted + assumptions, dependency_contracts_discharged=discharged,
        back_ends=['verus ' + 'with z3'] + (['kani with cbmc'] if kani else []),
        solver_ms=sum(r['solver_ms'] for r in results) + (kani['solver_ms'] if kani else 0),
        functions_under_contract=[f"{k} ({v['file']}:{v['line']}) in {', '.join(v['units'])}" + (f"; inlined: {', '.join(v['inlined'])}" if v['inlined'] else '') for k, v in sorted(fnmap.items())],
        extraction_rewrites=sorted({x for r in results for x in r['rules']}),
        vacuity_probes=sum(r.get('probes', 0) for r in results),
        vacuous=[x for r in results for x in r['vacuous']],
        taken_without_contract=sorted({k for r in results for k in r.get('without_contract', [])}),
        bounded_parts=cfg.get('bounded', []),
        runtime_cases=sr.get('cases', 0), runtime_suites=sr.get('suites', []),
        not_decided_deductively=soft, failed_obligations=[dict(function=f['function'], message=f['message'], clause=f['clause']) for f in hard],
        evaluations=sr.get('cases', 0), distinct_nontrivial=sr.get('distinct', 0), rule=sr.get('rule', 'seeded random inputs and operation histories run on the real crate and compared with an independent reference; distinct counts different inputs'),
        samples=sr.get('samples', []), **({'kani': kani} if kani else {}))
    if sr.get('error'):
        cov['runtime_error'] = sr['error']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=cfg.get('assumptions', []) + assumptions,
              wall_s=round(time.time() - t0, 2), violations=violations)
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    for f in hard:
        print(f"failed obligation in {f['function']} ({f['file']}:{f['line']}, {f['unit']}): {f['message']}: {f['clause']}")
    for f in soft:
        print('not decided deductively:', f.get('why') or f"{f['function']}: {f['message']}: {f['clause']}")
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, {len(fnmap)} functions under contract, {cov['runtime_cases']} runtime cases, {ev['wall_s']} s")
    if line:
        if sr.get('fail'):
            print('failing input:', json.dumps(sr['fail'])[:1500])
        print(line)
        return 1
    if sr.get('error') and not proved:
        print('no answer:', sr['error'][:2000])
        return 2
    if not proved and units:
        print('held on the bounded search only (deductive part undecided on this tree)')
    return 0


def baseline():
    try:
        return json.load(open(VERIF + '/contracts/baseline.json'))
    except OSError:
        return {}


def loops_changed(f):
    base = baseline().get('loops', {})
    return bool(base) and f['loop_text'] not in base.get(f['function'], [[]])


def run_kani(names):
    """Discharge assumed contracts of dependencies on their real code."""
    if not names:
        return None
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    t0 = time.time()
    cmd = ['cargo', 'kani', '--exact', '--output-format', 'terse', '-j', '3']
    for n in names:
        cmd += ['--harness', n]
    rc, out, err = sh(cmd, timeout=500, cwd=VERIF + '/kani', env=env)
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', out)
    failed = re.findall(r'Verification failed for - (\S+)', out)
    ok = bool(m) and rc == 0 and int(m.group(1)) == len(names) and not failed
    times = [float(x) for x in re.findall(r'Verification Time: ([0-9.]+)s', out)]
    return dict(harnesses=list(names), status='ok' if ok else 'failed' if failed else 'error', failed=failed, verified=int(m.group(1)) if m else 0,
                solver_ms=round(sum(times) * 1000), wall_s=round(time.time() - t0, 1), **({} if ok else {'output': (out + err)[-1200:]}))


if __name__ == '__main__':
    main()
