#!/usr/bin/env python3
"""Decides one property: extract the crate, let Verus discharge the contracts, report.

usage: check.py PROPERTY            (VERIF_TIER, VERIF_SEED from the environment)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import fidelity
import stdsrc
from props import PROPS, PANIC_ERRORS, PARSE_ASSUMPTIONS, VALID_ASSUMPTIONS, CLI_ASSUMPTIONS, KANI_ASSUMPTIONS

WORK = os.path.join(VERIF, 'work')
SRC = os.path.join(REPO, 'whasm', 'src')
T0 = time.time()


def left(limit=840):
    return limit - (time.time() - T0)


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(1, timeout), **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


def build_extractor():
    rc, o, e = sh(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(VERIF, 'extract', 'Cargo.toml'), '--target-dir', os.path.join(WORK, 'etarget')], 300)
    if rc != 0:
        die('extractor does not build\n' + e[-3000:])
    return os.path.join(WORK, 'etarget', 'debug', 'extract')


def build_search():
    """The harness, or None if the crate builds but no longer has the public interface the harness uses."""
    rc, o, e = sh(['cargo', 'build', '--offline', '--quiet', '--release', '--manifest-path', os.path.join(VERIF, 'search', 'Cargo.toml'), '--target-dir', os.path.join(WORK, 'starget')], 300)
    if rc != 0:
        if rc != 'timeout' and 'could not compile `search`' in e and 'could not compile `whasm`' not in e:
            print('the search harness does not fit the public interface any more; proof only')
            return None
        die('the crate under check does not build\n' + e[-3000:])
    return os.path.join(WORK, 'starget', 'release', 'search')


def build_tool():
    """The command-line tool itself, for the search."""
    rc, o, e = sh(['cargo', 'build', '--offline', '--quiet', '--release', '--manifest-path', os.path.join(REPO, 'parser', 'Cargo.toml'), '--target-dir', os.path.join(WORK, 'ptarget')], 300)
    if rc != 0 or not os.path.exists(os.path.join(WORK, 'ptarget', 'release', 'parser')):
        die('the command-line tool does not build\n' + e[-3000:])


# ---------------------------------------------------------------- the proof

def blocks(text):
    return [b for b in re.split(r'\n(?=error|warning|note: |verification results)', '\n' + text) if b.strip().startswith('error')]


def owners(block, fmap, gen):
    """keys of the functions this diagnostic points into, the function that failed first"""
    nums = [int(x) for x in re.findall(r'^\s*(?:-->|:::) \S*?' + re.escape(gen) + r':(\d+)', block, re.M)]
    # the marked lines
    nums += [int(x) for x in re.findall(r'^\s*(\d+) \|', block, re.M)]
    keys = []
    for n in nums:
        for f in fmap:
            if f['gen'][0] <= n <= f['gen'][1] and f['key'] not in keys:
                keys.append(f['key'])
    return keys


def verify(extract, spec, tmp):
    """Returns a dict describing which functions are discharged."""
    drops = ['mod validation'] if spec['mode'] == 'parse' else []
    if spec.get('tool'):
        drops.append('cli=' + os.path.join(REPO, 'parser', 'src'))
    stubbed = {}
    res = {'undischarged': {}, 'general': [], 'stubbed': stubbed, 'output': '', 'cmd': '', 'functions': [], 'smt_ms': 0, 'rounds': 0}
    for rnd in range(6):
        res['rounds'] = rnd + 1
        gen, mapf = os.path.join(tmp, 'gen.rs'), os.path.join(tmp, 'map.json')
        rc, o, e = sh([extract, SRC, os.path.join(VERIF, 'verus', 'annot'), os.path.join(VERIF, 'verus', 'spec'), gen, mapf] + drops + list(stubbed), 120)
        if rc != 0:
            res['general'].append('extraction: ' + (e or o).strip()[-2000:])
            return res
        m = json.load(open(mapf))
        res['map'] = m
        text = open(gen).read()
        mods = module_list(text)
        cmd = ['verus', 'gen.rs', '--output-json', '--time-expanded', '--no-report-long-running', '--multiple-errors', '4']
        skip = spec.get('skip') or []
        only = spec.get('only') or []
        absent = ['prel', 'valprel']
        while True:
            full = list(cmd)
            if skip or only:
                for x in mods:
                    if x in absent or any(x == s or x.startswith(s + '::') for s in skip):
                        continue
                    if not only or any(re.match(s, x) for s in only):
                        full += ['--verify-module', x]
            rc, o, e = sh(full, min(left() - 150, 420), cwd=tmp)
            mm = re.search(r'could not find module (\S+) specified', e)
            if mm and mm.group(1) not in absent:
                absent.append(mm.group(1))
                continue
            break
        res['cmd'] = ' '.join(cmd) + (' (all modules but %s)' % ', '.join(skip) if skip else '') + (' (modules matching %s)' % ', '.join(only) if only else '')
        res['output'] = e
        if rc == 'timeout':
            res['general'].append('Verus did not finish in time')
            return res
        try:
            d = json.loads(o)
        except ValueError:
            d = {}
        vr = d.get('verification-results') or {}
        bl = blocks(e)
        hard = ('verified' not in vr) or vr.get('encountered-vir-error') or any(re.match(r'error\[E\d', b.strip()) for b in bl)
        if not hard and vr.get('verified', 0) == 0 and vr.get('errors', 0) == 0:
            hard = True
        if hard:
            bad = {}
            for b in bl:
                for k in owners(b, m['functions'], 'gen.rs')[:1]:
                    if k not in stubbed:
                        bad[k] = b
            if not bad:
                res['general'].append('the extracted text is not accepted by Verus:\n' + e[-4000:])
                return res
            for k, b in bad.items():
                stubbed[k] = b
                res['undischarged'][k] = [('unsupported', b)]
            continue
        for b in bl:
            head = b.strip().split('\n')[0]
            if head.startswith('error: aborting'):
                continue
            ks = owners(b, m['functions'], 'gen.rs')
            site = failing_function(b, m['functions'], ks)
            if site is None:
                res['general'].append(b)
            else:
                res['undischarged'].setdefault(site, []).append((head, b))
        res['functions'] = breakdown(d)
        if 'cases' in spec:
            run_cases(spec, text, m, tmp, res)
        res['smt_ms'] = sum(x[4] for x in res['functions']) / 1000.0
        res['verified'] = vr.get('verified', 0) + res.get('case_verified', 0)
        res['errors'] = vr.get('errors', 0) + res.get('case_errors', 0)
        for p in m['problems']:
            res['general_problem'] = True
            k = next((f['key'] for f in m['functions'] if f['key'] in p), None)
            mm = re.match(r'annotated (?:function|item) not found: (.*)', p)
            res['undischarged'].setdefault(k or (mm.group(1) if mm else p), []).append(('annotation', p))
        if res['errors'] and not res['undischarged'] and not res['general']:
            res['general'].append('Verus reports %d errors\n%s' % (res['errors'], e[-3000:]))
        return res
    res['general'].append('too many functions outside the supported subset')
    return res


def breakdown(d):
    return [(f['module'], x['function'], x.get('mode:', x.get('mode', '')), bool(x.get('success')), x.get('time-micros', 0))
            for f in d.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []) for x in f.get('function-breakdown', [])]


CASE = re.compile(r'/\*CASE (\d+) (.*?)\*/ false')


def run_cases(spec, text, m, tmp, res):
    """A function too large for one query is verified once per case of its argument.

    The main run assumes false at its start, so says nothing about it; each run here assumes one
    case instead, the last one whatever the others leave over.
    """
    mk = CASE.search(text)
    if not mk:
        return
    n, expr = int(mk.group(1)), mk.group(2)
    line = text.count('\n', 0, mk.start()) + 1
    key = next((f['key'] for f in m['functions'] if f['gen'][0] <= line <= f['gen'][1]), None)
    if key is None:
        res['general'].append('no function holds the case marker')
        return
    mod, fn = spec['case_fn']

    def one(k):
        cond = '%s == %d' % (expr, k) if k < n - 1 else '!(0 <= %s < %d)' % (expr, n - 1)
        d = os.path.join(tmp, 'case%d' % k)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'gen.rs'), 'w').write(text[:mk.start()] + cond + text[mk.end():])
        cmd = ['verus', 'gen.rs', '--output-json', '--time-expanded', '--no-report-long-running', '--verify-only-module', mod, '--verify-function', fn]
        return k, sh(cmd, min(left() - 150, 300), cwd=d)

    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(one, [k for k in range(n) if spec['cases'] == 'all' or k in spec['cases']]))
    res['cases'] = []
    res['functions'] = [f for f in res['functions'] if f[1].split('::')[-2:] != fn.split('::')[-2:] or f[0] != mod]
    for k, (rc, o, e) in runs:
        name = '%s [case %d of %d]' % (key, k, n)
        try:
            d = json.loads(o)
        except ValueError:
            d = {}
        vr = d.get('verification-results') or {}
        good = vr.get('verified', 0) > 0 and vr.get('errors', 1) == 0
        res['cases'].append({'case': k, 'discharged': good})
        fs = [f for f in breakdown(d) if f[0] == mod]
        res['functions'].append((mod, '%s [case %d of %d]' % (fn, k, n), 'exec', good, sum(f[4] for f in fs)))
        res['case_verified'] = res.get('case_verified', 0) + (1 if good else 0)
        if not good:
            res['case_errors'] = res.get('case_errors', 0) + 1
            bl = [b for b in blocks(e) if not b.strip().startswith('error: aborting')]
            if rc == 'timeout' or not bl:
                bl = ['error: not discharged (%s)\n%s' % (rc, e[-1500:])]
            for b in bl:
                res['undischarged'].setdefault(name, []).append((b.strip().split('\n')[0], b))


def failing_function(block, fmap, keys):
    """The function whose body failed: for a precondition error that is the caller."""
    lines = block.split('\n')
    marks = []
    cur = None
    for i, l in enumerate(lines):
        n = re.match(r'^\s*(\d+) \|', l)
        if n:
            cur = int(n.group(1))
        if re.search(r'\^', l) and cur is not None:
            marks.append(cur)
    for n in marks:
        for f in fmap:
            if f['gen'][0] <= n <= f['gen'][1]:
                return f['key']
    return keys[0] if keys else None


def module_list(text):
    out, stack, depth = [], [], 0
    # the generated text has one `pub mod x {` per line for every module, verus! blocks inside
    mods = []
    path = []
    depth = 0
    for l in text.split('\n'):
        m = re.match(r'^pub mod (\w+) \{$', l)
        if m:
            path.append((m.group(1), depth))
            mods.append('::'.join(p for p, _ in path))
        s = strip_code(l)
        depth += s.count('{') - s.count('}')
        while path and depth <= path[-1][1]:
            path.pop()
    return mods


def strip_code(l):
    l = re.sub(r"'(\\.|[^\\'])'", "' '", l)
    l = re.sub(r'"(\\.|[^"\\])*"', '""', l)
    l = re.sub(r'/\*.*?\*/', '', l)
    return re.sub(r'//.*', '', l)


def kani(features, limit):
    """Runs the Kani harnesses with these features; returns one record per harness and what failed."""
    recs, bad = [], []
    for f in features:
        cmd = ['cargo', 'kani', '--features', f, '--target-dir', os.path.join(WORK, 'ktarget'), '--output-format', 'terse']
        rc, o, e = sh(cmd, limit, cwd=os.path.join(VERIF, 'kani'))
        text = o + e
        n = 0
        for b in re.split(r'(?m)^Checking harness ', text)[1:]:
            name = b.split('...')[0]
            ok = 'VERIFICATION:- SUCCESSFUL' in b
            cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', b)
            m = re.search(r'\*\* (\d+) of (\d+) failed', b)
            if cov and cov.group(1) != cov.group(2):
                ok = False
            recs.append({'harness': name, 'successful': ok, 'checks': int(m.group(2)) if m else 0, 'bounded': 'bounded_' in name})
            n += 1
            if not ok:
                bad.append('Kani harness %s:\n%s' % (name, b[-4000:]))
        if n == 0 or (rc != 0 and not bad):
            bad.append('Kani did not finish (%s, feature %s):\n%s' % (rc, f, text[-4000:]))
    return recs, bad


def std_utf8(tmp, limit):
    """Verifies the standard library's UTF-8 check, copied from the toolchain's source."""
    d = os.path.join(tmp, 'std')
    os.makedirs(d, exist_ok=True)
    try:
        text = stdsrc.generate(os.path.join(VERIF, 'verus', 'std', 'utf8.rs'), stdsrc.library())
    except (OSError, ValueError) as x:
        return {'source': 'not verified: %s' % x, 'functions': []}, []
    open(os.path.join(d, 'utf8.rs'), 'w').write(text)
    rc, o, e = sh(['verus', 'utf8.rs', '--output-json', '--time-expanded', '--no-report-long-running'], limit, cwd=d)
    try:
        data = json.loads(o)
    except ValueError:
        data = {}
    vr = data.get('verification-results') or {}
    good = vr.get('verified', 0) > 0 and vr.get('errors', 1) == 0
    fs = [('std', f[1]) + tuple(f[2:]) for f in breakdown(data)]
    return {'source': 'library/core/src/str, library/alloc/src/string.rs of the toolchain', 'functions': fs}, [] if good else ['UTF-8 check of the standard library (%s):\n%s' % (rc, e[-3000:])]


# ---------------------------------------------------------------- the rest

LITERAL = re.compile(r'//[^\n]*|/\*.*?\*/|b?"((?:[^"\\]|\\.)*)"|\b(0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*)', re.S)


def literals(*dirs):
    """How often each number and each text occurs in these sources (tests left out)."""
    ints, strs = Counter(), Counter()
    for top in dirs:
        for d, _, fs in os.walk(top):
            for f in fs:
                if not f.endswith('.rs') or 'grammar' in d:
                    continue
                text = open(os.path.join(d, f), encoding='utf-8', errors='replace').read().split('#[cfg(test)]')[0]
                for m in LITERAL.finditer(text):
                    if m.group(1):
                        strs[m.group(1)] += 1
                    elif m.group(2):
                        try:
                            ints[int(m.group(2).replace('_', ''), 0)] += 1
                        except ValueError:
                            pass
    return ints, strs


def hints():
    """What the tree under check mentions and the reference does not: worth trying as a length, a value or a name."""
    i0, s0 = literals(os.path.join(VERIF, 'reference', 'src'))
    i1, s1 = literals(os.path.join(REPO, 'whasm', 'src'))
    ints = sorted(v for v in i1 if i1[v] > i0[v] and v < 1 << 64)[:40]
    strs = sorted(v for v in s1 if s1[v] > s0[v])[:40]
    return {'VERIF_HINT_INTS': ','.join(map(str, ints)), 'VERIF_HINT_STRS': ','.join(v.encode().hex() for v in strs)}


def search(binary, prop, secs, seed, tmp):
    if binary is None:
        return {'cases': 0, 'accepted': 0, 'kinds': 0, 'systematic': 0, 'skipped': 0, 'seconds': 0, 'found': None}
    rc, o, e = sh([binary, 'run', prop, str(secs), str(seed), '8', tmp], secs + 90, env=dict(os.environ, **hints()))
    try:
        return json.loads(o.strip().split('\n')[-1])
    except ValueError:
        die('search did not finish: %s %s' % (rc, (o + e)[-1500:]))


def known_findings(prop, binary, tmp):
    lines = open(os.path.join(VERIF, 'KNOWN-FINDINGS.txt')).read().split('\n')
    shown = []
    for l in lines if binary else []:
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            rc, o, e = sh([binary, 'finding', m.group(2)], 60, cwd=tmp)
            if rc != 0:
                print('KNOWN-FINDING: property=%s %s' % (prop, m.group(3)))
                shown.append(m.group(2))
    return shown


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = PROPS[prop]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=WORK)
    try:
        code = decide(prop, spec, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def is_core(spec, key):
    return '[case ' in key or any(re.search(p, key) for p in spec['core'])


def decide(prop, spec, tier, seed, tmp):
    binary = build_search()
    extract = build_extractor()
    if spec.get('tool'):
        build_tool()
    if spec['mode'] == 'kani':
        r = {'undischarged': {}, 'general': [], 'functions': [], 'output': '', 'cmd': 'cargo kani', 'smt_ms': 0}
    else:
        r = verify(extract, spec, tmp)
    r['kani'] = []
    if spec.get('kani'):
        r['kani'], bad = kani(spec['kani'], min(left() - 150, 300))
        r['general'] += bad
    if spec.get('std'):
        r['std'], bad = std_utf8(tmp, min(left() - 150, 120))
        r['functions'] += r['std'].pop('functions')
        r['general'] += bad
    fmap = (r.get('map') or {}).get('functions', [])
    core = [f for f in fmap if is_core(spec, f['key'])]
    # contracts that make up the property and are not established by this run
    failed = {}
    for k, errs in r['undischarged'].items():
        if not is_core(spec, k):
            continue
        if spec.get('panics') and not any(re.search(p, k) for p in spec.get('whole', [])):
            errs = [x for x in errs if x[0] in ('unsupported', 'annotation') or any(w in x[0] for w in PANIC_ERRORS + ('Resource limit', 'not discharged'))]
        if errs:
            failed[k] = errs
    for f in core:
        if f['status'] == 'unknown':
            pass  # a helper without a contract: its callers' obligations decide
    if binary and spec.get('fidelity') and not r['undischarged'] and not r['general']:
        api = open(os.path.join(VERIF, 'search', 'src', 'api.rs')).read()
        r['fidelity'], bad = fidelity.compare(open(os.path.join(tmp, 'gen.rs')).read(), api, binary, seed, 500 if tier == 'quick' else 5000, tmp, sh)
        r['general'] += bad[:3]
    general = list(r['general'])
    proved = not failed and not general
    if proved and spec['mode'] != 'kani' and not any(f['status'] == 'verified' for f in core):
        general.append('none of the functions this property is about was found')
        proved = False
    others = {k: v for k, v in r['undischarged'].items() if k not in failed}
    secs = (5 if tier == 'quick' else 60) if proved and not others else (45 if tier == 'quick' else 200)
    s = search(binary, prop, secs, seed, tmp)
    found = s.get('found')
    shown = known_findings(prop, binary, tmp)
    verdict = 0
    if found or not proved:
        verdict = 1
        rd = os.path.join(VERIF, 'work', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % prop)
        rec = {'property': prop, 'failed_obligations': [{'function': k, 'error': h, 'verifier_output': b} for k, es in failed.items() for h, b in es],
               'general': general, 'other_undischarged': sorted(others), 'failing_input': found}
        if found:
            hexf = os.path.join(rd, '%s.hex' % prop)
            open(hexf, 'w').write(found['input'] + '\n')
            rec['replay_cmd'] = '%s one %s %s %s' % (binary, prop, found['kind'], hexf)
        json.dump(rec, open(path, 'w'), indent=1)
        for k, es in failed.items():
            for h, b in es[:3]:
                print('undischarged: %s: %s' % (k, h))
        for g in general[:2]:
            print('not established: ' + g[:600])
        if found:
            print('failing input (%s): %s: %s' % (found['kind'], found['input'][:400], found['why'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    evidence(prop, spec, tier, seed, r, core, failed, general, others, s, shown, verdict, proved)
    return verdict


def evidence(prop, spec, tier, seed, r, core, failed, general, others, s, shown, verdict, proved):
    m = r.get('map') or {'functions': [], 'dropped': [], 'rules': {}, 'problems': []}
    fns = r['functions']
    ok = sum(1 for f in fns if f[3])
    contracts = sorted(f['key'] for f in m['functions'] if f['status'] == 'verified')
    trusted = sorted(f['key'] for f in m['functions'] if f['status'] == 'trusted') + ['verus/spec/stdspec.rs', 'verus/spec/model.rs (external items)']
    m_verified = contracts
    if spec['mode'] == 'full':
        contracts = [k for k in contracts if re.match('validation|structure', k)]
        trusted = ['verus/spec/valstd.rs']
        if spec.get('tool'):
            contracts = [k for k in m_verified if k.startswith('cli')]
            trusted = ['verus/spec/valcli.rs (external items)']
    assumptions = list(PARSE_ASSUMPTIONS if spec['mode'] == 'parse' else CLI_ASSUMPTIONS if spec.get('tool') else VALID_ASSUMPTIONS)
    if spec.get('skip'):
        assumptions.append('the contracts of module %s are used here and discharged by check %s' % (', '.join(spec['skip']), spec['relies']))
    if spec.get('cases', 'all') != 'all' and not spec.get('tool'):
        assumptions.append('the contract of Instr::validate is used here for all instructions; its obligations are discharged by check C02, of which this run repeats the cases %s' % (spec['cases'] or 'none'))
    if others:
        assumptions.append('contracts relied on but not discharged on this run: ' + ', '.join(sorted(others)))
    if spec['mode'] == 'kani':
        trusted = ['Kani 0.68 and its CBMC back end']
        assumptions = list(KANI_ASSUMPTIONS)
        fns = [('kani', k['harness'], 'exec', k['successful'], 0) for k in r['kani']]
        ok = sum(1 for f in fns if f[3])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(fns), 'discharged': ok,
            'obligation_unit': 'one Kani harness over all inputs, unwinding assertions on' if spec['mode'] == 'kani' else 'one Verus verification condition set per function or lemma (all its postconditions, preconditions at calls, loop invariants, overflow, bounds and termination)',
            'verus_verified_items': r.get('verified', 0), 'verus_errors': r.get('errors', 0),
            'checker_cmd': r['cmd'], 'backend': 'Kani 0.68 with CBMC' if spec['mode'] == 'kani' else 'Verus 0.2026.09.13 with its bundled Z3', 'solver_ms': round(r['smt_ms'], 1),
            'trusted_base': trusted + ['extract/ (source extraction)'],
            'functions_under_contract': contracts,
            'functions_deciding_this_property': [f['key'] for f in core],
            'cases': r.get('cases', []),
            'kani': r.get('kani', []), 'standard_library': r.get('std', {}),
            'functions_without_contract': sorted(f['key'] for f in m['functions'] if f['status'] == 'unknown'),
            'not_discharged': sorted(failed), 'not_established': [g[:300] for g in general],
            'proved': bool(proved),
            'extraction_compared': r.get('fidelity', {}),
            'extraction_dropped': m['dropped'], 'extraction_rewrites': m['rules'],
            'cross_check': {'what': 'inputs run through the tree under check and the proved snapshot, compared; exploration, not part of the proof', 'evaluations': s['cases'], 'accepted': s['accepted'], 'systematic': s['systematic'], 'kinds': s['kinds'], 'seconds': s['seconds']},
            'known_findings_reproduced': shown,
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - T0, 1), 'violations': 1 if verdict else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
