#!/usr/bin/env python3
"""Extract functions of /repo into Verus files and have every obligation checked.

prove.run(units, repo, build, ...) -> list of result dicts:
  unit, template, status: proved | failed | undecided, verified, errors, functions[{name,path,mode,ms,rlimit,ok}],
  failures[{function, message, where, props}], undecided[{function, why}], trusted[], log (extraction log), out (verifier output)
"""
import glob, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARD = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'decreases not satisfied',
        'possible arithmetic underflow/overflow', 'possible division by zero', 'could not prove termination', 'possible bit shift underflow/overflow',
        'precondition not met', 'assert_by', 'loop must have a decreases', 'cannot show invariant', 'possible truncation')

def registry():
    d = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/')))
    return d[0] if d else ''

def deps():
    r = registry()
    out = []
    for name in ('regex-syntax', 'unicode-width', 'convert_case'):
        v = {'regex-syntax': '0.6', 'unicode-width': '0.1', 'convert_case': '0.6'}[name]
        c = sorted(glob.glob(f'{r}{name}-{v}*'))
        if c: out.append(f'@{name.replace("-", "_")}={c[-1]}')
    return out

def verus(path, cwd, extra=(), timeout=600):
    env = dict(os.environ); env.pop('RUSTUP_TOOLCHAIN', None)
    t = time.time()
    try:
        p = subprocess.run(['verus', os.path.basename(path), '--output-json', '--time-expanded', '--multiple-errors', '10', '--num-threads', '4', '--rlimit', '40', *extra],
                           cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        out, err = '', 'timeout'
    js = {}
    i = out.find('{')
    if i >= 0:
        try: js = json.loads(out[i:])
        except Exception: js = {}
    return js, err, time.time() - t

def parse_errors(err):
    """[(message, main line, [all lines mentioned])]"""
    res = []
    for blk in re.split(r'\n(?=error|warning|note:)', '\n' + err):
        blk = blk.strip('\n')
        m = re.match(r'error(\[E\d+\])?: (.*)', blk)
        if not m or 'aborting due to' in m.group(2): continue
        lines = [int(x) for x in re.findall(r'^\s*-->\s*\S+?\.rs:(\d+):\d+', blk, re.M)]
        shown = [int(x) for x in re.findall(r'^\s*(\d+)\s*[|/]', blk, re.M)]
        # the line that is marked as the failed clause
        failed = None
        cur = None
        for l in blk.split('\n'):
            g = re.match(r'^\s*(\d+)\s*[|/]', l)
            if g: cur = int(g.group(1))
            if re.search(r'failed (this postcondition|precondition|this invariant)', l): failed = cur
        res.append(dict(code=m.group(1), message=m.group(2), line=lines[0] if lines else None, lines=lines + shown, failed=failed, text=blk))
    return res

def fn_at(text, line):
    cur = None
    for n, l in enumerate(text, 1):
        if l.startswith('// <<< '): cur = l[7:].strip()
        if n == line: return cur
        if l.startswith('// >>>'): cur = None
    return None

def name_at(text, line):
    """the item of the template a line is in"""
    for n in range(min(line, len(text)) - 1, -1, -1):
        m = re.search(r'\bfn\s+(\w+)', text[n])
        if m: return m.group(1)
    return '?'

def trusted_of(text):
    t = []
    for n, l in enumerate(text):
        if 'external_body' in l or 'assume_specification' in l or 'assume(' in l or 'admit(' in l or 'uninterp spec fn' in l or 'axiom' in l and 'proof fn' in l:
            s = l.strip()
            if s.startswith('#[verifier::external_body]') and 'fn ' not in s and 'struct' not in s and n + 1 < len(text): s += ' ' + text[n + 1].strip()
            if s.startswith('//'): continue
            s = re.sub(r'\s+', ' ', s)
            t.append(s[:160])
    return t

def run_unit(name, repo, build, tag='', probe=True, extra=(), extra_files=(), tpl=None):
    tpl = tpl or f'{HERE}/contracts/{name}.vrs'
    os.makedirs(build, exist_ok=True)
    base = f'{build}/{name}{tag}'
    r = dict(unit=name, template=f'contracts/{name}.vrs', status='undecided', verified=0, errors=0, functions=[], failures=[], undecided=[], trusted=[], log=None, out='', wall=0.0, smt_ms=0, probe=None)
    vx = os.environ.get('VX_BIN', f'{HERE}/build/target/debug/vx')
    skip = []
    t0 = time.time()
    for attempt in range(6):
        env = dict(os.environ, VX_SKIP=','.join(skip)); env.pop('VX_PROBE', None)
        p = subprocess.run([vx, tpl, repo, base + '.rs', base + '.log.json', *deps(), *extra_files], env=env, capture_output=True, text=True)
        if p.returncode == 3:
            why = p.stderr.strip()
            fn = why.split(': ')[0]
            r['undecided'].append(dict(function=fn, why=why))
            if fn in skip or not re.search(rf'//@fn \S+ {re.escape(fn)}\b', expand(tpl)): r['out'] += why; r['wall'] = time.time() - t0; return r
            skip.append(fn); continue
        if p.returncode != 0:
            r['undecided'].append(dict(function='*', why='extractor: ' + p.stderr[-800:])); r['wall'] = time.time() - t0; return r
        js, err, w = verus(base + '.rs', build, extra)
        text = open(base + '.rs').read().split('\n')
        vr = js.get('verification-results', {})
        errs = parse_errors(err)
        soft = [e for e in errs if not any(h in e['message'] for h in HARD) and 'rlimit' not in e['message'] and 'Resource limit' not in e['message']]
        if vr.get('encountered-vir-error') or 'verified' not in vr or (soft and vr.get('verified', 0) == 0 and vr.get('errors', 0) == 0):
            # the text of some function is outside the verifier's language
            fns = []
            for e in soft or errs:
                f = next((x for x in (fn_at(text, l) for l in e['lines'][:1]) if x), None) or next((x for x in (fn_at(text, l) for l in e['lines']) if x), None)
                if f and f not in skip and f not in fns: fns.append(f); r['undecided'].append(dict(function=f, why='outside the verified subset: ' + e['message'][:300]))
            if not fns:
                r['undecided'].append(dict(function='*', why=(errs[0]['message'] if errs else err[-500:])[:500])); r['out'] = err[-6000:]; r['wall'] = time.time() - t0; return r
            skip += fns; continue
        break
    else:
        r['wall'] = time.time() - t0
        return r
    # a proof found with any seed is a proof: what fails is tried again with other seeds of the solver
    runs = [js]
    for seed in (1, 2, 3):
        if not any(any(h in e['message'] for h in HARD) or 'rlimit' in e['message'] or 'Resource limit' in e['message'] for e in errs) or time.time() - t0 > 150: break
        bad = lambda es: {next((x for x in (fn_at(text, k) for k in [e['line'] or 0] + e['lines']) if x), None) or name_at(text, e['line'] or 0) for e in es}
        js2, err2, w2 = verus(base + '.rs', build, [*extra, '--smt-option', f'smt.random_seed={seed}'])
        if 'verified' not in js2.get('verification-results', {}): break
        runs.append(js2)
        again = bad(parse_errors(err2))
        keep = [e for e in errs if bad([e]) <= again]
        if len(keep) < len(errs): r['retried'] = sorted(map(str, bad(errs) - again)); err = '\n\n'.join(e['text'] for e in keep)
        errs = keep
    log = json.load(open(base + '.log.json'))
    r['log'] = log['extracted']
    r['out'] = err[-12000:]
    r['verified'], r['errors'] = vr.get('verified', 0), vr.get('errors', 0)
    for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            other = [g['success'] for j in runs[1:] for n in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []) for g in n.get('function-breakdown', []) if g['function'] == f['function']]
            r['functions'].append(dict(name=f['function'], mode=f.get('mode:', f.get('mode')), ms=f['time'], rlimit=f['rlimit'], ok=f['success'] or any(other)))
            if any(other) and not f['success']: r['verified'] += 1; r['errors'] -= 1
    r['smt_ms'] = js.get('times-ms', {}).get('smt', {}).get('smt-run', 0)
    r['trusted'] = trusted_of(text)
    props = {x['path']: x.get('props') for x in log['extracted'] if 'path' in x}
    shaped = False
    for e in errs:
        l = e['line'] or 0
        f = next((x for x in (fn_at(text, k) for k in [l] + e['lines']) if x), None)
        where = f or name_at(text, l)
        if 'Resource limit' in e['message'] or 'rlimit' in e['message']:
            r['undecided'].append(dict(function=where, why='solver resource limit')); continue
        if not any(h in e['message'] for h in HARD): r['undecided'].append(dict(function=where, why=e['message'])); continue
        tags = None
        cl = e['failed']
        for ln in [cl] if cl else ([l] if not f or 'invariant' in e['message'] else []):
            g = re.search(r'//\s*\[((?:C\d+\s*)+)\]', text[ln - 1]) if ln else None
            if g: tags = g.group(1).split()
        if '// [SHAPE]' in text[l - 1]:
            # the text of a regex is not the one the lemma is about; whether it means the same is decided elsewhere
            r['undecided'].append(dict(function=where, why='not of the form the proof is about: ' + text[l - 1].strip()[:200])); shaped = True; continue
        r['failures'].append(dict(function=where, message=e['message'], clause=text[cl - 1].strip() if cl else (text[l - 1].strip() if l else ''), props=tags or (props.get(f) or '').split() or None, text=e['text'][:2500]))
    if not r['verified'] and not r['failures']: r['undecided'].append(dict(function='*', why='the verifier gave no answer: ' + err[:600]))
    r['status'] = 'failed' if r['failures'] else 'undecided' if (r['undecided'] or r['errors']) else 'proved'
    if probe and r['status'] == 'proved':
        # vacuity: with assert(false) at its start every function under contract has to fail
        env = dict(os.environ, VX_SKIP='', VX_PROBE='1')
        subprocess.run([vx, tpl, repo, base + '_probe.rs', base + '_probe.log.json', *deps(), *extra_files], env=env, capture_output=True, text=True)
        js2, err2, w2 = verus(base + '_probe.rs', build, extra)
        text2 = open(base + '_probe.rs').read().split('\n')
        hit = {fn_at(text2, e['line']) for e in parse_errors(err2) if e['line']}
        want = {x['path'] for x in log['extracted'] if 'path' in x}
        r['probe'] = dict(functions=len(want), refuted=len(want & hit), vacuous=sorted(want - hit))
        if want - hit: r['status'] = 'undecided'; r['undecided'].append(dict(function=', '.join(sorted(want - hit)), why='vacuous contract'))
    r['wall'] = time.time() - t0
    return r

def expand(tpl):
    o = ''
    for l in open(tpl):
        if l.strip().startswith('//@include '): o += open(os.path.join(os.path.dirname(tpl), l.strip()[11:].strip())).read()
        else: o += l
    return o

def show(r):
    print(r['unit'], r['status'], r['verified'], r['errors'], 'probe', r['probe'], 'wall %.1f' % r['wall'], 'trusted', len(r['trusted']))
    for f in r['failures']: print('  FAILED', f['function'], '|', f['message'], '|', f['clause'][:120], f['props'])
    for f in r['undecided']: print('  UNDECIDED', f['function'], '|', f['why'][:300])

if __name__ == '__main__':
    for u in sys.argv[1:]: show(run_unit(u, os.environ.get('REPO', '/repo'), f'{HERE}/build/v'))
