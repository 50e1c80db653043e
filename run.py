#!/usr/bin/env python3
"""run.py ID: decide property ID on /repo's current tree.

The deciding step is the set of proof units of the property (contracts/*.vrs, Verus). The generated
programs and inputs (rs/hunter, rs/e2e) look for a concrete failing input: they turn a failed obligation
into a replayable violation, and they are the bounded stand-in where an obligation cannot be decided.
"""
import json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/tools')
import prove
import emitted
from units import PROPS, expanded, generated, prepare

REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()

def log(*a): print('[%5.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

class Run:
    def __init__(self, pid):
        self.pid = pid
        self.here = HERE
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.build = f'{HERE}/build/{pid}'
        os.makedirs(self.build, exist_ok=True)
        os.makedirs(f'{HERE}/evidence', exist_ok=True)
        self.lock = threading.Lock()
        self.hlock = threading.Lock()
        self.hunter = HERE + '/build/target/debug/hunter'
        self.units, self.hunts, self.notes = [], [], []
        self.found = []
        self.env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
        tc = toolchain()
        if tc: self.env['RUSTUP_TOOLCHAIN'] = tc

    def cargo(self, d, target, timeout=600, **more):
        env = dict(self.env, CARGO_TARGET_DIR=target, **more)
        try:
            p = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=env, capture_output=True, text=True, timeout=timeout)
            return p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            return 124, 'cargo build timed out'

    # ------------------------------------------------------------------ proofs
    def prove(self):
        rc, out = self.cargo(HERE + '/rs/vx', HERE + '/build/target-vx')
        if rc != 0:
            self.notes.append('extractor did not build: ' + out[-500:]); return
        os.environ['VX_BIN'] = HERE + '/build/target-vx/debug/vx'
        # inputs of units that are produced by running the macros (token streams of emitted code)
        ths = []
        def one(u):
            try:
                if generated(u):
                    tpl, files, bad = prepare(u, self)
                    r = prove.run_unit(u.replace('@', '_r'), REPO, self.build, extra_files=files, probe=True, tpl=tpl)
                    with self.lock:
                        for prog, why, shape in bad:
                            if why is None: r['undecided'].append(dict(function=prog, why=shape)); r['status'] = 'undecided' if r['status'] == 'proved' else r['status']
                        for prog, why, shape in bad:
                            if isinstance(why, dict):
                                if self.pid == 'C05': self.found.append(dict(program=prog, how='regex of the emitted code', **why))
                            elif why is not None: self.found.append(dict(program=prog, input='(compile time)', what='a program of the documented language is rejected by the macro: ' + why, how='macro in process'))
                else: r = prove.run_unit(u, REPO, self.build, probe=True, extra_files=expanded(u, self))
            except Exception as e: r = dict(unit=u, template=f'contracts/{u}.vrs', status='undecided', verified=0, errors=0, functions=[], failures=[], undecided=[dict(function='*', why='check error: %r' % e)], trusted=[], log=None, out='', wall=0, smt_ms=0, probe=None)
            with self.lock: self.units.append(r)
            log('unit', u, r['status'], r['verified'], 'verified', r['errors'], 'errors', '%.1fs' % r['wall'])
        units = list(PROPS[self.pid]['units'])
        if self.tier == 'thorough': units += [f'{u}@{self.seed * 100 + k}' for u in units if generated(u) and emitted.random_group(1, u) for k in range(6)]
        for u in units:
            t = threading.Thread(target=one, args=(u,)); t.start(); ths.append(t)
            while sum(x.is_alive() for x in ths) >= 6: time.sleep(0.1)
        for t in ths: t.join()

    # ------------------------------------------------------------------ hunters
    def build_hunter(self):
        with self.hlock: return self._build_hunter()
    def _build_hunter(self):
        if getattr(self, 'hunter_ready', None) is None:
            import mklab
            os.makedirs(HERE + '/build/lab', exist_ok=True)
            mklab.mklab(REPO, HERE + '/build/lab', HERE + '/rs')
            rc, out = self.cargo(HERE + '/rs/hunter', HERE + '/build/target')
            self.hunter_ready = rc == 0
            if rc != 0:
                self.notes.append('the in-process harness does not build against this tree: ' + '\n'.join(re.findall(r'^error.*(?:\n.*){0,4}', out, re.M))[:900])
                log('hunter build failed')
        return self.hunter_ready

    def hunt_lab(self, cmd, prof, seed, secs):
        if not self.build_hunter(): return
        exe = self.hunter
        if seed > 7919 and seed % 2 == 0: # extended search: the code of a release build
            with self.hlock: rc, _ = self.cargo(HERE + '/rs/hunter', HERE + '/build/target-na', CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false')
            if rc == 0: exe = HERE + '/build/target-na/debug/hunter'
        out = f'{self.build}/hunt_{cmd}_{prof}_{seed}.json'
        try: p = subprocess.run([exe, cmd, prof, str(seed), str(secs), out], capture_output=True, text=True, timeout=secs * 3 + 60)
        except subprocess.TimeoutExpired: self.notes.append(f'{cmd} {prof}: no end within the time limit'); return
        if p.returncode != 0: self.notes.append(f'{cmd} {prof}: ended with {p.returncode}: {p.stderr[-400:]}'); return
        o = json.load(open(out))
        o.update(kind=f'macro in process ({cmd}, profile {prof})', seed=seed)
        with self.lock:
            self.hunts.append(o)
            for f in o['found']: self.found.append(dict(f, how=o['kind']))
        log('hunt', cmd, prof, o['evaluations'], 'evaluations', len(o['found']), 'found')

    def hunt_consts(self, prof):
        if getattr(self, 'consts_done', False) or not self.build_hunter(): return
        import consts
        self.consts_done = True
        o = consts.hunt(self.hunter, self.build, prof)
        o.update(kind='REGEX constants of this tree against the documented languages (product of the automata, boundary values)')
        with self.lock:
            self.hunts.append(o)
            for f in o['found']: self.found.append(dict(f, how=o['kind']))
        log('hunt consts', prof, o['evaluations'], 'evaluations', len(o['found']), 'found')

    def hunt_e2e(self, prof, seed, secs, scale=1.0):
        import gen_e2e
        d = f'{self.build}/e2e_{prof}_{seed}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        asserts = seed % 2 == 1 # the emitted code and the library have parts that depend on it
        n = gen_e2e.generate(prof, seed, d, REPO, HERE + '/rs/e2e', scale, asserts)
        shutil.copy(HERE + '/rs/hunter/Cargo.lock', d + '/Cargo.lock')
        rc, out = self.cargo(d, HERE + '/build/target-e2e')
        if rc != 0:
            src = open(d + '/src/main.rs').read().split('\n')
            errs = self.compile_errors(out, src)
            if errs is None:
                self.notes.append('generated programs could not be built: ' + out[-700:]); log('e2e build failed', out[-300:]); return
            with self.lock:
                self.hunts.append(dict(kind=f'compiled programs (profile {prof})', seed=seed, evaluations=n, distinct_nontrivial=n, found=errs, samples=[]))
                for f in errs: self.found.append(dict(f, how='a program of the documented language is rejected by the compiler'))
            log('e2e', prof, 'programs rejected', len(errs)); return
        exe = f'{d}/e2e'
        shutil.copy(HERE + '/build/target-e2e/debug/e2e', exe)
        js = f'{d}/out.json'
        try: p = subprocess.run([exe, str(seed), str(secs), js], capture_output=True, text=True, timeout=secs * 3 + 60)
        except subprocess.TimeoutExpired: self.notes.append(f'e2e {prof}: no end within the time limit'); return
        if p.returncode != 0: self.notes.append(f'e2e {prof}: ended with {p.returncode}: {p.stderr[-400:]}'); return
        o = json.load(open(js)); o.update(kind=f'compiled programs (profile {prof}, {n} programs, debug assertions {"on" if asserts else "off"})', seed=seed, programs=n)
        with self.lock:
            self.hunts.append(o)
            for f in o['found']: self.found.append(dict(f, how=o['kind']))
        log('e2e', prof, n, 'programs', o['evaluations'], 'evaluations', len(o['found']), 'found')
        shutil.rmtree(d, ignore_errors=True)

    def compile_errors(self, out, src):
        """errors in the generated programs -> the programs; None if anything else failed"""
        res, seen = [], set()
        blocks = re.findall(r'^error(?:\[E\d+\])?: (.*)\n((?:(?!^error|^warning).*\n?)*)', out, re.M)
        for msg, body in blocks:
            if 'could not compile' in msg or 'aborting due to' in msg: continue
            m = re.search(r'-->\s*src/main\.rs:(\d+)', body)
            if not m: return None
            n = int(m.group(1))
            k = next((i for i in range(n - 1, -1, -1) if re.match(r'mod c\d+ \{', src[i])), None)
            if k is None: return None
            c = re.match(r'mod (c\d+)', src[k]).group(1)
            if c in seen: continue
            seen.add(c)
            text = []
            for l in src[k:]:
                if text and re.match(r'mod c\d+ \{', l): break
                text.append(l)
            text = '\n'.join(text)
            g = re.search(r'shown: (r#*"(?:.|\n)*?"#*|"(?:[^"\\]|\\.)*")', text)
            res.append(dict(case=c, program=(g.group(1) if g else text[:1500]), input='(compile time)', what='rejected by the compiler: ' + (msg + ' ' + body[:600]).strip()))
        return res or None

    def hunt(self, seed, secs, scale=1.0):
        def lab():
            for h in PROPS[self.pid]['hunts']:
                if h[0] == 'consts': self.hunt_consts(h[1])
                elif h[0] != 'e2e': self.hunt_lab(h[0], h[1], seed, secs)
        def e2e():
            for h in PROPS[self.pid]['hunts']:
                if h[0] == 'e2e': self.hunt_e2e(h[1], seed, secs, scale)
        def guard(f):
            def g():
                try: f()
                except Exception as e: self.notes.append(f'{f.__name__}: {e!r}'); log('hunt error', repr(e))
            return g
        ts = [threading.Thread(target=guard(lab)), threading.Thread(target=guard(e2e))]
        for t in ts: t.start()
        for t in ts: t.join()

    # ------------------------------------------------------------------ verdict
    def relevant(self, f):
        ps = f.get('props')
        return ps is None or self.pid in ps

    def main(self):
        pt = threading.Thread(target=self.prove)
        pt.start()
        thorough = self.tier == 'thorough'
        self.hunt(self.seed, 40 if thorough else 6)
        if thorough and not self.found:
            for k in range(1, 4):
                if not self.found: self.hunt(self.seed * 1000 + k, 40, 2.0)
        pt.join()
        failures = [dict(f, unit=u['unit']) for u in self.units for f in u['failures'] if self.relevant(f)]
        undecided = [dict(f, unit=u['unit']) for u in self.units for f in u['undecided']]
        if (failures or undecided) and not self.found:
            # an obligation fails: look harder for an input that shows it
            for k in range(1, 6 if failures else 3):
                if self.found or time.time() - T0 > 420: break
                log('extended search', k)
                self.hunt(self.seed * 7919 + k, 20, 1.5)
        known = known_findings(self.pid)
        new, hit = [], []
        for f in self.found:
            k = next((k for k in known if k in (f.get('program', '') + ' ' + f.get('input', ''))), None)
            (hit.append(k) if k else new.append(f))
        for k in known: print(f'KNOWN-FINDING: property={self.pid} {k}')
        code = 0
        replay = f'{HERE}/evidence/{self.pid}.replay.json'
        if os.path.exists(replay): os.remove(replay)
        fails_out = [dict(unit=f['unit'], function=f['function'], obligation=f['message'], clause=f['clause'], verifier=f['text']) for f in failures]
        if new:
            json.dump(dict(property=self.pid, failing_inputs=new[:10], failed_obligations=fails_out, reproduce='apply the change to /repo, then: VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s' % (self.seed, self.tier, self.pid)), open(replay, 'w'), indent=1)
            for f in new[:3]: log('FOUND', f.get('program', '')[:300], '| input', repr(f.get('input', ''))[:200], '|', f.get('what', '')[:300])
            print(f'VIOLATION property={self.pid} replay={replay}'); code = 1
        elif failures:
            json.dump(dict(property=self.pid, failed_obligations=fails_out, verifier_output={u['unit']: u['out'] for u in self.units if u['failures']}), open(replay, 'w'), indent=1)
            for f in failures[:5]: log('FAILED OBLIGATION', f['unit'], f['function'], f['message'], '|', f['clause'])
            print(f'VIOLATION property={self.pid} replay={replay} no-failing-input-found'); code = 1
        self.evidence(failures, undecided, new)
        if code == 0: print(f'ok property={self.pid} units={len(self.units)} obligations={self.obl} discharged={self.dis}' + (f' undecided={len(undecided)} (bounded stand-in only)' if undecided else ''))
        return code

    def evidence(self, failures, undecided, new):
        obl = dis = smt = 0
        fns, trusted, assumed = [], [], []
        for u in self.units:
            o = len([f for f in u['functions']]); d = len([f for f in u['functions'] if f['ok']])
            if u['status'] == 'undecided' and not u['functions']: o = max(o, 1)
            obl += o; dis += d; smt += u['smt_ms']
            for l in (u['log'] or []):
                if 'path' in l: fns.append(dict(unit=u['unit'], function=l['function'], decided=not l['skipped'], rewrites=l['rewrites']))
            for t in u['trusted']:
                if t not in trusted: trusted.append(t)
        self.obl, self.dis = obl, dis
        ev = sum(h.get('evaluations', 0) for h in self.hunts)
        cov = dict(
            obligations=obl, discharged=dis,
            checker_cmd='verus <unit>.rs --output-json --time-expanded (Z3), one file per unit, extracted from /repo on this run by rs/vx',
            trusted_base=trusted,
            units=[dict(unit=u['unit'], status=u['status'], verified=u['verified'], errors=u['errors'], wall_s=round(u['wall'], 2), solver_ms=u['smt_ms'], back_end=u.get('back_end', 'Verus/Z3'), probe=u['probe']) for u in self.units],
            functions_under_contract=fns,
            obligations_by_function=[dict(unit=u['unit'], name=f['name'], mode=f['mode'], solver_ms=f['ms'], discharged=f['ok']) for u in self.units for f in u['functions']],
            solver_ms=smt,
            undecided=undecided,
            failed_obligations=[dict(unit=f['unit'], function=f['function'], obligation=f['message'], clause=f['clause']) for f in failures],
            bounded_stand_in=dict(label='bounded, not counted as proved', evaluations=ev, distinct_nontrivial=sum(h.get('distinct_nontrivial', 0) for h in self.hunts),
                rule='programs are generated at random from the documented language (seed above) and run with random inputs near the language of the format; non-trivial: an expected value or an expected error, counted once per distinct program/input',
                runs=[{k: v for k, v in h.items() if k not in ('found', 'samples')} for h in self.hunts], samples=[s for h in self.hunts for s in h.get('samples', [])][:6]),
            evaluations=ev,
        )
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level='proof', coverage=cov,
            assumptions=PROPS[self.pid].get('assumptions', []) + self.notes, wall_s=round(time.time() - T0, 2), violations=len(new) or len(failures)),
            open(f'{HERE}/evidence/{self.pid}.json', 'w'), indent=1)

def toolchain():
    """the toolchain the repository is built with here"""
    try:
        m = re.search(r'RUSTUP_TOOLCHAIN=["\']?([\w.\-]+)', open('/opt/vp/env.sh').read())
        if m: return m.group(1)
    except OSError: pass
    return os.environ.get('RUSTUP_TOOLCHAIN')

def known_findings(pid):
    r = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            m = re.match(r'known: property=(C\d+) (.*)', l.strip())
            if m and m.group(1) == pid: r.append(m.group(2))
    except OSError: pass
    return r

if __name__ == '__main__':
    sys.exit(Run(sys.argv[1]).main())
