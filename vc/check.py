#!/usr/bin/env python3
"""check.py <property>: extract /repo, discharge the property's obligations, run the
bounded witness search, write evidence/<property>.json, print VIOLATION lines."""
import sys, os, re, json, time, importlib, subprocess, hashlib, threading, fcntl, copy, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vc'))
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
EVID = os.path.join(ROOT, 'evidence')
CPUS = os.cpu_count() or 4


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Lock:
    def __init__(self, name): self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        fs = []
        if os.path.isfile(d): fs = [d]
        for r, ds, f in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__'))
            fs += [os.path.join(r, x) for x in sorted(f)]
        for p in fs:
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()


def forget(tgt, *crates):
    """cargo judges by file times: make it build these crates again"""
    for c in crates:
        for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', c + '-*')) + [os.path.join(tgt, 'debug', 'build', c)]:
            if os.path.isdir(d): subprocess.run(['rm', '-rf', d])


def extract(crate='advantage'):
    """THIR of the crate as it stands in the working tree -> dict; None when it does not compile"""
    with Lock('extract'):
        if crate == 'cxx': return extract_cxx()
        key = tree_hash(os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(ROOT, 'extract', 'src'), os.path.join(ROOT, 'probe', 'src'))
        out = os.path.join(BUILD, f'thir-{crate}-{key}.json')
        if not os.path.exists(out):
            p = sh(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=os.path.join(ROOT, 'extract'), env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'extract')})
            if p.returncode: raise RuntimeError('extractor does not build: ' + p.stderr[-2000:])
            for o in glob.glob(os.path.join(BUILD, f'thir-{crate}-*.json')): os.remove(o)
            tgt = os.path.join(BUILD, 'ext-' + crate)
            forget(tgt, crate, 'advantage')
            env = {'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'THIRDUMP_OUT': out, 'THIRDUMP_CRATE': crate, 'CARGO_TARGET_DIR': tgt,
                   'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false'}      # a guarantee may not rest on debug_assert!
            # cargo may write Cargo.lock or target into /repo: build from a copy of the manifest's tree only when needed
            if crate == 'advantage':
                env['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(BUILD, 'extract', 'debug', 'thirdump')
                p = sh(['cargo', '+nightly', 'check', '--lib', '--offline', '--features', 'ffi'], cwd=REPO, env=env)
            else:
                env['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(BUILD, 'extract', 'debug', 'thirdump')
                p = sh(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=os.path.join(ROOT, crate), env=env)
            if p.returncode or not os.path.exists(out): raise RuntimeError('extraction failed: ' + p.stderr[-2000:])
        return json.load(open(out)), key


def extract_cxx():
    """clang's syntax tree of the C++ wrapper"""
    import cxx
    key = tree_hash(os.path.join(REPO, 'src', 'cxx'), os.path.join(REPO, 'include'), os.path.join(ROOT, 'vc', 'cxx.py'))
    out = os.path.join(BUILD, f'cxx-{key}.json')
    if not os.path.exists(out):
        for o in glob.glob(os.path.join(BUILD, 'cxx-*.json')): os.remove(o)
        asts = []
        for f in sorted(glob.glob(os.path.join(REPO, 'src', 'cxx', '**', '*.cpp'), recursive=True)):
            p = sh(['clang++', '-std=c++14', '-I' + os.path.join(REPO, 'include'), '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', f])
            if p.returncode: raise RuntimeError('the C++ wrapper does not compile: ' + p.stderr[-2000:])
            asts.append(cxx.keep(json.loads(p.stdout)))
        with open(out, 'w') as f: json.dump({'asts': asts}, f)
    return json.load(open(out)), key


class Witness(threading.Thread):
    """bounded search on the real code, in parallel with the proof"""
    def __init__(self, pid, tier, seed):
        super().__init__(daemon=True)
        self.pid, self.tier, self.seed, self.res = pid, tier, seed, {'status': 'not run'}
    def run(self):
        try: self.res = self.go()
        except Exception as e: self.res = {'status': 'error', 'detail': f'{type(e).__name__}: {e}'}
    def go(self):
        secs = 60 if self.tier == 'thorough' else 12
        with Lock('witness'):
            tgt, mark = os.path.join(BUILD, 'witness'), os.path.join(BUILD, 'witness.key')
            key = tree_hash(os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'))
            if not os.path.exists(mark) or open(mark).read() != key: forget(tgt, 'advantage', 'witness')
            p = sh(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(ROOT, 'witness'), env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'witness')})
            if not p.returncode:
                with open(mark, 'w') as f: f.write(key)
        if p.returncode: return {'status': 'does not build', 'detail': p.stderr[-1500:]}
        r = self.search([os.path.join(BUILD, 'witness', 'debug', 'witness'), self.pid, self.tier, str(self.seed), str(secs)], secs)
        if self.pid == 'C21' and r['status'] == 'ok':
            import p_c21
            c = p_c21.cxx_search(REPO, ROOT, BUILD, self.tier, self.seed, secs, sh)
            if isinstance(c, dict): return c
            q = self.search(c, secs)
            for k in ('cases', 'distinct', 'samples'): q[k] = r.get(k, 0 if k != 'samples' else []) + q.get(k, 0 if k != 'samples' else [])
            r = q
        return r
    def search(self, cmd, secs):
        try:
            p = sh(cmd, timeout=secs * 4 + 60)
        except subprocess.TimeoutExpired:
            # a case that does not return: on the real code this is a hang
            return {'status': 'timeout', 'cmd': ' '.join(cmd)}
        r = {'status': 'ok', 'cmd': ' '.join(cmd), 'cases': 0, 'distinct': 0, 'samples': [], 'known': [], 'fail': None}
        for l in p.stdout.splitlines():
            if l.startswith('CASES '): w = l.split(); r['cases'], r['distinct'] = int(w[1]), int(w[3])
            elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
            elif l.startswith('KNOWN '): r['known'].append(l[6:])
            elif l.startswith('FAIL '): r['fail'] = l[5:]
        if r['fail']: r['status'] = 'fail'
        elif p.returncode != 0:
            r['status'] = 'fail'; r['fail'] = f'the process died (exit {p.returncode}) while exercising the library: ' + (p.stderr.strip()[-300:] or 'no message')
        return r


RE_TOOL = re.compile(r'rlimit|resource limit|timed out|timeout|solver|canceled', re.I)


def attempt(spec, thir, name, path, threads, tier, budget=None):
    from engine import File, houdini
    t0 = time.time()
    r = {'attempt': name, 'unsupported': {}, 'fails': [], 'status': 'undecided', 'detail': '', 'verified': 0, 'time': 0}
    try:
        f = File(spec, thir).build()
    except Exception as e:
        if os.environ.get('VC_DEBUG'): raise
        r['detail'] = f'translation stopped: {type(e).__name__} {e}'
        return r
    r['unsupported'] = dict(f.unsupported)
    h = houdini(f, path, threads=threads, log=log if os.environ.get('VC_DEBUG') else None, timeout=spec.get('timeout', 240), retry=(7, 42), budget=budget)
    r['time'] = time.time() - t0
    if h['status'] == 'budget':
        r['detail'] = 'time budget used up'
        return r
    r['verified'] = h['res'].get('verified', 0); r['smt_ms'] = h['res'].get('smt'); r['cmd'] = h['res'].get('cmd'); r['iters'] = h['iters']
    el = lambda p: (spec['contracts'].get(p) or {}).get('elsewhere')
    r['functions'] = [p for p in f.cx.order if not el(p)]
    r['assumed'] = [f'{p} (discharged by {el(p)})' for p in f.cx.order if el(p)]
    text = '\n'.join(h['out'].lines)
    r['inventory'] = inventory(text)
    r['vacuity'] = h.get('vacuity'); r['partial'] = list(h['out'].partial)
    if h['status'] == 'fatal':
        r['detail'] = 'verifier rejected the file: ' + '; '.join((e.get('message') or str(e))[:200] for e in h['fatal'][:3]) if h['fatal'] else 'verifier gave no result'
        return r
    if h.get('vacuous'):
        r['detail'] = 'inconsistent assumptions: ' + ', '.join(h['vacuous'])
        return r
    real = [x for x in h['fails'] if x['fn'] in f.cx.order and not RE_TOOL.search(x['message'])]
    other = [x for x in h['fails'] if x not in real]
    r['fails'] = real
    r['undecided'] = [(x['fn'], x['message']) for x in other]
    if real: r['status'] = 'failed'
    elif other: r['detail'] = 'undecided obligations: ' + '; '.join(f'{x["fn"]}: {x["message"]}' for x in other[:3])
    elif r['unsupported']: r['detail'] = 'outside the subset: ' + '; '.join(f'{k}: {v}' for k, v in list(r['unsupported'].items())[:3])
    elif not r['verified']: r['detail'] = 'no obligations'
    else: r['status'] = 'ok'
    r['clauses'] = dict(ensures=len(h['out'].tags), invariants=len(h['out'].inv))
    return r


def inlined(spec):
    """the same obligations with the helper contracts removed: helpers are then verified in place"""
    s = dict(spec); c = {}
    for p, k in spec['contracts'].items():
        if k.get('private') or k.get('helper_only'): continue
        c[p] = k
    s['contracts'] = c
    return s


def inventory(text):
    ax = re.findall(r'\baxiom fn (\w+)', text)
    ext = re.findall(r'external_body\][^\n]*?\bfn (\w+)', text)
    un = re.findall(r'\buninterp spec fn (\w+)', text)
    bad = re.findall(r'\b(assume|admit)\s*\(', text)
    return dict(axioms=ax, trusted_functions=len(ext), trusted_sample=ext[:400], uninterpreted=len(un), assume_or_admit=len(bad))


def verify(pid, thirs, tier, budget=None):
    mod = importlib.import_module('p_' + pid.lower())
    specs = mod.spec()
    if isinstance(specs, dict): specs = [specs]
    parts = []
    from concurrent.futures import ThreadPoolExecutor
    def one(k, spec):
        thir = thirs(spec.get('crate', 'advantage'))
        th = max(2, CPUS // len(specs))
        res = []
        for name, s in (('contracts', spec), ('helpers-inlined', None)):
            if s is None:
                if not any(c.get('private') or c.get('helper_only') for c in spec['contracts'].values()): break
                s = inlined(spec)
            r = attempt(s, thir, name, os.path.join(BUILD, 'v', f'{pid}_{k}_{name}.rs'), th, tier, budget)
            r['part'] = spec.get('name', str(k)); r['mode'] = spec.get('mode', 'exact')
            res.append(r)
            if r['status'] == 'ok' or (budget and (budget.stop() or budget.over())): break
        return res
    with ThreadPoolExecutor(max_workers=4) as ex:
        parts = list(ex.map(lambda a: one(*a), list(enumerate(specs))))
    return parts, mod


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\w+) (.*)', l.strip())
            if m: out.append((m.group(1), m.group(2)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True); os.makedirs(os.path.join(BUILD, 'v'), exist_ok=True)
    w = Witness(pid, tier, seed); w.start()
    errors = []
    cache = {}
    def thirs(crate):
        if crate not in cache: cache[crate] = extract(crate)[0]
        return cache[crate]
    parts = []
    mod = importlib.import_module('p_' + pid.lower())
    try:
        if hasattr(mod, 'verify'):
            parts = mod.verify(sys.modules[__name__], tier)
        else:
            if not getattr(mod, 'NO_THIR', False): thirs('advantage')
            from engine import Budget
            budget = Budget(t0 + (720 if tier == 'thorough' else 420), lambda: w.res.get('status') == 'fail')
            parts, mod = verify(pid, thirs, tier, budget)
    except Exception as e:
        if os.environ.get('VC_DEBUG'): raise
        errors.append(f'{type(e).__name__}: {e}')
    w.join()
    wr = w.res

    proof_ok = bool(parts) and all(p[-1]['status'] == 'ok' or any(a['status'] == 'ok' for a in p) for p in parts)
    failed = []     # parts with a failed obligation and no successful attempt
    undecided = list(errors)
    for p in parts:
        if any(a['status'] == 'ok' for a in p): continue
        fa = [a for a in p if a['status'] == 'failed']
        if fa: failed.append((p, fa))
        else: undecided.append('; '.join(f"{a['part']}/{a['attempt']}: {a['detail']}" for a in p))
    done = [next(a for a in p if a['status'] == 'ok') for p in parts if any(a['status'] == 'ok' for a in p)]

    lines = []
    violations = 0
    for kp, txt in known_findings():
        if kp == pid: lines.append(f'KNOWN-FINDING: property={kp} {txt}')
    rp = os.path.join(EVID, f'{pid}.replay.txt')
    if os.path.exists(rp): os.remove(rp)
    if wr.get('status') == 'fail':
        violations = 1
        with open(rp, 'w') as f:
            f.write(f'property {pid}\nfailing input on the real code:\n  {wr["fail"]}\nreplay: {wr.get("cmd")}\n')
            for p, fa in failed:
                for x in fa[0]['fails'][:8]: f.write(f'\nfailed obligation: {x["fn"]} / {x["tag"]} ({x["message"]})\n{x["rendered"]}\n')
        lines.append(f'VIOLATION property={pid} replay={rp}')
    elif failed:
        violations = 1
        with open(rp, 'w') as f:
            f.write(f'property {pid}\nobligations the verifier refutes or cannot discharge (they are discharged on the unchanged tree); no failing input found by the bounded search\n')
            for p, fa in failed:
                for a in fa:
                    f.write(f'\n== {a["part"]} / {a["attempt"]}: {a.get("cmd")}\n')
                    for x in a['fails'][:8]: f.write(f'failed obligation: {x["fn"]} / {x["tag"]} ({x["message"]})\n{x["rendered"]}\n')
        lines.append(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
    for u in undecided: log(f'UNDISCHARGED property={pid} {u[:600]}')

    obligations = sum(a['verified'] + len(a['fails']) for a in done) + sum(fa[0]['verified'] + len(fa[0]['fails']) for _, fa in failed)
    discharged = sum(a['verified'] for a in done) + sum(fa[0]['verified'] for _, fa in failed)
    fns = sorted(set(x for a in done for x in a.get('functions', [])))
    assumed = sorted(set(x for a in done for x in a.get('assumed', [])))
    axioms = sorted(set(x for a in done for x in a.get('inventory', {}).get('axioms', [])))
    trusted = sorted(set(x for a in done for x in a.get('inventory', {}).get('trusted_sample', [])))
    base = ['Verus ' + verus_version() + ' with Z3', 'rustc nightly THIR construction; /verif/extract (THIR to JSON) and /verif/vc/translate.py, ext.py (JSON to Verus), which decide how each construct is modelled']
    base += ['axioms: ' + ', '.join(axioms)] if axioms else []
    base += [f'{len(trusted)} external_body functions modelling std, num, nalgebra, rayon: ' + ', '.join(trusted)] if trusted else []
    part = sorted(set(x for a in done for x in a.get('partial', [])))
    if part: base += ['termination not proved (partial correctness) for: ' + ', '.join(part)]
    base += getattr(mod, 'TRUSTED', [])
    cov = dict(obligations=obligations, discharged=discharged, checker_cmd='; '.join(a.get('cmd') or '' for a in done) or 'none',
               trusted_base=base, functions_under_contract=fns, contracts_used_from_other_checks=assumed, back_end='Z3 through Verus' if not hasattr(mod, 'BACKEND') else mod.BACKEND,
               solver_ms=sum((a.get('smt_ms') or 0) for a in done), clauses=[a.get('clauses') for a in done],
               vacuity_probes=[a.get('vacuity') for a in done],
               parts=[dict(part=a['part'], attempt=a['attempt'], mode=a['mode'], status=a['status'], verified=a['verified'], failed=[(x['fn'], x['tag'], x['message']) for x in a['fails']], detail=a['detail'], seconds=round(a['time'], 1)) for p in parts for a in p],
               proved=proof_ok, undischarged=undecided,
               bounded_witness=dict(label='bounded: a search on the real code, never counted as proved', status=wr.get('status'), evaluations=wr.get('cases', 0), distinct=wr.get('distinct', 0), samples=wr.get('samples', []), known=wr.get('known', []), fail=wr.get('fail'), detail=wr.get('detail')),
               evaluations=wr.get('cases', 0), distinct_nontrivial=wr.get('distinct', 0), rule='bounded witness cases, counted by distinct description', samples=wr.get('samples', []))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof') if (proof_ok or failed) else 'other', coverage=cov,
              assumptions=getattr(mod, 'ASSUME', []) + ASSUME, wall_s=round(time.time() - t0, 1), violations=violations)
    if ev['level'] == 'other': cov['explanation'] = 'the proof could not be redone from the present source; only the bounded witness search ran: ' + '; '.join(undecided)[:1500]
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
    for l in lines: print(l)
    log(f'{pid}: proved={proof_ok} obligations={obligations} discharged={discharged} witness={wr.get("status")} ({wr.get("cases", 0)} cases) {ev["wall_s"]}s')
    sys.exit(1 if violations else 0)


ASSUME = [
    'partial correctness under panics: a path that panics is not required to satisfy the postcondition unless the contract says it must not panic',
    'allocation succeeds; the type parameter S: Float is treated as a lawful float type (its operations are functions of their operands)',
]

def verus_version():
    try: return json.loads(sh(['verus', '--version', '--output-json']).stdout)['verus']['version']
    except Exception: return '?'

if __name__ == '__main__':
    main()
