"""Render translated functions with their contracts, run Verus, prune candidate
loop invariants (Houdini) and report the obligations that are left."""
import json, os, re, subprocess, itertools, time, sys, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from translate import *
import prelude as P

VERUS = 'verus'


class T:
    """candidate loop invariant: text with metavariables"""
    def __init__(self, text, mod=None, scope=None, name=None, only=None, distinct=True):
        self.text, self.mod, self.scope, self.name, self.only, self.distinct = text, mod or {}, scope or {}, name, only, distinct

def generic_templates():
    return [
        T('{i} <= {n}'),
        T('{i} <= {s}', scope={'s': 'usize'}, only=lambda l, p: not l.idx),
        T('{i} <= {s}@.len()', scope={'s': 'Sq<*>'}, only=lambda l, p: not l.idx),
        T('{v}@.len() == {v0}@.len()', mod={'v': 'Sq<*>'}),
        T('m_r({v}) == m_r({v0}) && m_c({v}) == m_c({v0}) && m_wf({v})', mod={'v': 'Mat'}),
        T('{v}@.len() == {i}', mod={'v': 'Sq<*>'}),
        T('{x} == {x0} + {i}', mod={'x': 'usize'}, only=lambda l, p: l.idx),
        T('{x} + {i} == {x0}', mod={'x': 'usize'}, only=lambda l, p: l.idx),
    ]


def tmatch(pat, ty):
    if pat.endswith('<*>'): return ty.startswith(pat[:-2])
    return pat == ty


def scope_pool(scope, pat, up=()):
    """'loop' stands for the position of an enclosing loop"""
    if pat != 'loop': return [m for m, t in scope if tmatch(pat, t)]
    u = [m for m, t in scope if t == 'usize']
    return ([m for m in u if re.fullmatch(r'k\d+', m)] or [m for m in u if m in up])[:1]

def instantiate(tpl, lp, path):
    """all instances of template for loop lp"""
    if tpl.only and not tpl.only(lp, path): return []
    idxs = [(lp.idx, lp.bound)] if lp.idx else [(n, None) for n, t in lp.mod if t == 'usize']
    need_i, need_n = '{i}' in tpl.text, '{n}' in tpl.text
    if not need_i: idxs = [(None, None)]
    outs = []
    mods = [(n, t) for n, t in lp.mod if n != lp.idx]
    scope = []
    seen = set()
    for n, t in reversed(lp.scope):
        if n in seen: continue
        seen.add(n); scope.append((n, t))
    for i, n in idxs:
        if need_n and n is None:
            continue
        names = list(tpl.mod) + list(tpl.scope)
        pools = [[m for m, t in mods if tmatch(tpl.mod[k], t)] for k in tpl.mod] + [scope_pool(scope, tpl.scope[k], getattr(lp, 'up', ())) for k in tpl.scope]
        for combo in itertools.product(*pools):
            if tpl.distinct and len(set(combo)) != len(combo): continue
            d = dict(zip(names, combo))
            ok = True
            for k in list(d):
                if '{' + k + '0}' in tpl.text: d[k + '0'] = lp.entry.get(d[k], d[k])
            d['i'] = i or ''; d['n'] = n or ''
            txt = tpl.text
            for k, v in d.items(): txt = txt.replace('{' + k + '}', v)
            outs.append(txt)
    return list(dict.fromkeys(outs))


class Rendered:
    def __init__(self): self.lines = []; self.inv = {}; self.tags = {}; self.probes = {}; self.refuted = set(); self.partial = []


class File:
    """one Verus file: prelude + specs + functions"""
    def __init__(self, spec, thir, known=None):
        self.spec, self.thir = spec, thir
        self.dropped = set()
        self.known = known
        self.unsupported = {}
        self.cx = None

    def build(self):
        sp = self.spec
        cx = self.cx = Ctx(self.thir, sp['contracts'], sp.get('lenient', False))
        cx.lits.update({'lit_0_1': (0, 1), 'lit_1_1': (1, 1)})
        for n, v in sp.get('lits', {}).items(): cx.lits[n] = v
        cx.adt_params.update(sp.get('adt_params', {}))
        if sp.get('cxx'):
            import cxx
            cxx.build(self, cx, self.thir); return self
        for a in sp.get('adts', []): cx.use_adt(a, [], {})
        for q in cx.fns:
            if any(re.search(x, q) for x in sp.get('forbid', [])): self.unsupported[q] = 'overrides a method this check reads in its default form'
        import ext
        for r in list(sp['roots']) + list(sp.get('optional', [])):
            if r not in cx.fns and r in sp.get('optional', []): continue
            if r not in cx.fns:
                self.unsupported[r] = 'not present'; continue
            try:
                cx.translate(r)
            except Unsupported as e:
                self.unsupported[r] = str(e)
            except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
                self.unsupported[r] = f'translator: {type(e).__name__} {e}'
                if os.environ.get('VC_DEBUG'): raise
        return self

    def text(self, done=(), full=True):
        """full: lemmas and vacuity probes included; `done`: functions whose bodies are not checked again in this pass"""
        sp, cx = self.spec, self.cx
        out = Rendered()
        L = out.lines
        def add(s):
            for x in s.split('\n'): L.append(x)
        add('#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, unused_parens, unused_must_use, dead_code, non_snake_case, unreachable_code, unused_braces, non_upper_case_globals, non_camel_case_types, unused_labels)]')
        add('use vstd::prelude::*; use vstd::seq::*; use vstd::map::*; use vstd::set::*;')
        add('verus! {')
        parts = tuple(sp.get('parts', ('mat',)))
        if any(re.search(r'\bwrap_[ui]size\(', x) for o in cx.done.values() for x in flat_lines(o.lines)): parts += ('wide',)
        add(P.prelude(sp.get('mode', 'exact'), sp.get('lenient', False), cx.lits, parts))
        add(cx.emit_adts())
        for s in sp.get('specs', []):
            s = s(cx) if callable(s) else s
            if not full: s = re.sub(r'(?m)^(pub (?:broadcast )?proof fn )', r'#[verifier::external_body] \1', s)
            add(s)
        out.fn_lines = {}
        for path in cx.order:
            a = len(L)
            self.render_fn(cx.done[path], out, path in done)
            out.fn_lines[path] = (a + 1, len(L))
        if not full:
            add('} // verus!')
            add('fn main() {}')
            return out
        # vacuity probes: each must be refuted; a provable one means contradictory assumptions
        out.probes = {}
        bu = f"broadcast use {', '.join(sp['broadcast'])};" if sp.get('broadcast') else ''
        def probe(name, ps, req):
            a = len(L)
            L.append('#[verifier::rlimit(2)] #[verifier::spinoff_prover]' if False else '#[verifier::rlimit(2)]')
            L.append(f'proof fn {name}({ps})')
            if req:
                L.append('requires'); L.extend(x + ',' for x in req)
            L.append('ensures false'); L.append('{ ' + bu + ' }')
            out.probes[name] = (a + 1, len(L))
        probe('vacuity_axioms', '', [])
        for path in cx.order:
            o = cx.done[path]; con = cx.contracts.get(path) or {}
            if con.get('requires'):
                probe('vacuity_' + o.name, ', '.join(f'{n}: {t}' for n, t in o.params), [subst_contract(c, o, 'r').replace('\n', ' ') for c in con['requires']])
        add('} // verus!')
        add('fn main() {}')
        return out

    def no_decr(self, o, lines, con):
        for l in lines:
            if isinstance(l, Loop):
                if (not l.decr or l.kind == 'while') and l.id not in (con.get('decreases') or {}) and not self.decr_cand(o, l, con): return True
                if self.no_decr(o, l.body, con): return True
        return False

    def decr_cand(self, o, lp, con):
        for x in lp.decr if lp.kind == 'while' else []:
            key = (o.path, lp.id, 'decreases ' + x)
            if key not in self.dropped: return key, x
        for t in list(con.get('decr', [])):
            for x in instantiate(t, lp, o.path):
                x = subst_contract(x, o, 'r'); key = (o.path, lp.id, 'decreases ' + x)
                if key not in self.dropped: return key, x
        return None

    def render_fn(self, o, out, stub=False):
        cx, sp = self.cx, self.spec
        con = cx.contracts.get(o.path) or {}
        L = out.lines
        ps = ', '.join(f'{n}: {t}' for n, t in o.params)
        outs = [x[1] for x in o.outs]
        rt = outs[0] if len(outs) == 1 else '(' + ', '.join(outs) + ')'
        if rt == '!': rt = '()'
        for a in con.get('attrs', []): L.append(a)
        rl = con.get('rlimit', sp.get('rlimit'))
        if rl: L.append(f'#[verifier::rlimit({rl})]')
        if con.get('spinoff', sp.get('spinoff', any(isinstance(l, Loop) for l in o.lines))): L.append('#[verifier::spinoff_prover]')
        L.append(f'// {o.path}')
        stub = stub or con.get('elsewhere')
        if stub: L.append('#[verifier::external_body]')
        elif o.recursive or self.no_decr(o, o.lines, con):
            L.append('#[verifier::exec_allows_no_decreases_clause]')
            out.partial.append(o.path)
        L.append(f'pub fn {o.name}({ps}) -> (r: {rt})')
        req = con.get('requires', [])
        if req:
            L.append('requires')
            for i, c in enumerate(req):
                L.append(subst_contract(c, o, 'r').replace('\n', ' ') + ',')
        ens = con.get('ensures', [])
        if ens:
            L.append('ensures')
            for i, c in enumerate(ens):
                tag = None
                if isinstance(c, tuple): tag, c = c
                L.append(subst_contract(c, o, 'r').replace('\n', ' ') + ',')
                out.tags[len(L)] = (o.path, tag or f'ensures[{i}]')
        if stub:
            L.append('{ unimplemented!() }'); return
        L.append('{')
        bc = con.get('broadcast', sp.get('broadcast'))
        if bc: L.append(f"broadcast use {', '.join(bc)};")
        self.entry_of = {}; self.store_ty = {}
        self.render_lines(o, o.lines, out, con, set(n for n, _ in o.params))
        L.append('}')

    def render_lines(self, o, lines, out, con, declared):
        L = out.lines
        uninit = set()
        for l in lines:
            if isinstance(l, Loop):
                self.render_loop(o, l, out, con, uninit)
            else:
                if l.startswith('/*CAP') and not con.get('store'): continue
                m = re.match(r'^let mut (\w+): [^=]*;$', l)
                if m: uninit.add(m.group(1))
                m = re.match(r'^(\w+) = ', l)
                if m: uninit.discard(m.group(1))
                L.append(l)
                ow = con.get('on_write')
                st = con.get('store')       # (element type, bound on what a container of such elements holds, bound on reserved storage)
                if st:
                    d = re.match(r'^let mut (\w+): (Sq<.*?>) =', l)
                    if d: self.store_ty[d.group(1)] = d.group(2)
                    c = re.match(r'^/\*CAP (.*)\*/ note_capacity\((.*)\);$', l)
                    if c and st[0] in c.group(1):
                        L.append(f"assert({subst_contract(st[2].replace('{v}', c.group(2)), o, 'r')});"); out.tags[len(L)] = (o.path, 'reserved storage')
                    if m and m.group(1) in self.store_ty and st[0] in self.store_ty[m.group(1)]:
                        L.append(f"assert({subst_contract(st[1].replace('{v}', m.group(1)), o, 'r')});"); out.tags[len(L)] = (o.path, 'stored states')
                if m and ow and m.group(1) == f'm{ow[0]}':
                    L.append(f"assert({subst_contract(ow[1], o, 'r')});")
                    out.tags[len(L)] = (o.path, ow[2])

    def render_loop(self, o, lp, out, con, uninit):
        L = out.lines
        lp.entry = {}
        for n, t in lp.mod:
            if n in uninit: continue
            g = f'{n}_e{lp.id}'
            L.append(f'let ghost {g} = {n};')
            lp.entry[n] = g
        pl = (con.get('loop_pre') or {}).get(lp.id)
        if pl: L.append('proof { ' + pl + ' }')
        if isinstance(lp.head, tuple):
            head = 'while ({ ' + ' '.join(x for x in lp.head[1]) + ' ' + lp.head[2] + ' })'
        else: head = lp.head
        L.append('#[verifier::loop_isolation(false)]')
        L.append(head)
        tpls = generic_templates() + list(self.spec.get('templates', [])) + list(con.get('templates', []))
        cands = []
        for t in tpls:
            for x in instantiate(t, lp, o.path):
                x = subst_contract(x, o, 'r')
                cands.append(x)
        cands = list(dict.fromkeys(cands))
        keep = []
        for x in cands:
            key = (o.path, lp.id, x)
            if key in self.dropped: continue
            if self.known is not None and list(key) not in self.known and key not in self.known: continue
            keep.append((key, x))
        fixed = [subst_contract(x, o, 'r') for x in (con.get('loops') or {}).get(lp.id, [])]
        if keep or fixed:
            L.append('invariant')
            for x in fixed: L.append(x + ',')
            for key, x in keep:
                L.append(x + ',')
                out.inv[len(L)] = key
        decr = list(lp.decr)
        dc = (con.get('decreases') or {}).get(lp.id)
        if dc: L.append('decreases ' + dc)
        elif (not decr or lp.kind == 'while') and self.decr_cand(o, lp, con):
            key, x = self.decr_cand(o, lp, con)
            L.append('decreases ' + x + ','); out.inv[len(L)] = key
        elif decr and lp.kind != 'while': L.append('decreases ' + decr[0])
        L.append('{')
        pb = (con.get('loop_begin') or {}).get(lp.id) or self.loop_proof(o, lp, con, 'begin')
        if pb: L.append('proof { ' + pb + ' }')
        for l in lp.body:
            if isinstance(l, Loop): l.up = list(getattr(lp, 'up', ())) + [n for n, t in lp.mod if t == 'usize']
        self.render_lines(o, lp.body, out, con, set())
        pe = (con.get('loop_end') or {}).get(lp.id) or self.loop_proof(o, lp, con, 'end')
        if pe: L.append('proof { ' + pe + ' }')
        L.append('}')
        pa = (con.get('loop_after') or {}).get(lp.id)
        if pa: L.append('proof { ' + pa + ' }')

    def loop_proof(self, o, lp, con, where):
        return None


def run_verus(text, path, timeout=600, rlimit=None, threads=4, extra=()):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f: f.write(text)
    cmd = [VERUS, path, '--crate-type=lib', '--multiple-errors', '60', '--output-json', '--time', '--error-format=json', '--num-threads', str(threads)] + list(extra)
    if rlimit: cmd += ['--rlimit', str(rlimit)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'errors': [], 'time': time.time() - t0, 'verified': 0, 'failed': -1, 'cmd': ' '.join(cmd), 'fatal': 'timeout'}
    errs = []
    for line in p.stderr.splitlines():
        line = line.strip()
        if not line.startswith('{'): continue
        try: d = json.loads(line)
        except ValueError: continue
        if d.get('level') == 'error': errs.append(d)
    res = {}
    try: res = json.loads(p.stdout)
    except ValueError:
        m = re.search(r'\{.*\}', p.stdout, re.S)
        if m:
            try: res = json.loads(m.group(0))
            except ValueError: pass
    vr = res.get('verification-results', {})
    out = {'errors': errs, 'time': time.time() - t0, 'verified': vr.get('verified', 0), 'failed': vr.get('errors', -1), 'success': vr.get('success', False),
           'smt': (res.get('times-ms', {}).get('smt') or {}).get('smt-run'), 'cmd': ' '.join(cmd), 'rc': p.returncode, 'stderr': p.stderr, 'json': res}
    if vr.get('encountered-vir-error') or 'verified' not in vr: out['fatal'] = True
    return out


RE_INV = re.compile(r'invariant not satisfied')

def classify(errs, out):
    """-> (invariant keys to drop, other failures [(path, what, detail)], fatal messages)"""
    drop, fails, fatal = set(), [], []
    fl = sorted((a, b, p) for p, (a, b) in out.fn_lines.items())
    def fn_of(line):
        for a, b, p in fl:
            if a <= line <= b: return p
        return None
    for e in errs:
        msg = e.get('message', '')
        if msg.startswith('aborting') : continue
        lines = [(s['line_start'], s.get('is_primary'), s.get('label')) for s in e.get('spans', [])]
        hit = False
        if RE_INV.search(msg) or 'decreases not satisfied' in msg:
            for ln, prim, lab in lines:
                if ln in out.inv: drop.add(out.inv[ln]); hit = True
            if hit: continue
        if e.get('code') and e['code'].get('code'): fatal.append(e); continue
        tag = None
        for ln, prim, lab in lines:
            if ln in out.tags: tag = out.tags[ln]
        ln0 = next((ln for ln, prim, _ in lines if prim), lines[0][0] if lines else None)
        pr = next((n for n, (a, b) in getattr(out, 'probes', {}).items() if any(a <= ln <= b for ln, _, _ in lines)), None)
        if pr: out.refuted.add(pr); continue
        f = fn_of(ln0) if ln0 else None
        if tag and f is None: f = tag[0]
        src = out.lines[ln0 - 1].strip() if ln0 and ln0 <= len(out.lines) else ''
        fails.append({'fn': f, 'message': msg, 'tag': tag, 'line': ln0, 'text': src, 'rendered': e.get('rendered', '')})
    return drop, fails, fatal


def flat_lines(ls):
    for l in ls:
        if isinstance(l, Loop):
            if isinstance(l.head, tuple): yield from flat_lines(l.head[1])
            yield from flat_lines(l.body)
        elif isinstance(l, str): yield l


class Budget:
    """shared limits: a deadline, and an early end once a concrete failing input is known"""
    def __init__(self, end=None, stop=None): self.end, self.stop = end, stop or (lambda: False)
    def left(self, t):
        if self.stop(): t = min(t, 60)
        return t if self.end is None else max(5, min(t, self.end - time.time()))
    def over(self): return self.end is not None and time.time() > self.end - 5


def houdini(file, path, maxit=25, timeout=600, rlimit=None, threads=4, log=None, retry=(), budget=None):
    """iterate until no candidate invariant fails, checking in each pass only the functions
    that are not settled; then one pass over everything"""
    budget = budget or Budget()
    t0 = time.time()
    has_loops = lambda o: any(isinstance(l, Loop) for l in o.lines)
    settled = set(p for p in file.cx.order if not file.cx.done[p].loops)
    def fatal_of(res, fatal): return fatal or [e for e in res['errors'] if not e.get('message', '').startswith('aborting')]
    it = 0
    while True:
        while len(settled) < len(file.cx.order):
            it += 1
            if budget.over() or it > maxit: return dict(status='budget', res={}, fails=[], fatal=[], time=time.time() - t0, out=None, iters=it)
            out = file.text(settled, full=False)
            res = run_verus('\n'.join(out.lines), path, budget.left(timeout), rlimit, threads)
            drop, fails, fatal = classify(res['errors'], out)
            if log: log(f'  it {it}: {len(file.cx.order) - len(settled)} open, drop {len(drop)}, other {len(fails)}, fatal {len(fatal)} ({res["time"]:.1f}s)')
            if res.get('fatal') or fatal:
                return {'status': 'fatal', 'res': res, 'fails': fails, 'fatal': fatal_of(res, fatal), 'time': time.time() - t0, 'out': out, 'iters': it}
            if not drop: break
            file.dropped |= drop
            bad = set(k[0] for k in drop) | set(x['fn'] for x in fails)
            settled |= set(p for p in file.cx.order if p not in bad)
        if budget.over(): return dict(status='budget', res={}, fails=[], fatal=[], time=time.time() - t0, out=None, iters=it)
        out = file.text()
        res = run_verus('\n'.join(out.lines), path, budget.left(timeout), rlimit, threads)
        drop, fails, fatal = classify(res['errors'], out)
        if log: log(f'  full: {res["verified"]} verified, {res["failed"]} failed, drop {len(drop)}, other {len(fails)}, fatal {len(fatal)} ({res["time"]:.1f}s)')
        if res.get('fatal') or fatal:
            return {'status': 'fatal', 'res': res, 'fails': fails, 'fatal': fatal_of(res, fatal), 'time': time.time() - t0, 'out': out, 'iters': it + 1}
        if not drop: break
        file.dropped |= drop
        settled -= set(k[0] for k in drop)
    if fails:
        # an obligation counts as failed only when no solver seed discharges it
        left = list(fails)
        for seed in retry:
            if not left or budget.over() or budget.stop(): break
            open_fns = set(x['fn'] for x in left)
            lemmas = any(f is None or f not in file.cx.order for f in open_fns)
            o2 = file.text(set(p for p in file.cx.order if p not in open_fns), full=lemmas)
            r2 = run_verus('\n'.join(o2.lines), path.replace('.rs', '_retry.rs'), budget.left(timeout), rlimit or 30, threads, ['--smt-option', f'smt.random_seed={seed}'])
            if r2.get('fatal'): continue
            d2, f2, _ = classify(r2['errors'], o2)
            fns2 = set(x['fn'] for x in f2) | set(k[0] for k in d2)
            left = [x for x in left if x['fn'] in fns2]
            if log: log(f'  seed {seed}: {len(f2)} failed, {len(left)} in common')
        if not left: res = dict(res, verified=res['verified'] + len(set(x['fn'] for x in fails)), failed=0)
        fails = left
    vac = [n for n in out.probes if n not in out.refuted]
    return {'vacuous': vac, 'vacuity': {'probes': len(out.probes), 'refuted': len(out.refuted)}, 'status': 'ok' if not fails else 'failed', 'res': res, 'fails': fails, 'fatal': [], 'time': time.time() - t0, 'out': out, 'iters': it + 1}
