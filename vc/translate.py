"""THIR (JSON from /verif/extract) -> functional-style Verus exec code.

Every construct that is not understood raises Unsupported: the function is then
reported as "not within the verifier's reach" instead of being guessed at.
"""
import re, copy, itertools


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- values
class R:            # run time value: pure Verus expression text
    def __init__(s, t, ty): s.t, s.ty = t, ty
    def __repr__(s): return f'R({s.t}:{s.ty})'

class P:            # place
    def __init__(s, root, ty, projs=(), rty=None): s.root, s.ty, s.projs, s.rty = root, ty, tuple(projs), rty or ty
    def ext(s, proj, ty): return P(s.root, ty, s.projs + ((proj, s.ty),), s.rty)

class RefV:         # &mut place
    def __init__(s, p): s.p = p

class Clo:
    def __init__(s, path, frame, overlay=None): s.path, s.frame, s.overlay = path, frame, overlay or {}

class FnV:
    def __init__(s, e): s.e = e

class PyClo:        # closure implemented by the translator (eg Vec::new as fn item)
    def __init__(s, f): s.f = f

class TupV:
    def __init__(s, el): s.el = el

class Never:
    pass

class Guard:        # MutexGuard: local copy of the protected contents
    def __init__(s, place, handle, kind): s.place, s.handle, s.kind, s.released = place, handle, kind, False

class Static:
    def __init__(s, path): s.path = path

class View_:        # column_mut / row_mut view
    def __init__(s, place, kind, idx): s.place, s.kind, s.idx = place, kind, idx

class BoxUninit:
    pass

# iterator pipelines
class It:
    def __init__(s, kind, **kw):
        s.kind = kind
        s.__dict__.update(kw)
        s.par = kw.get('par', False)

UNIT = R('()', '()')
INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128'}


def split_ty(t):
    """'Sq<X>' -> ('Sq','X')"""
    m = re.match(r'^(\w+)<(.*)>$', t)
    return (m.group(1), m.group(2)) if m else (t, None)

def tup_elems(t):
    assert t.startswith('(') and t.endswith(')'), t
    out, d, cur = [], 0, ''
    for c in t[1:-1]:
        if c in '(<[': d += 1
        if c in ')>]': d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


def sanitize(n):
    return re.sub(r'\W', '_', n)


class Loop:
    n = 0
    def __init__(s, head, idx, bound, body, mod, scope, decr, has_break, pre, kind, indent, outer=None, lo='0'):
        s.head, s.idx, s.bound, s.body, s.mod, s.scope = head, idx, bound, body, mod, scope
        s.decr, s.has_break, s.pre, s.kind, s.indent, s.outer, s.lo = decr, has_break, pre, kind, indent, outer, lo


class Frame:
    def __init__(s, path, subst, parent=None):
        s.path, s.subst, s.env = path, subst, {}
        s.suffix = ''


def or_alternatives(p):
    """a pattern that binds inside `|` as the list of its alternatives"""
    if not isinstance(p, dict) or not contains(p, ('Or',)) or not contains(p, ('Bind',)): return [p]
    if p['k'] == 'Or': return [r for q in p['pats'] for r in or_alternatives(q)]
    out = [p]
    if p.get('subs'):
        for i, (n, q) in enumerate(p['subs']):
            out = [dict(o, subs=o['subs'][:i] + [[n, r]] + o['subs'][i + 1:]) for o in out for r in or_alternatives(q)]
    if isinstance(p.get('sub'), dict): out = [dict(o, sub=r) for o in out for r in or_alternatives(p['sub'])]
    return out


class FnOut:
    """result of translating one function"""
    def __init__(s): s.recursive = False; s.lines = []; s.loops = []; s.params = []; s.ret = None; s.outs = []; s.world = False; s.name = None; s.path = None


class Ctx:
    """translation context of one Verus file"""
    def __init__(self, thir, contracts, lenient=False, param_ty=None):
        self.thir, self.contracts, self.lenient = thir, contracts, lenient
        self.fns, self.adts = thir.get('fns', {}), thir.get('adts', {})
        self.done = {}          # path -> FnOut
        self.signatures = {}    # functions being translated that may be called through their contract
        self.order = []
        self.adts_used = []
        self.in_progress = set()
        self._world = {}
        self.inlined = set()
        self.lits = {}
        self.tapes = {}
        self.adt_params = {}    # what the type parameters of a struct stand for

    # ------------------------------------------------------------ types
    def ty(self, t, sub):
        k = t['k']
        if k == 'ref' or k == 'ptr': return self.ty(t['t'], sub)
        if k in ('slice', 'array'): return f"Sq<{self.ty(t['t'], sub)}>"
        if k == 'tuple':
            el = [self.ty(x, sub) for x in t['a']]
            if not el: return '()'
            if len(el) == 1: return f'({el[0]},)'
            return '(' + ', '.join(el) + ')'
        if k == 'prim':
            return {'f64': 'Fl', 'f32': 'Fl', 'str': 'Str'}.get(t['n'], t['n'])
        if k == 'never': return '!'
        if k == 'param':
            if t['n'] in sub: return sub[t['n']]
            return self.default_param(t['n'])
        if k == 'closure': return '#closure'
        if k == 'fndef': return '#fn'
        if k == 'dyn':
            ps = [p.get('p', '') for p in t['preds']]
            if any(p == 'tape::Tape' for p in ps): return 'TapeV'
            if any(p == 'function::Function' for p in ps): return 'FuncV'
            if any('Iterator' in p for p in ps): return '#iter'
            if any('Fn' in p for p in ps): return '#closure'
            raise Unsupported('dyn ' + str(ps))
        if k == 'alias':
            s = t['s']
            if 'FromStrRadixErr' in s: return 'ErrT'
            if 'tape::Tape' in s or 'impl tape' in s: return '#itape'
            return '#alias'
        if k == 'adt':
            p = t['p']; a = t['a']
            last = p.split('::')[-1]
            if last == 'Option': return f"Option<{self.ty(a[0], sub)}>"
            if last == 'Result':
                return f"Result<{self.ty(a[0], sub)},{self.ty(a[1], sub)}>"
            if last == 'MutexGuard': return '#guard'
            if last in ('Arc', 'Rc', 'Mutex', 'Weak'):
                inner = a[0]
                s = str(t)
                if last == 'Weak': return 'Wk'
                if last == 'Mutex' and 'HashMap' in s: return '#mapmutex'
                if 'Mutex' in s: return 'Hd'
                return self.ty(inner, sub)
            if last == 'Box':
                return self.ty(a[0], sub)
            if last in ('Vec', 'VecDeque', 'ManuallyDrop'): return f"Sq<{self.ty(a[0], sub)}>"
            if last == 'HashMap': return 'RegMap'
            if last == 'Matrix':
                el = self.ty(a[0], sub)
                c = a[2]
                cs = str(c)
                if c.get('k') == 'adt' and c['p'].endswith('::Const') and c['a'] and str(c['a'][0].get('v', '')).startswith('1_'): return f'Sq<{el}>'
                if c.get('k') == 'adt' and (c['p'].endswith('U1') or 'UTerm' in cs and 'UInt' in cs and "UTerm" in cs and c['p'].endswith('UInt')) or "'1'" in cs or c.get('k') == 'const':
                    return f'Sq<{el}>'
                if c.get('k') == 'param' and c['n'] in sub: 
                    return f'Sq<{el}>' if sub[c['n']] == 'U1' else 'Mat'
                return 'Mat'
            if last in ('U1',): return 'U1'
            if last == 'Dynamic' : return 'Dyn'
            if last == 'Ordering' and 'cmp' in p: return 'Option3'
            if last == 'FpCategory': return 'FpCat'
            if last == 'BigUint': return 'Big'
            if last in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeFull', 'StepBy', 'TakeWhile'): return '#iter'
            if 'iter' in p or last in ('Rev', 'Map', 'Filter', 'Enumerate', 'Zip', 'Chain', 'Take', 'Skip', 'Cloned'): return '#iter'
            if p in self.adts:
                return self.use_adt(p, a, sub)
            if last == 'MaybeUninit' : return self.ty(a[0], sub)
            return '#' + last
        return '#' + k

    def default_param(self, n):
        return {'T': 'TT', 'R': 'RR', 'Self': 'TapeV'}.get(n, 'Fl')

    def use_adt(self, p, a, sub):
        if p not in self.adts_used:
            self.adts_used.append(p)
            # make sure the field types are usable (recursively registers)
            d = self.adts[p]
            for v in d['variants']:
                for f in v['fields']:
                    self.ty(f[1], self.adt_sub(p))
        return self.adt_name(p)

    def track_capacity(self, tr): return False

    def adt_name(self, p): return p.split('::')[-1]
    def adt_sub(self, p):
        return {'S': 'Fl', **self.adt_params.get(p, {})}
    def adt_fields(self, p, variant=None):
        d = self.adts[p]
        for v in d['variants']:
            if variant is None or v['name'] == variant:
                return [(n, self.ty(t, self.adt_sub(p))) for n, t in v['fields']]
        raise Unsupported('variant')
    def adt_by_name(self, n):
        for p in self.adts_used:
            if self.adt_name(p) == n: return p
        return None

    def emit_adts(self):
        out = []
        for p in self.adts_used:
            d = self.adts[p]; n = self.adt_name(p)
            if d['enum']:
                vs = []
                for v in d['variants']:
                    if not v['fields']: vs.append(v['name'])
                    elif v['fields'][0][0] == '0':
                        vs.append(v['name'] + '(' + ', '.join(self.ty(t, self.adt_sub(p)) for _, t in v['fields']) + ')')
                    else:
                        vs.append(v['name'] + ' {' + ', '.join(f'{f}: {self.ty(t, self.adt_sub(p))}' for f, t in v['fields']) + '}')
                out.append(f"#[derive(Clone, Copy)]\npub enum {n} {{ {', '.join(vs)} }}")
                if all(not v['fields'] for v in d['variants']):
                    arms = ', '.join(f"{n}::{v['name']} => {i}int" for i, v in enumerate(d['variants']))
                    out.append(f"pub open spec fn disc_{n}(o: {n}) -> int {{ match o {{ {arms} }} }}")
                    earms = ', '.join(f"{n}::{v['name']} => {i}usize" for i, v in enumerate(d['variants']))
                    out.append(f"pub fn xdisc_{n}(o: {n}) -> (r: usize) ensures r == disc_{n}(o) {{ match o {{ {earms} }} }}")
            else:
                fs = []
                for f, t in d['variants'][0]['fields']:
                    m = self.ty(t, self.adt_sub(p))
                    if m.startswith('#'): m = 'Opaque'
                    fs.append(f'pub {f}: {m}')
                out.append(f"#[derive(Clone, Copy)]\npub struct {n} {{ {', '.join(fs)} }}")
        return '\n'.join(out)

    # ----------------------------------------------------------- effects
    def uses_world(self, path, stack=()):
        if path in self._world: return self._world[path]
        if path in stack: return False
        f = self.fns.get(path)
        if not f: return False
        res = [False]
        def walk(x):
            if res[0]: return
            if isinstance(x, dict):
                k = x.get('k')
                if k in ('Call', 'FnRef'):
                    p = x['p']; rp = (x.get('res') or {}).get('p')
                    if p in WORLD_PRIMS or any(p.endswith(q) for q in WORLD_SUFF): res[0] = True; return
                    if p == 'function::Function::eval': res[0] = True; return
                    for q in (p, rp):
                        if q and q in self.fns and self.uses_world(q, stack + (path,)): res[0] = True; return
                    # trait method on an active number
                    if 'afloat::AFloat' in str(x.get('ga')) and not (rp in self.fns):
                        q = self.afloat_impl(p)
                        if q and self.uses_world(q, stack + (path,)): res[0] = True; return
                if k == 'Closure' and x['p'] in self.fns and self.uses_world(x['p'], stack + (path,)):
                    res[0] = True; return
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(f['body'])
        if not stack or res[0]: self._world[path] = res[0]
        return res[0]

    def afloat_impl(self, p):
        m = re.match(r'^(.*)::(\w+)$', p)
        if not m: return None
        c = f'<afloat::AFloat<S> as {m.group(1)}>::{m.group(2)}'
        return c if c in self.fns else None

    # ------------------------------------------------------------ targets
    def vname(self, path):
        """Verus name of a function"""
        m = re.match(r'^<([\w:]+)(<[^>]*>)? as ([\w:]+)(<.*>)?>::(\w+)$', path)
        if m:
            base = m.group(1).split('::')[-1] + '__' + m.group(3).split('::')[-1] + (sanitize(m.group(4)) if m.group(4) else '') + '__' + m.group(5)
        else:
            base = re.sub(r"::<[^<>]*>", '', path)
            base = sanitize(base.replace('::', '__'))
        return 'f_' + sanitize(base).strip('_')

    def translate(self, path):
        """translate `path` as a stand-alone function with its contract"""
        if path in self.done: return self.done[path]
        if path in self.in_progress:
            o = self.signatures.get(path)
            if o is None: raise Unsupported('recursion through ' + path)
            o.recursive = True
            return o
        self.in_progress.add(path)
        try:
            t = Tr(self, path)
            o = t.run()
        finally:
            self.in_progress.discard(path)
        self.done[path] = o
        self.order.append(path)
        return o


WORLD_PRIMS = {'std::sync::Mutex::<T>::lock', 'std::sync::Weak::<T, A>::upgrade', 'std::sync::Arc::<T>::new'}
WORLD_SUFF = ('::fetch_add',)


def has_mut(e):
    """may evaluating e change a variable?"""
    if isinstance(e, dict):
        k = e.get('k')
        if k in ('Assign', 'AssignOp'): return True
        if k == 'Borrow' and e.get('m'): return True
        if k == 'CallDyn': return True
        if k == 'Call' and ('FnMut' in e['p'] or 'next' in e['p'] or 'Fn::call' in e['p']): return True
        return any(has_mut(v) for v in e.values())
    if isinstance(e, list): return any(has_mut(v) for v in e)
    return False

def contains(e, kinds, stop=()):
    if isinstance(e, dict):
        if e.get('k') in kinds: return True
        if e.get('k') in stop: return False
        return any(contains(v, kinds, stop) for v in e.values())
    if isinstance(e, list): return any(contains(v, kinds, stop) for v in e)
    return False


class Tr:
    def __init__(self, cx, path):
        self.cx, self.path = cx, path
        self.f = cx.fns[path]
        self.out = []
        self.ntmp = 0; self.depth = 0
        self.scope = []         # list of (name, ty) of visible Verus variables
        self.loops = []
        self.loopstack = []
        self.inl = 0
        self.depth = 0
        self.guards = []        # active guards (list of lists: scopes)
        self.stmt_guards = [[]]
        self.declared_mut = {}
        self.extra_reduce = []

    # ------------------------------------------------------------- helpers
    def tmp(self, p='t'):
        self.ntmp += 1
        return f'{p}{self.ntmp}'
    def emit(self, s): self.out.append(s)
    def let(self, text, ty, mut=False, name=None):
        n = name or self.tmp()
        if ty in ('()',):
            self.emit(f'{text};'); return R('()', '()')
        self.emit(f"let {'mut ' if mut else ''}{n}: {ty} = {text};")
        self.scope.append((n, ty))
        return R(n, ty)
    def sub(self, fn):
        """run fn with a fresh output buffer; returns (lines, result)"""
        save, self.out = self.out, []
        sc = len(self.scope)
        self.depth += 1
        try:
            r = fn()
            return self.out, r
        finally:
            self.depth -= 1
            self.out = save
            del self.scope[sc:]

    # -------------------------------------------------------------- places
    def read(self, p):
        cur = p.root
        for (k, *a), _bty in p.projs:
            if k == 'f': cur = f'{cur}.{a[0]}'
            elif k == 't': cur = f'{cur}.{a[0]}'
            elif k == 'i':
                cur = self.let(f'sq_get({cur}, {a[0]})', split_ty(_bty)[1]).t
            elif k == 'm':
                cur = self.let(f'mat_get({cur}, {a[0]}, {a[1]})', 'Fl').t
            elif k == 'lin':
                cur = self.let(f'mat_get_lin({cur}, {a[0]})', 'Fl').t
            elif k == 'some':
                cur = self.let(f'opt_unwrap({cur})', split_ty(_bty)[1]).t
            else: raise Unsupported('read ' + k)
        return R(cur, p.ty)

    def write(self, p, val):
        if not p.projs:
            self.emit(f'{p.root} = {val};')
            self.mark_mod(p.root)
            return
        (k, *a), bty = p.projs[-1]
        parent = P(p.root, bty, p.projs[:-1], p.rty)
        if k == 'i': 
            pv = self.read(parent); self.write(parent, f'sq_set({pv.t}, {a[0]}, {val})')
        elif k == 'm':
            pv = self.read(parent); self.write(parent, f'mat_set({pv.t}, {a[0]}, {a[1]}, {val})')
        elif k == 'lin':
            pv = self.read(parent); self.write(parent, f'mat_set_lin({pv.t}, {a[0]}, {val})')
        elif k == 'some':
            self.write(parent, f'Some({val})')
        elif k == 't':
            pv = self.read(parent)
            els = tup_elems(bty)
            parts = [val if i == int(a[0]) else f'{pv.t}.{i}' for i in range(len(els))]
            self.write(parent, '(' + ', '.join(parts) + ')')
        elif k == 'f':
            pv = self.read(parent)
            ap = self.cx.adt_by_name(bty)
            if ap: fields = [f for f, _ in self.cx.adt_fields(ap)]
            elif bty == 'TapeV': fields = ['indeps', 'deps', 'vals', 'ops']
            else: raise Unsupported('field write on ' + bty)
            parts = [f'{f}: ' + (val if f == a[0] else f'{pv.t}.{f}') for f in fields]
            self.write(parent, f'{bty} {{ ' + ', '.join(parts) + ' }')
        else: raise Unsupported('write ' + k)

    def mark_mod(self, root):
        for s in self.loopstack: s.add(root)
        self.modified.add(root)

    # ----------------------------------------------------- V -> text
    def rv(self, v, snapshot=False):
        """force a run time value"""
        if isinstance(v, R): return v
        if isinstance(v, P): return self.read(v)
        if isinstance(v, RefV): return self.read(v.p)
        if isinstance(v, TupV):
            el = [self.rv(x) for x in v.el]
            if not el: return UNIT
            return R('(' + ', '.join(x.t for x in el) + (',' if len(el) == 1 else '') + ')', '(' + ', '.join(x.ty for x in el) + (',' if len(el) == 1 else '') + ')')
        if isinstance(v, It):
            return self.collect(v)
        if isinstance(v, Guard):
            return self.read(v.place)
        if isinstance(v, Never):
            return R('vpanic()', '!')
        raise Unsupported(f'run-time value of {type(v).__name__}')

    # --------------------------------------------------------------- entry
    def run(self):
        cx, f = self.cx, self.f
        con = cx.contracts.get(self.path) or {}
        o = FnOut(); o.path = self.path; o.name = con.get('name') or cx.vname(self.path)
        self.modified = set()
        self.world = con.get('world') or cx.uses_world(self.path)
        o.world = self.world
        fr = Frame(self.path, dict(con.get('subst', {})))
        for g in (f.get('generics') or []):
            if g not in fr.subst and not g.startswith("'"):
                fr.subst[g] = self.cx.default_param(g) if g != 'Self' else self.self_ty()
        self.frame = fr
        params, muts = [], []
        if self.world:
            params.append(('w0', 'World')); self.emit('let mut w: World = w0;'); self.scope.append(('w', 'World'))
        for i, p in enumerate(f['params']):
            t = p['ty']
            ty = cx.ty(t, fr.subst)
            if con.get('param_ty', {}).get(i): ty = con['param_ty'][i]
            if ty.startswith('#'):
                if ty == '#closure' or ty == '#fn' : pass
                raise Unsupported(f'parameter type {ty} of {self.path}')
            if ty == 'UFN':      # uninterpreted function parameter
                self.bind_pat(p['pat'], con['ufn'][i](self)); continue
            params.append((f'a{i}', ty)); self.scope.append((f'a{i}', ty))
            if t['k'] == 'ref' and t['m']:
                n = f'm{i}'
                self.emit(f'let mut {n}: {ty} = a{i};'); self.scope.append((n, ty))
                muts.append((i, n, ty))
                v = RefV(P(n, ty))
            else:
                v = R(f'a{i}', ty)
            if p['pat']: self.bind_pat(p['pat'], v)
        self.muts = muts
        self.toplevel = True
        self.ret_ty = cx.ty(f['ret'], fr.subst)
        if con.get('ret_ty'): self.ret_ty = con['ret_ty']
        if self.ret_ty == '#itape': self.ret_ty = 'TapeV'
        self.RET = '/*RET*/'
        if not muts and con and not self.ret_ty.startswith('#'):
            o.outs = [('ret', self.ret_ty)] + ([('w', 'World')] if self.world else [])
            o.params = params; o.ret = self.ret_ty; o.muts = []
            cx.signatures[self.path] = o
            if con.get('elsewhere'): o.lines, o.loops, o.extra = [], [], []; return o     # its body is proved in another check
        if con.get('proof_begin'): self.emit('proof { ' + re.sub(r'\$(a\d+)\b', r'\1', con['proof_begin']) + ' }')
        self.guards.append([])
        v = self.body(f['body'])
        if isinstance(v, It) and (self.ret_ty.startswith('#') or self.ret_ty.startswith('Sq<')):   # a returned iterator stands for the sequence it yields
            v = self.collect(v); self.ret_ty = v.ty
        if not isinstance(v, Never):
            t = self.ret_val(v)
            for g in self.stmt_guards[-1]: self.release(g)
            self.release_scope()
            self.emit(f'/*RETURN*/ {t}')
        else:
            self.release_scope(dead=True)
            if self.out and isinstance(self.out[-1], str) and self.out[-1].startswith('vpanic') and self.ret_ty not in ('()', '!'): self.emit('/*RETURN*/ any_val()')
        # outputs
        outs = [('ret', self.ret_ty)]
        if self.world: outs.append(('w', 'World'))
        for i, n, ty in muts:
            if n in self.modified: outs.append((f'a{i}p', ty, n))
        o.outs = outs; o.params = params; o.ret = self.ret_ty
        o.muts = [(i, n, ty) for i, n, ty in muts if n in self.modified]
        def fix(lines):
            res = []
            for l in lines:
                if isinstance(l, Loop): l.body = fix(l.body); res.append(l)
                else:
                    m = re.match(r'^(\s*)/\*RET(URN|EARLY)\*/ (.*)$', l)
                    if m:
                        parts = [m.group(3)] + (['w'] if self.world else []) + [n for _, n, _ in o.muts]
                        txt = parts[0] if len(parts) == 1 else '(' + ', '.join(parts) + ')'
                        if con.get('proof_end'):
                            res.append(f'let r_ = {txt}; proof {{ {self.subst_proof(con["proof_end"], o)} }}')
                            txt = 'r_'
                        l = f'return {txt};' if m.group(2) == 'EARLY' else txt
                    res.append(l)
            return res
        o.lines = fix(self.out)
        o.loops = self.loops
        o.extra = self.extra_reduce
        return o

    def subst_proof(self, t, o):
        return subst_contract(t.replace('$r', '$R'), o, 'r_')

    def self_ty(self):
        f = self.f
        if f.get('impl_self'): return self.cx.ty(f['impl_self'], {'S': 'Fl'})
        return {'tape::Tape': 'TapeV', 'function::Function': 'FuncV'}.get(f.get('trait'), 'Fl')

    def ret_val(self, v):
        if self.ret_ty == '()': 
            return '()'
        v = self.coerce(v, self.ret_ty)
        return self.rv(v).t

    def coerce(self, v, ty):
        """adapt v to model type ty"""
        if ty == 'TapeV' and not (isinstance(v, R) and v.ty == 'TapeV'):
            return self.as_tape(v)
        if ty == 'Mat':
            r = self.rv(v)
            if r.ty == 'Sq<Fl>': return R(f'mat_of_vec({r.t})', 'Mat')
            return r
        return v

    def body(self, e):
        """function body (handles return elimination only for inlined bodies)"""
        return self.ex(e)

    # ----------------------------------------------------------- patterns
    def var_name(self, var):
        n = sanitize(var)
        return 'v_' + n + (f'_{self.frame.suffix}' if self.frame.suffix else '')

    def bind_var(self, var, v, mut=True):
        """bind THIR variable to a value (creating a Verus local for run-time values)"""
        if isinstance(v, It):
            v = copy.copy(v); v.depth = self.depth
        if isinstance(v, (R, P)):
            r = self.rv(v)
            if r.ty == '()' :
                self.frame.env[var] = R('()', '()'); return
            n = self.var_name(var)
            self.emit(f'let mut {n}: {r.ty} = {r.t};')
            self.scope.append((n, r.ty))
            self.frame.env[var] = P(n, r.ty)
        elif isinstance(v, TupV):
            try:
                sv = self.out[:]
                r = self.rv(v)
                self.bind_var(var, r)
            except Unsupported:
                self.out[:] = sv
                self.frame.env[var] = v
        else:
            self.frame.env[var] = v

    def is_irref(self, p):
        k = p['k']
        if k in ('Wild', 'Missing'): return True
        if k == 'Bind': return p['sub'] is None or self.is_irref(p['sub'])
        if k == 'Deref': return self.is_irref(p['sub'])
        if k == 'Leaf': return all(self.is_irref(x[1]) for x in p['subs'])
        if k == 'Variant': return False
        return False

    def bind_pat(self, p, v):
        """bind irrefutable pattern"""
        k = p['k']
        if k in ('Wild', 'Missing'): return
        if k == 'Bind':
            mode = p['mode']
            if 'Yes' in mode:
                # ref / ref mut binding
                if re.search(r'Yes\([^)]*Mut\)', mode):
                    if isinstance(v, RefV): v = v.p
                    self.frame.env[p['var']] = RefV(v) if isinstance(v, P) else v
                else:
                    if isinstance(v, P): v = self.read(v)
                    self.bind_var(p['var'], v)
            else:
                self.bind_var(p['var'], v)
            return
        if k == 'Deref':
            if isinstance(v, RefV): v = v.p
            elif isinstance(v, P) : pass
            return self.bind_pat(p['sub'], v)
        if k == 'Leaf':
            if isinstance(v, RefV): v = v.p
            for n, sp in p['subs']:
                self.bind_pat(sp, self.proj(v, n))
            return
        raise Unsupported('pattern ' + k)

    def proj(self, v, n):
        if isinstance(v, TupV): return v.el[int(n)]
        if isinstance(v, RefV): v = v.p
        if isinstance(v, Guard): v = v.place
        if isinstance(v, P):
            return v.ext((('t' if n.isdigit() and v.ty.startswith('(') else 'f'), n), self.field_ty(v.ty, n))
        if isinstance(v, R):
            return R(f'{v.t}.{n}', self.field_ty(v.ty, n))
        raise Unsupported('projection of ' + type(v).__name__)

    def field_ty(self, ty, n):
        if ty.startswith('('): return tup_elems(ty)[int(n)]
        ap = self.cx.adt_by_name(ty)
        if ap:
            for f, t in self.cx.adt_fields(ap):
                if f == n: return t
        raise Unsupported(f'field {n} of {ty}')

    # refutable patterns -> verus pattern text + deferred binders
    def pat_text(self, p, v, binds):
        """v: place or value or None. returns pattern text; appends (pattern, value) to binds"""
        k = p['k']
        if k in ('Wild', 'Missing'): return '_'
        if k == 'Deref':
            if isinstance(v, RefV): v = v.p
            return self.pat_text(p['sub'], v, binds)
        if k == 'Bind' and p['sub'] is None:
            if v is not None and isinstance(v, P):
                binds.append((p, v)); return '_'
            n = self.tmp('p')
            binds.append((p, R(n, self.cx.ty(p['ty'], self.frame.subst))))
            return n
        if k == 'Variant':
            adt = p['adt'].split('::')[-1]
            pre = '' if adt in ('Option', 'Result') else adt + '::'
            if adt == 'Ordering': pre = 'Option3::'
            if p['adt'] in self.cx.adts: self.cx.use_adt(p['adt'], [], {})
            if not p['subs']:
                v_has = self.variant_fields(p)
                return pre + p['variant'] + ('(_)' if v_has else '')
            if adt == 'Option' and v is not None and isinstance(v, P):
                s = self.pat_text(p['subs'][0][1], v.ext(('some',), split_ty(v.ty)[1]), binds)
                return f'Some({s})'
            parts = [self.pat_text(sp, None, binds) for _, sp in p['subs']]
            if p['subs'][0][0].isdigit(): return pre + p['variant'] + '(' + ', '.join(parts) + ')'
            return pre + p['variant'] + ' {' + ', '.join(f'{n}: {s}' for (n, _), s in zip(p['subs'], parts)) + ', ..}'
        if k == 'Leaf':
            els = {n: self.pat_text(sp, None if v is None else (self.proj(v, n) if isinstance(v, P) else None), binds) for n, sp in p['subs']}
            tyt = self.cx.ty(p['ty'], self.frame.subst)
            if tyt.startswith('('):
                n = len(tup_elems(tyt))
                return '(' + ', '.join(els.get(str(i), '_') for i in range(n)) + ')'
            return f'{tyt} {{ ' + ', '.join(f'{n}: {s}' for n, s in els.items()) + ', .. }'
        if k == 'Const':
            m = re.match(r'^(-?\d+)', p['v'])
            if p['v'] in ('true', 'false'): return p['v']
            if m and self.cx.ty(p['ty'], self.frame.subst) in INTS: return m.group(1)
            raise Unsupported('constant pattern ' + p['v'])
        if k == 'Or':
            if contains(p, ('Bind',)): raise Unsupported('or-pattern with bindings')
            return ' | '.join(self.pat_text(x, None, binds) for x in p['pats'])
        raise Unsupported('pattern ' + k)

    def variant_fields(self, p):
        if p['adt'] in self.cx.adts:
            return len(self.cx.adt_fields(p['adt'], p['variant']))
        return p['variant'] in ('Some', 'Ok', 'Err')

    # -------------------------------------------------------------- places of expressions
    def pl(self, e):
        k = e['k']
        if k == 'Var':
            fr = self.frame
            v = fr.env.get(e['v'])
            if v is None: raise Unsupported('unbound ' + e['v'])
            return v
        if k == 'Deref':
            v = self.pl(e['arg'])
            if isinstance(v, RefV): return v.p
            if isinstance(v, P) and False: return v
            return v
        if k == 'Field':
            v = self.pl(e['lhs'])
            if isinstance(v, RefV): v = v.p
            if isinstance(v, Clo): raise Unsupported('field of closure')
            if isinstance(v, (P, R, TupV, Guard)): return self.proj(v, e['name'])
            raise Unsupported('field of ' + type(v).__name__)
        if k == 'Index':
            v = self.pl(e['lhs'])
            if isinstance(v, RefV): v = v.p
            i = self.rv(self.ex(e['index']))
            if isinstance(v, P):
                return v.ext(('i', self.stable(i)), split_ty(v.ty)[1])
            if isinstance(v, R): return self.let(f'sq_get({v.t}, {i.t})', split_ty(v.ty)[1])
            raise Unsupported('index')
        return self.ex(e)

    def stable(self, r):
        """text that does not change when variables are assigned later"""
        if re.match(r'^(\d+\w*|t\d+|a\d+)$', r.t): return r.t
        return self.let(r.t, r.ty).t

    # -------------------------------------------------------------- expressions
    def args(self, es):
        """evaluate arguments left to right"""
        vs = []
        for i, a in enumerate(es):
            v = self.ex(a)
            if any(has_mut(b) for b in es[i + 1:]):
                if isinstance(v, P): v = self.read(v)
                if isinstance(v, R) and v.ty != '()' and not re.match(r'^(t\d+|a\d+|\d+\w*)$', v.t): v = self.let(v.t, v.ty)
            vs.append(v)
        return vs

    def ex(self, e):
        m = getattr(self, 'x_' + e['k'], None)
        if m is None: raise Unsupported(f"expression {e['k']} {e.get('dbg', '')}")
        return m(e)

    def x_Var(self, e):
        v = self.pl(e)
        return v
    def x_Deref(self, e):
        v = self.pl(e)
        if isinstance(v, RefV): return self.read(v.p)
        return v
    def x_Field(self, e): return self.pl(e)
    def x_Index(self, e): return self.pl(e)

    def x_Borrow(self, e):
        v = self.pl(e['arg'])
        if e['m']:
            if isinstance(v, P): return RefV(v)
            if isinstance(v, (R, TupV)):
                r = self.rv(v)
                n = self.tmp('b'); self.emit(f'let mut {n}: {r.ty} = {r.t};'); self.scope.append((n, r.ty))
                return RefV(P(n, r.ty))
            return v
        if isinstance(v, P):
            return self.read(v)
        if isinstance(v, RefV):
            return self.read(v.p)
        return v

    def x_RawBorrow(self, e):
        return self.x_Borrow({'m': True, 'arg': e['arg']})

    def x_Lit(self, e):
        k, v = e['kind'], e['v']
        ty = self.cx.ty(e['ty'], self.frame.subst)
        if k == 'bool': return R(v, 'bool')
        if k == 'int':
            if ty == 'Fl': return self.flit(v, e['neg'])
            m = re.match(r'^(\d+)', v)
            if not m: raise Unsupported('literal ' + v)
            t = m.group(1) + ty
            return R(f'(-{t})' if e['neg'] else t, ty)
        if k == 'float':
            return self.flit(v, e['neg'])
        if k == 'str': return R('mk_str()', 'Str')
        raise Unsupported('literal ' + k)

    def flit(self, v, neg):
        from fractions import Fraction
        fr = Fraction(v)
        if neg: fr = -fr
        key = (fr.numerator, fr.denominator)
        n = 'lit_' + ('m' if fr < 0 else '') + f'{abs(fr.numerator)}_{fr.denominator}'
        self.cx.lits[n] = (fr.numerator, fr.denominator)
        return self.let(f'{n}()', 'Fl')

    def x_Const(self, e):
        p = e['p']
        if p.endswith('::PI'): return self.let('fl_pi()', 'Fl')
        if p.endswith('EPSILON'): return self.let('fl_eps64()', 'Fl')
        if p.endswith('usize>::MAX') or p.endswith('usize::MAX'): return R('usize::MAX', 'usize')
        if p in self.cx.fns:
            return self.ex_in(p, {})
        raise Unsupported('const ' + p)

    def ex_in(self, path, subst):
        return self.inline(path, [], subst)

    def x_Static(self, e): return Static(e['p'])

    def x_Unary(self, e):
        v = self.rv(self.ex(e['arg']))
        if e['op'] == 'Not':
            if v.ty == 'bool': return R(f'!({v.t})', 'bool')
            return R(f'(!{v.t})', v.ty)
        if e['op'] == 'Neg':
            if v.ty == 'Fl': return self.let(f'fl_neg({v.t})', 'Fl')
            return self.let(f'{v.ty}_neg({v.t})', v.ty)
        raise Unsupported('unary ' + e['op'])

    CMP = {'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}
    AR = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}

    def binop(self, op, a, b):
        if a.ty == 'Fl':
            if op in self.AR: return self.let(f'fl_{self.AR[op]}({a.t}, {b.t})', 'Fl')
            if op == 'Ne': return R(f'!fl_eq({a.t}, {b.t})', 'bool') if False else R('!' + self.let(f'fl_eq({a.t}, {b.t})', 'bool').t, 'bool')
            n = {'Eq': 'eq', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}[op]
            return self.let(f'fl_{n}({a.t}, {b.t})', 'bool')
        if a.ty in INTS:
            if op in self.CMP: return R(f'({a.t} {self.CMP[op]} {b.t})', 'bool')
            if op in self.AR:
                return self.let(f'{a.ty}_{self.AR[op]}({a.t}, {b.t})', a.ty)
            if op == 'Shl': return R(f'({a.t} << {b.t})', a.ty)
            if op == 'Shr': return R(f'({a.t} >> {b.t})', a.ty)
            s = {'BitAnd': '&', 'BitOr': '|', 'BitXor': '^'}[op]
            return R(f'({a.t} {s} {b.t})', a.ty)
        if a.ty == 'bool':
            if op in ('Eq', 'Ne'): return R(f'({a.t} {self.CMP[op]} {b.t})', 'bool')
            s = {'BitAnd': '&&', 'BitOr': '||', 'BitXor': '!='}.get(op)
            if s: return R(f'({a.t} {s} {b.t})', 'bool')
        raise Unsupported(f'binary {op} on {a.ty}')

    def x_Binary(self, e):
        a, b = self.args([e['lhs'], e['rhs']])
        a = self.rv(a); b = self.rv(b)
        return self.binop(e['op'], a, b)

    def x_Logical(self, e):
        a = self.rv(self.ex(e['lhs']))
        lines, b = self.sub(lambda: self.rv(self.ex(e['rhs'])))
        op = '&&' if e['op'] == 'And' else '||'
        if not lines: return R(f'({a.t} {op} {b.t})', 'bool')
        n = self.tmp()
        if op == '&&':
            self.emit(f'let {n}: bool = if {a.t} {{'); self.out += lines; self.emit(f'{b.t} }} else {{ false }};')
        else:
            self.emit(f'let {n}: bool = if {a.t} {{ true }} else {{'); self.out += lines; self.emit(f'{b.t} }};')
        self.scope.append((n, 'bool'))
        return R(n, 'bool')

    def x_Cast(self, e):
        v = self.rv(self.ex(e['arg']))
        ty = self.cx.ty(e['ty'], self.frame.subst)
        if {v.ty, ty} == {'usize', 'isize'}: return self.let(f'wrap_{v.ty}({v.t})', ty)
        if v.ty in INTS and ty in INTS: return R(f'({v.t} as {ty})', ty)
        if v.ty in INTS and ty == 'Fl': return self.let(f'fl_of_{v.ty}({v.t})', 'Fl')
        if v.ty == 'Fl' and ty in INTS: return self.let(f'fl_to_{ty}({v.t})', ty)
        if v.ty == ty: return v
        raise Unsupported(f'cast {v.ty} -> {ty}')

    def x_NeverToAny(self, e):
        v = self.ex(e['arg'])
        if isinstance(v, Never): return v
        return v

    def x_Coerce(self, e):
        v = self.ex(e['arg'])
        if isinstance(v, (Clo, FnV)): return v
        ty = self.cx.ty(e['ty'], self.frame.subst)
        if ty == 'TapeV': return self.coerce(v, 'TapeV')
        if ty == 'FuncV':
            r = self.rv(v)
            if r.ty == 'FuncV': return r
            if r.ty == 'FunctionChain': return self.let(f'func_of_chain({r.t})', 'FuncV')
            raise Unsupported('coerce to dyn Function from ' + r.ty)
        return v

    def x_Tuple(self, e):
        if not e['fields']: return UNIT
        vs = self.args(e['fields'])
        if all(isinstance(v, (R, P, RefV)) for v in vs) and not any(isinstance(v, RefV) for v in vs):
            rs = [self.rv(v) for v in vs]
            if len(rs) == 1: return R(f'({rs[0].t},)', f'({rs[0].ty},)')
            return TupV(rs)
        return TupV(vs)

    def x_Array(self, e):
        vs = [self.rv(v) for v in self.args(e['fields'])]
        el = self.cx.ty(e['ty']['t'], self.frame.subst)
        cur = f'sq_new::<{el}>()'
        for v in vs: cur = f'sq_push({cur}, {v.t})'
        return self.let(cur, f'Sq<{el}>')

    def x_Repeat(self, e):
        v = self.rv(self.ex(e['value']))
        m = re.search(r'(\d+)', e['count'])
        if not m: raise Unsupported('repeat count')
        return self.let(f'sq_fill({m.group(1)}usize, {v.t})', f'Sq<{v.ty}>')

    def x_Adt(self, e):
        last = e['adt'].split('::')[-1]
        if last in ('Option', 'Result'):
            if not e['fields']: return R(f'None', e.get('noty') or self.cx.ty(e['ty'], self.frame.subst))
            v = self.ex(e['fields'][0][1])
            if isinstance(v, (It, Clo)): raise Unsupported('Option of iterator')
            r = self.rv(v)
            if last == 'Option': return R(f"Some({r.t})", f'Option<{r.ty}>')
            return R(f"{e['variant']}({r.t})", e.get('noty') or self.cx.ty(e['ty'], self.frame.subst))
        if last in ('Range', 'RangeInclusive'):
            d = {f: x for f, x in e['fields']}
            lo, hi = self.args([d['start'], d['end']])
            return It('range', lo=self.stable(self.rv(lo)), hi=self.stable(self.rv(hi)), ty=self.rv(lo).ty)
        if last == 'RangeFull' and 'ops' in e['adt']: return It('full')
        if last in ('RangeFrom', 'RangeTo') and 'ops' in e['adt']:
            v = self.rv(self.args([e['fields'][0][1]])[0])
            if v.ty != 'usize': raise Unsupported(last)
            return It('from' if last == 'RangeFrom' else 'to', **{'lo' if last == 'RangeFrom' else 'hi': self.stable(v)}, ty='usize')
        if e['adt'] in self.cx.adts:
            n = self.cx.use_adt(e['adt'], [], {})
            ft = dict(self.cx.adt_fields(e['adt'], e['variant'])) 
            vs = self.args([x for _, x in e['fields']])
            parts = []
            for (f, _), v in zip(e['fields'], vs):
                if isinstance(v, (Clo, FnV, PyClo)): r = R('opaque()', 'Opaque')
                else: r = self.rv(self.coerce(v, ft[f]))
                parts.append(f'{f}: {r.t}')
            if e['base']:
                b = self.rv(self.ex(e['base']))
                have = {f for f, _ in e['fields']}
                parts += [f'{f}: {b.t}.{f}' for f in ft if f not in have]
            if e['isenum']:
                if not parts: return R(f"{n}::{e['variant']}", n)
                if e['fields'][0][0].isdigit():
                    return R(f"{n}::{e['variant']}(" + ', '.join(p.split(': ', 1)[1] for p in parts) + ')', n)
                return R(f"{n}::{e['variant']} {{ " + ', '.join(parts) + ' }', n)
            return self.let(f'{n} {{ ' + ', '.join(parts) + ' }', n)
        if last == 'AssertKind': return R('opaque()', 'Opaque')
        raise Unsupported('adt ' + e['adt'])

    def x_Closure(self, e):
        ov = {}
        for u in e.get('upvars', []):
            if u['k'] == 'Var':     # by-value capture
                v = self.frame.env.get(u['v'])
                if isinstance(v, P) and not v.projs:
                    n = v.root + '_' + self.tmp('c')
                    self.emit(f'let mut {n}: {v.ty} = {v.root};'); self.scope.append((n, v.ty))
                    ov[u['v']] = P(n, v.ty)
        return Clo(e['p'], self.frame, ov)

    def x_FnRef(self, e): return FnV(e)
    def x_Zst(self, e): raise Unsupported('zst')

    def x_Assign(self, e):
        r = self.ex(e['rhs'])
        l = self.pl(e['lhs'])
        self.assign(l, r)
        return UNIT

    def assign(self, l, r):
        if isinstance(l, RefV): l = l.p
        if isinstance(l, View_):
            raise Unsupported('assign view')
        if not isinstance(l, P): raise Unsupported('assignment to ' + type(l).__name__)
        r = self.rv(self.coerce(r, l.ty))
        self.write(l, r.t)

    def x_AssignOp(self, e):
        # for primitives the right operand is evaluated first
        r = self.rv(self.ex(e['rhs']))
        r = R(self.stable(r), r.ty)
        l = self.pl(e['lhs'])
        if isinstance(l, RefV): l = l.p
        if not isinstance(l, P): raise Unsupported('op-assign target')
        op = e['op'].replace('Assign', '')
        v = self.binop(op, self.read(l), r)
        self.write(l, v.t)
        return UNIT

    # ------------------------------------------------------------- blocks
    def x_Block(self, e):
        self.guards.append([])
        v = self.block(e['stmts'], e['e'])
        if isinstance(v, Never):
            self.release_scope(dead=True); return v
        if self.guards[-1] and any(not g.released for g in self.guards[-1]):
            if isinstance(v, (P,)): v = self.read(v)
            if isinstance(v, R) and v.ty != '()' : v = self.let(v.t, v.ty)
            elif isinstance(v, TupV): v = self.rv(v); v = self.let(v.t, v.ty)
        self.release_scope()
        return v

    def block(self, stmts, tail):
        for i, st in enumerate(stmts):
            self.stmt_guards.append([])
            if st['k'] == 'Let':
                if st['init'] is None:
                    p = st['pat']
                    if p['k'] != 'Bind': raise Unsupported('let without initialiser')
                    n = self.var_name(p['var']); ty = self.cx.ty(p['ty'], self.frame.subst)
                    self.emit(f'let mut {n}: {ty};'); self.scope.append((n, ty))
                    self.frame.env[p['var']] = P(n, ty)
                    self.stmt_guards.pop(); continue
                if st['else']:
                    rest = stmts[i + 1:]
                    els = st['else']
                    body = {'k': 'Block', 'stmts': rest, 'e': tail, 'label': None, 'ty': None}
                    sc = self.ex(st['init'])
                    v = self.match(sc, st['init'], [{'pat': st['pat'], 'guard': None, 'body': body}, {'pat': {'k': 'Wild', 'ty': None}, 'guard': None, 'body': els}], None)
                    self.pop_stmt()
                    return v
                v = self.ex(st['init'])
                if isinstance(v, Never): self.stmt_guards.pop(); return v
                if isinstance(v, Guard):
                    self.stmt_guards[-1] = [g for g in self.stmt_guards[-1] if g is not v]
                    self.guards[-1].append(v)
                if isinstance(v, P): v = self.read(v)
                if not self.is_irref(st['pat']): raise Unsupported('refutable let')
                if isinstance(v, R) and st['pat']['k'] == 'Bind' and st['pat']['mode'].startswith('BindingMode(No'):
                    want = self.cx.ty(st['pat']['ty'], self.frame.subst)
                    if v.ty == 'Option<?>' and not want.startswith('#'): v = R(v.t, want)
                self.bind_pat(st['pat'], v)
                self.pop_stmt()
            else:
                e = st['e']
                v = self.ex(e)
                if isinstance(v, Never):
                    self.stmt_guards.pop(); return v
                if isinstance(v, R) and ('(' in v.t) and not re.match(r'^\(\)$', v.t) and v.ty == '()':
                    self.emit(v.t + ';')
                self.pop_stmt()
        if tail is None: return UNIT
        return self.ex(tail)

    def pop_guards(self, v):
        """end of a function body: temporaries die, except a guard that is returned"""
        l = self.stmt_guards.pop()
        for g in l:
            if g is v: self.stmt_guards[-1].append(g)
            else: self.release(g)

    def pop_stmt(self):
        for g in self.stmt_guards.pop(): self.release(g)

    def release(self, g):
        if g.released: return
        g.released = True
        r = self.read(g.place)
        if g.kind == 'map': self.emit(f'w = w_unlock_map(w, {r.t});')
        else: self.emit(f'w = w_unlock(w, {g.handle}, {r.t});')
        self.mark_mod('w')

    def release_scope(self, dead=False):
        sc = self.guards.pop()
        for g in reversed(sc):
            if dead: g.released = True
            else: self.release(g)

    # ----------------------------------------------------------------- control
    def branch(self, fn, want_ty):
        """translate branch; returns (lines, V)"""
        def go():
            self.stmt_guards.append([])
            v = fn()
            if isinstance(v, P): v = self.read(v)
            if isinstance(v, Never): self.stmt_guards.pop()
            else: self.pop_stmt()
            return v
        return self.sub(go)

    def join(self, ty, branches, render):
        """branches: list of (lines, V). render(list of final texts)->emits"""
        vs = [v for _, v in branches if not isinstance(v, Never)]
        if not vs:
            texts = []
            for l, v in branches: texts.append((l, None))
            render(None, texts); return Never()
        if any(isinstance(v, (Clo, RefV, Guard, FnV)) for v in vs): raise Unsupported('branches yield a reference or closure')
        if all(isinstance(v, TupV) and all(isinstance(x, R) for x in v.el) for v in vs) or all(isinstance(v, (R, TupV, It)) for v in vs):
            pass
        outs = []
        rty = None
        isit = any(isinstance(v, It) for v in vs)
        for l, v in branches:
            if isinstance(v, Never): outs.append((l, None)); continue
            save, self.out = self.out, l
            nsc = len(self.scope)
            r = self.rv(v)
            del self.scope[nsc:]
            l = self.out; self.out = save
            if rty is None or ('?' in rty): rty = r.ty if not r.ty.startswith('!') else rty
            outs.append((l, r.t))
        if rty is None: rty = '()'
        if rty == '()':
            render('()', [(l, '' if t is not None else None) for l, t in outs]); return UNIT
        n = self.tmp()
        if rty.startswith('#'): raise Unsupported('branch value of type ' + rty)
        if ty and not ty.startswith('#') and ('?' in rty): rty = ty
        render(n + ': ' + rty, [(l, 'any_val()' if t is None else t) for l, t in outs])
        self.scope.append((n, rty))
        r = R(n, rty)
        if isit: return It('seq', t=n, ty=split_ty(rty)[1])
        return r

    def x_If(self, e):
        return self.if_(e['cond'], lambda: self.ex(e['then']), (lambda: self.ex(e['els'])) if e['els'] else (lambda: UNIT), e)

    def if_(self, cond, then, els, e):
        if cond['k'] == 'LetCond':
            sc = self.pl(cond['e'])
            return self.match_fn(sc, [(cond['pat'], None, then), ({'k': 'Wild', 'ty': None}, None, els)], e)
        if cond['k'] == 'Logical' and cond['op'] == 'And' and contains(cond, ('LetCond',), ('Closure',)):
            return self.if_(cond['lhs'], lambda: self.if_(cond['rhs'], then, els, e), els, e)
        c = self.rv(self.ex(cond))
        a = self.branch(then, e); b = self.branch(els, e)
        def render(n, outs):
            self.emit((f'let {n} = ' if n and n != '()' else '') + f'if {c.t} {{')
            self.out += outs[0][0]
            if outs[0][1]: self.emit(outs[0][1])
            self.emit('} else {')
            self.out += outs[1][0]
            if outs[1][1]: self.emit(outs[1][1])
            self.emit('}' + (';' if n and n != '()' else ''))
        return self.join(self.cx.ty(e['ty'], self.frame.subst) if e.get('ty') else None, [a, b], render)

    def x_LetCond(self, e):
        sc = self.pl(e['e'])
        return self.match_fn(sc, [(e['pat'], None, lambda: R('true', 'bool')), ({'k': 'Wild', 'ty': None}, None, lambda: R('false', 'bool'))], {'ty': {'k': 'prim', 'n': 'bool'}})

    def x_Match(self, e):
        src = e['src']
        if src == 'ForLoopDesugar': return self.for_loop(e)
        if 'TryDesugar' in src: return self.try_(e)
        sc = self.pl(e['scrut'])
        return self.match(sc, e['scrut'], e['arms'], e)

    def try_(self, e):
        """`x?`: an ordinary match that returns early"""
        sc = e['scrut']
        if sc['k'] != 'Call' or not sc['p'].endswith('branch'): raise Unsupported('? operator')
        inner = sc['args'][0]
        cont = [a for a in e['arms'] if a['pat']['k'] == 'Variant' and a['pat']['variant'] == 'Continue']
        if len(cont) != 1: raise Unsupported('? operator')
        cont = cont[0]
        v = self.pl(inner)
        if isinstance(v, Never): return v
        r = self.rv(v)
        kind, ts = split_ty(r.ty)
        self.ntmp += 1
        if kind == 'Option':
            ret = {'k': 'Return', 'value': {'k': 'Adt', 'adt': 'std::option::Option', 'variant': 'None', 'isenum': True, 'fields': [], 'base': None, 'ty': None, 'noty': self.ret_here()}}
            ok = {'k': 'Variant', 'adt': 'std::option::Option', 'variant': 'Some', 'subs': cont['pat']['subs'], 'ty': None}
            bad = {'k': 'Wild', 'ty': None}
        elif kind == 'Result':
            var = f'err_{self.ntmp}'
            et = None
            ity = inner.get('ty') or {}
            if ity.get('k') == 'adt' and len(ity.get('a', [])) == 2: et = ity['a'][1]
            ok = {'k': 'Variant', 'adt': 'std::result::Result', 'variant': 'Ok', 'subs': cont['pat']['subs'], 'ty': None}
            bad = {'k': 'Variant', 'adt': 'std::result::Result', 'variant': 'Err', 'subs': [['0', {'k': 'Bind', 'name': 'e', 'var': var, 'mode': 'BindingMode(No, Not)', 'sub': None, 'ty': et}]], 'ty': None}
            ret = {'k': 'Return', 'value': {'k': 'Adt', 'adt': 'std::result::Result', 'variant': 'Err', 'isenum': True, 'fields': [['0', {'k': 'Var', 'v': var, 'ty': et}]], 'base': None, 'ty': None, 'noty': self.ret_here()}}
        else: raise Unsupported('? on ' + r.ty)
        return self.match_fn(r, [(ok, None, lambda: self.ex(cont['body'])), (bad, None, lambda: self.ex(ret))], e)

    def ret_here(self): return self.ret_ty

    def match(self, sc, scrut, arms, e):
        return self.match_fn(sc, [(a['pat'], a['guard'], (lambda a=a: self.ex(a['body']))) for a in arms], e)

    def match_fn(self, sc, arms, e):
        if isinstance(sc, RefV): sc = sc.p
        arms = [(q, g, b) for p, g, b in arms for q in or_alternatives(p)]
        p0 = arms[0][0]
        if isinstance(sc, Never): return sc
        # irrefutable first arm
        if self.is_irref(p0) and arms[0][1] is None:
            self.bind_pat(p0, sc)
            return arms[0][2]()
        if isinstance(sc, (It, Clo, FnV)): raise Unsupported('match on iterator')
        place = sc if isinstance(sc, P) else None
        val = self.rv(sc)
        if not place and not re.match(r'^[\w.]+$', val.t): val = R(self.stable(val), val.ty)
        ty = self.cx.ty(e['ty'], self.frame.subst) if e and e.get('ty') else None
        def arm_thunk(binds, body, guard, rest):
            def go():
                for p, v in binds: self.bind_pat(p, v)
                if guard is None: return body()
                return self.if_(guard, body, lambda: self.match_fn(sc, rest, e), e)
            return go
        out = []
        for i, (p, g, b) in enumerate(arms):
            binds = []
            txt = self.pat_text(p, place if place is not None else None, binds)
            out.append((txt, self.branch(arm_thunk(binds, b, g, arms[i + 1:]), e)))
            if g is not None:
                if txt != '_':
                    out.append(('_', self.branch(lambda: self.match_fn(sc, arms[i + 1:], e), e)))
                break
        def render(n, outs):
            self.emit((f'let {n} = ' if n and n != '()' else '') + f'match {val.t} {{')
            for (txt, _), (l, t) in zip(out, outs):
                self.emit(f'{txt} => {{')
                self.out += l
                if t: self.emit(t)
                self.emit('}')
            self.emit('}' + (';' if n and n != '()' else ''))
        return self.join(ty, [b for _, b in out], render)

    def x_Return(self, e):
        if not self.toplevel: raise Unsupported('return inside an inlined function')
        v = self.ex(e['value']) if e['value'] else UNIT
        if isinstance(v, Never): return v
        t = self.ret_val(v)
        for sc in reversed(self.guards):
            for g in reversed(sc):
                if not g.released:
                    r = self.read(g.place)
                    self.emit(f'w = w_unlock(w, {g.handle}, {r.t});' if g.kind != 'map' else f'w = w_unlock_map(w, {r.t});'); self.mark_mod('w')
        self.emit(f'/*RETEARLY*/ {t}')
        return Never()

    def x_Break(self, e):
        if e['value']: raise Unsupported('break with value')
        if not self.loopctx: raise Unsupported('break outside loop')
        self.loopctx[-1]['brk'] = True
        if self.loopctx[-1].get('nobreak'): raise Unsupported('break in a fused loop')
        self.emit('break;')
        return Never()

    def x_Continue(self, e):
        lc = self.loopctx[-1]
        if lc.get('step'): self.emit(lc['step'])
        self.emit('continue;')
        return Never()

    loopctx = []

    # ----------------------------------------------------------------- loops
    def raw_loop(self, head, idx, bound, body_fn, decr, kind, pre_lines=None, step=None, nobreak=False, lo='0'):
        """head: 'while c' or 'loop'; body_fn emits the body."""
        mod = set()
        self.loopstack.append(mod)
        self.loopctx = self.loopctx + [{'brk': False, 'step': step, 'nobreak': nobreak}]
        scope = list(self.scope)
        def go():
            body_fn()
            if step: self.emit(step)
        lines, _ = self.sub(go)
        lc = self.loopctx[-1]
        self.loopctx = self.loopctx[:-1]
        self.loopstack.pop()
        if idx: mod.add(idx)
        outer_names = {n for n, _ in scope}
        mods = [(n, t) for n, t in dict(scope).items() if n in mod]
        lp = Loop(head, idx, bound, lines, mods, scope, decr, lc['brk'], [], kind, 0, lo=lo)
        lp.id = len(self.loops)
        lp.outer = self.cur_loop_idx[-1] if self.cur_loop_idx else None
        self.loops.append(lp)
        self.emit(lp)

    cur_loop_idx = []

    def stepped(self, e):
        """(variable, iterator) when e is `it.next()` or `it.next_back()` on an iterator bound in a variable at this nesting depth"""
        while e['k'] in ('Use', 'NeverToAny'): e = e['arg']
        if e['k'] != 'Call' or e['p'].rsplit('::', 1)[-1] not in ('next', 'next_back') or len(e['args']) != 1: return None
        a = e['args'][0]
        while a['k'] == 'Borrow' or (a['k'] == 'Deref' and a['arg']['k'] == 'Borrow'): a = a['arg']
        if a['k'] != 'Var': return None
        it = self.frame.env.get(a['v'])
        if not isinstance(it, It) or it.kind in ('from_fn', 'spent') or getattr(it, 'depth', None) != self.depth: return None
        return a['v'], (It('rev', it=it) if e['p'].endswith('next_back') else it)

    def step(self, e):
        """one `next()` outside a loop: the first element, and the iterator without it"""
        var, it = self.stepped(e)
        f = self.index_form(it)
        if f is None: raise Unsupported('next on ' + it.kind)
        def first():
            v = self.flat(f[1](self.let('0usize', 'usize').t))
            if not isinstance(v, (R, TupV)): raise Unsupported('next on an iterator of mutable references')
            return self.rv(v)
        lines, r = self.sub(first)
        n = self.tmp('nx'); ty = f'Option<{r.ty}>'
        self.emit(f'let {n}: {ty} = if 0 < {f[0]} {{'); self.out += lines; self.emit(f'Some({r.t}) }} else {{ None }};')
        rest = It('skip', it=it, n='1usize')
        if e['p'].endswith('next_back'): rest = It('rev', it=rest)
        rest.depth = self.depth
        self.frame.env[var] = rest
        return R(n, ty)

    def x_Loop(self, e):
        b = e['body']
        # while let Some(p) = it.next() { body }: a for loop over the rest of it
        if b['k'] == 'Block' and not b['stmts'] and b['e'] and b['e']['k'] == 'If' and self.is_break_block(b['e']['els']):
            c = b['e']['cond']
            if c['k'] == 'LetCond' and c['pat']['k'] == 'Variant' and c['pat']['variant'] == 'Some' and (st := self.stepped(c['e'])):
                var, it = st
                pat = c['pat']['subs'][0][1]
                def item(v):
                    if isinstance(v, P): v = self.read(v)
                    if not self.is_irref(pat): raise Unsupported('while let pattern')
                    self.bind_pat(pat, v)
                    self.ex(b['e']['then'])
                self.frame.env[var] = It('spent')
                self.drive(it, item, brk_ok=True)
                return UNIT
        # while: loop { if c { body } else { break } }
        if b['k'] == 'Block' and not b['stmts'] and b['e'] and b['e']['k'] == 'If' and self.is_break_block(b['e']['els']):
            c = b['e']['cond']
            if not contains(c, ('LetCond',), ('Closure',)):
                mods_probe = None
                lines, cv = self.sub(lambda: self.rv(self.ex(c)))
                head = f'while {cv.t}' if not lines else ('while', lines, cv.t)
                self.raw_loop(head, None, None, lambda: self.ex(b['e']['then']), [] if set(re.findall(r'\w+', cv.t)) & set(re.findall(r'let (?:mut )?(\w+)', '\n'.join(x for x in lines if isinstance(x, str)))) else self.decr_of(c, cv), 'while')
                return UNIT
        def body():
            self.ex(b)
        self.raw_loop('loop', None, None, body, [], 'loop')
        if not self.loops[-1].has_break: 
            return Never()
        return UNIT

    def is_break_block(self, e):
        if e is None: return False
        if e['k'] == 'NeverToAny': return self.is_break_block(e['arg'])
        if e['k'] == 'Break': return e['value'] is None
        if e['k'] == 'Block':
            if len(e['stmts']) == 1 and not e['e']: 
                return e['stmts'][0]['k'] == 'Expr' and self.is_break_block(e['stmts'][0]['e'])
            if not e['stmts'] and e['e']: return self.is_break_block(e['e'])
        return False

    def decr_of(self, c, cv):
        m = re.match(r'^\((\S+) (<|<=|>|>=|!=) (\S+)\)$', cv.t)
        if not m: return []
        a, o, b = m.groups()
        if o in ('<', '<='): return [f'{b} - {a}']
        if o in ('>', '>='): return [f'{a} - {b}']
        return [f'{a} - {b}', f'{b} - {a}']

    def for_loop(self, e):
        it = self.ex(e['scrut'])
        arm = e['arms'][0]
        lp = arm['body']
        while lp['k'] == 'Block' and not lp['stmts']: lp = lp['e']
        if lp['k'] != 'Loop': raise Unsupported('for desugaring')
        m = lp['body']
        while m['k'] == 'Block':
            if m['stmts'] and not m['e'] and len(m['stmts']) == 1: m = m['stmts'][0]['e']
            elif not m['stmts']: m = m['e']
            else: raise Unsupported('for desugaring')
        some = [a for a in m['arms'] if a['pat']['k'] == 'Variant' and a['pat']['variant'] == 'Some'][0]
        pat = some['pat']['subs'][0][1]; body = some['body']
        it = self.to_iter(it)
        def item(v):
            if isinstance(v, P): v = self.read(v)
            if not self.is_irref(pat): raise Unsupported('for pattern')
            self.bind_pat(pat, v)
            self.ex(body)
        self.drive(it, item, brk_ok=True)
        return UNIT

    # --------------------------------------------------------- iterators
    def to_iter(self, v):
        if isinstance(v, It): return v
        if isinstance(v, RefV):
            p = v.p
            n, el = split_ty(p.ty)
            if n == 'Sq': return It('seqmut', place=p, ty=el)
            return self.to_iter(self.read(p))
        if isinstance(v, P): v = self.read(v)
        if isinstance(v, R):
            n, el = split_ty(v.ty)
            if n == 'Sq': return It('seq', t=self.stable(v), ty=el)
            if n == 'Option':
                raise Unsupported('iterate Option')
        raise Unsupported('not an iterator: ' + str(v))

    def itv(self, v):
        if isinstance(v, It): return v
        return self.to_iter(v)

    def index_form(self, it):
        """(len text, lo, item(i_text)->V) for pipelines with random access, else None"""
        k = it.kind
        if k == 'seq':
            n = self.let(f'sq_len({it.t})', 'usize').t
            return n, lambda i: self.let(f'sq_get({it.t}, {i})', it.ty), ('seq', it.t)
        if k == 'seqmut':
            r = self.read(it.place)
            n = self.let(f'sq_len({r.t})', 'usize').t
            return n, lambda i: RefV(it.place.ext(('i', i), it.ty)), ('seqmut', None)
        if k == 'range':
            if it.lo.startswith('0'): return it.hi, lambda i: R(i, it.ty), ('range0', None)
            n = self.let(f'{it.ty}_range_len({it.lo}, {it.hi})', 'usize').t
            return n, lambda i: self.let(f'({it.lo} + {i})', it.ty), ('range', None)
        if k == 'rangei':
            n = self.let(f'usize_incl_len({it.lo}, {it.hi})', 'usize').t
            return n, lambda i: R(i, 'usize') if it.lo == '0usize' else self.let(f'({it.lo} + {i}) as usize', 'usize'), ('range', None)
        if k == 'from':
            return 'usize::MAX', lambda i: self.let(f'usize_add({it.lo}, {i})', 'usize'), ('range', None)
        if k == 'map':
            f = self.index_form(it.it)
            if f is None: return None
            return f[0], lambda i: self.call_v(it.f, [f[1](i)]), f[2]
        if k == 'enumerate':
            f = self.index_form(it.it)
            if f is None: return None
            return f[0], lambda i: TupV([R(i, 'usize'), self.flat(f[1](i))]), f[2]
        if k == 'zip':
            f = self.index_form(it.a); g = self.index_form(it.b)
            if f is None or g is None: return None
            n = self.let(f'usize_min({f[0]}, {g[0]})', 'usize').t
            return n, lambda i: TupV([self.flat(f[1](i)), self.flat(g[1](i))]), f[2]
        if k == 'rev':
            f = self.index_form(it.it)
            if f is None: return None
            return f[0], lambda i: f[1](self.let(f'({f[0]} - 1 - {i}) as usize', 'usize').t), f[2]
        if k == 'take':
            f = self.index_form(it.it)
            if f is None: return None
            n = self.let(f'usize_min({f[0]}, {it.n})', 'usize').t
            return n, f[1], f[2]
        if k == 'skip':
            f = self.index_form(it.it)
            if f is None: return None
            n = self.let(f'usize_satsub({f[0]}, {it.n})', 'usize').t
            return n, lambda i: f[1](self.let(f'({i} + {it.n}) as usize', 'usize').t), f[2]
        if k == 'step':
            f = self.index_form(it.it)
            if f is None: return None
            n = self.let(f'usize_div_ceil({f[0]}, {it.n})', 'usize').t
            return n, lambda i: f[1](self.let(f'usize_mul({i}, {it.n})', 'usize').t), f[2]
        if k == 'inspect': return None
        return None

    def flat(self, v):
        if isinstance(v, P): return self.read(v)
        return v

    def drive(self, it, item, brk_ok=False):
        k = it.kind
        if k == 'filter':
            def f(v):
                v = self.flat(v)
                if isinstance(v, R): v = R(self.stable(v), v.ty)
                c = self.rv(self.call_v(it.f, [v]))
                lines, _ = self.sub(lambda: item(v))
                self.emit(f'if {c.t} {{'); self.out += lines; self.emit('}')
            return self.drive(it.it, f, brk_ok)
        if k == 'filter_map':
            def f(v):
                c = self.rv(self.call_v(it.f, [self.flat(v)]))
                c = R(self.stable(c), c.ty)
                n = self.tmp('p')
                lines, _ = self.sub(lambda: item(R(n, split_ty(c.ty)[1])))
                self.emit(f'match {c.t} {{ Some({n}) => {{'); self.out += lines; self.emit('} None => {} }')
            return self.drive(it.it, f, brk_ok)
        if k == 'map':
            ix = self.try_index(it)
            if ix is None:
                return self.drive(it.it, lambda v: item(self.call_v(it.f, [self.flat(v)])), brk_ok)
            return self.drive_ix(ix, item)
        if k == 'take_while':
            if it.it.kind in ('chain', 'once', 'flat_map'): raise Unsupported('take_while over ' + it.it.kind)
            def f(v):
                v = self.flat(v)
                if isinstance(v, R): v = R(self.stable(v), v.ty)
                c = self.rv(self.call_v(it.f, [v]))
                self.emit(f'if !({c.t}) {{ break; }}')
                self.loopctx[-1]['brk'] = True
                item(v)
            return self.drive(it.it, f, brk_ok)
        if k == 'chain':
            if brk_ok: it = It('seq', t=self.collect(it).t, ty=None); raise Unsupported('for over chain')
            self.drive(it.a, item); self.drive(it.b, item); return
        if k == 'once':
            if brk_ok: raise Unsupported('for over once')
            item(it.v); return
        if k == 'flat_map':
            if brk_ok: raise Unsupported('for over flat_map')
            def f(v):
                sub = self.call_v(it.f, [self.flat(v)])
                self.drive(self.to_iter(sub), item)
            return self.drive(it.it, f)
        if k == 'from_fn':
            def body():
                o = self.call_v(it.f, [])
                o = self.rv(o); o = R(self.stable(o), o.ty)
                n = self.tmp('p')
                lines, _ = self.sub(lambda: item(R(n, split_ty(o.ty)[1])))
                self.emit(f'match {o.t} {{ Some({n}) => {{'); self.out += lines; self.emit('} None => { break; } }')
                self.loopctx[-1]['brk'] = True
            self.raw_loop('loop', None, None, body, [], 'from_fn')
            return
        ix = self.try_index(it)
        if ix is None:
            # materialise the non-indexable part
            it2 = self.materialise(it)
            ix = self.try_index(it2)
            if ix is None: raise Unsupported('iterator ' + k)
        return self.drive_ix(ix, item)

    def materialise(self, it):
        """replace the innermost non-indexable sources by collected sequences"""
        it = copy.copy(it)
        if it.kind in ('filter', 'filter_map', 'chain', 'flat_map', 'once', 'take_while'):
            r = self.collect(it)
            return It('seq', t=r.t, ty=split_ty(r.ty)[1])
        for a in ('it', 'a', 'b'):
            if hasattr(it, a): setattr(it, a, self.materialise(getattr(it, a)))
        return it

    def try_index(self, it):
        def ok(it):
            if it.kind in ('seq', 'seqmut', 'range', 'rangei', 'from'): return True
            if it.kind in ('map', 'enumerate', 'rev', 'take', 'skip', 'step'): return ok(it.it)
            if it.kind == 'zip': return ok(it.a) and ok(it.b)
            return False
        return self.index_form(it) if ok(it) else None

    def drive_ix(self, ix, item):
        n, get, base = ix
        i = self.tmp('i')
        self.emit(f'let mut {i}: usize = 0;'); self.scope.append((i, 'usize'))
        def body():
            self.cur_loop_idx = self.cur_loop_idx + [(i, n)]
            # the element is taken with the current index, then the index moves on
            # (so that `continue` behaves)
            k = self.tmp('k')
            self.emit(f'let {k}: usize = {i};'); self.emit(f'{i} = {i} + 1;')
            self.scope.append((k, 'usize'))
            item(self.flat(get(k)))
            self.cur_loop_idx = self.cur_loop_idx[:-1]
        self.raw_loop(f'while {i} < {n}', i, n, body, [f'{n} - {i}'], 'index')

    def collect(self, it, elty=None):
        if it.kind == 'seq': return R(it.t, f'Sq<{it.ty}>')
        acc = self.tmp('acc')
        pos = len(self.out)
        self.emit('/*ACCDECL*/')
        ty = [None]
        sp = len(self.scope)
        self.scope.append((acc, '?'))
        # element type found while translating
        def item(v):
            r = self.rv(v)
            ty[0] = r.ty
            for s in [self.scope]:
                for q in range(len(s)):
                    if s[q][0] == acc: s[q] = (acc, f'Sq<{r.ty}>')
            self.emit(f'{acc} = sq_push({acc}, {r.t});'); self.mark_mod(acc)
        self.drive(it, item)
        if ty[0] is None: raise Unsupported('empty collect')
        st = f'Sq<{ty[0]}>'
        self.out[pos] = f'let mut {acc}: {st} = sq_new::<{ty[0]}>();'
        for q in range(len(self.scope)):
            if self.scope[q][0] == acc: self.scope[q] = (acc, st)
        for lp in self.loops:
            lp.scope = [(n, st if n == acc else t) for n, t in lp.scope]
            lp.mod = [(n, st if n == acc else t) for n, t in lp.mod]
        return R(acc, st)

    # ---------------------------------------------------------- calls
    def call_v(self, f, args):
        """call closure / fn item value with already evaluated args"""
        if isinstance(f, PyClo): return f.f(self, args)
        if isinstance(f, Clo):
            c = self.cx.fns[f.path]
            self.depth += 1
            if self.depth > 40: raise Unsupported('inlining depth')
            save = self.frame
            self.inl += 1
            fr = Frame(f.path, f.frame.subst); fr.suffix = f'i{self.inl}'
            fr.env = ChainEnv(f.overlay, f.frame.env)
            self.frame = fr
            params = c['params'][1:]
            if len(params) == 1 and len(args) != 1: raise Unsupported('closure arity')
            for p, a in zip(params, args):
                if p['pat']:
                    self.bind_pat(p['pat'], a)
            tl = self.toplevel; self.toplevel = False
            lc = self.loopctx; self.loopctx = []
            b = elim_returns(c['body'])
            self.stmt_guards.append([])
            v = self.ex(b)
            if isinstance(v, Never): self.stmt_guards.pop()
            else: self.pop_guards(v)
            self.loopctx = lc
            self.toplevel = tl
            if isinstance(v, P): v = self.read(v)
            self.frame = save
            self.depth -= 1
            return v
        if isinstance(f, FnV):
            return self.call_path(f.e, args)
        if isinstance(f, (R, P)) and self.rv(f).ty == 'CloV':          # a closure kept in a struct: an arbitrary function of its argument
            r = self.rv(f); a = [self.rv(x).t for x in args]
            t = self.tmp(); self.emit(f"let {t} = clo_call(w, {r.t}, {', '.join(a)});"); self.emit(f'w = {t}.1;'); self.mark_mod('w')
            return R(f'{t}.0', 'Sq<AFloat>')
        raise Unsupported('call of ' + type(f).__name__)

    def inline(self, path, args, subst):
        c = self.cx.fns[path]
        self.depth += 1
        if self.depth > 40: raise Unsupported('inlining depth ' + path)
        self.cx.inlined.add(path)
        save = self.frame
        self.inl += 1
        fr = Frame(path, subst); fr.suffix = f'i{self.inl}'
        self.frame = fr
        for p, a in zip(c['params'], args):
            if p['pat']:
                ty = self.cx.ty(p['ty'], subst)
                if ty == 'Mat' and isinstance(a, RefV):
                    if a.p.ty != 'Mat': raise Unsupported('mutable argument of another representation')
                elif ty == 'Mat': a = self.coerce(a, ty)
                self.bind_pat(p['pat'], a)
        tl = self.toplevel; self.toplevel = False
        lc = self.loopctx; self.loopctx = []
        self.guards.append([]); self.stmt_guards.append([])
        v = self.ex(elim_returns(c['body']))
        if isinstance(v, Never): self.release_scope(dead=True); self.stmt_guards.pop()
        else: self.release_scope(); self.pop_guards(v)
        self.loopctx = lc
        self.toplevel = tl
        if isinstance(v, P) and False: v = self.read(v)
        self.frame = save
        self.depth -= 1
        return v

    def x_CallDyn(self, e):
        f = self.pl(e['fun'])
        if isinstance(f, (Clo, FnV, PyClo)):
            return self.call_v(f, self.args(e['args']))
        return self.call_v(f, self.args(e['args']))

    def x_Call(self, e):
        if self.stepped(e): return self.step(e)
        return self.call_path(e, None)

    def call_path(self, e, vs):
        from ext import handle, kind_of
        p = e['p']; res = (e.get('res') or {})
        rp = res.get('p')
        fns = self.cx.fns
        con = self.cx.contracts.get(p)
        if con and con.get('call') and p not in fns: return con['call'](self, self.args(e['args']) if vs is None else vs)
        target = rp if rp in fns and fns[rp].get('kind') != 'Closure' else (p if p in fns and not self.is_abstract(p, e) else None)
        sub = None
        if target is None and rp is None and e.get('ga'):
            # unresolved trait method on a type parameter that stands for a concrete type here
            st = self.cx.ty(e['ga'][0], self.frame.subst)
            if st == 'AFloat':
                q = self.cx.afloat_impl(p)
                if q: target = q; sub = {'S': 'Fl', 'Self': 'AFloat', 'T': 'Fl'}
        if target and not self.special_local(target):
            if vs is None: vs = self.args(e['args'])
            if target.startswith('function::Function::') and vs and not isinstance(vs[0], (Clo, FnV, PyClo, It)) and self.rv(vs[0]).ty == 'FuncV':
                return handle(self, e, p, None, vs)     # the implementation may override the default method
            if sub is None:
                names = fns[target].get('generics') or []
                a = (res.get('a') if rp == target else e.get('ga')) or []
                names = [n for n in names if not n.startswith("'")]
                sub = {n: self.cx.ty(t, self.frame.subst) for n, t in zip(names, a) if isinstance(t, dict) and t.get('k') != 'const'}
                for n, t in zip(names, a):
                    if isinstance(t, dict) and t.get('k') in ('prim', 'param'): sub['kind:' + n] = kind_of(self.cx, t, self.frame.subst)
            return self.call_local(target, vs, sub)
        return handle(self, e, p, rp, vs)

    def special_local(self, p): return 'CONTEXT_MAP' in p

    def is_abstract(self, p, e):
        """trait method with a default body called on an unknown implementation"""
        return False

    def call_local(self, path, vs, sub):
        con = self.cx.contracts.get(path)
        f = self.cx.fns[path]
        if con and con.get('call'): return con['call'](self, vs)
        # trait default methods see their receiver through the abstract view
        if f.get('trait') == 'tape::Tape' and vs:
            vs = [self.tape_recv(vs[0], f)] + list(vs[1:])
            sub = dict(sub); sub['Self'] = 'TapeV'
        if con is None or con.get('inline'):
            return self.inline(path, vs, sub)
        o = self.cx.translate(path)
        args = []
        muts = {i: None for i, _, _ in o.muts}
        ptys = dict(o.params)
        for i, v in enumerate(vs):
            if f'a{i}' not in ptys: raise Unsupported('uninterpreted argument')
            if i in muts:
                if not isinstance(v, RefV): raise Unsupported('mutable argument')
                muts[i] = v.p
            r = self.rv(self.coerce(v, ptys[f'a{i}']))
            if r.ty != ptys[f'a{i}'] and '?' not in r.ty and r.ty != '!': raise Unsupported(f'argument type {r.ty} for {ptys[f"a{i}"]} in {path}')
            args.append(r.t)
        if o.world: args = ['w'] + args
        txt = f"{o.name}({', '.join(args)})"
        if len(o.outs) == 1:
            if o.ret == '()': self.emit(txt + ';'); return UNIT
            return self.let(txt, o.ret)
        n = self.tmp()
        self.emit(f'let {n} = {txt};')
        k = 1
        if o.world:
            self.emit(f'w = {n}.{k};'); self.mark_mod('w'); k += 1
        for i, _, _ in o.muts:
            self.write(muts[i], f'{n}.{k}'); k += 1
        if o.ret == '()': return UNIT
        r = R(f'{n}.0', o.ret)
        self.scope.append((f'{n}.0', o.ret))
        return r

    def tape_recv(self, v, f):
        """receiver of a Tape default method: the abstract view of the implementation"""
        if isinstance(v, RefV):
            if v.p.ty == 'TapeV': return v
            raise Unsupported('mutable receiver of concrete tape type')
        return self.as_tape(v)

    def as_tape(self, v):
        r = self.rv(v)
        if r.ty == 'TapeV': return r
        ap = self.cx.adt_by_name(r.ty)
        if not ap: raise Unsupported('tape view of ' + r.ty)
        return self.as_tape_fn(ap, r)

    def as_tape_fn(self, ap, r):
        con = self.cx.contracts.get('as_tape:' + ap)
        key = 'as_tape:' + ap
        if key not in self.cx.done:
            o = make_as_tape(self.cx, ap)
        o = self.cx.done[key]
        return self.let(f'{o.name}({r.t})', 'TapeV')


class ChainEnv(dict):
    def __init__(self, overlay, parent):
        super().__init__(); self.ov, self.par = overlay, parent
    def get(self, k, d=None):
        if k in self: return dict.__getitem__(self, k)
        if k in self.ov: return self.ov[k]
        return self.par.get(k, d)


def find_impl(cx, adtname, method):
    for p, f in cx.fns.items():
        if f.get('impl_trait') == 'tape::Tape' and f.get('name') == method and f['impl_self'].get('p') == adtname:
            return p
    return None


def make_as_tape(cx, ap):
    """abstract view of a Tape implementation, computed by its own accessors"""
    key = 'as_tape:' + ap
    n = cx.adt_name(ap)
    t = Tr.__new__(Tr)
    Tr.__init__(t, cx, find_impl(cx, ap, 'indeps'))
    t.modified = set(); t.world = False; t.toplevel = False
    t.frame = Frame('as_tape', {'S': 'Fl'})
    t.scope.append(('a0', n))
    t.guards.append([])
    vals = {}
    for m, f in (('indeps', 'indeps'), ('deps', 'deps'), ('values', 'vals'), ('ops_iter', 'ops')):
        p = find_impl(cx, ap, m)
        if not p: raise Unsupported(f'no {m} for {ap}')
        v = t.inline(p, [R('a0', n)], {'S': 'Fl'})
        vals[f] = t.rv(v).t
    o = FnOut(); o.path = key; o.name = 'as_tape_' + n
    o.params = [('a0', n)]; o.outs = [('ret', 'TapeV')]; o.ret = 'TapeV'; o.muts = []; o.world = False
    txt = 'TapeV { ' + ', '.join(f'{k}: {v}' for k, v in vals.items()) + ' }'
    con = cx.contracts.get(key) or {}
    if con.get('proof_end'):
        t.emit(f'let r_ = {txt}; proof {{ {t.subst_proof(con["proof_end"], o)} }}'); txt = 'r_'
    t.emit(txt)
    o.lines = t.out; o.loops = t.loops; o.extra = []
    cx.done[key] = o; cx.order.append(key)
    return o


def elim_returns(e):
    """move early returns of an inlined body into tail position"""
    if not contains(e, ('Return',), ('Closure',)): return e
    return tail(e)

def tail(e):
    """e is in tail position"""
    k = e['k']
    if not contains(e, ('Return',), ('Closure',)): return e
    if k == 'Return': return tail(e['value']) if e['value'] else {'k': 'Tuple', 'fields': [], 'ty': {'k': 'tuple', 'a': []}}
    if k == 'NeverToAny': return tail(e['arg'])
    if k == 'If':
        e = dict(e); e['then'] = tail(e['then'])
        if e['els']: e['els'] = tail(e['els'])
        if contains(e['cond'], ('Return',), ('Closure',)): raise Unsupported('return in condition')
        return e
    if k == 'Match':
        if e['src'] == 'ForLoopDesugar': raise Unsupported('return inside a loop of an inlined function')
        e = dict(e); e['arms'] = [dict(a, body=tail(a['body'])) for a in e['arms']]
        return e
    if k == 'Block':
        e = dict(e)
        st = e['stmts']
        for i, s in enumerate(st):
            x = s.get('e') if s['k'] == 'Expr' else s.get('init')
            if x is None or not contains(x, ('Return',), ('Closure',)): continue
            if s['k'] != 'Expr': raise Unsupported('return in let initialiser of inlined function')
            rest = {'k': 'Block', 'stmts': st[i + 1:], 'e': e['e'], 'label': None, 'ty': e.get('ty')}
            x = push(x, rest)
            e['stmts'] = st[:i]; e['e'] = tail(x)
            return e
        if e['e']: e['e'] = tail(e['e'])
        return e
    raise Unsupported('return inside ' + k)

def push(x, rest):
    """sequence x; rest where x may return: put rest after the non-returning exits"""
    k = x['k']
    if k == 'Return': return x
    if not contains(x, ('Return',), ('Closure',)):
        return {'k': 'Block', 'stmts': [{'k': 'Expr', 'e': x}], 'e': rest, 'label': None, 'ty': rest.get('ty')}
    if k == 'NeverToAny': return push(x['arg'], rest)
    if k == 'If':
        x = dict(x); x['ty'] = rest.get('ty')
        x['then'] = push(x['then'], rest)
        x['els'] = push(x['els'], rest) if x['els'] else rest
        return x
    if k == 'Match' and x['src'] != 'ForLoopDesugar':
        x = dict(x); x['ty'] = rest.get('ty')
        x['arms'] = [dict(a, body=push(a['body'], rest)) for a in x['arms']]
        return x
    if k == 'Block':
        x = dict(x); x['ty'] = rest.get('ty')
        if x['e']:
            x['e'] = push(x['e'], rest)
        else:
            # last statement decides
            st = list(x['stmts'])
            for i, s in enumerate(st):
                y = s.get('e') if s['k'] == 'Expr' else s.get('init')
                if y is None or not contains(y, ('Return',), ('Closure',)): continue
                if s['k'] != 'Expr': raise Unsupported('return in let initialiser')
                rest2 = {'k': 'Block', 'stmts': st[i + 1:], 'e': rest, 'label': None, 'ty': rest.get('ty')}
                x['stmts'] = st[:i]; x['e'] = push(y, rest2)
                return x
        return x
    raise Unsupported('return inside ' + k)


def subst_contract(t, o, r):
    """$r, $w, $a0 (before), $a0p (after) -> Verus"""
    idx = {n[0]: i for i, n in enumerate(o.outs)}
    one = len(o.outs) == 1
    def rep(m):
        k = m.group(1)
        if k in ('r', 'R'): return r if one else f'{r}.0'
        if k == 'w': return f'{r}.{idx["w"]}' if 'w' in idx else 'NOWORLD'
        if k == 'w0': return 'w0'
        m2 = re.match(r'^(a\d+)p$', k)
        if m2:
            if k in idx: return f'{r}.{idx[k]}'
            return m2.group(1)
        return k
    return re.sub(r'\$(r|R|w0|w|a\d+p?)\b', rep, t)
