"""The C++ wrapper: clang's syntax tree of /repo/src/cxx -> Verus functions over an explicit heap.

Every pointer is a Ptr; every load, store, allocation and release is a primitive whose contract
says what memory it needs.  Class objects live at addresses, so aliasing (x = x) is ordinary.
Destructors of locals and temporaries are inserted where the language runs them.  Functions
without a contract are expanded at the call; anything else is Unsupported (undecided)."""
import re
from translate import FnOut, Unsupported

def norm(t):
    t = re.sub(r'\badv::|\b::|\bstruct |\bclass ', '', t).replace('::adv_', 'adv_').strip()
    t = re.sub(r'^::', '', t)
    return re.sub(r'\s+', ' ', t)

class V:
    def __init__(s, t, ty): s.t, s.ty = t, ty
class Place:
    """an lvalue: kind var / field; class lvalues are kind obj with the address as base"""
    def __init__(s, kind, base, ty, field=None): s.kind, s.base, s.ty, s.field = kind, base, ty, field

SKIP = ('ParenExpr', 'ConstantExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'FullExpr', 'SubstNonTypeTemplateParmExpr', 'ImplicitValueInitExpr_')

class Unit:
    def __init__(self, asts, classes):
        self.decl = {}      # id -> (key, class or None, node)
        self.defs = {}      # key -> (class, node)
        self.fields = {}    # id -> (record key, name, type)
        self.classes = classes
        self.records = {}   # record key -> [(name, type)]
        self.inits = {}     # field id -> default initialiser
        for a in asts:
            for ns in a['inner']:
                if ns.get('kind') == 'NamespaceDecl' and ns.get('name') == 'adv':
                    for n in ns.get('inner', []): self.top(n, None)
                if ns.get('kind') == 'LinkageSpecDecl':
                    for n in ns.get('inner', []):
                        if n.get('kind') == 'FunctionDecl': self.decl[n['id']] = (n['name'], None, n)

    def params(self, n): return [p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']
    def key(self, n, cls):
        nm = n.get('name', '')
        return (cls + '::' if cls else '') + nm + '(' + ', '.join(norm(p['type']['qualType']) for p in self.params(n)) + ')'

    def top(self, n, cls):
        k = n.get('kind')
        if k == 'CXXRecordDecl':
            name = n.get('name')
            if cls is None and n.get('parentDeclContextId') in self.byid(): name = self.byid()[n['parentDeclContextId']] + '::' + name   # struct ADouble::Impl, out of line
            elif cls is not None: name = cls + '::' + name
            self.byid()[n['id']] = name
            if n.get('previousDecl') and name.split('::')[-1] == n.get('name') and '::' not in name and n['previousDecl'] in self.byid(): name = self.byid()[n['previousDecl']]; self.byid()[n['id']] = name
            if not n.get('completeDefinition'): return
            self.records[name] = []
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    self.records[name].append((c['name'], norm(c['type']['qualType'])))
                    self.fields[c['id']] = (name, c['name'], norm(c['type']['qualType']))
                    if c.get('inner'): self.inits[(name, c['name'])] = c['inner'][0]
                elif c.get('kind') in ('FriendDecl',):
                    for d in c.get('inner', []): self.top(d, None)
                elif not c.get('isImplicit'): self.top(c, name)
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl'):
            if k != 'FunctionDecl' and cls is None:
                p = self.decl.get(n.get('previousDecl'))
                cls = p[1] if p else self.byid().get(n.get('parentDeclContextId'))
            key = self.key(n, cls if k != 'FunctionDecl' else None)
            if k != 'FunctionDecl' and n.get('storageClass') == 'static': raise Unsupported('static member ' + key)
            self.decl[n['id']] = (key, cls, n)
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])): self.defs[key] = (cls, n)
        elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', []): self.top(c, None)
        elif k == 'FunctionTemplateDecl': pass

    def byid(self):
        if not hasattr(self, '_byid'): self._byid = {}
        return self._byid


class Fn:
    def __init__(self, u, cx, key, contracts):
        self.u, self.cx, self.key, self.contracts = u, cx, key, contracts
        self.out = []; self.k = 0; self.temps = []; self.scopes = []; self.depth = 0

    def tmp(self): self.k += 1; return f't{self.k}'
    def emit(self, s): self.out.append(s)
    def let(self, e, ty): t = self.tmp(); self.emit(f'let {t}: {ty} = {e};'); return t
    def prim(self, name, args, ty=None):
        """a primitive or function that changes the heap; ty: model type of its result"""
        a = ', '.join(['w'] + args)
        t = self.tmp(); self.emit(f'let {t} = {name}({a});')
        if ty is None: self.emit(f'w = {t};'); return None
        self.emit(f'w = {t}.1;'); return f'{t}.0'

    # ------------------------------------------------------------------ types
    def is_class(self, t):
        t = norm(t); t = re.sub(r'^const ', '', t)
        return t if t in self.u.classes else None
    def mty(self, t):
        t = norm(t)
        if t.endswith('&') or t.endswith('*') or t.endswith('*const') or t == 'nullptr_t' or 'nullptr_t' in t: return 'Ptr'
        b = re.sub(r'^const ', '', t)
        if b in self.u.classes: return 'Ptr'
        if b in ('double', 'float'): return 'Fl'
        if b == 'bool': return 'bool'
        if b == 'void': return '()'
        raise Unsupported('type ' + t)

    # ------------------------------------------------------------------ places
    def load(self, p):
        if isinstance(p, V): return p
        if p.kind == 'var': return V(p.base, p.ty)
        if p.kind == 'obj': return V(p.base, 'Ptr')
        return V(self.let(f'{p.field}_get(w, {p.base})', 'Ptr'), 'Ptr')
    def store(self, p, v):
        if p.kind == 'var': self.emit(f'{p.base} = {v.t};')
        elif p.kind == 'field': self.prim(p.field + '_set', [p.base, v.t])
        else: raise Unsupported('store')
    FIELD = {('ADouble', 'm_impl'): 'ad', ('ADouble::Impl', 'val'): 'ai', ('AContext', 'm_impl'): 'ac', ('AContext::Impl', 'ctx'): 'ci'}

    def field(self, rec, name, base):
        fs = self.u.records.get(rec) or []
        if len(fs) != 1 or not fs[0][1].endswith('*'): raise Unsupported(f'fields of {rec}')
        if rec in ('ADouble', 'AContext'): return Place('field', base, 'Ptr', {'ADouble': 'ad', 'AContext': 'ac'}[rec])
        if rec in ('ADouble::Impl', 'AContext::Impl'): return Place('field', base, 'Ptr', {'ADouble::Impl': 'ai', 'AContext::Impl': 'ci'}[rec])
        raise Unsupported('field of ' + rec)

    # ------------------------------------------------------------- expressions
    def rv(self, n): return self.load(self.ex(n))
    def addr(self, n):
        """address of a class object"""
        p = self.ex(n)
        if isinstance(p, Place) and p.kind == 'obj': return p.base
        if isinstance(p, V) and p.ty == 'Ptr': return p.t
        raise Unsupported('address')

    def ex(self, n):
        k = n['kind']; inner = [c for c in n.get('inner', []) if c.get('kind')]
        if k in SKIP or k == 'ExprWithCleanups' or k == 'MaterializeTemporaryExpr': return self.ex(inner[-1])
        f = getattr(self, 'e_' + k, None)
        if not f: raise Unsupported('C++ ' + k)
        return f(n, inner)

    def e_ImplicitCastExpr(self, n, inner):
        c = n.get('castKind')
        if c == 'LValueToRValue': return self.load(self.ex(inner[0]))
        if c in ('NoOp', 'BitCast', 'ConstructorConversion', 'FunctionToPointerDecay', 'UserDefinedConversion'): return self.ex(inner[0])
        if c == 'NullToPointer': return V('null()', 'Ptr')
        if c == 'PointerToBoolean': return V(f'!ptr_eq({self.rv(inner[0]).t}, null())', 'bool')
        if c == 'IntegralToFloating' and inner[0]['kind'] == 'IntegerLiteral': return self.lit(int(inner[0]['value']))
        raise Unsupported('cast ' + str(c))
    def lit(self, v):
        from fractions import Fraction
        f = Fraction(v); nm = 'lit_' + ('m' if f < 0 else '') + f'{abs(f.numerator)}_{f.denominator}'
        self.cx.lits[nm] = (f.numerator, f.denominator)
        return V(self.let(nm + '()', 'Fl'), 'Fl')
    def e_FloatingLiteral(self, n, inner): return self.lit(float(n['value']))
    def e_CXXNullPtrLiteralExpr(self, n, inner): return V('null()', 'Ptr')
    def e_CXXBoolLiteralExpr(self, n, inner): return V('true' if n['value'] else 'false', 'bool')
    def e_CXXThisExpr(self, n, inner): return V(self.this, 'Ptr')
    def e_DeclRefExpr(self, n, inner):
        d = n['referencedDecl']
        if d['id'] in self.env: return self.env[d['id']]
        raise Unsupported('reference to ' + d.get('name', '?'))
    def e_MemberExpr(self, n, inner):
        f = self.u.fields.get(n.get('referencedMemberDecl'))
        if not f: raise Unsupported('member ' + n.get('name', '?'))
        b = self.ex(inner[0])
        base = self.load(b).t if n.get('isArrow') else (b.base if isinstance(b, Place) else b.t)
        return self.field(f[0], f[1], base)
    def e_UnaryOperator(self, n, inner):
        o = n['opcode']
        if o == '*':
            t = norm(n['type']['qualType'])
            v = self.rv(inner[0])
            if self.is_class(t): return Place('obj', v.t, 'Ptr')
            if t.split('::')[-1].replace('const ', '') == 'Impl': return v
            raise Unsupported('dereference of ' + t)
        if o == '&':
            p = self.ex(inner[0])
            if isinstance(p, Place) and p.kind == 'obj': return V(p.base, 'Ptr')
            return p          # the place itself, for an out argument
        if o == '!': return V(f'!({self.rv(inner[0]).t})', 'bool')
        raise Unsupported('unary ' + o)
    def e_BinaryOperator(self, n, inner):
        o = n['opcode']
        if o == '=':
            # C++14 leaves the order open; clang evaluates as written right-hand operand first only for overloaded forms, so require it not to matter
            r = self.rv(inner[1]); p = self.ex(inner[0])
            if not isinstance(p, Place): raise Unsupported('assignment target')
            self.store(p, r); return p
        if o == ',': self.ex(inner[0]); return self.ex(inner[1])
        if o in ('&&', '||'):
            a = self.rv(inner[0]); save, self.out = self.out, []
            b = self.rv(inner[1]); body, self.out = self.out, save
            r = self.tmp(); self.emit(f'let mut {r}: bool = {a.t};')
            self.emit(f"if {'' if o == '&&' else '!'}{r} {{")
            for x in body: self.emit(x)
            self.emit(f'{r} = {b.t};'); self.emit('}')
            return V(r, 'bool')
        a, b = self.rv(inner[0]), self.rv(inner[1])
        if o in ('==', '!=') and a.ty == 'Ptr': return V(('!' if o == '!=' else '') + f'ptr_eq({a.t}, {b.t})', 'bool')
        if a.ty == 'Fl' and o in ('<', '>', '<=', '>=', '==', '!='):
            return V(self.let({'<': f'fl_lt({a.t}, {b.t})', '>': f'fl_lt({b.t}, {a.t})', '<=': f'fl_le({a.t}, {b.t})', '>=': f'fl_le({b.t}, {a.t})', '==': f'fl_eq({a.t}, {b.t})', '!=': f'!fl_eq({a.t}, {b.t})'}[o], 'bool'), 'bool')
        if a.ty == 'Fl' and o in '+-*/': return V(self.let(f"fl_{dict(zip('+-*/', ('add', 'sub', 'mul', 'div')))[o]}({a.t}, {b.t})", 'Fl'), 'Fl')
        raise Unsupported('binary ' + o)
    def e_ConditionalOperator(self, n, inner):
        if self.is_class(n['type']['qualType']):
            c = self.rv(inner[0]); r = self.tmp(); pr = n.get('valueCategory') == 'prvalue'
            self.emit(f'let mut {r}: Ptr;')
            for head, x in ((f'if {c.t} {{', inner[1]), ('} else {', inner[2])):
                self.emit(head); save, self.temps = self.temps, []
                v = self.ex(x); b = v.base if isinstance(v, Place) else v.t
                if pr: self.temps = [y for y in self.temps if y[0] != b]
                if self.temps: raise Unsupported('temporaries in a conditional')
                if pr and isinstance(v, Place) and v.kind != 'obj': raise Unsupported('conditional')
                self.temps = save; self.emit(f'{r} = {b};')
            self.emit('}')
            return V(r, 'Ptr') if pr else Place('obj', r, 'Ptr')
        c = self.rv(inner[0]); r = self.tmp()
        self.emit(f"let mut {r}: {self.mty(n['type']['qualType'])};")
        self.emit(f'if {c.t} {{'); a = self.rv(inner[1]); self.emit(f'{r} = {a.t};'); self.emit('} else {'); b = self.rv(inner[2]); self.emit(f'{r} = {b.t};'); self.emit('}')
        return V(r, a.ty)
    def e_CXXNewExpr(self, n, inner):
        t = norm(n['type']['qualType'])
        rec = self.cls + '::Impl'
        if t != 'Impl *' and t != rec + ' *': raise Unsupported('new ' + t)
        f = {'ADouble::Impl': 'ai', 'AContext::Impl': 'ci'}[rec]
        p = self.prim(f + '_new', [], 'Ptr')
        if self.u.inits.get((rec, self.u.records[rec][0][0])): raise Unsupported('default member initialiser')
        if inner:
            i = inner[-1]
            while i['kind'] in ('ExprWithCleanups',): i = i['inner'][-1]
            if i['kind'] == 'InitListExpr':
                vs = [c for c in i.get('inner', []) if c.get('kind')]
                for c in vs: self.prim(f + '_set', [p, 'null()' if c['kind'] == 'ImplicitValueInitExpr' else self.rv(c).t])
            elif i['kind'] == 'CXXConstructExpr':
                if i.get('inner'): raise Unsupported('constructor of Impl')
                if i.get('zeroing'): self.prim(f + '_set', [p, 'null()'])
            else: raise Unsupported('initialiser of new')
        return V(p, 'Ptr')
    def e_CXXDeleteExpr(self, n, inner):
        v = self.rv(inner[0])
        t = norm(self.ptr_type(inner[0]))
        if t not in ('Impl *', self.cls + '::Impl *', 'Impl *const'): raise Unsupported('delete ' + t)
        self.prim({'ADouble': 'ai', 'AContext': 'ci'}[self.cls] + '_delete', [v.t])
        return V('()', '()')
    def ptr_type(self, n): return n['type']['qualType']

    def slot(self): return self.prim('slot', [], 'Ptr')
    def e_CXXBindTemporaryExpr(self, n, inner):
        v = self.ex(inner[0])
        if not isinstance(v, V): return v
        cls = self.is_class(n['type']['qualType'])
        self.temps.append((v.t, cls))
        return Place('obj', v.t, 'Ptr')
    def e_CXXTemporaryObjectExpr(self, n, inner): return self.e_CXXConstructExpr(n, inner)
    def e_CXXConstructExpr(self, n, inner):
        cls = self.is_class(n['type']['qualType'])
        if not cls: raise Unsupported('construction of ' + n['type']['qualType'])
        if n.get('elidable'):           # the temporary is the object
            p = self.ex(inner[0])
            if isinstance(p, Place) and p.kind == 'obj' and any(t == p.base for t, _ in self.temps):
                self.temps = [x for x in self.temps if x[0] != p.base]
                return V(p.base, 'Ptr')
            if isinstance(p, V): return p
            a = p.base
            s = self.slot(); self.call(f"{cls}::{cls}({cls} &&)" if '&&' in n['ctorType']['qualType'] else f'{cls}::{cls}(const {cls} &)', [s, a]); return V(s, 'Ptr')
        s = self.slot()
        self.construct(cls, n, inner, s)
        return V(s, 'Ptr')
    def construct(self, cls, n, inner, at):
        m = re.match(r'^void \((.*)\)( noexcept)?$', n['ctorType']['qualType'])
        key = f'{cls}::{cls}(' + ', '.join(norm(x) for x in m.group(1).split(',') if x.strip() and x.strip() != 'void') + ')'
        self.call(key, [at] + [self.arg(c) for c in inner if c['kind'] != 'CXXDefaultArgExpr'])
    def arg(self, n):
        p = self.ex(n)
        if isinstance(p, Place) and p.kind == 'obj': return p.base
        if isinstance(p, Place): return self.load(p).t if not p.kind == 'field' else self.load(p).t
        return p.t

    def callee(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
        if n['kind'] == 'DeclRefExpr': return n['referencedDecl']['id'], n['referencedDecl'].get('name'), None
        if n['kind'] == 'MemberExpr': return n['referencedMemberDecl'], n.get('name'), n
        raise Unsupported('callee')
    def e_CXXOperatorCallExpr(self, n, inner): return self.e_CallExpr(n, inner)
    def e_CXXMemberCallExpr(self, n, inner): return self.e_CallExpr(n, inner)
    def e_CallExpr(self, n, inner):
        did, name, mem = self.callee(inner[0])
        args = inner[1:]
        d = self.u.decl.get(did)
        if d is None:
            if name == 'move' or name == 'forward': return self.ex(args[0])
            if name == 'addressof':
                p = self.ex(args[0]); return V(p.base, 'Ptr') if isinstance(p, Place) and p.kind == 'obj' else p
            if name == 'exchange':
                p = self.ex(args[0]); old = self.load(p); new = self.rv(args[1]); self.store(p, new); return old
            if name == 'swap':
                p, q = self.ex(args[0]), self.ex(args[1])
                if all(isinstance(x, Place) and x.kind in ('var', 'field') for x in (p, q)):
                    a, b = self.load(p), self.load(q)
                    a = V(self.let(a.t, a.ty), a.ty); b = V(self.let(b.t, b.ty), b.ty)
                    self.store(p, b); self.store(q, a); return V('()', '()')
            raise Unsupported('call of ' + str(name))
        key, cls, node = d
        if key.startswith('adv_'):
            a = []; out = None
            for p, x in zip(self.u.params(node), args):
                if norm(p['type']['qualType']).endswith('**'):
                    out = self.ex(x)
                    if not isinstance(out, Place) or out.kind == 'obj': raise Unsupported('out argument')
                else: a.append(self.rv(x).t)
            ret = norm(node['type']['qualType']).split('(')[0].strip()
            if out is not None:
                self.store(out, V(self.prim('x_' + key, a, 'Ptr'), 'Ptr')); return V('()', '()')
            if ret == 'void': self.prim('x_' + key, a); return V('()', '()')
            return V(self.prim('x_' + key, a, 'Ptr'), 'Ptr')
        vs = []
        if mem is not None:
            b = self.ex(mem['inner'][0])
            vs.append(self.load(b).t if mem.get('isArrow') else (b.base if isinstance(b, Place) else b.t))
        vs += [self.arg(x) for x in args]
        rt = norm(node['type']['qualType'].split('(')[0]) if not name.startswith('operator') else norm(re.split(r'\(', node['type']['qualType'])[0])
        r = self.call(key, vs)
        if rt.endswith('&') and self.is_class(rt.rstrip('&').strip()): return Place('obj', r.t, 'Ptr')
        return r

    def call(self, key, vs):
        con = self.contracts.get(key)
        if con is None or con.get('inline'): return self.inline(key, vs)
        if key not in self.u.defs: raise Unsupported('no definition of ' + key)
        o = translate(self.u, self.cx, key, self.contracts)
        t = self.tmp(); self.emit(f"let {t} = {o.name}({', '.join(['w'] + vs)});"); self.emit(f'w = {t}.1;')
        return V(f'{t}.0', o.ret)

    def inline(self, key, vs):
        if key not in self.u.defs: raise Unsupported('no definition of ' + key)
        cls, node = self.u.defs[key]
        self.depth += 1
        if self.depth > 12: raise Unsupported('recursion')
        save = (self.this, self.env, self.cls, self.temps, self.scopes, self.retvar)
        env = dict(); ps = self.u.params(node)
        method = cls is not None and node['kind'] != 'FunctionDecl'
        if method: self.this = vs[0]; self.cls = cls; vs = vs[1:]
        for p, v in zip(ps, vs): env[p['id']] = self.param(p, v)
        self.env = env; self.temps = []; self.scopes = []
        self.retvar = self.tmp(); rt = self.mty(node['type']['qualType'].split('(')[0].strip() or 'void') if node['kind'] not in ('CXXConstructorDecl', 'CXXDestructorDecl') else '()'
        if rt != '()': self.emit(f'let mut {self.retvar}: {rt};')
        body = self.body_of(node)
        rets = count_returns(body)
        if rets > 1 or rets == 1 and (not body.get('inner') or body['inner'][-1]['kind'] != 'ReturnStmt'): raise Unsupported('early return in an expanded function')
        self.ctor_inits(node, cls)
        self.scopes.append([]); self.block(body); self.leave()
        self.scopes.pop()
        if node['kind'] == 'CXXDestructorDecl': self.prim({'ADouble': 'ad', 'AContext': 'ac'}[cls] + '_end', [self.this])
        rv = self.retvar
        (self.this, self.env, self.cls, self.temps, self.scopes, self.retvar) = save
        self.depth -= 1
        return V(rv, rt) if rt != '()' else V('()', '()')

    def param(self, p, v):
        t = norm(p['type']['qualType'])
        if t.endswith('**') or (t.endswith('*&') or t.endswith('* &')): raise Unsupported('parameter ' + t)
        if self.is_class(t.rstrip('&').strip()): return Place('obj', v, 'Ptr')
        x = self.tmp(); self.emit(f'let mut {x}: {self.mty(t)} = {v};')
        return Place('var', x, self.mty(t))

    def body_of(self, node): return [c for c in node['inner'] if c.get('kind') == 'CompoundStmt'][0]
    def ctor_inits(self, node, cls):
        if node['kind'] != 'CXXConstructorDecl': return
        seen = False
        for i in [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']:
            e = [c for c in i['inner'] if c.get('kind')][0]
            if i.get('anyInit'):
                f = self.u.fields.get(i['anyInit']['id'])
                if not f: raise Unsupported('initialiser')
                while e['kind'] == 'ExprWithCleanups': e = e['inner'][-1]
                if e['kind'] == 'InitListExpr': e = e['inner'][0]
                v = V('null()', 'Ptr') if e['kind'] == 'ImplicitValueInitExpr' else self.rv(e)
                self.store(self.field(f[0], f[1], self.this), v); seen = True
            else:
                while e['kind'] in ('ExprWithCleanups',): e = e['inner'][-1]
                if e['kind'] != 'CXXConstructExpr': raise Unsupported('initialiser')
                self.construct(cls, e, [c for c in e.get('inner', []) if c.get('kind')], self.this); seen = True
            self.end_full()
        for nm, ty in self.u.records[cls]:
            if not seen and self.u.inits.get((cls, nm)):
                e = self.u.inits[(cls, nm)]
                self.store(self.field(cls, nm, self.this), self.rv(e))

    # --------------------------------------------------------------- statements
    def end_full(self):
        for t, c in reversed(self.temps): self.call(f'{c}::~{c}()', [t])
        self.temps = []
    def leave(self):
        for t, c in reversed(self.scopes[-1]): self.call(f'{c}::~{c}()', [t])
    def block(self, n):
        for c in n.get('inner', []): self.stmt(c)
    def stmt(self, n):
        k = n['kind']; inner = [c for c in n.get('inner', []) if c.get('kind')]
        if k == 'CompoundStmt':
            self.scopes.append([]); self.block(n)
            if not ends(n): self.leave()
            self.scopes.pop(); return
        if k == 'NullStmt': return
        if k == 'DeclStmt':
            for d in inner:
                if d['kind'] in ('StaticAssertDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl'): continue
                if d['kind'] != 'VarDecl' or d.get('storageClass') == 'static': raise Unsupported('declaration ' + d['kind'])
                t = norm(d['type'].get('desugaredQualType') or d['type']['qualType']); q = norm(d['type']['qualType'])
                i = [c for c in d.get('inner', []) if c.get('kind')]
                c = self.is_class(q)
                if c:
                    v = self.ex(i[-1])
                    if isinstance(v, Place):
                        if any(t_ == v.base for t_, _ in self.temps): self.temps = [x for x in self.temps if x[0] != v.base]
                        else: raise Unsupported('class initialiser')
                        a = v.base
                    else: a = v.t
                    self.env[d['id']] = Place('obj', a, 'Ptr'); self.scopes[-1].append((a, c))
                elif q.endswith('&') or q.endswith('&&'):
                    p = self.ex(i[-1])
                    if isinstance(p, Place) and p.kind == 'obj' and any(t_ == p.base for t_, _ in self.temps):
                        self.temps = [x for x in self.temps if x[0] != p.base]; self.scopes[-1].append((p.base, self.is_class(q.rstrip('&').strip())))
                    self.env[d['id']] = p
                else:
                    x = self.tmp(); ty = self.mty(t)
                    if i:
                        v = self.rv(i[-1]); self.emit(f'let mut {x}: {ty} = {v.t};')
                    else: self.emit(f'let mut {x}: {ty} = any_val();')
                    self.env[d['id']] = Place('var', x, ty)
                self.end_full()
            return
        if k == 'ReturnStmt':
            if inner:
                p = self.ex(inner[0])
                v = V(p.base, 'Ptr') if isinstance(p, Place) and p.kind == 'obj' else self.load(p)
                if isinstance(p, Place) and p.kind == 'obj': self.temps = [x for x in self.temps if x[0] != p.base]
                if not v.t.startswith('t') or '.' in v.t: v = V(self.let(v.t, v.ty), v.ty) if v.ty != '()' else v
                self.end_full()
            else: v = V('()', '()')
            if self.retvar:
                if v.ty != '()': self.emit(f'{self.retvar} = {v.t};')
                return
            for s in reversed(self.scopes):
                for t, c in reversed(s): self.call(f'{c}::~{c}()', [t])
            self.finish()
            self.emit(f'return ({v.t}, w);')
            return
        if k == 'IfStmt':
            if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with initialiser')
            c = self.rv(inner[0]); self.end_full()
            self.emit(f'if {c.t} {{'); self.scoped(inner[1]); self.emit('} else {')
            if len(inner) > 2: self.scoped(inner[2])
            self.emit('}'); return
        if k.endswith('Expr') or k.endswith('Operator') or k == 'ExprWithCleanups':
            e = n
            self.ex(e); self.end_full(); return
        raise Unsupported('C++ ' + k)
    def scoped(self, n):
        self.scopes.append([]); env = dict(self.env)
        self.stmt(n)
        if not ends(n): self.leave()
        self.scopes.pop(); self.env = env
    def finish(self):
        if self.node['kind'] == 'CXXDestructorDecl': self.prim({'ADouble': 'ad', 'AContext': 'ac'}[self.cls] + '_end', [self.this])

    def run(self):
        cls, node = self.u.defs[self.key]
        self.node, self.cls, self.env, self.retvar = node, cls, {}, None
        method = node['kind'] != 'FunctionDecl'
        o = FnOut(); o.path = self.key; o.world = True
        o.name = 'f_' + re.sub(r'_+', '_', re.sub(r'[^A-Za-z0-9]', lambda m: {'+': 'plus', '-': 'minus', '*': 'star', '/': 'slash', '~': 'dtor', '=': 'eq', '&': 'r'}.get(m.group(0), '_'), self.key))
        ps = [('w0', 'World')]
        self.emit('let mut w: World = w0;')
        self.this = 'a0' if method else None
        if method: ps.append(('a0', 'Ptr'))
        for i, p in enumerate(self.u.params(node)):
            a = f'a{i + (1 if method else 0)}'
            ps.append((a, self.mty(p['type']['qualType']))); self.env[p['id']] = self.param(p, a)
        rt = '()' if node['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl') else self.mty(node['type']['qualType'].split('(')[0].strip())
        o.ret = rt; o.params = ps; o.outs = [('ret', rt), ('w', 'World')]; o.muts = []; o.extra = []
        self.cx.done[self.key] = o        # known by its contract while its body is read
        body = self.body_of(node)
        self.ctor_inits(node, cls)
        self.scopes.append([]); self.block(body)
        if not ends(body):
            self.leave(); self.finish(); self.emit('((), w)' if rt == '()' else 'any_val()')
        o.lines = self.out; o.loops = []
        self.cx.order.append(self.key)
        return o


def ends(n):
    """does control never fall out of the end of n?"""
    if n['kind'] == 'ReturnStmt': return True
    if n['kind'] == 'CompoundStmt': return bool(n.get('inner')) and ends(n['inner'][-1])
    if n['kind'] == 'IfStmt':
        i = [c for c in n['inner'] if c.get('kind')]
        return len(i) > 2 and ends(i[1]) and ends(i[2])
    return False
def count_returns(n):
    if not isinstance(n, dict): return 0
    return (1 if n.get('kind') == 'ReturnStmt' else 0) + sum(count_returns(c) for c in n.get('inner', []))

def translate(u, cx, key, contracts):
    if key in cx.done: return cx.done[key]
    f = Fn(u, cx, key, contracts)
    try: return f.run()
    except Exception:
        cx.done.pop(key, None); raise


def build(file, cx, asts):
    u = Unit(asts['asts'], ['ADouble', 'AContext'])
    for r in file.spec['roots']:
        if r not in u.defs: file.unsupported[r] = 'not present'; continue
        try: translate(u, cx, r, cx.contracts)
        except Unsupported as e: file.unsupported[r] = str(e)
        except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
            file.unsupported[r] = f'translator: {type(e).__name__} {e}'
            import os
            if os.environ.get('VC_DEBUG'): raise

def keep(ast):
    """the parts of a translation unit that belong to the wrapper"""
    return {'inner': [n for n in ast['inner'] if (n.get('kind') == 'NamespaceDecl' and n.get('name') == 'adv') or (n.get('kind') == 'LinkageSpecDecl' and any(str(c.get('name', '')).startswith('adv_') for c in n.get('inner', [])))]}
