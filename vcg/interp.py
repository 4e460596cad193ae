"""Expression and statement execution over clang's AST, library models, loops."""
import z3
from core import *
import core
import lib as _lib  # noqa  (attached below)


def inner(n):
    return n.get('inner', [])


PASS = ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
        'FullExpr')


class Interp(Ex):
    # ============================================================ expressions
    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if k in PASS:
                return self.ev(inner(n)[0])
            raise Unsupported('expression ' + k)
        return m(n)

    def ty(self, n):
        t = self.types.of(n.get('type'))
        if n.get('kind') == 'CXXOperatorCallExpr' and len(inner(n)) == 2:
            u = t.a if t.k in ('lref', 'ptr') else t
            if u is not None and u.k == 'opaque':
                # operator-> and operator* of smart pointers: the type as the pointer names it
                p = self.ty(inner(n)[1])
                p = p.a if p.k == 'lref' else p
                if p.k == 'ptr':
                    return p if t.k == 'ptr' else p.a
        return t

    def cond(self, n):
        """evaluate a condition; && || ! are merged when side-effect free"""
        return self.truth(self.ev(n))

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_FloatingLiteral(self, n):
        raise Unsupported('floating point')

    def e_StringLiteral(self, n):
        return self.spec.str_literal(self, n.get('value', '""'))

    def e_CXXNullPtrLiteralExpr(self, n):
        return z3.IntVal(0)

    def e_GNUNullExpr(self, n):
        return z3.IntVal(0)

    def e_CXXThisExpr(self, n):
        th = self.frames[-1].this
        if th is None:
            raise Unsupported('this outside method')
        return th.ref

    def e_ImplicitValueInitExpr(self, n):
        return self.default(self.ty(n))

    def e_CXXScalarValueInitExpr(self, n):
        return self.default(self.ty(n))

    def e_CXXDefaultArgExpr(self, n):
        if inner(n):
            return self.ev(inner(n)[0])
        raise _DefaultArg()

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default member init')

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(inner(n)[0])
        if isinstance(v, LOCS) or isinstance(v, (Obj, PairRef)):
            return v
        return LTmp(v, self.ty(n))

    def e_InitListExpr(self, n):
        t = self.ty(n)
        xs = inner(n)
        if t.k in ('int', 'bool', 'ptr'):
            return self.rv(self.ev(xs[0])) if xs else self.default(t)
        if t.k == 'vec':
            vs = [self.rv(self.ev(x)) for x in xs]
            v = self.default(t)
            arr = v.arr
            for i, x in enumerate(vs):
                arr = z3.Store(arr, i, self.unpack(t.a, x)[0])
            return VVec(z3.IntVal(len(vs)), arr, t.a)
        if t.k == 'pair' and len(xs) == 2:
            return VPair(self.rv(self.ev(xs[0])), self.rv(self.ev(xs[1])))
        if not xs:
            return self.default(t)
        if len(xs) == 1:
            return self.rv(self.ev(xs[0]))
        raise Unsupported('init list of %s' % t)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(inner(n)[0])

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported('type trait')
        at = n.get('argType')
        t = self.types.of(at) if at else self.ty(inner(n)[0])
        return z3.IntVal(self.sizeof(t))

    def sizeof(self, t):
        if t.k == 'int':
            return t.a // 8
        if t.k == 'bool':
            return 1
        if t.k == 'ptr' or t.k == 'lref':
            return 8
        raise Unsupported('sizeof %s' % t)

    # ---- names
    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        i = rd['id']
        k = rd['kind']
        if k == 'EnumConstantDecl':
            c = self.tu.enum_consts.get(i)
            if c is None:
                for d in self.tu.enums.values():
                    if rd['name'] in d:
                        return z3.IntVal(d[rd['name']])
                raise Unsupported('enum constant ' + rd['name'])
            return z3.IntVal(c[0])
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for fr in (self.frames[-1],):
                b = fr.vars.get(i)
                if b is not None:
                    return b
            return self.global_var(n, rd)
        if k in core.cast.FUNC_KINDS:
            return VFn('func', node=rd, id=z3.IntVal(abs(hash(rd.get('name'))) % 100000 + 1))
        raise Unsupported('reference to %s %s' % (k, rd.get('name')))

    def global_var(self, n, rd):
        g = self.tu.globals.get(rd['id'])
        if g is None:
            d = self.tu.decls.get(rd['id'])
            g = d if d is not None and d.get('kind') == 'VarDecl' else None
        # prefer a declaration with an initialiser
        if g is None or not any(c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal') for c in inner(g)):
            for x in self.tu.globals.values():
                if x.get('name') == rd.get('name') and any(
                        c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal') or c.get('kind', '').endswith('Operator') for c in inner(x)):
                    g = x
                    break
        t = self.types.of((g or rd)['type'])
        q = (g or rd)['type']['qualType']
        if g is not None and ('const' in q) and t.k in ('int', 'bool') and inner(g):
            return LTmp(self.conv_to(self.rv(self.ev(inner(g)[-1])), t), t)
        if t.k in ('arr', 'opaque', 'ptr', 'cls', 'fn', 'str'):
            if t.k == 'ptr' or t.k == 'str':
                return LField('global.' + rd['name'], z3.IntVal(0), t)
            return VOpaque(t)
        return LField('global.' + rd['name'], z3.IntVal(0), t)

    def e_MemberExpr(self, n):
        base = inner(n)[0]
        name = n.get('name')
        md = self.tu.decls.get(n.get('referencedMemberDecl'))
        if md is not None and md.get('kind') == 'VarDecl':      # static member
            return self.global_var(n, md)
        if md is not None and md.get('kind') == 'EnumConstantDecl':
            return z3.IntVal(self.tu.enum_consts[md['id']][0])
        b = self.ev(base)
        if name in ('first', 'second'):
            p = self.rv(b)
            if isinstance(p, PairRef):
                m = self.load(p.loc)
                if name == 'first':
                    return LTmp(p.key, m.kt)
                return LMapVal(p.loc, p.key, m.vt)
            if isinstance(p, VPair):
                x = p.a if name == 'first' else p.b
                return x if isinstance(x, LOCS) else LTmp(x, self.ty(n))
            raise Unsupported('pair member of %r' % (p,))
        r = self.scal(b)
        if md is None or '_rec' not in md:
            bt = self.ty(base)
            cls = (bt.a if bt.k in ('ptr', 'lref') else bt).name
            q = self.find_field(cls, name)
        else:
            q = md['_rec'] + '.' + name
            if md['_rec'] not in self.tu.records:
                raise Unsupported('member ' + name)
        return self.field_loc(q, r)

    def find_field(self, cls, name):
        c = cls
        seen = set()
        todo = [c]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            r = self.tu.records.get(c)
            if r is None:
                continue
            if any(f[0] == name for f in r.fields):
                return c + '.' + name
            for b in r.bases:
                t = self.types.parse(b)
                if t.k == 'cls':
                    todo.append(t.name)
        raise Unsupported('field %s of %s' % (name, cls))

    def field_loc(self, q, ref):
        t = self.field(q)
        if t.k == 'lref':
            l = LField(q, ref, T('int', 64, False))
            v = self.load(l)
            if t.a.k == 'cls':
                return Obj(v, t.a.name)
            raise Unsupported('reference member')
        if t.k == 'cls':
            return self.load(LField(q, ref, t))
        return LField(q, ref, t)

    # ---- casts
    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        c = inner(n)[0]
        if ck == 'LValueToRValue':
            return self.rv(self.ev(c))
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion',
                  'BaseToDerived', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'Dependent'):
            return self.ev(c)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(c)
            return v
        if ck in ('IntegralCast',):
            v = self.scal(self.ev(c))
            return self.conv(v, self.ty(c), self.ty(n))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.truth(self.ev(c))
        if ck == 'NullToPointer':
            return z3.IntVal(0)
        if ck == 'BitCast' or ck == 'ReinterpretMemberPointer' or ck == 'LValueBitCast':
            return self.spec.bitcast(self, self.ev(c), self.ty(c), self.ty(n))
        if ck == 'ToVoid':
            self.ev(c)
            return None
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return self.scal(self.ev(c))
        raise Unsupported('cast ' + str(ck))

    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXFunctionalCastExpr(self, n):
        return self.e_ImplicitCastExpr(n)

    def e_CXXDynamicCastExpr(self, n):
        return self.ev(inner(n)[0])

    def conv(self, v, ft, tt):
        if tt.k == 'bool':
            return self.truth(v)
        if v.sort() == B:
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        if tt.k != 'int':
            return v
        if ft.k == 'int':
            fl, fh = self.bounds(ft)
            tl, th = self.bounds(tt)
            if tl <= fl and fh <= th:
                return v
        return self.wrap(v, tt)

    def conv_to(self, v, tt):
        if isinstance(v, z3.ExprRef):
            if tt.k == 'bool' and v.sort() != B:
                return v != 0
            if tt.k == 'int' and v.sort() == B:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def bounds(self, t):
        return (-2 ** (t.a - 1), 2 ** (t.a - 1) - 1) if t.b else (0, 2 ** t.a - 1)

    def wrap(self, v, t):
        """exact machine arithmetic: value reduced to the range of t"""
        v = simp(v)
        lo, hi = self.bounds(t)
        if z3.is_int_value(v):
            x = v.as_long()
            m = 2 ** t.a
            x = (x - lo) % m + lo
            return z3.IntVal(x)
        inr = z3.And(v >= lo, v <= hi)
        if self.implied(inr):
            return v
        m = 2 ** t.a
        return z3.If(inr, v, (v - lo) % m + lo)

    # ---- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        c = inner(n)[0]
        t = self.ty(n)
        if op == '!':
            return z3.Not(self.truth(self.ev(c)))
        if op == '*':
            v = self.ev(c)
            return self.deref(self.rv(v), t, n)
        if op == '&':
            v = self.ev(c)
            if isinstance(v, Obj):
                return v.ref
            if isinstance(v, VFn):
                return v
            if isinstance(v, LMem):
                return v.addr
            return self.spec.addressof(self, v, t)
        if op in ('++', '--'):
            l = self.ev(c)
            old = self.rv(l)
            d = 1 if op == '++' else -1
            if isinstance(old, VIter):
                new = VIter(old.loc, simp(old.pos + d))
            elif t.k == 'ptr':
                new = simp(old + d * self.sizeof(t.a))
            else:
                new = self.wrap(old + d, t)
            self.store(l, new)
            return LTmp(old, t) if n.get('isPostfix') else l
        v = self.scal(self.ev(c))
        if op == '-':
            return self.wrap(-v, t)
        if op == '+':
            return v
        if op == '~':
            return self.wrap(-v - 1, t)
        raise Unsupported('unary ' + op)

    def deref(self, p, t, n=None):
        if isinstance(p, VIter):
            return self.iter_deref(p)
        if isinstance(p, (PairRef,)):
            return p
        if t.k == 'lref':
            t = t.a
        if t.k in ('cls', 'opaque'):
            r = self.scal(p)
            self.nonnull(r)
            return Obj(r, t.name)
        return self.spec.deref(self, p, t)

    def nonnull(self, r):
        """dereferencing null ends the process; the path continues with a non-null pointer"""
        if z3.is_int_value(r):
            if r.as_long() == 0:
                raise SysExit()
            return
        self.spec.null_deref(self, r)
        self.assume_once(r != 0)

    def pure(self, n):
        """conservative: evaluation has no side effects and cannot split paths much"""
        k = n.get('kind')
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            return self.spec.pure_call(self, n) and all(self.pure(c) for c in inner(n))
        if k in ('CXXNewExpr', 'CompoundAssignOperator', 'LambdaExpr', 'CXXThrowExpr', 'ConditionalOperator'):
            return False
        if k == 'CXXConstructExpr':
            return all(self.pure(c) for c in inner(n))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return False
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return False
        if k == 'CXXOperatorCallExpr':
            f = self.callee_name(inner(n)[0])
            if f not in ('operator->', 'operator*', 'operator==', 'operator!=', 'operator[]', 'operator bool'):
                return False
        return all(self.pure(c) for c in inner(n))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = inner(n)
        if op in ('&&', '||'):
            ca = simp(self.truth(self.ev(a)))
            if op == '&&' and is_false(ca) or op == '||' and is_true(ca):
                return ca
            if op == '&&' and is_true(ca) or op == '||' and is_false(ca):
                return self.truth(self.ev(b))
            if self.pure(b):
                npc = len(self.st.pc)
                kn = set(self.st.known)
                g = ca if op == '&&' else z3.Not(ca)
                # evaluate b under the guard, then drop guarded facts into implications
                self.st.pc.append(g)
                r = self.run
                try:
                    cb = self.truth(self.ev(b))
                except Infeasible:
                    cb = z3.BoolVal(op == '||')
                if self.st is not None and len(r.taken) >= 0:
                    facts = self.st.pc[npc + 1:]
                    del self.st.pc[npc:]
                    if r.npc > npc:
                        r.solver = None
                    self.st.known = kn
                    for f in facts:
                        self.st.pc.append(z3.Implies(g, f))
                return z3.And(ca, cb) if op == '&&' else z3.Or(ca, cb)
            got = self.merge_logic(ca if op == '&&' else simp(z3.Not(ca)), b)
            if got is not None:
                return z3.And(ca, got) if op == '&&' else z3.Or(ca, got)
            t = self.branch(ca)
            if op == '&&':
                return self.truth(self.ev(b)) if t else z3.BoolVal(False)
            return z3.BoolVal(True) if t else self.truth(self.ev(b))
        if op == '=':
            v = self.rv(self.ev(b))
            l = self.ev(a)
            self.store(l, v)
            return l
        if op == ',':
            self.ev(a)
            return self.ev(b)
        x = self.rv(self.ev(a))
        y = self.rv(self.ev(b))
        return self.binop(op, x, y, self.ty(a), self.ty(b), self.ty(n))

    def binop(self, op, x, y, ta, tb, t):
        if op in ('==', '!='):
            e = self.equal(x, y)
            return e if op == '==' else z3.Not(e)
        if isinstance(x, VIter) or isinstance(y, VIter):
            if op == '+' and isinstance(x, VIter):
                return VIter(x.loc, simp(x.pos + self.scal(y)))
            if op == '-' and isinstance(y, VIter):
                return x.pos - y.pos
            if op == '-':
                return VIter(x.loc, simp(x.pos - self.scal(y)))
            if op in ('<', '>', '<=', '>='):
                x, y = x.pos, y.pos
        x, y = self.scal(x), self.scal(y)
        if x.sort() == B:
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if y.sort() == B:
            y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if op == '<':
            return x < y
        if op == '>':
            return x > y
        if op == '<=':
            return x <= y
        if op == '>=':
            return x >= y
        if t.k == 'ptr':      # pointer arithmetic
            sz = self.sizeof(t.a)
            return simp(x + y * sz) if op == '+' else simp(x - y * sz)
        if ta.k == 'ptr' and tb.k == 'ptr' and op == '-':
            return simp((x - y) / self.sizeof(ta.a))
        if op == '+':
            return self.wrap(x + y, t)
        if op == '-':
            return self.wrap(x - y, t)
        if op == '*':
            return self.wrap(x * y, t)
        if op in ('/', '%'):
            self.spec.div(self, y)
            if t.k == 'int' and not t.b:
                return simp(x / y) if op == '/' else simp(x % y)
            # C++ truncates towards zero
            q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
            if self.implied(z3.And(x >= 0, y > 0)):
                q = x / y
            q = simp(q)
            return q if op == '/' else simp(x - q * y)
        cy = const_int(y)
        cx = const_int(x)
        if op == '<<' and cy is not None:
            return self.wrap(x * (2 ** cy), t)
        if op == '>>' and cy is not None:
            if cy > 0 and cy % 8 == 0 and not z3.is_int_value(x):
                # floor(x / 2^k) = floor(floor(x / 2^(k-8)) / 256), true of all integers
                self.assume_once((simp(x / (2 ** (cy - 8))) if cy > 8 else x) / 256 == simp(x / (2 ** cy)))
            return simp(x / (2 ** cy))
        if op in ('&', '|', '^'):
            if cx is not None and cy is not None:
                f = {'&': cx & cy, '|': cx | cy, '^': cx ^ cy}[op]
                return z3.IntVal(f)
            if cx is not None:
                x, y, cx, cy = y, x, cy, cx
            if cy is not None:
                if cy > 0 and cy & (cy - 1) == 0:       # single bit
                    bit = (x / cy) % 2
                    if op == '&':
                        return simp(bit * cy)
                    if op == '|':
                        return simp(z3.If(bit == 1, x, x + cy))
                    return simp(z3.If(bit == 1, x - cy, x + cy))
                if op == '&' and cy > 0 and (cy & (cy + 1)) == 0:
                    return simp(x % (cy + 1))
                if cy == 0:
                    return z3.IntVal(0) if op == '&' else x
            w = t.a if t.k == 'int' else 64
            fn = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op] + str(w), I, I, I)
            r = fn(x, y)
            self.taint('bit operation')
            return r
        if op in ('<<', '>>'):
            r = self.fresh('shift')
            self.assume_range(r, t)
            self.taint('variable shift')
            return r
        raise Unsupported('binary ' + op)

    def equal(self, x, y):
        if isinstance(x, VIter) and isinstance(y, VIter):
            return x.pos == y.pos
        if isinstance(x, VFn) or isinstance(y, VFn):
            f = x if isinstance(x, VFn) else y
            return z3.BoolVal(False) if f.kind != 'nil' and f.kind != 'opaque' else (f.id == 0 if f.id is not None else z3.BoolVal(True))
        x, y = self.scal(x), self.scal(y)
        if x.sort() != y.sort():
            if x.sort() == B:
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            else:
                y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        return x == y

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = inner(n)
        y = self.rv(self.ev(b))
        l = self.ev(a)
        x = self.rv(l)
        t = self.ty(n)
        ct = self.types.of(n.get('computeResultType')) if n.get('computeResultType') else t
        v = self.binop(op, x, y, self.ty(a), self.ty(b), ct if t.k == 'int' and ct.k == 'int' else t)
        if t.k == 'int':
            v = self.conv(v, ct if ct.k == 'int' else t, t)
        elif t.k == 'bool':
            v = self.truth(v)
        self.store(l, v)
        return l

    def e_ConditionalOperator(self, n):
        c, a, b = inner(n)
        cv = simp(self.truth(self.ev(c)))
        if is_true(cv):
            return self.ev(a)
        if is_false(cv):
            return self.ev(b)
        t = self.ty(n)
        if t.k in ('int', 'bool') and self.pure(a) and self.pure(b):
            x = self._guarded(cv, a)
            y = self._guarded(z3.Not(cv), b)
            if x is not None and y is not None and x.sort() == y.sort():
                return z3.If(cv, x, y)
        return self.ev(a) if self.branch(cv) else self.ev(b)

    def _guarded(self, g, n):
        npc = len(self.st.pc)
        kn = set(self.st.known)
        r = self.run
        self.st.pc.append(g)
        try:
            v = self.scal(self.ev(n))
        except Infeasible:
            v = None
        facts = self.st.pc[npc + 1:]
        del self.st.pc[npc:]
        if r.npc > npc:
            r.solver = None
        self.st.known = kn
        for f in facts:
            self.st.pc.append(z3.Implies(g, f))
        return v

    def e_ArraySubscriptExpr(self, n):
        a, b = inner(n)
        base = self.rv(self.ev(a))
        i = self.rv(self.ev(b))
        t = self.ty(n)
        if isinstance(base, VOpaque):
            return VOpaque(t)
        base, i = self.scal(base), self.scal(i)
        return self.spec.deref(self, simp(base + i * self.sizeof(t)), t)

    def e_CXXThrowExpr(self, n):
        what = self.ty(inner(n)[0]).name if inner(n) and inner(n)[0].get('type') else 'rethrow'
        if inner(n):
            q = inner(n)[0]['type']['qualType']
            raise CThrow(norm(q))
        raise CThrow('rethrow')

    def e_LambdaExpr(self, n):
        xs = inner(n)
        rec = xs[0]
        fields = [c for c in inner(rec) if c.get('kind') == 'FieldDecl']
        caps = [x for x in xs[1:] if x.get('kind') != 'CompoundStmt']
        body = [x for x in xs[1:] if x.get('kind') == 'CompoundStmt']
        op = [c for c in inner(rec) if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()']
        fr = self.frames[-1]
        vars = {}
        this = None
        capvals = []
        for i, c in enumerate(caps):
            if self._find(c, 'CXXThisExpr') is not None and self._find(c, 'DeclRefExpr') is None:
                this = fr.this
                continue
            d = self._find(c, 'DeclRefExpr')
            byref = i < len(fields) and fields[i]['type']['qualType'].rstrip().endswith('&')
            if d is None:
                v = self.rv(self.ev(c))
                continue
            did = d['referencedDecl']['id']
            v = self.ev(c)
            if byref:
                vars[did] = v
            else:
                v = self.rv(v)
                if isinstance(v, Obj):
                    vars[did] = v
                else:
                    t = self.types.of(d['referencedDecl']['type'])
                    if t.k == 'lref':
                        t = t.a
                    l = LVar((fr.n, 'cap', did, n['id']), t)
                    self.st.env[l.key] = v
                    vars[did] = l
                capvals.append((d['referencedDecl'].get('name'), v))
        fn = VFn('closure', node=dict(op=op[0] if op else None, body=body[0] if body else None, id=n['id']),
                 vars=vars, this=this, frame_cls=fr.cls, id=self.fresh('closure'))
        self.assume(fn.id != 0)
        self.spec.on_closure(self, fn, capvals, n)
        return fn

    def _find(self, n, kind):
        st = [n]
        while st:
            x = st.pop(0)
            if x.get('kind') == kind:
                return x
            st.extend(inner(x))
        return None

    def e_CXXNewExpr(self, n):
        t = self.ty(n).a
        if n.get('isArray'):
            return self.spec.new_array(self, n, t)
        for c in inner(n):
            v = self.ev(c)
            v = self.rv(v)
            if isinstance(v, Obj):
                return v.ref
        if t.k == 'cls':
            return self.construct(t.name, []).ref
        raise Unsupported('new')

    def e_CXXDeleteExpr(self, n):
        self.ev(inner(n)[0])
        return None

    # ---- construction
    def e_CXXConstructExpr(self, n):
        t = self.ty(n)
        args = inner(n)
        return self.build(t, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def build(self, t, args, n=None):
        k = t.k
        if k == 'lref':
            return self.build(t.a, args, n)
        if k in ('vec', 'map', 'set', 'ptr', 'str', 'fn', 'time', 'pair', 'iter', 'guard', 'opaque', 'mutex', 'cv', 'int', 'bool', 'arr'):
            return self.lib_construct(t, args, n)
        if k == 'cls':
            return self.construct_nodes(t.name, args, n)
        raise Unsupported('construct %s' % t)

    def construct_nodes(self, cls, args, n):
        # elided copies/moves of a prvalue
        if len(args) == 1 and n is not None and n.get('elidable'):
            return self.rv(self.ev(args[0]))
        vals = [self.arg(a) for a in args]
        return self.construct(cls, vals, n)

    def arg(self, a):
        if a['kind'] == 'CXXDefaultArgExpr':
            return a if not inner(a) else self.ev(a)
        v = self.ev(a)
        if a.get('valueCategory') == 'xvalue' or (a['kind'] == 'CallExpr' and self.callee_name(inner(a)[0]) == 'move'):
            if isinstance(v, LOCS):
                return Moved(v)
        return v

    def ctors(self, cls):
        out = []
        for f in self.tu.funcs.values():
            if f.kind == 'CXXConstructorDecl' and f.cls == cls and not f.node.get('isImplicit') \
                    and not f.node.get('explicitlyDeleted') and not f.node.get('_pattern'):
                out.append(f)
        # prefer definitions
        res = {}
        for f in out:
            d = self.tu.definition(f.node['id']) or f
            res[d.type] = d
        return list(res.values())

    def construct(self, cls, vals, n=None):
        self.spec.on_construct(self, cls)
        r = self.new_ref()
        obj = Obj(r, cls)
        self.init_object(obj, cls, vals, n)
        return obj

    def init_object(self, obj, cls, vals, n=None):
        m = self.spec.ctor_model(self, cls, obj, vals)
        if m:
            return
        cs = self.ctors(cls)
        want = n.get('ctorType', {}).get('qualType') if n is not None else None
        cand = [f for f in cs if want and f.type == want]
        if not cand:
            cand = [f for f in cs if len(f.params) >= len(vals) and all(
                any(c.get('kind') for c in inner(p)) or p.get('init') for p in f.params[len(vals):])]
            if len(cand) > 1:
                c2 = [f for f in cand if self.args_match(f, vals)]
                cand = c2 or cand
        if not cand:
            if not vals:
                self.default_fields(obj, cls, set())
                return
            if self.tu.records.get(cls) is None:
                raise Unsupported('no constructor for %s/%d' % (cls, len(vals)))
            raise Unsupported('no constructor for %s/%d' % (cls, len(vals)))
        f = cand[0]
        self.run_ctor(f, obj, cls, vals)

    def args_match(self, f, vals):
        for p, v in zip(f.params, vals):
            t = self.types.of(p['type'])
            if t.k == 'lref':
                t = t.a
            if isinstance(v, Moved):
                v = v.loc
            vt = None
            if isinstance(v, LOCS):
                vt = v.t
            if isinstance(v, Obj):
                if t.k != 'cls':
                    return False
                continue
            if isinstance(v, VFn):
                if t.k != 'fn':
                    return False
                continue
            if vt is not None:
                if vt.k != t.k:
                    return False
                if vt.k == 'ptr' and vt.a.k == 'cls' and t.a.k == 'cls' and not self.derives(vt.a.name, t.a.name):
                    return False
            elif isinstance(v, z3.ExprRef):
                if v.sort() == B and t.k != 'bool':
                    return False
        return True

    def derives(self, a, b):
        if a == b:
            return True
        r = self.tu.records.get(a)
        if r is None:
            return False
        for x in r.bases:
            t = self.types.parse(x)
            if t.k == 'cls' and self.derives(t.name, b):
                return True
        return False

    def default_fields(self, obj, cls, done):
        rec = self.tu.records.get(cls)
        if rec is None:
            return
        for b in rec.bases:
            t = self.types.parse(b)
            if t.k == 'cls' and ('base', t.name) not in done:
                self.init_object(obj, t.name, [])
        for name, tn, hasinit, node in rec.fields:
            if name in done:
                continue
            t = self.types.of(tn)
            if hasinit and inner(node):
                v = self.rv(self.ev(inner(node)[-1]))
            elif t.k in ('int', 'bool', 'ptr', 'time') and (t.k in ('int', 'bool', 'time') or t.name == 'raw'):
                continue        # indeterminate
            elif t.k == 'cls':
                v = self.construct(t.name, [])
            elif t.k in ('mutex', 'cv', 'opaque', 'lref', 'arr'):
                continue
            else:
                v = self.default(t)
            self.store(LField(cls + '.' + name, obj.ref, t), v)

    def run_ctor(self, f, obj, cls, vals):
        fr = self.enter(f, obj, vals)
        try:
            done = set()
            for ini in f.inits:
                if 'anyInit' in ini:
                    done.add(ini['anyInit']['name'])
                elif 'baseInit' in ini:
                    t = self.types.of(ini['baseInit'])
                    done.add(('base', t.name))
            rec = self.tu.records.get(cls)
            for ini in f.inits:
                e = inner(ini)[0] if inner(ini) else None
                if 'anyInit' in ini:
                    name = ini['anyInit']['name']
                    t = self.field(cls + '.' + name)
                    if e is None:
                        continue
                    if t.k in ('mutex', 'cv', 'opaque', 'arr'):
                        continue
                    v = self.init_value(t, e)
                    if t.k == 'lref':
                        v = v if isinstance(v, Obj) else None
                        if v is None:
                            continue
                        self.st.heap[cls + '.' + name] = z3.Store(self.harr(cls + '.' + name, I), obj.ref, v.ref)
                        continue
                    self.store(LField(cls + '.' + name, obj.ref, t), v)
                elif 'baseInit' in ini:
                    t = self.types.of(ini['baseInit'])
                    ce = self._strip(e)
                    if t.k != 'cls' or ce['kind'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                        continue
                    args = [self.arg(a) for a in inner(ce)]
                    self.init_object(obj, t.name, args, ce)
            self.default_fields(obj, cls, done)
            self.body(f)
        finally:
            self.leave()

    def init_value(self, t, e):
        if e['kind'] == 'CXXDefaultInitExpr':
            return self.default(t)
        if t.k == 'lref':
            return self.ev(e)
        return self.rv(self.ev(e))

    def _strip(self, n):
        while n['kind'] in PASS + ('MaterializeTemporaryExpr', 'ImplicitCastExpr') and inner(n):
            n = inner(n)[0]
        return n

    # ============================================================ calls
    def callee_name(self, n):
        d = self._find(n, 'DeclRefExpr')
        if d is not None:
            return d['referencedDecl'].get('name', '')
        m = self._find(n, 'MemberExpr')
        return m.get('name', '') if m is not None else ''

    def e_CallExpr(self, n):
        self.cur = n
        callee = inner(n)[0]
        args = inner(n)[1:]
        d = self._find(callee, 'DeclRefExpr')
        if d is None:
            m = self._find(callee, 'MemberExpr')
            if m is not None:
                fv = self.rv(self.ev(callee))
                return self.call_fn(fv, [self.ev(a) for a in args], n)
            raise Unsupported('indirect call')
        rd = d['referencedDecl']
        if rd['kind'] not in core.cast.FUNC_KINDS:
            fv = self.rv(self.ev(callee))
            return self.call_fn(fv, [self.ev(a) for a in args], n)
        f = self.tu.definition(rd['id'])
        name = rd.get('name')
        t = self.ty(n)
        mdl = self.spec.function_model(self, name, f, args, n)
        if mdl is not NotImplemented:
            return mdl
        if f is not None and f.body is not None and f.cls is not None and name not in ('cs_new',):
            return self.call(f, None, [self.arg(a) for a in args], n)
        if f is not None and f.body is not None and not f.node.get('_ftempl'):
            return self.call(f, None, [self.arg(a) for a in args], n)
        r = self.lib_call(name, args, n)
        if r is not NotImplemented:
            return r
        if f is not None and f.body is not None:
            return self.call(f, None, [self.arg(a) for a in args], n)
        # a helper outside the namespace: second extraction pass
        g = self.find_outside(name, rd)
        if g is not None:
            return self.call(g, None, [self.arg(a) for a in args], n)
        return self.external(name, None, args, n)

    def find_outside(self, name, rd):
        if not name or name.startswith('operator') or name.startswith('__builtin'):
            return None
        q = rd.get('type', {}).get('qualType')
        for _ in range(2):
            for f in self.tu.by_qual.get(name, []):
                if f.type == q:
                    return f
            self.tu.fetch_named(name)
        return None

    def e_CXXMemberCallExpr(self, n):
        self.cur = n
        me = inner(n)[0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = inner(me)[0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call via ' + me['kind'])
        args = inner(n)[1:]
        name = me.get('name')
        basen = inner(me)[0]
        bt = self.ty(basen)
        if bt.k == 'lref':
            bt = bt.a
        if me.get('isArrow') and bt.k == 'ptr':
            bt = bt.a
        f0 = self.tu.funcs.get(me.get('referencedMemberDecl'))
        if bt.k == 'opaque' and f0 is not None and f0.cls in self.tu.records:
            bt = T('cls', name=f0.cls)
        if bt.k == 'cls' and self.spec.ignored_class(bt.name):
            if any(self.has_effect(a) for a in args):
                for a in args:
                    self.eval_effects(a)
            return self.default(self.ty(n)) if self.ty(n).k not in ('void', 'lref', 'cls') else VOpaque(self.ty(n))
        if bt.k == 'opaque' and 'strfmt' in str(bt.name):
            return VOpaque(self.ty(n))
        f = self.tu.definition(me.get('referencedMemberDecl'))
        base = self.ev(basen)
        if bt.k == 'cls' or (f is not None and f.cls in self.tu.records and bt.k == 'opaque'):
            r = self.scal(base)
            self.nonnull(r)
            obj = Obj(r, bt.name)
            if f is None:
                f = self.method_by_name(bt.name, name, len(args))
            mdl = self.spec.method_model(self, f.cls if f is not None else bt.name, name, obj, args, n, f)
            if mdl is not NotImplemented:
                return mdl
            if f is not None and (f.virtual or f.pure) and f.body is None:
                return self.external(name, obj, args, n, f)
            if f is not None and f.body is not None:
                return self.call(f, obj, [self.arg(a) for a in args], n)
            return self.external(name, obj, args, n, f)
        if me.get('isArrow') and bt.k in ('vec', 'map', 'set') and isinstance(base, z3.ExprRef):
            self.nonnull(base)
            base = self.box(bt, base)
        r = self.lib_method(bt, name, base, args, n)
        if r is not NotImplemented:
            return r
        return self.external(name, base, args, n)

    def method_by_name(self, cls, name, nargs):
        todo = [cls]
        seen = set()
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            for f in self.tu.by_qual.get(c + '::' + name, []):
                if len(f.params) >= nargs:
                    return f
            for f in self.tu.funcs.values():
                if f.cls == c and f.name == name and len(f.params) >= nargs:
                    return self.tu.definition(f.node['id']) or f
            r = self.tu.records.get(c)
            if r:
                for b in r.bases:
                    t = self.types.parse(b)
                    if t.k == 'cls':
                        todo.append(t.name)
        return None

    def has_effect(self, n):
        k = n.get('kind')
        if k == 'CompoundAssignOperator' or k == 'CXXNewExpr':
            return True
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return True
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return True
        if k == 'CXXOperatorCallExpr' and self.callee_name(inner(n)[0]) in ('operator=', 'operator++', 'operator--', 'operator+='):
            return True
        if k == 'CXXMemberCallExpr':
            f = self.tu.definition(inner(n)[0].get('referencedMemberDecl'))
            if f is not None and f.cls in self.tu.records and not f.const and self.fn_writes(f):
                return True
        return any(self.has_effect(c) for c in inner(n))

    def fn_writes(self, f):
        if f.body is None:
            return not self.spec.const_interface(f)
        w = f.node.get('_writes')
        if w is None:
            f.node['_writes'] = True
            w = self.has_effect(f.body)
            f.node['_writes'] = w
        return w

    def eval_effects(self, n):
        """evaluate only the side-effecting parts of an ignored argument"""
        if n.get('kind') in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr') and \
                not any(self.has_effect(c) for c in inner(n)[1:]) and self.has_effect(n):
            try:
                self.ev(n)
            except Unsupported:
                self.taint('effect in log message')
            return
        if n.get('kind') in ('UnaryOperator', 'BinaryOperator', 'CompoundAssignOperator') and self.has_effect(n):
            self.ev(n)
            return
        for c in inner(n):
            if self.has_effect(c):
                self.eval_effects(c)

    def e_CXXOperatorCallExpr(self, n):
        self.cur = n
        name = self.callee_name(inner(n)[0])
        d = self._find(inner(n)[0], 'DeclRefExpr')
        args = inner(n)[1:]
        f = self.tu.definition(d['referencedDecl']['id']) if d is not None else None
        if f is not None and f.body is not None and f.cls is None:
            return self.call(f, None, [self.arg(a) for a in args], n)
        t0 = self.ty(args[0])
        if name == 'operator()':
            if 'lambda' in args[0]['type']['qualType'] or t0.k == 'fn':
                fv = self.rv(self.ev(args[0]))
                return self.call_fn(fv, [self.arg(a) for a in args[1:]], n)
        if f is not None and f.body is not None and f.cls in self.tu.records:
            o = self.ev(args[0])
            return self.call(f, Obj(self.scal(o), f.cls), [self.arg(a) for a in args[1:]], n)
        r = self.lib_operator(name, args, n)
        if r is not NotImplemented:
            return r
        return self.external(name, None, args, n)

    def e_CXXPseudoDestructorExpr(self, n):
        return None

    def external(self, name, obj, args, n, f=None):
        """a function without a body or a model: arguments passed by non-const reference and the
        result become unknown; whatever follows on this path cannot be refuted, only proved"""
        vals = []
        for a in args:
            try:
                vals.append(self.ev(a))
            except Unsupported:
                vals.append(None)
        for a, v in zip(args, vals):
            if isinstance(v, LOCS) and not isinstance(v, LTmp):
                q = a.get('type', {}).get('qualType', '')
                if 'const' not in q:
                    self.havoc_loc(v)
        self.taint('external ' + str(name))
        self.unsupported.append('external call %s in %s' % (name, self.where()))
        t = self.ty(n)
        if t.k == 'void':
            return None
        if t.k == 'lref':
            return LTmp(self.fresh_val(t.a), t.a)
        v = self.fresh_val(t, 'ext_' + str(name))
        return v

    # ---- user functions
    def enter(self, f, this, vals):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        fr = Frame(f, this, self.depth * 1000 + len(self.frames), f.cls)
        i = 0
        for i, p in enumerate(f.params):
            t = self.types.of(p['type'])
            if i < len(vals):
                v = vals[i]
                if isinstance(v, dict):     # CXXDefaultArgExpr
                    v = self.default_arg(p)
            else:
                v = self.default_arg(p)
            self.bind_param(fr, p, t, v)
        self.frames.append(fr)
        return fr

    def default_arg(self, p):
        xs = [c for c in inner(p) if c.get('kind') not in ('FullComment',)]
        if not xs:
            # redeclaration: the default lives on the first declaration
            raise Unsupported('default argument')
        return self.ev(xs[-1])

    def bind_param(self, fr, p, t, v):
        moved = isinstance(v, Moved)
        if moved:
            v = v.loc
        if t.k == 'lref':
            tt = t.a
            if isinstance(v, LOCS) or isinstance(v, (Obj, PairRef)):
                fr.vars[p['id']] = v
                return
            if tt.k == 'cls' and isinstance(v, z3.ExprRef):
                fr.vars[p['id']] = Obj(v, tt.name)
                return
            fr.vars[p['id']] = LTmp(v, tt)
            l = LVar((fr.n, p['id']), tt)
            self.st.env[l.key] = v
            fr.vars[p['id']] = l
            return
        val = self.rv(v)
        if moved and t.k == 'ptr':
            self.store(v, z3.IntVal(0))
        if isinstance(val, Obj) and t.k == 'cls':
            fr.vars[p['id']] = val
            return
        l = LVar((fr.n, p['id']), t)
        if isinstance(val, z3.ExprRef):
            val = self.conv_to(val, t)
        self.st.env[l.key] = val
        fr.vars[p['id']] = l

    def leave(self):
        self.frames.pop()
        self.depth -= 1

    def call(self, f, this, vals, n=None):
        if f.static:
            this = None
        if f.body is not None and this is not None and f.virtual:
            r = self.spec.virtual_override(self, f, this)
            if r is not None:
                f = r
        c = self.spec.contract_for(self, f)
        if c is not None:
            return self.call_contract(c, f, this, vals, n)
        if self.spec.opaque_fn(self, f):
            return self.external_fn(f, this, vals, n)
        if f.body is not None and self.spec.merge_call(self, f):
            return self.merged_call(f, this, vals)
        return self.inline(f, this, vals)

    def branchy(self, f):
        """a small function with branches: its paths are merged at the call"""
        k = ('b', id(f))
        if k not in self._mrg:
            cnt = [0, 0]

            def walk(x):
                cnt[0] += 1
                kd = x.get('kind')
                if kd in ('IfStmt', 'ConditionalOperator') or kd in self.LOOPS:
                    cnt[1] += 1
                if kd == 'LambdaExpr':
                    return
                for y in inner(x):
                    walk(y)
            walk(f.body)
            self._mrg[k] = cnt[1] > 0 and cnt[0] < 420
        return self._mrg[k]

    def merged_call(self, f, this, vals):
        run = self.run
        run.ops += 1
        key = ('call', tuple(run.taken), run.ops)
        got = run.cache.get(key) if run.cache is not None else None
        if got is None:
            got = ('no',) if f.qual in self.nomerge else self._merged_call(f, this, vals)
            if got[0] == 'no':
                self.nomerge.add(f.qual)
            if run.cache is not None:
                run.cache[key] = got
        if got[0] == 'no':
            return self.inline(f, this, vals)
        w = self.st.writes
        self.st = got[1].copy()
        self.st.writes = w
        if w is not None:
            w.extend(got[3])
        return got[2]

    def _merged_call(self, f, this, vals):
        s0 = self.st.copy()
        log = []
        s0.writes = log
        rec = self.record
        self.record = rec and len(self.run.taken) >= len(self.run.dec)

        def go():
            try:
                v = self.inline(f, this, vals)
            except CThrow:
                return 'throw', None
            if isinstance(v, (LVar, LElem, LMapVal)):
                if f.rtype and f.rtype.strip().endswith('&'):
                    return 'ref', None
                v = self.load(v)
            return 'return', v
        try:
            outs = self.explore(s0, go, {}, maxpaths=5)
        except Budget as e:
            if 'paths' in str(e):
                return ('no',)
            raise
        finally:
            self.record = rec
        live = [o for o in outs if o[1] != 'sysexit']
        if not live or any(o[1] != 'return' for o in live):
            return ('no',)
        m = merge_outcomes(s0, [(o[3], o[2]) for o in live])
        if m is None:
            return ('no',)
        return ('ok', m[0], m[1], log)

    def inline(self, f, this, vals):
        if f.body is None:
            raise Unsupported('no body for ' + f.qual)
        self.inlined.add(f.qual)
        self.enter(f, this, vals)
        try:
            try:
                self.body(f)
            except CReturn as r:
                return r.v
            return None
        finally:
            self.leave()

    def body(self, f):
        if f.body is not None:
            if f.body['kind'] == 'CXXTryStmt':
                self.s_CXXTryStmt(f.body)
            else:
                self.stmt(f.body)

    def call_fn(self, fv, vals, n):
        r = self.spec.fn_call_model(self, fv, vals, n)
        if r is not NotImplemented:
            return r
        if isinstance(fv, VFn) and fv.kind == 'closure':
            return self.call_closure(fv, vals)
        if isinstance(fv, VFn) and fv.kind == 'func':
            f = self.tu.definition(fv.node['id'])
            if f is not None and f.body is not None:
                return self.call(f, None, vals, n)
        self.taint('opaque function value')
        t = self.ty(n)
        return self.fresh_val(t, 'fnres') if t.k != 'void' else None

    def call_closure(self, fv, vals):
        op = fv.node['op']
        f = self.tu.funcs.get(op['id']) or self.tu._mkfunc(op)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        fr = Frame(f, fv.this, self.depth * 1000 + len(self.frames), fv.frame_cls)
        fr.vars.update(fv.vars)
        for i, p in enumerate(f.params):
            self.bind_param(fr, p, self.types.of(p['type']), vals[i])
        self.frames.append(fr)
        try:
            try:
                self.stmt(fv.node['body'] or f.body)
            except CReturn as r:
                return r.v
            return None
        finally:
            self.leave()

    def call_contract(self, c, f, this, vals, n):
        self.used_contracts.add(f.qual)
        vals = [v.loc if isinstance(v, Moved) else v for v in vals]
        for i, p in enumerate(f.params):
            if i >= len(vals) or isinstance(vals[i], dict):
                v = self.default_arg(p)
                vals = vals[:i] + [v] + vals[i + 1:]
        for x in c.requires(self, this, vals):
            tag, lab, frm = x if len(x) == 3 else ('aux',) + tuple(x)
            self.oblige(tag, 'requires of %s: %s' % (f.qual, lab), frm)
        old = self.st.copy()
        c.havoc(self, this, vals)
        t = self.types.parse(f.rtype) if f.rtype else VOID
        ret = None
        if t.k != 'void':
            ret = self.fresh_val(t, 'ret_' + f.name)
        for x in c.ensures(self, old, this, vals, ret):
            self.assume(x[-1])
        return ret

    def external_fn(self, f, this, vals, n):
        self.taint('opaque ' + f.qual)
        t = self.types.parse(f.rtype) if f.rtype else VOID
        return self.fresh_val(t) if t.k != 'void' else None

    # ============================================================ statements
    def stmt(self, n):
        if not n:
            return
        k = n['kind']
        self.cur = n
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        nlk = len(self.st.locks)
        try:
            for c in inner(n):
                self.stmt(c)
        except (Infeasible, SysExit):
            raise
        except BaseException:
            self.release_to(nlk)
            raise
        self.release_to(nlk)

    def release_to(self, nlk):
        """scope exit: the guards declared in the scope release their locks"""
        while len(self.st.locks) > nlk:
            l = self.st.locks.pop()
            if l is not None:
                self.spec.on_unlock(self, l[0], l[1])

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in inner(n):
            if c['kind'] == 'VarDecl':
                self.var_decl(c)
            elif c['kind'] == 'DecompositionDecl':
                raise Unsupported('structured binding')

    def var_decl(self, c):
        fr = self.frames[-1]
        t = self.types.of(c['type'])
        xs = [x for x in inner(c) if x.get('kind') not in ('FullComment', 'AlignedAttr', 'UnusedAttr')]
        if c.get('storageClass') == 'static':
            if 'const' in c['type']['qualType'] and xs and t.k in ('int', 'bool'):
                fr.vars[c['id']] = LTmp(self.conv_to(self.rv(self.ev(xs[-1])), t), t)
                return
            fr.vars[c['id']] = LField('static.%s.%s' % (fr.func.qual if fr.func else '', c.get('name')), z3.IntVal(0), t)
            return
        if t.k == 'lref':
            v = self.ev(xs[-1])
            if not isinstance(v, LOCS) and not isinstance(v, (Obj, PairRef)):
                l = LVar((fr.n, c['id']), t.a)
                self.st.env[l.key] = v
                v = l
            elif isinstance(v, LTmp):
                l = LVar((fr.n, c['id']), t.a)
                self.st.env[l.key] = v.v
                v = l
            fr.vars[c['id']] = v
            return
        if t.k == 'guard':
            e = self._strip(xs[-1])
            g = self.lib_construct(t, inner(e) if 'Construct' in e['kind'] or 'TemporaryObject' in e['kind'] else [e], e)
            l = LVar((fr.n, c['id']), t)
            self.st.env[l.key] = g
            fr.vars[c['id']] = l
            return
        if xs and xs[-1].get('kind', '').endswith('Stmt'):
            xs = []
        if xs:
            v = self.rv(self.ev(xs[-1]))
            if isinstance(v, z3.ExprRef):
                v = self.conv_to(v, t)
        else:
            if t.k in ('int', 'bool', 'ptr', 'time') and (t.k != 'ptr' or t.name == 'raw'):
                v = self.fresh_val(t, c.get('name', 'v'))
            else:
                v = self.default(t)
        if isinstance(v, Obj):
            fr.vars[c['id']] = v
            return
        l = LVar((fr.n, c['id']), t)
        if self.st.writes is not None:
            self.st.writes.append(('decl', l.key, None))
        self.st.env[l.key] = v
        fr.vars[c['id']] = l

    def s_ReturnStmt(self, n):
        if not inner(n):
            raise CReturn(None)
        f = self.frames[-1].func
        t = self.types.parse(f.rtype) if f is not None and f.rtype else None
        v = self.ev(inner(n)[0])
        if t is not None and t.k == 'lref':
            if isinstance(v, LVar):
                v = LTmp(self.load(v), v.t) if v.t.k != 'cls' else v
            raise CReturn(v)
        v = self.rv(v)
        if t is not None and isinstance(v, z3.ExprRef):
            v = self.conv_to(v, t)
        raise CReturn(v)

    def s_IfStmt(self, n):
        xs = inner(n)
        i = 0
        nlk = len(self.st.locks)
        try:
            if n.get('hasInit'):
                self.stmt(xs[i])
                i += 1
            if n.get('hasVar'):
                self.stmt(xs[i])
                i += 1
            c = self.truth(self.ev(xs[i]))
            i += 1
            if self.merge_if(n, c, xs[i], xs[i + 1] if len(xs) > i + 1 else None):
                return
            if self.branch(c):
                self.stmt(xs[i])
            elif len(xs) > i + 1:
                self.stmt(xs[i + 1])
        finally:
            if n.get('hasInit') or n.get('hasVar'):
                self.release_to(nlk)

    JUMPS = ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt', 'CXXThrowExpr', 'SwitchStmt', 'CXXTryStmt')
    LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
    _mrg = {}

    def mergeable(self, n):
        """both branches are straight-line code (no jump out of them, no loop in them or in what they call)"""
        k = n.get('id')
        if k not in self._mrg:
            self._mrg[k] = all(self._plain(x, True, 0) for x in inner(n)[1:])
        return self._mrg[k]

    def _plain(self, n, top, depth):
        kd = n.get('kind')
        if (kd in self.JUMPS and top and not (top == 'loop' and kd in ('BreakStmt', 'ContinueStmt'))) or depth > 12:
            return False
        if kd in self.LOOPS and top:
            top = 'loop'
        if kd == 'LambdaExpr':
            return True
        tgt = None
        if kd == 'MemberExpr':
            tgt = n.get('referencedMemberDecl')
        elif kd == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            tgt = n['referencedDecl'].get('id')
        if tgt is not None:
            f = self.tu.definition(tgt)
            if f is not None and f.body is not None and f.cls not in ('logger',):
                key = ('f', f.qual, id(f))
                if key not in self._mrg:
                    self._mrg[key] = True
                    self._mrg[key] = self._plain(f.body, False, depth + 1)
                if not self._mrg[key]:
                    return False
        return all(self._plain(x, top, depth) for x in inner(n))

    def merge_logic(self, g, b):
        """the right operand of && or ||, evaluated under its guard; None when its paths cannot be merged"""
        run = self.run
        run.ops += 1
        key = ('logic', tuple(run.taken), run.ops)
        got = run.cache.get(key) if run.cache is not None else None
        if got is None:
            got = self._merge_logic(g, b)
            if run.cache is not None:
                run.cache[key] = got
        if got[0] == 'no':
            return None
        w = self.st.writes
        self.st = got[1].copy()
        self.st.writes = w
        if w is not None:
            w.extend(got[3])
        return got[2]

    def _merge_logic(self, g, b):
        if not self._plain(b, True, 0) or self.check(g, fresh=False) == z3.unsat or self.check(z3.Not(g), fresh=False) == z3.unsat:
            return ('no',)
        s0 = self.st
        log = []
        rec = self.record
        self.record = rec and len(self.run.taken) >= len(self.run.dec)
        st = s0.copy()
        st.pc.append(g)
        st.writes = log

        def go():
            try:
                return 'next', self.truth(self.ev(b))
            except CThrow:
                return 'jump', None
        try:
            outs = self.explore(st, go, {}, maxpaths=3)
        except Budget as e:
            if 'paths' in str(e):
                return ('no',)
            raise
        finally:
            self.record = rec
        outs = [o for o in outs if o[1] != 'sysexit']
        s1 = s0.copy()
        s1.pc.append(z3.Not(g))
        if not outs:
            return ('ok', s1, z3.BoolVal(False), log)
        if len(outs) != 1 or outs[0][1] != 'next':
            return ('no',)
        m = merge_states(g, s0, outs[0][3], s1)
        if m is None:
            return ('no',)
        return ('ok', m, outs[0][2], log)

    def merge_if(self, n, c, then, els):
        if c is True or c is False:
            return False
        c = simp(c)
        if is_true(c) or is_false(c) or not self.mergeable(n):
            return False
        run = self.run
        run.ops += 1
        key = ('if', tuple(run.taken), run.ops)
        got = run.cache.get(key) if run.cache is not None else None
        if got is None:
            got = self._merge_if(c, then, els)
            if run.cache is not None:
                run.cache[key] = got
        if got[0] == 'no':
            return False
        w = self.st.writes
        self.st = got[1].copy()
        self.st.writes = w
        if w is not None:
            w.extend(got[2])
        return True

    def _merge_if(self, c, then, els):
        if self.check(c, fresh=False) == z3.unsat or self.check(z3.Not(c), fresh=False) == z3.unsat:
            return ('no',)
        s0 = self.st
        log = []
        rec = self.record
        self.record = rec and len(self.run.taken) >= len(self.run.dec)

        def side(cond, body, nf):
            st = s0.copy()
            st.nf = nf
            st.pc.append(cond)
            st.writes = log

            def go():
                nlk = len(self.st.locks)
                try:
                    if body is not None:
                        self.stmt(body)
                except (CBreak, CContinue, CReturn, CThrow):
                    return 'jump', None
                self.release_to(nlk)
                return 'next', None
            try:
                outs = self.explore(st, go, {}, maxpaths=3)
            except Budget as e:
                if 'paths' in str(e):
                    return None
                raise
            outs = [o for o in outs if o[1] != 'sysexit']
            if not outs:
                return 'dead'
            if len(outs) != 1 or outs[0][1] != 'next':
                return None
            return outs[0][3]
        try:
            s1 = side(c, then, s0.nf)
            if s1 is None:
                return ('no',)
            s2 = side(z3.Not(c), els, s1.nf if s1 != 'dead' else s0.nf)
            if s2 is None or (s1 == 'dead' and s2 == 'dead'):
                return ('no',)
        finally:
            self.record = rec
        if s1 == 'dead' or s2 == 'dead':
            st = s2 if s1 == 'dead' else s1
            st.env = {k: st.env[k] for k in s0.env if k in st.env}
            return ('ok', st, log)
        st = merge_states(c, s0, s1, s2)
        if st is None:
            return ('no',)
        return ('ok', st, log)

    def s_BreakStmt(self, n):
        raise CBreak()

    def s_ContinueStmt(self, n):
        raise CContinue()

    def s_SwitchStmt(self, n):
        xs = inner(n)
        v = self.scal(self.ev(xs[-2]))
        body = xs[-1]
        # flatten case labels
        items = []

        def flat(c):
            if c['kind'] == 'CaseStmt':
                items.append(('case', const_int(self.scal(self.ev(inner(c)[0])))))
                flat(inner(c)[-1])
            elif c['kind'] == 'DefaultStmt':
                items.append(('default', None))
                flat(inner(c)[-1])
            else:
                items.append(('stmt', c))
        for c in inner(body):
            flat(c)
        labels = [x[1] for x in items if x[0] == 'case']
        start = None
        for idx, (kk, x) in enumerate(items):
            if kk == 'case' and self.branch(v == x):
                start = idx
                break
        if start is None:
            for idx, (kk, x) in enumerate(items):
                if kk == 'default':
                    start = idx
        if start is None:
            return
        nlk = len(self.st.locks)
        try:
            for kk, x in items[start:]:
                if kk == 'stmt':
                    self.stmt(x)
        except CBreak:
            self.release_to(nlk)

    def s_CXXTryStmt(self, n):
        xs = inner(n)
        nlk = len(self.st.locks)
        self.st.trydepth += 1
        nfr = len(self.frames)
        d = self.depth
        try:
            self.stmt(xs[0])
            self.st.trydepth -= 1
            return
        except CThrow as e:
            self.st.trydepth -= 1
            exc = e
        except (CReturn, CBreak, CContinue):
            self.st.trydepth -= 1
            raise
        self.release_to(nlk)
        for h in xs[1:]:
            hx = inner(h)
            var = hx[0] if len(hx) > 1 else None
            if var is None or not var:
                body = hx[-1]
            else:
                body = hx[-1]
                q = norm(var.get('type', {}).get('qualType', '')) if var.get('type') else ''
                q = q.rstrip('& ').strip()
                if not self.spec.catches(q, exc.what):
                    continue
                self.frames[-1].vars[var['id']] = VOpaque(OPAQUE)
            try:
                self.stmt(body)
            except CThrow as e2:
                if e2.what == 'rethrow':
                    raise exc
                raise
            return
        raise exc

    # ---- loops
    def s_WhileStmt(self, n):
        xs = inner(n)
        self.loop(n, lambda: self.truth(self.ev(xs[-2])), xs[-1], None)

    def s_DoStmt(self, n):
        body, c = inner(n)
        # first iteration, then as a while loop
        nlk = len(self.st.locks)
        try:
            self.stmt(body)
        except CBreak:
            self.release_to(nlk)
            return
        except CContinue:
            self.release_to(nlk)
        self.loop(n, lambda: self.truth(self.ev(c)), body, None)

    def s_ForStmt(self, n):
        xs = inner(n)
        init, cv, c, inc, body = xs
        if init:
            self.stmt(init)
        self.loop(n, (lambda: self.truth(self.ev(c))) if c else (lambda: z3.BoolVal(True)), body,
                  (lambda: self.ev(inc)) if inc else None)

    def s_CXXForRangeStmt(self, n):
        xs = inner(n)
        # {}, range decl, begin decl, end decl, cond, inc, loopvar, body
        decls = [x for x in xs if x and x.get('kind') == 'DeclStmt']
        rng, beg, end, var = decls[0], decls[1], decls[2], decls[-1]
        body = xs[-1]
        self.stmt(rng)
        rv = inner(rng)[0]
        cont = self.frames[-1].vars[rv['id']]
        fr = self.frames[-1]
        c = self.load(cont) if isinstance(cont, LOCS) else cont
        if not isinstance(c, (VVec, VMap)):
            raise Unsupported('range-for over %r' % (c,))
        key = LVar((fr.n, 'range', n['id']), T('iter'))
        self.st.env[key.key] = VIter(cont, z3.IntVal(0))

        def cond():
            it = self.load(key)
            cc = self.load(cont)
            return it.pos != (cc.len if isinstance(cc, VVec) else cc.size)

        def pre():
            it = self.load(key)
            vd = inner(var)[0]
            t = self.types.of(vd['type'])
            el = self.iter_deref(it)
            if t.k == 'lref':
                fr2 = self.frames[-1]
                fr2.vars[vd['id']] = el
            else:
                l = LVar((fr.n, vd['id']), t)
                self.st.env[l.key] = self.rv(el) if not isinstance(el, PairRef) else el
                self.frames[-1].vars[vd['id']] = l

        def inc():
            it = self.load(key)
            self.store(key, VIter(it.loc, simp(it.pos + 1)))
        self.loop(n, cond, body, inc, pre)

    def loop(self, n, cond, body, inc, pre=None):
        # 1. bounded by constants: execute
        if not self.const_loop_cond(n):
            st0 = None
            for it in range(40):
                if it == 0:
                    probe = self.probe_const(cond)
                    if probe is None:
                        break
                c = simp(cond())
                if is_false(c):
                    return
                if not is_true(c):
                    # became symbolic: cut it here
                    self._loop_inv(n, cond, body, inc, pre, first=c)
                    return
                try:
                    if pre:
                        pre()
                    self.stmt(body)
                except CBreak:
                    return
                except CContinue:
                    pass
                if inc:
                    inc()
            else:
                self._loop_inv(n, cond, body, inc, pre)
                return
        self._loop_inv(n, cond, body, inc, pre)

    def const_loop_cond(self, n):
        c = None
        xs = inner(n)
        if n['kind'] == 'WhileStmt':
            c = xs[-2]
        elif n['kind'] == 'ForStmt':
            c = xs[2] or None
            if not c:
                return True
        elif n['kind'] == 'DoStmt':
            c = xs[1]
            c = self._strip(c)
            return c['kind'] == 'CXXBoolLiteralExpr' and bool(c['value'])
        if c is None:
            return False
        c = self._strip(c)
        return c['kind'] in ('CXXBoolLiteralExpr', 'IntegerLiteral')

    def probe_const(self, cond):
        """is the loop condition a constant right now (evaluated on a copy)"""
        saved = self.st
        run = self.run
        s_solver, s_npc = run.solver, run.npc
        taken, pending, ops = list(run.taken), list(run.pending), run.ops
        rec = self.record
        self.record = False
        self.st = saved.copy()
        run.solver = None
        try:
            nd = len(run.taken)
            c = simp(cond())
            if len(run.taken) != nd:
                return None
            if is_true(c) or is_false(c):
                return True
            return None
        except (Unsupported, Infeasible, SysExit, CThrow):
            return None
        finally:
            self.st = saved
            run.solver, run.npc = s_solver, s_npc
            run.taken, run.pending, run.ops = taken, pending, ops
            self.record = rec

    def _loop_inv(self, n, cond, body, inc, pre, first=None):
        run = self.run
        run.ops += 1
        key = ('loop', tuple(run.taken), run.ops)
        info = run.cache.get(key) if run.cache is not None else None
        if info is None:
            info = self.analyse_loop(n, cond, body, inc, pre)
            if run.cache is not None:
                run.cache[key] = info
        exits = info['exits']
        if not exits:
            raise Infeasible()
        k = self.choose(len(exits)) if len(exits) > 1 else 0
        dec, kind = exits[k]
        if kind == 'merged':
            w = self.st.writes
            self.st = dec.copy()
            self.st.writes = w
            if w is not None:
                w.extend(info['modlog'])
            self.run.solver = None
            return
        # continue in the state reached by that exit path
        rec = self.record
        self.record = False
        sub = Run(self, None, dec)
        sub.cache = info['cache']
        saved_run = self.run
        self.run = sub
        self.st = info['state'].copy()
        self.st.writes = info['writes0']
        if self.st.writes is not None:
            self.st.writes.extend(info['modlog'])
        try:
            kind2, val = self._iteration(cond, body, inc, pre)()
        finally:
            self.run = saved_run
            self.run.solver = None
            self.record = rec
        if kind2 == 'exit' or kind2 == 'break':
            return
        if kind2 == 'return':
            raise CReturn(val)
        if kind2 == 'throw':
            raise CThrow(val)
        raise Infeasible()

    def _iteration(self, cond, body, inc, pre):
        def go():
            nlk = len(self.st.locks)
            try:
                c = cond()
                if not self.branch(c):
                    return 'exit', None
                if pre:
                    pre()
                try:
                    self.stmt(body)
                except CContinue:
                    self.release_to(nlk)
                if inc:
                    inc()
                return 'next', None
            except CBreak:
                self.release_to(nlk)
                return 'break', None
            except CReturn as r:
                return 'return', r.v
            except CThrow as e:
                return 'throw', e.what
        return go

    def analyse_loop(self, n, cond, body, inc, pre):
        import loops
        return loops.analyse(self, n, cond, body, inc, pre)

    # iterators
    def iter_deref(self, it):
        c = self.load(it.loc)
        if isinstance(c, VVec):
            if c.et.k == 'cls':
                return Obj(self.rsel(z3.Select(c.arr, it.pos)), c.et.name)
            return LElem(it.loc, it.pos, c.et)
        key = self.rsel(z3.Select(c.keys, it.pos))
        self.map_instance(c, it.pos)
        if c.val is None:
            return LTmp(key, c.kt)
        self.assume_range(key, c.kt)
        return PairRef(it.loc, key)

    def map_instance(self, m, pos):
        self.assume_once(z3.Implies(z3.And(pos >= 0, pos < m.size),
                                    z3.And(z3.Select(m.dom, z3.Select(m.keys, pos)),
                                           z3.Select(m.pos, z3.Select(m.keys, pos)) == pos)))


class _DefaultArg(Exception):
    pass


class Moved:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


_lib.attach(Interp, Moved)
