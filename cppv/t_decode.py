"""C02, C03, C05, C06: unmarshalling."""
import z3
from .core import *
from .values import *
from .spec import *
from .task import *
from .contracts import *
from .interp import Machine
from .t_types import machine, string_lv

MAXDEPTH = 65     # 64 containers and the basic value inside the innermost


class Dec:
    """ghost decoder: what the bytes B[p..e) mean for a value V created from a signature"""
    def __init__(self, sp):
        self.sp = sp
        V, VS = sp.V, sp.VS
        f = z3.Function
        A = [BYTES, INT, INT, INT, BOOL, INT]      # B, p, e, d (offset - p), swap, depth
        self.ok = f('dOk', V, *A, BOOL)
        self.end = f('dEnd', V, *A, INT)
        self.val = f('dVal', V, *A, V)
        self.aOk = f('aOk', BYTES, *A, BOOL)
        self.aVals = f('aVals', BYTES, *A, VS)
        self.sOk = f('sOk', BYTES, INT, *A, BOOL)
        self.sEnd = f('sEnd', BYTES, INT, *A, INT)
        self.sVals = f('sVals', BYTES, INT, *A, VS)
        self.init = f('init', BYTES, V)
        self.freshV = f('freshV', V, BOOL)

    def created(self, ctx, sg):
        """the value create(sg) returns, with what its contract says about it"""
        v = self.init(sg)
        ctx.assume(self.freshV(v))
        c = self.sp.at(ctx, sg, 0)
        ctx.assume(self.sp.code(v) == z3.If(z3.Or([c == ord(x) for x in CODES.values()]), c, I(0)))
        return v

    def unfold_init(self, ctx, short, v, sg):
        """create's contract on a value of known constructor"""
        w = self.sp.w
        if short not in ('Empty', 'Other', 'Byte'):
            ctx.assume(w.acc(short, 'm_Signature', v) == sg)

    def unfold_fresh(self, ctx, short, v):
        w = self.sp.w
        if short == 'Array':
            ctx.assume(self.freshV(v) == (z3.Length(w.acc(short, 'contents', v)) == 0))
        elif short == 'Struct':
            ctx.assume(self.freshV(v) == (z3.Length(w.acc(short, 'm_Value', v)) == 0))
        elif short == 'Other':
            ctx.assume(z3.Not(self.freshV(v)))
        else:
            ctx.assume(self.freshV(v))

    def typed(self, ctx, v):
        """a decoded value is of the class its signature names (unmarshallData, create)"""
        sp, w = self.sp, self.sp.w
        ctx.assume(z3.Or([w.is_(k, v) for k in CODES]))
        for k, c in CODES.items():
            ctx.assume(z3.Implies(w.is_(k, v), z3.And(sp.code(v) == ord(c), sp.sigOf(v) == z3.Unit(I(ord(c))) if k in BASIC else True)))

    # ------------------------------------------------------------ definition
    def rebuild(self, short, v, **kw):
        """v with some leaves replaced"""
        w = self.sp.w
        args = []
        for p, t in w.val_leaves[T + short]:
            n = '.'.join(p)
            args.append(kw[n] if n in kw else w.acc(short, n, v))
        return w.mk(short)(*args)

    def bytes(self, ctx, B, p, n, sw):
        bs = [ctx.el(B, simp(p + i)) for i in range(n)]
        if sw:
            bs = bs[::-1]
        return z3.Sum([bs[i] * (1 << (8 * i)) for i in range(n)]) if n > 1 else bs[0]

    def skip(self, ctx, p, d, a):
        """padding to the alignment"""
        if a == 1:
            return I(0)
        k = ctx.choose(a, [simp((p + d) % a == (a - k) % a) for k in range(a)])
        return I(k)

    def decode(self, ctx, short, V, B, p, e, d, sw, dep):
        """(end, value) or None if the bytes are not such a value"""
        w = self.sp.w
        sp = self.sp
        sw = ctx.branch(sw)
        swz = z3.BoolVal(sw)
        if not ctx.branch(dep < MAXDEPTH):
            return None
        if short in ('Empty', 'Other'):
            return None

        def padded(a, p):
            p1 = simp(p + self.skip(ctx, p, d, a))
            return p1 if ctx.branch(p1 <= e) else None
        if short in SIZE:
            n = SIZE[short]
            p1 = padded(ALIGN[short], p)
            if p1 is None or not ctx.branch(p1 + n <= e):
                return None
            u = self.bytes(ctx, B, p1, n, sw)
            f = w.acc(short, 'm_Value', V)
            if short in SIGNED:
                u = z3.If(u >= (1 << (8 * n - 1)), u - (1 << (8 * n)), u)
            if f.sort() == BOOL:
                u = u != 0
            return simp(p1 + n), self.rebuild(short, V, m_Value=u)
        if short in ('String', 'ObjectPath', 'Signature'):
            k = 1 if short == 'Signature' else 4
            p1 = padded(k, p)
            if p1 is None or not ctx.branch(p1 + k <= e):
                return None
            n = self.bytes(ctx, B, p1, k, sw)
            p2 = simp(p1 + k)
            # the terminating NUL is part of the value
            if not ctx.branch(p2 + n + 1 <= e):
                return None
            s = ctx.extract(B, p2, n)
            return simp(p2 + n + 1), self.rebuild(short, V, m_Value=s)
        if short == 'Struct':
            p1 = padded(8, p)
            if p1 is None:
                return None
            S = simp(w.acc('Struct', 'm_Signature', V))
            a = (S, I(1), B, p1, e, d, swz, simp(dep + 1))
            self.unfold_s(ctx, *a)
            if not ctx.branch(self.sOk(*a)):
                return None
            return self.sEnd(*a), self.rebuild('Struct', V, m_Value=self.sVals(*a))
        if short == 'DictEntry':
            p1 = padded(8, p)
            if p1 is None:
                return None
            S = simp(w.acc(short, 'm_Signature', V))
            if not ctx.branch(ctx.length(S) >= 2):
                return None
            k = ctx.el(S, I(1))
            if not ctx.branch(z3.Or([k == ord(CODES[b]) for b in BASIC] + [k == ord('h')])):
                return None
            v1 = self.created(ctx, z3.Unit(k))
            a1 = (v1, B, p1, e, d, swz, simp(dep + 1))
            if not ctx.branch(self.ok(*a1)):
                return None
            p2 = self.endof(ctx, *a1)
            v2 = self.created(ctx, sp_ext(sp)(S, I(2)))
            a2 = (v2, B, p2, e, d, swz, simp(dep + 1))
            if not ctx.branch(self.ok(*a2)):
                return None
            return self.endof(ctx, *a2), self.rebuild(short, V, **{'m_Value.first': self.val(*a1), 'm_Value.second': self.val(*a2)})
        if short == 'Variant':
            if not ctx.branch(p + 1 <= e):
                return None
            n = ctx.el(B, p)
            if not ctx.branch(p + 2 + n <= e):
                return None
            sg = ctx.extract(B, simp(p + 1), n)
            v1 = self.created(ctx, sg)
            a1 = (v1, B, simp(p + 2 + n), e, d, swz, simp(dep + 1))
            if not ctx.branch(self.ok(*a1)):
                return None
            return self.endof(ctx, *a1), self.rebuild('Variant', V, m_ContainedSignature=sg, m_Value=self.val(*a1))
        if short == 'Array':
            p1 = padded(4, p)
            if p1 is None or not ctx.branch(p1 + 4 <= e):
                return None
            n = self.bytes(ctx, B, p1, 4, sw)
            S = simp(w.acc('Array', 'm_Signature', V))
            es = sp_ext(sp)(S, I(1))
            ctx.assume(ctx.el(es, I(0)) == sp.at(ctx, S, 1))
            al = sp.align_of(ctx, simp(sp.at(ctx, S, 1)))
            p2 = simp(p1 + 4)
            p3 = padded(al, p2)
            if p3 is None or not ctx.branch(p3 + n <= e):
                return None
            pe = simp(p3 + n)
            a = (es, B, p3, pe, d, swz, simp(dep + 1))
            self.unfold_a(ctx, *a)
            if not ctx.branch(self.aOk(*a)):
                return None
            return pe, self.rebuild('Array', V, contents=self.aVals(*a))
        raise KeyError(short)

    def endof(self, ctx, V, B, p, e, d, sw, dep):
        """end of a decoded value: at least one byte further, within the limit"""
        x = self.end(V, B, p, e, d, sw, dep)
        ctx.assume(z3.And(x > p, x <= e))
        return x

    def unfold_a(self, ctx, sg, B, p, pe, d, sw, dep):
        v = self.init(sg)
        a = (v, B, p, pe, d, sw, dep)
        q = self.end(*a)
        done = simp(p >= pe)
        ctx.assume(self.aOk(sg, B, p, pe, d, sw, dep) == z3.If(done, True, z3.And(self.ok(*a), self.aOk(sg, B, q, pe, d, sw, dep))))
        ctx.assume(self.aVals(sg, B, p, pe, d, sw, dep) == z3.If(
            done, z3.Empty(self.sp.VS), z3.Concat(z3.Unit(self.val(*a)), self.aVals(sg, B, q, pe, d, sw, dep))))

    def unfold_s(self, ctx, S, i, B, p, e, d, sw, dep):
        g = sp_ext(self.sp)(S, i)
        v = self.init(g)
        a = (v, B, p, e, d, sw, dep)
        q = self.end(*a)
        j = simp(i + z3.Length(g))
        more = simp(j < z3.Length(S) - 1)
        r = (S, j, B, q, e, d, sw, dep)
        ctx.assume(self.sOk(S, i, B, p, e, d, sw, dep) == z3.And(self.ok(*a), z3.If(more, self.sOk(*r), True)))
        ctx.assume(self.sEnd(S, i, B, p, e, d, sw, dep) == z3.If(more, self.sEnd(*r), q))
        one = z3.Unit(self.val(*a))
        ctx.assume(self.sVals(S, i, B, p, e, d, sw, dep) == z3.If(more, z3.Concat(one, self.sVals(*r)), one))


# ------------------------------------------------------------------ contracts
def stream_state(m, st):
    """(Buf, p, size, offset, swap, depth) of a MessageIStream"""
    s = st.get(m)
    d = s.f['m_data']
    ptr = d.f['m_data']
    if not isinstance(ptr, PtrV) or ptr.kind != 'buf':
        raise Unsupported('stream data pointer %r' % (ptr,))
    return ptr.a, ptr.b, d.f['m_size'], s.f['m_offset'], s.f['m_swapByteOrder'], s.f['m_depth']


def set_stream(m, st, buf, p, size, off):
    st.sub(('f', 'm_data'), 'DBus::OctetBuffer').sub(('f', 'm_data'), 'const unsigned char *').set(m, PtrV('buf', buf, simp(p)))
    st.sub(('f', 'm_data'), 'DBus::OctetBuffer').sub(('f', 'm_size'), 'unsigned long').set(m, simp(size))
    st.sub(('f', 'm_offset'), 'unsigned long').set(m, simp(off))


def havoc_stream(m, st, buf, p, n, off):
    k = m.ctx.fresh_int('consumed', 0)
    m.ctx.assume(k <= n)
    set_stream(m, st, buf, p + k, n - k, off + k)


def c_create(dec):
    def c(m, f, this, args):
        s = args[0].get(m)
        return m.any_of(dec.created(m.ctx, s))
    return c


def throw_any(m):
    raise CppThrow(['std::runtime_error', 'std::out_of_range'][m.ctx.choose(2)])


def c_unmarshallData(dec):
    def c(m, f, this, args):
        ctx = m.ctx
        v = args[0].get(m)
        st = args[1]
        buf, p, n, off, sw, dep = stream_state(m, st)
        B = buf.content(m)
        z = m.pack_any(v)
        m.oblige_safe('unmarshallData: the stream lies within its buffer', z3.And(p >= 0, n >= 0, p + n <= ctx.length(B)))
        ctx.oblige('unmarshallData: the value is freshly created', dec.freshV(z))
        limit(m, dec, dep)
        swz = z3.BoolVal(ctx.branch(sw))
        a = (z, B, p, simp(p + n), simp(off - p), swz, dep)
        if not ctx.branch(dec.ok(*a)):
            havoc_stream(m, st, buf, p, n, off)
            throw_any(m)
        q = dec.endof(ctx, *a)
        set_stream(m, st, buf, q, p + n - q, off + q - p)
        args[0].set(m, m.any_of(dec.val(*a)))
        return None
    return c


def limit(m, dec, dep):
    """well-founded recursion: the depth counter strictly grows towards its limit"""
    d0 = m.ghost.get('depth0')
    if d0 is not None:
        m.ctx.oblige('terminates: nested values are decoded at a greater depth', z3.And(dep > d0, d0 < MAXDEPTH))


def c_structUnmarshall(dec):
    """Struct::unmarshall: the members its signature lists; requires no members yet"""
    def c(m, f, this, args):
        ctx = m.ctx
        st = args[0]
        buf, p, n, off, sw, dep = stream_state(m, st)
        B = buf.content(m)
        S = this.sub(('f', 'm_Signature'), 'std::string').get(m)
        vals = this.sub(('f', 'm_Value'), 'std::vector<boost::any>')
        m.oblige_safe('Struct::unmarshall: the stream lies within its buffer', z3.And(p >= 0, n >= 0, p + n <= ctx.length(B)))
        ctx.oblige('Struct::unmarshall: the struct has no members yet', z3.Length(vals.get(m)) == 0)
        limit(m, dec, dep)
        swz = z3.BoolVal(ctx.branch(sw))
        e, d = simp(p + n), simp(off - p)
        p1 = simp(p + dec.skip(ctx, p, d, 8))
        a = (S, I(1), B, p1, e, d, swz, dep)
        if not ctx.branch(p1 <= e) or not ctx.branch(dec.sOk(*a)):
            havoc_stream(m, st, buf, p, n, off)
            vals.set(m, ctx.fresh('members', dec.sp.VS))
            throw_any(m)
        q = dec.sEnd(*a)
        ctx.assume(z3.And(q > p, q <= e))
        set_stream(m, st, buf, q, e - q, q + d)
        dec.unfold_s(ctx, *a)
        vals.set(m, dec.sVals(*a))
        dec.typed(ctx, ctx.el(dec.sVals(*a), I(0)))
        return None
    return c


def struct_unmarshall_task(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        dec = Dec(sp)
        m.contracts.update(decode_contracts(sp, dec))
        m.templates = [dec_templates(sp, dec)]
        m.measures = stream_measures
        st, B, p, n, off, sw, dep = stream_value(m, ctx)
        cls = T + 'Struct'
        v = m.fresh_value(cls, 'struct')
        S = ctx.fresh_bytes('signature', 2 ** 40)
        ctx.assume(z3.Length(S) > 0)
        ctx.inputs.append(('signature', S))
        v = StructV(v.cls, dict(v.f, m_Value=z3.Empty(sp.VS), m_Signature=S))
        this = LV(m.new_cell('struct', cls, v))
        f = world.prog.find(cls + '::unmarshall', 'MessageIStream')
        res, x = guarded(m, lambda: m.call_body(f, this, [st]))
        ctx.where = f['q']
        sw = z3.BoolVal(ctx.branch(sw))
        e, d = simp(p + n), simp(off - p)
        p1 = simp(p + dec.skip(ctx, p, d, 8))
        a = (S, I(1), B, p1, e, d, sw, dep)
        dec.unfold_s(ctx, *a)
        if not ctx.branch(p1 <= e) or not ctx.branch(dec.sOk(*a)):
            ctx.oblige('bytes that are no such members are refused', res == 'throw')
            if res == 'throw':
                ctx.oblige('refused by an exception derived from std::exception', exc_matches(x.cls, 'std::exception'))
            return
        ctx.oblige('never throws when the members are there', res == 'ok')
        buf, p2, n2, off2, sw2, dep2 = stream_state(m, st)
        end = dec.sEnd(*a)
        ctx.oblige('the stream is left right behind the members', z3.And(p2 == end, n2 == e - end))
        ctx.oblige('at least one byte is consumed', z3.And(end > p, end <= e))
        ctx.oblige('the alignment offset moves with the position', off2 - p2 == d)
        ctx.oblige('the nesting depth is unchanged', dep2 == dep)
        ctx.oblige('exactly the members that the bytes encode', this.get(m).f['m_Value'] == dec.sVals(*a))
    return run


def decode_contracts(sp, dec):
    return {
        'DBus::Log::write': c_nothing,
        'DBus::Type::getAlignment': c_getAlignment(sp),
        'DBus::Type::extractSignature': c_extractSignature(sp),
        'DBus::Type::getMarshallingSignature': c_getMarshallingSignature(sp),
        'DBus::Type::create': c_create(dec),
        'DBus::Type::unmarshallData': c_unmarshallData(dec),
    }


# ------------------------------------------------------------------ loop invariants
def dec_templates(sp, dec):
    def t(m, L):
        out = []
        ctx = m.ctx
        streams = streams_in_scope(m)
        strings = strings_in_scope(m)
        for n, s0, get in L.seqs(m, sp.VS):
            for sn, st in streams:
                try:
                    buf, p0, n0, off0, sw, dep = stream_state(m, st)
                except Unsupported:
                    continue
                B = buf.content(m)
                swz = z3.BoolVal(ctx.branch(sw))
                e0 = simp(p0 + n0)
                d0 = simp(off0 - p0)
                for gn, sg in strings:
                    def args(m, st=st, sg=sg, B=B, e0=e0, d0=d0, swz=swz, dep=dep):
                        _, p, k, off, _, _ = stream_state(m, st)
                        return (sg, B, simp(p), e0, d0, swz, dep)
                    a0 = (sg, B, p0, e0, d0, swz, dep)

                    def inv(m, s0=s0, get=get, args=args, a0=a0):
                        a = args(m)
                        dec.unfold_a(ctx, *a)
                        dec.created(ctx, a[0])
                        return z3.Concat(get(m), dec.aVals(*a)) == z3.Concat(s0, dec.aVals(*a0)) if True else None

                    def invok(m, args=args, a0=a0):
                        return dec.aOk(*args(m)) == dec.aOk(*a0)
                    nm = '%s,%s,%s' % (n, sn, gn)
                    out.append(('remaining elements ' + nm, inv))
                    out.append(('remaining elements decodable ' + nm, invok))
                    for n2, i0, gi in L.atoms(m):
                        if 'm_' in n2:
                            continue

                        def sargs(m, args=args, gi=gi):
                            a = args(m)
                            return (a[0], simp(gi(m))) + a[1:]
                        b0 = (sg, i0) + a0[1:]

                        def rest(a, f, none):
                            return z3.If(a[1] < z3.Length(a[0]) - 1, f(*a), none)

                        def sinv(m, s0=s0, get=get, sargs=sargs, b0=b0):
                            a = sargs(m)
                            dec.unfold_s(ctx, *a)
                            dec.created(ctx, sp_ext(sp)(a[0], a[1]))
                            return z3.Concat(get(m), rest(a, dec.sVals, z3.Empty(sp.VS))) == z3.Concat(s0, rest(b0, dec.sVals, z3.Empty(sp.VS)))

                        def sokinv(m, sargs=sargs, b0=b0):
                            return rest(sargs(m), dec.sOk, z3.BoolVal(True)) == rest(b0, dec.sOk, z3.BoolVal(True))

                        def sendinv(m, sargs=sargs, b0=b0):
                            a = sargs(m)
                            return rest(a, dec.sEnd, a[3]) == rest(b0, dec.sEnd, b0[3])
                        nm2 = nm + ',' + n2
                        out.append(('remaining members ' + nm2, sinv))
                        out.append(('remaining members decodable ' + nm2, sokinv))
                        out.append(('end of members ' + nm2, sendinv))
        return out
    return t


def scope_lvs(m):
    fr = m.frames[-1]
    out = []
    if isinstance(fr.this, LV):
        out.append(('this', fr.this))
    for i, x in fr.vars.items():
        lv = x.lv if isinstance(x, RefV) else x
        if isinstance(lv, LV):
            out.append((lv.cell.name, lv))
    return out


def streams_in_scope(m):
    out = []
    for n, lv in scope_lvs(m):
        try:
            v = lv.get(m)
        except Unsupported:
            continue
        if isinstance(v, StructV) and v.cls == 'DBus::MessageIStream':
            out.append((n, lv))
    return out


def strings_in_scope(m):
    out, seen = [], set()

    def visit(n, lv, v, d):
        if z3.is_expr(v) and v.sort() == BYTES:
            if v.get_id() not in seen:
                seen.add(v.get_id())
                out.append((n, v))
        elif isinstance(v, StructV) and d < 2 and v.cls != 'DBus::MessageIStream':
            for k, x in v.f.items():
                visit(n + '.' + k, lv, x, d + 1)
    for n, lv in scope_lvs(m):
        try:
            visit(n, lv, lv.get(m), 0)
        except Unsupported:
            pass
    return out


# ------------------------------------------------------------------ tasks
def stream_value(m, ctx):
    """an arbitrary stream over an arbitrary buffer"""
    B = ctx.fresh_bytes('bytes', 2 ** 40)
    buf = Buf('bytes', B)
    p = ctx.fresh_int('position', 0, 2 ** 40)
    n = ctx.fresh_int('remaining', 0, 2 ** 40)
    ctx.assume(p + n <= ctx.length(B))
    q = ctx.fresh_int('q', 0, 2 ** 40)
    r = ctx.choose(8)
    off = simp(8 * q + r)
    ctx.bounds[off.get_id()] = (0, 2 ** 44)
    sw = z3.BoolVal(ctx.choose(2) == 1)
    dep = ctx.fresh_int('depth', 0, MAXDEPTH)
    ctx.inputs += [('bytes', B), ('position', p), ('remaining', n), ('offset mod 8', I(r)), ('swap', sw), ('depth', dep)]
    s = StructV('DBus::MessageIStream', {
        'm_data': StructV('DBus::OctetBuffer', {'m_data': PtrV('buf', buf, p), 'm_size': n}),
        'm_offset': off, 'm_swapByteOrder': sw, 'm_depth': dep})
    return LV(m.new_cell('stream', 'DBus::MessageIStream', s)), B, p, n, off, sw, dep


def unmarshall_task(world, short):
    def run(ctx):
        m, sp = machine(world, ctx)
        dec = Dec(sp)
        m.contracts.update(decode_contracts(sp, dec))
        m.templates = [dec_templates(sp, dec)]
        V = ctx.fresh('result', world.Val)
        ctx.inputs.append(('result', V))
        ctx.assume(world.is_(short, V))
        st, B, p, n, off, sw, dep = stream_value(m, ctx)
        dec.unfold_fresh(ctx, short, V)
        ctx.assume(dec.freshV(V))
        sp.unfold_code(ctx, short, V)
        sp.unfold_wf(ctx, short, V)
        if short in ('Array', 'DictEntry', 'Struct'):
            # create gives the value the signature that starts with its code
            S = world.acc(short, 'm_Signature', V)
            ctx.assume(z3.And(z3.Length(S) > 0, ctx.el(S, I(0)) == ord(CODES[short])))
        res_lv = LV(m.new_cell('result', 'boost::any', m.any_of(V)))
        m.ghost['depth0'] = dep
        m.measures = stream_measures
        f = world.prog.find('DBus::Type::unmarshallData', 'any', 'MessageIStream')
        res, x = guarded(m, lambda: m.call_body(f, None, [res_lv, st]))
        e, d = simp(p + n), simp(off - p)
        want = dec.decode(ctx, short, V, B, p, e, d, sw, dep)
        ctx.where = 'DBus::Type::unmarshallData'
        if want is None:
            ctx.oblige('bytes that are no such value are refused (%s)' % short, res == 'throw')
            if res == 'throw':
                ctx.oblige('refused by an exception derived from std::exception', exc_matches(x.cls, 'std::exception'))
            ctx.ex.reached['refused'] = 1
            return
        ctx.oblige('never throws when the value is there (%s)' % short, res == 'ok')
        ctx.ex.reached['decoded'] = 1
        end, val = want
        buf, p2, n2, off2, sw2, dep2 = stream_state(m, st)
        ctx.oblige('the stream is left right behind the value', z3.And(p2 == end, n2 == e - end))
        ctx.oblige('the alignment offset moves with the position', off2 - p2 == d)
        ctx.oblige('the nesting depth is restored', dep2 == dep)
        ctx.oblige('at least one byte is consumed', z3.And(end > p, end <= e))
        got = m.pack_any(res_lv.get(m))
        eqs = []
        for pth, t in world.val_leaves[T + short]:
            nm = '.'.join(pth)
            eqs.append(ctx.split_eq(world.acc(short, nm, got) == world.acc(short, nm, val)) if False else simp(world.acc(short, nm, got) == world.acc(short, nm, val)))
        ctx.oblige('the value has the type of its signature', simp(world.is_(short, got)))
        for q in eqs:
            ctx.oblige('exactly the value that the bytes encode (%s)' % short, q)
    return run


def stream_measures(m, L):
    """loops that decode terminate because the unread bytes shrink"""
    out = []
    for n, st in streams_in_scope(m):
        def g(m, st=st):
            _, p, k, _, _, _ = stream_state(m, st)
            return k
        out.append(('unread bytes of %s' % n, g))
    for n, v, g in L.atoms(m):
        for lim in list(L.bounds(m)) if hasattr(L, 'bounds') else []:
            out.append((n, lambda m, g=g, lim=lim: lim - g(m)))
    return out


def tasks(world, which):
    return [Task('unmarshallData(%s)' % s, unmarshall_task(world, s), budget=300) for s in which]
