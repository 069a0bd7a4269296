"""C13, C14, C16: outgoing and received messages."""
import z3
from .core import *
from .values import *
from .spec import *
from .task import *
from .contracts import *
from .interp import Machine
from . import models
from .t_types import machine, string_lv, sigs_templates, c_asString, txt_fn
from .t_marshal import enc_templates
from .t_decode import Dec, decode_contracts, c_structUnmarshall, struct_unmarshall_task

MSG = 'DBus::Message::'
PARAMS = ('m_Parameters', 'm_Contents', 'm_TypeList')
KIND = {'MethodCall': 1, 'MethodReturn': 2, 'Error': 3, 'Signal': 4}
F_PATH, F_INTERFACE, F_MEMBER, F_ERROR, F_REPLY, F_DEST, F_SENDER, F_SIG = range(1, 9)


def path_lv(lv, *names):
    for n in names:
        lv = lv.sub(('f', n), '')
    return lv


# ------------------------------------------------------------------ Array::marshallContents
def c_marshallContents(sp):
    """requires well-formed elements; appends their encodings"""
    def c(m, f, this, args):
        ctx = m.ctx
        vs = this.get(m).f['contents']
        d = args[0].sub(('f', 'data'), 'std::string')
        out = d.get(m)
        unfold_deep(ctx, sp, vs)
        m.oblige_safe('marshallContents: the elements are well-formed', sp.wfFrom(vs, I(0)))
        m.ghost.setdefault('contents', []).append((vs, ctx.length(out)))
        if not ctx.branch(sp.canEncFrom(vs, I(0))):
            d.set(m, ctx.concat(out, ctx.fresh_bytes('partial')))
            raise CppThrow('std::length_error')
        e = sp.encFrom(vs, I(0), ctx.length(out))
        ctx.assume(z3.Length(e) < 2 ** 32)
        d.set(m, ctx.concat(out, e))
        ctx.assume(ctx.length(d.get(m)) < 2 ** 32)
        return None
    return c


def known(world, v):
    """the class of a value that is an explicit constructor application"""
    for k in world.vk:
        if z3.is_true(simp(world.is_(k, v))):
            return k
    return None


def unfold_deep(ctx, sp, vs):
    """well-formedness and encodability of a sequence of explicit values"""
    w = sp.w
    ps = ctx.parts(vs)
    if not all(z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT) for p in ps):
        return

    def one(v):
        k = known(w, v)
        if k is None:
            return
        sp.unfold_wf(ctx, k, v)
        sp.unfold_code(ctx, k, v)
        if k == 'Struct':
            inner = simp(w.acc('Struct', 'm_Value', v))
            unfold_deep(ctx, sp, inner)
            ctx.assume(sp.canEnc(v) == sp.canEncFrom(inner, I(0)))
        elif k == 'Variant':
            a = simp(w.acc(k, 'm_Value', v))
            one(a)
            sg = simp(w.acc(k, 'm_ContainedSignature', v))
            ctx.assume(sp.canEnc(v) == z3.And(ctx.length(sg) <= 255, sp.canEnc(a)))
        elif k == 'Signature':
            ctx.assume(sp.canEnc(v) == (ctx.length(simp(w.acc(k, 'm_Value', v))) <= 255))
        elif k in BASIC:
            ctx.assume(sp.canEnc(v))
    for i, p in enumerate(ps):
        one(p.arg(0))
    for i in range(len(ps) + 1):
        sp.unfold_wfFrom(ctx, vs, I(i))
        ctx.assume(sp.canEncFrom(vs, I(i)) == (z3.And(sp.canEnc(ps[i].arg(0)), sp.canEncFrom(vs, I(i + 1))) if i < len(ps) else True))


def t_contents(world):
    def run(ctx):
        m, sp = machine(world, ctx, 'align', 'ext', 'sig', 'marshal')
        m.templates = [enc_templates(sp)]
        vs = ctx.fresh('contents', sp.VS)
        ctx.assume(z3.Length(vs) <= 2 ** 40)
        ctx.inputs.append(('contents', vs))
        out0 = ctx.fresh_bytes('out', 2 ** 31)
        v = m.fresh_value(T + 'Array', 'array')
        v = StructV(v.cls, dict(v.f, contents=vs))
        this = LV(m.new_cell('array', T + 'Array', v))
        st = LV(m.new_cell('stream', 'DBus::MessageOStream', StructV('DBus::MessageOStream', {'data': out0})))
        ctx.assume(sp.wfFrom(vs, I(0)))
        f = world.prog.find(T + 'Array::marshallContents', 'MessageOStream')
        res, x = guarded(m, lambda: m.call_body(f, this, [st]))
        out = st.get(m).f['data']
        ctx.where = f['q']
        if res == 'ok':
            ctx.oblige('returns only for encodable elements', sp.canEncFrom(vs, I(0)))
            ctx.oblige('appends exactly the encodings of the elements', out == ctx.concat(out0, sp.encFrom(vs, I(0), ctx.length(out0))))
        else:
            ctx.oblige('throws only for elements that cannot be encoded', z3.Not(sp.canEncFrom(vs, I(0))))
    return run


# ------------------------------------------------------------------ lemma: alignment repeats every 8 bytes
def t_shift(world, short):
    def run(ctx):
        m, sp = machine(world, ctx)
        V = ctx.fresh('value', world.Val)
        ctx.assume(world.is_(short, V))
        q = ctx.fresh_int('q', 0, 2 ** 28)
        r = ctx.choose(8)
        p = simp(8 * q + r)
        ctx.inputs += [('value', V), ('position', p)]
        ctx.where = 'lemma'
        w = world
        # the induction hypotheses, for what the value contains
        if short in ('Struct', 'Array'):
            vs = simp(w.acc(short, 'm_Value' if short == 'Struct' else 'contents', V))
            x = ctx.fresh_int('x')
            ctx.axioms_forall = None
        e1, c1 = sp.encoding(ctx, short, V, p)
        e2, c2 = sp.encoding(ctx, short, V, simp(p + 8))
        for e in (e1, e2):
            hyps(ctx, sp, e)
        ctx.oblige('a %s is encoded alike 8 bytes further' % short, e1 == e2)
    return run


def hyps(ctx, sp, e):
    """instances of the induction hypothesis for the encodings occurring in e: every
    position is replaced by the one 8 bytes before or after it"""
    seen = set()

    def visit(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        for c in t.children():
            visit(c)
        if z3.is_app(t) and t.decl().name() in ('enc', 'encFrom'):
            a = t.children()
            for k in (8, -8):
                ctx.assume(t == t.decl()(*(a[:-1] + [simp(a[-1] + k)])))
    visit(e)


def t_shift_seq(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        vs = ctx.fresh('values', sp.VS)
        i = ctx.fresh_int('i', 0)
        p = ctx.fresh_int('position', 0, 2 ** 31)
        ctx.where = 'lemma'
        sp.unfold_encFrom(ctx, vs, i, p)
        sp.unfold_encFrom(ctx, vs, i, simp(p + 8))
        v = ctx.el(vs, i)
        ctx.assume(sp.enc(v, p) == sp.enc(v, simp(p + 8)))
        q = simp(p + z3.Length(sp.enc(v, p)))
        # induction on the number of elements left
        ctx.assume(z3.Implies(i < ctx.length(vs), sp.encFrom(vs, i + 1, q) == sp.encFrom(vs, i + 1, q + 8)))
        ctx.oblige('a sequence is encoded alike 8 bytes further', sp.encFrom(vs, i, p) == sp.encFrom(vs, i, simp(p + 8)))
    return run


# ------------------------------------------------------------------ C13
def field_value(ctx, world, v):
    """(code, class, signature, value) of a header field struct, or None"""
    if known(world, v) != 'Struct':
        return None
    ps = ctx.parts(simp(world.acc('Struct', 'm_Value', v)))
    if len(ps) != 2 or not all(z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT) for p in ps):
        return None
    a, b = ps[0].arg(0), ps[1].arg(0)
    if known(world, a) != 'Byte' or known(world, b) != 'Variant':
        return None
    x = simp(world.acc('Variant', 'm_Value', b))
    k = known(world, x)
    if k not in ('String', 'ObjectPath', 'Signature', 'Uint32'):
        return None
    return (simp(world.acc('Byte', 'm_Value', a)), k, simp(world.acc('Variant', 'm_ContainedSignature', b)),
            simp(world.acc(k, 'm_Value', x)))


def outgoing(m, ctx, world, short):
    """an arbitrary message of this kind as its public functions build it: (object, what it must say)"""
    cls = MSG + short
    ctor = [f for f in world.prog.by_q[cls + '::' + short] if f.get('ctor') and not f.get('copyctor') and f['params']
            and not any('Struct' in p['t'] for p in f['params'])]
    if len(ctor) != 1:
        raise Unsupported('%d constructors of %s' % (len(ctor), cls))
    f = ctor[0]
    o = LV(m.new_cell('message', cls, m.blank(cls)))
    want = {'flags': I(0)}
    ids = {}
    ps = ctx.fresh('parameters', Spec(world).VS)
    ctx.assume(z3.Length(ps) <= 2 ** 30)
    args = []
    for i, p in enumerate(f['params']):
        t = base(p['t'])
        n = p['name'] or 'arg%d' % i
        if t == MSG + 'MethodCallIdentifier':
            v = m.fresh_value(t, n)
            ids = v.f
            for k in v.f:
                ctx.assume(ctx.length(v.f[k]) < 2 ** 31)
            args.append(LV(m.new_cell(n, t, v)))
        elif t == MSG + 'MethodCallParametersIn':
            v = m.fresh_value(t, n)
            lv = LV(m.new_cell(n, t, v))
            path_lv(lv, *PARAMS[1:]).set(m, ps)
            args.append(lv)
        elif t in INTS:
            v = m.fresh_value(t, n)
            ctx.inputs.append((n, v))
            if short == 'MethodCall':
                want['flags'] = v
            else:
                want['reply'] = v
            args.append(v)
        elif t in STRINGS:
            s = ctx.fresh_bytes(n, 2 ** 31 - 1)
            ctx.inputs.append((n, s))
            want['error' if 'error' not in want else 'message'] = s
            args.append(string_lv(m, n, s))
        else:
            raise Unsupported('constructor parameter of type ' + p['t'])
    m.run_ctor(f, o, args)
    P = path_lv(o, *PARAMS)
    if short in ('MethodReturn', 'Signal'):
        ctx.oblige('a new message has no parameters', z3.Length(P.get(m)) == 0)
        P.set(m, ps)
    elif short == 'Error':
        v = P.get(m)
        x = world.mk('String')
        ctx.oblige('the parameter of an error is its message', z3.And(
            z3.Length(v) == 1, world.is_('String', ctx.el(v, I(0))), world.acc('String', 'm_Value', ctx.el(v, I(0))) == want['message']))
        ps = v
    elif short == 'MethodCall':
        ctx.oblige('the parameters of a call are the caller\'s', P.get(m) == ps)
    want['ids'] = ids
    want['params'] = ps
    return o, want


def t_outgoing(world, short):
    def run(ctx):
        m, sp = machine(world, ctx, 'align', 'ext', 'sig', 'marshal')
        m.contracts[T + 'Array::marshallContents'] = c_marshallContents(sp)
        m.templates = [enc_templates(sp), sigs_templates(sp)]
        o, want = outgoing(m, ctx, world, short)
        ps = want['params']
        ctx.inputs.append(('parameters', ps))
        unfold_deep(ctx, sp, ps)
        ctx.assume(sp.wfFrom(ps, I(0)))
        sp.unfold_encFrom(ctx, ps, I(0), I(0))
        ctx.assume(ctx.length(sp.encFrom(ps, I(0), I(0))) < 2 ** 31)
        dest = ctx.fresh_bytes('destination', 2 ** 31 - 1)
        ctx.inputs.append(('destination', dest))
        serial = path_lv(o, 'm_Header', 'serial').get(m)
        f = world.prog.find(MSG + short + '::marshall', 'string')
        sigs = sp.sigsFrom(ps, I(0))
        ctx.assume(z3.Length(sigs) <= 2 ** 40)
        for i in range(2):
            ctx.assume(sp.sigsFrom(ps, I(i)) == z3.If(I(i) >= z3.Length(ps), EMPTY, z3.Concat(sp.sigOf(ctx.el(ps, I(i))), sp.sigsFrom(ps, I(i + 1)))))
        sp.unfold_encFrom(ctx, ps, I(1), simp(z3.Length(sp.enc(ctx.el(ps, I(0)), I(0)))))
        res, out = guarded(m, lambda: m.call_body(f, o, [string_lv(m, 'destination', dest)]))
        ctx.where = f['q']
        if res != 'ok':
            ctx.oblige('marshalling fails only when a parameter cannot be encoded or the signature is too long',
                       z3.Or(z3.Not(sp.canEncFrom(ps, I(0))), z3.Length(sigs) > 255))
            return
        got = m.ghost.get('contents', [])
        if len(got) != 1:
            raise Unsupported('the header fields are not written by one call of Array::marshallContents')
        vs, pos = got[0]
        parts = ctx.parts(vs)
        ids = want['ids']
        L = lambda t: models.lit(m, t)
        fields = {}
        if short in ('MethodCall', 'Signal'):
            fields[F_PATH] = ('ObjectPath', 'o', ids['m_Object'], False)
            fields[F_INTERFACE] = ('String', 's', ids['m_Interface'], True)
            fields[F_MEMBER] = ('String', 's', ids['m_Method'], False)
        if short == 'Error':
            fields[F_ERROR] = ('String', 's', want['error'], False)
        if short in ('MethodReturn', 'Error'):
            fields[F_REPLY] = ('Uint32', 'u', want['reply'], False)
        fields[F_DEST] = ('String', 's', dest, True)
        fields[F_SIG] = ('Signature', 'g', sigs, True)
        present = set()
        for p in parts:
            fv = field_value(ctx, world, p.arg(0)) if z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT) else None
            if fv is None or not z3.is_int_value(fv[0]):
                raise Unsupported('header fields that are not built explicitly')
            c, k, sg, v = fv
            c = c.as_long()
            if c not in fields or c in present:
                ctx.oblige('only the header fields of its kind, once each (field %d)' % c, False)
                return
            present.add(c)
            kk, ks, kv, _ = fields[c]
            ctx.oblige('header field %d has its type' % c, z3.And(k == kk, sg == L(ks)))
            ctx.oblige('header field %d has the value given' % c, v == kv)
        for c, (_, _, v, opt) in fields.items():
            if c not in present:
                # an empty name may be left out; the signature only without parameters
                ctx.oblige('header field %d is present' % c, (z3.Length(ps) == 0 if c == F_SIG else z3.Length(v) == 0) if opt else False)
        ctx.oblige('header fields start on a boundary of 8', pos % 8 == 0)
        F = sp.encFrom(vs, I(0), pos)
        n = ctx.length(F)
        k = ctx.choose(8, [simp((16 + n) % 8 == (8 - j) % 8) for j in range(8)])
        B = sp.encFrom(ps, I(0), I(0))
        ctx.assume(F == sp.encFrom(vs, I(0), I(16)))            # lemma: alignment repeats
        ctx.assume(B == sp.encFrom(ps, I(0), simp(16 + n + k)))
        ctx.assume(B == sp.encFrom(ps, I(0), simp(16 + z3.Length(sp.encFrom(vs, I(0), I(16))) + k)))
        fl = ctx.fresh_int('flag byte', 0, 255)
        fixed = ctx.concat(L('l'), z3.Unit(I(KIND[short])), z3.Unit(fl), z3.Unit(I(1)), sp.le(ctx, ctx.length(B), 4), sp.le(ctx, serial, 4),
                           sp.le(ctx, n, 4))
        fv = ctx.el(out, I(2))
        ctx.oblige('the flags are the caller\'s', z3.And(fv >= 0, fv < 8, fv % 4 == want['flags'] % 4))
        ctx.assume(fl == fv)
        ctx.oblige('a %s has the message layout' % short, out == ctx.concat(fixed, F, *([z3.Unit(I(0))] * k + [B])))
        ctx.oblige('the message keeps its serial', path_lv(o, 'm_Header', 'serial').get(m) == serial)
    return run


def t_add(world, f, cls, val):
    """adding a parameter appends exactly it"""
    def run(ctx):
        m, sp = machine(world, ctx)
        o = LV(m.new_cell('object', cls, m.fresh_value(cls, 'object')))
        P = path_lv(o, *[p for p in PARAMS if p != 'm_Parameters' or 'MethodCallParameters' not in cls])
        before = P.get(m)
        x = val(m, ctx)
        m.call_body(f, o, [x[0]])
        ctx.where = f['key']
        after = P.get(m)
        n = ctx.length(before)
        ctx.oblige('one parameter more, the others unchanged', z3.And(ctx.length(after) == n + 1, z3.PrefixOf(before, after)))
        ctx.oblige('exactly the given parameter is added', x[1](ctx.el(after, n)))
    return run


def add_tasks(world):
    out = []

    def generic(m, ctx):
        v = ctx.fresh('value', world.Val)
        return LV(m.new_cell('value', 'boost::any', m.any_of(v))), lambda e: e == v

    def number(t, k):
        def g(m, ctx):
            v = m.fresh_value(t, 'value')
            return v, lambda e: z3.And(world.is_(k, e), world.acc(k, 'm_Value', e) == v)
        return g

    def text(m, ctx):
        s = ctx.fresh_bytes('value')
        return string_lv(m, 'value', s), lambda e: z3.And(world.is_('String', e), world.acc('String', 'm_Value', e) == s)
    C = MSG + 'MethodCallParametersIn'
    for f in world.prog.by_q[C + '::add']:
        t = base(f['params'][0]['t'])
        v = generic if 'any' in t or 'Generic' in t else text if t in STRINGS else number(t, 'Byte' if 'char' in t else 'Uint32') if t in INTS else None
        if v is None:
            raise Unsupported('add of ' + t)
        out.append(Task('MethodCallParametersIn::add(%s)' % t, t_add(world, f, C, v)))
    for k in ('MethodReturn', 'Signal'):
        for f in world.prog.by_q[MSG + k + '::addParameter']:
            out.append(Task(k + '::addParameter', t_add(world, f, MSG + k, generic)))
    return out


def outgoing_tasks(world):
    out = [Task('message %s' % k, t_outgoing(world, k)) for k in KIND]
    out.append(Task('Array::marshallContents', t_contents(world)))
    out += [Task('lemma shift(%s)' % k, t_shift(world, k)) for k in BASIC + ['Array', 'Struct', 'DictEntry', 'Variant', 'Empty', 'Other']]
    out.append(Task('lemma shift(sequence)', t_shift_seq(world)))
    out += add_tasks(world)
    return out


# ------------------------------------------------------------------ C14, C16
STRFIELDS = {'path': F_PATH, 'interface': F_INTERFACE, 'member': F_MEMBER, 'destination': F_DEST, 'sender': F_SENDER,
             'signature': F_SIG}


class HeaderSpec:
    """what a received header's fields say: the text or number of each known field"""

    def __init__(self, sp):
        self.sp = sp
        VS = sp.VS
        self.txt = {k: z3.Function('field_' + k, VS, INT, BYTES, BYTES) for k in STRFIELDS}
        self.num = z3.Function('field_reply', VS, INT, INT, INT)
        self.shape = z3.Function('fields_shape', VS, INT, BOOL)
        self.good = z3.Function('fields_typed', VS, INT, BOOL)
        self.asnum = z3.Function('numberOf', sp.V, INT)
        self.isnum = z3.Function('hasNumber', sp.V, BOOL)

    def member(self, v, k):
        return self.sp.w.acc('Struct', 'm_Value', v)[k]

    def unfold(self, ctx, vs, i, cur):
        """facts about the fields from i on; cur: (kind, present value) of the locations followed"""
        sp, w = self.sp, self.sp.w
        n = ctx.length(vs)
        v = ctx.el(vs, i)
        more = simp(i + 1)
        ms = w.acc('Struct', 'm_Value', v)
        a, b = ctx.el(ms, I(0)), ctx.el(ms, I(1))
        shape = z3.And(w.is_('Struct', v), z3.Length(ms) == 2, w.is_('Byte', a), w.is_('Variant', b))
        ctx.assume(self.shape(vs, i) == z3.If(i >= n, True, z3.And(shape, self.shape(vs, more))))
        code = w.acc('Byte', 'm_Value', a)
        ctx.assume(z3.And(code >= 0, code < 256))
        inner = w.acc('Variant', 'm_Value', b)
        text = z3.Or([code == c for c in STRFIELDS.values()])
        ok = z3.And(z3.Implies(text, z3.Or([w.is_(k, inner) for k in ('String', 'ObjectPath', 'Signature')])),
                    z3.Implies(code == F_REPLY, w.is_('Uint32', inner)))
        ctx.assume(self.good(vs, i) == z3.If(i >= n, True, z3.And(ok, self.good(vs, more))))
        for k, x in cur:
            if k == 'reply':
                ctx.assume(self.num(vs, i, x) == z3.If(i >= n, x, self.num(vs, more, z3.If(code == F_REPLY, self.asnum(b), x))))
            else:
                ctx.assume(self.txt[k](vs, i, x) == z3.If(i >= n, x, self.txt[k](vs, more, z3.If(
                    code == STRFIELDS[k], txt_fn(w)(b), x))))

    def text_facts(self, ctx, z):
        """contract of asString / asUint32 on a value and, for a variant, on what it holds"""
        w = self.sp.w
        T = txt_fn(w)
        inner = w.acc('Variant', 'm_Value', z)

        def basic(x):
            for k in ('String', 'ObjectPath', 'Signature'):
                ctx.assume(z3.Implies(w.is_(k, x), T(x) == w.acc(k, 'm_Value', x)))
            ctx.assume(z3.Implies(w.is_('Uint32', x), z3.And(self.isnum(x), self.asnum(x) == w.acc('Uint32', 'm_Value', x))))
        basic(z)
        basic(inner)
        ctx.assume(z3.Implies(w.is_('Variant', z), z3.And(T(z) == T(inner), self.isnum(z) == self.isnum(inner),
                                                          self.asnum(z) == self.asnum(inner))))


def c_text(hs):
    """asString: the text of a string-like value, of what a variant holds"""
    def c(m, f, this, args):
        z = m.pack_any(args[0].get(m))
        hs.text_facts(m.ctx, z)
        r = txt_fn(hs.sp.w)(z)
        m.ctx.assume(z3.Length(r) <= 2 ** 40)
        return r
    return c


def c_uint32(hs):
    """asUint32: the number held; anything that does not read as one is refused by an exception"""
    def c(m, f, this, args):
        z = m.pack_any(args[0].get(m))
        hs.text_facts(m.ctx, z)
        if not m.ctx.branch(hs.isnum(z)):
            raise CppThrow(['std::invalid_argument', 'std::out_of_range'][m.ctx.choose(2)])
        r = hs.asnum(z)
        m.ctx.assume(z3.And(r >= 0, r < 2 ** 32))
        return r
    return c


def c_byte(hs):
    """asByte: the value of a byte; anything else reads as some byte or is refused"""
    def c(m, f, this, args):
        z = m.pack_any(args[0].get(m))
        w = hs.sp.w
        if m.ctx.branch(w.is_('Byte', z)):
            return w.acc('Byte', 'm_Value', z)
        if m.ctx.choose(2):
            raise CppThrow(['std::invalid_argument', 'std::out_of_range'][m.ctx.choose(2)])
        return m.ctx.fresh_int('byte', 0, 255)
    return c


def c_anytext(m, f, this, args):
    """toString: some text"""
    return m.ctx.fresh_bytes('text')


def header_templates(sp, hs):
    from .t_marshal import seqs_in_scope

    def t(m, L):
        out = []
        ctx = m.ctx
        # the sequence looped over when the loop says so, any list in scope otherwise
        vss = [v for _, v in seqs_in_scope(m, sp.VS) if len(ctx.parts(v)) <= 1]
        if L.container is not None:
            v = L.container
            v = v.get(m) if isinstance(v, LV) else v
            if z3.is_expr(v) and v.sort() == sp.VS:
                vss = [v]
        ints = L.atoms(m)
        if L.hidden is not None:
            index = [x for x in ints if getattr(x[2], 'lv', None) is not None and x[2].lv.same(L.hidden)]
        else:
            index = [x for x in ints if not getattr(getattr(x[2], 'lv', None), 'path', ())]
        for n2, i0, gi in index:
            for j, vs in enumerate(vss):
                follow = []
                for n, s0, get in L.seqs(m, BYTES):
                    for k in STRFIELDS:
                        follow.append((k, get))
                        out.append(('remaining %s %s,%s,%d' % (k, n, n2, j), lambda m, k=k, s0=s0, get=get, gi=gi, i0=i0, vs=vs:
                                    hs.txt[k](vs, simp(gi(m)), get(m)) == hs.txt[k](vs, i0, s0)))
                for n, x0, gx in ints:
                    if n != n2:
                        follow.append(('reply', gx))
                        out.append(('remaining reply serial %s,%s,%d' % (n, n2, j), lambda m, x0=x0, gx=gx, gi=gi, i0=i0, vs=vs:
                                    hs.num(vs, simp(gi(m)), gx(m)) == hs.num(vs, i0, x0)))
                out.append(('remaining fields have their shape %s,%d' % (n2, j), lambda m, gi=gi, vs=vs: hs.shape(vs, simp(gi(m)))))
                out.append(('remaining fields typed %s,%d' % (n2, j), lambda m, gi=gi, i0=i0, vs=vs: z3.Implies(hs.good(vs, i0), hs.good(vs, simp(gi(m))))))
                L.on_head(lambda m, gi=gi, vs=vs, follow=follow: hs.unfold(ctx, vs, simp(gi(m)), [(k, g(m)) for k, g in follow]))
        return out
    return t


def list_templates(sp):
    """a list copied item by item"""
    from .t_marshal import seqs_in_scope

    def t(m, L):
        out = []
        ctx = m.ctx
        for n, s0, get in L.seqs(m, sp.VS):
            for n2, i0, gi in L.atoms(m):
                for lv, vs in seqs_in_scope(m, sp.VS):
                    def inv(m, s0=s0, get=get, gi=gi, vs=vs, i0=i0):
                        i = simp(gi(m))
                        e = ctx.extract_if(vs, i0, simp(i - i0))
                        return None if e is None else get(m) == ctx.concat(s0, e)
                    out.append(('copied so far %s,%s,%s' % (n, n2, lv), inv))
                    out.append(('within the list %s,%s' % (n2, lv), lambda m, gi=gi, vs=vs: gi(m) <= z3.Length(vs)))
        return out
    return t


def t_incoming(world, short):
    def run(ctx):
        m, sp = machine(world, ctx)
        dec, hs = Dec(sp), HeaderSpec(sp)
        m.contracts.update(decode_contracts(sp, dec))
        for q, c in (('asString', c_text(hs)), ('asByte', c_byte(hs)), ('asUint32', c_uint32(hs)), ('toString', c_anytext)):
            m.contracts[T + q] = c
        m.contracts[T + 'Struct::unmarshall'] = c_structUnmarshall(dec)
        m.templates = [header_templates(sp, hs), list_templates(sp)]
        w = world
        nums = [ctx.fresh_int(n, 0, 255) for n in ('endian', 'type', 'flags', 'version')] + [
            ctx.fresh_int(n, 0, 2 ** 32 - 1) for n in ('body length', 'serial')]
        fields = ctx.fresh('fields', sp.VS)
        ctx.assume(z3.Length(fields) <= 2 ** 30)
        body = ctx.fresh_bytes('body', 2 ** 31)
        ctx.inputs += [(n, x) for n, x in zip(('endian', 'type', 'flags', 'version', 'length', 'serial'), nums)] + [('fields', fields), ('body', body)]

        def val(k, x):
            args = []
            for p, t in w.val_leaves[T + k]:
                n = '.'.join(p)
                args.append(x if n in ('m_Value', 'contents') else ctx.fresh('leaf', w.acc(k, n, ctx.fresh('any', w.Val)).sort()))
            return w.mk(k)(*args)
        vals = [val('Byte', x) for x in nums[:4]] + [val('Uint32', x) for x in nums[4:]] + [val('Array', fields)]
        h = m.fresh_value(T + 'Struct', 'header')
        h = StructV(h.cls, dict(h.f, m_Value=ctx.concat(*[z3.Unit(v) for v in vals])))
        header = LV(m.new_cell('header', T + 'Struct', h))
        for v in vals:
            hs.text_facts(ctx, v)
        hs.unfold(ctx, fields, I(0), [])
        ctx.assume(hs.shape(fields, I(0)))
        cls = MSG + short
        f = world.prog.find(cls + '::' + short, 'Struct', 'string')
        o = LV(m.new_cell('message', cls, m.blank(cls)))
        little = ctx.branch(nums[0] == ord('l'))
        spec = {k: hs.txt[k](fields, I(0), EMPTY) for k in STRFIELDS}
        S = ctx.concat(models.lit(m, '('), spec['signature'], models.lit(m, ')'))
        ctx.assume(z3.Length(spec['signature']) <= 2 ** 31)
        a = (S, I(1), ctx.concat(body, z3.Unit(I(0))), I(0), ctx.length(body), I(0), z3.BoolVal(not little), I(0))
        hasbody = ctx.branch(ctx.length(body) > 0)
        if hasbody:
            dec.unfold_s(ctx, *a)
        res, x = guarded(m, lambda: m.run_ctor(f, o, [header, string_lv(m, 'body', body)]))
        ctx.where = f['q']
        if res != 'ok':
            ctx.oblige('refused by an exception derived from std::exception', exc_matches(x.cls, 'std::exception'))
            ctx.oblige('a message is refused only when a field or its body is ill-typed',
                       z3.Not(z3.And(hs.good(fields, I(0)), dec.sOk(*a) if hasbody else True)))
            return
        params = dec.sVals(*a) if hasbody else z3.Empty(sp.VS)
        if hasbody:
            ctx.oblige('a message whose body is not what its signature says is refused', dec.sOk(*a))

        def getter(n, c=MSG + 'Base'):
            return m.call_body(world.prog.find(c + '::' + n), o, [])
        ctx.where = f['q']
        for n, k in (('Path', 'path'), ('Interface', 'interface'), ('Member', 'member'), ('Sender', 'sender'), ('Destination', 'destination')):
            r = getter('getHeader' + n)
            ctx.where = f['q']
            ctx.oblige('the %s reported is that in the message' % k, r == spec[k])
        ctx.oblige('the serial reported is that in the message', getter('getSerial') == nums[5])
        reply = hs.num(fields, I(0), I(0))
        ctx.oblige('the reply serial reported is that in the message', getter('getReplySerial') == reply)
        r = getter('isReplyExpected')
        ctx.oblige('the reply-expected flag reported is that in the message', r == (nums[2] % 2 == 0))
        got = path_lv(o, *PARAMS).get(m)
        ctx.oblige('the parameters reported are those in the body', got == params)
        ctx.oblige('the number of parameters reported is that of the body', getter('getParameterCount') == z3.Length(params))
        if short in ('MethodCall',):
            for n, k in (('Object', 'path'), ('Interface', 'interface'), ('Method', 'member')):
                ctx.oblige('get%s reports the %s of the message' % (n, k), getter('get' + n, cls) == spec[k])
            ctx.oblige('getFullName is interface.member', getter('getFullName', cls) == ctx.concat(spec['interface'], models.lit(m, '.'), spec['member']))
        if short == 'MethodReturn':
            ctx.oblige('the call answered is that in the message', path_lv(o, 'm_SerialReplyingTo').get(m) == reply)
        if short == 'Error':
            ctx.oblige('the call answered is that in the message', getter('getSerialOfReply', cls) == reply)
            t = getter('getMessage', cls)
            z = ctx.el(params, I(0))
            first = z3.And(z3.Length(params) > 0, w.is_('String', z))
            ctx.oblige('the text of an error is its first argument when that is a string, and empty otherwise',
                       t == z3.If(first, w.acc('String', 'm_Value', z), EMPTY))
    return run


def tasks(world, which):
    out = []
    if 'C13' in which:
        out += outgoing_tasks(world)
    if 'C14' in which:
        out += [Task('received %s' % k, t_incoming(world, k)) for k in KIND]
        out.append(Task('Struct::unmarshall', struct_unmarshall_task(world)))
    if 'C16' in which:
        out += [Task('received Error', t_incoming(world, 'Error')), Task('Struct::unmarshall', struct_unmarshall_task(world))]
    return out
