"""C07, C08, C09: the type table, signatures and accessors."""
import z3
from .core import *
from .values import *
from .spec import *
from .task import *
from .contracts import *
from .interp import Machine
from . import models


def machine(world, ctx, *names):
    m = Machine(world, ctx)
    sp = Spec(world)
    table = {
        'log': ('DBus::Log::write', c_nothing),
        'align': ('DBus::Type::getAlignment', c_getAlignment(sp)),
        'ext': ('DBus::Type::extractSignature', c_extractSignature(sp)),
        'sig': ('DBus::Type::getMarshallingSignature', c_getMarshallingSignature(sp)),
        'marshal': ('DBus::Type::marshallData', c_marshallData(sp)),
    }
    for n in ('log',) + names:
        m.contracts[table[n][0]] = table[n][1]
    return m, sp


def string_lv(m, name, v):
    return LV(m.new_cell(name, 'std::string', v))


# ------------------------------------------------------------------ alignment
def t_alignment(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        s = ctx.fresh_bytes('declaration')
        ctx.inputs.append(('declaration', s))
        f = world.prog.find('DBus::Type::getAlignment', 'string')
        r = m.call_body(f, None, [string_lv(m, 'declaration', s)])
        ctx.where = f['q']
        ctx.oblige('alignment of the type code', r == sp.align_of(ctx, simp(sp.at(ctx, s, 0))))
    return run


def t_create(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        s = ctx.fresh_bytes('signature')
        ctx.inputs.append(('signature', s))
        f = world.prog.find('DBus::Type::create', 'string')
        r = m.call_body(f, None, [string_lv(m, 'type', s)])
        ctx.where = f['q']
        c = simp(sp.at(ctx, s, 0))
        for k in ALL:
            if ctx.branch(c == ord(CODES[k])):
                ctx.oblige('creates a value of the matching type', isinstance(r, AnyV) and r.cls == T + k)
                if isinstance(r, AnyV) and r.cls == T + k:
                    ctx.oblige('the created value satisfies the contract of create', created(sp, ctx, m, k, s, r))
                    if k != 'Byte':
                        ctx.oblige('the created value has been given the signature', r.val.f['m_Signature'] == s)
                return
        ctx.oblige('unknown codes create nothing', isinstance(r, AnyV) and r.cls == '')
    return run


def created(sp, ctx, m, k, s, r):
    """what decoding relies on: containers start empty"""
    if k == 'Array':
        return z3.Length(r.val.f['contents']) == 0
    if k == 'Struct':
        return z3.Length(r.val.f['m_Value']) == 0
    return z3.BoolVal(True)


def t_own_alignment(world, short):
    """the alignment and signature a value reports itself"""
    def run(ctx):
        m, sp = machine(world, ctx, 'sig')
        cls = T + short
        V = ctx.fresh('value', world.Val)
        ctx.inputs.append(('value', V))
        ctx.assume(world.is_(short, V))
        a = m.any_of(V)
        this = LV(m.new_cell('this', cls, a.val))
        f = None
        for c in [cls] + world.all_bases(cls):
            if world.prog.by_q.get(c + '::getAlignment'):
                f = world.prog.by_q[c + '::getAlignment'][0]
                break
        if f is None:
            raise Unsupported('no getAlignment in ' + cls)
        r = m.call_body(f, this, [])
        ctx.where = f['q']
        ctx.oblige('a %s reports alignment %d' % (short, ALIGN[short]), r == ALIGN[short])
        code = world.prog.globals.get(cls + '::s_StaticTypeCode')
        g = m.global_lv(cls + '::s_StaticTypeCode', 'const std::string').get(m)
        ctx.oblige('the type code of %s is %s' % (short, CODES[short]), g == models.lit(m, CODES[short]))
    return run


def sig_spec(sp, ctx, short, v):
    w = sp.w
    L = lambda t: ctx.concat(*[z3.Unit(I(ord(c))) for c in t])
    if short == 'Empty':
        return EMPTY
    if short == 'Other':
        return L('?')
    if short == 'Array':
        vs = simp(w.acc('Array', 'contents', v))
        if ctx.branch(z3.Length(vs) > 0):
            return ctx.concat(L('a'), sp.sigOf(ctx.el(vs, I(0))))
        return simp(w.acc('Array', 'm_Signature', v))
    if short == 'Struct':
        vs = simp(w.acc('Struct', 'm_Value', v))
        return ctx.concat(L('('), sp.sigsFrom(vs, I(0)), L(')'))
    if short == 'DictEntry':
        return simp(w.acc(short, 'm_Signature', v))
    return L(CODES[short])


def t_signature(world, short):
    def run(ctx):
        m, sp = machine(world, ctx, 'sig')
        V = ctx.fresh('value', world.Val)
        ctx.inputs.append(('value', V))
        ctx.assume(world.is_(short, V))
        f = [f for f in world.prog.by_q['DBus::Type::getMarshallingSignature'] if 'vector' not in f['params'][0]['t']][0]
        r = m.call_body(f, None, [LV(m.new_cell('value', 'boost::any', m.any_of(V)))])
        ctx.where = f['q']
        want = sig_spec(sp, ctx, short, V)
        ctx.oblige('signature of a %s' % short, r == want)
        # the code function of the encoder's specification is this signature's first character
        sp.unfold_code(ctx, short, V)
        ctx.oblige('first character of the signature', sp.code(V) == (I(0) if ctx.zero(ctx.length(r)) else sp.at(ctx, r, 0)))
    return run


def sigs_templates(sp):
    def t(m, L):
        from .t_marshal import seqs_in_scope
        out = []
        ctx = m.ctx
        for n, s0, get in L.seqs(m, BYTES):
            for n2, i0, gi in L.atoms(m):
                for lv, vs in seqs_in_scope(m, sp.VS):
                    def inv(m, s0=s0, get=get, i0=i0, gi=gi, vs=vs):
                        i = simp(gi(m))
                        ctx.assume(sp.sigsFrom(vs, i) == z3.If(i >= z3.Length(vs), EMPTY,
                                                              z3.Concat(sp.sigOf(ctx.el(vs, i)), sp.sigsFrom(vs, i + 1))))
                        return ctx.concat(get(m), sp.sigsFrom(vs, i)) == ctx.concat(s0, sp.sigsFrom(vs, i0))
                    out.append(('remaining signature %s,%s,%s' % (n, n2, lv), inv))
        return out
    return t


def t_signatures(world):
    def run(ctx):
        m, sp = machine(world, ctx, 'sig')
        m.contracts = dict(m.contracts)
        key = world.prog.find('DBus::Type::getMarshallingSignature', 'vector')['key']
        one = world.prog.find('DBus::Type::getMarshallingSignature', 'boost::any &') if False else None
        m.templates = [sigs_templates(sp)]
        vs = ctx.fresh('values', sp.VS)
        ctx.assume(z3.Length(vs) <= 2 ** 40)
        ctx.inputs.append(('values', vs))
        f = world.prog.functions[key]
        r = m.call_body(f, None, [LV(m.new_cell('values', 'std::vector<boost::any>', vs))])
        ctx.where = f['q'] + '(vector)'
        ctx.oblige('signature of a list of values', r == sp.sigsFrom(vs, I(0)))
    return run


# ------------------------------------------------------------------ dict keys
def t_basic(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        c = ctx.fresh_int('code', -128, 127)
        ctx.inputs.append(('code', c))
        f = world.prog.find('DBus::Validation::throwOnInvalidBasicType', 'char') if False else [
            f for f in world.prog.by_q['DBus::Validation::throwOnInvalidBasicType'] if 'string' not in f['params'][0]['t']][0]
        res, x = guarded(m, lambda: m.call_body(f, None, [c]))
        ctx.where = f['q']
        basic = z3.Or([c == ord(CODES[k]) for k in BASIC] + [c == ord('h')])
        if res == 'ok':
            ctx.oblige('accepted dict keys are of a basic type', basic)
        else:
            ctx.oblige('basic types are accepted as dict keys', z3.Not(basic))
    return run


# ------------------------------------------------------------------ extractSignature
def t_extract(world):
    clo = z3.Function('closeP', BYTES, INT, INT, INT, INT)

    def unfold(ctx, s, i, d, o):
        n = ctx.length(s)
        c = o + (1 if o == 40 else 2)
        ctx.assume(clo(s, i, d, I(o)) == z3.If(
            i >= n, I(-1), z3.If(ctx.el(s, i) == o, clo(s, i + 1, d + 1, I(o)), z3.If(
                ctx.el(s, i) == c, z3.If(d == 1, i, clo(s, i + 1, d - 1, I(o))), clo(s, i + 1, d, I(o))))))

    def templates(s, idx):
        def t(m, L):
            out = []
            ctx = m.ctx
            atoms = L.atoms(m)
            for n, i0, gi in atoms:
                for n2, d0, gd in atoms:
                    if n2 == n:
                        continue
                    for o in (40, 123):
                        def inv(m, gi=gi, gd=gd, i0=i0, d0=d0, o=o):
                            i, d = simp(gi(m)), simp(gd(m))
                            unfold(ctx, s, i, d, o)
                            return clo(s, i, d, I(o)) == clo(s, i0, d0, I(o))
                        out.append(('matching bracket %d of %s,%s' % (o, n, n2), inv))
                    out.append(('opened %s,%s' % (n, n2), lambda m, gi=gi, gd=gd, i0=i0: z3.Or(simp(gi(m)) == i0, gd(m) >= 1)))
                    out.append(('depth within position %s,%s' % (n, n2), lambda m, gi=gi, gd=gd, i0=i0: gd(m) <= gi(m) - i0))
                for n3, r0, gr in L.seqs(m, BYTES):
                    def inv2(m, gi=gi, i0=i0, gr=gr, r0=r0):
                        i = simp(gi(m))
                        e = ctx.extract_if(s, i0, i - i0)
                        return None if e is None else ctx.concat(r0, e)
                    out.append(('collected %s,%s' % (n3, n), inv2, gr.lv))
            return out
        return t

    def run(ctx):
        m, sp = machine(world, ctx)
        ext = sp_ext(sp)
        s = ctx.fresh_bytes('declaration')
        idx = ctx.fresh_int('idx', 0, 2 ** 62)
        n = ctx.length(s)
        ctx.assume(idx <= n)
        ctx.inputs += [('declaration', s), ('idx', idx)]
        m.templates = [templates(s, idx)]
        m.measures = lambda m, L: [('%s up' % nm, lambda m, g=g: n - g(m)) for nm, v, g in L.atoms(m)] + \
            [('%s down' % nm, g) for nm, v, g in L.atoms(m)]
        f = world.prog.find('DBus::Type::extractSignature', 'string', 'unsigned long')

        def rec(m, f, this, args):
            s2 = args[0].get(m)
            i2 = args[1] if z3.is_expr(args[1]) else args[1].get(m)
            m.ctx.oblige('recursion on a later position (termination)', z3.And(s2 == s, i2 > idx, i2 <= n))
            r = ext(s2, i2)
            m.ctx.assume(z3.And(z3.Length(r) >= 1, z3.Length(r) <= 2 ** 61))
            return r
        m.contracts[f['key']] = rec
        r = m.call_body(f, None, [string_lv(m, 'declaration', s), idx])
        ctx.where = f['q']
        c = simp(sp.at(ctx, s, idx))
        ctx.oblige('the result is not empty', z3.Length(r) >= 1)
        ctx.oblige('the result starts with the character at the position', ctx.el(r, I(0)) == c)
        if ctx.branch(c == ord('a')):
            ctx.oblige('an array prefix is followed by its element type', r == ctx.concat(z3.Unit(I(ord('a'))), ext(s, simp(idx + 1))))
            return
        for o in (40, 123):
            if ctx.branch(c == o):
                unfold(ctx, s, idx, I(0), o)
                e = clo(s, idx, I(0), I(o))
                if ctx.branch(e >= 0):
                    ctx.oblige('a group ends at its matching bracket', z3.And(e < n, r == (ctx.extract_if(s, idx, e - idx + 1) if ctx.extract_if(s, idx, e - idx + 1) is not None else z3.Extract(s, idx, e - idx + 1))))
                return
        ctx.oblige('a basic type or variant is one character', r == z3.Unit(c))
    return run


def tasks(world, what):
    out = []
    if 'ext' in what:
        out.append(Task('extractSignature', t_extract(world)))
    if 'align' in what:
        out.append(Task('getAlignment', t_alignment(world)))
    if 'create' in what:
        out.append(Task('create', t_create(world)))
    if 'own' in what:
        out += [Task('own alignment(%s)' % k, t_own_alignment(world, k)) for k in ALL]
    if 'sig' in what:
        out += [Task('getMarshallingSignature(%s)' % k, t_signature(world, k)) for k in world.vk]
        out.append(Task('getMarshallingSignature(list)', t_signatures(world)))
    if 'access' in what:
        out += access_tasks(world)
    if 'text' in what:
        out += [Task('toString(%s)' % k, t_toString(world, k)) for k in world.vk]
    if 'basic' in what:
        out.append(Task('throwOnInvalidBasicType', t_basic(world)))
    return out


# ------------------------------------------------------------------ accessors (C09)
INTEGRAL = ['Byte', 'Boolean', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Int64', 'Uint64']
TEXT = ['String', 'ObjectPath', 'Signature']


def text_of(sp, m, ctx, short, v):
    """what asString returns; None where the property leaves it open"""
    w = sp.w
    if short == 'Empty':
        return EMPTY
    if short in INTEGRAL:
        n = w.acc(short, 'm_Value', v)
        n = z3.If(n, I(1), I(0)) if n.sort() == BOOL else n
        return models.dec_str(m, n)
    if short in TEXT:
        return simp(w.acc(short, 'm_Value', v))
    if short == 'Variant':
        return txt_fn(w)(simp(w.acc(short, 'm_Value', v)))
    return None


def txt_fn(w):
    return z3.Function('textOf', w.Val, BYTES)


def c_asString(sp):
    def c(m, f, this, args):
        z = m.pack_any(args[0].get(m))
        r = txt_fn(sp.w)(z)
        m.ctx.assume(z3.Length(r) <= 2 ** 40)
        return r
    return c


def t_asString(world, short):
    def run(ctx):
        m, sp = machine(world, ctx)
        V = ctx.fresh('value', world.Val)
        ctx.inputs.append(('value', V))
        ctx.assume(world.is_(short, V))
        f = world.prog.find('DBus::Type::asString', 'any')
        m.contracts[f['key']] = c_asString(sp)
        r = m.call_body(f, None, [LV(m.new_cell('value', 'boost::any', m.any_of(V)))])
        ctx.where = f['q']
        want = text_of(sp, m, ctx, short, V)
        if want is None:
            ctx.ex.reached['open'] = 1
            ctx.oblige('text of a %s is produced without error' % short, True)
        else:
            ctx.oblige('text of a %s' % short, r == want)
    return run


def t_number(world, fname, short, variant=False):
    """asByte / asUint32: exactly the number stored"""
    def run(ctx):
        m, sp = machine(world, ctx)
        outer = V = ctx.fresh('value', world.Val)
        ctx.inputs.append(('value', V))
        if variant:
            ctx.assume(world.is_('Variant', V))
            V = simp(world.acc('Variant', 'm_Value', V))

            def text(m, f, this, args):
                # asString's contract on this variant: the text of what it holds
                if m.pack_any(args[0].get(m)).eq(outer):
                    return text_of(sp, m, ctx, short, V)
                raise Unsupported('asString of another value')
            m.contracts['DBus::Type::asString'] = text
        ctx.assume(world.is_(short, V))
        f = world.prog.find(fname, 'any')
        g = world.prog.find('DBus::Type::asString', 'any')
        res, x = guarded(m, lambda: m.call_body(f, None, [LV(m.new_cell('value', 'boost::any', m.any_of(outer)))]))
        ctx.where = f['q']
        n = simp(world.acc(short, 'm_Value', V))
        m.typed(n, {'Byte': 'unsigned char', 'Uint32': 'unsigned int'}[short])
        ctx.oblige('does not throw for a %s' % short, res == 'ok')
        if res == 'ok':
            ctx.oblige('exactly the number stored in a %s' % short, x == n)
    return run


def t_toString(world, short):
    """toString: some text, never an exception"""
    def run(ctx):
        m, sp = machine(world, ctx)
        V = ctx.fresh('value', world.Val)
        ctx.inputs.append(('value', V))
        ctx.assume(world.is_(short, V))
        f = world.prog.find('DBus::Type::toString', 'any', 'string')
        m.contracts[f['q']] = c_text
        m.contracts['DBus::Type::getMarshallingSignature'] = c_text
        m.contracts['DBus::Type::asString'] = c_text
        res, x = guarded(m, lambda: m.call_body(f, None, [LV(m.new_cell('value', 'boost::any', m.any_of(V))),
                                                          string_lv(m, 'prefix', ctx.fresh_bytes('prefix'))]))
        ctx.where = f['q']
        ctx.oblige('toString of a %s returns' % short, res == 'ok')
    return run


def c_text(m, f, this, args):
    """some text"""
    return m.ctx.fresh_bytes('text')


def t_getter(world, cls, field):
    """a value class hands out what it was constructed with"""
    def run(ctx):
        m, sp = machine(world, ctx)
        s = ctx.fresh_bytes('text')
        ctx.inputs.append(('text', s))
        f = [c for c in world.prog.by_q[cls + '::' + cls.split('::')[-1]] if len(c['params']) == 1 and 'string' in c['params'][0]['t']]
        if not f:
            raise Unsupported('no constructor from a string')
        lv = LV(m.new_cell('object', cls, m.blank(cls)))
        m.run_ctor(f[0], lv, [string_lv(m, 'arg', s)])
        g = None
        for c in [cls] + world.all_bases(cls):
            if world.prog.by_q.get(c + '::asString'):
                g = world.prog.by_q[c + '::asString'][0]
                break
        r = m.call_body(g, lv, [])
        ctx.where = g['q']
        ctx.oblige('a %s holds the string it was built from' % cls.split('::')[-1], r == s)
    return run


def access_tasks(world):
    out = [Task('asString(%s)' % k, t_asString(world, k)) for k in world.vk]
    out.append(Task('asByte', t_number(world, 'DBus::Type::asByte', 'Byte')))
    out.append(Task('asUint32', t_number(world, 'DBus::Type::asUint32', 'Uint32')))
    out.append(Task('asUint32(Variant)', t_number(world, 'DBus::Type::asUint32', 'Uint32', True)))
    out += [Task('build and read %s' % k, t_getter(world, T + k, 'm_Value')) for k in ('String', 'ObjectPath', 'Signature')]
    return out
