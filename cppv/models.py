"""Assumed contracts of the C++ standard library and Boost pieces the code uses."""
import re
import z3
from .core import *
from .values import *
from .interp import LitLV

NPOS = 2 ** 64 - 1
CHARS = ('char', 'unsigned char', 'signed char')


def used(m, what):
    m.w.used_models[what] = m.w.used_models.get(what, 0) + 1


def short(q):
    """qualified name without template arguments"""
    out, d = '', 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<' and not q[i:].startswith('<<') and not (out.endswith('operator')) and not out.endswith('operator<'):
            d += 1
        elif c == '>' and d:
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out


def val(m, e):
    """rvalue of an expression; references are read"""
    return m.rvalue(e)


def dec_fn():
    return z3.Function('decimal', INT, BYTES)


def hex_fn():
    return z3.Function('hexadecimal', INT, BYTES)


def dec_str(m, v):
    v = simp(v)
    if z3.is_int_value(v):
        return lit(m, str(v.as_long()))
    s = dec_fn()(v)
    m.ctx.assume(z3.And(z3.Length(s) >= 1, z3.Length(s) <= 20))
    return s


def lit(m, text):
    bs = text.encode('latin-1') if isinstance(text, str) else text
    return m.ctx.concat(*[z3.Unit(I(b)) for b in bs]) if bs else EMPTY


def as_str(m, v):
    """string contents of a std::string lvalue/value or a C string"""
    if isinstance(v, LitLV):
        v = PtrV('buf', v.buf, I(0))
    if isinstance(v, (LV,)):
        v = v.get(m)
    if z3.is_expr(v) and z3.is_seq(v):
        return v
    if isinstance(v, PtrV):
        n = m.cstr_len(v)
        return m.bytes_at(v, n)
    if isinstance(v, OpaqueV) and v.what == 'cstring':
        return v.data
    if isinstance(v, OpaqueV):
        return m.ctx.fresh_bytes('text')
    raise Unsupported('string argument %r' % (v,))


def is_char(t):
    return base(t) in CHARS


def throw(cls, what=None):
    raise CppThrow(cls, what)


# --------------------------------------------------------------------- defaults
def default(m, ct):
    tn = tname(ct)
    if tn in ('std::map', 'std::unordered_map'):
        return empty_map(m, ct)
    if ct in ('std::stringstream', 'std::ostringstream', 'std::istringstream'):
        return new_stream(ct, EMPTY)
    if 'mutex' in ct:
        return OpaqueV('mutex')
    if tn in ('std::allocator',):
        return OpaqueV('allocator')
    if tn == 'std::atomic':
        return m.default_value(targs(ct)[0])
    if ct.startswith('boost::thread') or ct.startswith('boost::asio::') or ct.startswith('std::_Placeholder') or ct.startswith('boost::arg'):
        return OpaqueV(ct)
    if ct in ('boost::system::error_code', 'std::error_code'):
        return OpaqueV('error_code', z3.BoolVal(False))
    return None


def new_stream(ct, text):
    return StructV(ct, {'buf': text, 'rest': text if ct == 'std::istringstream' else OpaqueV('unread'), 'fmt': OpaqueV('fmt', (False, 0, 32)), 'fail': z3.BoolVal(False),
                        'eof': z3.BoolVal(False)})


def fresh(m, ct, name):
    tn = tname(ct)
    if ct in ('std::stringstream', 'std::ostringstream'):
        return new_stream(ct, m.ctx.fresh_bytes(name))
    if 'mutex' in ct:
        return OpaqueV('mutex')
    if tn == 'std::atomic':
        return m.fresh_value(targs(ct)[0], name)
    if ct in ('boost::system::error_code', 'std::error_code'):
        return OpaqueV('error_code', m.ctx.fresh(name, BOOL))
    if ct.startswith('boost::thread') or ct.startswith('boost::asio::'):
        return OpaqueV(ct)
    if is_ptr(ct):
        to = pointee(ct)
        if to in m.prog.records:
            c = m.new_cell(name + '*', to, m.fresh_value(to, name + '*'))
            return PtrV('obj', LV(c))
    return None


def extern_global(m, q, t):
    if q.startswith('std::placeholders') or q.startswith('boost::placeholders'):
        return OpaqueV('placeholder', int(q.rsplit('_', 1)[1]))
    m1 = re.match(r'\(anonymous namespace\)::_(\d)$', q)
    if m1:
        return OpaqueV('placeholder', int(m1.group(1)))
    if q.endswith('::npos'):
        return I(NPOS)
    if q in ('stderr', 'stdout', 'std::cout', 'std::cerr', 'std::clog'):
        return OpaqueV('file')
    if base(t) in INTS:
        return m.fresh_value(t, q)
    return None


LOCKS = ('boost::unique_lock', 'std::unique_lock', 'std::lock_guard', 'boost::lock_guard', 'std::scoped_lock',
         'boost::scoped_lock', 'boost::mutex::scoped_lock', 'boost::recursive_mutex::scoped_lock', 'std::shared_lock')


def has_dtor(ct):
    return tname(ct) in LOCKS


def destroy(m, lv):
    v = lv.get(m)
    if isinstance(v, OpaqueV) and v.what == 'lock' and v.data is not None:
        unlock(m, v.data)
        lv.cell.v = OpaqueV('lock', None) if not lv.path else lv.cell.v


def lock(m, mlv):
    m.locks.append(mlv)
    h = m.hooks.get('lock')
    if h:
        h(m, mlv, True)


def unlock(m, mlv):
    for i in range(len(m.locks) - 1, -1, -1):
        if m.locks[i].same(mlv):
            del m.locks[i]
            h = m.hooks.get('lock')
            if h:
                h(m, mlv, False)
            return
    m.oblige_safe('only a held mutex is unlocked', False)


# --------------------------------------------------------------------- copies
def copy_object(m, t, src, move):
    v = m.load(src) if isinstance(src, (LV, ByteLV, ReintLV)) else src
    if isinstance(v, OpaqueV) and v.what == 'lock':
        if isinstance(src, LV):
            src.set(m, OpaqueV('lock', None))
        return v
    if move and isinstance(src, LV):
        tn = tname(t)
        if tn in ('std::unique_ptr', 'std::shared_ptr'):
            src.set(m, NULL)
        elif t in STRINGS or tn in SEQS:
            # moved-from containers: valid but unspecified in general; the
            # implementations in use leave them empty
            src.set(m, z3.Empty(v.sort()) if z3.is_expr(v) else v)
    return v


def construct(m, t, e):
    args = e['args']
    key = e['f']['key']
    ps = e['f']['params']
    tn = tname(t)
    used(m, key)
    if t in STRINGS:
        n = len([a for a in args])
        if n == 0:
            return EMPTY
        p0 = base(ps[0])
        if p0.startswith('std::allocator'):
            return EMPTY
        if p0 in ('const char *', 'char *', 'const unsigned char *') or (is_ptr(p0)):
            v = m.rvalue(args[0])
            if n >= 2 and base(ps[1]) == 'unsigned long':
                k = m.rvalue(args[1])
                return m.bytes_at(v, k)
            if n >= 2 and is_ptr(ps[1]):
                w = m.rvalue(args[1])
                return m.bytes_at(v, simp(w.b - v.b))
            return as_str(m, v)
        if p0 == 'unsigned long':
            k = m.rvalue(args[0])
            c = m.to_byte(m.rvalue(args[1]))
            return fill(m, k, c)
        if p0 in STRINGS:
            s = as_str(m, m.ev(args[0]))
            if n >= 2 and base(ps[1]) == 'unsigned long':
                pos = m.rvalue(args[1])
                cnt = m.rvalue(args[2]) if n >= 3 and base(ps[2]) == 'unsigned long' else I(NPOS)
                return substr(m, s, pos, cnt)
            return s
        if 'iterator' in p0 or p0.startswith('__gnu'):
            a, b = m.rvalue(args[0]), m.rvalue(args[1])
            return iter_range(m, a, b)
        if 'initializer_list' in p0:
            return m.rvalue(args[0])
        raise Unsupported('constructor ' + key)
    if tn in SEQS:
        if not args or base(ps[0]).startswith('std::allocator'):
            return z3.Empty(m.w.sort_of(t))
        p0 = base(ps[0])
        if p0 == 'unsigned long':
            k = m.rvalue(args[0])
            el = targs(t)[0]
            x = m.rvalue(args[1]) if len(args) > 1 and 'allocator' not in ps[1] else m.default_value(el)
            k = simp(k)
            if base(el) in CHARS:
                return fill(m, k, m.to_byte(x))
            if z3.is_int_value(k) and k.as_long() <= 64:
                z = m.pack(x, el)
                return m.ctx.concat(*[z3.Unit(z)] * k.as_long()) if k.as_long() else z3.Empty(m.w.sort_of(t))
        if 'initializer_list' in p0:
            return m.rvalue(args[0])
        if 'iterator' in p0 or p0.startswith('__gnu'):
            return iter_range(m, m.rvalue(args[0]), m.rvalue(args[1]))
        raise Unsupported('constructor ' + key)
    if t == 'boost::any':
        if not args:
            return AnyV('')
        return to_any(m, m.ev(args[0]))
    if tn == 'std::pair':
        if not args:
            return m.default_value(t)
        if len(args) == 1:
            v = m.rvalue(args[0])
            if isinstance(v, StructV):
                return StructV(t, {'first': coerce(m, v.f['first'], targs(t)[0]), 'second': coerce(m, v.f['second'], targs(t)[1])})
        if len(args) == 2:
            a, b = targs(t)
            return StructV(t, {'first': coerce(m, m.ev(args[0]), a), 'second': coerce(m, m.ev(args[1]), b)})
        raise Unsupported('constructor ' + key)
    if tn == 'std::function':
        if not args:
            return FnV('empty', z=I(0))
        return to_fn(m, m.ev(args[0]))
    if tn in LOCKS:
        mt = m.ev(args[0])
        mlv = mt if isinstance(mt, LV) else m.deref(mt)
        if len(args) > 1 and ('defer' in ps[1]):
            return OpaqueV('lock', None)
        if len(args) > 1 and ('adopt' in ps[1]):
            return OpaqueV('lock', mlv)
        if len(args) > 1:
            raise Unsupported('constructor ' + key)
        lock(m, mlv)
        return OpaqueV('lock', mlv)
    if tn in ('std::unique_ptr', 'std::shared_ptr', '__gnu_cxx::__shared_ptr', 'std::__shared_ptr'):
        if not args:
            return NULL
        return m.rvalue(args[0])
    if t in EXC_BASES or t.endswith('error') or t.endswith('exception'):
        what = None
        if args:
            try:
                what = as_str(m, m.ev(args[0]))
            except Unsupported:
                what = None
        return OpaqueV('exception', what)
    if t in ('std::stringstream', 'std::ostringstream', 'std::istringstream'):
        return new_stream(t, as_str(m, m.ev(args[0])) if args and base(ps[0]) in STRINGS else EMPTY)
    if tn == 'std::map':
        if not args:
            return empty_map(m, t)
    if tn == 'std::atomic':
        return m.rvalue(args[0]) if args else m.default_value(targs(t)[0])
    if tn == 'std::_Rb_tree_iterator' or tn.endswith('_const_iterator') or tn.endswith('normal_iterator'):
        if args:
            return m.rvalue(args[0])
    h = m.hooks.get('construct')
    if h:
        r = h(m, t, e)
        if r is not None:
            return r
    r = default(m, t)
    if r is not None:
        for a in args:
            m.ev(a)
        return r
    raise Unsupported('constructor ' + key)


def coerce(m, v, ct):
    """value converted for storage in an object of type ct"""
    ct = base(ct)
    if isinstance(v, LitLV):
        if is_ptr(ct):
            return PtrV('buf', v.buf, I(0))
        return as_str(m, v)
    if isinstance(v, (LV, ByteLV, ReintLV)):
        v = m.load(v)
    if ct in STRINGS:
        return as_str(m, v)
    if ct == 'boost::any':
        return to_any(m, v)
    if tname(ct) == 'std::function':
        return to_fn(m, v)
    if ct in INTS and z3.is_expr(v) and v.sort() == INT:
        return m.wrap(v, ct)
    return v


def to_any(m, v):
    if isinstance(v, (LV, ByteLV, ReintLV)):
        v = m.load(v)
    if isinstance(v, AnyV):
        return v
    if isinstance(v, StructV) and v.cls in m.w.any_classes:
        if v.cls.endswith('::Byte'):
            # boost::any copies its argument, and Byte's copy constructor leaves the signature out
            f = dict(v.f)
            f['m_Signature'] = EMPTY
            v = StructV(v.cls, f)
        return AnyV(v.cls, v)
    return AnyV('other', None, m.w.mk('Other')(m.ctx.fresh('other')))


def to_fn(m, v):
    if isinstance(v, (LV, ByteLV, ReintLV)):
        v = m.load(v)
    if isinstance(v, FnV):
        return v
    if isinstance(v, PtrV):
        if v.kind == 'null':
            return FnV('empty', z=I(0))
        if v.kind == 'func':
            return FnV('func', v)
    raise Unsupported('function object from %r' % (v,))


def fill(m, k, c):
    k = simp(k)
    ctx = m.ctx
    if z3.is_int_value(k):
        n = k.as_long()
        if n <= 512:
            return ctx.concat(*[z3.Unit(c)] * n) if n else EMPTY
    # small ranges are decided
    for n in range(0, 9):
        if ctx.valid(k == n):
            return ctx.concat(*[z3.Unit(c)] * n) if n else EMPTY
    if ctx.valid(z3.And(k >= 0, k <= 7)):
        i = ctx.choose(8, [k == j for j in range(8)])
        return ctx.concat(*[z3.Unit(c)] * i) if i else EMPTY
    f = z3.Function('fill', INT, INT, BYTES)(k, c)
    ctx.set_len(f, k)
    return f


def substr(m, s, pos, n):
    L = m.ctx.length(s)
    if not m.ctx.branch(pos <= L):
        throw('std::out_of_range')
    rest = simp(L - pos)
    n = simp(n)
    if m.ctx.branch(n > rest):
        n = rest
    return m.ctx.extract(s, pos, n)


def iter_range(m, a, b):
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return m.bytes_at(a, simp(b.b - a.b))
    if isinstance(a, IterV) and isinstance(b, IterV) and a.kind == 'seq':
        s = a.lv.get(m)
        m.oblige_safe('iterator range is valid', z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= m.ctx.length(s)))
        return m.ctx.extract(s, a.pos, simp(b.pos - a.pos))
    raise Unsupported('iterator range')


FIND = z3.Function('find', BYTES, BYTES, INT)


def literal(ctx, t):
    """the characters of a constant string, or None"""
    ps = ctx.parts(simp(t))
    if all(z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT) and z3.is_int_value(p.arg(0)) for p in ps):
        return [p.arg(0).as_long() for p in ps]
    return None


def starts(ctx, s, t):
    """s starts with t"""
    k = literal(ctx, t)
    if k is None:
        return z3.PrefixOf(t, s)
    n = ctx.length(s)
    return z3.And([n >= len(k)] + [ctx.el(s, I(i)) == c for i, c in enumerate(k)])


def find0(ctx, s, t):
    """position of the first occurrence of t in s, or -1"""
    k = literal(ctx, t)
    if k is None or not k:
        return z3.IndexOf(s, t, I(0))
    s = simp(s)
    ps = ctx.parts(s)
    if ps and z3.is_app_of(ps[0], z3.Z3_OP_SEQ_UNIT) and z3.is_int_value(ps[0].arg(0)) and ps[0].arg(0).as_long() != k[0]:
        r = find0(ctx, ctx.concat(*ps[1:]) if len(ps) > 1 else EMPTY, t)
        return simp(z3.If(r < 0, I(-1), r + 1))
    if not ps:
        return I(-1)
    i = FIND(s, t)
    n = ctx.length(s)
    ctx.assume(i >= -1)
    ctx.assume(z3.Or(i < 0, i + len(k) <= n))
    ctx.assume((i == 0) == starts(ctx, s, t))
    if len(k) <= 2:
        ctx.assume(z3.Implies(i >= 0, z3.And([ctx.el(s, simp(i + j)) == c for j, c in enumerate(k)])))
    return i


def index_of(m, s, t, pos):
    """std::string::find: index or npos"""
    ctx = m.ctx
    L = ctx.length(s)
    if not ctx.branch(pos <= L):
        return I(NPOS)
    pos = simp(pos)
    if ctx.zero(pos):
        i = find0(ctx, s, t)
        if ctx.branch(i >= 0):
            return i
        return I(NPOS)
    i = find0(ctx, ctx.extract(s, pos, simp(L - pos)), t)
    if ctx.branch(i >= 0):
        return simp(i + pos)
    return I(NPOS)


# --------------------------------------------------------------------- members
def member(m, blv, v, e):
    return None


def str_method(m, this, name, ps, args, ref):
    ctx = m.ctx
    s = this.get(m)
    L = ctx.length(s)
    n = len(args)
    P = [base(p) for p in ps]
    ch = 'unsigned char' if base(this.ctype) == 'std::ustring' else 'char'
    if name in ('size', 'length'):
        return L
    if name == 'empty':
        return simp(L == 0)
    if name in ('data', 'c_str'):
        return PtrV('buf', Buf('str', lv=this, nul=True), I(0))
    if name == 'clear':
        this.set(m, EMPTY)
        return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in args:
            m.ev(a)
        return None
    if name == 'capacity':
        return ctx.fresh_int('capacity', 0, 2 ** 62)
    if name == 'max_size':
        return I(2 ** 62)
    if name == 'push_back':
        c = m.to_byte(m.rvalue(args[0]))
        this.set(m, ctx.concat(s, z3.Unit(c)))
        return None
    if name == 'pop_back':
        m.oblige_safe('pop_back on a non-empty string', L >= 1)
        this.set(m, ctx.extract(s, I(0), simp(L - 1)))
        return None
    if name in ('append', 'operator+=', 'assign', 'operator='):
        if P[0] == 'unsigned long':
            t = fill(m, m.rvalue(args[0]), m.to_byte(m.rvalue(args[1])))
        elif P[0] in CHARS:
            t = z3.Unit(m.to_byte(m.rvalue(args[0])))
        elif is_ptr(P[0]):
            p = m.rvalue(args[0])
            if n >= 2:
                q = m.rvalue(args[1])
                t = m.bytes_at(p, simp(q.b - p.b)) if isinstance(q, PtrV) else m.bytes_at(p, q)
            else:
                t = as_str(m, p)
        elif P[0] in STRINGS:
            t = as_str(m, m.ev(args[0]))
            if n >= 2:
                pos = m.rvalue(args[1])
                cnt = m.rvalue(args[2]) if n >= 3 else I(NPOS)
                t = substr(m, t, pos, cnt)
        elif 'initializer_list' in P[0]:
            t = m.rvalue(args[0])
        elif 'iterator' in P[0]:
            t = iter_range(m, m.rvalue(args[0]), m.rvalue(args[1]))
        else:
            raise Unsupported(ref['key'])
        if name in ('append', 'operator+='):
            s = this.get(m)
            t = ctx.concat(s, t)
        this.set(m, t)
        return this
    if name in ('operator[]', 'at'):
        i = m.rvalue(args[0])
        if name == 'at':
            if not ctx.branch(z3.And(i >= 0, i < L)):
                throw('std::out_of_range')
            return this.sub(('s', i, ch), ch)
        m.oblige_safe('string index within bounds', z3.And(i >= 0, i <= L))
        d = ctx.branch(i < L)
        return this.sub(('s', i if d else None, ch), ch)
    if name in ('front', 'back'):
        m.oblige_safe('%s of a non-empty string' % name, L >= 1)
        return this.sub(('s', I(0) if name == 'front' else simp(L - 1), ch), ch)
    if name == 'substr':
        pos = m.rvalue(args[0]) if n >= 1 else I(0)
        cnt = m.rvalue(args[1]) if n >= 2 else I(NPOS)
        return substr(m, s, pos, cnt)
    if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        if P[0] in CHARS:
            t = z3.Unit(m.to_byte(m.rvalue(args[0])))
        else:
            t = as_str(m, m.ev(args[0]))
        pos = m.rvalue(args[1]) if n >= 2 else (I(0) if 'last' not in name and name != 'rfind' else I(NPOS))
        if n >= 3:
            k = simp(m.rvalue(args[2]))
            t = m.ctx.extract(t, I(0), k)
        if name == 'find' or (name == 'find_first_of' and z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT)):
            return index_of(m, s, t, pos)
        if name in ('rfind', 'find_last_of') and z3.is_app_of(t, z3.Z3_OP_SEQ_UNIT):
            return rfind_char(m, s, t, pos)
        if name == 'rfind' and ctx.zero(pos):
            lt = ctx.length(t)
            if ctx.branch(starts(ctx, s, t)):
                return I(0)
            return I(NPOS)
        raise Unsupported(ref['key'])
    if name == 'compare':
        if n == 1:
            t = as_str(m, m.ev(args[0]))
            u = s
        else:
            pos, cnt = m.rvalue(args[0]), m.rvalue(args[1])
            u = substr(m, s, pos, cnt)
            t = as_str(m, m.ev(args[2]))
            if n == 4:
                t = ctx.extract(t, I(0), m.rvalue(args[3]))
            elif n == 5:
                t = substr(m, t, m.rvalue(args[3]), m.rvalue(args[4]))
        if ctx.branch(seq_eq(m, u, t)):
            return I(0)
        r = ctx.fresh_int('cmp', -2 ** 31, 2 ** 31 - 1)
        ctx.assume(r != 0)
        return r
    if name in ('starts_with', 'ends_with'):
        t = as_str(m, m.ev(args[0]))
        return starts(m.ctx, s, t) if name == 'starts_with' else z3.SuffixOf(t, s)
    if name == 'erase':
        if P and 'iterator' in P[0]:
            a = m.rvalue(args[0])
            if n >= 2:
                b = m.rvalue(args[1])
                k = simp(b.pos - a.pos)
            else:
                k = I(1)
            m.oblige_safe('erase within the string', z3.And(a.pos >= 0, k >= 0, a.pos + k <= L))
            this.set(m, ctx.concat(ctx.extract(s, I(0), a.pos), ctx.extract(s, simp(a.pos + k), simp(L - a.pos - k))))
            return IterV('seq', this, a.pos)
        pos = m.rvalue(args[0]) if n >= 1 else I(0)
        cnt = m.rvalue(args[1]) if n >= 2 else I(NPOS)
        if not ctx.branch(pos <= L):
            throw('std::out_of_range')
        rest = simp(L - pos)
        if ctx.branch(cnt >= rest):
            cnt = rest
        this.set(m, ctx.concat(ctx.extract(s, I(0), pos), ctx.extract(s, simp(pos + cnt), simp(rest - cnt))))
        return this
    if name in ('replace', 'insert') and P[0] == 'unsigned long':
        pos = m.rvalue(args[0])
        k = 1
        cnt = I(0)
        if name == 'replace':
            cnt = m.rvalue(args[1])
            k = 2
        if is_ptr(P[k]):
            p = m.rvalue(args[k])
            t = m.bytes_at(p, m.rvalue(args[k + 1])) if n > k + 1 else as_str(m, p)
        elif P[k] in STRINGS:
            t = as_str(m, m.ev(args[k]))
            if n > k + 1:
                t = substr(m, t, m.rvalue(args[k + 1]), m.rvalue(args[k + 2]) if n > k + 2 else I(NPOS))
        elif P[k] == 'unsigned long':
            t = fill(m, m.rvalue(args[k]), m.to_byte(m.rvalue(args[k + 1])))
        else:
            raise Unsupported(ref['key'])
        if not ctx.branch(pos <= L):
            throw('std::out_of_range')
        rest = simp(L - pos)
        if ctx.branch(cnt >= rest):
            cnt = rest
        this.set(m, ctx.concat(ctx.extract(s, I(0), pos), t, ctx.extract(s, simp(pos + cnt), simp(rest - cnt))))
        return this
    if name == 'resize':
        k = m.rvalue(args[0])
        c = m.to_byte(m.rvalue(args[1])) if n > 1 else I(0)
        if ctx.branch(k <= L):
            this.set(m, ctx.extract(s, I(0), k))
        else:
            this.set(m, ctx.concat(s, fill(m, simp(k - L), c)))
        return None
    if name in ('begin', 'cbegin'):
        return IterV('seq', this, I(0), ch)
    if name in ('end', 'cend'):
        return IterV('seq', this, L, ch)
    if name == 'swap':
        o = m.lvalue(args[0])
        ov = o.get(m)
        o.set(m, s)
        this.set(m, ov)
        return None
    raise Unsupported(ref['key'])


def rfind_char(m, s, t, pos):
    ctx = m.ctx
    L = ctx.length(s)
    if not ctx.valid(pos >= L):
        raise Unsupported('rfind with a position')
    c = t.arg(0)
    if not ctx.branch(z3.Contains(s, t)):
        return I(NPOS)
    i = ctx.fresh_int('rfind', 0, 2 ** 62)
    ctx.assume(i < L)
    ctx.assume(s[i] == c)
    ctx.assume(z3.Not(z3.Contains(z3.Extract(s, i + 1, L - i - 1), t)))
    return i


def seq_eq(m, a, b):
    a, b = simp(a), simp(b)
    # literal against an opaque string: length and elements
    for x, y in ((a, b), (b, a)):
        ps = m.ctx.parts(x)
        if all(z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT) for p in ps):
            n = len(ps)
            if m.ctx.decided(m.ctx.length(y) == n) is False:
                return z3.BoolVal(False)
            if m.ghost.get('literals by element') and 0 < n <= 40 and literal(m.ctx, x) and not literal(m.ctx, y):
                return starts(m.ctx, y, x) if False else z3.And([m.ctx.length(y) == n] + [
                    m.ctx.el(y, I(i)) == p.arg(0) for i, p in enumerate(ps)])
    return a == b


def vec_method(m, this, name, ps, args, ref):
    ctx = m.ctx
    s = this.get(m)
    el = targs(ref['cls'])[0] if '<' in ref['cls'] else targs(this.ctype)[0]
    el = base(el)
    n = len(args)
    if not z3.is_expr(s):
        raise Unsupported(ref['key'])
    L = ctx.length(s)
    if name == 'size':
        return L
    if name == 'empty':
        return simp(L == 0)
    if name == 'clear':
        this.set(m, z3.Empty(s.sort()))
        return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in args:
            m.ev(a)
        return None
    if name in ('push_back', 'push', 'emplace_back', 'emplace', 'push_front', 'emplace_front'):
        if len(args) == 1:
            v = coerce(m, m.ev(args[0]), el)
        elif not args:
            v = m.construct_default(el)
        else:
            raise Unsupported(ref['key'])
        if el in m.prog.records and isinstance(v, StructV):
            v = m.slice(m.copy_struct(v), el)
        s = this.get(m)
        u = z3.Unit(m.pack(v, el))
        this.set(m, ctx.concat(u, s) if 'front' in name else ctx.concat(s, u))
        if name.startswith('emplace'):
            return this.sub(('i', I(0) if 'front' in name else L, el), el)
        return None
    if name in ('pop_back', 'pop_front', 'pop'):
        m.oblige_safe('%s on a non-empty container' % name, L >= 1)
        back = name == 'pop_back'
        this.set(m, ctx.extract(s, I(0) if back else I(1), simp(L - 1)))
        return None
    if name in ('operator[]', 'at'):
        i = m.rvalue(args[0])
        if name == 'at':
            if not ctx.branch(z3.And(i >= 0, i < L)):
                throw('std::out_of_range')
        else:
            m.oblige_safe('container index within bounds', z3.And(i >= 0, i < L))
        return this.sub(('i', simp(i), el), el)
    if name in ('front', 'back'):
        m.oblige_safe('%s of a non-empty container' % name, L >= 1)
        return this.sub(('i', I(0) if name == 'front' else simp(L - 1), el), el)
    if name in ('begin', 'cbegin'):
        return IterV('seq', this, I(0), el)
    if name in ('end', 'cend'):
        return IterV('seq', this, L, el)
    if name == 'data':
        if el in CHARS:
            return PtrV('buf', Buf('vec', lv=this), I(0))
    if name == 'operator=':
        v = m.rvalue(args[0])
        this.set(m, v)
        return this
    if name == 'erase':
        a = m.rvalue(args[0])
        if n == 2:
            b = m.rvalue(args[1])
            k = simp(b.pos - a.pos)
        else:
            k = I(1)
        m.oblige_safe('erase within the container', z3.And(a.pos >= 0, k >= 0, a.pos + k <= L))
        this.set(m, ctx.concat(ctx.extract(s, I(0), a.pos), ctx.extract(s, simp(a.pos + k), simp(L - a.pos - k))))
        return IterV('seq', this, a.pos, el)
    if name == 'insert' and n == 3:
        a, b, c = m.rvalue(args[0]), m.rvalue(args[1]), m.rvalue(args[2])
        t = iter_range(m, b, c)
        this.set(m, ctx.concat(ctx.extract(s, I(0), a.pos), t, ctx.extract(s, a.pos, simp(L - a.pos))))
        return IterV('seq', this, a.pos, el)
    if name == 'insert' and n == 2:
        a = m.rvalue(args[0])
        v = coerce(m, m.ev(args[1]), el)
        this.set(m, ctx.concat(ctx.extract(s, I(0), a.pos), z3.Unit(m.pack(v, el)), ctx.extract(s, a.pos, simp(L - a.pos))))
        return IterV('seq', this, a.pos, el)
    if name == 'swap':
        o = m.lvalue(args[0])
        ov = o.get(m)
        o.set(m, s)
        this.set(m, ov)
        return None
    raise Unsupported(ref['key'])


# --------------------------------------------------------------------- maps
def map_sorts(m, ct):
    k, v = targs(ct)[:2]
    return base(k), base(v), m.w.sort_of(k), m.w.sort_of(v)


def empty_map(m, ct):
    k, v, ks, vs = map_sorts(m, ct)
    return MapV(base(ct), z3.K(ks, z3.BoolVal(False)), z3.K(ks, z3.Const('novalue_%s' % vs, vs)))


def fresh_map(m, ct, name):
    k, v, ks, vs = map_sorts(m, ct)
    return MapV(base(ct), m.ctx.fresh(name + '.has', z3.ArraySort(ks, BOOL)), m.ctx.fresh(name + '.val', z3.ArraySort(ks, vs)))


class MapEntLV:
    """the pair an iterator of a map refers to"""
    def __init__(self, lv, key, ctype):
        self.lv, self.key, self.ctype = lv, key, ctype

    def get(self, m):
        return StructV('std::pair', {})

    def sub(self, el, ct):
        k, v = targs(self.lv.ctype)[:2]
        if el[1] == 'first':
            return LV(Cell('mapkey', base(k), self.key))
        return self.lv.sub(('m', self.key), base(v))


def key_term(m, v, kt):
    if isinstance(v, (LV, ByteLV, ReintLV)):
        v = m.load(v)
    if base(kt) in STRINGS:
        return as_str(m, v)
    return m.pack(v, kt)


def map_has(m, mv, k):
    return simp(z3.Select(mv.has, k))


def map_method(m, this, name, ps, args, ref):
    ctx = m.ctx
    ct = base(this.ctype)
    kt, vt = targs(ct)[:2]
    mv = this.get(m)
    if not isinstance(mv, MapV):
        raise Unsupported(ref['key'])
    n = len(args)
    if name in ('find', 'count', 'contains'):
        k = key_term(m, m.ev(args[0]), kt)
        h = ctx.branch(map_has(m, mv, k))
        if name == 'find':
            return IterV('map', this, k if h else None)
        return (I(1) if h else I(0)) if name == 'count' else z3.BoolVal(h)
    if name in ('end', 'cend'):
        return IterV('map', this, None)
    if name == 'at':
        k = key_term(m, m.ev(args[0]), kt)
        if not ctx.branch(map_has(m, mv, k)):
            throw('std::out_of_range')
        return this.sub(('m', k), base(vt))
    if name == 'operator[]':
        k = key_term(m, m.ev(args[0]), kt)
        if not ctx.branch(map_has(m, mv, k)):
            v = m.pack(m.construct_default(vt) if base(vt) in m.prog.records else m.default_value(vt), vt)
            this.set(m, MapV(mv.ctype, z3.Store(mv.has, k, z3.BoolVal(True)), z3.Store(mv.val, k, v)))
        return this.sub(('m', k), base(vt))
    if name == 'erase':
        a = m.ev(args[0])
        if isinstance(a, (LV,)):
            a2 = a.get(m)
        else:
            a2 = a
        if isinstance(a2, IterV):
            m.oblige_safe('only a valid iterator is erased', z3.BoolVal(a2.pos is not None))
            if a2.pos is None:
                raise PathEnd()
            m.oblige_safe('erased iterator refers to an element', map_has(m, mv, a2.pos))
            this.set(m, MapV(mv.ctype, z3.Store(mv.has, a2.pos, z3.BoolVal(False)), mv.val))
            return IterV('map', this, None, 'after')
        k = key_term(m, a, kt)
        had = map_has(m, mv, k)
        this.set(m, MapV(mv.ctype, z3.Store(mv.has, k, z3.BoolVal(False)), mv.val))
        return z3.If(had, I(1), I(0))
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        if n == 1:
            p = m.rvalue(args[0])
            if not isinstance(p, StructV):
                raise Unsupported(ref['key'])
            k, v = key_term(m, p.f['first'], kt), p.f['second']
        elif n == 2:
            k = key_term(m, m.ev(args[0]), kt)
            v = m.ev(args[1])
        else:
            raise Unsupported(ref['key'])
        v = coerce(m, v, vt)
        had = ctx.branch(map_has(m, mv, k))
        mv = this.get(m)
        if not had or name == 'insert_or_assign':
            this.set(m, MapV(mv.ctype, z3.Store(mv.has, k, z3.BoolVal(True)), z3.Store(mv.val, k, m.pack(v, vt))))
        return StructV('std::pair', {'first': IterV('map', this, k), 'second': z3.BoolVal(not had)})
    if name == 'clear':
        this.set(m, empty_map(m, ct))
        return None
    if name in ('size', 'empty'):
        z = z3.Function('map_size_%s' % mv.has.sort().domain(), mv.has.sort(), INT)(mv.has)
        ctx.assume(z3.And(z >= 0, z <= 2 ** 58))
        k0 = ctx.fresh('k', mv.has.sort().domain())
        ctx.assume((z == 0) == (mv.has == z3.K(mv.has.sort().domain(), z3.BoolVal(False))))
        return z if name == 'size' else simp(z == 0)
    if name == 'operator=':
        this.set(m, m.rvalue(args[0]))
        return this
    if name in ('begin', 'cbegin'):
        raise Unsupported('explicit iteration over a map')
    raise Unsupported(ref['key'])


def map_keys(m, mv):
    """the keys of a map in iteration order, with the facts that make them an enumeration"""
    ctx = m.ctx
    ks = mv.has.sort().domain()
    seq = z3.Function('keys_%s' % ks, mv.has.sort(), z3.SeqSort(ks))(mv.has)
    n = z3.Length(seq)
    ctx.assume(z3.And(n >= 0, n <= 2 ** 58))
    return seq


def key_facts(m, mv, i):
    seq = map_keys(m, mv)
    ks = mv.has.sort().domain()
    pos = z3.Function('keypos_%s' % ks, mv.has.sort(), ks, INT)
    k = seq[i]
    m.ctx.assume(z3.And(z3.Select(mv.has, k), pos(mv.has, k) == i))
    return k


def key_index(m, mv, k):
    """index of a present key in the enumeration"""
    seq = map_keys(m, mv)
    ks = mv.has.sort().domain()
    pos = z3.Function('keypos_%s' % ks, mv.has.sort(), ks, INT)
    p = pos(mv.has, k)
    m.ctx.assume(z3.Implies(z3.Select(mv.has, k), z3.And(p >= 0, p < z3.Length(seq), seq[p] == k)))
    return p


def range_map(m, s, lv, var, idx):
    ctx = m.ctx
    mv0 = lv.get(m)
    seq = map_keys(m, mv0)
    n = z3.Length(seq)
    ilv = LV(idx)
    m.ghost['range-map'] = (lv, mv0, seq)

    def cond():
        return simp(ilv.get(m) < n)

    def body():
        i = ilv.get(m)
        k = key_facts(m, mv0, i)
        cur = lv.get(m)
        m.oblige_safe('the element visited by a range-for over a map still exists', z3.Select(cur.has, k))
        el = MapEntLV(lv, k, 'std::pair')
        fr = m.frames[-1]

        def run():
            if is_ref(var['t']):
                fr.vars[var['id']] = RefV(el)
            else:
                kt, vt = targs(lv.ctype)[:2]
                v = StructV(base(var['t']), {'first': m.unpack(k, kt), 'second': lv.sub(('m', k), base(vt)).get(m)})
                fr.vars[var['id']] = LV(m.new_cell('%s:%s:%d' % (var['name'], var['id'], fr.depth), var['t'], v))
            for j, b in enumerate(var.get('bindings') or []):
                fr.vars[b['id']] = RefV(el.sub(('f', ('first', 'second')[j]), ''))
            m.st(s['body'])
            after = lv.get(m)
            m.oblige_safe('the current element of a range-for over a map is not erased', z3.Select(after.has, k))
        m.scope(run)

    def inc():
        ilv.set(m, simp(ilv.get(m) + 1))
    m.loop(s, body, cond, None, inc, hidden=ilv, container=lv)


# --------------------------------------------------------------------- dispatch
def method_call(m, ref, this, args, e):
    cls = base(ref['cls'])
    name = ref['name']
    tn = tname(cls)
    ps = ref['params']
    h = m.hooks.get('method')
    if h:
        r = h(m, ref, this, args, e)
        if r is not NotImplemented:
            return r
    used(m, short(ref['q']))
    if cls in STRINGS:
        return str_method(m, this, name, ps, args, ref)
    if tn in SEQS:
        return vec_method(m, this, name, ps, args, ref)
    if tn in ('std::map', 'std::unordered_map'):
        return map_method(m, this, name, ps, args, ref)
    if cls == 'boost::any':
        v = this.get(m)
        if name == 'empty':
            v2 = m.any_of(v.z) if v.cls is None else v
            if v2.cls is None:
                return m.w.is_('Empty', v2.z)
            return z3.BoolVal(v2.cls == '')
        if name == 'type':
            v = m.split_any(v)
            return LV(m.new_cell('tmp', 'std::type_info', TypeInfoV(v.cls if v.cls else 'void')))
        if name == 'operator=':
            this.set(m, to_any(m, m.ev(args[0])))
            return this
        if name == 'swap':
            o = m.lvalue(args[0])
            ov = o.get(m)
            o.set(m, v)
            this.set(m, ov)
            return this
        if name == 'clear':
            this.set(m, AnyV(''))
            return None
    if cls == 'std::type_info':
        if name == 'name':
            return PtrV('buf', Buf('typename', seq=m.ctx.concat(lit(m, '?'), z3.Unit(I(0)))), I(0))
        if name == 'operator==' or name == 'operator!=':
            a = this.get(m)
            b = m.rvalue(args[0])
            r = a.cls == b.cls
            return z3.BoolVal(r if name == 'operator==' else not r)
    if tn in ('std::ostream', 'std::istream', 'std::stringstream', 'std::ostringstream', 'std::istringstream', 'std::basic_ostream', 'std::basic_istream',
              'std::ios', 'std::basic_ios', 'std::ios_base'):
        if name == 'str':
            if args and base(ps[0]) in STRINGS:
                this.sub(('f', 'buf'), 'std::string').set(m, as_str(m, m.ev(args[0])))
                this.sub(('f', 'rest'), 'std::string').set(m, OpaqueV('unread'))
                return None
            return this.get(m).f['buf']
        if name == 'operator<<':
            return stream_put(m, this, m.ev(args[0]), ps[0])
        if name == 'operator>>':
            return stream_get(m, this, m.ev(args[0]), ps[0])
        if name.startswith('operator bool') or name in ('operator!', 'fail', 'good', 'eof', 'clear', 'bad'):
            v = this.get(m)
            if name == 'clear':
                if args and not isinstance(args[0], dict):
                    raise Unsupported('clear')
                for k in ('fail', 'eof'):
                    this.sub(('f', k), 'bool').set(m, z3.BoolVal(False))
                return None
            bad = v.f['fail'] if isinstance(v, StructV) else z3.BoolVal(False)
            eof = v.f['eof'] if isinstance(v, StructV) else z3.BoolVal(False)
            return {'operator!': bad, 'fail': bad, 'bad': z3.BoolVal(False), 'eof': eof,
                    'good': simp(z3.Not(z3.Or(bad, eof)))}.get(name, simp(z3.Not(bad)))
    if tn in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
        v = this.get(m)
        if name == 'get':
            return v
        if name in ('operator->',):
            return v
        if name == 'operator*':
            return m.deref(v)
        if name == 'reset':
            this.set(m, m.rvalue(args[0]) if args else NULL)
            return None
        if name.startswith('operator bool'):
            return simp(z3.Not(m.ptr_null(v)))
        if name == 'operator=':
            src = m.ev(args[0])
            nv = copy_object(m, base(this.ctype), src, '&&' in ps[0])
            this.set(m, nv)
            return this
        if name == 'release':
            this.set(m, NULL)
            return v
    if tn == 'std::function':
        v = this.get(m)
        if name == 'operator()':
            a = []
            for p, x in zip(ps, args):
                y = m.ev(x)
                if is_ref(p):
                    a.append(m.as_lv(y, p))
                else:
                    a.append(m.load(y) if isinstance(y, (LV, ByteLV, ReintLV)) else y)
            return m.invoke(v, a)
        if name.startswith('operator bool'):
            return m.fn_nonempty(v)
        if name == 'operator=':
            this.set(m, to_fn(m, m.ev(args[0])))
            return this
    if tn in LOCKS:
        v = this.get(m)
        if name == 'unlock':
            m.oblige_safe('unlock of an owned lock', z3.BoolVal(v.data is not None))
            if v.data is not None:
                unlock(m, v.data)
                m.ghost.setdefault('lockobj', {})[this.cell.name] = v.data
                this.set(m, OpaqueV('lock', None))
            return None
        if name == 'lock':
            mlv = m.ghost.get('lockobj', {}).get(this.cell.name)
            if mlv is None:
                raise Unsupported(ref['key'])
            lock(m, mlv)
            this.set(m, OpaqueV('lock', mlv))
            return None
        if name in ('owns_lock', 'operator bool'):
            return z3.BoolVal(v.data is not None)
    if 'mutex' in cls:
        if name == 'lock':
            lock(m, this)
            return None
        if name == 'unlock':
            unlock(m, this)
            return None
    if tn == 'std::atomic' or cls.startswith('std::__atomic'):
        if name.startswith('operator ') and name != 'operator=' or name == 'load':
            return this.get(m)
        if name in ('operator=', 'store'):
            v = m.rvalue(args[0])
            this.set(m, v)
            return v
        if name in ('operator++', 'operator--'):
            old = this.get(m)
            new = m.wrap(old + (1 if name == 'operator++' else -1), targs(this.ctype)[0])
            this.set(m, new)
            return old if args else new
        if name in ('fetch_add',):
            old = this.get(m)
            this.set(m, m.wrap(old + m.rvalue(args[0]), targs(this.ctype)[0]))
            return old
    if name == 'what':
        return OpaqueV('cstring', m.ctx.fresh_bytes('what'))
    if cls in ('boost::system::error_code', 'std::error_code'):
        v = this.get(m)
        if name.startswith('operator bool'):
            return v.data
        if name == 'value':
            return m.ctx.fresh_int('errno', -2 ** 31, 2 ** 31 - 1)
        if name == 'message':
            return m.ctx.fresh_bytes('message')
        if name == 'category':
            return OpaqueV('category')
    if tn in ('std::pair',) and name == 'operator=':
        v = m.rvalue(args[0])
        this.set(m, v)
        return this
    if isinstance(this, LV) and isinstance(this.get(m), IterV):
        return iter_op(m, this, name, args)
    raise Unsupported('library method ' + ref['key'])


def iter_op(m, this, name, args):
    it = this.get(m)
    if it.kind == 'seq':
        if name == 'operator*':
            return iter_deref(m, it)
        if name == 'operator->':
            return PtrV('obj', iter_deref(m, it))
        if name in ('operator++', 'operator--'):
            d = 1 if name == 'operator++' else -1
            new = IterV('seq', it.lv, simp(it.pos + d), it.extra)
            this.set(m, new)
            return it if args else this
        if name in ('operator+', 'operator-'):
            n = m.rvalue(args[0])
            if isinstance(n, IterV):
                return simp(it.pos - n.pos)
            return IterV('seq', it.lv, simp(it.pos + n if name == 'operator+' else it.pos - n), it.extra)
        if name in ('operator+=', 'operator-='):
            n = m.rvalue(args[0])
            this.set(m, IterV('seq', it.lv, simp(it.pos + n if name == 'operator+=' else it.pos - n), it.extra))
            return this
        if name == 'operator[]':
            return iter_deref(m, IterV('seq', it.lv, simp(it.pos + m.rvalue(args[0])), it.extra))
    else:
        if name == 'operator*' or name == 'operator->':
            ent = map_entry(m, it)
            return ent if name == 'operator*' else PtrV('obj', ent)
    raise Unsupported('iterator ' + name)


def map_entry(m, it):
    m.oblige_safe('the end iterator is not dereferenced', z3.BoolVal(it.pos is not None))
    if it.pos is None:
        raise PathEnd()
    mv = it.lv.get(m)
    m.oblige_safe('iterator refers to an element', map_has(m, mv, it.pos))
    return MapEntLV(it.lv, it.pos, 'std::pair')


def iter_deref(m, it):
    s = it.lv.get(m)
    m.oblige_safe('iterator within the container', z3.And(it.pos >= 0, it.pos < m.ctx.length(s)))
    el = it.extra or 'char'
    if base(it.lv.ctype) in STRINGS:
        return it.lv.sub(('s', it.pos, el), el)
    return it.lv.sub(('i', it.pos, el), el)


def stream_put(m, this, v, pt):
    lv = this
    if isinstance(v, PtrV) and v.kind == 'func':
        n = v.a.f['q']
        return manip(m, lv, n)
    if isinstance(v, LitLV) or isinstance(v, PtrV):
        t = as_str(m, v)
    elif isinstance(v, (LV, ByteLV, ReintLV)):
        v = m.load(v)
        t = None
    else:
        t = None
    cur = lv.get(m)
    if isinstance(cur, OpaqueV):
        return lv
    hexm, width, fillc = cur.f['fmt'].data
    if t is None:
        if isinstance(v, OpaqueV) and v.what == 'manip':
            kind, x = v.data
            fm = {'w': (hexm, x, fillc), 'f': (hexm, width, x)}[kind]
            return set_fmt(m, lv, fm)
        if isinstance(v, OpaqueV):
            t = m.ctx.fresh_bytes('text')
        elif z3.is_seq(v):
            t = v
        elif z3.is_bool(v):
            t = dec_str(m, z3.If(v, I(1), I(0)))
        elif is_char(pt):
            t = z3.Unit(m.to_byte(v))
        elif base(pt) == 'double':
            t = z3.Function('double_text', INT, BYTES)(v)
            m.ctx.assume(z3.Length(t) <= 400)
        else:
            if hexm:
                u = m.to_unsigned(v, INTS.get(base(pt), (64, False))[0])
                t = z3.Function('hexadecimal', INT, BYTES)(u)
                m.ctx.assume(z3.And(z3.Length(t) >= 1, z3.Length(t) <= 16))
                lo, hi = m.ctx.interval(u)
                t = hex_digits(m, u, t)
            else:
                t = dec_str(m, v)
    if width:
        L = m.ctx.length(t)
        w = simp(I(width) if isinstance(width, int) else width)
        if m.ctx.branch(L < w):
            t = m.ctx.concat(fill(m, simp(w - L), I(fillc) if isinstance(fillc, int) else fillc), t)
        set_fmt(m, lv, (hexm, 0, fillc))
        cur = lv.get(m)
    put(m, lv, t)
    return lv


def put(m, lv, t):
    cur = lv.get(m)
    b = lv.sub(('f', 'buf'), 'std::string')
    b.set(m, m.ctx.concat(cur.f['buf'], t))
    if not isinstance(cur.f['rest'], OpaqueV):
        lv.sub(('f', 'rest'), 'std::string').set(m, m.ctx.concat(cur.f['rest'], t))


SPACES = (32, 9, 10, 11, 12, 13)


def hexval(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def is_hex(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def stream_get(m, lv, v, pt):
    """formatted input of a string or a number"""
    ctx = m.ctx
    if isinstance(v, PtrV) and v.kind == 'func':
        return manip(m, lv, v.a.f['q'])
    cur = lv.get(m)
    if not isinstance(cur, StructV):
        raise Unsupported('input from an unknown stream')
    hexm, width, fillc = cur.f['fmt'].data
    if isinstance(v, OpaqueV) and v.what == 'manip':
        return set_fmt(m, lv, (hexm, v.data[1], fillc) if v.data[0] == 'w' else (hexm, width, v.data[1]))
    fail = lv.sub(('f', 'fail'), 'bool')
    eof = lv.sub(('f', 'eof'), 'bool')
    restlv = lv.sub(('f', 'rest'), 'std::string')
    rest = cur.f['buf'] if isinstance(cur.f['rest'], OpaqueV) else cur.f['rest']

    for x in (fail, eof, restlv) + ((v,) if isinstance(v, LV) else ()):
        m.note_write(x.cell, x.path)

    def stop():
        fail.set(m, z3.BoolVal(True))
        return lv
    if ctx.branch(z3.Or(fail.get(m), eof.get(m))):
        return stop()
    n = ctx.length(rest)
    if ctx.branch(n == 0):
        eof.set(m, z3.BoolVal(True))
        return stop()
    if ctx.branch(z3.Or([ctx.el(rest, I(0)) == c for c in SPACES])):
        raise Unsupported('input that starts with white space')
    dst = v
    dt = base(dst.ctype)
    if dt in STRINGS:
        if not isinstance(width, int) or width <= 0 or width > 8:
            raise Unsupported('unbounded input of a word')
        k = 1
        while True:
            if k == width:
                break
            if ctx.branch(n <= k):
                eof.set(m, z3.BoolVal(True))
                break
            if ctx.branch(z3.Or([ctx.el(rest, I(k)) == c for c in SPACES])):
                break
            k += 1
        dst.set(m, ctx.extract(rest, I(0), I(k)))
        restlv.set(m, ctx.extract(rest, I(k), simp(n - k)))
        set_fmt(m, lv, (hexm, 0, fillc))
        return lv
    if dt in INTS and not is_char(dt):
        bits, signed = INTS[dt]
        v = None
        for k in range(1, 5):
            c = ctx.el(rest, I(k - 1))
            if not ctx.branch(is_hex(c) if hexm else z3.And(c >= 48, c <= 57)):
                raise Unsupported('input of a number that is followed by text')
            d = hexval(c)
            v = d if v is None else v * (16 if hexm else 10) + d
            if ctx.branch(n == k):
                eof.set(m, z3.BoolVal(True))
                if not ctx.valid(v < 2 ** (bits - (1 if signed else 0))):
                    raise Unsupported('input of a large number')
                dst.set(m, simp(v))
                restlv.set(m, EMPTY)
                return lv
        raise Unsupported('input of a long number')
    raise Unsupported('input of a ' + dt)


def hexdigit(n):
    return z3.If(n < 10, n + 48, n + 87)


def hex_digits(m, u, t):
    """exact digits for values below 256"""
    lo, hi = m.ctx.interval(simp(u))
    if (lo is not None and lo >= 0 and hi is not None and hi <= 255) or m.ctx.valid(z3.And(u >= 0, u <= 255)):
        if m.ctx.branch(u < 16):
            return z3.Unit(simp(hexdigit(u)))
        return m.ctx.concat(z3.Unit(simp(hexdigit(u / I(16)))), z3.Unit(simp(hexdigit(u % 16))))
    return t


def set_fmt(m, lv, fm):
    cur = lv.get(m)
    if isinstance(cur, OpaqueV):
        return lv
    if cur.f['fmt'].data != fm:
        lv.sub(('f', 'fmt'), '').set(m, OpaqueV('fmt', fm))
    return lv


def manip(m, lv, n):
    cur = lv.get(m)
    if isinstance(cur, OpaqueV):
        return lv
    hexm, width, fillc = cur.f['fmt'].data
    if n == 'std::hex':
        return set_fmt(m, lv, (True, width, fillc))
    if n == 'std::dec':
        return set_fmt(m, lv, (False, width, fillc))
    if n.startswith('std::endl'):
        put(m, lv, z3.Unit(I(10)))
        return lv
    if n.startswith('std::flush') or n.startswith('std::uppercase'):
        if 'upper' in n:
            raise Unsupported(n)
        return lv
    raise Unsupported('manipulator ' + n)


def op_call(m, ref, e):
    op = e['op']
    args = e['args']
    ps = ref['params']
    h = m.hooks.get('operator')
    if h:
        r = h(m, ref, e)
        if r is not NotImplemented:
            return r
    used(m, short(ref['q']) if 'operator<<' not in ref['q'] else 'operator<<')
    if e['member']:
        obj = m.ev(args[0])
        if isinstance(obj, (LV, ByteLV, ReintLV)):
            this = obj
        else:
            this = m.as_lv(obj, args[0]['t'])
        cls = base(ref['cls'])
        v = this.get(m) if isinstance(this, LV) else None
        if isinstance(v, IterV) and ref['name'] not in ('operator=',):
            return iter_op(m, this, ref['name'], args[1:])
        if isinstance(v, IterV) or (isinstance(v, PtrV) and op == '=') or isinstance(v, FnV) and op == '=':
            if op == '=':
                src = m.ev(args[1])
                if isinstance(v, FnV):
                    this.set(m, to_fn(m, src))
                    return this
                if tname(cls) in ('std::unique_ptr', 'std::shared_ptr'):
                    return method_call(m, ref, this, args[1:], e)
                this.set(m, m.load(src) if isinstance(src, LV) else src)
                return this
        return method_call(m, ref, this, args[1:], e)
    # free operators
    if op == '>>':
        lv = m.ev(args[0])
        return stream_get(m, lv, m.ev(args[1]), ps[1])
    if op == '<<':
        lv = m.ev(args[0])
        if isinstance(lv, OpaqueV):
            lv = m.as_lv(lv, 'std::ostream')
        return stream_put(m, lv, m.ev(args[1]), ps[1])
    a = m.ev(args[0])
    b = m.ev(args[1]) if len(args) > 1 else None
    av = m.load(a) if isinstance(a, (LV, ByteLV, ReintLV)) else a
    bv = m.load(b) if isinstance(b, (LV, ByteLV, ReintLV)) else b
    strish = any(base(p) in STRINGS for p in ps)
    if strish and op in ('==', '!=', '+', '<', '>', '<=', '>='):
        def s_of(v, p):
            if base(p) in CHARS:
                return z3.Unit(m.to_byte(v))
            return as_str(m, v)
        x, y = s_of(av, ps[0]), s_of(bv, ps[1])
        if op == '+':
            return m.ctx.concat(x, y)
        if op in ('==', '!='):
            f = seq_eq(m, x, y)
            return f if op == '==' else simp(z3.Not(f))
        lt = z3.Function('str_less', BYTES, BYTES, BOOL)
        m.ctx.assume(z3.Not(z3.And(lt(x, y), lt(y, x))))
        m.ctx.assume((x == y) == z3.And(z3.Not(lt(x, y)), z3.Not(lt(y, x))))
        return {'<': lt(x, y), '>': lt(y, x), '<=': z3.Not(lt(y, x)), '>=': z3.Not(lt(x, y))}[op]
    if isinstance(av, IterV) and isinstance(bv, IterV):
        if av.kind == 'map':
            if op in ('==', '!='):
                if av.pos is None or bv.pos is None:
                    r = z3.BoolVal((av.pos is None) == (bv.pos is None))
                else:
                    r = simp(av.pos == bv.pos)
                return r if op == '==' else simp(z3.Not(r))
        else:
            if op == '-':
                return simp(av.pos - bv.pos)
            f = {'==': av.pos == bv.pos, '!=': av.pos != bv.pos, '<': av.pos < bv.pos, '>': av.pos > bv.pos,
                 '<=': av.pos <= bv.pos, '>=': av.pos >= bv.pos}.get(op)
            if f is not None:
                return simp(f)
    if isinstance(av, PtrV) and isinstance(bv, PtrV) and op in ('==', '!='):
        return m.ptr_binop(op, av, bv)
    if isinstance(av, FnV) and isinstance(bv, PtrV) and bv.kind == 'null':
        f = m.fn_nonempty(av)
        return simp(z3.Not(f)) if op == '==' else f
    if isinstance(bv, FnV) and isinstance(av, PtrV) and av.kind == 'null':
        f = m.fn_nonempty(bv)
        return simp(z3.Not(f)) if op == '==' else f
    if z3.is_expr(av) and z3.is_expr(bv) and z3.is_seq(av) and op in ('==', '!='):
        f = simp(av == bv)
        return f if op == '==' else simp(z3.Not(f))
    if isinstance(av, OpaqueV) and av.what == 'error_code':
        f = m.ctx.fresh('eof', BOOL)
        m.ctx.assume(z3.Implies(f, av.data))
        return f if op == '==' else simp(z3.Not(f))
    if isinstance(av, TypeInfoV) and isinstance(bv, TypeInfoV):
        return z3.BoolVal((av.cls == bv.cls) == (op == '=='))
    raise Unsupported('operator %s: %s' % (op, ref['key'][:160]))


def free_call(m, ref, e):
    q = short(ref['q'])
    args = e['args']
    ps = ref['params']
    ctx = m.ctx
    h = m.hooks.get('free')
    if h:
        r = h(m, ref, e)
        if r is not NotImplemented:
            return r
    used(m, q)
    if q == 'boost::any_cast' or q == 'boost::unsafe_any_cast':
        T = targs(ref['q'])[0] if '<' in ref['q'] else base(ref['ret'])
        if is_ptr(ps[0]):
            p = m.rvalue(args[0])
            lv = m.deref(p)
            a = m.split_any(lv.get(m))
            if a.cls == base(T):
                return PtrV('obj', lv.sub(('any', a.cls), a.cls))
            return NULL
        x = m.ev(args[0])
        lv = m.as_lv(x, 'boost::any')
        a = m.split_any(lv.get(m))
        if a.cls != base(T):
            throw('boost::bad_any_cast')
        if is_ref(T):
            return lv.sub(('any', a.cls), a.cls)
        v = a.val
        if m.prog.records[a.cls].get('copyctor'):
            f = m.prog.functions[m.prog.records[a.cls]['copyctor']]
            o = m.new_lv('obj', a.cls, m.blank(a.cls))
            m.run_ctor(f, o, [lv.sub(('any', a.cls), a.cls)])
            return o.get(m)
        return v
    if q in ('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove'):
        d, s, n = [m.rvalue(a) for a in args[:3]]
        n = simp(n)
        if isinstance(s, PtrV) and s.kind == 'obj':
            s = PtrV('bytes', s.a, I(0))
        if isinstance(d, PtrV) and d.kind == 'obj':
            d = PtrV('bytes', d.a, I(0))
        src = m.bytes_at(s, n)
        if z3.is_int_value(n):
            for i in range(n.as_long()):
                m.store_byte(d, I(i), ctx.nth(src, I(i)))
            return d
        if d.kind == 'arr':
            k = len(d.a.get(m).a)
            m.oblige_safe('memcpy stays within the destination', z3.And(d.b >= 0, d.b + n <= k))
        raise Unsupported('memcpy of symbolic size')
    if q in ('__bswap_16', '__bswap_32', '__bswap_64', '__builtin_bswap16', '__builtin_bswap32', '__builtin_bswap64'):
        t = base(ref['ret'])
        bits = int(re.search(r'(\d+)$', q).group(1))
        t = {16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}[bits]
        v = m.rvalue(args[0])
        return m.compose(list(reversed(m.decompose(v, t))), t)
    if q in ('htobe32', 'htobe16', 'htobe64'):
        raise Unsupported(q)
    if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend'):
        x = m.ev(args[0])
        v = x.get(m)
        if isinstance(v, ArrV):
            return PtrV('arr', x, I(0) if 'begin' in q else I(len(v.a)))
        if z3.is_expr(v):
            return IterV('seq', x, I(0) if 'begin' in q else ctx.length(v), base(targs(x.ctype)[0]) if '<' in x.ctype else 'char')
    if q == 'std::reverse':
        a, b = m.rvalue(args[0]), m.rvalue(args[1])
        if isinstance(a, PtrV) and a.kind == 'arr':
            i, j = simp(a.b), simp(b.b)
            arr = a.a.get(m)
            if z3.is_int_value(i) and z3.is_int_value(j) and 0 <= i.as_long() <= j.as_long() <= len(arr.a):
                i, j = i.as_long(), j.as_long()
                if any(x is UNINIT for x in arr.a[i:j]):
                    m.oblige_safe('no uninitialised value is read', False)
                x = arr.a[:i] + list(reversed(arr.a[i:j])) + arr.a[j:]
                a.a.set(m, ArrV(arr.ctype, x))
                return None
        raise Unsupported('std::reverse')
    if q in ('std::swap',):
        a, b = m.lvalue(args[0]), m.lvalue(args[1])
        x, y = a.get(m), b.get(m)
        a.set(m, y)
        b.set(m, x)
        return None
    if q in ('std::min', 'std::max'):
        a, b = m.rvalue(args[0]), m.rvalue(args[1])
        c = ctx.branch(a <= b)
        r = (a if c else b) if q == 'std::min' else (b if c else a)
        return m.as_lv(r, ps[0])
    if q in ('std::copy', 'std::copy_n'):
        raise Unsupported(q)
    if q in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'):
        v = m.ev(args[0])
        return m.addr_of(v) if q == 'std::addressof' else v
    if q in ('strlen', 'std::strlen', '__builtin_strlen'):
        return m.cstr_len(m.rvalue(args[0]))
    if q in ('std::bind', 'boost::bind'):
        vs = [m.ev(a) for a in args]
        tgt = vs[0]
        if isinstance(tgt, (LV,)):
            tgt = tgt.get(m)
        bound = []
        for v in vs[1:]:
            if isinstance(v, (LV, ByteLV, ReintLV)):
                v = m.load(v)
            bound.append(v)
        if q == 'boost::bind' and isinstance(tgt, PtrV) and len(ps) and is_ptr(ps[0]) is False:
            pass
        return FnV('bind', tgt, bound)
    if q == 'std::make_pair':
        ts = targs(ref['ret'])
        return StructV(base(ref['ret']), {'first': coerce(m, m.ev(args[0]), ts[0]), 'second': coerce(m, m.ev(args[1]), ts[1])})
    if q in ('std::make_shared', 'std::make_unique'):
        T = base(targs(ref['q'])[0])
        if T in STRINGS:
            v = as_str(m, m.ev(args[0])) if args else EMPTY
            if len(args) > 1:
                raise Unsupported(q)
            c = m.new_cell('heap', T, v)
            return PtrV('obj', LV(c))
        if T in m.prog.records:
            # find the constructor with matching arity
            cs = [f for f in m.prog.by_q.get(T + '::' + T.split('::')[-1], []) if f.get('ctor') and len(f['params']) == len(args) and not f.get('copyctor')]
            if len(cs) == 1 and cs[0]['key'] in m.prog.functions:
                c = m.new_cell('heap', T, m.blank(T))
                m.run_ctor(cs[0], LV(c), m.bind_args(cs[0], args))
                return PtrV('obj', LV(c))
        raise Unsupported(ref['key'])
    if q in ('std::stoi', 'std::stol', 'std::stoul', 'std::stoull', 'std::stoll'):
        return string_to_int(m, as_str(m, m.ev(args[0])), q, simp(m.rvalue(args[2])) if len(args) > 2 else I(10))
    if q == 'std::to_string':
        return dec_str(m, m.rvalue(args[0]))
    if q == 'std::setw':
        return OpaqueV('manip', ('w', intval(m.rvalue(args[0]))))
    if q == 'std::setfill':
        return OpaqueV('manip', ('f', m.to_byte(m.rvalue(args[0])).as_long()))
    if q in ('std::hex', 'std::dec', 'std::endl', 'std::flush'):
        return manip(m, m.ev(args[0]), q)
    if q == 'getenv' or q == 'std::getenv' or q == 'secure_getenv':
        return getenv(m, as_str(m, m.rvalue(args[0])))
    if q == 'getuid' or q == 'geteuid':
        return m.typed(z3.Int('uid'), 'unsigned int')
    if q in ('abort', 'exit', 'std::terminate', 'std::abort', '__assert_fail'):
        m.ctx.oblige('safe: %s is not reached' % q, z3.BoolVal(False), m.loc())
        raise PathEnd()
    raise Unsupported('library function ' + ref['key'][:160])


def intval(v):
    v = simp(v)
    return v.as_long() if z3.is_int_value(v) else v


def getenv(m, name):
    h = m.hooks.get('getenv')
    if h:
        return h(m, name)
    null = m.ctx.fresh('env_unset', BOOL)
    if m.ctx.branch(null):
        return NULL
    s = m.ctx.fresh_bytes('env')
    c = m.new_cell('env', 'std::string', s)
    return PtrV('buf', Buf('env', lv=LV(c), nul=True, cstr=True), I(0))


INT_OF = {'std::stoi': (-2 ** 31, 2 ** 31 - 1, 0), 'std::stol': (-2 ** 63, 2 ** 63 - 1, 0), 'std::stoll': (-2 ** 63, 2 ** 63 - 1, 0),
          'std::stoul': (0, 2 ** 64 - 1, 1), 'std::stoull': (0, 2 ** 64 - 1, 1)}


def string_to_int(m, s, q, radix):
    lo, hi, uns = INT_OF[q]
    s = simp(s)
    if z3.is_app(s) and s.decl().name() == 'decimal' and z3.is_int_value(radix) and radix.as_long() == 10:
        n = s.arg(0)
        if uns:
            # strtoul accepts a minus sign and negates modulo 2^64
            if not m.ctx.branch(z3.And(n >= -hi, n <= hi)):
                throw('std::out_of_range')
            return m.wrap(n, 'unsigned long')
        if not m.ctx.branch(z3.And(n >= lo, n <= hi)):
            throw('std::out_of_range')
        return n
    bs = m.ctx.parts(s)
    if bs and all(z3.is_app_of(b, z3.Z3_OP_SEQ_UNIT) and z3.is_int_value(b.arg(0)) for b in bs) and z3.is_int_value(radix):
        text = bytes(b.arg(0).as_long() for b in bs).decode('latin-1')
        try:
            n = int(text, radix.as_long())
            if lo <= n <= hi:
                return I(n)
        except ValueError:
            pass
    k = m.ctx.choose(3)
    if k == 1:
        throw('std::invalid_argument')
    if k == 2:
        throw('std::out_of_range')
    return m.ctx.fresh_int('parsed', lo, hi)
