"""Symbolic executor for the exported AST (see DESIGN.md)."""
import z3
from .core import *
from .values import *

MAX_UNROLL = 40
MAX_DEPTH = 60
ANON = ('tmp', 'obj', 'heap', 'shared', 'exc', 'ctor', 'base')


class Frame:
    __slots__ = ('f', 'vars', 'this', 'chain', 'depth', 'ret', 'lambda_env')

    def __init__(self, f, this, chain, depth):
        self.f, self.this, self.chain, self.depth = f, this, chain, depth
        self.vars = {}


class Loop:
    """what has been learnt about one loop"""
    def __init__(self):
        self.mods = []
        self.modset = set()
        self.dropped = set()
        self.used = set()


class World:
    """program-wide facts shared by tasks: types, sorts, contracts, models"""
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.contracts = dict(contracts or {})
        self.sorts = {}
        self.flat = {}
        self.used_models = {}
        self.used_functions = {}
        self.used_contracts = {}
        self.any_classes = [q for q in sorted(prog.records) if 'DBus::Type::Base' in self.all_bases(q)
                            and q != 'DBus::Type::Base']
        self._build_val()

    def all_bases(self, q):
        r = []
        for b in self.prog.records.get(q, {}).get('bases', []):
            r.append(base(b))
            r.extend(self.all_bases(base(b)))
        return r

    def fields(self, cls):
        """all fields, bases first: [(name, ctype, record field)]"""
        r = self.flat.get(cls)
        if r is None:
            r = []
            rec = self.prog.records[cls]
            for b in rec['bases']:
                if base(b) in self.prog.records:
                    r.extend(self.fields(base(b)))
            for f in rec['fields']:
                r.append((f['name'], f['t'], f))
            self.flat[cls] = r
        return r

    def leaves(self, ct, prefix=()):
        """flattened leaves of a class type: [(path, ctype)]"""
        ct = base(ct)
        if ct in self.prog.records:
            out = []
            for n, t, _ in self.fields(ct):
                out.extend(self.leaves(t, prefix + (n,)))
            return out
        if tname(ct) == 'std::pair':
            a, b = targs(ct)
            return self.leaves(a, prefix + ('first',)) + self.leaves(b, prefix + ('second',))
        return [(prefix, ct)]

    def _build_val(self):
        Val = z3.Datatype('Val')
        Val.declare('mkEmpty')
        Val.declare('mkOther', ('other', INT))
        self.val_leaves = {}
        vsort = z3.DatatypeSort('Val')
        for c in self.any_classes:
            short = c.split('::')[-1]
            ls = [(p, t) for p, t in self.leaves(c) if not (short == 'Byte' and p == ('m_Signature',))]
            self.val_leaves[c] = ls
            Val.declare('mk' + short, *[('%s_%s' % (short, '.'.join(p)), self._leaf_sort(t, vsort)) for p, t in ls])
        self.Val = Val.create()
        self.sorts['boost::any'] = self.Val
        self.vk = {}
        for i in range(self.Val.num_constructors()):
            n = self.Val.constructor(i).name()[2:]
            self.vk[n] = i

    def _leaf_sort(self, t, vsort):
        t = base(t)
        if t in INTS or t == 'double':
            return INT
        if t == 'bool':
            return BOOL
        if t in STRINGS:
            return BYTES
        if t == 'boost::any':
            return vsort
        if tname(t) in SEQS:
            return z3.SeqSort(self._leaf_sort(targs(t)[0], vsort))
        raise Unsupported('field type in value: ' + t)

    def mk(self, short):
        return self.Val.constructor(self.vk[short])

    def is_(self, short, v):
        return self.Val.recognizer(self.vk[short])(v)

    def acc(self, short, leaf, v):
        c = self.Val.constructor(self.vk[short])
        ls = self.val_leaves['DBus::Type::' + short]
        for i, (p, t) in enumerate(ls):
            if '.'.join(p) == leaf:
                return self.Val.accessor(self.vk[short], i)(v)
        raise KeyError(leaf)

    def sort_of(self, t):
        t = base(t)
        s = self.sorts.get(t)
        if s is not None:
            return s
        if t in INTS or t == 'double':
            s = INT
        elif t == 'bool':
            s = BOOL
        elif t in STRINGS:
            s = BYTES
        elif tname(t) in SEQS:
            s = z3.SeqSort(self.sort_of(targs(t)[0]))
        elif tname(t) == 'std::function':
            s = INT
        elif tname(t) == 'std::shared_ptr' and base(targs(t)[0]) in STRINGS:
            s = BYTES
        elif t in self.prog.records or tname(t) == 'std::pair':
            ls = self.leaves(t)
            D = z3.Datatype('S%d_%s' % (len(self.sorts), t.replace('::', '_')[:40]))
            D.declare('mk%d' % len(self.sorts), *[('f%d_%s' % (len(self.sorts), '.'.join(p)), self.sort_of(lt)) for p, lt in ls])
            s = D.create()
        else:
            raise Unsupported('no sort for type ' + t)
        self.sorts[t] = s
        return s


class Machine:
    def __init__(self, world, ctx):
        self.w = world
        self.prog = world.prog
        self.ctx = ctx
        Cell.count = 0
        self.frames = []
        self.cellmap = {}
        self.globals = {}
        self.statics = {}
        self.recorders = []
        self.contracts = dict(world.contracts)
        self.templates = []
        self.measures = None
        self.fnreg = {}
        self.ghost = {}
        self.tmps = []
        self.locks = []
        self.hooks = {}
        self.access = None      # observer of memory accesses by the code
        self.quiet = 0          # accesses by specifications are not observed
        self.prop = ''
        self.anon = {}

    # ------------------------------------------------------------ cells
    def new_cell(self, name, ctype, v=UNINIT):
        if name in ANON:
            k = (name, self.frames[-1].chain if self.frames else ())
            self.anon[k] = self.anon.get(k, 0) + 1
            name = '%s@%s#%d' % (name, '/'.join(x.split('::')[-1] for x in k[1]), self.anon[k])
        c = Cell(name, base(ctype), v)
        self.cellmap[name] = c
        return c

    def new_lv(self, name, ctype, v=UNINIT):
        return LV(self.new_cell(name, ctype, v))

    def note_write(self, cell, path):
        if cell.name.startswith('static:') and not self.ghost.get('static-init'):
            raise Unsupported('static local modified: ' + cell.name)
        for sn, log in self.recorders:
            if cell.sn <= sn:
                p = []
                for el in path:
                    if el[0] not in ('f', 'any'):
                        break
                    p.append(el)
                log.add((cell.name, tuple(p)))
        if self.access is not None and not self.quiet:
            self.access(self, LV(cell, path, ''), True)

    def step_get(self, v, el):
        k = el[0]
        if k == 'f':
            if not isinstance(v, StructV):
                raise Unsupported('field %s of %r' % (el[1], v))
            if el[1] not in v.f:
                raise Unsupported('no field %s in %s' % (el[1], v.cls))
            return v.f[el[1]]
        if k == 'any':
            return self.any_val(v, el[1])
        if k == 'i':
            return self.unpack(self.ctx.nth(v, el[1]), el[2])
        if k == 's':
            return self.conv_byte(self.ctx.nth(v, el[1]) if el[1] is not None else I(0), el[2])
        if k == 'a':
            return v.a[el[1]]
        if k == 'm':
            return self.map_get(v, el[1])
        raise Unsupported('path ' + k)

    def step_set(self, cur, el, v):
        k = el[0]
        if k == 'f':
            f = dict(cur.f)
            f[el[1]] = v
            return StructV(cur.cls, f)
        if k == 'any':
            return AnyV(el[1], v)
        if k == 'i':
            return self.ctx.update(cur, el[1], self.pack(v, el[2]))
        if k == 's':
            return self.ctx.update(cur, el[1], self.to_byte(v))
        if k == 'a':
            a = list(cur.a)
            a[el[1]] = v
            return ArrV(cur.ctype, a)
        if k == 'm':
            return self.map_set(cur, el[1], v)
        raise Unsupported('path ' + k)

    # ------------------------------------------------------------ pack / unpack
    def pack(self, v, ct):
        ct = base(ct)
        if ct == 'boost::any':
            return self.pack_any(v)
        if z3.is_expr(v):
            return v
        if isinstance(v, FnV):
            return self.fn_id(v)
        if isinstance(v, PtrV) and tname(ct) == 'std::shared_ptr':
            if v.kind != 'obj':
                raise Unsupported('null shared_ptr in container')
            return self.pack(v.a.get(self), targs(ct)[0])
        if isinstance(v, StructV):
            s = self.w.sort_of(ct)
            args = []
            for p, t in self.w.leaves(ct):
                x = v
                for n in p:
                    x = x.f[n]
                if x is UNINIT:
                    x = self.fresh_value(t, 'uninit')
                args.append(self.pack(x, t))
            return s.constructor(0)(*args)
        if v is UNINIT:
            raise Unsupported('uninitialised value stored in container')
        raise Unsupported('pack %r as %s' % (v, ct))

    def unpack(self, z, ct):
        ct = base(ct)
        if ct == 'boost::any':
            return self.any_of(z)
        if ct in INTS or ct == 'bool' or ct == 'double':
            return self.typed(z, ct)
        if ct in STRINGS or tname(ct) in SEQS:
            self.ctx.assume(z3.Length(z) <= 2 ** 62)
            return z
        if tname(ct) == 'std::function':
            return self.fn_of(z, ct)
        if tname(ct) == 'std::shared_ptr':
            c = self.new_cell('shared', targs(ct)[0], self.unpack(z, targs(ct)[0]))
            return PtrV('obj', LV(c))
        if ct in self.prog.records or tname(ct) == 'std::pair':
            s = self.w.sort_of(ct)
            ls = self.w.leaves(ct)
            vals = []
            for i, (p, t) in enumerate(ls):
                vals.append((p, self.unpack(simp(s.accessor(0, i)(z)), t)))
            return self.nest(ct, vals)
        raise Unsupported('unpack ' + ct)

    def nest(self, ct, vals):
        """StructV of type ct from leaves"""
        ct = base(ct)
        d = {p: v for p, v in vals}

        def build(t, pre):
            t = base(t)
            if t in self.prog.records:
                return StructV(t, {n: build(ft, pre + (n,)) for n, ft, _ in self.w.fields(t)})
            if tname(t) == 'std::pair':
                a, b = targs(t)
                return StructV(t, {'first': build(a, pre + ('first',)), 'second': build(b, pre + ('second',))})
            return d[pre]
        return build(ct, ())

    def any_of(self, z):
        """AnyV of a Val term"""
        z = simp(z)
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            n = z.decl().name()[2:]
            if n == 'Empty':
                return AnyV('')
            if n == 'Other':
                return AnyV('other', None, z)
            return self.any_known('DBus::Type::' + n, z)
        for n, i in self.w.vk.items():
            if self.w.Val.recognizer(i)(z).get_id() in self.ctx.pcset:
                if n == 'Empty':
                    return AnyV('')
                if n == 'Other':
                    return AnyV('other', None, z)
                return self.any_known('DBus::Type::' + n, z)
        return AnyV(None, None, z)

    def any_known(self, cls, z):
        short = cls.split('::')[-1]
        vals = [(p, self.unpack(simp(self.w.Val.accessor(self.w.vk[short], i)(z)), t))
                for i, (p, t) in enumerate(self.w.val_leaves[cls])]
        if short == 'Byte':
            vals.append((('m_Signature',), EMPTY))
        return AnyV(cls, self.nest(cls, vals), z)

    def split_any(self, a):
        """the AnyV with its class decided on this path"""
        if a.cls is not None:
            return a
        b = self.any_of(a.z)
        if b.cls is not None:
            return b
        names = list(self.w.vk)
        k = self.ctx.choose(len(names), [self.w.Val.recognizer(self.w.vk[n])(a.z) for n in names])
        return self.any_of(a.z)

    def pack_any(self, a):
        if not isinstance(a, AnyV):
            raise Unsupported('not an any: %r' % (a,))
        if a.z is not None:
            return a.z
        if a.cls == '':
            return self.w.mk('Empty')()
        short = a.cls.split('::')[-1]
        args = []
        for p, t in self.w.val_leaves[a.cls]:
            x = a.val
            for n in p:
                x = x.f[n]
            if x is UNINIT:
                x = self.fresh_value(t, 'uninit')
            args.append(self.pack(x, t))
        a.z = self.w.mk(short)(*args)
        self.ctx.ex.keep.append(a.z)
        return a.z

    def any_val(self, a, cls):
        a = self.split_any(a)
        if a.cls != cls:
            raise Unsupported('any holds %s, not %s' % (a.cls, cls))
        return a.val

    # ------------------------------------------------------------ scalars
    def typed(self, z, ct):
        ct = base(ct)
        if ct in INTS:
            lo, hi = int_range(ct)
            if z.get_id() not in self.ctx.bounds and not z3.is_int_value(z):
                self.ctx.bounds[z.get_id()] = (lo, hi)
                self.ctx.assume(z3.And(z >= lo, z <= hi))
        elif ct == 'double':
            if z.get_id() not in self.ctx.bounds and not z3.is_int_value(z):
                self.ctx.bounds[z.get_id()] = (0, 2 ** 64 - 1)
                self.ctx.assume(z3.And(z >= 0, z < 2 ** 64))
        return z

    def scalar_size(self, ct):
        ct = base(ct)
        if ct in INTS:
            return INTS[ct][0] // 8
        if ct == 'double':
            return 8
        if ct == 'bool':
            return 1
        raise Unsupported('size of ' + ct)

    def conv_byte(self, b, ct):
        """stored byte (0..255) as a value of a character type"""
        ct = base(ct)
        if ct in ('char', 'signed char'):
            b = simp(b)
            if z3.is_int_value(b):
                n = b.as_long()
                return I(n - 256 if n > 127 else n)
            r = z3.If(b > 127, b - 256, b)
            self.ctx.sx[r.get_id()] = b
            self.ctx.bounds[r.get_id()] = (-128, 127)
            self.ctx.ex.keep.append(r)
            return r
        return b

    def to_byte(self, v):
        v2 = self.ctx.sx.get(v.get_id())
        if v2 is not None:
            return v2
        v = simp(v)
        if z3.is_int_value(v):
            return I(v.as_long() % 256)
        lo, hi = self.ctx.interval(v)
        if lo is not None and hi is not None and lo >= 0 and hi <= 255:
            return v
        return self.wrap(v, 'unsigned char')

    def wrap(self, v, ct):
        """v converted (modulo) to the integer type"""
        ct = base(ct)
        if ct == 'bool':
            return v != 0
        if ct not in INTS:
            return v
        v = simp(v)
        bits, signed = INTS[ct]
        lo, hi = int_range(ct)
        if z3.is_int_value(v):
            n = v.as_long() % (1 << bits)
            if signed and n > hi:
                n -= 1 << bits
            return I(n)
        s = self.ctx.sx.get(v.get_id())
        if s is not None and bits == 8:
            return s if not signed else v
        u = self.ctx.sgn.get((v.get_id(), bits))
        if u is not None:
            return v if signed else u
        a, b = self.ctx.interval(v)
        if a is not None and b is not None and a >= lo and b <= hi:
            return v
        inr = z3.And(v >= lo, v <= hi)
        if self.ctx.valid(inr):
            return v
        m = 1 << bits
        if not signed:
            if a is not None and b is not None and a >= -m and b < m:
                if self.ctx.valid(v < 0):
                    return simp(v + m)
                return z3.If(v < 0, v + m, v)
            if a is not None and b is not None and a >= 0 and b < 2 * m:
                return z3.If(v >= m, v - m, v)
            return v % m
        if a is not None and b is not None and a >= 0 and b < m:
            return self.signed_of(v, bits)
        u = v % m
        return z3.If(u > hi, u - m, u)

    def signed_of(self, u, bits):
        """two's complement reading of u (0 <= u < 2^bits), remembering u"""
        m = 1 << bits
        r = simp(z3.If(u > m // 2 - 1, u - m, u))
        self.ctx.sgn[(r.get_id(), bits)] = u
        self.ctx.bounds[r.get_id()] = (-(m // 2), m // 2 - 1)
        self.ctx.ex.keep.append(r)
        self.ctx.ex.keep.append(u)
        return r

    def to_unsigned(self, v, bits):
        v = simp(v)
        if z3.is_int_value(v):
            return I(v.as_long() % (1 << bits))
        # If(u > hi, u - m, u) -> u
        u = self.ctx.sgn.get((v.get_id(), bits))
        if u is not None:
            return u
        a, b = self.ctx.interval(v)
        if a is not None and a >= 0:
            return v
        if self.ctx.valid(v >= 0):
            return v
        return z3.If(v < 0, v + (1 << bits), v)

    def decompose(self, v, ct):
        """little-endian bytes of a scalar"""
        ct = base(ct)
        if ct == 'bool':
            return [z3.If(v, I(1), I(0))]
        n = self.scalar_size(ct)
        s = self.ctx.sx.get(v.get_id())
        if n == 1 and s is not None:
            return [s]
        u = self.to_unsigned(v, 8 * n)
        got = self.ctx.composed.get((u.get_id(), n))
        if got is not None:
            return list(got)
        if n == 1:
            return [u]
        if z3.is_int_value(u):
            return [I((u.as_long() >> (8 * i)) & 255) for i in range(n)]
        out = []
        for i in range(n):
            q = u if i == 0 else u / I(1 << (8 * i))
            out.append(simp(q % 256) if i < n - 1 else simp(q))
        # keep the top byte in range by the type's bounds
        self.ctx.assume(z3.And(u >= 0, u < (1 << (8 * n))))
        out[-1] = simp((u / I(1 << (8 * (n - 1)))) % 256)
        return out

    def compose(self, bs, ct):
        ct = base(ct)
        n = len(bs)
        bs = [simp(b) for b in bs]
        if ct == 'bool':
            return bs[0] != 0
        u = bs[0]
        if n > 1:
            u = simp(z3.Sum([bs[i] * (1 << (8 * i)) for i in range(n)]))
        if all(z3.is_int_value(b) for b in bs):
            return self.wrap(u, ct) if ct in INTS else u
        self.ctx.composed[(u.get_id(), n)] = list(bs)
        self.ctx.ex.keep.append(u)
        self.ctx.bounds[u.get_id()] = (0, (1 << (8 * n)) - 1)
        if ct in INTS and INTS[ct][1]:
            if n == 1:
                return self.conv_byte(bs[0], ct)
            return self.signed_of(u, 8 * n)
        return u

    # ------------------------------------------------------------ pointers
    def load_byte(self, p, off):
        """byte at p+off (0..255)"""
        ctx = self.ctx
        if p.kind == 'buf':
            s = p.a.content(self)
            i = simp(p.b + off)
            self.oblige_safe('read within the buffer', z3.And(i >= 0, i < ctx.length(s)))
            return ctx.nth(s, i)
        if p.kind == 'bytes':
            bs = self.decompose(self.scalar(p.a), p.a.ctype)
            i = simp(p.b + off)
            if not z3.is_int_value(i):
                raise Unsupported('symbolic byte offset')
            if not 0 <= i.as_long() < len(bs):
                self.oblige_safe('read within the object', False)
                raise PathEnd()
            return bs[i.as_long()]
        if p.kind == 'arr':
            i = simp(p.b + off)
            arr = p.a.get(self)
            if not z3.is_int_value(i):
                raise Unsupported('symbolic array index')
            if not 0 <= i.as_long() < len(arr.a):
                self.oblige_safe('read within the array', False)
                raise PathEnd()
            v = arr.a[i.as_long()]
            if v is UNINIT:
                self.oblige_safe('array element is initialised', False)
                raise PathEnd()
            return self.to_byte(v)
        raise Unsupported('byte load through %r' % p)

    def store_byte(self, p, off, b):
        i = simp(p.b + off)
        if p.kind == 'bytes':
            n = self.scalar_size(p.a.ctype)
            if not z3.is_int_value(i):
                raise Unsupported('symbolic byte offset')
            if not 0 <= i.as_long() < n:
                self.oblige_safe('write within the object', False)
                raise PathEnd()
            raw = p.a.get(self)
            bs = [UNINIT] * n if raw is UNINIT else (list(raw.a) if isinstance(raw, ArrV) else self.decompose(raw, p.a.ctype))
            bs[i.as_long()] = b
            if any(x is UNINIT for x in bs):
                p.a.set(self, ArrV('partial', bs))
            else:
                p.a.set(self, self.compose(bs, p.a.ctype))
            return
        if p.kind == 'arr':
            arr = p.a.get(self)
            if not z3.is_int_value(i):
                raise Unsupported('symbolic array index')
            if not 0 <= i.as_long() < len(arr.a):
                self.oblige_safe('write within the array', False)
                raise PathEnd()
            p.a.sub(('a', i.as_long()), arr.ctype).set(self, self.conv_byte(b, arr.ctype))
            return
        if p.kind == 'buf' and p.a.lv is not None:
            s = p.a.lv.get(self)
            self.oblige_safe('write within the string', z3.And(i >= 0, i < self.ctx.length(s)))
            p.a.lv.set(self, self.ctx.update(s, i, b))
            return
        raise Unsupported('byte store through %r' % p)

    def bytes_at(self, p, n):
        """Seq of n bytes at p (memory safety obliged)"""
        ctx = self.ctx
        n = simp(n)
        if p.kind == 'null':
            if not ctx.valid(n == 0):
                self.oblige_safe('no read through a null pointer', n == 0)
            return EMPTY
        if p.kind == 'buf':
            s = p.a.content(self)
            self.oblige_safe('read within the buffer', z3.And(p.b >= 0, n >= 0, p.b + n <= ctx.length(s)))
            return ctx.extract(s, p.b, n)
        if z3.is_int_value(n):
            bs = [self.load_byte(p, I(i)) for i in range(n.as_long())]
            return ctx.concat(*[z3.Unit(b) for b in bs]) if bs else EMPTY
        raise Unsupported('symbolic size read through %r' % p)

    def cstr_len(self, p):
        """length of the C string at p"""
        ctx = self.ctx
        if p.kind != 'buf':
            raise Unsupported('C string through %r' % p)
        s = p.a.content(self)
        if z3.is_int_value(simp(p.b)):
            i = simp(p.b).as_long()
            ps = ctx.parts(s)
            if all(z3.is_app_of(x, z3.Z3_OP_SEQ_UNIT) and z3.is_int_value(x.arg(0)) for x in ps):
                for j in range(i, len(ps)):
                    if ps[j].arg(0).as_long() == 0:
                        return I(j - i)
        if p.a.cstr and self.ctx.zero(p.b):
            return self.ctx.length(p.a.lv.get(self) if p.a.lv is not None else p.a.seq)
        if p.a.nul and self.ctx.zero(p.b):
            n = z3.IndexOf(s, z3.Unit(I(0)), I(0))
            L = ctx.length(s)
            ctx.assume(z3.And(n >= 0, n < L))
            return n
        raise Unsupported('C string length')

    def oblige_safe(self, what, goal):
        self.ctx.oblige('safe: ' + what, goal, self.loc())

    def loc(self):
        f = self.frames[-1].f if self.frames else None
        if f is None:
            return ''
        return '%s' % f['q']

    def deref(self, p, ct=None):
        if not isinstance(p, PtrV):
            raise Unsupported('dereference of %r' % (p,))
        if p.kind == 'obj':
            return p.a
        if p.kind == 'null':
            self.oblige_safe('no null pointer is dereferenced', False)
            raise PathEnd()
        if p.kind in ('buf', 'bytes'):
            return ByteLV(p, I(0), ct or 'unsigned char')
        if p.kind == 'reint':
            return ReintLV(p.a, p.b)
        if p.kind == 'arr':
            i = simp(p.b)
            arr = p.a.get(self)
            if not z3.is_int_value(i):
                raise Unsupported('symbolic array index')
            if not 0 <= i.as_long() < len(arr.a):
                self.oblige_safe('access within the array', False)
                raise PathEnd()
            return p.a.sub(('a', i.as_long()), arr.ctype)
        if p.kind == 'symobj':
            null, lv = p.a, p.b
            self.oblige_safe('no null pointer is dereferenced', z3.Not(null))
            return lv
        raise Unsupported('deref %r' % p)

    def ptr_add(self, p, n):
        if p.kind in ('buf', 'bytes', 'arr'):
            return PtrV(p.kind, p.a, simp(p.b + n))
        raise Unsupported('pointer arithmetic on %r' % p)

    def ptr_null(self, p):
        if p.kind == 'null':
            return z3.BoolVal(True)
        if p.kind == 'symobj':
            return p.a
        return z3.BoolVal(False)

    # ------------------------------------------------------------ values by type
    def default_value(self, ct, name='dflt', user=True):
        """value-initialised object of class type / zero scalar"""
        ct = base(ct)
        if ct in INTS or ct == 'double':
            return I(0)
        if ct == 'bool':
            return z3.BoolVal(False)
        if is_ptr(ct):
            return NULL
        return self.default_object(ct)

    def default_object(self, ct):
        from . import models
        ct = base(ct)
        if ct in STRINGS:
            return EMPTY
        if tname(ct) in SEQS:
            return z3.Empty(self.w.sort_of(ct))
        if ct == 'boost::any':
            return AnyV('')
        if tname(ct) == 'std::pair':
            a, b = targs(ct)
            return StructV(ct, {'first': self.default_value(a), 'second': self.default_value(b)})
        if tname(ct) == 'std::function':
            return FnV('empty', z=I(0))
        if tname(ct) in ('std::unique_ptr', 'std::shared_ptr', 'boost::shared_ptr'):
            return NULL
        if ct.endswith(']'):
            el, n = ct[:-1].rsplit('[', 1)
            return ArrV(base(el), [UNINIT] * int(n))
        if ct in self.prog.records:
            # implicitly defined default constructor
            fs = {}
            for n, t, rec in self.w.fields(ct):
                if 'init' in rec:
                    fs[n] = self.rvalue(rec['init'], t)
                elif base(t) in INTS or base(t) in ('double', 'bool') or is_ptr(t) or self.is_enum(t):
                    fs[n] = UNINIT
                else:
                    fs[n] = self.construct_default(t)
            return StructV(ct, fs)
        r = models.default(self, ct)
        if r is not None:
            return r
        raise Unsupported('default value of ' + ct)

    def is_enum(self, t):
        t = base(t)
        return not (t in INTS or t in ('double', 'bool', 'void') or is_ptr(t) or t in STRINGS or '<' in t or
                    t in self.prog.records or t.startswith('boost::') or t.startswith('std::') or t.endswith(']'))

    def construct_default(self, ct):
        ct = base(ct)
        if ct in self.prog.records:
            short = ct.split('::')[-1]
            fs = [f for f in self.prog.by_q.get(ct + '::' + short, []) if not f['params'] and f.get('ctor')]
            if fs:
                lv = self.new_lv('ctor', ct, self.blank(ct))
                self.run_ctor(fs[0], lv, [])
                return lv.get(self)
        return self.default_object(ct)

    def blank(self, ct):
        """object whose members are not yet initialised"""
        ct = base(ct)
        return StructV(ct, {n: UNINIT for n, t, _ in self.w.fields(ct)})

    def fresh_value(self, ct, name):
        """arbitrary value of a type"""
        from . import models
        ct = base(ct)
        if ct in INTS:
            return self.typed(self.ctx.fresh(name), ct)
        if ct == 'double':
            return self.typed(self.ctx.fresh(name), ct)
        if ct == 'bool':
            return self.ctx.fresh(name, BOOL)
        if ct in STRINGS:
            return self.ctx.fresh_bytes(name)
        if tname(ct) in SEQS:
            v = self.ctx.fresh(name, self.w.sort_of(ct))
            self.ctx.assume(z3.Length(v) <= 2 ** 58)
            return v
        if ct == 'boost::any':
            return self.any_of(self.ctx.fresh(name, self.w.Val))
        if tname(ct) == 'std::pair':
            a, b = targs(ct)
            return StructV(ct, {'first': self.fresh_value(a, name + '.first'), 'second': self.fresh_value(b, name + '.second')})
        if tname(ct) == 'std::function':
            z = self.ctx.fresh(name)
            self.ctx.assume(z3.And(z >= 0, z < 1000000))
            return FnV('sym', z=z, sig=ct)
        if ct in self.prog.records:
            return StructV(ct, {n: self.fresh_value(t, name + '.' + n) for n, t, _ in self.w.fields(ct)})
        if tname(ct) in ('std::map', 'std::unordered_map'):
            return models.fresh_map(self, ct, name)
        if tname(ct) in ('std::shared_ptr', 'std::unique_ptr'):
            el = base(targs(ct)[0])
            c = self.new_cell(name + '*', el, self.fresh_value(el, name + '*'))
            return PtrV('obj', LV(c))
        if self.is_enum(ct):
            return self.ctx.fresh(name)
        r = models.fresh(self, ct, name)
        if r is not None:
            return r
        raise Unsupported('fresh value of ' + ct)

    def havoc_value(self, v, ct, name):
        """a value of the same shape with arbitrary content"""
        ct = base(ct)
        if isinstance(v, PtrV):
            if v.kind in ('buf', 'bytes', 'arr'):
                return PtrV(v.kind, v.a, self.ctx.fresh(name + '.off'))
            return v
        if isinstance(v, RefV) or isinstance(v, OpaqueV):
            return v
        if isinstance(v, StructV):
            ts = {n: t for n, t, _ in self.w.fields(v.cls)} if v.cls in self.prog.records else {}
            if tname(v.cls) == 'std::pair':
                a, b = targs(v.cls)
                ts = {'first': a, 'second': b}
            return StructV(v.cls, {n: self.havoc_value(x, ts.get(n, self.guess(x)), name + '.' + n) for n, x in v.f.items()})
        if isinstance(v, ArrV):
            return ArrV(v.ctype, [self.havoc_value(x, v.ctype, name) for x in v.a])
        if isinstance(v, IterV):
            if v.kind == 'seq':
                return IterV(v.kind, v.lv, self.ctx.fresh(name + '.pos'), v.extra)
            raise Unsupported('iterator changes in a loop')
        if v is UNINIT:
            return self.fresh_value(ct, name)
        if z3.is_expr(v) and ct not in INTS and not (ct in ('double', 'bool', 'boost::any')) and not (ct in STRINGS or tname(ct) in SEQS):
            return self.ctx.fresh(name, v.sort())
        return self.fresh_value(ct, name)

    def guess(self, v):
        if z3.is_expr(v):
            if v.sort() == INT:
                return 'ghost-int'
            if v.sort() == BOOL:
                return 'bool'
            if v.sort() == BYTES:
                return 'std::string'
        if isinstance(v, AnyV):
            return 'boost::any'
        return ''

    # ------------------------------------------------------------ functions
    def fn_id(self, v):
        if v.z is None:
            for k, x in self.fnreg.items():
                if x is v:
                    return I(k)
            k = 1000000 + len(self.fnreg)
            self.fnreg[k] = v
            v.z = I(k)
        return v.z

    def fn_of(self, z, ct):
        z = simp(z)
        if z3.is_int_value(z):
            n = z.as_long()
            if n == 0:
                return FnV('empty', z=I(0))
            if n in self.fnreg:
                return self.fnreg[n]
        return FnV('sym', z=z, sig=ct)

    def fn_nonempty(self, v):
        if v.kind == 'empty':
            return z3.BoolVal(False)
        if v.kind == 'sym':
            return v.z != 0
        return z3.BoolVal(True)

    # ------------------------------------------------------------ expressions
    def scalar(self, lv):
        v = lv.get(self)
        if v is UNINIT or (isinstance(v, ArrV) and v.ctype == 'partial'):
            self.oblige_safe('no uninitialised value is read', False)
            return self.fresh_value(lv.ctype, 'uninit')
        return v

    def load(self, lv):
        if isinstance(lv, LV) or isinstance(lv, (ByteLV, ReintLV)):
            return self.scalar(lv)
        return lv

    def lvalue(self, e):
        v = self.ev(e)
        if isinstance(v, (LV, ByteLV, ReintLV)):
            return v
        raise Unsupported('expected an lvalue: %s' % e.get('k'))

    def as_lv(self, v, ct):
        """lvalue for a value (temporary when needed)"""
        if isinstance(v, (LV, ByteLV, ReintLV)):
            return v
        if isinstance(v, RefV):
            return v.lv
        return self.new_lv('tmp', ct, v)

    def rvalue(self, e, ct=None):
        v = self.ev(e)
        if isinstance(v, (LV, ByteLV, ReintLV)):
            return self.copy_value(self.load(v))
        return v

    def copy_value(self, v):
        return v

    def ev(self, e):
        h = getattr(self, 'e_' + e['k'], None)
        if h is None:
            raise Unsupported('expression ' + e['k'] + ' ' + str(e.get('what', '')))
        return h(e)

    def e_Int(self, e):
        if base(e['t']) == 'bool':
            return z3.BoolVal(e['v'] not in ('0', 'false'))
        return I(int(e['v']))

    def e_Float(self, e):
        return I(int(e['bits']))

    def e_Null(self, e):
        return NULL

    def e_Unsupported(self, e):
        raise Unsupported('expression ' + e['what'])

    def e_Str(self, e):
        bs = list(e['bytes']) + [0]
        seq = self.ctx.concat(*[z3.Unit(I(b)) for b in bs])
        return LitLV(Buf('literal', seq=seq))

    def e_This(self, e):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported('this')
        return PtrV('obj', t)

    def e_Var(self, e):
        i = e['id']
        for fr in (self.frames[-1],):
            if i in fr.vars:
                v = fr.vars[i]
                if isinstance(v, RefV):
                    return v.lv
                return v
        if e.get('staticlocal') and i in self.statics:
            return self.statics[i]
        raise Unsupported('variable %s not in scope' % e['name'])

    e_Binding = e_Var

    def e_Global(self, e):
        return self.global_lv(e['q'], e['t'])

    def global_lv(self, q, t):
        lv = self.globals.get(q)
        if lv is None:
            g = self.prog.globals.get(q)
            cell = self.new_cell('global:' + q, t)
            lv = LV(cell)
            self.globals[q] = lv
            from . import models
            if g is not None and 'init' in g:
                fr = Frame({'q': q, 'key': q, 'params': []}, None, (q,), len(self.frames) + 1)
                self.frames.append(fr)
                try:
                    cell.v = self.rvalue(g['init'], g['t'])
                finally:
                    self.frames.pop()
            else:
                v = models.extern_global(self, q, t)
                if v is None:
                    raise Unsupported('global ' + q)
                cell.v = v
        return lv

    def e_FuncRef(self, e):
        return PtrV('func', PMF(e['f']))

    def e_MemberFunc(self, e):
        raise Unsupported('member function reference')

    def e_Member(self, e):
        b = self.ev(e['base'])
        if e['arrow']:
            b = self.deref(self.load(b))
        elif not isinstance(b, (LV, ByteLV, ReintLV)):
            b = self.new_lv('tmp', e['base']['t'], b)
        lv = b.sub(('f', e['name']), base(e['t']))
        v = b.get(self)
        if isinstance(v, StructV):
            x = v.f.get(e['name'])
            if isinstance(x, RefV):
                return x.lv
        else:
            from . import models
            r = models.member(self, b, v, e)
            if r is not None:
                return r
        return lv

    def e_Tmp(self, e):
        v = self.ev(e['e'])
        if isinstance(v, (LV, ByteLV, ReintLV)):
            return v
        if isinstance(v, RefV):
            return v.lv
        lv = self.new_lv('tmp', e['t'], v)
        self.note_tmp(lv)
        return lv

    def note_tmp(self, lv):
        if self.tmps and self.has_dtor(lv.ctype):
            self.tmps[-1].append(lv)

    def has_dtor(self, ct):
        from . import models
        ct = base(ct)
        if ct in self.prog.records:
            if self.prog.records[ct].get('dtor'):
                return True
            return any(self.has_dtor(t) for n, t, _ in self.w.fields(ct) if not is_ref(t))
        return models.has_dtor(ct)

    def destroy(self, lv):
        from . import models
        ct = base(lv.ctype)
        if ct in self.prog.records:
            k = self.prog.records[ct].get('dtor')
            if k and k in self.prog.functions:
                self.call_body(self.prog.functions[k], lv, [])
            for n, t, _ in reversed(self.w.fields(ct)):
                if not is_ref(t) and self.has_dtor(t):
                    self.destroy(lv.sub(('f', n), base(t)))
        elif models.has_dtor(ct):
            models.destroy(self, lv)

    def full(self, fn):
        """evaluates a full expression and destroys its temporaries"""
        self.tmps.append([])
        try:
            r = fn()
        except CONTROL:
            for lv in reversed(self.tmps.pop()):
                self.destroy(lv)
            raise
        for lv in reversed(self.tmps.pop()):
            self.destroy(lv)
        return r

    # casts
    def e_Cast(self, e):
        ck = e['ck']
        sub = e['e']
        if e.get('dyn'):
            raise Unsupported('dynamic_cast')
        if ck == 'LValueToRValue':
            return self.load(self.ev(sub))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'UncheckedDerivedToBase',
                  'DerivedToBase', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived'):
            v = self.ev(sub)
            if isinstance(v, LV) and ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
                return LV(v.cell, v.path, base(e['t']))
            return v
        if ck == 'ToVoid':
            self.ev(sub)
            return None
        if ck == 'IntegralCast':
            v = self.ev(sub)
            if base(sub['t']) == 'bool' and z3.is_bool(v):
                return z3.If(v, I(1), I(0)) if base(e['t']) != 'bool' else v
            return self.wrap(v, e['t'])
        if ck == 'IntegralToBoolean':
            v = self.ev(sub)
            return v if z3.is_bool(v) else simp(v != 0)
        if ck == 'PointerToBoolean':
            return z3.Not(self.ptr_null(self.ev(sub)))
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            self.ev(sub)
            return NULL
        if ck == 'ArrayToPointerDecay':
            v = self.ev(sub)
            if isinstance(v, LitLV):
                return PtrV('buf', v.buf, I(0))
            if isinstance(v, LV):
                return PtrV('arr', v, I(0))
            raise Unsupported('array decay')
        if ck in ('BitCast', 'LValueBitCast'):
            v = self.ev(sub)
            if isinstance(v, PtrV):
                return self.recast(v, e['t'])
            raise Unsupported('bit cast')
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            v = self.ev(sub)
            f = z3.Function('fp_%s_%s_%s' % (ck, base(sub['t']), base(e['t'])), INT, INT)
            r = f(v)
            return self.typed(r, e['t'])
        raise Unsupported('cast ' + ck)

    def recast(self, p, t):
        if p.kind == 'null' or not base(t).endswith('*'):
            return p
        to = pointee(t)
        if to == 'void':
            return p
        if p.kind == 'obj':
            src = base(p.a.ctype)
            if to in ('char', 'unsigned char', 'signed char') and (src in INTS or src == 'double' or src == 'bool'):
                if src in ('char', 'unsigned char', 'signed char') and isinstance(p.a, LV):
                    return p if False else PtrV('bytes', p.a, I(0))
                return PtrV('bytes', p.a, I(0))
            if to == src or to in self.w.all_bases(src) or src in self.w.all_bases(to):
                return p
        if p.kind == 'bytes':
            if to in ('char', 'unsigned char', 'signed char'):
                return p
            if to == base(p.a.ctype) and self.ctx.zero(p.b):
                return PtrV('obj', p.a)
            return PtrV('reint', p, to)
        if p.kind == 'buf':
            if to in ('char', 'unsigned char', 'signed char'):
                return p
            return PtrV('reint', p, to)
        if p.kind == 'arr':
            if to in ('char', 'unsigned char', 'signed char') and base(p.a.get(self).ctype) in ('char', 'unsigned char', 'signed char'):
                return p
            return PtrV('reint', p, to)
        raise Unsupported('pointer cast of %r to %s' % (p, t))

    # operators
    def e_Un(self, e):
        op = e['op']
        if op == '*':
            p = self.load(self.ev(e['e']))
            return self.deref(p, e['t'])
        if op == '&':
            sub = e['e']
            if sub['k'] in ('FuncRef', 'MemberFunc'):
                return PtrV('func', PMF(sub['f']))
            v = self.ev(sub)
            return self.addr_of(v)
        if op in ('++', '--'):
            lv = self.lvalue(e['e'])
            old = self.load(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, PtrV):
                new = self.ptr_add(old, I(d))
            else:
                t = base(e['t'])
                raw = old + d
                if t in INTS and INTS[t][1] and INTS[t][0] >= 32:
                    lo, hi = int_range(t)
                    self.ctx.oblige('safe: no signed overflow', z3.And(raw >= lo, raw <= hi), self.loc())
                    new = simp(raw)
                else:
                    new = self.wrap(raw, t)
            lv.set(self, new)
            return old if e['post'] else (lv if e['vc'] == 'l' else new)
        v = self.rvalue(e['e'])
        t = base(e['t'])
        if op == '!':
            return simp(z3.Not(v))
        if op == '-':
            return self.arith(-v, t)
        if op == '+':
            return v
        if op == '~':
            lo, hi = int_range(t)
            return self.wrap(-v - 1, t)
        raise Unsupported('unary ' + op)

    def addr_of(self, v):
        if isinstance(v, LitLV):
            return PtrV('buf', v.buf, I(0))
        if isinstance(v, ByteLV):
            return PtrV(v.ptr.kind, v.ptr.a, simp(v.ptr.b + v.off))
        if isinstance(v, LV):
            if v.path and v.path[-1][0] == 's':
                i = v.path[-1][1]
                parent = LV(v.cell, v.path[:-1], 'std::string')
                if i is None:
                    i = self.ctx.length(parent.get(self))
                return PtrV('buf', Buf('str', lv=parent, nul=True), i)
            if v.path and v.path[-1][0] == 'a':
                return PtrV('arr', LV(v.cell, v.path[:-1], v.ctype), I(v.path[-1][1]))
            if v.path and v.path[-1][0] == 'i' and base(v.ctype) in ('char', 'unsigned char'):
                parent = LV(v.cell, v.path[:-1], 'std::vector<unsigned char>')
                return PtrV('buf', Buf('vec', lv=parent), v.path[-1][1])
            return PtrV('obj', v)
        raise Unsupported('address of %r' % (v,))

    def arith(self, v, t):
        t = base(t)
        if t not in INTS:
            return simp(v)
        if INTS[t][1]:
            lo, hi = int_range(t)
            a, b = self.ctx.interval(simp(v))
            if not (a is not None and b is not None and a >= lo and b <= hi):
                self.ctx.oblige('safe: no signed overflow', z3.And(v >= lo, v <= hi), self.loc())
            return simp(v)
        return self.wrap(v, t)

    def e_Bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op in ('&&', '||'):
            a = self.rvalue(e['a'])
            if op == '&&':
                if self.ctx.branch(a):
                    return self.rvalue(e['b'])
                return z3.BoolVal(False)
            if self.ctx.branch(a):
                return z3.BoolVal(True)
            return self.rvalue(e['b'])
        if op == '=':
            # C++17: the right operand is sequenced before the left one
            v = self.rvalue(e['b'])
            lv = self.lvalue(e['a'])
            lv.set(self, v)
            return lv
        if op in ('.*', '->*'):
            raise Unsupported('pointer to member')
        a = self.rvalue(e['a'])
        b = self.rvalue(e['b'])
        return self.binop(op, a, b, e['a']['t'], e['b']['t'], e['t'])

    def binop(self, op, a, b, ta, tb, t):
        ctx = self.ctx
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.ptr_binop(op, a, b)
        if z3.is_bool(a) and z3.is_bool(b) and op in ('==', '!='):
            return simp(a == b if op == '==' else a != b)
        if z3.is_bool(a):
            a = z3.If(a, I(1), I(0))
        if z3.is_bool(b):
            b = z3.If(b, I(1), I(0))
        if op in ('==', '!='):
            f = self.int_eq(a, b)
            return f if op == '==' else simp(z3.Not(f))
        if base(ta) == 'double' and op in ('<', '>', '<=', '>=', '+', '-', '*', '/'):
            rt = BOOL if op in ('<', '>', '<=', '>=') else INT
            return z3.Function('fp' + op, INT, INT, rt)(a, b)
        if op == '<':
            return simp(a < b)
        if op == '<=':
            return simp(a <= b)
        if op == '>':
            return simp(a > b)
        if op == '>=':
            return simp(a >= b)
        if op == '+':
            return self.arith(a + b, t)
        if op == '-':
            return self.arith(a - b, t)
        if op == '*':
            return self.arith(a * b, t)
        if op in ('/', '%'):
            ctx.oblige('safe: no division by zero', b != 0, self.loc())
            bt = base(t)
            if bt in INTS and INTS[bt][1]:
                lo, _ = ctx.interval(a)
                lb, _ = ctx.interval(b)
                if not ((lo is not None and lo >= 0) or ctx.valid(a >= 0)) or not ((lb is not None and lb > 0) or ctx.valid(b > 0)):
                    raise Unsupported('signed division of possibly negative operands')
            b = simp(b)
            if not z3.is_int_value(b):
                # alignment-like divisors: decide among small constants
                for k in (1, 2, 4, 8):
                    if ctx.valid(b == k):
                        b = I(k)
                        break
            return simp(a / b) if op == '/' else simp(a % b)
        if op in ('<<', '>>'):
            b = simp(b)
            w = INTS[base(t)][0]
            if not z3.is_int_value(b):
                raise Unsupported('shift by a symbolic amount')
            k = b.as_long()
            ctx.oblige('safe: shift amount within the width', z3.BoolVal(0 <= k < w), self.loc())
            if op == '<<':
                r = a * (1 << k)
                if INTS[base(t)][1]:
                    lo, hi = int_range(t)
                    ctx.oblige('safe: no overflow in a left shift', z3.And(a >= 0, r < (1 << w)), self.loc())
                return self.wrap(r, t)
            return simp(a / I(1 << k))
        if op in ('&', '|', '^'):
            return self.bitop(op, a, b, t)
        raise Unsupported('binary ' + op)

    def int_eq(self, a, b):
        sx = self.ctx.sx
        for x, y in ((a, b), (b, a)):
            s = sx.get(x.get_id())
            if s is not None:
                y = simp(y)
                if z3.is_int_value(y):
                    n = y.as_long()
                    if -128 <= n <= 127:
                        return simp(s == (n % 256))
                    return z3.BoolVal(False)
                s2 = sx.get(y.get_id())
                if s2 is not None:
                    return simp(s == s2)
        return simp(a == b)

    def bitop(self, op, a, b, t):
        a, b = simp(a), simp(b)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            r = x & y if op == '&' else x | y if op == '|' else x ^ y
            return self.wrap(I(r), t)
        if z3.is_int_value(a):
            a, b = b, a
        s = self.ctx.sx.get(a.get_id())
        if z3.is_int_value(b):
            n = b.as_long()
            if op == '&' and n >= 0:
                if n == 0:
                    return I(0)
                if s is not None and n <= 255:
                    a = s
                # contiguous mask
                low = (n & -n).bit_length() - 1
                m = n >> low
                if m & (m + 1) == 0:
                    k = m.bit_length()
                    lo, hi = self.ctx.interval(a)
                    if low == 0:
                        if lo is not None and lo >= 0 and hi is not None and hi <= n:
                            return a
                        return simp(a % (1 << k))
                    return simp(((a / I(1 << low)) % (1 << k)) * (1 << low))
                r = I(0)
                i = 0
                while n >> i:
                    if (n >> i) & 1:
                        r = r + ((a / I(1 << i)) % 2) * (1 << i)
                    i += 1
                return simp(r)
            if op == '|' and n >= 0:
                if n == 0:
                    return a
                anded = self.bitop('&', a, b, t)
                return self.wrap(simp(a + n - anded), t)
            if op == '^' and n >= 0:
                anded = self.bitop('&', a, b, t)
                return self.wrap(simp(a + n - 2 * anded), t)
        if op == '|' or op == '^' or op == '+':
            # disjoint bit ranges: sum
            for x, y in ((a, b), (b, a)):
                lo, hi = self.ctx.interval(x)
                if lo is not None and lo >= 0 and hi is not None:
                    k = max(hi, 0).bit_length()
                    if self.ctx.valid(y % (1 << k) == 0):
                        return self.wrap(simp(a + b), t)
        w = INTS[base(t)][0]
        sg = INTS[base(t)][1]
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = x & y if op == '&' else x | y if op == '|' else x ^ y
        return z3.BV2Int(r, sg)

    def ptr_binop(self, op, a, b):
        ctx = self.ctx
        if op in ('+', '-') and isinstance(a, PtrV) and not isinstance(b, PtrV):
            return self.ptr_add(a, b if op == '+' else -b)
        if op == '+' and isinstance(b, PtrV):
            return self.ptr_add(b, a)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if op in ('==', '!='):
                if a.kind == 'null' or b.kind == 'null':
                    f = self.ptr_null(b if a.kind == 'null' else a)
                elif a.kind == b.kind and a.kind in ('buf', 'arr', 'bytes') and self.same_base(a, b):
                    f = simp(a.b == b.b)
                elif a.kind == 'obj' and b.kind == 'obj':
                    f = z3.BoolVal(a.a.same(b.a))
                else:
                    raise Unsupported('pointer comparison')
                return f if op == '==' else simp(z3.Not(f))
            if a.kind == b.kind and self.same_base(a, b):
                if op == '-':
                    return simp(a.b - b.b)
                return {'<': a.b < b.b, '>': a.b > b.b, '<=': a.b <= b.b, '>=': a.b >= b.b}[op]
        raise Unsupported('pointer operation ' + op)

    def same_base(self, a, b):
        if a.a is b.a:
            return True
        if isinstance(a.a, Buf) and isinstance(b.a, Buf):
            if a.a.lv is not None and b.a.lv is not None:
                return a.a.lv.same(b.a.lv)
            return a.a.seq is not None and b.a.seq is not None and a.a.seq.eq(b.a.seq)
        if isinstance(a.a, LV):
            return a.a.same(b.a)
        return False

    def e_CompAssign(self, e):
        b = self.rvalue(e['b'])
        lv = self.lvalue(e['a'])
        a = self.load(lv)
        op = e['op'][:-1]
        if isinstance(a, PtrV):
            new = self.ptr_binop(op, a, b)
        else:
            if z3.is_bool(a):
                a = z3.If(a, I(1), I(0))
            ct = e['ct']
            a2 = self.wrap(a, ct) if base(ct) in INTS else a
            r = self.binop(op, a2, b, ct, e['b']['t'], ct)
            new = self.wrap(r, e['t']) if base(e['t']) in INTS else r
            if base(e['t']) == 'bool':
                new = simp(r != 0)
        lv.set(self, new)
        return lv

    def e_Cond(self, e):
        if self.ctx.branch(self.rvalue(e['c'])):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_Index(self, e):
        p = self.load(self.ev(e['a']))
        i = self.rvalue(e['i'])
        if isinstance(p, PtrV):
            return self.deref(self.ptr_add(p, i), e['t'])
        raise Unsupported('subscript')

    def e_ValueInit(self, e):
        return self.default_value(e['t'])

    def e_Typeid(self, e):
        if 'to' in e:
            return TypeInfoV(base(e['to']))
        raise Unsupported('typeid expression')

    def e_Throw(self, e):
        if e.get('e') is None:
            cur = self.ghost.get('current-exception')
            if cur:
                raise cur[-1]
            raise Unsupported('rethrow')
        v = self.ev(e['e'])
        what = None
        if isinstance(v, OpaqueV):
            what = v.data
        elif isinstance(v, LV):
            x = v.get(self)
            what = x.data if isinstance(x, OpaqueV) else None
        raise CppThrow(base(e['et']), what)

    def e_Lambda(self, e):
        env = {}
        this = None
        fr = self.frames[-1]
        for c in e['caps']:
            if c['kind'] == 'this':
                this = fr.this
            elif c['kind'] == 'starthis':
                raise Unsupported('*this capture')
            elif c['kind'] == 'ref':
                v = fr.vars[c['id']]
                env[c['id']] = v if isinstance(v, RefV) else RefV(v)
            elif c['kind'] == 'copy':
                if c.get('initcap'):
                    v = self.rvalue(c['init'])
                else:
                    x = fr.vars[c['id']]
                    x = x.lv if isinstance(x, RefV) else x
                    v = self.copy_value(x.get(self))
                env[c['id']] = v
        return FnV('lambda', e, (env, this, fr.f))

    def e_InitList(self, e):
        t = base(e['t'])
        if t.endswith(']'):
            el, n = t[:-1].rsplit('[', 1)
            vals = [self.rvalue(x) for x in e['e']]
            n = int(n)
            while len(vals) < n:
                vals.append(self.default_value(el))
            return ArrV(base(el), vals)
        if t in self.prog.records:
            fs = {}
            flds = self.w.fields(t)
            for (n, ft, rec), x in zip(flds, e['e']):
                fs[n] = self.rvalue(x)
            for n, ft, rec in flds[len(e['e']):]:
                fs[n] = self.rvalue(rec['init']) if 'init' in rec else self.default_value(ft)
            return StructV(t, fs)
        if len(e['e']) == 1 and (t in INTS or t in ('bool', 'double') or is_ptr(t)):
            return self.rvalue(e['e'][0])
        if not e['e']:
            return self.default_value(t)
        raise Unsupported('initialiser list of ' + t)

    def e_StdInitList(self, e):
        v = self.ev(e['e'])
        if isinstance(v, LV):
            v = v.get(self)
        if isinstance(v, ArrV):
            ct = targs(e['t'])[0]
            return self.ctx.concat(*[z3.Unit(self.pack(x, ct)) for x in v.a]) if v.a else z3.Empty(self.w.sort_of(e['t']))
        raise Unsupported('initializer_list')

    def e_New(self, e):
        if e['array']:
            raise Unsupported('array new')
        t = base(e['at'])
        if t in self.prog.records:
            c = self.new_cell('heap', t, self.blank(t))
            v = self.ev_into(e['init'], LV(c))
        else:
            v = self.rvalue(e['init']) if e.get('init') else UNINIT
            c = self.new_cell('heap', t, v)
        return PtrV('obj', LV(c))

    def e_Delete(self, e):
        raise Unsupported('delete')

    # calls
    def ev_into(self, e, lv):
        """initialises the object lv with expression e"""
        x = e
        while x['k'] in ('Tmp',) or (x['k'] == 'Cast' and x['ck'] in ('NoOp', 'ConstructorConversion')
                                     and base(x['e']['t']) == base(x['t']) and x['e'].get('vc') == 'p'):
            x = x['e']
        if x['k'] == 'Construct' and base(x['t']) == base(lv.ctype) and base(x['t']) in self.prog.records:
            self.e_Construct(x, lv)
            return lv
        v = self.rvalue(e)
        lv.set(self, self.slice(v, lv.ctype))
        return lv

    def slice(self, v, ct):
        ct = base(ct)
        if isinstance(v, StructV) and v.cls != ct and ct in self.prog.records and v.cls in self.prog.records:
            return StructV(ct, {n: v.f[n] for n, t, _ in self.w.fields(ct)})
        return v

    def e_Construct(self, e, target=None):
        from . import models
        t = base(e['t'])
        if t in self.prog.records:
            key = e['f']['key']
            f = self.prog.functions.get(key)
            rec = self.prog.records[t]
            if e['copy'] or e['move']:
                src = self.ev(e['args'][0])
                if f is not None and f.get('copyctor') and not f.get('implicit'):
                    lv = target or self.new_lv('obj', t, self.blank(t))
                    self.run_ctor(f, lv, [self.as_lv(src, t)])
                    return lv.get(self)
                v = self.load(src) if isinstance(src, (LV, ByteLV, ReintLV)) else src
                v = self.slice(v, t)
                v = self.copy_struct(v)
                if target:
                    target.set(self, v)
                return v
            if f is not None and not f.get('implicit'):
                lv = target or self.new_lv('obj', t, self.blank(t))
                if e['zeroinit']:
                    lv.set(self, StructV(t, {n: self.default_value(ft) if base(ft) in INTS else UNINIT for n, ft, _ in self.w.fields(t)}))
                c = self.contracts.get(f['q']) or self.contracts.get(f['key'])
                if c is not None:
                    self.apply_contract(c, f, lv, self.bind_args(f, e['args'], e['f']))
                    return lv.get(self)
                self.run_ctor(f, lv, self.bind_args(f, e['args'], e['f']))
                return lv.get(self)
            if e['default'] and not e['args']:
                v = self.default_object(t)
                if e['zeroinit']:
                    v = StructV(t, {n: (self.default_value(ft) if v.f[n] is UNINIT else v.f[n]) for n, ft, _ in self.w.fields(t)})
                if target:
                    target.set(self, v)
                return v
            raise Unsupported('constructor ' + key)
        if e['copy'] or e['move']:
            src = self.ev(e['args'][0])
            r = models.copy_object(self, t, src, e['move'])
            return r
        return models.construct(self, t, e)

    def copy_struct(self, v):
        """member-wise copy: members with user-provided copy constructors are copied by them"""
        if isinstance(v, StructV):
            ch = {}
            for n, x in v.f.items():
                if isinstance(x, StructV) and x.cls in self.prog.records and self.prog.records[x.cls].get('copyctor'):
                    f = self.prog.functions[self.prog.records[x.cls]['copyctor']]
                    lv = self.new_lv('obj', x.cls, self.blank(x.cls))
                    self.run_ctor(f, lv, [self.new_lv('tmp', x.cls, x)])
                    ch[n] = lv.get(self)
            if ch:
                f = dict(v.f)
                f.update(ch)
                return StructV(v.cls, f)
        return v

    def run_ctor(self, f, lv, args):
        self.w.used_functions[f['key']] = f
        fr = self.push(f, lv, args)
        try:
            if lv.get(self) is UNINIT:
                lv.set(self, self.blank(lv.ctype))
            for i in f.get('inits') or []:
                if i.get('deleg'):
                    self.full(lambda: self.ev_into(i['init'], lv))
                    continue
                if 'base' in i:
                    b = base(i['base'])
                    if b not in self.prog.records:
                        continue
                    tmp = self.new_lv('base', b, self.blank(b))
                    self.full(lambda: self.ev_into(i['init'], tmp))
                    bv = tmp.get(self)
                    cur = lv.get(self)
                    nf = dict(cur.f)
                    for n, t, _ in self.w.fields(b):
                        nf[n] = bv.f[n]
                    lv.set(self, StructV(cur.cls, nf))
                    continue
                if 'field' in i:
                    ft = i['ft']
                    sub = lv.sub(('f', i['field']), base(ft))
                    if is_ref(ft):
                        v = self.full(lambda: self.ev(i['init']))
                        sub.set(self, RefV(v))
                    elif base(ft) in self.prog.records:
                        self.full(lambda: self.ev_into(i['init'], sub))
                    else:
                        if isinstance(i['init'], dict):
                            sub.set(self, self.full(lambda: self.rvalue(i['init'], ft)))
                    continue
                raise Unsupported('constructor initialiser')
            try:
                self.st(f['body'])
            except ReturnEx:
                pass
        finally:
            self.frames.pop()

    def bind_args(self, f, args, ref=None):
        """argument values/lvalues for the parameters of f"""
        out = []
        for p, a in zip(f['params'], args):
            t = p['t'] if isinstance(p, dict) else p
            v = self.ev(a)
            if is_ref(t):
                lv = v if isinstance(v, (LV, ByteLV, ReintLV)) else self.as_lv(v, t)
                out.append(lv)
            else:
                if isinstance(v, (LV, ByteLV, ReintLV)):
                    v = self.load(v)
                out.append(v)
        return out

    def push(self, f, this, args):
        if len(self.frames) > MAX_DEPTH:
            raise Unsupported('call depth')
        chain = (self.frames[-1].chain if self.frames else ()) + (f['q'],)
        fr = Frame(f, this, chain, len(self.frames))
        for p, a in zip(f['params'], args):
            if is_ref(p['t']):
                fr.vars[p['id']] = RefV(a)
            else:
                if isinstance(a, (LV, ByteLV, ReintLV)):
                    a = a.get(self)
                fr.vars[p['id']] = LV(self.new_cell('%s:%s:%d' % (p['name'], p['id'], fr.depth), p['t'], a))
        self.frames.append(fr)
        return fr

    def call_body(self, f, this, args):
        """symbolically executes the body of f"""
        if f.get('body') is None:
            raise Unsupported('no body: ' + f['key'])
        self.w.used_functions[f['key']] = f
        fr = self.push(f, this, args)
        try:
            self.st(f['body'])
            r = None
        except ReturnEx as x:
            r = x.v
        finally:
            self.frames.pop()
        if isinstance(r, (LV, ByteLV, ReintLV)) and not is_ref(f['ret']):
            r = r.get(self)
        return r

    def apply_contract(self, c, f, this, args):
        self.w.used_contracts[f['key']] = self.w.used_contracts.get(f['key'], 0) + 1
        return c(self, f, this, args)

    def call(self, ref, this, args_e=None, args=None):
        """calls the function referenced; args_e are expressions, args already evaluated"""
        f = self.prog.functions.get(ref['key'])
        c = self.contracts.get(ref['key']) or self.contracts.get(ref['q'])
        if f is not None and (not f.get('implicit') or c):
            a = args if args is not None else self.bind_args(f, args_e)
            if c is not None:
                return self.apply_contract(c, f, this, a)
            if any(fr.f['key'] == f['key'] for fr in self.frames):
                raise Unsupported('recursive call of %s without a contract' % f['key'])
            return self.call_body(f, this, a)
        if c is not None:
            a = args if args is not None else self.bind_args({'params': [{'t': t} for t in ref['params']]}, args_e)
            return self.apply_contract(c, ref, this, a)
        return None

    def known(self, ref):
        f = self.prog.functions.get(ref['key'])
        return ((f is not None and not f.get('implicit')) or ref['key'] in self.contracts or ref['q'] in self.contracts)

    def e_Call(self, e):
        from . import models
        if 'f' not in e:
            callee = self.rvalue(e['callee'])
            if isinstance(callee, PtrV) and callee.kind == 'func':
                ref = callee.a.f
                if self.known(ref):
                    return self.call(ref, None, e['args'])
            raise Unsupported('indirect call')
        ref = e['f']
        if self.known(ref):
            return self.call(ref, None, e['args'])
        return models.free_call(self, ref, e)

    def e_MCall(self, e):
        from . import models
        ref = e['f']
        obj = self.ev(e['obj'])
        if e['arrow']:
            p = self.load(obj)
            this = self.deref(p) if isinstance(p, PtrV) else p
        else:
            this = obj if isinstance(obj, (LV, ByteLV, ReintLV)) else self.as_lv(obj, e['obj']['t'])
        if self.known(ref):
            return self.call(ref, this, e['args'])
        return models.method_call(self, ref, this, e['args'], e)

    def e_OpCall(self, e):
        from . import models
        ref = e.get('f')
        if ref is None:
            raise Unsupported('operator call')
        if self.known(ref):
            if e['member']:
                obj = self.ev(e['args'][0])
                this = obj if isinstance(obj, (LV, ByteLV, ReintLV)) else self.as_lv(obj, e['args'][0]['t'])
                return self.call(ref, this, e['args'][1:])
            return self.call(ref, None, e['args'])
        if e['member'] and e['op'] == '=' and base(ref['cls']) in self.prog.records:
            # implicitly defined assignment
            src = self.rvalue(e['args'][1])
            dst = self.lvalue(e['args'][0])
            cls = base(ref['cls'])
            src = self.slice(src, cls)
            if base(dst.ctype) == cls or not isinstance(dst.get(self), StructV) or dst.get(self).cls == cls:
                dst.set(self, self.assign_struct(src))
            else:
                cur = dst.get(self)
                f = dict(cur.f)
                f.update(src.f)
                dst.set(self, StructV(cur.cls, f))
            return dst
        return models.op_call(self, ref, e)

    def assign_struct(self, v):
        return v

    # ------------------------------------------------------------ callables
    def invoke(self, fn, args, where=''):
        """calls a callable value with evaluated arguments (LVs or values)"""
        from . import models
        if fn.kind == 'lambda':
            e = fn.a
            env, this, f0 = fn.b
            f = {'q': f0['q'] + '::lambda', 'key': f0['key'] + '::lambda', 'params': e['params'], 'ret': e['ret'], 'body': e['body']}
            fr = self.push(f, this, args)
            for i, v in env.items():
                if isinstance(v, RefV):
                    fr.vars[i] = v
                else:
                    fr.vars[i] = LV(self.new_cell('cap:%s' % (i,), '', v))
            try:
                self.st(e['body'])
                return None
            except ReturnEx as x:
                r = x.v
                if isinstance(r, (LV, ByteLV, ReintLV)) and not is_ref(e['ret']):
                    r = r.get(self)
                return r
            finally:
                self.frames.pop()
        if fn.kind == 'bind':
            target, bound = fn.a, fn.b
            actual = []
            for b in bound:
                if isinstance(b, OpaqueV) and b.what == 'placeholder':
                    actual.append(args[b.data - 1])
                elif isinstance(b, RefV):
                    actual.append(b.lv)
                else:
                    actual.append(b)
            return self.invoke_target(target, actual, where)
        if fn.kind == 'func':
            return self.invoke_target(fn.a, args, where)
        if fn.kind == 'empty':
            raise CppThrow('std::bad_function_call')
        if fn.kind == 'sym':
            if not self.ctx.branch(fn.z != 0):
                raise CppThrow('std::bad_function_call')
            h = self.hooks.get('user-call')
            if h is None:
                raise Unsupported('call of an unknown function object')
            return h(self, fn, args)
        raise Unsupported('invoke %r' % fn)

    def invoke_target(self, target, actual, where=''):
        if isinstance(target, PtrV) and target.kind == 'func':
            ref = target.a.f
            f = self.prog.functions.get(ref['key'])
            params = f['params'] if f else [{'t': t} for t in ref['params']]
            this = None
            if ref.get('cls') and not ref.get('static'):
                o = actual[0]
                if isinstance(o, PtrV):
                    this = self.deref(o)
                elif isinstance(o, LV):
                    v = o.get(self)
                    this = self.deref(v) if isinstance(v, PtrV) else o
                else:
                    raise Unsupported('bound object')
                actual = actual[1:]
            a = []
            for p, x in zip(params, actual):
                if is_ref(p['t']):
                    a.append(self.as_lv(x, p['t']))
                else:
                    a.append(x.get(self) if isinstance(x, (LV, ByteLV, ReintLV)) else x)
            if len(actual) < len(params):
                raise Unsupported('too few bound arguments')
            if not self.known(ref):
                raise Unsupported('call of ' + ref['key'])
            return self.call(ref, this, args=a)
        if isinstance(target, FnV):
            return self.invoke(target, actual, where)
        raise Unsupported('bind target')

    # ------------------------------------------------------------ statements
    def st(self, s):
        if s is None:
            return
        h = getattr(self, 's_' + s['s'], None)
        if h is None:
            raise Unsupported('statement ' + s['s'])
        self.ctx.where = ''
        return h(s)

    def s_Null(self, s):
        pass

    def s_Expr(self, s):
        def run():
            v = self.ev(s['e'])
            if not isinstance(v, (LV, ByteLV, ReintLV)) and v is not None and self.has_dtor(s['e']['t']):
                lv = self.new_lv('tmp', s['e']['t'], v)
                self.destroy(lv)
        self.full(run)

    def s_Block(self, s):
        self.scope(lambda: [self.st(x) for x in s['b']])

    def scope(self, fn):
        fr = self.frames[-1]
        saved = getattr(self, 'scope_locals', None)
        self.scope_locals = []
        mine = self.scope_locals
        try:
            try:
                fn()
            finally:
                self.scope_locals = saved
        except CONTROL:
            for lv in reversed(mine):
                self.destroy(lv)
            raise
        for lv in reversed(mine):
            self.destroy(lv)

    def s_Decl(self, s):
        for v in s['v']:
            self.decl(v)

    def decl(self, v):
        fr = self.frames[-1]
        name = '%s:%s:%d' % (v['name'], v['id'], fr.depth)
        t = v['t']
        if v.get('static'):
            if v['id'] not in self.statics:
                c = self.new_cell('static:' + name, t)
                self.ghost['static-init'] = True
                c.v = self.full(lambda: self.rvalue(v['init'])) if v.get('init') else self.default_value(t)
                self.ghost['static-init'] = False
                c.sn = 0
                self.statics[v['id']] = LV(c)
            fr.vars[v['id']] = self.statics[v['id']]
            return
        if is_ref(t):
            init = v['init']
            if init['k'] == 'Tmp' or (init['k'] == 'Cast' and init['ck'] in ('NoOp',) and init['e']['k'] == 'Tmp'):
                self.tmps.append([])
                x = self.ev(init)
                ext = self.tmps.pop()
                lv = x if isinstance(x, (LV, ByteLV, ReintLV)) else self.as_lv(x, t)
                for d in ext:
                    self.scope_locals.append(d)
            else:
                x = self.full(lambda: self.ev(init))
                lv = x if isinstance(x, (LV, ByteLV, ReintLV)) else self.as_lv(x, t)
            fr.vars[v['id']] = RefV(lv)
        else:
            c = self.new_cell(name, t)
            lv = LV(c)
            fr.vars[v['id']] = lv
            if v.get('init'):
                if base(t) in self.prog.records:
                    c.v = self.blank(t)
                    self.full(lambda: self.ev_into(v['init'], lv))
                else:
                    c.v = self.full(lambda: self.rvalue(v['init'], t))
            elif base(t).endswith(']'):
                c.v = self.default_object(t)
            elif not (base(t) in INTS or base(t) in ('bool', 'double') or is_ptr(t) or self.is_enum(t)):
                c.v = self.construct_default(t)
            if self.has_dtor(t):
                self.scope_locals.append(lv)
        if v.get('bindings'):
            lv = fr.vars[v['id']]
            lv = lv.lv if isinstance(lv, RefV) else lv
            for k, b in enumerate(v['bindings']):
                val = lv.get(self)
                if isinstance(val, StructV) and tname(val.cls) == 'std::pair':
                    n = ('first', 'second')[k]
                    fr.vars[b['id']] = RefV(lv.sub(('f', n), base(targs(val.cls)[k])))
                elif isinstance(val, StructV):
                    n, ft, _ = self.w.fields(val.cls)[k]
                    fr.vars[b['id']] = RefV(lv.sub(('f', n), base(ft)))
                else:
                    raise Unsupported('structured binding')

    def cond(self, s):
        if s.get('cv'):
            self.decl(s['cv'])
        return self.full(lambda: self.rvalue(s['c']))

    def s_If(self, s):
        def run():
            if s.get('init'):
                self.st(s['init'])
            if self.ctx.branch(self.cond(s)):
                self.st(s['then'])
            elif s.get('else'):
                self.st(s['else'])
        if s.get('init') or s.get('cv'):
            self.scope(run)
        else:
            run()

    def s_Return(self, s):
        if s.get('e') is None:
            raise ReturnEx(None)
        ret = self.frames[-1].f.get('ret', '')

        def run():
            v = self.ev(s['e'])
            if isinstance(v, (LV, ByteLV, ReintLV)) and not is_ref(ret):
                v = self.load(v)
            return v
        raise ReturnEx(self.full(run))

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_Switch(self, s):
        def run():
            if s.get('init'):
                self.st(s['init'])
            v = self.cond(s)
            if z3.is_bool(v):
                v = z3.If(v, I(1), I(0))
            body = s['body']
            if body['s'] != 'Block':
                raise Unsupported('switch body')
            flat = []   # (labels, stmt)
            for x in body['b']:
                labels = []
                while x is not None and x['s'] in ('Case', 'Default'):
                    labels.append(x)
                    x = x['sub']
                flat.append((labels, x))
            start = None
            dflt = None
            for i, (labels, x) in enumerate(flat):
                for l in labels:
                    if l['s'] == 'Default':
                        dflt = i
            for i, (labels, x) in enumerate(flat):
                for l in labels:
                    if l['s'] == 'Case':
                        if 'v2' in l:
                            raise Unsupported('case range')
                        c = self.rvalue(l['v'])
                        if self.ctx.branch(self.int_eq(v, c)):
                            start = i
                            break
                if start is not None:
                    break
            if start is None:
                start = dflt
            if start is None:
                return
            try:
                self.scope(lambda: [self.st(x) for _, x in flat[start:]])
            except BreakEx:
                pass
        self.scope(run)

    def s_Try(self, s):
        nl = len(self.frames)
        ntmp = len(self.tmps)
        try:
            self.st(s['body'])
        except CppThrow as x:
            for h in s['h']:
                if h['t'] == '...' or exc_matches(x.cls, h['t']):
                    cur = self.ghost.setdefault('current-exception', [])
                    cur.append(x)
                    try:
                        def run():
                            if h.get('var'):
                                fr = self.frames[-1]
                                c = self.new_cell('exc', h['t'], OpaqueV('exception', x.what))
                                fr.vars[h['var']['id']] = RefV(LV(c))
                            self.st(h['body'])
                        self.scope(run)
                    finally:
                        cur.pop()
                    return
            raise

    # ------------------------------------------------------------ loops
    def s_While(self, s):
        self.loop(s, None, lambda: self.cond(s), s['body'], None)

    def s_Do(self, s):
        # the first iteration runs unconditionally
        try:
            self.st(s['body'])
        except ContinueEx:
            pass
        except BreakEx:
            return
        self.loop(s, None, lambda: self.full(lambda: self.rvalue(s['c'])), s['body'], None)

    def s_For(self, s):
        def run():
            if s.get('init'):
                self.st(s['init'])
            c = (lambda: self.cond(s)) if s.get('c') is not None else (lambda: z3.BoolVal(True))
            inc = (lambda: self.full(lambda: self.ev(s['inc']))) if s.get('inc') else None
            self.loop(s, None, c, s['body'], inc)
        self.scope(run)

    def s_RangeFor(self, s):
        from . import models

        def run():
            if s.get('init'):
                self.st(s['init'])
            rng = s['range']
            v = self.full(lambda: self.ev(rng))
            lv = v if isinstance(v, (LV, ByteLV, ReintLV)) else self.as_lv(v, rng['t'])
            val = lv.get(self)
            fr = self.frames[-1]
            idx = self.new_cell('__i:%s:%d' % (s['var']['id'], fr.depth), 'unsigned long', I(0))
            ilv = LV(idx)
            var = s['var']
            if isinstance(val, ArrV):
                for k in range(len(val.a)):
                    fr.vars.pop(var['id'], None)
                    el = lv.sub(('a', k), val.ctype)
                    try:
                        self.scope(lambda: (self.bind_loopvar(var, el), self.st(s['body'])))
                    except ContinueEx:
                        pass
                    except BreakEx:
                        return
                return
            if isinstance(val, MapV):
                return models.range_map(self, s, lv, var, idx)
            if not z3.is_expr(val):
                raise Unsupported('range-for over %r' % (val,))
            ct = base(lv.ctype)
            if ct in STRINGS:
                elt = 'char' if ct != 'std::ustring' else 'unsigned char'
            else:
                elt = base(targs(ct)[0])

            def cond():
                return simp(ilv.get(self) < self.ctx.length(lv.get(self)))

            def body():
                before = lv.get(self)
                i = ilv.get(self)
                el = lv.sub(('s', i, elt) if ct in STRINGS else ('i', i, elt), elt)
                self.ctx.assume(i >= 0)
                try:
                    self.scope(lambda: (self.bind_loopvar(var, el), self.st(s['body'])))
                finally:
                    pass
                after = lv.get(self)
                if not (z3.is_expr(after) and after.eq(before)):
                    self.oblige_safe('the container of a range-for keeps its length', self.ctx.length(after) == self.ctx.length(before))

            def inc():
                ilv.set(self, simp(ilv.get(self) + 1))
            self.loop(s, body, cond, None, inc, hidden=ilv, container=lv)
        self.scope(run)

    def bind_loopvar(self, var, el):
        fr = self.frames[-1]
        if is_ref(var['t']):
            fr.vars[var['id']] = RefV(el)
        else:
            v = el.get(self)
            fr.vars[var['id']] = LV(self.new_cell('%s:%s:%d' % (var['name'], var['id'], fr.depth), var['t'], v))
        if var.get('bindings'):
            lv = fr.vars[var['id']]
            lv = lv.lv if isinstance(lv, RefV) else lv
            val = lv.get(self)
            for k, b in enumerate(var['bindings']):
                if isinstance(val, StructV) and tname(val.cls) == 'std::pair':
                    fr.vars[b['id']] = RefV(lv.sub(('f', ('first', 'second')[k]), base(targs(val.cls)[k])))
                else:
                    raise Unsupported('structured binding')

    def loop(self, s, bodyfn, condfn, body, inc, hidden=None, container=None):
        ctx = self.ctx

        def run_body():
            if bodyfn is not None:
                bodyfn()
            else:
                self.st(body)

        key = (s.get('n'), self.frames[-1].chain)
        info = ctx.ex.loops.setdefault(key, Loop())
        # bounded unrolling while the condition is settled
        for _ in range(MAX_UNROLL if not info.modset else 0):
            before = {n: x.v for n, x in self.cellmap.items()}
            log = set()
            self.recorders.append((Cell.count, log))
            try:
                c = condfn()
            except Unsupported:
                c = None
            finally:
                self.recorders.pop()
            d = ctx.decided(c) if c is not None else None
            if d is None:
                # undo: the loop analysis evaluates the condition again
                for n, _ in log:
                    self.cellmap[n].v = before[n]
                break
            if not d:
                return
            try:
                run_body()
            except ContinueEx:
                pass
            except BreakEx:
                return
            if inc:
                inc()
        self.loop_inv(s, key, info, run_body, condfn, inc, hidden, container)

    def loop_inv(self, s, key, info, run_body, condfn, inc, hidden, container):
        ctx = self.ctx
        where = 'loop in %s line %s' % (self.loc(), s.get('l'))
        self.quiet += 1
        entry_sn = Cell.count
        cells = dict(self.cellmap)
        # locations the loop changes (learnt; Restart when the set grows)
        mods = []
        for name, path in sorted(info.modset, key=str):
            cell = cells.get(name)
            if cell is None:
                continue
            lv = LV(cell)
            ct = cell.ctype
            for el in path:
                v = lv.get(self)
                if el[0] == 'any':
                    if not isinstance(v, AnyV) or self.split_any(v).cls != el[1]:
                        break
                    if v.cls is None:
                        lv.cell.v = self.split_any(v) if not lv.path else lv._set(self, lv.cell.v, 0, self.split_any(v))
                    ct = el[1]
                elif not isinstance(v, StructV) or el[1] not in v.f:
                    break
                else:
                    ct = self.field_type(ct, el[1], lv)
                lv = lv.sub(el, ct)
            # skip locations inside another modified location
            if any(n2 == name and len(p2) < len(path) and path[:len(p2)] == p2 for n2, p2 in info.modset):
                continue
            if not any(lv.same(l2) for l2, _ in mods):
                mods.append((lv, lv.get(self)))
        L = LoopCtx(self, s, mods, hidden, container, condfn)
        cands = []
        for tmpl in [generic_candidates] + list(self.templates):
            cands.extend(tmpl(self, L) or [])
        defs = []
        for c in cands:
            # one defining equation per location at a time
            if len(c) == 3 and c[0] not in info.dropped and not any(c[2].same(d[2]) for d in defs):
                defs.append(c)
        cands = [c for c in cands if len(c) == 2 and c[0] not in info.dropped]

        def failing():
            """candidates that do not hold now: the refuted ones, or else the undecided ones"""
            refuted, open_, again = [], [], []

            def judge(n, f):
                if f is None:
                    open_.append(n)
                elif not self.ctx.valid(f, PATH):
                    if self.ctx.last == 'unknown':
                        open_.append(n)
                        again.append((n, f))
                    else:
                        refuted.append(n)
            for n, fn, lv in defs:
                e = fn(self)
                judge(n, None if e is None else lv.get(self) == e)
            for n, fn in cands:
                judge(n, fn(self))
            if not refuted:
                for n, f in again:
                    if self.ctx.valid_again(f):
                        open_.remove(n)
            if not refuted and open_:
                ctx.ex.weak = True
            return refuted or open_
        bad = failing()
        while bad:
            info.dropped.update(bad)
            cands = [(n, fn) for n, fn in cands if n not in info.dropped]
            defs = [d for d in defs if d[0] not in info.dropped]
            if info.used & set(bad):
                raise Restart('invariants not established: ' + ','.join(bad))
            bad = failing()
        info.used.update([n for n, _ in cands] + [d[0] for d in defs])
        # arbitrary iteration; a sequence that the loop only appends to keeps its
        # entry value as a prefix (checked at the end of the iteration)
        grown = []
        opaque = []
        for lv, v in mods:
            gname = 'prefix(%s)' % lv
            if z3.is_expr(v) and z3.is_seq(v) and gname not in info.dropped:
                x = self.ctx.fresh('L_' + lv.cell.name.split(':')[0] + '_more', v.sort())
                ctx.assume(z3.Length(x) <= 2 ** 60)
                lv.cell.v = ctx.concat(v, x) if not lv.path else lv._set(self, lv.cell.v, 0, ctx.concat(v, x))
                grown.append((gname, lv, v))
                continue
            if isinstance(v, OpaqueV):
                opaque.append((lv, v))
                continue
            nv = self.havoc_value(v, lv.ctype, 'L_' + lv.cell.name.split(':')[0] + '.'.join(str(p[1]) for p in lv.path))
            lv.cell.v = nv if not lv.path else lv._set(self, lv.cell.v, 0, nv)
        if hidden is not None:
            ctx.assume(hidden.get(self) >= 0)
        for n, fn in cands:
            f = fn(self)
            if f is not None:
                ctx.assume(f)
        for n, fn, lv in defs:
            e = fn(self)
            if e is None:
                info.dropped.add(n)
                raise Restart('definition ' + n)
            ctx.assume(lv.get(self) == e)
            if not lv.path:
                lv.cell.v = e
            else:
                lv.cell.v = lv._set(self, lv.cell.v, 0, e)
        L.at_head(self)
        m0 = self.measure_values(L)
        self.quiet -= 1
        log = set()
        self.recorders.append((entry_sn, log))
        try:
            # the condition may have effects of its own
            if not ctx.branch(condfn()):
                self.recorders.pop()
                self.check_mods(log, info, where)
                self.quiet += 1
                for fn in L.exit_cbs:
                    fn(self)
                self.quiet -= 1
                return
            try:
                run_body()
            except ContinueEx:
                pass
            if inc:
                inc()
        except BreakEx:
            self.recorders.pop()
            self.check_mods(log, info, where)
            return
        except (ReturnEx, CppThrow, PathEnd, Unsupported):
            self.recorders.pop()
            self.check_mods(log, info, where)
            raise
        self.recorders.pop()
        self.check_mods(log, info, where)
        self.quiet += 1
        for lv, v in opaque:
            now = lv.get(self)
            if not (isinstance(now, OpaqueV) and now.what == v.what and now.data == v.data):
                raise Unsupported('%s changes in a loop' % lv)
        bad = []
        for gname, lv, v in grown:
            now = lv.get(self)
            pre, ps = ctx.parts(v), ctx.parts(now)
            if len(ps) >= len(pre) and all(a.eq(b) for a, b in zip(pre, ps)):
                continue
            if not self.valid_goal(z3.PrefixOf(v, now)):
                bad.append(gname)
        bad = bad or failing()
        if bad:
            info.dropped.update(bad)
            if ctx.ex.trace:
                print('   dropping', bad, 'at', where)
            raise Restart('invariants ' + ','.join(bad))
        for n in [n for n, _ in cands] + [d[0] for d in defs]:
            ctx.ex.obls.setdefault(('inv', n, where), self.mk_inv_ob(n, where))
        self.check_measure(L, m0, where)
        raise PathEnd()

    def mk_inv_ob(self, n, where):
        ob = Obligation('loop invariant preserved: ' + n, where)
        ob.status, ob.solver = 'proved', 'z3'
        ob.task = self.ctx.ex.name
        return ob

    def valid_goal(self, f):
        from .core import PATH
        r = self.ctx.valid(f, PATH)
        if not r and self.ctx.last == 'unknown':
            self.ctx.ex.weak = True
        return r

    def field_type(self, ct, name, lv):
        v = lv.get(self)
        if isinstance(v, StructV) and v.cls in self.prog.records:
            for n, t, _ in self.w.fields(v.cls):
                if n == name:
                    return base(t)
        if isinstance(v, StructV) and tname(v.cls) == 'std::pair':
            return base(targs(v.cls)[0 if name == 'first' else 1])
        return self.guess(v.f.get(name)) if isinstance(v, StructV) else ''

    def check_mods(self, log, info, where):
        new = set()
        for it in log:
            if it in info.modset:
                continue
            if any(n == it[0] and it[1][:len(p)] == p for n, p in info.modset):
                continue
            new.add(it)
        if new:
            info.modset |= new
            raise Restart('modified set of %s: %s' % (where, new))

    def measure_values(self, L):
        if self.measures is None:
            return None
        return [(n, simp(fn(self))) for n, fn in self.measures(self, L)]

    def check_measure(self, L, m0, where):
        if m0 is None:
            return
        m1 = self.measures(self, L)
        for (n, v0), (_, fn) in zip(m0, m1):
            v1 = simp(fn(self))
            if self.valid_goal(z3.And(v0 >= 0, v1 < v0)):
                self.ctx.oblige('loop terminates: a measure decreases', z3.And(v0 >= 0, v1 < v0), where)
                return
        self.ctx.oblige('loop terminates: a measure decreases', z3.BoolVal(False), where)


class LitLV:
    """string literal lvalue"""
    def __init__(self, buf):
        self.buf = buf


class LoopCtx:
    def __init__(self, m, s, mods, hidden, container, condfn):
        self.s, self.mods, self.hidden, self.container, self.condfn = s, mods, hidden, container, condfn
        self.entry = {}
        self.head_cbs = []
        self.exit_cbs = []

    def on_head(self, fn):
        self.head_cbs.append(fn)

    def on_exit(self, fn):
        """after the loop condition has become false"""
        self.exit_cbs.append(fn)

    def becomes(self, lv, e):
        """at the exit the location is known by its specification, when that is provable"""
        def fn(m):
            t = e(m)
            if not lv.get(m).eq(t) and m.ctx.valid(lv.get(m) == t):
                lv.cell.v = t if not lv.path else lv._set(m, lv.cell.v, 0, t)
        self.exit_cbs.append(fn)

    def at_head(self, m):
        for fn in self.head_cbs:
            fn(m)

    def atoms(self, m):
        """modified integer locations: [(name, entry value, getter)]"""
        out = []
        for lv, v in self.mods:
            out.extend(_int_atoms(str(lv), v, lv))
        return out

    def seqs(self, m, sort=None):
        out = []
        for lv, v in self.mods:
            out.extend(_seq_atoms(str(lv), v, lv, sort))
        return out


def _bool_atoms(name, v, lv):
    if z3.is_expr(v) and v.sort() == BOOL:
        return [(name, v, lambda m: lv.get(m))]
    if isinstance(v, StructV):
        out = []
        for k, x in v.f.items():
            if z3.is_expr(x) and x.sort() == BOOL:
                out.append((name + '.' + k, x, lambda m, k=k: lv.get(m).f[k]))
        return out
    return []


def _int_atoms(name, v, lv):
    if z3.is_expr(v) and v.sort() == INT:
        g = lambda m, lv=lv: lv.get(m)
        g.lv = lv
        return [(name, v, g)]
    if isinstance(v, PtrV) and v.kind in ('buf', 'bytes', 'arr'):
        return [(name + '.off', v.b, lambda m, lv=lv: lv.get(m).b)]
    if isinstance(v, IterV) and v.kind == 'seq':
        return [(name + '.pos', v.pos, lambda m, lv=lv: lv.get(m).pos)]
    if isinstance(v, StructV):
        out = []
        for n, x in v.f.items():
            out.extend(_int_atoms(name + '.' + n, x, lv.sub(('f', n), '')))
        return out
    return []


def _seq_atoms(name, v, lv, sort):
    if z3.is_expr(v) and z3.is_seq(v) and (sort is None or v.sort() == sort):
        g = lambda m, lv=lv: lv.get(m)
        g.lv = lv
        return [(name, v, g)]
    if isinstance(v, StructV):
        out = []
        for n, x in v.f.items():
            out.extend(_seq_atoms(name + '.' + n, x, lv.sub(('f', n), ''), sort))
        return out
    return []


def generic_candidates(m, L):
    out = []
    if m.ghost.get('no generic invariants'):
        return out
    atoms = L.atoms(m)
    for n, v0, get in atoms:
        out.append(('%s>=entry' % n, lambda m, get=get, v0=v0: get(m) >= v0))
        out.append(('%s<=entry' % n, lambda m, get=get, v0=v0: get(m) <= v0))
        out.append(('%s>=0' % n, lambda m, get=get, v0=v0: get(m) >= 0))
        out.append(('%s>=1' % n, lambda m, get=get, v0=v0: get(m) >= 1))
    for i in range(len(atoms)):
        for j in range(i + 1, len(atoms)):
            n1, a0, ga = atoms[i]
            n2, b0, gb = atoms[j]
            out.append(('%s-%s' % (n1, n2), lambda m, ga=ga, gb=gb, a0=a0, b0=b0: ga(m) - gb(m) == a0 - b0))
            out.append(('%s+%s' % (n1, n2), lambda m, ga=ga, gb=gb, a0=a0, b0=b0: ga(m) + gb(m) == a0 + b0))
    for n, s0, get in L.seqs(m):
        l0 = m.ctx.length(s0)
        out.append(('len(%s)>=entry' % n, lambda m, get=get, l0=l0: m.ctx.length(get(m)) >= l0))
        for n2, b0, gb in atoms:
            out.append(('len(%s)-%s' % (n, n2), lambda m, get=get, gb=gb, l0=l0, b0=b0: m.ctx.length(get(m)) - l0 == gb(m) - b0))

    for lv, v in L.mods:
        for n, v0, get in _bool_atoms(str(lv), v, lv):
            out.append(('%s as at entry' % n, lambda m, get=get, v0=v0: get(m) == v0))

    # weakened loop guard: x < E becomes x <= E
    def guard(m):
        if L.s.get('c') is None and L.hidden is None:
            return None
        if L.s.get('c') is not None and not pure(L.s['c']):
            return None
        try:
            c = simp(L.condfn())
        except Exception as x:
            if isinstance(x, (PathEnd, Restart)) or isinstance(x, CONTROL):
                raise
            return None
        return weaken(c)
    if L.hidden is not None or (L.s.get('c') is not None and pure(L.s['c'])):
        out.append(('guard', guard))
    return out


def weaken(c):
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        d = c.arg(0)
        kk = d.decl().kind()
        if kk == z3.Z3_OP_LE:      # a > b
            return d.arg(0) >= d.arg(1)
        if kk == z3.Z3_OP_GE:      # a < b
            return d.arg(0) <= d.arg(1)
        if kk == z3.Z3_OP_EQ and d.arg(0).sort() == INT:
            return d.arg(0) <= d.arg(1)
    if k == z3.Z3_OP_LT:
        return c.arg(0) <= c.arg(1)
    if k == z3.Z3_OP_GT:
        return c.arg(0) >= c.arg(1)
    if k == z3.Z3_OP_LE:
        return c.arg(0) <= c.arg(1) + 1
    if k == z3.Z3_OP_GE:
        return c.arg(0) + 1 >= c.arg(1)
    return None


def pure(e):
    """no calls with effects and no short-circuit operators"""
    if isinstance(e, dict):
        k = e.get('k')
        if k in ('Lambda', 'New', 'Throw', 'CompAssign', 'Delete', 'Cond'):
            return False
        if k == 'Un' and e['op'] in ('++', '--'):
            return False
        if k == 'Bin' and e['op'] in ('=', '&&', '||'):
            return False
        if k in ('Call', 'OpCall') and (k == 'Call' or e.get('op') in ('=', '+=', '()', '<<', '>>')):
            return False
        if k == 'MCall' and e['f']['name'] not in ('size', 'length', 'empty', 'end', 'begin', 'data', 'cend'):
            return False
        return all(pure(v) for v in e.values())
    if isinstance(e, list):
        return all(pure(v) for v in e)
    return True
