"""Symbolic values, types and memory of the C++ subset."""
import re
import z3
from .core import *

INTS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'char16_t': (16, False), 'char32_t': (32, False), 'wchar_t': (32, True)}


def int_range(t):
    b, s = INTS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


_norm = {}


def base(t):
    """the type without references and top-level cv"""
    r = _norm.get(t)
    if r is not None:
        return r
    s = t.strip()
    if s.endswith('&&'):
        s = s[:-2].strip()
    elif s.endswith('&') and not s.endswith('(&'):
        s = s[:-1].strip()
    while True:
        if s.endswith('const') and (s.endswith(' const') or s.endswith('*const')):
            s = s[:-5].strip()
            continue
        if s.startswith('const ') and not s.endswith('*') and '(*)' not in s:
            s = s[6:].strip()
            continue
        if s.startswith('volatile '):
            s = s[9:]
            continue
        break
    if s.startswith('std::atomic<') and s.endswith('>'):
        pass
    _norm[t] = s
    return s


def is_ref(t):
    return t.rstrip().endswith('&')


def is_ptr(t):
    t = base(t)
    return t.endswith('*') or '(*)' in t


def pointee(t):
    t = base(t)
    assert t.endswith('*'), t
    return base(t[:-1])


def targs(t):
    """template arguments of a type name"""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[i + 1:t.rindex('>')]:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def tname(t):
    """template name without arguments"""
    t = base(t)
    i = t.find('<')
    return t if i < 0 else t[:i]


STRINGS = ('std::string', 'std::ustring', 'std::string_view', 'std::basic_string_view')
SEQS = ('std::vector', 'std::deque', 'std::queue', 'std::list', 'std::initializer_list')


class Cell:
    __slots__ = ('name', 'ctype', 'v', 'sn', 'depth')
    count = 0

    def __init__(self, name, ctype, v=None):
        Cell.count += 1
        self.sn = Cell.count
        self.name, self.ctype, self.v = name, ctype, v

    def __repr__(self):
        return 'Cell(%s)' % self.name


class Uninit:
    def __repr__(self):
        return 'uninit'


UNINIT = Uninit()


class StructV:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return 'StructV(%s)' % self.cls


class AnyV:
    """boost::any: cls None = unknown (z), '' = empty, else holds val: StructV (or z)"""
    __slots__ = ('cls', 'val', 'z')

    def __init__(self, cls, val=None, z=None):
        self.cls, self.val, self.z = cls, val, z

    def __repr__(self):
        return 'AnyV(%s)' % (self.cls if self.cls is not None else self.z)


class ArrV:
    __slots__ = ('ctype', 'a')

    def __init__(self, ctype, a):
        self.ctype, self.a = ctype, a


class RefV:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class PtrV:
    """kind: null | obj(lv) | buf(Buf, off) | bytes(lv, off) | arr(lv, off) | reint(ptr, ctype) | func | vec(lv, off)"""
    __slots__ = ('kind', 'a', 'b')

    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b

    def __repr__(self):
        return 'PtrV(%s,%s,%s)' % (self.kind, self.a, self.b)


NULL = PtrV('null')


class Buf:
    """storage of bytes: an external buffer (seq) or the contents of a string (lv)"""
    __slots__ = ('name', 'seq', 'lv', 'nul', 'unsigned', 'cstr')

    def __init__(self, name, seq=None, lv=None, nul=False, cstr=False):
        # cstr: the content is known to hold no NUL of its own
        self.name, self.seq, self.lv, self.nul, self.cstr = name, seq, lv, nul, cstr

    def content(self, m):
        s = self.lv.get(m) if self.lv is not None else self.seq
        if self.nul:
            s = m.ctx.concat(s, z3.Unit(I(0)))
        return s


class FnV:
    """callable. kind: empty | lambda | bind | member | sym | func"""
    __slots__ = ('kind', 'a', 'b', 'sig', 'z')

    def __init__(self, kind, a=None, b=None, z=None, sig=None):
        self.kind, self.a, self.b, self.z, self.sig = kind, a, b, z, sig

    def __repr__(self):
        return 'FnV(%s,%s)' % (self.kind, self.z)


class MapV:
    """has: Array(K,Bool), val: Array(K,V)"""
    __slots__ = ('ctype', 'has', 'val', 'keys')

    def __init__(self, ctype, has, val, keys=None):
        self.ctype, self.has, self.val, self.keys = ctype, has, val, keys


class IterV:
    """iterator: container lv; pos: index (Int) for sequences, key for maps (None = end)"""
    __slots__ = ('lv', 'pos', 'kind', 'extra')

    def __init__(self, kind, lv, pos, extra=None):
        self.kind, self.lv, self.pos, self.extra = kind, lv, pos, extra


class TypeInfoV:
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls


class OpaqueV:
    """library object without modelled state"""
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what, self.data = what, data

    def __repr__(self):
        return 'OpaqueV(%s)' % self.what


class PMF:
    """pointer to member function / function"""
    __slots__ = ('key', 'f')

    def __init__(self, f):
        self.f, self.key = f, f['key']


class LV:
    __slots__ = ('cell', 'path', 'ctype')

    def __init__(self, cell, path=(), ctype=None):
        self.cell, self.path = cell, path
        self.ctype = ctype if ctype is not None else cell.ctype

    def get(self, m):
        if m.access is not None and not m.quiet:
            m.access(m, self, False)
        v = self.cell.v
        for el in self.path:
            v = m.step_get(v, el)
        return v

    def set(self, m, v):
        m.note_write(self.cell, self.path)
        if not self.path:
            self.cell.v = v
        else:
            self.cell.v = self._set(m, self.cell.v, 0, v)

    def _set(self, m, cur, i, v):
        el = self.path[i]
        if i == len(self.path) - 1:
            return m.step_set(cur, el, v)
        return m.step_set(cur, el, self._set(m, m.step_get(cur, el), i + 1, v))

    def sub(self, el, ctype):
        return LV(self.cell, self.path + (el,), ctype)

    def __repr__(self):
        return 'LV(%s%s)' % (self.cell.name, ''.join('.' + str(p[1])[:30] for p in self.path))

    def same(self, o):
        return isinstance(o, LV) and self.cell is o.cell and len(self.path) == len(o.path) and all(
            a[0] == b[0] and (a[1] is b[1] or (isinstance(a[1], str) and a[1] == b[1]) or
                              (z3.is_expr(a[1]) and z3.is_expr(b[1]) and a[1].eq(b[1])) or
                              (isinstance(a[1], int) and a[1] == b[1]))
            for a, b in zip(self.path, o.path))


class ByteLV:
    """one byte of a scalar (through a char pointer)"""
    def __init__(self, ptr, off, ctype):
        self.ptr, self.off, self.ctype = ptr, off, ctype

    def get(self, m):
        return m.conv_byte(m.load_byte(self.ptr, self.off), self.ctype)

    def set(self, m, v):
        m.store_byte(self.ptr, self.off, m.to_byte(v))


class ReintLV:
    """scalar seen through a reinterpreting pointer to bytes"""
    def __init__(self, ptr, ctype):
        self.ptr, self.ctype = ptr, ctype

    def get(self, m):
        n = m.scalar_size(self.ctype)
        bs = [m.load_byte(self.ptr, I(i)) for i in range(n)]
        return m.compose(bs, self.ctype)

    def set(self, m, v):
        for i, b in enumerate(m.decompose(v, self.ctype)):
            m.store_byte(self.ptr, I(i), b)


class CppThrow(Exception):
    def __init__(self, cls, what=None, user=False):
        self.cls, self.what, self.user = cls, what, user


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


CONTROL = (CppThrow, ReturnEx, BreakEx, ContinueEx)

EXC_BASES = {
    'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
    'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::underflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error',
    'boost::system::system_error': 'std::runtime_error', 'std::bad_cast': 'std::exception',
    'boost::bad_any_cast': 'std::bad_cast', 'std::bad_any_cast': 'std::bad_cast',
    'std::bad_function_call': 'std::exception', 'std::bad_alloc': 'std::exception',
    'boost::thread_interrupted': '', 'user-exception': 'std::exception', 'user-other': '',
}


def exc_matches(cls, caught):
    caught = base(caught)
    while cls:
        if cls == caught:
            return True
        cls = EXC_BASES.get(cls, 'std::exception' if cls.endswith('error') or cls.endswith('exception') else '')
        if cls == 'std::exception' and caught == 'std::exception':
            return True
    return False
