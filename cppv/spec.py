"""Ghost functions: the D-Bus wire format, written from the specification.

Every function is uninterpreted; unfold_* adds its defining equation for the
arguments at hand (one constructor / one step), so all proofs go by induction
over the code's own recursion and loops."""
import z3
from .core import *
from .values import *

T = 'DBus::Type::'
CODES = {'Byte': 'y', 'Boolean': 'b', 'Int16': 'n', 'Uint16': 'q', 'Int32': 'i', 'Uint32': 'u', 'Int64': 'x',
         'Uint64': 't', 'Double': 'd', 'String': 's', 'ObjectPath': 'o', 'Signature': 'g', 'Array': 'a',
         'Struct': '(', 'DictEntry': '{', 'Variant': 'v'}
ALIGN = {'Byte': 1, 'Boolean': 4, 'Int16': 2, 'Uint16': 2, 'Int32': 4, 'Uint32': 4, 'Int64': 8, 'Uint64': 8,
         'Double': 8, 'String': 4, 'ObjectPath': 4, 'Signature': 1, 'Array': 4, 'Struct': 8, 'DictEntry': 8,
         'Variant': 1}
SIZE = {'Byte': 1, 'Boolean': 4, 'Int16': 2, 'Uint16': 2, 'Int32': 4, 'Uint32': 4, 'Int64': 8, 'Uint64': 8,
        'Double': 8}
SIGNED = ('Int16', 'Int32', 'Int64')
BASIC = ['Byte', 'Boolean', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Int64', 'Uint64', 'Double', 'String',
         'ObjectPath', 'Signature']
ALL = BASIC + ['Array', 'Struct', 'DictEntry', 'Variant']
BY_CODE = {ord(c): k for k, c in CODES.items()}


class Spec:
    """ghost functions over one World"""
    def __init__(self, w):
        self.w = w
        V = w.Val
        self.V = V
        self.VS = z3.SeqSort(V)
        f = z3.Function
        self.code = f('code', V, INT)                  # first character of the type, 0 if none
        self.sigOf = f('sigOf', V, BYTES)
        self.sigsFrom = f('sigsFrom', self.VS, INT, BYTES)
        self.enc = f('enc', V, INT, BYTES)             # bytes of a value written at a position
        self.encFrom = f('encFrom', self.VS, INT, INT, BYTES)
        self.canEnc = f('canEnc', V, BOOL)
        self.canEncFrom = f('canEncFrom', self.VS, INT, BOOL)
        self.wf = f('wf', V, BOOL)
        self.wfFrom = f('wfFrom', self.VS, INT, BOOL)

    def le(self, ctx, n, size):
        """little-endian bytes of 0 <= n < 256**size"""
        n = simp(n)
        out = []
        for i in range(size):
            q = n if i == 0 else n / I(1 << (8 * i))
            out.append(z3.Unit(simp(q % 256)))
        return ctx.concat(*out)

    def pad(self, ctx, p, a):
        """the zero bytes that align position p to a"""
        if a == 1:
            return EMPTY
        p = simp(p)
        conds = [simp(p % a == (a - k) % a) for k in range(a)]
        k = ctx.choose(a, conds)
        return ctx.concat(*[z3.Unit(I(0))] * k) if k else EMPTY

    def bits(self, short, v):
        """unsigned image of the stored number"""
        if short == 'Boolean':
            b = self.w.acc('Boolean', 'm_Value', v)
            return z3.If(b if b.sort() == BOOL else b != 0, I(1), I(0))
        n = self.w.acc(short, 'm_Value', v)
        if short in SIGNED:
            return z3.If(n < 0, n + (1 << (8 * SIZE[short])), n)
        return n

    def align_of(self, ctx, c):
        """alignment of a type code; decided on the path"""
        g4 = z3.Or([c == ord(CODES[k]) for k in ALL if ALIGN[k] == 4])
        g8 = z3.Or([c == ord(CODES[k]) for k in ALL if ALIGN[k] == 8])
        g2 = z3.Or([c == ord(CODES[k]) for k in ALL if ALIGN[k] == 2])
        if ctx.branch(g8):
            return 8
        if ctx.branch(g4):
            return 4
        if ctx.branch(g2):
            return 2
        return 1

    def at(self, ctx, s, i):
        """character i of a string, 0 at its end"""
        i = I(i) if isinstance(i, int) else i
        c = simp(ctx.length(s) > i)
        if z3.is_true(c):
            return ctx.el(s, i)
        if z3.is_false(c):
            return I(0)
        return z3.If(c, ctx.el(s, i), I(0))

    # ---------------------------------------------------------------- unfolding
    def unfold_code(self, ctx, short, v):
        w = self.w
        if short == 'Empty':
            ctx.assume(self.code(v) == 0)
        elif short == 'Other':
            ctx.assume(self.code(v) == ord('?'))
        elif short == 'Array':
            vs = w.acc('Array', 'contents', v)
            sg = w.acc('Array', 'm_Signature', v)
            ctx.assume(self.code(v) == z3.If(z3.Length(vs) > 0, I(ord('a')), self.at(ctx, sg, 0)))
        elif short == 'DictEntry':
            ctx.assume(self.code(v) == self.at(ctx, w.acc(short, 'm_Signature', v), 0))
        else:
            ctx.assume(self.code(v) == ord(CODES[short]))

    def unfold_wf(self, ctx, short, v):
        """well-formed values: an empty array and a dict entry know their signature"""
        w = self.w
        if short == 'Array':
            vs = w.acc('Array', 'contents', v)
            sg = w.acc('Array', 'm_Signature', v)
            ctx.assume(self.wf(v) == z3.And(self.wfFrom(vs, 0), z3.Or(
                z3.Length(vs) > 0, z3.And(z3.Length(sg) > 0, ctx.el(sg, I(0)) == ord('a')))))
        elif short == 'Struct':
            ctx.assume(self.wf(v) == self.wfFrom(w.acc('Struct', 'm_Value', v), 0))
        elif short == 'DictEntry':
            sg = w.acc(short, 'm_Signature', v)
            ctx.assume(self.wf(v) == z3.And(self.wf(w.acc(short, 'm_Value.first', v)), self.wf(w.acc(short, 'm_Value.second', v)),
                                            z3.Length(sg) > 0, ctx.el(sg, I(0)) == ord('{')))
        elif short == 'Variant':
            ctx.assume(self.wf(v) == self.wf(w.acc(short, 'm_Value', v)))
        else:
            ctx.assume(self.wf(v))

    def unfold_wfFrom(self, ctx, vs, i):
        n = ctx.length(vs)
        ctx.assume(self.wfFrom(vs, i) == z3.If(i >= n, True, z3.And(self.wf(ctx.el(vs, i)), self.wfFrom(vs, i + 1))))

    def elem_code(self, ctx, v):
        """first character of an array's element type"""
        w = self.w
        vs = w.acc('Array', 'contents', v)
        sg = w.acc('Array', 'm_Signature', v)
        if ctx.branch(z3.Length(vs) > 0):
            return self.code(ctx.el(vs, I(0)))
        return self.at(ctx, sg, 1)

    def string_bytes(self, ctx, s, width):
        return ctx.concat(self.le(ctx, ctx.length(s), width), s, z3.Unit(I(0)))

    def encoding(self, ctx, short, v, p):
        """(bytes, can) of a value of known constructor at position p"""
        w = self.w
        if short in ('Empty', 'Other'):
            return EMPTY, z3.BoolVal(True)
        if short in SIZE:
            return ctx.concat(self.pad(ctx, p, ALIGN[short]), self.le(ctx, self.bits(short, v), SIZE[short])), z3.BoolVal(True)
        if short in ('String', 'ObjectPath'):
            s = simp(w.acc(short, 'm_Value', v))
            return ctx.concat(self.pad(ctx, p, 4), self.string_bytes(ctx, s, 4)), z3.BoolVal(True)
        if short == 'Signature':
            s = simp(w.acc(short, 'm_Value', v))
            return self.string_bytes(ctx, s, 1), ctx.length(s) <= 255
        if short == 'Struct':
            vs = simp(w.acc('Struct', 'm_Value', v))
            pd = self.pad(ctx, p, 8)
            return ctx.concat(pd, self.encFrom(vs, I(0), simp(p + ctx.length(pd)))), self.canEncFrom(vs, 0)
        if short == 'DictEntry':
            a, b = simp(w.acc(short, 'm_Value.first', v)), simp(w.acc(short, 'm_Value.second', v))
            pd = self.pad(ctx, p, 8)
            q = simp(p + ctx.length(pd))
            ea = self.enc(a, q)
            return (ctx.concat(pd, ea, self.enc(b, simp(q + ctx.length(ea)))), z3.And(self.canEnc(a), self.canEnc(b)))
        if short == 'Variant':
            sg = simp(w.acc(short, 'm_ContainedSignature', v))
            a = simp(w.acc(short, 'm_Value', v))
            h = self.string_bytes(ctx, sg, 1)
            return (ctx.concat(h, self.enc(a, simp(p + ctx.length(h)))), z3.And(ctx.length(sg) <= 255, self.canEnc(a)))
        if short == 'Array':
            vs = simp(w.acc('Array', 'contents', v))
            p1 = self.pad(ctx, p, 4)
            q = simp(p + ctx.length(p1) + 4)
            p2 = self.pad(ctx, q, self.align_of(ctx, self.elem_code(ctx, v)))
            body = self.encFrom(vs, I(0), simp(q + ctx.length(p2)))
            n = ctx.length(body)
            ctx.assume(n < 2 ** 32)
            return ctx.concat(p1, self.le(ctx, n, 4), p2, body), self.canEncFrom(vs, 0)
        raise KeyError(short)

    def unfold_encFrom(self, ctx, vs, i, p):
        n = ctx.length(vs)
        e = self.enc(ctx.el(vs, i), p)
        ctx.assume(self.encFrom(vs, i, p) == z3.If(i >= n, EMPTY, z3.Concat(e, self.encFrom(vs, i + 1, p + z3.Length(e)))))
        ctx.assume(self.canEncFrom(vs, i) == z3.If(i >= n, True, z3.And(self.canEnc(ctx.el(vs, i)), self.canEncFrom(vs, i + 1))))
