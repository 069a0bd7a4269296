"""Contracts of the functions of /repo the properties depend on, in the form
the verifier assumes at call sites.  Each one is discharged by a task."""
import z3
from .core import *
from .values import *
from .spec import *


def str_of(lv, m):
    return lv.get(m)


def c_nothing(m, f, this, args):
    """frame: no effect (DBus::Log::write)"""
    return None


def c_getAlignment(sp):
    def c(m, f, this, args):
        s = args[0].get(m)
        return I(sp.align_of(m.ctx, simp(sp.at(m.ctx, s, 0))))
    return c


def c_extractSignature(sp):
    """requires idx <= size; the result is not empty and starts with the character at idx"""
    def c(m, f, this, args):
        s = args[0].get(m)
        i = args[1] if z3.is_expr(args[1]) else args[1].get(m)
        n = m.ctx.length(s)
        m.oblige_safe('extractSignature: position within the signature', z3.And(i >= 0, i <= n))
        r = sp_ext(sp)(s, i)
        m.ctx.assume(z3.And(z3.Length(r) >= 1, z3.Length(r) <= 2 ** 62))
        m.ctx.assume(m.ctx.el(r, I(0)) == sp.at(m.ctx, s, i))
        return r
    return c


def sp_ext(sp):
    return z3.Function('ext', BYTES, INT, BYTES)


def c_getMarshallingSignature(sp):
    def c(m, f, this, args):
        v = args[0].get(m)
        if isinstance(v, AnyV):
            z = m.pack_any(v)
            r = sp.sigOf(z)
            m.ctx.assume(z3.Length(r) <= 2 ** 40)
            m.ctx.assume(sp.code(z) == sp.at(m.ctx, r, 0))
            return r
        return sp.sigsFrom(v, I(0))
    return c


def c_marshallData(sp):
    def c(m, f, this, args):
        ctx = m.ctx
        v = args[0].get(m)
        st = args[1]
        z = m.pack_any(v)
        d = st.sub(('f', 'data'), 'std::string')
        out = d.get(m)
        m.oblige_safe('marshallData: the value is well-formed', sp.wf(z))
        if not ctx.branch(sp.canEnc(z)):
            d.set(m, ctx.concat(out, ctx.fresh_bytes('partial')))
            raise CppThrow('std::length_error')
        p = ctx.length(out)
        e = sp.enc(z, p)
        ctx.assume(z3.Length(e) < 2 ** 32)
        d.set(m, ctx.concat(out, e))
        ctx.assume(ctx.length(d.get(m)) < 2 ** 32)
        return None
    return c
