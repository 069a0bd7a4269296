"""C01, C04: marshalling."""
import z3
from .core import *
from .values import *
from .spec import *
from .task import *
from .contracts import *


def contracts(sp):
    return {
        'DBus::Log::write': c_nothing,
        'DBus::Type::getAlignment': c_getAlignment(sp),
        'DBus::Type::extractSignature': c_extractSignature(sp),
        'DBus::Type::getMarshallingSignature': c_getMarshallingSignature(sp),
        'DBus::Type::marshallData': c_marshallData(sp),
    }


def enc_templates(sp):
    """remaining-output invariant of loops that marshal the items of a sequence"""
    def t(m, L):
        out = []
        ctx = m.ctx
        vseqs = [(lv, v) for lv, v in seqs_in_scope(m, sp.VS)]
        for n, s0, get in L.seqs(m, BYTES):
            for n2, i0, gi in L.atoms(m):
                for lv, vs in vseqs:
                    def inv(m, s0=s0, get=get, i0=i0, gi=gi, vs=vs):
                        s, i = get(m), simp(gi(m))
                        p = ctx.length(s)
                        a = sp.encFrom(vs, i, p)
                        b = sp.encFrom(vs, i0, ctx.length(s0))
                        sp.unfold_encFrom(ctx, vs, i, p)
                        sp.unfold_wfFrom(ctx, vs, i)
                        pre = ctx.parts(s0)
                        ps = ctx.parts(s)
                        if len(ps) >= len(pre) and all(x.eq(y) for x, y in zip(pre, ps)):
                            rest = ctx.concat(*ps[len(pre):]) if len(ps) > len(pre) else EMPTY
                            return z3.Concat(rest, a) == b
                        return z3.Concat(s, a) == z3.Concat(s0, b)
                    nm = '%s,%s,%s' % (n, n2, lv)
                    L.becomes(get.lv, lambda m, s0=s0, vs=vs, i0=i0: ctx.concat(s0, sp.encFrom(vs, i0, ctx.length(s0))))
                    out.append(('remaining encoding ' + nm, inv))
                    out.append(('remaining well-formed ' + nm, lambda m, gi=gi, vs=vs: sp.wfFrom(vs, simp(gi(m)))))
                    out.append(('remaining encodable ' + nm, lambda m, gi=gi, vs=vs, i0=i0:
                                sp.canEncFrom(vs, simp(gi(m))) == sp.canEncFrom(vs, i0)))
        return out
    return t


def seqs_in_scope(m, sort):
    """sequence-valued fields of this and local variables"""
    out = []
    fr = m.frames[-1]
    seen = set()

    def visit(lv, v, d=0):
        if z3.is_expr(v) and v.sort() == sort:
            if v.get_id() not in seen:
                seen.add(v.get_id())
                out.append((lv, v))
        elif isinstance(v, StructV) and d < 3:
            for n, x in v.f.items():
                visit(lv.sub(('f', n), ''), x, d + 1)
    for f in [fr]:
        if isinstance(f.this, LV):
            try:
                visit(f.this, f.this.get(m))
            except Unsupported:
                pass
        for x in f.vars.values():
            lv = x.lv if isinstance(x, RefV) else x
            if isinstance(lv, LV):
                try:
                    visit(lv, lv.get(m))
                except Unsupported:
                    pass
    return out


def marshall_task(world, short):
    sp = Spec(world)
    world_contracts = contracts(sp)

    def run(ctx):
        m = Machine(world, ctx)
        m.contracts.update(world_contracts)
        m.templates = [enc_templates(sp)]
        V = ctx.fresh('value', world.Val)
        ctx.inputs.append(('value', V))
        ctx.assume(world.is_(short, V))
        out0 = ctx.fresh_bytes('out', 2 ** 31)
        q = ctx.fresh_int('q', 0, 2 ** 28)
        r = ctx.choose(8)
        ctx.set_len(out0, 8 * q + r)
        ctx.inputs.append(('stream size mod 8', I(r)))
        any_v = m.any_of(V)
        val = LV(m.new_cell('value', 'boost::any', any_v))
        st = LV(m.new_cell('stream', 'DBus::MessageOStream', StructV('DBus::MessageOStream', {'data': out0})))
        sp.unfold_code(ctx, short, V)
        ctx.assume(sp.wf(V))
        sp.unfold_wf(ctx, short, V)
        bound_strings(ctx, sp, short, V)
        f = world.prog.find('DBus::Type::marshallData', 'any', 'MessageOStream')
        res, x = guarded(m, lambda: m.call_body(f, None, [val, st]))
        out = st.get(m).f['data']
        e, can = sp.encoding(ctx, short, V, ctx.length(out0))
        for s in world.vk:
            pass
        ctx.where = 'DBus::Type::marshallData'
        if res == 'ok':
            ctx.oblige('returns only for encodable values', can)
            ctx.oblige('appends exactly the wire bytes of a %s' % short, out == ctx.concat(out0, e))
            ctx.ex.reached['ok'] = 1
        else:
            ctx.oblige('throws only for values that cannot be encoded (%s)' % x.cls, z3.Not(can))
            ctx.oblige('bytes already in the stream are kept', z3.PrefixOf(out0, out))
    return run


def bound_strings(ctx, sp, short, V):
    w = sp.w
    if short in ('String', 'ObjectPath', 'Signature'):
        ctx.assume(z3.Length(w.acc(short, 'm_Value', V)) < 2 ** 31)
    if short == 'Variant':
        ctx.assume(z3.Length(w.acc(short, 'm_ContainedSignature', V)) < 2 ** 31)


def tasks(world, which):
    return [Task('marshallData(%s)' % s, marshall_task(world, s)) for s in which]
