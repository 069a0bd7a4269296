"""C15, C22, C25, C26: serials, match rules, the hex codec, bus addresses."""
import z3
from .core import *
from .values import *
from .spec import *
from .task import *
from .contracts import *
from .interp import Machine
from . import models
from .t_types import machine, string_lv

MR = 'DBus::MatchRule'
MSG = 'DBus::Message::'


def lit(m, t):
    return models.lit(m, t)


# ------------------------------------------------------------------ C22
def t_matched(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        rule = LV(m.new_cell('rule', MR, m.fresh_value(MR, 'rule')))
        sig = LV(m.new_cell('signal', MSG + 'Signal', m.fresh_value(MSG + 'Signal', 'signal')))
        R = rule.get(m).f
        H = sig.get(m).f['m_Header'].f
        ctx.inputs += [('rule.' + k, R[k]) for k in ('sender', 'interface', 'member', 'destination', 'path', 'path_namespace')]
        ctx.inputs += [('signal.' + k, H[k]) for k in ('sender', 'interface', 'member', 'destination', 'path')]
        f = world.prog.find(MR + '::isMatched', 'Signal')
        before = [lv.get(m) for lv in (rule, sig)]
        res, x = guarded(m, lambda: m.call_body(f, rule, [sig]))
        ctx.where = f['q']
        ctx.oblige('deciding whether a rule matches never throws', res == 'ok')
        if res != 'ok':
            return
        eq = [z3.Or(R[k] == EMPTY, R[k] == H[k]) for k in ('sender', 'interface', 'member', 'destination', 'path')]
        pn, p = R['path_namespace'], H['path']
        n = ctx.length(pn)
        below = z3.Or(pn == EMPTY, z3.And(z3.PrefixOf(pn, p), z3.Or(
            pn == lit(m, '/'), ctx.length(p) == n, z3.And(ctx.length(p) > n, p[n] == ord('/')))))
        ctx.oblige('a rule matches exactly the signals it describes', x == z3.And(eq + [below]))
    return run


def t_rule_invoke(world):
    """the rule's callback gets exactly the signal"""
    def run(ctx):
        m, sp = machine(world, ctx)
        rule = LV(m.new_cell('rule', MR, m.fresh_value(MR, 'rule')))
        sig = LV(m.new_cell('signal', MSG + 'Signal', m.fresh_value(MSG + 'Signal', 'signal')))
        calls = []
        m.hooks['user-call'] = lambda m, fn, args: calls.append((fn, args))
        cb = rule.get(m).f['callback']
        ctx.assume(m.fn_nonempty(cb))
        f = world.prog.find(MR + '::invoke', 'Signal')
        m.call_body(f, rule, [sig])
        ctx.where = f['q']
        ctx.oblige('the callback of the rule is invoked once with the signal',
                   len(calls) == 1 and calls[0][0] is cb and calls[0][1][0].same(sig))
    return run


# ------------------------------------------------------------------ C15
COUNTER = 'DBus::Message::Base::m_SerialCounter'
CMUTEX = 'DBus::Message::Base::m_SerialCounterMutex'
TOP = 2 ** 32 - 1


class Monitor:
    """Shared state behind one mutex: an outermost acquisition makes the state
    arbitrary within its invariant, every access needs the mutex."""

    def __init__(self, m, mutex, owns, acquire, release, what):
        self.m, self.mutex, self.owns, self.what = m, mutex, owns, what
        self.acquire, self.release = acquire, release
        self.n = 0
        m.hooks['lock'] = self.on_lock
        m.access = self.on_access

    def held(self):
        return any(l.same(self.mutex) for l in self.m.locks)

    def on_lock(self, m, lv, taken):
        if not lv.same(self.mutex):
            return
        m.quiet += 1
        k = sum(l.same(self.mutex) for l in m.locks)
        if taken and k == 1:
            self.n += 1
            self.acquire(m)
        if not taken and k == 0:
            self.release(m)
        m.quiet -= 1

    def on_access(self, m, lv, write):
        if self.owns(lv) and not self.held():
            m.ctx.oblige('%s only touched while its lock is held' % self.what, False, m.loc())


def refers(f, q):
    stack = [f.get('body'), f.get('inits')]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if n.get('q') == q:
                return True
            stack.extend(n.values())
        elif isinstance(n, list):
            stack.extend(n)
    return False


def t_serial_init(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        c = m.global_lv(COUNTER, 'unsigned int').get(m)
        ctx.where = COUNTER
        for k, f in world.prog.functions.items():
            if refers(f, COUNTER) and not f['q'].startswith('DBus::Message::Base::Base'):
                raise Unsupported('the serial counter is used in ' + k)
        ctx.oblige('the counter starts within its invariant', z3.And(c >= 0, c <= TOP))
        # distinctness: k applications of the successor, closed form
        M = TOP
        f = lambda c, k: (c - 1 + k) % M + 1
        succ = lambda c: z3.If(c == M, 1, c + 1)
        x, i, j = ctx.fresh_int('c', 1, TOP), ctx.fresh_int('i', 0), ctx.fresh_int('j', 0)
        ctx.where = 'lemma'
        ctx.oblige('serial lemma: base', f(x, I(0)) == x)
        ctx.oblige('serial lemma: step', f(x, i + 1) == succ(f(x, i)))
        ctx.assume(z3.And(i < j, j - i < M))
        ctx.oblige('serial lemma: less than 2^32-1 steps apart are different', f(x, i) != f(x, j))
    return run


def t_serial(world, f, build):
    """every constructor of a message to be sent takes the next serial"""
    def run(ctx):
        m, sp = machine(world, ctx)
        glv = m.global_lv(COUNTER, 'unsigned int')
        if base(glv.ctype) not in INTS:
            raise Unsupported('the serial counter is not a plain integer')
        mx = m.global_lv(CMUTEX, 'boost::recursive_mutex')
        lo = 0 if z3.is_int_value(glv.get(m)) and glv.get(m).as_long() == 0 else 1
        st = {}

        def acquire(m):
            c = ctx.fresh_int('counter', lo, TOP)
            glv.cell.v = c
            if 'c' not in st:
                st['c'] = c
                ctx.inputs.append(('counter', c))
            else:
                ctx.oblige('the serial is taken in one critical section', False)

        def release(m):
            if 'end' in st:
                return
            st['end'] = glv.get(m)
        mon = Monitor(m, mx, lambda lv: lv.cell is glv.cell, acquire, release, 'the serial counter is')
        cls, args = build(m, ctx)
        o = LV(m.new_cell('message', cls, m.blank(cls)))
        m.run_ctor(f, o, args)
        ctx.where = f['q']
        ctx.oblige('a new message takes a serial from the counter', 'c' in st)
        if 'c' not in st:
            return
        ctx.oblige('the lock of the serial counter is released', not m.locks and 'end' in st)
        c, e = st['c'], st['end']
        s = o.get(m).f['m_Header'].f['serial']
        ctx.oblige('a new message takes the next serial', e == z3.If(c == TOP, 1, c + 1))
        ctx.oblige('the serial of a new message is the one it took', s == (e if lo == 0 else c))
        ctx.oblige('the serial of a new message is not zero', s != 0)
    return run


def serial_tasks(world):
    out = [Task('serial counter', t_serial_init(world))]
    P = world.prog

    def text(m, n):
        return string_lv(m, n, m.ctx.fresh_bytes(n))

    def obj(m, cls, n):
        return LV(m.new_cell(n, cls, m.fresh_value(cls, n)))
    reach = 0
    for short in ('MethodCall', 'MethodReturn', 'Error', 'Signal'):
        cls = MSG + short
        for f in P.by_q.get(cls + '::' + short, []):
            if not f.get('ctor') or f.get('copyctor') or any('Struct' in p['t'] for p in f['params']):
                continue

            def build(m, ctx, f=f, cls=cls):
                a = []
                for i, p in enumerate(f['params']):
                    t = base(p['t'])
                    if t in INTS:
                        v = m.fresh_value(t, p['name'] or 'arg%d' % i)
                        a.append(LV(m.new_cell('arg', t, v)) if is_ref(p['t']) else v)
                    elif t in STRINGS:
                        a.append(text(m, p['name'] or 'arg%d' % i))
                    elif is_ref(p['t']) and t in world.prog.records:
                        a.append(obj(m, t, p['name'] or 'arg%d' % i))
                    elif t in world.prog.records:
                        a.append(m.fresh_value(t, p['name'] or 'arg%d' % i))
                    else:
                        raise Unsupported('parameter of type ' + p['t'])
                return cls, a
            out.append(Task('new %s' % f['key'].split('::', 2)[2], t_serial(world, f, build)))
    return out


# ------------------------------------------------------------------ C26
def t_address(world, fname, env, default):
    """the socket path an address names"""
    def run(ctx):
        m, sp = machine(world, ctx)
        A = ctx.fresh_bytes('address')
        ctx.inputs.append(('address', A))
        absent = ctx.fresh('absent', BOOL)
        p = PtrV('buf', Buf('address', lv=LV(m.new_cell('address', 'std::string', A)), nul=True, cstr=True), I(0))
        arg = NULL if ctx.branch(absent) else p
        names = []

        def getenv(m, name):
            names.append(name)
            return arg
        m.hooks['getenv'] = getenv
        if env:
            f = world.prog.find(fname)
            r = m.call_body(f, None, [])
            ctx.where = f['q']
            ctx.oblige('the address comes from the environment variable ' + env, len(names) >= 1 and z3.And([n == lit(m, env) for n in names]))
        else:
            f = world.prog.find(fname, 'char')
            r = m.call_body(f, None, [arg])
            ctx.where = f['q']
        if arg is NULL:
            ctx.oblige('an absent address gives the documented default', r == lit(m, default))
            return

        def cut(x):
            k = models.find0(ctx, x, lit(m, ',guid='))
            return ctx.extract(x, I(0), k) if ctx.branch(k >= 0) else x
        for pre, head in (('unix:path=', ''), ('unix:abstract=', '\0')):
            if ctx.branch(models.starts(ctx, A, lit(m, pre))):
                n = len(pre)
                rest = ctx.extract(A, I(n), simp(ctx.length(A) - n))
                ctx.oblige('the path after %s, without a guid' % pre, r == ctx.concat(lit(m, head), cut(rest)))
                return
        ctx.oblige('any other address is used as it stands', r == A)
    return run


def address_tasks(world):
    P = 'DBus::Platform::'
    sysd = '/var/run/dbus/system_bus_socket'
    return [Task('getSystemBus(address)', t_address(world, P + 'getSystemBus', None, sysd)),
            Task('getSessionBus(address)', t_address(world, P + 'getSessionBus', None, '')),
            Task('getSystemBus()', t_address(world, P + 'getSystemBus', 'DBUS_SYSTEM_BUS_ADDRESS', sysd)),
            Task('getSessionBus()', t_address(world, P + 'getSessionBus', 'DBUS_SESSION_BUS_ADDRESS', ''))]


# ------------------------------------------------------------------ C25
HEXF = z3.Function('hexFrom', BYTES, INT, BYTES)


def hex_pair(b):
    return [z3.Unit(simp(models.hexdigit(b / 16))), z3.Unit(simp(models.hexdigit(b % 16)))]


def unfold_hex(ctx, s, k):
    n = ctx.length(s)
    ctx.assume(HEXF(s, k) == z3.If(k >= n, EMPTY, z3.Concat(*(hex_pair(ctx.el(s, k)) + [HEXF(s, simp(k + 1))]))))


def t_tohex(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        S, r0 = ctx.fresh_bytes('input'), ctx.fresh_bytes('result')
        ctx.inputs += [('input', S), ('result', r0)]

        def templates(m, L):
            out = []
            for n, s0, get in L.seqs(m, BYTES):
                for n2, i0, gi in L.atoms(m):
                    def inv(m, s0=s0, get=get, i0=i0, gi=gi):
                        i = simp(gi(m))
                        unfold_hex(ctx, S, i)
                        return ctx.concat(get(m), HEXF(S, i)) == ctx.concat(s0, HEXF(S, i0))
                    out.append(('remaining digits %s,%s' % (n, n2), inv))
            return out
        m.templates = [templates]
        f = world.prog.find('DBus::Utils::ConvertBinaryToHexString', 'string', 'string')
        res, inp = string_lv(m, 'result', r0), string_lv(m, 'input', S)
        m.call_body(f, None, [res, inp])
        ctx.where = f['q']
        ctx.oblige('two lower-case hex digits per byte are appended, in order', res.get(m) == ctx.concat(r0, HEXF(S, I(0))))
        ctx.oblige('the input is kept', inp.get(m) == S)
    return run


def t_fromhex(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        X, r0 = ctx.fresh_bytes('bytes'), ctx.fresh_bytes('result')
        ctx.inputs += [('bytes', X), ('result', r0)]
        B = HEXF(X, I(0))
        nx = ctx.length(X)

        def digits(m, lv, k):
            """the two digits at byte k"""
            unfold_hex(ctx, X, k)
            if ctx.branch(k >= nx):
                lv.cell.v = lv._set(m, lv.cell.v, 0, EMPTY)
            else:
                lv.cell.v = lv._set(m, lv.cell.v, 0, ctx.concat(*(hex_pair(ctx.el(X, k)) + [HEXF(X, simp(k + 1))])))

        def templates(m, L):
            out = []
            for n, s0, get in L.seqs(m, BYTES):
                if '.rest' in n:
                    continue
                for n2, q0, gq in L.seqs(m, BYTES):
                    if '.rest' not in n2 or n2 == n:
                        continue

                    def k_of(m, s0=s0, get=get):
                        return simp(ctx.length(get(m)) - ctx.length(s0))
                    out.append(('rest of the digits %s,%s' % (n, n2), lambda m, k=k_of: HEXF(X, k(m)), gq.lv))
                    out.append(('bytes decoded so far within the input %s,%s' % (n, n2), lambda m, k=k_of: z3.And(k(m) >= 0, k(m) <= nx)))

                    def pre(m, s0=s0, get=get, k=k_of):
                        e = ctx.extract_if(X, I(0), k(m))
                        return None if e is None else get(m) == ctx.concat(s0, e)
                    out.append(('bytes decoded so far %s,%s' % (n, n2), pre))
                    L.on_head(lambda m, lv=gq.lv, k=k_of: digits(m, lv, k(m)) if not m.ctx.ex.notes.get('nohead') else None)
            return out
        m.templates = [templates]
        f = world.prog.find('DBus::Utils::ConvertHexStringToBinary', 'string', 'string')
        res, inp = string_lv(m, 'result', r0), string_lv(m, 'input', B)
        unfold_hex(ctx, X, I(0))
        m.call_body(f, None, [res, inp])
        ctx.where = f['q']
        ctx.oblige('decoding the digits of some bytes appends exactly those bytes', res.get(m) == ctx.concat(r0, X))
    return run


# ------------------------------------------------------------------ C23
ELEM = z3.Function('elementEnd', BYTES, INT, BOOL, INT)
KEYS = ('type', 'sender', 'interface', 'member', 'path', 'path_namespace', 'destination')


class RuleSpec:
    """the text of a match rule, read from a position on"""

    def __init__(self, m, s):
        self.m, self.ctx, self.s = m, m.ctx, s
        self.val = {k: z3.Function('value_of_' + k, BYTES, INT, BYTES, BYTES) for k in KEYS}
        self.bad = z3.Function('element_without_value', BYTES, INT, BOOL)

    def end(self, p, q):
        """end of the element, scanning from p inside (q) or outside quotes"""
        s, ctx = self.s, self.ctx
        e = ELEM(s, p, q)
        c = ctx.el(s, p)
        n = ctx.length(s)
        ctx.assume(e == z3.If(p >= n, p, z3.If(z3.And(z3.Not(q), c == 44), p, ELEM(s, simp(p + 1), simp(q != (c == 39))))))
        ctx.assume(z3.Implies(p <= n, z3.And(e >= p, e <= n)))
        return e

    def unfold(self, p, cur):
        """facts about reading on from position p with the values cur so far"""
        ctx, m, s = self.ctx, self.m, self.s
        n = ctx.length(s)
        p = simp(p)
        if ctx.branch(p >= n):
            ctx.assume(z3.Not(self.bad(s, p)))
            for k in KEYS:
                ctx.assume(self.val[k](s, p, cur[k]) == cur[k])
            return
        e = simp(self.end(p, z3.BoolVal(False)))
        nxt = simp(e + 1)
        ctx.assume(p <= e)
        if ctx.branch(e == p):
            ctx.assume(self.bad(s, p) == self.bad(s, simp(p + 1)))
            for k in KEYS:
                ctx.assume(self.val[k](s, p, cur[k]) == self.val[k](s, simp(p + 1), cur[k]))
            return
        x = ctx.extract(s, p, simp(e - p))
        i = models.find0(ctx, x, lit(m, '='))
        if not ctx.branch(i >= 0):
            ctx.assume(self.bad(s, p))
            return
        ctx.assume(self.bad(s, p) == self.bad(s, nxt))
        key = ctx.extract(x, I(0), i)
        v = ctx.extract(x, simp(i + 1), simp(ctx.length(x) - i - 1))
        L = ctx.length(v)
        if ctx.branch(z3.And(L >= 2, ctx.el(v, I(0)) == 39, ctx.el(v, simp(L - 1)) == 39)):
            v = ctx.extract(v, I(1), simp(L - 2))
        for k in KEYS:
            if ctx.branch(models.seq_eq(m, key, lit(m, k))):
                ctx.assume(self.val[k](s, p, cur[k]) == self.val[k](s, nxt, v))
                for j in KEYS:
                    if j != k:
                        ctx.assume(self.val[j](s, p, cur[j]) == self.val[j](s, nxt, cur[j]))
                return
        for k in KEYS:
            ctx.assume(self.val[k](s, p, cur[k]) == self.val[k](s, nxt, cur[k]))


def t_rule_parse(world):
    def run(ctx):
        m, sp = machine(world, ctx)
        s = ctx.fresh_bytes('rule')
        ctx.inputs.append(('rule', s))
        R = RuleSpec(m, s)
        m.ghost['literals by element'] = True
        m.ghost['no generic invariants'] = True
        f = [c for c in world.prog.by_q[MR + '::MatchRule'] if len(c['params']) == 2][0]
        o = LV(m.new_cell('object', MR, m.blank(MR)))
        handler = m.fresh_value(base(f['params'][1]['t']), 'handler')
        n = ctx.length(s)

        def cur(m):
            d = {}
            for k in KEYS:
                v = o.get(m).f.get(k)
                if v is None or not z3.is_expr(v):
                    raise Unsupported('the rule has no member ' + k)
                d[k] = v
            return d

        def templates(m, L):
            out = []
            outer = any(lv.cell is o.cell for lv, _ in L.mods)
            for a, i0, gi in L.atoms(m):
                out.append(('%s within the text' % a, lambda m, gi=gi: z3.And(gi(m) >= 0, gi(m) <= n)))
                out.append(('%s within the text or one past' % a, lambda m, gi=gi: z3.And(gi(m) >= 0, gi(m) <= n + 1)))
                for lv, v in L.mods:
                    if z3.is_expr(v) and v.sort() == BOOL:
                        def inv(m, gi=gi, lv=lv, i0=i0, v=v):
                            return R.end(simp(gi(m)), lv.get(m)) == R.end(i0, v)
                        out.append(('end of the element %s,%s' % (a, lv), inv))
                        L.becomes(gi.lv, lambda m, i0=i0, v=v: R.end(i0, v))
                if not outer:
                    continue
                c0 = cur(m)
                out.append(('element without value from %s' % a, lambda m, gi=gi, i0=i0: R.bad(s, simp(gi(m))) == R.bad(s, i0)))
                for k in KEYS:
                    out.append(('%s from %s' % (k, a), lambda m, gi=gi, i0=i0, k=k, c=c0[k]:
                                R.val[k](s, simp(gi(m)), cur(m)[k]) == R.val[k](s, i0, c)))
                L.on_head(lambda m, gi=gi: R.unfold(gi(m), cur(m)))
            return out
        m.templates = [templates]
        m.measures = lambda m, L: [('%s up' % nm, lambda m, g=g: n + 1 - g(m)) for nm, v, g in L.atoms(m)]
        res, x = guarded(m, lambda: m.run_ctor(f, o, [string_lv(m, 'rule', s), LV(m.new_cell('handler', base(f['params'][1]['t']), handler))]))
        ctx.where = f['q']
        bad = R.bad(s, I(0))
        want = {k: R.val[k](s, I(0), EMPTY) for k in KEYS}
        both = z3.And(want['path'] != EMPTY, want['path_namespace'] != EMPTY)
        if res == 'throw':
            ctx.oblige('a rule is refused only for an element without value or for both path and path_namespace', z3.Or(bad, both))
            ctx.oblige('a rule is refused by a std::exception', exc_matches(x.cls, 'std::exception'))
            return
        ctx.oblige('a rule with an element that has no value is refused', z3.Not(bad))
        ctx.oblige('a rule with both path and path_namespace is refused', z3.Not(both))
        for k in KEYS:
            ctx.oblige('the value of %s is taken exactly' % k, cur(m)[k] == want[k])
        ctx.oblige('the rule keeps its handler', m.fn_id(o.get(m).f['callback']) == m.fn_id(handler))
    return run


def tasks(world, which=('C15', 'C22', 'C25', 'C26')):
    out = []
    if 'C22' in which:
        out += [Task('isMatched', t_matched(world)), Task('MatchRule::invoke', t_rule_invoke(world))]
    if 'C15' in which:
        out += serial_tasks(world)
    if 'C26' in which:
        out += address_tasks(world)
    if 'C25' in which:
        out += [Task('ConvertBinaryToHexString', t_tohex(world)), Task('ConvertHexStringToBinary', t_fromhex(world))]
    if 'C23' in which:
        out += [Task('MatchRule::MatchRule', t_rule_parse(world))]
    return out
