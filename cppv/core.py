"""Path exploration, obligations and solver access.

A task is a Python callable run once per path.  ctx.branch()/ctx.choose()
consult a decision prefix; alternatives are queued and explored by running the
task again.  Every fact a path relies on goes through ctx.assume(), every proof
obligation through ctx.oblige()."""
import os, pickle, subprocess, tempfile, time, traceback
import z3

# solver budgets are resource units (deterministic, unlike wall time)
QUICK = 3000000
PATH = 20000000
FRESH = int(os.environ.get('CPPV_FRESH', '60000000'))
BACKSTOP_MS = 120000
MAX_PATHS = 6000


# Term numbers are used as keys, and z3 reuses the number of a term that is gone:
# a term whose number was asked for stays alive.
_alive = {}


def _get_id(self):
    i = z3.Z3_get_ast_id(self.ctx_ref(), self.as_ast())
    if i not in _alive:
        _alive[i] = self
    return i


z3.AstRef.get_id = z3.ExprRef.get_id = _get_id


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Unsupported(Exception):
    """the code (or a contract instance) is outside what the verifier handles"""


class Obligation:
    __slots__ = ('label', 'where', 'status', 'solver', 'time', 'info', 'task', 'prop')

    def __init__(self, label, where):
        self.label, self.where = label, where
        self.status = 'open'
        self.solver = ''
        self.time = 0.0
        self.info = ''
        self.task = ''


ABS_THROUGH = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_LE, z3.Z3_OP_LT,
               z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_IDIV,
               z3.Z3_OP_MOD}
NONLIN = {z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_MUL}
INT = z3.IntSort()
BOOL = z3.BoolSort()
BYTES = z3.SeqSort(INT)
EMPTY = z3.Empty(BYTES)


def I(n):
    return z3.IntVal(n)


def simp(e):
    return z3.simplify(e)


_nth = {}


def nth_fn(sort):
    f = _nth.get(sort.name() + str(sort.basis()))
    if f is None:
        f = z3.Function('el_' + str(sort.basis()), sort, INT, sort.basis())
        _nth[sort.name() + str(sort.basis())] = f
    return f


def solve(s):
    try:
        return str(s.check())
    except z3.Z3Exception:
        return 'unknown'


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.restarts = 0


# how many processes may run at the same time (set by task.run_all)
TOKENS = None


class Explorer:
    def __init__(self, task_name, fn, deadline=None):
        self.name = task_name
        self.fn = fn
        self.cache = {}
        self.keep = []
        self.learning = False
        self.weak = False
        self.obls = {}
        self.loops = {}
        self.stats = Stats()
        self.notes = {}
        self.deadline = deadline
        self.unsupported = None
        self.world = None
        self.reached = {}
        self.trace = os.environ.get('CPPV_TRACE')

    def run(self):
        t0 = time.time()
        while True:
            try:
                self._explore()
                if not self.learning:
                    break
                self.learning = False
            except Restart as r:
                # find the invariants first, without discharging obligations
                self.learning = True
                self.stats.restarts += 1
                if self.trace:
                    print('  restart:', r)
                self.obls = {}
                self.reached = {}
                if self.stats.restarts > 400:
                    raise Unsupported('loop analysis does not converge: %s' % r)
        self.time = time.time() - t0
        return self

    def _explore(self):
        before = {k: (len(x.modset), set(x.dropped), set(x.used)) for k, x in self.loops.items()}
        again, out = self._work([[]])
        if again:
            if any(k not in before or len(x.modset) != before[k][0] for k, x in self.loops.items()):
                # what failed while a loop's effects were not all known is tried again
                for k, x in self.loops.items():
                    x.dropped = before[k][1] if k in before else set()
                    x.used = before[k][2] if k in before else set()
            raise Restart(again)
        if out:
            raise Unsupported(out)

    def _work(self, stack):
        """runs the paths with these beginnings; hands some of them to helper processes"""
        n = nout = 0
        out = again = None
        helpers = []
        t0 = time.time()
        while stack:
            prefix = stack.pop()
            n += 1
            self.stats.paths += 1
            if n > MAX_PATHS:
                out = out or 'too many paths'
                break
            if self.deadline and time.time() > self.deadline:
                out = out or 'time budget exhausted'
                break
            ctx = Ctx(self, prefix)
            try:
                self.fn(ctx)
            except PathEnd:
                pass
            except Restart as x:
                # the remaining paths are still run: they may teach more
                again = again or str(x)
                if not self.learning:
                    break
            except Unsupported as x:
                # the other paths may still teach the loop analysis something
                out = out or str(x) or 'unsupported'
                nout += 1
                if nout > 20:
                    break
            stack.extend(ctx.pending)
            while len(stack) >= 2 and time.time() - t0 > 0.5 and TOKENS is not None and TOKENS.acquire(False):
                k = (len(stack) + 1) // 2
                # paths are taken from the end: the beginnings left longest have most to explore
                helpers.append(self._helper(stack[0::2]))
                stack = stack[1::2]
        for pid, fd in helpers:
            os.waitpid(pid, 0)
            try:
                os.lseek(fd, 0, 0)
                with os.fdopen(fd, 'rb') as f:
                    r = pickle.load(f)
            except Exception as x:
                out = out or 'helper process died: %r' % (x,)
                continue
            again, out = again or r['again'], out or r['out']
            for k, (ms, dr, us) in r['loops'].items():
                x = self.loops.setdefault(k, r['new']())
                x.modset |= ms
                x.dropped |= dr
                x.used |= us
            for i, (k, o) in enumerate(r['obls']):
                self.obls[k if k[0] == 'inv' else ('helper', pid, i, len(self.obls))] = o
            self.reached.update(r['reached'])
            self.weak = self.weak or r['weak']
            self.stats.paths += r['stats'].paths
            self.stats.queries += r['stats'].queries
            self.stats.solver_time += r['stats'].solver_time
            if r['used'] and self.world:
                for name, d in r['used'].items():
                    getattr(self.world, name).update(d)
        return again, out

    def _helper(self, stack):
        """a forked process that works on these beginnings of paths; (pid, file of its results)"""
        fd = os.memfd_create('helper')
        pid = os.fork()
        if pid:
            return pid, fd
        try:
            r = {}
            try:
                known = set(self.obls)
                self.stats = Stats()
                again, out = self._work(stack)
                r = {'again': again, 'out': out, 'loops': {k: (x.modset, x.dropped, x.used) for k, x in self.loops.items()},
                     'new': type(next(iter(self.loops.values()))) if self.loops else None,
                     'obls': [(k, o) for k, o in self.obls.items() if k not in known],
                     'reached': self.reached, 'weak': self.weak, 'stats': self.stats, 'used': {}}
                if self.world:
                    r['used'] = {n: dict(getattr(self.world, n)) for n in ('used_contracts', 'used_models')}
                    r['used']['used_functions'] = {k: {'q': f.get('q', k)} for k, f in self.world.used_functions.items()}
            except BaseException as x:
                r = {'again': None, 'out': 'internal error %r\n%s' % (x, traceback.format_exc()[-1500:]), 'loops': {}, 'new': None,
                     'obls': [], 'reached': {}, 'weak': True, 'stats': self.stats, 'used': {}}
            with os.fdopen(fd, 'wb') as f:
                pickle.dump(r, f)
        finally:
            TOKENS.release()
            os._exit(0)


class Ctx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.pc = []
        self.pckey = 0
        self.solver = None
        self.nsolver = 0
        self.asolver = None
        self.nabs = 0
        self.sides = set()
        self.side = []
        self.els = set()
        self.linked = set()
        self.axioms = []
        self.naxioms = 0
        self.names = {}
        self.bounds = {}
        self.lens = {}
        self.sx = {}
        self.sgn = {}
        self.composed = {}
        self.memo_b = {}
        self.where = ''
        self.inputs = []
        self.pcset = set()

    # ------------------------------------------------------------ solver
    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
        while self.naxioms < len(self.axioms):
            self.solver.add(self.axioms[self.naxioms])
            self.naxioms += 1
        while self.nsolver < len(self.pc):
            self.solver.add(self.pc[self.nsolver])
            self.nsolver += 1
        return self.solver

    def _abs_solver(self):
        if self.asolver is None:
            self.asolver = z3.SolverFor('QF_LIA') if False else z3.Solver()
            self.asolver.set('rlimit', PATH)
            self.asolver.set('timeout', BACKSTOP_MS)
        while self.nabs < len(self.pc):
            self.asolver.add(self.abs(self.pc[self.nabs]))
            self.nabs += 1
        return self.asolver

    def abs(self, f):
        """arithmetic abstraction (implied by f): sequences by their lengths"""
        c = self.ex.cache.setdefault('abs', {})
        r = c.get(f.get_id())
        if r is not None:
            if r[2] is not None:
                for sc in r[2]:
                    self._side(sc)
            return r[0]
        self.side = []
        g, plain = self._abs(f)
        c[f.get_id()] = (g, plain, self.side)
        self.ex.keep.append(f)
        self.ex.keep.append(g)
        for sc in self.side:
            self._side(sc)
        return g

    def _side(self, sc):
        if sc.get_id() not in self.sides:
            self.sides.add(sc.get_id())
            self.asolver.add(sc)

    def _abs(self, e):
        memo = self.ex.cache.setdefault('abs1', {})
        k = e.get_id()
        got = memo.get(k)
        if got is not None:
            self.side.extend(got[2])
            return got[0], got[1]
        outer, self.side = self.side, []
        g, plain = self._abs0(e)
        memo[k] = (g, plain, self.side)
        self.ex.keep.append(e)
        outer.extend(self.side)
        self.side = outer
        return g, plain

    def _abs0(self, e):
        if z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e):
            return e, True
        d = e.decl().kind()
        ch = e.children()
        if d in ABS_THROUGH or (d in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT) and ch[-1].sort() in (INT, BOOL)):
            if d in NONLIN and not z3.is_int_value(ch[-1]) and d != z3.Z3_OP_MUL or (
                    d == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in ch) > 1):
                return self._abs_const(e), False
            r = [self._abs(c) for c in ch]
            return e.decl()(*[x[0] for x in r]), all(x[1] for x in r)
        if d == z3.Z3_OP_SEQ_LENGTH:
            return self._abs_len(ch[0])
        if d == z3.Z3_OP_EQ and z3.is_seq(ch[0]):
            b = self._abs_const(e)
            l, r = self._abs_len(ch[0])[0], self._abs_len(ch[1])[0]
            self.side.append(z3.Implies(b, l == r))
            return b, False
        if d == z3.Z3_OP_UNINTERPRETED and not ch and e.sort() in (INT, BOOL):
            return e, True
        if d == z3.Z3_OP_UNINTERPRETED and ch:
            return self._abs_uf(e, e.sort(), ''), True
        return self._abs_const(e), d == z3.Z3_OP_UNINTERPRETED

    def _abs_uf(self, e, sort, tag):
        """application of a ghost function: congruence over its integer arguments is kept"""
        ids, args = [], []
        for c in e.children():
            if c.sort() == INT or c.sort() == BOOL:
                args.append(self._abs(c)[0])
            else:
                ids.append(str(c.get_id()))
                self.ex.keep.append(c)
        nm = 'uf#%s%s#%s' % (tag, e.decl().name(), '#'.join(ids))
        self.ex.keep.append(e)
        if not args:
            return z3.Const(nm, sort)
        return z3.Function(nm, *([a.sort() for a in args] + [sort]))(*args)

    def _abs_const(self, e):
        self.ex.keep.append(e)
        return z3.Const('abs#%d' % e.get_id(), e.sort())

    def _abs_len(self, s):
        tot, plain = [], True
        for p in self.parts(s):
            if z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT):
                tot.append(I(1))
            elif z3.is_app_of(p, z3.Z3_OP_ITE):
                c, p1 = self._abs(p.arg(0))
                a, p2 = self._abs_len(p.arg(1))
                b, p3 = self._abs_len(p.arg(2))
                tot.append(z3.If(c, a, b))
                plain = plain and p1 and p2 and p3
            else:
                if p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.num_args():
                    n = self._abs_uf(p, INT, 'len:')
                else:
                    n = z3.Int('len#%d' % p.get_id())
                self.ex.keep.append(p)
                self.side.append(n >= 0)
                tot.append(n)
        if not tot:
            return I(0), True
        return (z3.Sum(tot) if len(tot) > 1 else tot[0]), plain

    def check(self, f, ms=QUICK):
        """satisfiability of pc and f: 'sat' 'unsat' 'unknown' (cached)"""
        key = ('q', self.pckey, f.get_id(), ms)
        r = self.ex.cache.get(key)
        if r is not None:
            return r
        t = time.time()
        a = self._abs_solver()
        g = self.abs(f)
        a.push()
        a.add(g)
        r = solve(a)
        a.pop()
        self.ex.stats.queries += 1
        dt = time.time() - t
        self.ex.stats.solver_time += dt
        if self.ex.trace and dt > 0.7:
            print('   slow abstract %.1fs %s: %s' % (dt, r, ' '.join(str(f).split())[:int(os.environ.get('CPPV_W','300'))]), self.where)
        if r == 'unsat' or self.ex.cache['abs'][f.get_id()][1]:
            self.ex.keep.append(f)
            self.ex.cache[key] = r
            return r
        s = self._solver()
        s.set('rlimit', ms)
        s.set('timeout', BACKSTOP_MS)
        t = time.time()
        s.push()
        s.add(f)
        r = solve(s)
        s.pop()
        self.ex.stats.queries += 1
        dt = time.time() - t
        self.ex.stats.solver_time += dt
        if self.ex.trace and dt > 0.7:
            print('   slow %.1fs %s: %s' % (dt, r, ' '.join(str(f).split())[:int(os.environ.get('CPPV_W','300'))]), self.where)
        if r == 'unknown' and os.environ.get('CPPV_PC'):
            for c in self.pc:
                print('      pc', ' '.join(str(c).split())[:700])
        self.ex.keep.append(f)
        self.ex.cache[key] = r
        return r

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        f = simp(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if f.get_id() in self.pcset:
            return
        if z3.is_false(f):
            raise PathEnd()
        self.pcset.add(f.get_id())
        self.pc.append(f)
        self.ex.keep.append(f)
        k = ('pc', self.pckey, f.get_id())
        v = self.ex.cache.get(k)
        if v is None:
            v = len(self.ex.cache) + 1
            self.ex.cache[k] = v
        self.pckey = v

    def feasible(self):
        return self.check(z3.BoolVal(True)) != 'unsat'

    def valid(self, f, ms=QUICK):
        self.last = ''
        if isinstance(f, bool):
            return f
        f = simp(self.split_eq(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if f.get_id() in self.pcset:
            return True
        self.last = self.check(simp(z3.Not(f)), ms)
        return self.last == 'unsat'

    def valid_again(self, f):
        """a goal the incremental solver left undecided, on its own"""
        f = simp(self.split_eq(f))
        key = ('again', self.pckey, f.get_id())
        r = self.ex.cache.get(key)
        if r is None:
            s = z3.Solver()
            s.set('rlimit', FRESH // 6)
            s.set('timeout', BACKSTOP_MS)
            for p in self.axioms + self.pc:
                s.add(p)
            s.add(simp(z3.Not(f)))
            t = time.time()
            r = solve(s)
            self.ex.stats.queries += 1
            self.ex.stats.solver_time += time.time() - t
            if self.ex.trace:
                print('   again %.1fs %s: %s' % (time.time() - t, r, ' '.join(str(f).split())[:int(os.environ.get('CPPV_W','300'))]), self.where)
            self.ex.keep.append(f)
            self.ex.cache[key] = r
        return r == 'unsat'

    # ------------------------------------------------------------ decisions
    def _decide(self, opts):
        """opts: list of formulas (None: unconditional); returns the chosen index"""
        pos = len(self.taken)
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            if len(opts) == 1:
                feas = [0]
            else:
                feas = []
                for i, f in enumerate(opts):
                    if f is None or self.check(f) != 'unsat':
                        feas.append(i)
                    elif i == len(opts) - 1 and not feas:
                        pass
            if not feas:
                raise PathEnd()
            c = feas[0]
            for a in reversed(feas[1:]):
                self.pending.append(self.taken + [a])
        self.taken.append(c)
        if opts[c] is not None:
            self.assume(opts[c])
        return c

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = simp(z3.Not(c))
        if c.get_id() in self.pcset:
            return True
        if n.get_id() in self.pcset:
            return False
        return self._decide([c, n]) == 0

    def decided(self, cond):
        """True/False when the path settles cond, else None"""
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = simp(z3.Not(c))
        if self.check(n) == 'unsat':
            return True
        if self.check(c) == 'unsat':
            return False
        return None

    def choose(self, k, conds=None):
        return self._decide(conds if conds else [None] * k)

    # ------------------------------------------------------------ terms
    def fresh(self, name, sort=INT):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        v = z3.Const('%s!%d' % (name, n), sort)
        self.ex.keep.append(v)
        return v

    def fresh_int(self, name, lo=None, hi=None):
        v = self.fresh(name)
        if lo is not None or hi is not None:
            self.bounds[v.get_id()] = (lo, hi)
            if lo is not None:
                self.assume(v >= lo)
            if hi is not None:
                self.assume(v <= hi)
        return v

    def fresh_bytes(self, name, maxlen=2 ** 62):
        v = self.fresh(name, BYTES)
        self.assume(z3.Length(v) <= maxlen)
        return v

    def interval(self, e, depth=0):
        """syntactic interval of an Int term"""
        if z3.is_int_value(e):
            n = e.as_long()
            return n, n
        k = e.get_id()
        if k in self.bounds:
            return self.bounds[k]
        m = self.memo_b.get(k)
        if m is not None:
            return m
        if depth > 40:
            return None, None
        d = e.decl().kind()
        r = (None, None)
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            lo, hi = 0, 0
            for c in ch:
                a, b = self.interval(c, depth + 1)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            r = (lo, hi)
        elif d == z3.Z3_OP_SUB:
            lo, hi = self.interval(ch[0], depth + 1)
            for c in ch[1:]:
                a, b = self.interval(c, depth + 1)
                lo = None if lo is None or b is None else lo - b
                hi = None if hi is None or a is None else hi - a
            r = (lo, hi)
        elif d == z3.Z3_OP_UMINUS:
            a, b = self.interval(ch[0], depth + 1)
            r = (None if b is None else -b, None if a is None else -a)
        elif d == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_int_value(ch[0]):
            n = ch[0].as_long()
            a, b = self.interval(ch[1], depth + 1)
            a = None if a is None else a * n
            b = None if b is None else b * n
            r = (a, b) if n >= 0 else (b, a)
        elif d == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            r = (0, ch[1].as_long() - 1)
        elif d == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            a, b = self.interval(ch[0], depth + 1)
            n = ch[1].as_long()
            r = (None if a is None else a // n, None if b is None else b // n)
        elif d == z3.Z3_OP_ITE:
            a, b = self.interval(ch[1], depth + 1)
            c2, d2 = self.interval(ch[2], depth + 1)
            r = (None if a is None or c2 is None else min(a, c2), None if b is None or d2 is None else max(b, d2))
        elif d == z3.Z3_OP_SEQ_LENGTH:
            r = (0, 2 ** 62)
        elif (d == z3.Z3_OP_SEQ_NTH or e.decl().name() == 'el_Int') and ch and ch[0].sort() == BYTES:
            r = (0, 255)
        self.memo_b[k] = r
        return r

    def in_range(self, e, lo, hi):
        a, b = self.interval(e)
        if a is not None and b is not None and a >= lo and b <= hi:
            return True
        return self.valid(z3.And(e >= lo, e <= hi))

    # sequences ---------------------------------------------------------
    def parts(self, s):
        if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT):
            r = []
            for c in s.children():
                r.extend(self.parts(c))
            return r
        if z3.is_app_of(s, z3.Z3_OP_SEQ_EMPTY):
            return []
        return [s]

    def concat(self, *ss):
        sort = ss[0].sort()
        ps = []
        for s in ss:
            ps.extend(self.parts(s))
        if not ps:
            return z3.Empty(sort)
        # merge adjacent extracts of the same sequence
        out = [ps[0]]
        for p in ps[1:]:
            q = out[-1]
            if (z3.is_app_of(p, z3.Z3_OP_SEQ_EXTRACT) and z3.is_app_of(q, z3.Z3_OP_SEQ_EXTRACT)
                    and p.arg(0).eq(q.arg(0)) and self.zero(q.arg(1) + q.arg(2) - p.arg(1))
                    and q.get_id() in self.lens and p.get_id() in self.lens):
                n = simp(q.arg(2) + p.arg(2))
                e = z3.Extract(p.arg(0), q.arg(1), n)
                self.lens[e.get_id()] = n
                self.ex.keep.append(e)
                out[-1] = e
            elif (z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT) and z3.is_app_of(q, z3.Z3_OP_SEQ_EXTRACT) and q.get_id() in self.lens
                    and p.arg(0).get_id() in self.els and p.arg(0).arg(0).eq(q.arg(0))
                    and self.zero(q.arg(1) + q.arg(2) - p.arg(0).arg(1))
                    and self.quick(p.arg(0).arg(1) < self.length(q.arg(0)))):
                n = simp(q.arg(2) + 1)
                e = z3.Extract(q.arg(0), q.arg(1), n)
                self.lens[e.get_id()] = n
                self.ex.keep.append(e)
                out[-1] = e
            else:
                out.append(p)
        if len(out) == 1:
            return out[0]
        r = z3.Concat(*out)
        self.ex.keep.append(r)
        return r

    def zero(self, e):
        e = simp(e)
        return z3.is_int_value(e) and e.as_long() == 0

    def length(self, s):
        tot = []
        for p in self.parts(s):
            if z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT):
                tot.append(I(1))
            elif p.get_id() in self.lens:
                tot.append(self.lens[p.get_id()])
            else:
                n = z3.Length(p)
                tot.append(n)
                if p.num_args() == 0 or True:
                    self.assume(n <= 2 ** 62)
        if not tot:
            return I(0)
        return simp(z3.Sum(tot)) if len(tot) > 1 else simp(tot[0])

    def set_len(self, s, n):
        self.ex.keep.append(s)
        self.lens[s.get_id()] = simp(n)
        self.assume(z3.Length(s) == n)

    def extract(self, s, off, n):
        """subsequence; the caller has established 0<=off, 0<=n, off+n<=len(s)"""
        off, n = simp(off), simp(n)
        if self.zero(n):
            return z3.Empty(s.sort())
        L = self.length(s)
        if self.zero(off) and self.zero(L - n):
            return s
        if z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT) and s.get_id() in self.lens:
            return self.extract(s.arg(0), s.arg(1) + off, n)
        ps = self.parts(s)
        if len(ps) > 1:
            cum = I(0)
            starts = []
            for p in ps:
                starts.append(cum)
                cum = simp(cum + self.length(p))
            starts.append(cum)
            # the part that holds off: last one with start <= off
            for a in range(len(ps)):
                if self.zero(starts[a] - off) or self.quick(starts[a] == off):
                    i = a
                    break
                if self.quick(z3.And(starts[a] <= off, off + n <= starts[a + 1])):
                    return self.extract(ps[a], off - starts[a], n)
            else:
                i = None
            if i is not None:
                out = []
                rest = n
                j = i
                while j < len(ps):
                    if self.zero(rest):
                        return self.concat(*out) if out else z3.Empty(s.sort())
                    lp = self.length(ps[j])
                    if self.zero(rest - lp) or self.quick(rest >= lp):
                        out.append(ps[j])
                        rest = simp(rest - lp)
                        j += 1
                        continue
                    if self.quick(z3.And(rest >= 0, rest <= lp)):
                        out.append(self.extract(ps[j], I(0), rest))
                        return self.concat(*out)
                    break
                else:
                    if self.quick(rest == 0):
                        return self.concat(*out)
            elif True:
                for a in range(len(ps)):
                    if self.quick(z3.And(starts[a] <= off, off < starts[a + 1])):
                        head = self.extract(ps[a], off - starts[a], starts[a + 1] - off)
                        tail = self.concat(*ps[a + 1:]) if a + 1 < len(ps) else z3.Empty(s.sort())
                        rest = simp(n - (starts[a + 1] - off))
                        if self.quick(rest >= 0):
                            return self.concat(head, self.extract(tail, I(0), rest))
                        break
        e = z3.Extract(s, off, n)
        self.set_len(e, n)
        return e

    def extract_if(self, s, off, n):
        """subsequence, or None when its bounds are not known to be valid"""
        if not self.quick(z3.And(off >= 0, n >= 0, off + n <= self.length(s))):
            return None
        return self.extract(s, off, n)

    def quick(self, f):
        return self.valid(f)

    def nth(self, s, i):
        """element i; the caller has established 0<=i<len(s)"""
        i = simp(i)
        if z3.is_app_of(s, z3.Z3_OP_SEQ_UNIT):
            return s.arg(0)
        if z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT) and s.get_id() in self.lens:
            return self.nth(s.arg(0), s.arg(1) + i)
        ps = self.parts(s)
        if len(ps) > 1:
            cum = I(0)
            for p in ps:
                n = self.length(p)
                if z3.is_int_value(i) and z3.is_int_value(cum) and z3.is_int_value(n):
                    if i.as_long() < cum.as_long() + n.as_long():
                        return self.nth(p, i - cum)
                elif self.quick(z3.And(cum <= i, i < cum + n)):
                    return self.nth(p, i - cum)
                elif not self.quick(i >= cum + n):
                    break
                cum = simp(cum + n)
        return self.el_term(s, i)

    def el_term(self, s, i):
        i = simp(i)
        e = nth_fn(s.sort())(s, i)
        if e.get_id() not in self.els:
            self.els.add(e.get_id())
            self.ex.keep.append(e)
            ax = e == s[i]
            self.axioms.append(ax)
            if s.sort() == BYTES:
                self.assume(z3.And(e >= 0, e <= 255))
        return e

    def el(self, s, i):
        """element i as a term (no range knowledge needed)"""
        i = simp(i)
        ps = self.parts(s)
        if z3.is_int_value(i):
            k = i.as_long()
            for j, p in enumerate(ps):
                if not z3.is_app_of(p, z3.Z3_OP_SEQ_UNIT):
                    break
                if j == k:
                    return p.arg(0)
        sub = z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT) and s.get_id() in self.lens
        if (len(ps) > 1 or sub) and self.quick(z3.And(i >= 0, i < self.length(s))):
            return self.nth(s, i)
        e = self.el_term(s, i)
        if sub and e.get_id() not in self.linked:
            self.linked.add(e.get_id())
            self.assume(z3.Implies(z3.And(i >= 0, i < self.length(s)), e == self.el(s.arg(0), s.arg(1) + i)))
        return e

    def update(self, s, i, v):
        """s with element i replaced"""
        n = self.length(s)
        i = simp(i)
        return self.concat(self.extract(s, I(0), i), z3.Unit(v), self.extract(s, i + 1, n - i - 1))

    def split_eq(self, g):
        """an equality of sequences with common ends cancelled (equivalent formula)"""
        if not (z3.is_eq(g) and z3.is_seq(g.arg(0))):
            return g
        a, b = self.parts(g.arg(0)), self.parts(g.arg(1))
        conj = []

        def strip(a, b):
            while a and b:
                x, y = a[0], b[0]
                if x.eq(y):
                    pass
                elif z3.is_app_of(x, z3.Z3_OP_SEQ_UNIT) and z3.is_app_of(y, z3.Z3_OP_SEQ_UNIT):
                    conj.append(x.arg(0) == y.arg(0))
                else:
                    break
                a, b = a[1:], b[1:]
            return a, b
        a, b = strip(a, b)
        a, b = strip(a[::-1], b[::-1])
        a, b = a[::-1], b[::-1]
        sort = g.arg(0).sort()
        if a or b:
            conj.append(self.concat(*a) == self.concat(*b) if a and b else
                        z3.Length(self.concat(*(a or b))) == 0)
        return z3.And(conj) if conj else z3.BoolVal(True)

    # ------------------------------------------------------------ obligations
    def oblige(self, label, goal, where=None):
        """a proof obligation; it is assumed afterwards so that one failure is reported once"""
        ex = self.ex
        w = where if where is not None else self.where
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = simp(self.split_eq(goal))
        if ex.learning:
            if z3.is_false(g):
                raise PathEnd()
            self.assume(g)
            return True
        key = (label, w, self.pckey, g.get_id())
        ob = ex.obls.get(key)
        if ob is None:
            ckey = ('ob', self.pckey, g.get_id())
            ob = Obligation(label, w)
            ob.task = ex.name
            got = ex.cache.get(ckey)
            if got is not None:
                ob.status, ob.solver, ob.time, ob.info = got
            else:
                t = time.time()
                self._discharge(ob, g)
                ob.time = time.time() - t
                ex.cache[ckey] = (ob.status, ob.solver, ob.time, ob.info)
            ex.keep.append(g)
            ex.obls[key] = ob
            if ex.trace and ob.status != 'proved':
                print('   %s: %s [%s] %s' % (ob.status, label, w, ob.info[:400]))
        if ob.status != 'proved' and z3.is_false(g):
            raise PathEnd()
        self.assume(g)
        return ob.status == 'proved'

    def _discharge(self, ob, g):
        if z3.is_true(g):
            ob.status, ob.solver = 'proved', 'simplifier'
            return
        if z3.is_and(g):
            # conjuncts one after the other (equalities of sequences first), each assumed for the next
            parts = sorted(g.children(), key=lambda c: 0 if z3.is_eq(c) and z3.is_seq(c.arg(0)) else 1)
            saved = (list(self.pc), self.pckey, set(self.pcset))
            for c in parts:
                c = simp(self.split_eq(c))
                self._discharge(ob, c)
                if ob.status != 'proved':
                    break
                self.assume(c)
            self.pc, self.pckey, self.pcset = saved
            self.solver = self.asolver = None
            self.nsolver = self.nabs = self.naxioms = 0
            self.sides = set()
            return
        neg = simp(z3.Not(g))
        a = self._abs_solver()
        h = self.abs(neg)
        a.push()
        a.add(h)
        r = solve(a)
        a.pop()
        if r == 'unsat':
            ob.status, ob.solver = 'proved', 'z3'
            return
        s = self._solver()
        s.set('rlimit', PATH)
        s.set('timeout', BACKSTOP_MS)
        s.push()
        s.add(neg)
        t = time.time()
        r = solve(s)
        self.ex.stats.queries += 1
        model = None
        if r == 'sat':
            model = s.model()
        s.pop()
        if self.ex.trace and time.time() - t > 0.7:
            print('   slow ob %.1fs %s: %s' % (time.time() - t, r, ' '.join(str(g).split())[:300]))
        if r == 'unsat':
            ob.status, ob.solver = 'proved', 'z3'
        elif r == 'sat':
            ob.status = 'failed'
            ob.info = self.describe(model, g)
        else:
            s2 = z3.Solver()
            s2.set('rlimit', FRESH)
            s2.set('timeout', BACKSTOP_MS)
            for p in self.axioms + self.pc:
                s2.add(p)
            s2.add(neg)
            r = solve(s2)
            if r == 'unsat':
                ob.status, ob.solver = 'proved', 'z3'
            elif r == 'sat':
                ob.status = 'failed'
                ob.info = self.describe(s2.model(), g)
            else:
                r = cvc5_check(s2)
                if r == 'unsat':
                    ob.status, ob.solver = 'proved', 'cvc5'
                elif r == 'sat':
                    ob.status, ob.info = 'failed', 'cvc5: sat; goal %s' % str(g)[:1500]
                else:
                    ob.status, ob.info = 'unknown', 'no solver decides: %s' % str(g)[:1500]
        self.ex.stats.solver_time += time.time() - t

    def describe(self, model, g):
        out = []
        for n, t in self.inputs:
            try:
                v = model.eval(t, model_completion=False)
                out.append('%s = %s' % (n, str(v)[:300]))
            except Exception:
                pass
        return 'counterexample: ' + '; '.join(out) + ' || goal: ' + ' '.join(str(g).split())[:1200]


def cvc5_check(s):
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--strings-exp', '--rlimit=%d' % 3000000, '--tlimit=60000', f.name],
                               capture_output=True, text=True, timeout=70)
            for line in p.stdout.split():
                if line in ('sat', 'unsat'):
                    return line
        finally:
            os.unlink(f.name)
    except Exception:
        pass
    return 'unknown'
