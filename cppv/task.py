"""Verification tasks: one task = one function (or one case of it) under contract."""
import os, signal, time, traceback, multiprocessing, queue
import z3
from .core import *
from .values import *
from .interp import Machine, World
from . import core, program, models


class Task:
    def __init__(self, name, fn, budget=240):
        self.name, self.fn, self.budget = name, fn, budget


class Result:
    """picklable outcome of a task"""
    def __init__(self, name):
        self.name = name
        self.obls = []        # (label, where, status, solver, time, info)
        self.unsupported = ''
        self.error = ''
        self.paths = self.queries = self.restarts = 0
        self.solver_time = self.time = 0.0
        self.functions = {}
        self.contracts = {}
        self.models = {}
        self.reached = {}


def run_task(world, task):
    r = Result(task.name)
    ex = None
    t0 = time.time()
    try:
        z3.set_param('smt.random_seed', 0)
        ex = Explorer(task.name, task.fn, deadline=t0 + task.budget)
        ex.world = world
        ex.run()
    except Unsupported as x:
        r.unsupported = str(x) or 'unsupported'
    except program.ExtractionError as x:
        r.unsupported = 'extraction: %s' % x
    except RecursionError:
        r.unsupported = 'recursion limit'
    except z3.Z3Exception as x:
        r.unsupported = 'solver: %s' % x
        r.error = traceback.format_exc()[-3000:]
    except CONTROL as x:
        r.unsupported = 'control flow leaves the task: %r %s' % (x, getattr(x, 'cls', ''))
    except Exception:
        r.unsupported = 'internal error'
        r.error = traceback.format_exc()[-3000:]
    if ex is not None:
        for o in ex.obls.values():
            if r.unsupported and o.status == 'failed':
                # the analysis is incomplete: what it refutes may be an artefact
                o.status = 'unknown'
            r.obls.append((o.label, o.where, o.status, o.solver, o.time, o.info))
        st = ex.stats
        r.paths, r.queries, r.restarts, r.solver_time = st.paths, st.queries, st.restarts, st.solver_time
        r.reached = dict(ex.reached)
    r.time = time.time() - t0
    r.functions = {k: f.get('q', k) for k, f in world.used_functions.items()}
    r.contracts = dict(world.used_contracts)
    r.models = dict(world.used_models)
    return r


def _child(world, task, conn):
    os.setpgrp()
    try:
        world.used_functions.clear()
        world.used_models.clear()
        world.used_contracts.clear()
        conn.send(run_task(world, task))
    except BaseException as x:
        r = Result(task.name)
        r.unsupported = 'task process: %r' % (x,)
        try:
            conn.send(r)
        except Exception:
            pass
    conn.close()
    os._exit(0)


def run_all(world, tasks, jobs=8, overall=700, verbose=False):
    """each task in its own process, at most jobs at a time"""
    mp = multiprocessing.get_context('fork')
    todo = sorted(tasks, key=lambda t: -getattr(t, 'weight', 0))
    todo = list(todo)
    running = []
    out = {}
    core.TOKENS = tokens = mp.Semaphore(jobs)

    def stop(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
        p.join()
        tokens.release()
    t_end = time.time() + overall
    while todo or running:
        while todo and len(running) < jobs and time.time() < t_end and (tokens.acquire(False) or not running):
            t = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(world, t, b))
            p.start()
            b.close()
            running.append((t, p, a, time.time()))
        if todo and time.time() >= t_end:
            for t in todo:
                r = Result(t.name)
                r.unsupported = 'time budget exhausted before the task started'
                out[t.name] = r
            todo = []
        time.sleep(0.02)
        keep = []
        for t, p, a, t0 in running:
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = Result(t.name)
                    r.unsupported = 'task process died'
                p.join()
                tokens.release()
                out[t.name] = r
                if verbose:
                    print(summary(r), flush=True)
            elif not p.is_alive() or time.time() - t0 > t.budget + 45 or time.time() > t_end + 60:
                if a.poll():
                    keep.append((t, p, a, t0))
                    continue
                stop(p)
                r = Result(t.name)
                r.unsupported = 'time or memory budget exhausted'
                out[t.name] = r
                if verbose:
                    print(summary(r), flush=True)
            else:
                keep.append((t, p, a, t0))
        running = keep
    return [out[t.name] for t in tasks]


def summary(r):
    n = len(r.obls)
    bad = [o for o in r.obls if o[2] != 'proved']
    return '%-42s %4d obl %3d bad  %4d paths %5d queries %6.1fs %s' % (
        r.name, n, len(bad), r.paths, r.queries, r.time, ('UNSUPPORTED ' + r.unsupported) if r.unsupported else '')


def guarded(m, fn):
    """runs code; returns ('ok', value) or ('throw', CppThrow)"""
    try:
        return 'ok', fn()
    except CppThrow as x:
        return 'throw', x
