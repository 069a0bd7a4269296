"""Concrete drivers on the real code: witnesses for refuted obligations, and the
bounded stand-in where the verifier cannot decide.  Built from /repo's current
tree with ASan and UBSan."""
import glob, hashlib, os, shutil, subprocess, tempfile, concurrent.futures
from . import program

VERIF = program.VERIF
CXX = ['g++', '-std=gnu++17', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize=alignment',
       '-fno-sanitize-recover=undefined', '-I' + program.REPO + '/src', '-I' + VERIF + '/drivers', '-fno-access-control']
LIBS = ['-lboost_thread', '-lboost_system', '-lboost_chrono', '-lexpat', '-lpthread', '-latomic']


def _compile(args):
    src, obj, opts = args
    p = subprocess.run(CXX + opts + ['-c', src, '-o', obj], capture_output=True, text=True)
    return src, p.returncode, p.stderr[-1500:]


def run(name, prop, seed, tier, log, extra=None):
    """dict(cases, cmd, failed or None, note)"""
    if not name:
        return {'cases': 0, 'cmd': '', 'note': 'no concrete driver for this property', 'failed': None}
    tmp = tempfile.mkdtemp(prefix='cppv-driver-')
    try:
        jobs = []
        for s in sorted(glob.glob(program.REPO + '/src/*.cpp')) + [os.path.join(VERIF, 'drivers', name + '.cpp')]:
            jobs.append((s, os.path.join(tmp, os.path.basename(s) + '.o'), []))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s, rc, err in ex.map(_compile, jobs):
                if rc:
                    return {'cases': 0, 'cmd': '', 'note': 'driver does not build: %s: %s' % (s, err), 'failed': None}
        exe = os.path.join(tmp, 'driver')
        p = subprocess.run(CXX + [j[1] for j in jobs] + LIBS + ['-o', exe], capture_output=True, text=True)
        if p.returncode:
            return {'cases': 0, 'cmd': '', 'note': 'driver does not link: ' + p.stderr[-1500:], 'failed': None}
        secs = 40 if tier == 'quick' else 150
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1', HOME=tmp)
        cmd = [exe, prop, str(seed), str(secs)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs * 2 + 60, cwd=tmp, env=env)
        except subprocess.TimeoutExpired as x:
            so = x.stdout or b''
            so = so.decode('latin-1') if isinstance(so, bytes) else so
            return {'cases': 0, 'cmd': 'drivers/%s.cpp %s %d' % (name, prop, seed),
                    'failed': 'the driver does not terminate; last output:\n' + so[-1500:]}
        out = p.stdout
        cases = 0
        for l in out.splitlines():
            if l.startswith('CASES '):
                cases = int(l.split()[1])
        failed = None
        if p.returncode != 0:
            failed = (out[-3000:] + '\n' + p.stderr[-4000:]).strip() or 'exit code %d' % p.returncode
        r = {'cases': cases, 'cmd': 'drivers/%s.cpp %s %d' % (name, prop, seed), 'bound': 'boundary values and %d s of random inputs' % secs,
             'failed': failed}
        log('  driver %s: %d cases, %s' % (name, cases, 'FAILED' if failed else 'passed'))
        if failed:
            log('   ' + failed[:600].replace('\n', '\n   '))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
