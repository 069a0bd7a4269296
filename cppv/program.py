"""Extraction: the code under verification, as clang sees it.

astexport (tool/astexport.cpp) is run on every translation unit of /repo/src on
every run; this module loads its output into one program: functions by fully
qualified key, records, globals."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CPPV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXPORT = os.path.join(BUILD, 'astexport')
RESDIR = '/usr/lib/llvm-18/lib/clang/18'
FLAGS = ['-std=gnu++17', '-I' + REPO + '/src', '-resource-dir=' + RESDIR]


class ExtractionError(Exception):
    pass


def build_exporter():
    src = os.path.join(VERIF, 'tool', 'astexport.cpp')
    stamp = EXPORT + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(EXPORT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    cxx = [c for c in cxx if not c.startswith('-std=')]
    tmp = EXPORT + '.%d' % os.getpid()
    subprocess.check_call(['/usr/bin/clang++-18', '-O1', '-std=c++17', '-fno-rtti'] + cxx +
                          [src, '-o', tmp, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1',
                           '/usr/lib/llvm-18/lib/libLLVM-18.so'])
    os.rename(tmp, EXPORT)
    with open(stamp, 'w') as f:
        f.write(h)


_ALLOC = re.compile(r', std::allocator<')


def _strip_template_arg(s, marker):
    """removes ', std::allocator<...>' style defaulted arguments, balanced"""
    out = []
    i = 0
    while True:
        j = s.find(marker, i)
        if j < 0:
            out.append(s[i:])
            return ''.join(out)
        out.append(s[i:j])
        k = j + len(marker)
        d = 1
        while d:
            c = s[k]
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            k += 1
        i = k


def normalise(text):
    text = text.replace('std::char_traits<unsigned char>', 'std::char_traits<u>')
    for m in (', std::allocator<', ', std::less<', ', std::default_delete<'):
        text = _strip_template_arg(text, m)
    text = text.replace('std::basic_string<char, std::char_traits<char>>', 'std::string')
    text = text.replace('std::basic_string<unsigned char, std::char_traits<u>>', 'std::ustring')
    for n in ('ostream', 'istream', 'stringstream', 'istringstream', 'ostringstream', 'ios'):
        text = text.replace('std::basic_%s<char, std::char_traits<char>>' % n, 'std::' + n)
        text = text.replace('std::basic_%s<char>' % n, 'std::' + n)
    return text


class Program:
    def __init__(self):
        self.functions = {}
        self.by_q = {}
        self.records = {}
        self.globals = {}
        self.errors = {}

    def add(self, unit, d):
        for r in d['records']:
            self.records.setdefault(r['q'], r)
        for g in d['globals']:
            if 'init' in g or g['q'] not in self.globals:
                self.globals[g['q']] = g
        for f in d['functions']:
            if f['key'] in self.functions:
                continue
            f['unit'] = unit
            self.functions[f['key']] = f
            self.by_q.setdefault(f['q'], []).append(f)

    def find(self, q, *params, const=None):
        """the function with this qualified name whose parameter types contain the given fragments"""
        c = [f for f in self.by_q.get(q, [])
             if len(f['params']) == len(params) and all(p in a['t'] for p, a in zip(params, f['params']))]
        if len(c) != 1:
            raise ExtractionError('%s(%s): %d candidates' % (q, ', '.join(params), len(c)))
        return c[0]


def _number(node, unit, cnt):
    # ids of local declarations and nodes are made unique across units
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if 's' in n or 'k' in n:
                cnt[0] += 1
                n['n'] = (unit, cnt[0])
            if 'id' in n:
                n['id'] = (unit, n['id'])
            stack.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            stack.extend(v for v in n if isinstance(v, (dict, list)))


def _export(path):
    p = subprocess.run([EXPORT, REPO + '/src', path] + FLAGS, capture_output=True, text=True)
    if p.returncode != 0:
        return path, None, p.stderr[-2000:]
    return path, p.stdout, ''


def load():
    build_exporter()
    prog = Program()
    units = sorted(glob.glob(REPO + '/src/*.cpp'))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for path, text, err in ex.map(_export, units):
            unit = os.path.basename(path)
            if text is None:
                prog.errors[unit] = err
                continue
            d = json.loads(normalise(text))
            _number(d['functions'], unit, [0])
            _number(d['globals'], unit, [10 ** 9])
            prog.add(unit, d)
    if prog.errors:
        raise ExtractionError('clang cannot parse: ' + '; '.join('%s: %s' % (k, v[-300:]) for k, v in prog.errors.items()))
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.functions), len(p.records), len(p.globals), time.time() - t)
    kinds = {}
    calls = {}
    def walk(n):
        if isinstance(n, dict):
            k = n.get('k') or n.get('s')
            if k:
                if k == 'Cast': k = 'Cast:' + n['ck']
                if k == 'Unsupported': k += n['what']
                kinds[k] = kinds.get(k, 0) + 1
            if 'f' in n and isinstance(n['f'], dict) and not n['f'].get('user'):
                calls[n['f']['key']] = calls.get(n['f']['key'], 0) + 1
            for v in n.values(): walk(v)
        elif isinstance(n, list):
            for v in n: walk(v)
    for f in p.functions.values():
        walk(f.get('body')); walk(f.get('inits'))
    print(kinds)
    if len(sys.argv) > 1:
        for k, v in sorted(calls.items()): print(v, k[:220])
