"""Builds a harness of /verif/harness together with the parts of /repo it uses.

Objects are kept in /verif/.cache under two keys: (1) the flags and the contents
of every file the compilation read, (2) the preprocessed text without line
markers and blank lines, so that an edit of comments costs no compilation.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CXX = 'clang++'
UB = 'signed-integer-overflow,float-cast-overflow,bounds,integer-divide-by-zero,shift,bool,enum,return,unreachable,vla-bound,pointer-overflow,builtin,null'
FLAVORS = {
    'asan': ['-O1', '-ftrivial-auto-var-init=pattern', '-gline-tables-only', '-fsanitize=address,' + UB, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-gline-tables-only', '-fsanitize=thread'],
}
LINK = {'asan': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread']}
COMMON = ['-std=c++20', '-Wno-everything', '-DVERIF_CHECK_THROWS=1', '-DVSHIM_FUZZTEST_NO_GTEST=1', '-D_GLIBCXX_ASSERTIONS']
INC = ['-I' + VERIF + '/shim/include', '-I' + VERIF + '/harness', '-I' + REPO]
JNI_INC = ['-I/usr/lib/jvm/java-17-openjdk-amd64/include', '-I/usr/lib/jvm/java-17-openjdk-amd64/include/linux']
ABSL_LIBS = ['-labsl_time', '-labsl_time_zone', '-labsl_civil_time', '-labsl_base', '-labsl_raw_logging_internal',
             '-labsl_spinlock_wait', '-labsl_int128', '-labsl_throw_delegate', '-labsl_strings', '-labsl_strings_internal',
             '-labsl_log_severity', '-lpthread']


class BuildError(Exception):
    pass


_hash = {}


def fhash(p):
    if p not in _hash:
        try:
            with open(p, 'rb') as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[p] = 'missing'
    return _hash[p]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:40]


_inc_re = re.compile(r'^\s*#\s*include\s*"([^"]+)"', re.M)
_includes = {}


def includes(path):
    if path not in _includes:
        try:
            with open(path, errors='replace') as f:
                _includes[path] = _inc_re.findall(f.read())
        except OSError:
            _includes[path] = []
    return _includes[path]


def resolve(inc, frm):
    for base in (os.path.dirname(frm), VERIF + '/shim/include', VERIF + '/harness', REPO):
        p = os.path.join(base, inc)
        if os.path.isfile(p):
            return os.path.normpath(p)
    return None


def closure(roots):
    """The .cc files reached from roots, following includes and the x.h -> x.cc convention."""
    seen, todo, cc = set(), list(roots), []
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        if p.endswith('.cc'):
            cc.append(p)
        for inc in includes(p):
            q = resolve(inc, p)
            if not q or q in seen:
                continue
            todo.append(q)
            if q.endswith('.h') and q.startswith(REPO + '/ink/'):
                s = q[:-2] + '.cc'
                if os.path.isfile(s):
                    todo.append(s)
    return sorted(cc)


def all_lib_sources():
    out = []
    for p in glob.glob(REPO + '/ink/**/*.cc', recursive=True):
        b = os.path.basename(p)
        if b.endswith(('_test.cc', '_benchmark.cc')) or '/skia/native/' in p or '/jni/' in p:
            continue
        if re.search(r'(fuzz_domains|type_matchers|test_matchers|test_helpers|_test_)', b):
            continue
        out.append(p)
    return sorted(out)


def atomic(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, t = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    os.replace(t, path)


def parse_deps(path):
    with open(path) as f:
        t = f.read().replace('\\\n', ' ')
    t = t.split(':', 1)[1] if ':' in t else ''
    ds = set()
    for d in t.split():
        d = os.path.normpath(d)
        if d.startswith((REPO + '/', VERIF + '/')):
            ds.add(d)
    return sorted(ds)


def rel(p):
    for base, n in ((REPO, 'repo'), (VERIF, 'verif')):
        if p.startswith(base + '/'):
            return n + p[len(base):]
    return p


def compile_one(src, flavor, extra=()):
    """-> (object path or None, error text, what happened)"""
    flags = COMMON + FLAVORS[flavor] + INC + list(extra)
    if src.startswith(VERIF + '/harness/'):
        flags.append('-g0')  # saves a quarter of its compilation
    ftxt = ' '.join(flags).replace(REPO, '$R').replace(VERIF, '$V')
    base = os.path.join(CACHE, flavor)
    tag = sha(rel(src), ftxt)
    depf = os.path.join(base, 'deps', tag)

    def key1(deps):
        return sha('k1', ftxt, rel(src), *[rel(d) + '=' + fhash(d) for d in deps])
    if os.path.exists(depf):
        deps = [d.replace('$R', REPO).replace('$V', VERIF) for d in json.load(open(depf))]
        k1 = os.path.join(base, 'k1', key1(deps))
        if os.path.exists(k1):
            o = os.path.join(base, 'obj', open(k1).read().strip())
            if os.path.exists(o):
                return o, '', 'hit'
    with tempfile.TemporaryDirectory() as td:
        d = os.path.join(td, 'd')
        r = subprocess.run([CXX, *flags, '-E', '-MD', '-MF', d, src], capture_output=True)
        if r.returncode:
            return None, r.stderr.decode(errors='replace'), 'failed'
        lines = [l.strip() for l in r.stdout.split(b'\n')]
        text = b'\n'.join(l for l in lines if l and not l.startswith(b'#'))
        text = text.replace(REPO.encode() + b'/', b'$R/').replace(VERIF.encode() + b'/', b'$V/')
        deps = parse_deps(d)
        k2 = sha('k2', ftxt, rel(src), text) + '.o'
        obj = os.path.join(base, 'obj', k2)
        how = 'same-text'
        if not os.path.exists(obj):
            o = os.path.join(td, 'o.o')
            r = subprocess.run([CXX, *flags, '-c', src, '-o', o], capture_output=True)
            if r.returncode:
                return None, r.stderr.decode(errors='replace'), 'failed'
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            with open(o, 'rb') as f:
                atomic(obj, f.read())
            how = 'compiled'
        atomic(depf, json.dumps([x.replace(REPO + '/', '$R/').replace(VERIF + '/', '$V/') for x in deps]))
        atomic(os.path.join(base, 'k1', key1(deps)), k2)
        return obj, '', how


def extra_flags(src):
    e = []
    t = ''
    if '/jni/' in src or src.endswith('_jni.cc') or 'h_jni' in os.path.basename(src):
        e += JNI_INC
    return e


def build(harness, flavor='asan', extra_src=()):
    """Builds /verif/harness/<harness>.cc; returns (executable, stats)."""
    root = os.path.join(VERIF, 'harness', harness + '.cc')
    shim = sorted(glob.glob(VERIF + '/shim/*.cc'))
    if harness == 'h_jni':  # the bridge is reached by symbol names only
        extra_src = [*extra_src, *sorted(glob.glob(REPO + '/ink/**/jni/*.cc', recursive=True))]
    srcs = closure([root, *shim, *extra_src])
    stats = {'hit': 0, 'same-text': 0, 'compiled': 0, 'failed': 0}
    objs, errs = [], []

    def run(list_):
        # Long compilations first.
        list_ = sorted(list_, key=lambda p: -os.path.getsize(p))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s, (o, e, how) in zip(list_, ex.map(lambda s: compile_one(s, flavor, extra_flags(s)), list_)):
                stats[how] += 1
                if o:
                    objs.append((s, o))
                else:
                    errs.append((s, e))

    run(srcs)
    if any(s == root for s, _ in errs):
        raise BuildError('\n'.join(e for _, e in errs)[-6000:])

    def link():
        hobj = [o for s, o in objs if s == root or s.startswith(VERIF)]
        lobj = sorted({o for s, o in objs if not (s == root or s.startswith(VERIF))})
        k = sha('link', flavor, *sorted(hobj), *lobj)
        exe = os.path.join(CACHE, flavor, 'bin', harness + '-' + k[:16])
        if os.path.exists(exe):
            return exe, ''
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        with tempfile.TemporaryDirectory(dir=os.path.dirname(exe)) as td:
            ar = os.path.join(td, 'libink.a')
            if lobj:
                subprocess.run(['ar', 'rcsT', ar, *lobj], check=True, capture_output=True)
            r = subprocess.run([CXX, *LINK[flavor], *hobj, *([ar] if lobj else []), *ABSL_LIBS, '-o', os.path.join(td, 'x')], capture_output=True)
            if r.returncode:
                return None, r.stderr.decode(errors='replace')
            os.replace(os.path.join(td, 'x'), exe)
        for old in glob.glob(os.path.join(CACHE, flavor, 'bin', harness + '-*')):
            if old != exe:
                os.unlink(old)
        return exe, ''

    exe, e = link()
    if not exe:
        more = [s for s in all_lib_sources() if s not in srcs]
        run(more)
        exe, e2 = link()
        if not exe:
            raise BuildError((e2 + '\n' + '\n'.join(x for _, x in errs))[-6000:])
    stats['sources'] = len(srcs)
    return exe, stats


if __name__ == '__main__':
    for h in sys.argv[1:]:
        fl = 'asan'
        if ':' in h:
            h, fl = h.split(':')
        exe, st = build(h, fl)
        print(h, fl, exe, st)
