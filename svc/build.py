"""Compile /repo (current working tree) to LLVM IR and to a native replay binary."""
import os
import shutil
import subprocess
import tempfile
import atexit
import hashlib
import re
from . import llir
from .native import Native

REPO = os.environ.get('SVC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLCHAIN = '1.99.1'
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='svc-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def run(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e.pop('RUSTFLAGS', None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
    return p.stdout.decode(errors='replace')


COMMON = ['--edition', '2021', '-C', 'codegen-units=1', '-C', 'embed-bitcode=no', '--cap-lints', 'allow', '-C',
          'debug-assertions=off', '-C', 'overflow-checks=off']


def start_native():
    """Start building the native replay binary; returns a handle for finish_native."""
    d = os.path.join(scratch(), 'native')
    os.makedirs(d, exist_ok=True)
    sh = ("rustc --edition 2021 --crate-name seuif97 --crate-type rlib %s/src/lib.rs --cap-lints allow -O --out-dir %s"
          " && rustc --edition 2021 --crate-name replay %s/harness/replay.rs --extern seuif97=%s/libseuif97.rlib"
          " --cap-lints allow -O -o %s/replay") % (REPO, d, HERE, d, d)
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    return subprocess.Popen(['sh', '-c', sh], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), d


def finish_native(h):
    out, _ = h[0].communicate(timeout=600)
    if h[0].returncode:
        raise BuildError(out.decode(errors='replace')[-3000:])
    return os.path.join(h[1], 'replay')


def ir_module(features=(), target=None, root=None):
    """LLVM IR of the crate plus the harness instantiating its generic API."""
    d = os.path.join(scratch(), 'ir' + '-'.join(features) + (target or ''))
    os.makedirs(d, exist_ok=True)
    tg = ['--target', target] if target else []
    ft = []
    for f in features:
        ft += ['--cfg', 'feature="%s"' % f]
    run(['rustc', '--crate-name', 'seuif97', '--crate-type', 'rlib', (root or REPO) + '/src/lib.rs', '--emit=llvm-ir,metadata',
         '-C', 'opt-level=0', '--out-dir', d] + COMMON + tg + ft)
    mod = llir.parse_module(open(d + '/seuif97.ll', encoding='utf-8', errors='replace').read())
    if not target:
        run(['rustc', '--crate-name', 'harness', '--crate-type', 'rlib', HERE + '/harness/harness.rs', '--extern',
             'seuif97=%s/libseuif97.rmeta' % d, '--emit=llvm-ir', '-C', 'opt-level=0', '--out-dir', d] + COMMON)
        llir.parse_module(open(d + '/harness.ll', encoding='utf-8', errors='replace').read(), mod)
    return mod


class Binding:
    """A foreign-language interface: its IR, its native process, the IR name of each function."""

    def __init__(self, module, native, entries, faults):
        self.module, self.native, self.entries, self.faults = module, native, entries, faults
        self.proc = Native(native) if native else None


def bindings(kinds):
    return {k: pybinding() if k == 'py' else cbinding(k) for k in kinds}


NAMES = ['pt', 'ph', 'ps', 'hs', 'pv', 'tv', 'th', 'ts', 'px', 'tx', 'hx', 'sx']


def cbinding(kind):
    """The C interface `kind` (cdecl, stdcall).  stdcall exists on 32-bit targets only: there its exported signatures are
    read from the IR for i686, and its bodies from an x86-64 build in which the convention is C."""
    faults = []
    d = os.path.join(scratch(), 'i686-' + kind)
    os.makedirs(d, exist_ok=True)
    try:
        run(['rustc', '--crate-name', 'seuif97', '--crate-type', 'rlib', REPO + '/src/lib.rs', '--emit=llvm-ir', '-C', 'opt-level=0',
             '--out-dir', d, '--target', 'i686-unknown-linux-gnu', '--cfg', 'feature="%s"' % kind] + COMMON)
        ll = open(d + '/seuif97.ll', encoding='utf-8', errors='replace').read()
        cc = {'cdecl': None, 'stdcall': 'x86_stdcallcc'}[kind]
        for n in NAMES:
            m = re.search(r'^define ([^@\n]*)@"?(?:\\01)?_?%s(?:@20)?"?\(([^)]*)\)' % n, ll, re.M)
            if not m:
                faults.append('%s is not exported by the %s interface' % (n, kind))
                continue
            words = m.group(1).split()
            conv = [w for w in words if w.endswith('cc') or w.startswith('cc')]
            args = [a.split()[0] for a in m.group(2).split(',')]
            if conv != ([cc] if cc else []) or words[-1] != 'double' or args != ['double', 'double', 'i32']:
                faults.append('%s of the %s interface is exported as %s(%s), not as a %s function (double, double, int32) -> double'
                              % (n, kind, m.group(1).strip(), m.group(2), kind))
    except BuildError as x:
        if 'may not be installed' not in str(x):
            raise
    root = REPO
    if kind == 'stdcall':
        root = os.path.join(scratch(), 'stdcall-src')
        os.makedirs(root, exist_ok=True)
        shutil.copytree(REPO + '/src', root + '/src', dirs_exist_ok=True)
        if os.path.exists(REPO + '/README.md'):
            shutil.copy(REPO + '/README.md', root)
        for r, _, fs in os.walk(root + '/src'):
            for f in fs:
                if f.endswith('.rs'):
                    t = open(os.path.join(r, f), encoding='utf-8').read()
                    u = re.sub(r'extern\s*"(stdcall|system)(-unwind)?"', 'extern "C"', t)
                    if u != t:
                        open(os.path.join(r, f), 'w', encoding='utf-8').write(u)
    mod = ir_module((kind,), root=root)
    d = os.path.join(scratch(), 'native-' + kind)
    os.makedirs(d, exist_ok=True)
    nat = None
    try:
        run(['rustc', '--edition', '2021', '--crate-name', 'seuif97', '--crate-type', 'rlib', root + '/src/lib.rs', '--cap-lints', 'allow', '-O',
             '--out-dir', d, '--cfg', 'feature="%s"' % kind])
        run(['rustc', '--edition', '2021', '--crate-name', 'replay', HERE + '/harness/replay_c.rs', '--extern', 'seuif97=%s/libseuif97.rlib' % d,
             '--cap-lints', 'allow', '-O', '-o', d + '/replay'])
        nat = d + '/replay'
    except BuildError:
        if not faults:
            raise
    return Binding(mod, nat, {n: '@' + n for n in NAMES}, faults)


def pybinding():
    """The Python extension module, built by cargo as its users build it."""
    d = os.path.join(scratch(), 'py')
    root = d + '/src'
    os.makedirs(root, exist_ok=True)
    for n in ('src', 'benches', 'examples', 'tests'):
        if os.path.isdir(REPO + '/' + n):
            shutil.copytree(REPO + '/' + n, root + '/' + n, dirs_exist_ok=True)
    for n in ('Cargo.toml', 'Cargo.lock', 'README.md', 'build.rs', '.cargo'):
        if os.path.isfile(REPO + '/' + n):
            shutil.copy(REPO + '/' + n, root)
    if not os.path.exists(root + '/Cargo.lock'):
        shutil.copy(HERE + '/harness/python.Cargo.lock', root + '/Cargo.lock')
    run(['cargo', 'rustc', '--offline', '--lib', '--features', 'python', '--', '--emit=llvm-ir,link', '-C', 'opt-level=0', '-C', 'codegen-units=1',
         '-Zshare-generics=no', '-C', 'debuginfo=0', '--cap-lints', 'allow', '-C', 'debug-assertions=off', '-C', 'overflow-checks=off'],
        cwd=root, env={'CARGO_TARGET_DIR': d + '/target', 'CARGO_INCREMENTAL': '0', 'RUSTC_BOOTSTRAP': 'seuif97'})
    deps = d + '/target/debug/deps'
    lls = [f for f in os.listdir(deps) if f.startswith('seuif97') and f.endswith('.ll')]
    sos = [d + '/target/debug/' + f for f in os.listdir(d + '/target/debug') if f == 'libseuif97.so']
    sos += [deps + '/' + f for f in os.listdir(deps) if f.startswith('libseuif97') and f.endswith('.so')]
    rlibs = [d + '/target/debug/' + f for f in os.listdir(d + '/target/debug') if f == 'libseuif97.rlib']
    rlibs += [deps + '/' + f for f in os.listdir(deps) if f.startswith('libseuif97') and f.endswith('.rlib')]
    text = open(deps + '/' + lls[0], encoding='utf-8', errors='replace').read()
    mod = llir.parse_module(text)
    run(['rustc', '--crate-name', 'harness', '--crate-type', 'rlib', HERE + '/harness/harness.rs', '--extern', 'seuif97=' + rlibs[0], '-L',
         'dependency=' + deps, '--emit=llvm-ir', '-C', 'opt-level=0', '--out-dir', d] + COMMON)
    llir.parse_module(open(d + '/harness.ll', encoding='utf-8', errors='replace').read(), mod)
    m = d + '/module'
    os.makedirs(m, exist_ok=True)
    shutil.copy(sos[0], m + '/seuif97.so')
    entries = {}
    for n in NAMES:
        c = re.findall(r'^define [^@\n]*double (@\S*?python_if97%d%s(?:17h[0-9a-f]{16}E)?)\(double [^,)]*, double [^,)]*, i32 [^,)]*\)' % (len(n), n), text, re.M)
        if len(c) == 1:
            entries[n] = c[0]
    faults = []
    p = subprocess.run(['python3', '-c', 'import sys; sys.path.insert(0, %r); import seuif97; print(" ".join(n for n in %r if not callable('
                        'getattr(seuif97, n, None))))' % (m, NAMES)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    out = p.stdout.decode(errors='replace').strip()
    if p.returncode:
        faults.append('the module cannot be imported: ' + out[-300:])
    faults += ['%s is not exported by the Python module' % n for n in out.split()] if not p.returncode else []
    return Binding(mod, ['python3', HERE + '/harness/replay_py.py', m], entries, faults)


def source_digest():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO + '/src')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
