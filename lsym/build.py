"""Builds the harness: LLVM IR of /repo's crate + the harness + std, and the native replay binary."""
import os, re, subprocess, glob, hashlib, fcntl, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LSYM_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('LSYM_BUILD', os.path.join(VERIF, '.build'))
TARGET = 'x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def names():
    """the list of harness entry points, for the replay binary"""
    out = []
    for f in sorted(glob.glob(os.path.join(HARNESS, 'src', '*.rs'))):
        mod = os.path.basename(f)[:-3]
        if mod in ('lib', 'main', 'names', 'intr'):
            continue
        for m in re.finditer(r'pub extern "C-unwind" fn (h_\w+)\(\)', open(f).read()):
            out.append('    ("%s", harness::%s::%s as extern "C-unwind" fn()),\n' % (m.group(1), mod, m.group(1)))
    txt = 'static NAMES: &[(&str, extern "C-unwind" fn())] = &[\n' + ''.join(out) + '];\n'
    p = os.path.join(HARNESS, 'src', 'names.rs')
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)


def run(cmd, env, what):
    e = dict(os.environ)
    e.update(env)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    p = subprocess.run(cmd, cwd=HARNESS, env=e, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stderr[-6000:]))


def fingerprint():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(HARNESS, 'src'), os.path.join(HARNESS, 'stubs')):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    for p in (os.path.join(HARNESS, 'par_rt.c'), os.path.join(REPO, 'Cargo.toml'), os.path.join(HARNESS, 'Cargo.toml'), os.path.join(REPO, 'README.md')):
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def build(unwind=False):
    """-> (list of .ll files, replay binary, replay binary for threads, seconds); unwind: the IR has landing pads"""
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        names()
        stamp = os.path.join(BUILD, 'stamp')
        fp = fingerprint()
        todo = [s for s in ('stamp', 'stamp-unwind') if (s == 'stamp' or unwind) and not (os.path.exists(os.path.join(BUILD, s)) and open(os.path.join(BUILD, s)).read() == fp)]
        flags = '-Awarnings -Ccodegen-units=1 -Copt-level=2 -Cno-prepopulate-passes -Coverflow-checks=on -Cdebug-assertions=off --cfg big_o_verif'
        boot = {'RUSTC_BOOTSTRAP': '1', 'CARGO_INCREMENTAL': '0'}

        def build_ir(kind, panic):
            ir = os.path.join(BUILD, kind)
            for f in glob.glob(os.path.join(ir, '**', '*.ll'), recursive=True):
                if 'harness' in os.path.basename(f) or 'big_o' in os.path.basename(f):
                    os.unlink(f)
            for d in glob.glob(os.path.join(ir, TARGET, 'debug', '.fingerprint', '*')):
                if 'harness' in os.path.basename(d) or 'big-o' in os.path.basename(d):
                    shutil.rmtree(d)
            run(['cargo', 'build', '--offline', '--lib', '-Zbuild-std=std,panic_' + panic, '--target', TARGET, '--target-dir', ir],
                dict(boot, RUSTFLAGS=flags + ' --emit=llvm-ir,link -Cdebuginfo=0 -Cpanic=%s -Csymbol-mangling-version=v0' % panic), 'building the LLVM IR')

        def build_par():
            par = os.path.join(BUILD, 'par')
            os.makedirs(par, exist_ok=True)
            src = open(os.path.join(HARNESS, 'par_rt.c'), 'rb').read()
            rt = os.path.join(par, 'par_rt-%s.o' % hashlib.sha256(src).hexdigest()[:12])
            run(['clang', '-O1', '-c', os.path.join(HARNESS, 'par_rt.c'), '-o', rt], {}, 'building par_rt.c')
            run(['cargo', 'build', '--offline', '--bin', 'replay', '--target', TARGET, '--target-dir', par],
                dict(boot, RUSTFLAGS=flags + ' --cfg lsym_par -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=' + rt), 'building the replay binary for threads')

        def build_native():
            run(['cargo', 'build', '--offline', '--bin', 'replay', '--target-dir', os.path.join(BUILD, 'native')],
                {'CARGO_INCREMENTAL': '0', 'RUSTFLAGS': '-Awarnings --cfg big_o_verif -Copt-level=1'}, 'building the replay binary')
        if todo:
            for s in todo:
                if os.path.exists(os.path.join(BUILD, s)):
                    os.unlink(os.path.join(BUILD, s))
            with ThreadPoolExecutor(4) as ex:
                fs = []
                if 'stamp' in todo:
                    fs += [ex.submit(build_ir, 'ir', 'abort'), ex.submit(build_native), ex.submit(build_par)]
                if 'stamp-unwind' in todo:
                    fs.append(ex.submit(build_ir, 'irunwind', 'unwind'))
                for f in fs:
                    f.result()
            for s in todo:
                open(os.path.join(BUILD, s), 'w').write(fp)
    lls = sorted(glob.glob(os.path.join(BUILD, 'irunwind' if unwind else 'ir', '**', '*.ll'), recursive=True))
    return lls, os.path.join(BUILD, 'native', 'debug', 'replay'), os.path.join(BUILD, 'par', TARGET, 'debug', 'replay'), time.time() - t
