"""Builds the MIR dumper and dumps facts of a corpus crate compiled against /repo."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class BuildError(Exception):
    pass


def _lock(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _hash_tree(h, root, pats=('**/*.rs', '**/Cargo.toml', '**/Cargo.lock', '**/*.md')):
    files = set()
    for p in pats:
        files.update(glob.glob(os.path.join(root, p), recursive=True))
    for f in sorted(files):
        rel = os.path.relpath(f, root)
        if rel.startswith('target') or '/target/' in rel or not os.path.isfile(f):
            continue
        h.update(rel.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())


def repo_hash():
    h = hashlib.sha256()
    for d in ('src', 'deku-derive'):
        _hash_tree(h, os.path.join(REPO, d))
    for f in ('Cargo.toml', 'README.md', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, 'rb') as fh:
                h.update(f.encode() + fh.read())
    return h.hexdigest()[:24]


def env_base():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN',
              'CARGO_ENCODED_RUSTFLAGS', 'RUSTDOCFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def ensure_driver():
    with _lock('driver'):
        h = hashlib.sha256()
        _hash_tree(h, os.path.join(VERIF, 'driver'))
        key = h.hexdigest()[:16]
        out = os.path.join(CACHE, 'mirdump-' + key)
        if os.path.exists(out):
            return out
        td = os.path.join(CACHE, 'driver-target')
        r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', td],
                           cwd=os.path.join(VERIF, 'driver'), env=env_base(), capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('driver build failed:\n' + r.stderr[-4000:])
        for old in glob.glob(os.path.join(CACHE, 'mirdump-*')):
            os.unlink(old)
        shutil.copy2(os.path.join(td, 'release', 'mirdump'), out + '.tmp')
        os.rename(out + '.tmp', out)
        return out


_SYSROOT = None


def sysroot():
    global _SYSROOT
    if _SYSROOT is None:
        _SYSROOT = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env_base(), capture_output=True,
                                  text=True, check=True).stdout.strip()
    return _SYSROOT


def dump(corpus, features='std,bits,descriptive-errors', poly=False, srcdir=None, mono=True, lockname='', crates=None):
    """facts of crate `corpus` (directory under corpus/, or srcdir); returns {crate: path}"""
    src = srcdir or os.path.join(VERIF, 'corpus', corpus)
    h = hashlib.sha256()
    h.update(repo_hash().encode())
    _hash_tree(h, src)
    drv = ensure_driver()
    h.update(os.path.basename(drv).encode() + features.encode() + (REPO + '2' if REPO != '/repo' else REPO).encode() + (b'p' if poly else b''))
    key = '%s-%s' % (corpus, h.hexdigest()[:20])
    out = os.path.join(CACHE, 'facts', key)
    with _lock('facts-' + corpus + '-' + features.replace(',', '_') + lockname):
        done = os.path.join(out, 'done')
        if os.path.exists(out):
            os.utime(out)
        if not os.path.exists(done):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            td = os.path.join(out, 'target')
            e = env_base()
            e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
            e['MIRDUMP_OUT'] = out
            crate = ','.join(crates) if crates else crate_name(src)
            e['MIRDUMP_MONO'] = crate if mono else ''
            e['MIRDUMP_POLY'] = 'deku,deku_derive' if poly else ''
            e['RUSTC_WRAPPER'] = drv
            e['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'
            cmd = ['cargo', '+nightly', 'check', '--offline', '--target-dir', td, '--no-default-features']
            if crates:
                cmd.append('--workspace')
            if features:
                cmd += ['--features', features]
            work = src
            if REPO != '/repo':
                top = os.path.join(out, 'src')
                work = os.path.join(top, os.path.basename(src))
                shutil.copytree(src, work, ignore=shutil.ignore_patterns('target'))
                sym = os.path.join(VERIF, 'corpus', 'derive', 'src', 'sym.rs')
                if os.path.basename(src) == 'impls':
                    os.makedirs(os.path.join(top, 'derive', 'src'))
                    shutil.copy(sym, os.path.join(top, 'derive', 'src'))
                for p in glob.glob(work + '/**/Cargo.toml', recursive=True):
                    t = open(p).read().replace('"/repo', '"' + REPO)
                    open(p, 'w').write(t)
            r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True)
            shutil.rmtree(td, ignore_errors=True)
            if r.returncode != 0:
                raise BuildError('corpus %s [%s] does not build:\n%s' % (corpus, features, r.stderr[-6000:]))
            open(done, 'w').write('ok')
            _prune()
    os.utime(out)
    return {os.path.basename(f).rsplit('.', 2)[0] + '.' + f.rsplit('.', 2)[1]: f for f in glob.glob(out + '/*.json')}


def prefetch(corpus, feats):
    """builds the facts of a corpus in several configurations side by side"""
    from concurrent.futures import ThreadPoolExecutor
    ensure_driver()
    sysroot()
    with ThreadPoolExecutor(max_workers=6) as ex:
        list(ex.map(lambda f: dump(corpus, f), feats))


def crate_name(src):
    for l in open(os.path.join(src, 'Cargo.toml')):
        if l.startswith('name'):
            return l.split('"')[1].replace('-', '_')
    raise BuildError('no crate name')


def _prune(keep=400):
    """drops the oldest facts; other threads and processes may be doing the same"""
    d = os.path.join(CACHE, 'facts')

    def age(x):
        try:
            return os.path.getmtime(x)
        except OSError:
            return 0
    now = time.time()
    xs = sorted(((age(os.path.join(d, x)), os.path.join(d, x)) for x in os.listdir(d)), reverse=True)
    for t, x in xs[keep:]:
        if t and now - t > 3600:
            shutil.rmtree(x, ignore_errors=True)



if __name__ == '__main__':
    ensure_driver()
    print('driver ready')
