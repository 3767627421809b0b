"""Builds the facts extractor (a rustc driver) if needed and runs it over /repo's working tree."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CFG_REPO', '/repo')
WORK = os.path.join(VERIF, 'work')
DRV = os.path.join(WORK, 'driver', 'release', 'cfgfacts')


def _h(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def driver_hash():
    return _h(glob.glob(VERIF + '/driver/src/*.rs') + [VERIF + '/driver/Cargo.toml'])


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'docs')]
        for f in fs:
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock'):
                out.append(os.path.join(d, f))
    return out


def members():
    """library crates of the workspace"""
    return [p for p in glob.glob(REPO + '/*/src/lib.rs') if os.path.basename(os.path.dirname(os.path.dirname(p))) != 'cfg-regexp-macro']


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def run(cmd, cwd, env, log):
    with open(log, 'ab') as f:
        return subprocess.call(cmd, cwd=cwd, env=env, stdout=f, stderr=f, timeout=800)


def build_driver(log):
    stamp = os.path.join(WORK, 'driver', 'stamp')
    dh = driver_hash()
    if os.path.exists(DRV) and os.path.exists(stamp) and open(stamp).read() == dh:
        return
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, 'driver'))
    env.pop('RUSTFLAGS', None)
    r = run(['cargo', '+nightly', 'build', '--offline', '--release'], VERIF + '/driver', env, log)
    if r != 0:
        raise SystemExit('driver build failed, see ' + log)
    with open(stamp, 'w') as f:
        f.write(dh)


def facts(features=('--all-features',), tag='all'):
    """-> directory with one JSON facts file per crate of the current tree"""
    os.makedirs(WORK, exist_ok=True)
    log = os.path.join(WORK, 'extract.log')
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(log) and os.path.getsize(log) > 1 << 20:
            os.unlink(log)
        build_driver(log)
        key = hashlib.sha256((_h(repo_files()) + driver_hash() + REPO + tag).encode()).hexdigest()[:16]
        out = os.path.join(WORK, 'facts-%s-%s' % (tag, key))
        if os.path.exists(out + '/DONE'):
            os.utime(out)
            return out
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        tgt = os.path.join(WORK, 'target-' + tag)
        env = dict(os.environ, CFGFACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=DRV, CARGO_TARGET_DIR=tgt,
                   LD_LIBRARY_PATH=sysroot() + '/lib', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
        env.pop('RUSTFLAGS', None)
        for attempt in (0, 1):
            # every workspace crate has to go through the driver again
            if attempt:
                shutil.rmtree(tgt, ignore_errors=True)
            for p in glob.glob(tgt + '/debug/.fingerprint/cfg*') + glob.glob(tgt + '/debug/build/cfg*'):
                shutil.rmtree(p, ignore_errors=True)
            r = run(['cargo', '+nightly', 'check', '--offline', '--workspace'] + list(features), REPO, env, log)
            if r != 0:
                raise SystemExit('extraction failed (does /repo build?), see ' + log)
            if len(glob.glob(out + '/*.json')) >= len(members()):
                break
        else:
            raise SystemExit('extraction incomplete, see ' + log)
        open(out + '/DONE', 'w').close()
        olds = sorted(glob.glob(os.path.join(WORK, 'facts-%s-*' % tag)), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        return out


if __name__ == '__main__':
    t = time.time()
    print(facts(), '%.1fs' % (time.time() - t))
