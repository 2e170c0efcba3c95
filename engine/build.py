"""Compiles /repo and the harness: LLVM IR for the engine, shared libraries for replay."""
import os
import re
import glob
import shutil
import subprocess
import tempfile
import atexit
from llir import Program

HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
_tmp = []
REPO = os.environ.get('B2_REPO')      # development only: another tree than /repo
_harness = [None]


def tmpdir():
    d = tempfile.mkdtemp(prefix='b2sym.')
    _tmp.append((os.getpid(), d))
    return d


@atexit.register
def _clean():
    for pid, d in _tmp:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


def harness():
    if not REPO:
        return HARNESS
    if not _harness[0]:
        d = os.path.join(tmpdir(), 'harness')
        shutil.copytree(HARNESS, d, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(d, 'Cargo.toml')
        s = open(p).read().replace('"/repo"', '"%s"' % REPO)
        open(p, 'w').write(s)
        _harness[0] = d
    return _harness[0]


class BuildError(Exception):
    pass


def cargo(target, release=False, std=True, ir=True):
    env = dict(os.environ)
    env['RUSTUP_TOOLCHAIN'] = 'stable'
    env['CARGO_TARGET_DIR'] = target
    env['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTFLAGS'):
        env.pop(k, None)
    if ir:
        env['RUSTC_BOOTSTRAP'] = '1'
        env['RUSTFLAGS'] = '--emit=llvm-ir,link -Cno-prepopulate-passes -Zshare-generics=n -Cdebuginfo=0'
    cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(harness(), 'Cargo.toml')]
    if release:
        cmd.append('--release')
    if not std:
        cmd.append('--no-default-features')
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('cargo build failed:\n' + r.stdout.decode(errors='replace')[-4000:])


_progs = {}


def program(std=True, release=False):
    """-> llir.Program of the harness, the crate and its dependencies"""
    k = (std, release)
    if k in _progs:
        return _progs[k]
    d = tmpdir()
    cargo(d, release=release, std=std)
    ll = sorted(glob.glob(os.path.join(d, 'release' if release else 'debug', 'deps', '*.ll')))
    if not any('blake2s_simd' in p for p in ll):
        raise BuildError('no IR produced')
    p = Program(ll)
    p.ir_bytes = sum(os.path.getsize(x) for x in ll)
    _progs[k] = p
    shutil.rmtree(d, ignore_errors=True)
    return p


def library(release, std=True):
    """-> path of the native cdylib"""
    d = tmpdir()
    cargo(d, release=release, std=std, ir=False)
    return os.path.join(d, 'release' if release else 'debug', 'libharness.so')
