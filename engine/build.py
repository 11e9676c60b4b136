"""Build the code under test and the harness from /repo's current tree, in a scratch directory."""
import os, shutil, subprocess, sys, tempfile, atexit
from .symex import Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MAZTH_REPO', '/repo')
TC = 'stable-x86_64-unknown-linux-gnu'

COMMON = ['-C', 'codegen-units=1', '-C', 'no-vectorize-slp', '-C', 'no-vectorize-loops', '-C', 'panic=abort',
          '-C', 'embed-bitcode=no', '-A', 'warnings']


class BuildError(Exception):
    pass


def rustc(args, cwd):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TC)
    p = subprocess.run(['rustc'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('rustc failed:\n' + p.stdout[-4000:])


def build():
    """-> (Program, path of the optimised cdylib, path of the debug cdylib)"""
    d = tempfile.mkdtemp(prefix='mazth-ck-')
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    texts = []
    libs = []
    for mode, flags in (('opt', ['-C', 'opt-level=2']), ('dbg', ['-C', 'opt-level=0', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on'])):
        w = os.path.join(d, mode)
        os.mkdir(w)
        emit = 'llvm-ir,link,metadata' if mode == 'opt' else 'link,metadata'
        rustc(['--edition', '2015', '--crate-type', 'rlib', '--crate-name', 'mazth'] + COMMON + flags +
              ['--emit=' + emit, os.path.join(REPO, 'lib/mod.rs'), '--out-dir', '.'], w)
        emit = 'llvm-ir,link' if mode == 'opt' else 'link'
        rustc(['--edition', '2021', '--crate-type', 'cdylib', '--crate-name', 'h'] + COMMON + flags +
              ['--emit=' + emit, os.path.join(HERE, 'harness/src/lib.rs'), '--extern', 'mazth=libmazth.rlib', '--out-dir', '.'], w)
        libs.append(os.path.join(w, 'libh.so'))
        if mode == 'opt':
            for n in ('mazth', 'h'):
                with open(os.path.join(w, n + '.ll')) as f:
                    texts.append((n, f.read()))
    return Program(texts), libs[0], libs[1]
