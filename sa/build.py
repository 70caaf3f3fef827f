"""Compile /repo's current sources plus the analysis entry points to LLVM IR (never to a program)."""
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), 'harness')
CLANG = '/usr/bin/clang++-18'
BIN = '/usr/lib/llvm-18/bin/'


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


def sources():
    """library sources, as CMakeLists.txt lists them: every source/*.cxx"""
    d = os.path.join(REPO, 'source')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cxx'))


def bits_sources(n):
    d = os.path.join(REPO, 'source', 'bits%d' % n)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cxx'))


def versions():
    d = os.path.join(REPO, 'source')
    return sorted(int(f[4:]) for f in os.listdir(d) if f.startswith('bits') and f[4:].isdigit())


INLINE = ('__gnu_cxx::__normal_iterator', '__gnu_cxx::operator')


def compile_ll(n=16, harness=('api.cxx',), extra=(), parts=None):
    """-> text of the linked IR for Unicode version n"""
    with tempfile.TemporaryDirectory(prefix='saverif.') as tmp:
        flags = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w',
                 '-I' + os.path.join(REPO, 'source', 'bits%d' % n), '-I' + os.path.join(REPO, 'source'),
                 '-I' + os.path.join(REPO, 'interface')] + list(extra)
        srcs = parts if parts is not None else sources() + bits_sources(n)
        srcs = list(srcs) + [os.path.join(HARNESS, h) for h in tuple(harness) + ('fill.cxx',)]

        def comp(i):
            o = os.path.join(tmp, '%d.ll' % i)
            sh([CLANG] + flags + ['-S', '-emit-llvm', '-o', o, srcs[i]])
            return o
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(comp, range(len(srcs))))
        linked = os.path.join(tmp, 'all.ll')
        sh([BIN + 'llvm-link', '-S', '-o', linked] + outs)
        opt = os.path.join(tmp, 'opt.ll')
        sh([BIN + 'opt', '-S', '-passes=sroa', '-o', opt, linked])
        return open(opt).read()


def parse(text):
    import irparse
    return irparse.Module(text)


def module(n=16, harness=('api.cxx',), extra=(), parts=None):
    return parse(compile_ll(n, harness, extra, parts))


if __name__ == '__main__':
    m = module(int(sys.argv[1]) if len(sys.argv) > 1 else 16)
    print(len(m.funcs))
