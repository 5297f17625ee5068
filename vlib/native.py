"""Builds the compiled extensions of /repo's working tree a second time, instrumented, into a scratch folder.

Three builds: 'san' (AddressSanitizer, UndefinedBehaviorSanitizer, Fortran bounds checks), and 'zero' and 'fill', which
differ only in what local variables hold before they are assigned.
"""
import glob
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import numpy as np

ROOT = '/repo'
F2PY_SRC = os.path.join(os.path.dirname(np.__file__), 'f2py', 'src')

COMMON_F = ['-w', '-g', '-ffixed-form', '-fno-second-underscore', '-fPIC', '-O1', '-fno-omit-frame-pointer']
COMMON_C = ['-w', '-g', '-O1', '-fPIC', '-fno-omit-frame-pointer', '-DNPY_NO_DEPRECATED_API=0', '-I' + np.get_include(), '-I' + F2PY_SRC]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']
# division by zero in floating point is IEEE arithmetic, not an error
FLAGS = {
    # pointer-overflow: gfortran's own array addressing trips it
    'san': (COMMON_F + ['-fcheck=bounds,do,mem,pointer,recursion'] + SAN + ['-fno-sanitize=pointer-overflow'], COMMON_C + SAN, SAN),
    'zero': (COMMON_F + ['-finit-real=zero', '-finit-integer=0', '-finit-logical=false'],
             COMMON_C + ['-ftrivial-auto-var-init=zero'], []),
    'fill': (COMMON_F + ['-finit-real=nan', '-finit-integer=7777777', '-finit-logical=true'],
             COMMON_C + ['-ftrivial-auto-var-init=pattern'], []),
}

EXTENSIONS = {
    'c_library': ('source/c_library/c_library.pyf', ['source/c_library/c_functions.c']),
    'mvn': ('source/mvn/mvn.pyf', ['source/mvn/mvndst.f']),
    'mvnprdmod': ('source/mvnprd/mvnprd_interface.f',
                  ['source/mvnprd/mvnprd.f', 'source/mvnprd/mvnprodcorrprb.f', 'source/mvnprd/mvnprd_interface.f']),
    'cov2mod': ('source/mreg/cov2mmpdfreg_intfc.f',
                ['source/mreg/dsvdc.f', 'source/mreg/mregmodule.f', 'source/mreg/intfcmod.f', 'source/mreg/cov2mmpdfreg_intfc.f']),
    'rindmod': ('source/rind2007/rind_interface.f',
                ['source/rind2007/%s.f' % n for n in ('intmodule', 'jacobmod', 'swapmod', 'fimod', 'rindmod', 'rind71mod', 'rind_interface')]),
}


def _run(argv, cwd):
    p = subprocess.run(argv, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        raise RuntimeError('%s\n%s' % (' '.join(argv), p.stdout[-3000:]))


def build_one(kind, name, out):
    fflags, cflags, lflags = FLAGS[kind]
    pyinc = subprocess.check_output(['python3.12-config', '--includes'], text=True).split()
    interface, sources = EXTENSIONS[name]
    d = os.path.join(out, kind, 'o_' + name)
    os.makedirs(d, exist_ok=True)
    fc, cc = ['gfortran'] + fflags, ['gcc'] + cflags + pyinc
    objs = []
    for src in sources:
        obj = os.path.join(d, os.path.basename(src) + '.o')
        _run((cc if src.endswith('.c') else fc) + ['-c', os.path.join(ROOT, src), '-o', obj], d)
        objs.append(obj)
    argv = [sys.executable, '-m', 'numpy.f2py', '--lower', '--build-dir', d]
    if not interface.endswith('.pyf'):
        argv += ['-m', name]
    _run(argv + [os.path.join(ROOT, interface)], d)
    wrap = [os.path.join(d, name + 'module.c')] + sorted(glob.glob(os.path.join(d, '*-f2pywrappers*.f'))) + sorted(
        glob.glob(os.path.join(d, '*-f2pywrappers*.f90')))
    for src in wrap + [os.path.join(F2PY_SRC, 'fortranobject.c')]:
        obj = os.path.join(d, os.path.basename(src) + '.o')
        # the generated wrappers are numpy's, not the repository's: they are not instrumented
        comp = ['gcc'] + COMMON_C + pyinc if src.endswith('.c') else ['gfortran'] + COMMON_F
        _run(comp + ['-c', src, '-o', obj], d)
        objs.append(obj)
    so = os.path.join(out, kind, name + '.so')
    _run(['gfortran', '-shared', '-o', so] + objs + lflags, d)
    return so


def build_all(out, kinds=('san', 'zero', 'fill')):
    jobs = [(k, n) for n in ('cov2mod', 'rindmod', 'mvnprdmod', 'mvn', 'c_library') for k in kinds]
    with ThreadPoolExecutor(8) as pool:
        return list(pool.map(lambda a: build_one(a[0], a[1], out), jobs))


def runtime_libs():
    return ':'.join(subprocess.check_output(['gcc', '-print-file-name=' + n], text=True).strip() for n in ('libasan.so', 'libubsan.so'))


if __name__ == '__main__':
    import time
    t = time.time()
    print(build_all(sys.argv[1]))
    print(time.time() - t)
