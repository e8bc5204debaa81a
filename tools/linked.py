#!/usr/bin/env python3
"""Builds the programs that drive the FMUs: one for each version of FMI that loads them, and one for each FMU that is
linked with it.

linked.py <copy of the repository> <harness/linked/drive.c> <output directory>

Writes <output directory>/index.txt with the lines
  load <version> <program>
  link <version> <model> <program>
  bad <version> <model or -> <text>
"""
import concurrent.futures
import glob
import os
import subprocess
import sys

repo, driver, out = sys.argv[1:4]
MODELS = {2: ['BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Stair', 'VanDerPol'],
          3: ['BouncingBall', 'Clocks', 'Dahlquist', 'Feedthrough', 'Resource', 'Roberts', 'Stair', 'StateSpace', 'VanDerPol']}
fmu = [os.path.join(repo, 'src', f'fmi{v}Functions.c') for v in MODELS] + [os.path.join(repo, 'src', 'cosimulation.c')]
importer = [f for f in sorted(glob.glob(os.path.join(repo, 'src', '*.c'))) if f not in fmu]
include = ['-I', os.path.join(repo, 'include')]
strict = ['-w', '-O2', '-g', '-Werror=implicit-function-declaration', '-Werror=int-conversion', '-Werror=incompatible-pointer-types']


def run(*commands):
    for c in commands:
        r = subprocess.run(c, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            lines = r.stdout.splitlines()
            return ([l for l in lines if 'error' in l.lower() or 'undefined' in l.lower()] or lines or ['?'])[0].replace(repo + '/', '')
    return None


def load(version):
    p = os.path.join(out, f'load{version}')
    e = run(['gcc', *strict, f'-DV={version}', *include, '-o', p, driver, *importer, '-ldl', '-lm'])
    return f'bad {version} - the importer does not compile: {e}' if e else f'load {version} {p}'


def link(job):
    version, model = job
    d = os.path.join(out, f'{model}{version}')
    os.makedirs(d)
    defines = [f'-DFMI_VERSION={version}', f'-DFMI{version}_FUNCTION_PREFIX={model}_']
    sources = [fmu[version - 2], fmu[2], os.path.join(repo, model, 'model.c')]
    objects = [os.path.join(d, f'{k}.o') for k in range(len(sources))]
    # only the interface of the FMU can be seen from outside
    e = run(*[['gcc', *strict, *defines, *include, '-I', os.path.join(repo, model), '-c', '-o', o, s] for o, s in zip(objects, sources)],
            ['ld', '-r', '-o', f'{d}/all.o', *objects], ['objcopy', '-w', f'--keep-global-symbol={model}_*', f'{d}/all.o', f'{d}/fmu.o'],
            ['gcc', *strict, *defines, f'-DV={version}', *include, '-o', f'{d}/drive', driver, *importer, f'{d}/fmu.o', '-ldl', '-lm'])
    return f'bad {version} {model} cannot be linked with the importer: {e}' if e else f'link {version} {model} {d}/drive'


with concurrent.futures.ThreadPoolExecutor(8) as pool:
    lines = list(pool.map(load, MODELS)) + list(pool.map(link, [(v, m) for v in MODELS for m in MODELS[v]]))
with open(os.path.join(out, 'index.txt'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
