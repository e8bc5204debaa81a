#!/usr/bin/env python3
"""Builds every FMU from the sources and the build information it contains.

sources.py <directory with fmi2/fmus and fmi3/fmus> <FMI headers> <output directory>

Writes <output directory>/index.txt with one line for each library,
  lib <version> <model> <variant> <path> <prefix of its functions, or ->
or for what is wrong,
  bad <version> <model> <text>
"""
import concurrent.futures
import os
import subprocess
import sys
import xml.etree.ElementTree as ET
import zipfile

fmus, headers, out = sys.argv[1:4]
# name, compiler, options, whether the functions are to be exported without prefix
VARIANTS = [('gcc-O0', 'gcc', ['-O0'], False), ('gcc-O3', 'gcc', ['-O3'], False),
            ('clang-O2', 'clang', ['-O2'], False), ('plain', 'gcc', ['-O2'], True)]


def parts(version, directory):
    """(model identifier, files, definitions, language) of each way the FMU declares to build it"""
    description = ET.parse(os.path.join(directory, 'modelDescription.xml')).getroot()
    interfaces = [e for e in description if e.tag in ('ModelExchange', 'CoSimulation', 'ScheduledExecution')]
    identifiers = [e.get('modelIdentifier') for e in interfaces]
    if version == 2:
        for e in interfaces:
            files = [f.get('name') for f in e.findall('SourceFiles/File')]
            if not files:
                raise ValueError(f'no source files are declared for {e.tag}')
            yield e.get('modelIdentifier'), files, [], None
        return
    build = ET.parse(os.path.join(directory, 'sources', 'buildDescription.xml')).getroot()
    configurations = build.findall('BuildConfiguration')
    for i in set(identifiers):
        if i not in [c.get('modelIdentifier') for c in configurations]:
            raise ValueError(f'the build description has no configuration for {i}')
    for c in configurations:
        if c.get('modelIdentifier') not in identifiers:
            raise ValueError(f'the build description is for {c.get("modelIdentifier")} instead of {identifiers[0]}')
        sets = c.findall('SourceFileSet')
        files = [f.get('name') for s in sets for f in s.findall('SourceFile')]
        definitions = [(d.get('name'), d.get('value')) for s in sets for d in s.findall('PreprocessorDefinition')]
        yield c.get('modelIdentifier'), files, definitions, sets[0].get('language') if sets else None


def compile_one(job):
    version, model, variant, compiler, options, target, files, directory, prefix = job
    command = [compiler, '-w', '-g', '-shared', '-fPIC', '-Werror=implicit-function-declaration', '-Werror=int-conversion', *options,
               '-I', headers, '-I', '.', '-o', target, *files, '-lm']
    r = subprocess.run(command, cwd=os.path.join(directory, 'sources'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        first = [l for l in r.stdout.splitlines() if 'error' in l.lower() or 'undefined' in l.lower()] or r.stdout.splitlines() or ['?']
        return f'bad {version} {model} does not compile ({variant}): {first[0]}'
    return f'lib {version} {model} {variant} {target} {prefix}'


def main():
    jobs, lines = [], []
    for version in (2, 3):
        folder = os.path.join(fmus, f'fmi{version}', 'fmus')
        for name in sorted(os.listdir(folder)):
            model = name[:-4]
            directory = os.path.join(out, f'fmi{version}', model)
            with zipfile.ZipFile(os.path.join(folder, name)) as z:
                z.extractall(directory)
            seen = []
            try:
                for identifier, files, definitions, language in parts(version, directory):
                    if identifier != model:
                        raise ValueError(f'the model identifier is {identifier}')
                    if (files, definitions) in seen:
                        continue
                    seen.append((files, definitions))
                    missing = [f for f in files if not os.path.isfile(os.path.join(directory, 'sources', f))]
                    if missing:
                        raise ValueError(f'the source file {missing[0]} is missing')
                    for variant, compiler, options, plain in VARIANTS:
                        if plain and version == 2:
                            continue
                        o = options + [f'-D{n}' + (f'={v}' if v is not None else '') for n, v in definitions]
                        o += ['-std=c99'] if language == 'C99' else []
                        o += ['-DFMI3_OVERRIDE_FUNCTION_PREFIX'] if plain else []
                        target = os.path.join(directory, f'{variant}-{len(seen)}.so')
                        jobs.append((version, model, f'{variant}-{len(seen)}', compiler, o, target, files, directory, '-' if plain else identifier + '_'))
            except (ValueError, OSError, ET.ParseError) as e:
                lines.append(f'bad {version} {model} {e}')
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        lines += list(pool.map(compile_one, jobs))
    with open(os.path.join(out, 'index.txt'), 'w') as f:
        f.write('\n'.join(lines) + '\n')


main()
