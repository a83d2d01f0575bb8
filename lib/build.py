"""Builds the harnesses from /repo's working tree.

Objects are kept in /verif/build (not committed), and are reused only if the
command and the contents of every file of /repo, /verif and the generated
directories that the previous compilation read are the same."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CXX = 'clang++-20'
COMPAT = os.path.join(BUILD, 'compat')
GEN = os.path.join(BUILD, 'gen')
JOBS = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))

COMMON = [
    '-std=c++23', '-m64', '-msse4.1',
    '-include', f'{VERIF}/shim/include/verif_prelude.h',
    '-fPIC', '-fbracket-depth=257', '-fdeclspec', '-fexceptions',
    '-ferror-limit=10', '-ffp-contract=off', '-fno-omit-frame-pointer',
    '-fno-char8_t', '-w', '-gline-tables-only',
    '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")',
    f'-DSOLUTION_DIR=std::filesystem::path("{REPO}/")',
    '-DTEMP_DIR=std::filesystem::path("/tmp")',
    '-DPLATFORM_WITH_CPU_FEATURES="x64"', '-DNDEBUG',
    '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0',
    '-fno-builtin-std-forward_like',
    f'-I{VERIF}/shim/include', f'-I{COMPAT}', f'-I{GEN}', f'-I{REPO}',
    f'-I{VERIF}/harness',
]

SAN = {
    'none': [],
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function',
             '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope'],
    'ubsan': ['-fsanitize=undefined', '-fno-sanitize=vptr,function',
              '-fno-sanitize-recover=all',
              '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-fsanitize=thread', '-DPRINCIPIA_VERIF_MUTEX'],
}


class BuildError(Exception):
  pass


_hashes = {}
_hash_lock = threading.Lock()


def file_hash(path):
  with _hash_lock:
    if path in _hashes:
      return _hashes[path]
  try:
    with open(path, 'rb') as f:
      h = hashlib.sha256(f.read()).hexdigest()
  except OSError:
    h = None
  with _hash_lock:
    _hashes[path] = h
  return h


def parse_depfile(path):
  s = open(path, encoding='utf-8', errors='replace').read()
  s = s.replace('\\\n', ' ')
  s = s[s.index(':') + 1:]
  deps = [d.replace('\\ ', ' ').replace('\\#', '#').replace('$$', '$')
          for d in re.findall(r'(?:\\.|[^\s\\])+', s)]
  return sorted({os.path.realpath(d) if not d.startswith('/') else d
                 for d in deps})


def ours(d):
  return not d.startswith('/usr/')


def up_to_date(out, stamp, cmd_key):
  if not (os.path.exists(out) and os.path.exists(stamp)):
    return False
  try:
    st = json.load(open(stamp))
  except ValueError:
    return False
  return (st['cmd'] == cmd_key and
          all(file_hash(d) == h for d, h in st['deps'].items()))


def run(cmd, what, cwd=None):
  p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     cwd=cwd, text=True, errors='replace')
  if p.returncode != 0:
    lines = p.stdout.splitlines()
    errors = [i for i, l in enumerate(lines) if 'error:' in l]
    text = '\n'.join('\n'.join(lines[i:i + 4]) for i in errors[:8])
    raise BuildError(f'{what} failed ({p.returncode}):\n'
                     f'{text or p.stdout[-3000:]}')


def compile_one(src, flags):
  """Returns the path of the object."""
  cmd = [CXX] + COMMON + flags + ['-c', src]
  cmd_key = hashlib.sha256('\0'.join(cmd).encode()).hexdigest()
  name = re.sub(r'[^A-Za-z0-9_.-]', '_', os.path.basename(src))
  d = os.path.join(BUILD, 'obj')
  os.makedirs(d, exist_ok=True)
  base = os.path.join(d, f'{name}.{cmd_key[:16]}')
  out, dep, stamp = base + '.o', base + '.d', base + '.stamp'
  if up_to_date(out, stamp, cmd_key):
    return out
  tmp = f'{out}.{os.getpid()}.tmp'
  start = time.time()
  run(cmd + ['-MD', '-MF', dep, '-o', tmp], f'compiling {src}')
  if os.environ.get('VERIF_TIMES'):
    print(f'{time.time() - start:6.1f} s {src} {" ".join(flags)[:200]}',
          file=sys.stderr)
  deps = {p: file_hash(p) for p in parse_depfile(dep) if ours(p)}
  os.replace(tmp, out)
  with open(stamp, 'w') as f:
    json.dump({'cmd': cmd_key, 'deps': deps}, f)
  return out


def generate():
  """The headers that the repository's build generates."""
  os.makedirs(GEN, exist_ok=True)
  os.makedirs(COMPAT, exist_ok=True)
  run([sys.executable, f'{VERIF}/shim/gen_compat.py', COMPAT], 'gen_compat')
  d = f'{REPO}/serialization'
  protos = sorted(p for p in os.listdir(d) if p.endswith('.proto'))
  key = hashlib.sha256('\0'.join(
      p + str(file_hash(f'{d}/{p}')) for p in protos).encode()).hexdigest()
  stamp = f'{GEN}/protos.stamp'
  if not os.path.exists(stamp) or open(stamp).read() != key:
    run(['protoc', '-I', REPO] + [f'{d}/{p}' for p in protos] +
        [f'--cpp_out={GEN}'], 'protoc')
    for p in protos:
      for e in ('.pb.h', '.pb.cc'):
        _hashes.pop(f'{GEN}/serialization/{p[:-6]}{e}', None)
    open(stamp, 'w').write(key)
  os.makedirs(f'{GEN}/base', exist_ok=True)
  v = f'{GEN}/base/version.generated.cc'
  s = ('#include "base/version.hpp"\nnamespace principia {\nnamespace base {\n'
       'namespace _version {\nnamespace internal {\n'
       'char const BuildDate[] = "2026-01-01T00:00:00Z";\n'
       'char const Version[] = "verif";\n}\n}\n}\n}\n')
  if not os.path.exists(v) or open(v).read() != s:
    open(v, 'w').write(s)
  return [f'{GEN}/serialization/{p[:-6]}.pb.cc' for p in protos]


def absl_libs():
  d = '/usr/lib/x86_64-linux-gnu'
  return sorted(f'{d}/{l}' for l in os.listdir(d)
                if l.startswith('libabsl_') and l.endswith('.so'))


SHIM = {
    'log': f'{VERIF}/shim/src/log.cpp',
    'protobuf': f'{VERIF}/shim/src/protobuf.cpp',
    'core_math': f'{VERIF}/shim/src/core_math.cpp',
    'gipfeli': f'{VERIF}/shim/src/gipfeli.cpp',
    'zfp': f'{VERIF}/shim/src/zfp.cpp',
    'lodepng': f'{VERIF}/shim/src/lodepng.cpp',
    'perturb': f'{VERIF}/shim/src/perturb.cpp',
}


def journal_headers():
  """profiles.generated.* and friends, by running the repository's own tool."""
  out = os.path.join(GEN, 'journalgen')
  srcs = [f'{VERIF}/shim/src/gen_profiles_main.cpp',
          f'{REPO}/tools/generate_profiles.cpp',
          f'{REPO}/tools/journal_proto_processor.cpp',
          SHIM['log'], SHIM['protobuf']] + generate()
  exe = link('gen_profiles', [(s, ['-O0']) for s in srcs])
  key = file_hash(exe)
  stamp = f'{out}/stamp'
  if os.path.exists(stamp) and open(stamp).read() == key:
    return
  for d in ('journal', 'ksp_plugin', 'ksp_plugin_adapter'):
    os.makedirs(f'{out}/{d}', exist_ok=True)
  run([exe], 'generate_profiles', cwd=out)
  for d in ('journal', 'ksp_plugin'):
    os.makedirs(f'{GEN}/{d}', exist_ok=True)
    for f in os.listdir(f'{out}/{d}'):
      shutil.copyfile(f'{out}/{d}/{f}', f'{GEN}/{d}/{f}')
      _hashes.pop(f'{GEN}/{d}/{f}', None)
  open(stamp, 'w').write(key)


def link(name, units, ldflags=()):
  """`units` is a list of pairs (source, flags).  Returns the executable."""
  # Compile the units that are known to be slow first.
  with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
    objs = list(pool.map(lambda u: compile_one(*u), units))
  cmd = ([CXX, '-fuse-ld=lld'] if shutil.which('ld.lld-20') or
         shutil.which('ld.lld') else [CXX])
  cmd += list(ldflags) + objs
  cmd += ['-lprotobuf', '-lpthread', '-Wl,--no-as-needed'] + absl_libs()
  key = hashlib.sha256(
      ('\0'.join(cmd) + '\0'.join(str(file_hash(o)) for o in objs)
       ).encode()).hexdigest()
  d = os.path.join(BUILD, 'bin')
  os.makedirs(d, exist_ok=True)
  out = os.path.join(d, f'{name}.{key[:16]}')
  if os.path.exists(out):
    return out
  tmp = f'{out}.{os.getpid()}.tmp'
  run(cmd + ['-o', tmp], f'linking {name}')
  os.replace(tmp, out)
  for o in objs:
    _hashes.pop(o, None)
  return out
