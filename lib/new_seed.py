"""new_seed.py SPEC: makes a planted bug in seeded/ from a specification, and
verifies it in a scratch copy.  The specification has sections:
@id, @property, @needs, @breaks, @file PATH, @old, @new (possibly repeated),
@demo."""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = open(sys.argv[1], encoding='utf-8').read()
parts = re.split(r'^@(id|property|needs|breaks|file|old|new|demo)\b[ ]?', spec,
                 flags=re.M)[1:]
f, edits = {}, []
for k, v in zip(parts[::2], parts[1::2]):
  if k == 'file':
    path = v.strip()
  elif k == 'old':
    old = v.lstrip('\n') if v.startswith('\n') else v
  elif k == 'new':
    edits.append((path, old, v[1:] if v.startswith('\n') else v))
  else:
    f[k] = v.strip()
repo = '/tmp/srepo'
if not os.path.exists(repo):
  subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
def git(*a):
  return subprocess.check_output(['git', '-C', repo, *a], text=True)
git('checkout', '-q', '--', '.')
git('pull', '-q', '--ff-only')
d = f'{VERIF}/seeded/{f["id"]}'
shutil.rmtree(d, ignore_errors=True)
os.makedirs(f'{d}/kit/lib')
shutil.copytree(f'{VERIF}/shim', f'{d}/kit/shim')
b = open(f'{VERIF}/lib/build.py', encoding='utf-8').read()
b = re.sub(r'\A""".*?"""', '"""Builds demonstrations."""', b, flags=re.S)
open(f'{d}/kit/lib/build.py', 'w').write(b)
shutil.copy(f'{VERIF}/lib/kit/build_demo.py', f'{d}/kit')
shutil.copy(f'{VERIF}/lib/kit/demo.sh', d)
open(f'{d}/demo.cpp', 'w').write(f['demo'] + '\n')
json.dump({'property': f['property'], 'needs': f['needs'],
           'what_it_breaks': f['breaks']},
          open(f'{d}/meta.json', 'w'), indent=1, ensure_ascii=False)
def demo():
  p = subprocess.run(['bash', f'{d}/demo.sh'], cwd=repo, text=True,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  return p.returncode, p.stdout[-1500:]
ok, out = demo()
if ok != 0:
  print('UNPATCHED', ok, out)
  sys.exit(1)
for path, old, new in edits:
  s = open(f'{repo}/{path}', encoding='utf-8').read()
  old, new = old.rstrip('\n') + '\n', new.rstrip('\n') + '\n'
  if new == '\n':
    new = ''
  assert s.count(old) == 1, (path, s.count(old), old)
  open(f'{repo}/{path}', 'w', encoding='utf-8').write(s.replace(old, new))
open(f'{d}/patch.diff', 'w').write(git('diff'))
bad, out = demo()
git('checkout', '-q', '--', '.')
print('patched:', bad, out)
if bad in (0, 2):
  sys.exit(1)
# The build and the tests, in /repo itself.
subprocess.check_call(['git', '-C', '/repo', 'apply', f'{d}/patch.diff'])
try:
  b = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT)
  t = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed_tests.json'],
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  print('build', b.returncode, t.stdout.strip().splitlines()[-1])
finally:
  subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
