"""Builds a demonstration against the repository in $VERIF_REPO, and prints the
path of the executable.  The first line of the demonstration has the options:
// kit: san=asan opt=-O1 srcs=numerics/cbrt.cpp,... shim=zfp,... protos=1"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'lib'))
import build

demo = os.path.abspath(sys.argv[1])
line = open(demo, encoding='utf-8').readline()
options = {'san': 'asan', 'opt': '-O1', 'srcs': '', 'shim': '', 'protos': '0',
           'defs': '', 'journal': '0'}
assert line.startswith('// kit:'), line
options.update(o.split('=', 1) for o in line[len('// kit:'):].split())

def items(k):
  return [s for s in options[k].split(',') if s]

san = options['san']
flags = [options['opt']] + build.SAN[san] + ['-D' + d for d in items('defs')]
gen = build.generate()
if options['journal'] == '1':
  build.journal_headers()
units = [(demo, flags)]
units += [(f'{build.REPO}/{s}', flags) for s in items('srcs')]
units += [(build.SHIM[s], flags) for s in ['log', 'protobuf'] + items('shim')]
if san == 'tsan':
  units.append((build.SHIM['perturb'], flags))
if options['protos'] == '1':
  units += [(p, ['-O0']) for p in gen
            if not p.endswith('/journal.pb.cc') or options['journal'] == '1']
try:
  print(build.link('demo', units, build.SAN[san]))
except build.BuildError as e:
  print(e, file=sys.stderr)
  sys.exit(2)
