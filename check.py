#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--leg NAME] [--keep-going]

Builds the workloads of property ID from /repo's working tree, runs them under
their monitors, and gives the verdict:
  exit 0: the property held on everything that was observed;
  exit 1: it did not (VIOLATION line on stdout);
  exit 2: no verdict (build failure, error of a harness, nothing observed)."""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'lib'))
import build  # noqa: E402
import checks  # noqa: E402

VERIF = build.VERIF
REPO = build.REPO


def units_of(leg):
  """The pairs (source, flags) that make a leg, slowest first."""
  flags = [leg.opt] + build.SAN[leg.san] + leg.cxxflags
  flags += [f'-D{d}' for d in leg.defs if d.startswith('PRINCIPIA_')]
  # The other macros select parts of the harness.
  own = [f'-D{d}' for d in leg.defs if not d.startswith('PRINCIPIA_')]
  u = []
  for s in leg.srcs:
    path = s if s.startswith('/') else f'{REPO}/{s}'
    if s.startswith('gen:'):
      path = f'{build.GEN}/{s[4:]}'
    f = list(flags)
    if s in leg.src_opt:
      f[0] = leg.src_opt[s]
    u.append((path, f))
  for h in leg.harness:
    u.append((f'{VERIF}/harness/{h}', flags + own))
  # The perturbation and the log must agree with the build on mutexes.
  for s in ['log', 'protobuf'] + leg.shim:
    u.append((build.SHIM[s], flags))
  if leg.san == 'tsan':
    u.append((build.SHIM['perturb'], flags))
  if leg.protos:
    pb_flags = ['-O0']
    for p in build.generate():
      if p.endswith('/journal.pb.cc') and not leg.journal:
        continue
      u.append((p, pb_flags))
  if leg.version:
    u.append((f'{build.GEN}/base/version.generated.cc', ['-O0']))
  return u


def build_legs(legs):
  build.generate()
  if any(l.journal for l in legs):
    build.journal_headers()
  with concurrent.futures.ThreadPoolExecutor(build.JOBS) as pool:
    futures = {}
    units = []
    for l in legs:
      for u in units_of(l):
        k = (u[0], tuple(u[1]))
        if k not in futures:
          futures[k] = None
          units.append(u)
    cost = dict(checks.COSTS)
    units.sort(key=lambda u: -cost.get(os.path.relpath(u[0], REPO),
                                       cost.get(os.path.basename(u[0]), 5)))
    for u in units:
      futures[(u[0], tuple(u[1]))] = pool.submit(build.compile_one, *u)
    for f in futures.values():
      f.result()
  for l in legs:
    l.exe = build.link(l.name, units_of(l), build.SAN[l.san] + l.ldflags)


ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=%d:'
                    'detect_stack_use_after_return=1:symbolize=1:'
                    'strict_init_order=0:detect_odr_violation=0:'
                    'allocator_may_return_null=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1:symbolize=1',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_thread_leaks=0:'
                    'second_deadlock_stack=1:history_size=4:'
                    'report_signal_unsafe=0',
    'LSAN_OPTIONS': 'report_objects=0:suppressions=%s/lib/lsan.supp:'
                    'print_suppressions=0',
}


class Run:

  def __init__(self, leg, mode, shard, shards, seed, tier, scale):
    self.leg, self.mode, self.shard, self.shards = leg, mode, shard, shards
    self.seed, self.tier, self.scale = seed, tier, scale
    self.violations, self.error, self.report = [], None, None
    self.hashes = set()

  def name(self):
    return f'{self.leg.name}/{self.mode or "-"}/{self.shard}'

  def command(self, out):
    c = [self.leg.exe, '--seed', str(self.seed), '--shard', str(self.shard),
         '--shards', str(self.shards), '--tier', self.tier, '--scale',
         str(self.scale), '--out', out, '--salt', self.leg.name]
    if self.mode:
      c += ['--mode', self.mode]
    return c


def repo_frames(text):
  """The functions of the repository in a stack trace, outermost last."""
  frames = []
  for m in re.finditer(r'^\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)$', text, re.M):
    line = m.group(1)
    f = re.search(re.escape(REPO) + r'/([\w/.\u0080-\uffff-]+)', line)
    if f:
      func = re.sub(r'\(.*$', '', line)
      func = re.sub(r'<.*', '', func).split('::')[-1].strip()
      frames.append(f'{f.group(1)}:{func}')
  return frames


def normalize(s):
  s = re.sub(r'0x[0-9a-fA-F]+', 'P', s)
  s = re.sub(r'-?\b[0-9][0-9.e+-]*\b', 'N', s)
  return s[:160]


def diagnose(run, rc, stderr):
  """Turns an abnormal end into violations or an error."""
  case = re.findall(r'VERIF-CASE: (.*)', stderr)
  case = case[-1] if case else '?'
  out = []
  if 'HARNESS-ERROR' in stderr or rc == 3:
    run.error = f'{run.name()}: harness error\n{stderr[-2000:]}'
    return
  for m in re.finditer(r'^(\S+?):(\d+):\d+: runtime error: (.*)$', stderr,
                       re.M):
    f = os.path.relpath(m.group(1), REPO) if m.group(1).startswith(
        REPO) else os.path.basename(m.group(1))
    out.append((f'ubsan:{f}:{normalize(m.group(3))}', m.group(0)))
  for m in re.finditer(r'ERROR: (Address|Leak)Sanitizer:? ([\w-]+)([^\n]*)',
                       stderr):
    rest = stderr[m.start():]
    if m.group(1) == 'Leak':
      blocks = re.split(r'(?:Direct|Indirect) leak of', rest)[1:]
      keys = set()
      for b in blocks:
        fr = repo_frames(b.split('\n\n')[0])
        keys.add(f'leak:{fr[0] if fr else "?"}')
      for k in sorted(keys):
        out.append((k, rest[:1500]))
    else:
      fr = repo_frames(rest)
      out.append((f'asan:{m.group(2)}:{fr[0] if fr else "?"}', rest[:2500]))
  for b in re.split(r'={18}\n', stderr):
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', b)
    if m:
      parts = re.split(r'\n\n', b)
      fr = []
      for p in parts[:3]:
        r = repo_frames(p)
        if r:
          fr.append(r[0])
      if not repo_frames(b):
        fr = ['?']
      out.append((f'tsan:{m.group(1).strip()}:{" / ".join(sorted(fr[:2]))}',
                  b[:3000]))
  for m in re.finditer(r'^F\d{4} [\d:.]+ \d+ (\S+?):(\d+)\] (.*)$', stderr, re.M):
    f = m.group(1)
    f = os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f)
    out.append((f'check:{f}:{normalize(m.group(3))}', m.group(0)))
  if not out:
    if rc == -signal.SIGKILL:
      run.error = f'{run.name()}: killed'
      return
    m = re.search(r"terminate called after throwing an instance of '([^']*)'",
                  stderr)
    out.append((f'died:{run.leg.name}:{m.group(1) if m else rc}',
                stderr[-2500:]))
  seen = set()
  for k, d in out:
    if k not in seen:
      seen.add(k)
      run.violations.append((k, f'{d}\n[case: {case}]'))


def execute(run, work, timeout):
  out = os.path.join(work, re.sub(r'\W', '_', run.name()) + '.json')
  scratch = tempfile.mkdtemp(dir=work)
  env = dict(os.environ)
  leaks = 1 if run.leg.leaks else 0
  env.update({
      'ASAN_OPTIONS': ENV['ASAN_OPTIONS'] % leaks,
      'UBSAN_OPTIONS': ENV['UBSAN_OPTIONS'],
      'TSAN_OPTIONS': ENV['TSAN_OPTIONS'],
      'LSAN_OPTIONS': ENV['LSAN_OPTIONS'] % VERIF,
      'VERIF_SCRATCH': scratch,
      'VERIF_REPO': REPO,
      'VERIF_DIR': VERIF,
  })
  env.update(run.leg.env)
  symbolizer = shutil.which('llvm-symbolizer-20') or shutil.which(
      'llvm-symbolizer')
  if symbolizer:
    for o in ('ASAN', 'TSAN', 'UBSAN'):
      env[f'{o}_OPTIONS'] += f':external_symbolizer_path={symbolizer}'
  for attempt in (1, 2):
    if os.path.exists(out):
      os.remove(out)
    err_path = out + '.err'
    with open(err_path, 'wb') as err, open(out + '.out', 'wb') as o:
      p = subprocess.Popen(run.command(out), stdout=o, stderr=err,
                           stdin=subprocess.DEVNULL, env=env, cwd=scratch,
                           start_new_session=True)
      try:
        rc = p.wait(timeout)
      except subprocess.TimeoutExpired:
        rc = None
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    if rc is not None:
      break
  stderr = open(err_path, encoding='utf-8', errors='replace').read()
  if len(stderr) > 4_000_000:
    stderr = stderr[:2_000_000] + stderr[-2_000_000:]
  complete = False
  if os.path.exists(out):
    try:
      run.report = json.load(open(out))
      complete = True
      for v in run.report['violations']:
        run.violations.append((v['key'], v['detail']))
      b = open(out + '.hashes', 'rb').read()
      run.hashes = set(struct.unpack(f'<{len(b) // 8}Q', b))
    except (ValueError, OSError, KeyError):
      run.report = None
  if rc is None:
    # Twice beyond a bound that is many times the usual duration.
    run.violations.append(
        (f'hang:{run.leg.name}:{run.mode}',
         f'no progress after {timeout} s, twice\n{stderr[-1500:]}'))
  elif rc != 0 or not complete:
    # Failures seen before the end of the process.
    for m in re.finditer(r'^VERIF-FAIL (\S+): (.*)$', stderr, re.M):
      if not complete:
        run.violations.append((m.group(1), m.group(2)))
    diagnose(run, rc, stderr)
  shutil.rmtree(scratch, ignore_errors=True)
  return run


def load_known():
  known = {}
  path = f'{VERIF}/known_findings.txt'
  if os.path.exists(path):
    for line in open(path, encoding='utf-8'):
      m = re.match(r'finding: property=(\S+) key=<(.*?)> (.*)', line)
      if m:
        known[(m.group(1), m.group(2))] = m.group(3).strip()
  return known


def main():
  a = argparse.ArgumentParser()
  a.add_argument('id')
  a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  a.add_argument('--leg')
  a.add_argument('--mode')
  a.add_argument('--scale', type=float, default=1)
  a.add_argument('--build-only', action='store_true')
  args = a.parse_args()
  tier = 'thorough' if args.tier == 'thorough' else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  t0 = time.time()
  prop = checks.CHECKS[args.id]
  legs = [l for l in prop.legs if (not args.leg or l.name == args.leg) and
          (tier == 'thorough' or not l.thorough_only)]
  try:
    build_legs(legs)
  except build.BuildError as e:
    print(f'BUILD-ERROR property={args.id}\n{e}')
    return 2
  t_build = time.time() - t0
  if args.build_only:
    print(f'built in {t_build:.1f} s')
    return 0
  runs = []
  for l in legs:
    for mode, shards, scale, thorough_scale in l.modes:
      if args.mode and mode != args.mode:
        continue
      if tier == 'thorough':
        n = max(shards, l.thorough_shards)
        s = thorough_scale
      else:
        n, s = shards, scale
      for i in range(n):
        runs.append(Run(l, mode, i, n, seed, tier, s * args.scale))
  runs.sort(key=lambda r: -r.leg.weight)
  work = tempfile.mkdtemp(prefix=f'verif-{args.id}-')
  os.chmod(work, 0o755)
  workers = max(1, build.JOBS // max(l.threads for l in legs))
  try:
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
      list(pool.map(
          lambda r: execute(r, work, r.leg.timeout[tier == 'thorough']), runs))
  finally:
    shutil.rmtree(work, ignore_errors=True)
  known = load_known()
  evaluations, hashes, samples = 0, set(), []
  counts, maxima, legs_seen = {}, {}, {}
  new, listed, errors = {}, {}, []
  for r in runs:
    if r.error:
      errors.append(r.error)
    if r.report:
      evaluations += r.report['evaluations']
      hashes |= r.hashes
      ls = legs_seen.setdefault(f'{r.leg.name}/{r.mode or "-"}',
                                {'processes': 0, 'evaluations': 0})
      ls['processes'] += 1
      ls['evaluations'] += r.report['evaluations']
      ls['monitors'] = r.leg.san
      if r.shard == 0:
        samples += r.report['samples'][:3]
      for k, v in r.report['counts'].items():
        counts[k] = counts.get(k, 0) + v
      for k, v in r.report['maxima'].items():
        if isinstance(v, str) or isinstance(maxima.get(k, 0.), str):
          maxima[k] = str(v)
        else:
          maxima[k] = max(maxima.get(k, v), v)
    for k, d in r.violations:
      (listed if (args.id, k) in known else new).setdefault(
          k, []).append((r, d))
  wall = time.time() - t0
  evidence = {
      'property': args.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': evaluations, 'distinct_nontrivial': len(hashes),
          'rule': prop.rule, 'samples': samples[:12],
          'observed': counts, 'maxima': maxima, 'workloads': legs_seen,
      },
      'assumptions': prop.assumptions,
      'wall_s': round(wall, 1), 'violations': len(new),
  }
  os.makedirs(f'{VERIF}/evidence', exist_ok=True)
  with open(f'{VERIF}/evidence/{args.id}.json', 'w') as f:
    json.dump(evidence, f, indent=1, ensure_ascii=True)
    f.write('\n')
  for k in sorted(listed):
    print(f'KNOWN-FINDING: property={args.id} {known[(args.id, k)]}')
  print(f'{args.id}: {evaluations} evaluations, {len(hashes)} distinct, '
        f'build {t_build:.0f} s, total {wall:.0f} s')
  if new:
    os.makedirs(f'{VERIF}/replays', exist_ok=True)
    for i, (k, occurrences) in enumerate(sorted(new.items())):
      r, d = occurrences[0]
      path = f'{VERIF}/replays/{args.id}-{i}.json'
      with open(path, 'w') as f:
        json.dump({'property': args.id, 'key': k, 'detail': d,
                   'occurrences': len(occurrences),
                   'leg': r.leg.name, 'mode': r.mode, 'shard': r.shard,
                   'shards': r.shards, 'seed': seed, 'tier': tier,
                   'scale': r.scale,
                   'replay': ' '.join(r.command('/tmp/replay.json'))},
                  f, indent=1)
      print(f'VIOLATION property={args.id} replay={path}')
      print(f'  {k}: {d[:1200]}')
    return 1
  if errors:
    for e in errors:
      print(f'ERROR property={args.id} {e}')
    return 2
  if not args.leg and not args.mode and args.scale >= 1 and (
      len(hashes) < prop.min_distinct):
    print(f'INCONCLUSIVE property={args.id}: only {len(hashes)} distinct cases')
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
