"""Builds the explorer of the C++ library from the current tree, in a scratch directory."""
import atexit
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BIN = None
_DIR = None


def accounting():
  """Every source file of the C++ accounting."""
  out = []
  for d in ['cc/accounting', 'cc/accounting/common']:
    for p in sorted(glob.glob('%s/%s/*.cc' % (REPO, d))):
      b = os.path.basename(p)
      if not b.endswith('_test.cc') and 'test_util' not in b and 'example' not in b:
        out.append(os.path.relpath(p, REPO + '/cc'))
  return out


def library():
  """Every source file of the C++ algorithms but the random source, which is replaced."""
  out = []
  for d in ['cc/algorithms', 'cc/algorithms/internal', 'third_party/cephes']:
    for p in sorted(glob.glob('%s/%s/*.cc' % (REPO, d))):
      b = os.path.basename(p)
      if not b.endswith('_test.cc') and b != 'rand.cc' and 'test_util' not in b and 'example' not in b:
        out.append(p)
  return out



class BuildError(Exception):
  pass


def _run(cmd, cwd=None):
  r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
  if r.returncode:
    raise BuildError('%s failed: %s' % (os.path.basename(cmd[-1]), r.stdout[-1500:]))


def build(sources, extra=(), lib=None, opt='-O1', flags=()):
  """Compiles the library and the named explorers of cc/mc; returns the path of the program."""
  global BIN, _DIR
  _DIR = tempfile.mkdtemp(prefix='verif-cc-')
  atexit.register(clean)
  sanitize = [f for f in flags if f.startswith('-fsanitize')]
  gen = _DIR + '/gen'
  os.makedirs(gen)
  protos = ['proto/confidence-interval.proto', 'proto/data.proto', 'proto/numerical-mechanism.proto', 'proto/summary.proto']
  protos += ['proto/accounting/' + os.path.basename(p) for p in sorted(glob.glob(REPO + '/proto/accounting/*.proto'))]
  try:
    _run(['protoc', '-I' + REPO, '--cpp_out=' + gen] + protos, cwd=REPO)
    flags = ['g++', '-std=c++17', opt] + list(flags) + [ '-w', '-include', 'optional', '-I' + ROOT + '/cc/stub', '-I' + gen, '-I' + REPO + '/cc', '-I' + REPO,
             '-I' + ROOT + '/cc/mc']
    units = [ROOT + '/cc/mc/' + s for s in ['main.cc', 'env.cc', 'rnd.cc', 'realrand.cc'] + list(sources)]
    units += (library() if lib is None else list(lib)) + [REPO + '/cc/' + s for s in extra]
    units += [gen + '/' + p.replace('.proto', '.pb.cc') for p in protos]
    jobs = []
    for i, u in enumerate(units):
      jobs.append(flags + ['-c', '-o', '%s/%d.o' % (_DIR, i), u])
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
      list(ex.map(_run, jobs))
    libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))
    _run(['g++', '-o', _DIR + '/prog'] + sanitize + ['%s/%d.o' % (_DIR, i) for i in range(len(units))] +
         ['-Wl,--start-group', '-lprotobuf'] + ['-l:' + os.path.basename(l) for l in libs] + ['-Wl,--end-group', '-lpthread'])
  except BaseException:
    clean()
    raise
  for o in glob.glob(_DIR + '/*.o'):
    os.unlink(o)
  BIN = _DIR + '/prog'
  return BIN


def clean():
  global _DIR
  if _DIR and os.path.isdir(_DIR):
    shutil.rmtree(_DIR, ignore_errors=True)
  _DIR = None


def cases(prop, tier):
  r = subprocess.run([BIN, 'list', prop, tier], stdout=subprocess.PIPE, text=True, timeout=60, check=True)
  return [{'c': line} for line in r.stdout.split('\n') if line]


def explore(prop, case, ctx, timeout=700):
  """Runs one case and merges its report; a program that dies is a violation of that case."""
  r = subprocess.run([BIN, 'run', prop, case['c']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                     env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
  if r.returncode:
    ctx.fail('died ' + case['c'].split(' ')[0], 'the library ended the program with %d on %s: %s' % (r.returncode, case['c'], r.stderr[-600:]))
    return
  out = json.loads(r.stdout)
  for s in out['states']:
    ctx.states.add(int(s, 16))
  ctx.step(out['transitions'])
  ctx.traces += out['traces']
  ctx.evals += out['evals']
  for s in out['samples'][:2]:
    if len(ctx.samples) < 2:
      ctx.samples.append(s)
  for f in out['fails']:
    ctx.fail(f['key'], f['msg'])
