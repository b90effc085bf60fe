"""Builds the explorer of the Java library from the current tree, in a scratch directory."""
import atexit
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'com/google/privacy/differentialprivacy'
JARS = ['/opt/veriftools/apalache-0.58.0/lib/apalache.jar',  # guava, protobuf
        '/opt/veriftools/tlapm/lib/tlapm/backends/Isabelle/contrib/solr-9.7.0-1/lib/commons-math3-3.6.1.jar']
_DIR = None
BATCH = 8


class BuildError(Exception):
  pass


def _run(cmd, cwd=None):
  r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
  if r.returncode:
    raise BuildError('%s failed: %s' % (os.path.basename(cmd[0]), r.stdout[-1500:]))


def build():
  """Compiles the library together with the explorers of java/mc (which lie in its package)."""
  global _DIR
  _DIR = tempfile.mkdtemp(prefix='verif-java-')
  atexit.register(clean)
  jars = ':'.join(JARS)
  for d in ['gen', 'pbo', 'proc', 'out']:
    os.makedirs(_DIR + '/' + d)
  protos = ['proto/%s.proto' % p for p in ['confidence-interval', 'data', 'numerical-mechanism', 'summary']]

  def messages():
    _run(['protoc', '-I' + REPO, '--java_out=' + _DIR + '/gen'] + protos, cwd=REPO)
    _run(['javac', '-J-XX:+UseSerialGC', '-nowarn', '-cp', jars, '-d', _DIR + '/pbo'] + glob.glob(_DIR + '/gen/**/*.java', recursive=True))

  def processor():
    _run(['javac', '-J-XX:+UseSerialGC', '-proc:none', '-nowarn', '-d', _DIR + '/proc'] + glob.glob(ROOT + '/java/proc/*.java'))

  try:
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
      for f in [ex.submit(messages), ex.submit(processor)]:
        f.result()
    _run(['javac', '-J-XX:+UseSerialGC', '-encoding', 'UTF-8', '-Xlint:none', '-nowarn', '-cp', jars + ':' + _DIR + '/pbo', '-sourcepath', ROOT + '/java/stub', '-processorpath',
          _DIR + '/proc', '-processor', 'AutoValueProcessor', '-d', _DIR + '/out'] + sorted(glob.glob('%s/java/main/%s/*.java' % (REPO, PKG))) + sorted(glob.glob(ROOT + '/java/mc/*.java')))
  except BaseException:
    clean()
    raise


def clean():
  global _DIR
  if _DIR and os.path.isdir(_DIR):
    shutil.rmtree(_DIR, ignore_errors=True)
  _DIR = None


def java(args, inp=None, timeout=700):
  cp = ':'.join(JARS + [_DIR + '/pbo', _DIR + '/out'])
  return subprocess.run(['java', '-XX:+UseSerialGC', '-Xmx2g', '-cp', cp, 'com.google.privacy.differentialprivacy.Main'] + args, input=inp, stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE, text=True, timeout=timeout)


def cases(prop, tier, batch=BATCH):
  """Batches of cases: starting the machine costs more than most cases."""
  r = java(['list', prop, tier])
  lines = [l for l in r.stdout.split('\n') if l]
  if not lines:
    raise BuildError('no cases: ' + r.stderr[-800:])
  n = (len(lines) + batch - 1) // batch
  return [{'c': ';'.join(lines[i::n])} for i in range(n)]  # neighbours go to different batches


def explore(prop, case, ctx):
  r = java(['run', prop, case['c']])
  if r.returncode:
    ctx.fail('died ' + prop, 'the library ended the program with %d on %s: %s' % (r.returncode, case['c'][:200], r.stderr[-600:]))
    return
  out = json.loads(r.stdout)
  for s in out['states']:
    ctx.states.add(int(s, 16))
  ctx.step(out['transitions'])
  ctx.traces += out['traces']
  ctx.evals += out['evals']
  for s in out['samples'][:2]:
    if len(ctx.samples) < 2:
      ctx.samples.append(s)
  for f in out['fails']:
    ctx.fail(f['key'], f['msg'])


def ask(questions):
  """Answers of the library, split into words; a question is a list of words and (key, value) pairs."""
  text = '\n'.join(' '.join(w if isinstance(w, str) else '%s=%s' % (w[0], w[1] if not isinstance(w[1], float) else repr(w[1])) for w in q) for q in questions) + '\n'
  r = java(['eval'], inp=text, timeout=800)
  out = [l.split(' ') for l in r.stdout.split('\n')[:len(questions)]]
  if r.returncode or len(out) != len(questions):
    raise RuntimeError('explorer ended with %d: %s' % (r.returncode, r.stderr[-800:]))
  return [[w for w in l if w] for l in out]
