"""Runner: enumerates every case of a check, in parallel, and reports.

A check module (checks/<ID>.py) defines

  PROPERTY, LEVEL, RULE, ASSUMPTIONS      metadata for the evidence file
  cases(tier)                             yields JSON-able case descriptors
  run(case, ctx)                          explores one case on the real code

`cases` must be a deterministic, finite enumeration: nothing here samples.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
  pass


class Ctx:
  """What a case reports back while it runs."""

  def __init__(self):
    self.states = set()
    self.transitions = 0
    self.traces = 0
    self.evals = 0
    self.nontrivial = set()
    self.fails = []
    self.samples = []
    self.counters = {}
    self.case = None

  # -- counting ---------------------------------------------------------
  def state(self, key):
    """Records a reached state of the reference model."""
    self.states.add(hash64(key))

  def step(self, n=1):
    """Records executed transitions (operations run on the real code)."""
    self.transitions += n

  def trace(self, sample=None):
    """Records one complete execution compared with the model."""
    self.traces += 1
    if sample is not None and len(self.samples) < 2:
      self.samples.append(sample)

  def ev(self, key=None, nontrivial=True):
    """Records an oracle comparison."""
    self.evals += 1
    if key is not None and nontrivial:
      self.nontrivial.add(hash64(key))

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  # -- verdicts -----------------------------------------------------------
  def fail(self, key, msg, **data):
    """key identifies the input / history that fails (for known findings)."""
    same = sum(1 for f in self.fails if f['key'] == key)
    if same < 3 and len(self.fails) < 200:
      self.fails.append({'key': key, 'msg': msg, 'case': self.case,
                         'data': jsonable(data)})

  def check(self, cond, key, msg, **data):
    self.evals += 1
    if not cond:
      self.fail(key, msg, **data)
    return cond


def jsonable(x):
  try:
    json.dumps(x)
    return x
  except (TypeError, ValueError):
    if isinstance(x, dict):
      return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
      return [jsonable(v) for v in x]
    return repr(x)


def hash64(key):
  if not isinstance(key, (bytes, str)):
    key = repr(key)
  if isinstance(key, str):
    key = key.encode()
  return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'big')


def _alarm(signum, frame):
  raise CaseTimeout()


_MOD = None
_CASE_LIMIT = 300


def _quiet():
  import logging
  logging.disable(logging.CRITICAL)
  warnings.simplefilter('ignore')
  try:
    import numpy as np
    np.seterr(all='ignore')
  except ImportError:
    pass
  try:
    from absl import logging as al
    al.set_verbosity(al.FATAL)
  except ImportError:
    pass


def run_case(case):
  ctx = Ctx()
  ctx.case = case
  _quiet()
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(_CASE_LIMIT)
  try:
    _MOD.run(case, ctx)
  except CaseTimeout:
    ctx.fail('timeout:%s' % json.dumps(case, sort_keys=True, default=repr)[:200],
             'no answer within %d s' % _CASE_LIMIT)
  except Exception as e:  # an answer was required and none was given
    ctx.fail('exception:%s:%s' % (type(e).__name__, json.dumps(
        case, sort_keys=True, default=repr)[:200]),
             'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
             trace=traceback.format_exc()[-1500:])
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
  return ctx.__dict__


def known_findings(prop):
  path = os.path.join(ROOT, 'known_findings.txt')
  out = {}
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('known: property=%s ' % prop):
        # known: property=ID key=<key> | what fails
        rest = line.split(' ', 2)[2]
        key, _, what = rest.partition(' | ')
        out[key[len('key='):]] = what
  return out


def main():
  global _MOD, _CASE_LIMIT
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--procs', type=int, default=int(os.environ.get('VERIF_PROCS', '8')))
  a = ap.parse_args()
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  t0 = time.time()
  prop = a.property
  evdir = os.path.join(ROOT, 'evidence')
  os.makedirs(evdir, exist_ok=True)
  _quiet()
  total_limit = 780 if tier == 'quick' else 6 * 3600
  _CASE_LIMIT = 240 if tier == 'quick' else 3600
  try:
    _MOD = importlib.import_module('checks.' + prop)
  except Exception as e:  # the code under test cannot even be imported
    _MOD = None
    imp_err = e
    trace = traceback.format_exc()
  known = known_findings(prop)

  if _MOD is None:
    results = [{'states': set(), 'transitions': 0, 'traces': 0, 'evals': 0,
                'nontrivial': set(), 'samples': [], 'counters': {},
                'fails': [{'key': 'import', 'msg': 'cannot import: %r' % imp_err,
                           'case': None, 'data': {'trace': trace}}]}]
    ncases = 0
    level, rule, assumptions = 'exploration', 'import', []
  else:
    level = _MOD.LEVEL
    rule = ' '.join(_MOD.RULE.split())
    assumptions = _MOD.ASSUMPTIONS
    if a.replay:
      rec = json.load(open(a.replay))
      cases = [rec['case']]
      tier = rec.get('tier', tier)
    setup = getattr(_MOD, 'setup', None)
    setup_err = None
    try:
      if setup:
        setup(tier)
      if not a.replay:
        cases = list(_MOD.cases(tier))
    except Exception as e:
      cases, setup_err = [], (e, traceback.format_exc())
    ncases = len(cases)
    results = []
    stop_early = 200 if not os.environ.get('VERIF_ALL') else 10**9
    if os.environ.get('VERIF_STOP'):  # development aid
      stop_early = 1
    if not cases:
      pass
    elif a.procs <= 1 or ncases == 1:
      results = [run_case(c) for c in cases]
    else:
      ctx = mp.get_context('fork')
      pool = ctx.Pool(a.procs)
      it = pool.imap_unordered(run_case, cases)
      nf = 0
      done = 0
      while done < ncases:
        left = total_limit - (time.time() - t0)
        try:
          r = it.next(timeout=max(1.0, left))
        except StopIteration:
          break
        except mp.TimeoutError:
          results.append({'states': set(), 'transitions': 0, 'traces': 0,
                          'evals': 0, 'nontrivial': set(), 'samples': [],
                          'counters': {}, 'fails': [{
                              'key': 'no-termination', 'case': None, 'data': {},
                              'msg': 'exploration did not finish: %d of %d cases '
                                     'answered' % (done, ncases)}]})
          break
        done += 1
        results.append(r)
        nf += sum(1 for f in r['fails'] if f['key'] not in known)
        if nf >= stop_early:
          break
      pool.terminate()
      pool.join()

    if setup_err:
      results.append({'states': set(), 'transitions': 0, 'traces': 0, 'evals': 0, 'nontrivial': set(), 'samples': [],
                      'counters': {}, 'fails': [{'key': 'setup', 'msg': '%s: %s' % (type(setup_err[0]).__name__, str(setup_err[0])[-900:]),
                                                 'case': None, 'data': {'trace': setup_err[1]}}]})
    teardown = getattr(_MOD, 'teardown', None)
    if teardown:
      teardown()

  states, nontriv = set(), set()
  trans = traces = evals = 0
  samples, fails, counters = [], [], {}
  for r in results:
    states |= r['states']
    nontriv |= r['nontrivial']
    trans += r['transitions']
    traces += r['traces']
    evals += r['evals']
    fails += r['fails']
    for k, v in r['counters'].items():
      counters[k] = counters.get(k, 0) + v
    if len(samples) < 6:
      for s in r['samples']:
        samples.append(jsonable(s))
  samples = samples[:6]

  seen_known, new = {}, []
  for f in fails:
    if f['key'] in known:
      seen_known.setdefault(f['key'], f)
    else:
      new.append(f)

  cov = {'samples': samples or ['(none)'], 'cases': ncases, 'rule': rule,
         'exhaustive': not new}
  if level == 'model_checking':
    cov.update(states=len(states), transitions=trans,
               traces_validated_against_impl=traces)
    if evals:
      cov['oracle_comparisons'] = evals
  else:
    cov.update(evaluations=evals, distinct_nontrivial=len(nontriv))
    if states:
      cov['model_states'] = len(states)
    if trans:
      cov['operations_executed'] = trans
  if counters:
    cov['counters'] = counters
  wall = time.time() - t0
  if not a.replay:
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(wall, 2), 'violations': len(new)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
      json.dump(ev, fh, indent=1, sort_keys=True)

  print('%s %s: cases=%d states=%d transitions=%d traces=%d comparisons=%d '
        'wall=%.1fs' % (prop, tier, ncases, len(states), trans, traces, evals,
                        wall))
  for key, what in known.items():
    if key in seen_known:
      print('KNOWN-FINDING: property=%s %s (%s)' % (prop, what, key))
    elif not a.replay:
      print('note: known finding not reproduced: property=%s %s' % (prop, key))
  if new:
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, f in enumerate(new[:5]):
      path = os.path.join(rdir, '%s-%d.json' % (prop, i))
      f = dict(f, property=prop)
      with open(path, 'w') as fh:
        json.dump(f, fh, indent=1, default=repr)
      print('  %s: %s  [%s]' % (prop, f['msg'][:400], f['key'][:160]))
      print('VIOLATION property=%s replay=%s' % (prop, path))
    if os.environ.get('VERIF_ALL'):  # development aid
      for f in new:
        print('ALL', f['key'][:200], '|', f['msg'][:250].replace('\n', ' '))
    if len(new) > 5:
      print('  ... and %d more' % (len(new) - 5))
    sys.stdout.flush()
    os._exit(1)
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  # Make this module importable by its proper name so that globals are shared.
  from mc import run as _self
  _self.main()
