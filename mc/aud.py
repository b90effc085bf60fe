"""Stand-ins for the libraries dp_auditorium imports and this sandbox lacks.

tensorflow: numpy tensors, and models over a finite set of outputs that are trained exactly (by counting) and
evaluated exactly. vizier: a study that proposes a scripted list of trials and records what is done to each.
pipeline_dp: an engine that records the budget and hands every record it is given to the extractors.
"""
import sys
import types

import numpy as np


def _module(name, **attrs):
  m = types.ModuleType(name)
  m.__dict__.update(attrs)
  sys.modules[name] = m
  parent, _, child = name.rpartition('.')
  if parent:
    setattr(sys.modules[parent], child, m)
  return m


# -- tensorflow -------------------------------------------------------------

class KerasModel:
  """tf.keras.Model as far as the testers use it."""

  def __init__(self):
    self.compiled = None
    self.fits = []

  def __call__(self, data, training=None):
    return self.call(data, training=training)

  def compile(self, **kw):
    self.compiled = kw
    self.optimizer = kw.get('optimizer')

  def fit(self, *args, **kw):
    self.fits.append((args, kw))


class Rec:
  """An object that remembers how it was made."""

  def __init__(self, *args, **kw):
    self.args, self.kw = args, kw

  def get(self, i, name, default=None):
    return self.args[i] if len(self.args) > i else self.kw.get(name, default)


class TableClassifier(KerasModel):
  """Trained exactly: the score of an output is (ones - zeros) / n; unseen outputs score `prior`."""

  def __init__(self, prior=0.3, forced=None):
    super().__init__()
    self.prior = prior
    self.forced = forced
    self.table = {}
    self.clones = []

  def clone(self):
    c = TableClassifier(self.prior, self.forced)
    self.clones.append(c)
    return c

  def fit(self, x, y, **kw):
    super().fit(x, y, **kw)
    t = {}
    for row, lab in zip(np.asarray(x), np.asarray(y).reshape(-1)):
      k = tuple(np.asarray(row).reshape(-1).tolist())
      t[k] = t.get(k, 0) + (1 if lab else -1)
    for k, v in t.items():
      self.table[k] = self.table.get(k, 0.0) + v / len(x)

  def score(self, row):
    k = tuple(np.asarray(row).reshape(-1).tolist())
    if self.forced is not None:
      return self.forced[k]
    return self.table.get(k, self.prior)

  def evaluate(self, x, y, batch_size=None, **kw):
    thr = 0.5
    for m in self.compiled.get('metrics', []):
      thr = m.get(2, 'threshold', 0.5)
    ok = [(self.score(r) > thr) == bool(l) for r, l in zip(np.asarray(x), np.asarray(y).reshape(-1))]
    return [0.25, float(np.mean(ok)) if ok else float('nan')]


class TableModel:
  """A network over a finite set of outputs; add() stacks activations, as Sequential does."""

  def __init__(self, table):
    self.table = table
    self.layers = []

  def add(self, layer):
    self.layers.append(layer)

  trainable_variables = ('w0', 'w1')

  def __call__(self, x, training=None):
    v = np.array([self.table[tuple(np.asarray(r).reshape(-1).tolist())] for r in x], dtype=float)
    for l in self.layers:
      v = l.get(0, 'activation')(v)
    return v


def _clone(m):
  return m.clone()


class Tape:
  """Its gradients name the loss they were taken of."""

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def gradient(self, loss, variables):
    return [('gradient', loss, v) for v in variables]


class Adam(Rec):
  applied = None

  def apply_gradients(self, pairs):
    self.applied = (self.applied or []) + list(pairs)


def install():
  """Puts the stand-ins in place; idempotent."""
  if getattr(sys.modules.get('tensorflow'), '_dp_standin', False):
    return
  _module('typing_extensions', override=lambda f: f)
  _module('etils')
  _module('etils.array_types', IntArray=np.ndarray, FloatArray=np.ndarray)
  tf = _module('tensorflow', _dp_standin=True, Tensor=np.ndarray, exp=np.exp, shape=np.shape, GradientTape=Tape,
               reduce_mean=np.mean)
  _module('tensorflow.math', reduce_mean=np.mean, log=np.log, exp=np.exp)
  k = _module('tensorflow.keras', Model=KerasModel, Sequential=Rec)
  _module('tensorflow.keras.models', clone_model=_clone, Sequential=Rec)
  _module('tensorflow.keras.layers', Dense=Rec, Activation=Rec)
  _module('tensorflow.keras.activations', tanh=np.tanh, relu=lambda x: np.maximum(x, 0))
  _module('tensorflow.keras.optimizers', Adam=Adam)
  _module('tensorflow.keras.losses', BinaryCrossentropy=Rec)
  _module('tensorflow.keras.metrics', BinaryAccuracy=Rec)
  del tf, k
  install_vizier()
  install_pipeline()


# -- vizier -----------------------------------------------------------------

class Trial:

  def __init__(self, tid, parameters, log):
    self.tid, self.parameters, self.log = tid, parameters, log
    self.completions = []

  def complete(self, measurement=None, **kw):
    m = measurement.metrics if measurement is not None else None
    self.completions.append(m)
    self.log.append(('complete', self.tid, m))


class Root:

  def __init__(self):
    self.params = []

  def add_float_param(self, name, min_value=None, max_value=None, **kw):
    self.params.append((name, 'float', min_value, max_value))

  def add_int_param(self, name, min_value=None, max_value=None, **kw):
    self.params.append((name, 'int', min_value, max_value))


class Problem:

  def __init__(self):
    self.search_space = types.SimpleNamespace(root=Root())
    self.metric_information = []


class StudyConfig:

  @classmethod
  def from_problem(cls, problem):
    c = cls()
    c.problem = problem
    c.algorithm = None
    return c


class Measurement:

  def __init__(self, metrics=None, **kw):
    self.metrics = dict(metrics or {})


class Study:
  """Proposes Study.script[i] (None, parameters, or 'empty') at the i-th suggestion."""
  script = None
  last = None

  def __init__(self, config, owner, study_id):
    self.config, self.owner, self.study_id = config, owner, study_id
    self.log = []
    self.trials = []
    self.n = 0
    Study.last = self

  @classmethod
  def from_study_config(cls, config, owner=None, study_id=None, **kw):
    return cls(config, owner, study_id)

  def suggest(self, count=None, **kw):
    self.log.append(('suggest', count))
    item = Study.script(self, self.n)
    self.n += 1
    if item == 'empty':
      return []
    if item is None:
      return [None]
    t = Trial(len(self.trials), item, self.log)
    self.trials.append(t)
    return [t]


def install_vizier():
  _module('vizier')
  _module('vizier.service')
  _module('vizier.service.clients', Study=Study, Trial=Trial)
  _module('vizier.service.pyvizier', ProblemStatement=Problem, StudyConfig=StudyConfig, Measurement=Measurement,
          MetricInformation=Rec, Algorithm=str,
          ObjectiveMetricGoal=types.SimpleNamespace(MAXIMIZE='max', MINIMIZE='min'))


# -- pipeline_dp ------------------------------------------------------------

class Pipe:
  """What one run of the engine was given."""
  runs = []


class Accountant:

  def __init__(self, total_epsilon, total_delta, **kw):
    self.eps, self.delta = total_epsilon, total_delta
    self.computed = 0

  def compute_budgets(self):
    self.computed += 1


class Engine:

  def __init__(self, budget_accountant, backend):
    self.acc = budget_accountant

  def aggregate(self, col, params, data_extractors, public_partitions=None, **kw):
    e = data_extractors
    rows = [(e.partition_extractor(x), e.privacy_id_extractor(x), e.value_extractor(x)) for x in col]
    rec = dict(eps=self.acc.eps, delta=self.acc.delta, rows=rows, params=params, public=public_partitions,
               fresh=all(r['acc'] is not self.acc for r in Pipe.runs), acc=self.acc)
    Pipe.runs.append(rec)

    def gen():  # lazy, as in the library: budgets have to be known by the time it is consumed
      if not self.acc.computed:
        raise AssertionError('budgets not computed')
      parts = public_partitions if public_partitions is not None else sorted({r[0] for r in rows})
      for p in parts:
        vals = [v for q, _, v in rows if q == p]
        yield p, (float(sum(vals)), float(len(vals)))
    return gen()


class Extractors:

  def __init__(self, partition_extractor=None, privacy_id_extractor=None, value_extractor=None):
    self.partition_extractor = partition_extractor
    self.privacy_id_extractor = privacy_id_extractor
    self.value_extractor = value_extractor


def install_pipeline():
  _module('pipeline_dp', NaiveBudgetAccountant=Accountant, DPEngine=Engine, LocalBackend=Rec,
          DataExtractors=Extractors, AggregateParams=Rec)
