"""Property-based testing core: targets, generated-input search, shrinking,
replay and the evidence of one worker process."""
import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback

from pbt import env

env.install_hypothesis()

import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402


def _plain_random_generation():
  """Keeps Hypothesis from spending most of the cases on copies of one part of
  a case into other parts: it makes most of them nearly constant here (measured:
  11 of 250 cases with shuffled batch ids, instead of about 80)."""
  from hypothesis.internal.conjecture import engine
  if hasattr(engine.ConjectureRunner, 'generate_mutations_from'):
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None


_plain_random_generation()


class Violation(Exception):
  """The code under test broke the property on a valid input."""


class _Stop(BaseException):
  """Leaves a Hypothesis run early (time cap, shrink budget)."""


class Target:
  """One executable property.

  Args:
    name: A string, used in replay files.
    strategy: A callable without arguments returning a Hypothesis strategy of
      JSON-able cases.
    run: A callable `run(case, ctx)` that executes the case and raises
      `Violation` if the oracle disagrees.
    quick, thorough: Number of cases (over all the shards).
  """

  def __init__(self, name, strategy, run, quick, thorough=None):
    self.name = name
    self.strategy = strategy
    self.run = run
    self.quick = quick
    self.thorough = thorough or quick * 12


class Context:
  """Collects what one case was about."""

  def __init__(self):
    self.labels = {}
    self.nontrivial = False

  def label(self, name, cond=True):
    if cond:
      self.labels[name] = 1
    return cond

  def interesting(self, cond=True):
    self.nontrivial = self.nontrivial or bool(cond)


def fail(message):
  raise Violation(message)


def require(cond, message, *args):
  if not cond:
    raise Violation(message % args if args else message)


@contextlib.contextmanager
def sut(what):
  """Calls into the code under test with input it has to accept."""
  try:
    yield
  except Violation:
    raise
  except Exception as exc:  # pylint: disable=broad-except
    raise Violation('%s raised %s: %s' % (
        what, type(exc).__name__, str(exc)[:600])) from exc


@contextlib.contextmanager
def rejects(what, kinds=None):
  """Calls into the code under test with input it has to reject."""
  try:
    yield
  except Violation:
    raise
  except Exception as exc:  # pylint: disable=broad-except
    if kinds is not None and not isinstance(exc, kinds):
      raise Violation('%s raised %s (%s) instead of %s' % (
          what, type(exc).__name__, str(exc)[:300], kinds)) from exc
    return
  raise Violation('%s was accepted' % what)


def _from_repo(exc):
  root = os.path.realpath(env.REPO) + os.sep
  tb = exc.__traceback__
  while tb is not None:
    if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
      return True
    tb = tb.tb_next
  return False


CASE_LIMIT_S = 120


def _on_alarm(signum, frame):
  raise Violation(
      'no result after %d s for a case that normally takes milliseconds' %
      CASE_LIMIT_S)


def execute(target, case, ctx=None):
  """Runs a case; raises Violation, or another exception for harness errors."""
  ctx = ctx or Context()
  signal.signal(signal.SIGALRM, _on_alarm)
  signal.alarm(CASE_LIMIT_S)
  try:
    target.run(case, ctx)
  except Violation:
    raise
  except Exception as exc:  # pylint: disable=broad-except
    if _from_repo(exc):
      raise Violation('code under test raised %s: %s' % (
          type(exc).__name__, str(exc)[:600])) from exc
    raise
  finally:
    signal.alarm(0)
  return ctx


def digest(case):
  return hashlib.sha1(
      json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def explore(target, seed, cases, time_cap, shrink_cap, scratch):
  """Searches for a violation of one target. Returns a dict of measurements."""
  start = time.time()
  res = dict(target=target.name, evaluations=0, nontrivial=[], labels={},
             samples=[], failure=None, capped=False, shrink_runs=0)
  seen = set()
  state = dict(first=None)

  def body(case):
    now = time.time()
    if state['first'] is None and now - start > time_cap:
      res['capped'] = True
      raise _Stop()
    if state['first'] is not None and now - state['first'] > shrink_cap:
      raise _Stop()
    if scratch:
      with open(scratch, 'w') as out:
        json.dump(dict(target=target.name, case=case), out)
    ctx = Context()
    try:
      execute(target, case, ctx)
    except Violation as exc:
      if state['first'] is None:
        state['first'] = time.time()
      size = len(json.dumps(case))
      if res['failure'] is None or size <= res['failure']['size']:
        res['failure'] = dict(size=size, case=case, message=str(exc))
      raise
    except Exception:
      # a defect of the harness: no verdict, nothing to shrink
      res['error'] = '%s\ncase: %s' % (traceback.format_exc()[-4000:],
                                       shrink_json(json.dumps(case)))
      raise _Stop()
    finally:
      if state['first'] is None:
        res['evaluations'] += 1
        for key in ctx.labels:
          res['labels'][key] = res['labels'].get(key, 0) + 1
        if ctx.nontrivial:
          h = digest(case)
          if h not in seen:
            seen.add(h)
            if len(seen) in (1, 7, 40):
              res['samples'].append(case)
      else:
        res['shrink_runs'] += 1

  phases = [hypothesis.Phase.generate, hypothesis.Phase.shrink]
  test = hypothesis.seed(seed)(hypothesis.settings(
      max_examples=cases, database=None, deadline=None, phases=phases,
      suppress_health_check=list(hypothesis.HealthCheck),
      report_multiple_bugs=False, print_blob=False,
      verbosity=hypothesis.Verbosity.quiet)(
          hypothesis.given(target.strategy())(body)))
  try:
    test()
  except _Stop:
    pass
  except Violation:
    pass
  except hypothesis.errors.Flaky:
    if res['failure'] is None:
      raise
  except BaseExceptionGroup:
    if res['failure'] is None:
      raise
  if res.get('error') and res['failure'] is None:
    raise RuntimeError(res['error'])
  res['nontrivial'] = sorted(seen)
  res['wall_s'] = time.time() - start
  if res['failure'] is not None:
    # the recorded case has to fail again outside Hypothesis
    try:
      execute(target, res['failure']['case'])
      res['failure']['reproduced'] = False
    except Violation as exc:
      res['failure']['reproduced'] = True
      res['failure']['message'] = str(exc)
  return res


def shrink_json(text, limit=1500):
  return text if len(text) <= limit else text[:limit] + '...'
