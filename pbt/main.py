"""Parent process of a check: runs the shards, merges what they measured, writes
evidence and replay files.

  python -m pbt.main C05              the check of property C05
  python -m pbt.main replay FILE      re-executes a replay file
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from pbt import env

SHARDS = 8
KNOWN = os.path.join(env.HERE, 'KNOWN_FINDINGS.json')


def _spawn(spec):
  environ = dict(os.environ)
  environ.update(env.RUN_ENV)
  environ['PYTHONPATH'] = env.HERE
  environ['TMPDIR'] = os.path.dirname(spec['out'])
  environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(
      os.path.dirname(spec['out']), 'hypothesis')
  return subprocess.Popen(
      [env.PYTHON, '-m', 'pbt.worker', json.dumps(spec)],
      cwd=env.HERE, env=environ, stdin=subprocess.DEVNULL,
      stdout=subprocess.DEVNULL, stderr=open(spec['out'] + '.err', 'w'),
      start_new_session=True)


def _wait(procs, limit):
  end = time.time() + limit
  for proc in procs:
    try:
      proc.wait(max(0.1, end - time.time()))
    except subprocess.TimeoutExpired:
      for p in procs:
        if p.poll() is None:
          os.killpg(p.pid, signal.SIGKILL)
          p.wait()
      return False
  return True


def _read(path):
  try:
    with open(path) as handle:
      return json.load(handle)
  except (OSError, ValueError):
    return None


def _error_text(spec, data, proc):
  if data is not None and data['error']:
    return data['error']
  try:
    with open(spec['out'] + '.err') as handle:
      tail = handle.read()[-3000:]
  except OSError:
    tail = ''
  return 'worker ended with code %s\n%s' % (proc.returncode, tail)


def replay_cases(prop, cases, tmp, limit=600):
  """Runs cases in one fresh worker. Returns (results, crash signal, error)."""
  spec = dict(property=prop, mode='replay', cases=cases,
              out=os.path.join(tmp, 'replay.out'),
              scratch=os.path.join(tmp, 'replay.case'))
  for name in (spec['out'], spec['scratch']):
    if os.path.exists(name):
      os.remove(name)
  proc = _spawn(spec)
  if not _wait([proc], limit):
    return [], None, 'replay did not finish'
  data = _read(spec['out'])
  if data is None and proc.returncode < 0 and proc.returncode != -9:
    return [], -proc.returncode, None
  if data is None or data['error']:
    return [], None, _error_text(spec, data, proc)
  return data['replayed'], None, None


class Unprepared(Exception):
  pass


def prepare(prop):
  """What has to be done once before the workers start."""
  from pbt import prelude
  if prop in prelude.PREPARE:
    try:
      prelude.PREPARE[prop]()
    except Exception as error:  # pylint: disable=broad-except
      raise Unprepared(str(error))


def load_known():
  if not os.path.exists(KNOWN):
    return []
  with open(KNOWN) as handle:
    return json.load(handle)['entries']


def write_replay(prop, body):
  folder = os.path.join(env.HERE, 'replay')
  os.makedirs(folder, exist_ok=True)
  text = json.dumps(body, indent=1, sort_keys=True)
  import hashlib
  name = '%s-%s.json' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10])
  path = os.path.join(folder, name)
  with open(path, 'w') as handle:
    handle.write(text + '\n')
  return os.path.relpath(path, env.HERE)


def run_check(prop):
  start = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  scale = float(os.environ.get('VERIF_SCALE', '1'))
  only = os.environ.get('VERIF_ONLY')
  tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
  try:
    return _run_check(prop, seed, tier, scale, only, tmp, start)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def _run_check(prop, seed, tier, scale, only, tmp, start):
  prepare(prop)
  specs = []
  corpus = _read(os.path.join(env.HERE, 'corpus', prop + '.json')) or []
  if os.environ.get('VERIF_CORPUS') == 'off':
    corpus = []
  corpus = [c for c in corpus if not only or c['target'] in only.split(',')]
  for shard in range(SHARDS):
    specs.append(dict(
        cases=corpus[shard::SHARDS],
        property=prop, mode='explore', tier=tier, seed=seed, shard=shard,
        shards=SHARDS, scale=scale, only=only.split(',') if only else None,
        time_cap=150 if tier == 'quick' else 6 * 3600,
        shrink_cap=25 if tier == 'quick' else 300,
        out=os.path.join(tmp, 'out%d' % shard),
        scratch=os.path.join(tmp, 'case%d' % shard)))
  procs = [_spawn(spec) for spec in specs]
  finished = _wait(procs, 800 if tier == 'quick' else 24 * 3600)

  errors, failures, results, corpus_runs = [], [], [], 0
  for spec, proc in zip(specs, procs):
    data = _read(spec['out'])
    if data is None and proc.returncode < 0 and proc.returncode != -9:
      # the code under test took the process down: confirm with the case
      case = _read(spec['scratch'])
      if case is not None:
        _, crash, _ = replay_cases(prop, [case], tmp)
        if crash is not None:
          failures.append(dict(
              target=case['target'], case=case['case'], size=10**6,
              message='the process died with signal %d' % crash))
          continue
    if data is None or data['error']:
      errors.append('shard %d: %s' % (spec['shard'],
                                      _error_text(spec, data, proc)))
    if data is not None:
      corpus_runs += len(data['replayed'])
      failures += [dict(r, size=0, reproduced=True) for r in data['replayed']
                   if r['message'] is not None]
      for r in data['results']:
        r['shard'] = spec['shard']
        results.append(r)
        if r['failure'] is not None:
          failures.append(dict(r['failure'], target=r['target'],
                               shard=spec['shard']))
  if not finished:
    errors.append('not finished in time')

  known = [k for k in load_known()
           if k['property'] == prop and k['kind'] == 'finding']
  for entry in known:
    print('KNOWN-FINDING: property=%s %s' % (prop, entry['what']))

  nontrivial, labels, samples, per_target = {}, {}, [], {}
  evaluations = 0
  for r in results:
    evaluations += r['evaluations']
    for h in r['nontrivial']:
      nontrivial[(r['target'], h)] = 1
    entry = per_target.setdefault(
        r['target'], dict(evaluations=0, distinct_nontrivial=0, labels={}))
    entry['evaluations'] += r['evaluations']
    for key, value in r['labels'].items():
      entry['labels'][key] = entry['labels'].get(key, 0) + value
    if len([s for s in samples if s['target'] == r['target']]) < 2:
      for case in r['samples'][:1]:
        text = json.dumps(case)
        samples.append(dict(
            target=r['target'],
            case=case if len(text) < 1500 else text[:1500] + '...'))
  for (name, _) in nontrivial:
    per_target[name]['distinct_nontrivial'] += 1

  import importlib
  rules = json.load(open(os.path.join(env.HERE, 'checks', 'rules.json')))
  evidence = dict(
      property=prop, tier=tier, seed=seed, level='exploration',
      coverage=dict(
          evaluations=evaluations,
          distinct_nontrivial=len(nontrivial),
          rule=rules.get(prop, {}).get('rule', ''),
          samples=samples,
          targets=per_target,
          corpus_cases=corpus_runs,
          shards=SHARDS,
          time_capped=any(r['capped'] for r in results)),
      assumptions=rules.get(prop, {}).get('assumptions', []),
      wall_s=round(time.time() - start, 2),
      violations=len(failures))
  os.makedirs(os.path.join(env.HERE, 'evidence'), exist_ok=True)
  path = os.path.join(env.HERE, 'evidence', prop + '.json')
  with open(path + '.tmp', 'w') as handle:
    json.dump(evidence, handle, indent=1)
    handle.write('\n')
  os.replace(path + '.tmp', path)

  if failures:
    failures.sort(key=lambda f: (not f.get('reproduced', True), f['size']))
    best = failures[0]
    body = dict(property=prop, target=best['target'], case=best['case'],
                message=best['message'], seed=seed, tier=tier)
    if best.get('reproduced') is False:
      body['note'] = ('fails only after the cases generated before it: rerun '
                      'the check with this seed')
    path = write_replay(prop, body)
    print('%s/%s: %s' % (prop, best['target'], best['message']))
    for other in sorted({'%s: %s' % (f['target'], f['message'][:300])
                         for f in failures[1:]})[:20]:
      print('also in ' + other, file=sys.stderr)
    for text in errors:
      print('note: ' + text, file=sys.stderr)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
  if errors:
    print('ERROR in check %s (no verdict)' % prop, file=sys.stderr)
    for text in errors[:3]:
      print(text, file=sys.stderr)
    return 2
  print('%s held on %d cases (%d distinct non-trivial) in %.1f s' % (
      prop, evaluations, len(nontrivial), time.time() - start))
  return 0


def run_replay(path):
  with open(path) as handle:
    body = json.load(handle)
  tmp = tempfile.mkdtemp(prefix='verif-replay-')
  try:
    prepare(body['property'])
    results, crash, error = replay_cases(
        body['property'], [dict(target=body['target'], case=body['case'])],
        tmp)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  if error is not None:
    print(error, file=sys.stderr)
    return 2
  message = ('the process died with signal %d' % crash if crash
             else results[0]['message'])
  if message is None:
    print('%s/%s: the case passes' % (body['property'], body['target']))
    return 0
  print('%s/%s: %s' % (body['property'], body['target'], message))
  print('VIOLATION property=%s replay=%s' % (body['property'], path))
  return 1


def main(argv):
  if argv and argv[0] == 'replay':
    return run_replay(argv[1])
  try:
    return run_check(argv[0])
  except Unprepared as error:
    print('ERROR in check %s (no verdict)\n%s' % (argv[0], error),
          file=sys.stderr)
    return 2


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
