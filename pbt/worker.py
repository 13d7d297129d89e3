"""Worker process: explores the targets of one check for one shard, or replays
cases."""
import importlib
import json
import os
import sys
import traceback

from pbt import env


def load_check(prop):
  return importlib.import_module('checks.' + prop.lower())


def main(argv):
  spec = json.loads(argv[0])
  out = spec['out']
  result = dict(results=[], replayed=[], error=None)
  try:
    check = None
    from pbt import core
    before = getattr(importlib.import_module('pbt.prelude'), 'PRELUDE', {})
    if spec['property'] in before:
      before[spec['property']]()
    env.setup_tf()
    check = load_check(spec['property'])
    targets = check.TARGETS
    if spec['cases']:
      for item in spec['cases']:
        target = [t for t in targets if t.name == item['target']][0]
        r = dict(target=target.name, case=item['case'], message=None)
        with open(spec['scratch'], 'w') as handle:
          json.dump(dict(target=target.name, case=item['case']), handle)
        try:
          core.execute(target, item['case'])
        except core.Violation as exc:
          r['message'] = str(exc)
        result['replayed'].append(r)
    if spec['mode'] == 'explore' and not any(r['message']
                                             for r in result['replayed']):
      for i, target in enumerate(targets):
        if spec.get('only') and target.name not in spec['only']:
          continue
        total = target.quick if spec['tier'] == 'quick' else target.thorough
        total = int(total * spec.get('scale', 1.0))
        n = total // spec['shards'] + (
            1 if spec['shard'] < total % spec['shards'] else 0)
        if n == 0:
          continue
        seed = (spec['seed'] * 1000003 + spec['shard'] * 7919 + i * 104729)
        r = core.explore(target, seed, n, spec['time_cap'],
                         spec['shrink_cap'], spec['scratch'])
        result['results'].append(r)
        if r['failure'] is not None and r['failure']['reproduced']:
          break
  except BaseException:  # pylint: disable=broad-except
    result['error'] = traceback.format_exc()[-6000:]
  with open(out + '.tmp', 'w') as handle:
    json.dump(result, handle)
  os.replace(out + '.tmp', out)
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  main(sys.argv[1:])
