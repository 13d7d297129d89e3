"""Collects the minimal cases of repaired and planted defects in corpus/.

  python3 tools/regress.py fixed [COMMIT ...]   each repair reverted
  python3 tools/regress.py planted [ID ...]     each change of seeded/

Each defect is put into a scratch copy of the repository, the check of its
property runs there (without the corpus), and the case of its replay file is kept (if it is small)."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHERE = '/tmp/verif_regress_copy'
LIMIT = 6000


def defects(kind, names):
  if kind == 'fixed':
    for entry in json.load(open(HERE + '/KNOWN_FINDINGS.json'))['entries']:
      if entry['kind'] == 'fixed' and (not names or entry['commit'] in names):
        yield entry['commit'], entry['property'], [
            'git', '-C', WHERE, 'revert', '-n', entry['commit']]
  else:
    for name in names or sorted(os.listdir(HERE + '/seeded')):
      folder = os.path.join(HERE, 'seeded', name)
      meta = json.load(open(folder + '/meta.json'))
      yield name, meta['property'], [
          'git', '-C', WHERE, 'apply', folder + '/patch.diff']


def main():
  for name, prop, command in defects(sys.argv[1], sys.argv[2:]):
    shutil.rmtree(WHERE, ignore_errors=True)
    shutil.copytree('/repo', WHERE, symlinks=True)
    if subprocess.run(command, capture_output=True).returncode:
      print(name, prop, 'does not apply', flush=True)
      continue
    run = subprocess.run([HERE + '/check', prop], capture_output=True,
                         text=True, env=dict(os.environ, VERIF_REPO=WHERE,
                                                   VERIF_CORPUS='off'))
    path = [l.split('replay=')[1] for l in run.stdout.splitlines()
            if l.startswith('VIOLATION')]
    if run.returncode != 1 or not path:
      print(name, prop, 'MISSED', run.returncode, flush=True)
      continue
    replay = json.load(open(os.path.join(HERE, path[0])))
    size = len(json.dumps(replay['case']))
    print(name, prop, replay['target'], size, replay['message'][:90],
          flush=True)
    if size > LIMIT:
      continue
    out = os.path.join(HERE, 'corpus', prop + '.json')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cases = json.load(open(out)) if os.path.exists(out) else []
    cases = [c for c in cases if c.get('from') != name]
    cases.append({'from': name, 'target': replay['target'],
                  'case': replay['case']})
    with open(out, 'w') as handle:
      handle.write('[\n' + ',\n'.join(json.dumps(c, sort_keys=True)
                                      for c in cases) + '\n]\n')
  shutil.rmtree(WHERE, ignore_errors=True)


main()
