"""Makes and validates planted bugs: python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dictionaries with id, property, edits
([file, old, new]), demo (Python source, run with the repository as working
directory), needs and what. A bug is kept in /verif/seeded/<id> if the
demonstration passes without and fails with it, it changes lines of the
original repository and the stable tests pass with it.
"""
import json
import os
import shutil
import subprocess
import sys

BASE = '74fd6d6'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the property holds, run with the repository as working directory
export PYTHONPATH="$PWD" TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES=-1 \\
  TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)


def plant(bug, verify_tests=True):
  where = '/tmp/plant_' + bug['id']
  shutil.rmtree(where, ignore_errors=True)
  shutil.copytree('/repo', where, symlinks=True)
  try:
    for name, old, new in bug['edits']:
      path = os.path.join(where, name)
      text = open(path, newline='').read()
      crlf = '\r\n' in text
      if crlf:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
      if text.count(old) != 1:
        return '%d matches for the edit of %s' % (text.count(old), name)
      open(path, 'w', newline='').write(text.replace(old, new))
    patch = subprocess.run(['git', '-C', where, 'diff'], capture_output=True
                           ).stdout
    removed = {}
    name = None
    for line in patch.decode().splitlines():
      if line.startswith('--- a/'):
        name = line[6:].rstrip('\r')
      elif line.startswith('-'):
        removed.setdefault(name, []).append(line[1:].rstrip('\r'))
    original = False
    for name, lines in removed.items():
      base = set(sh(['git', '-C', '/repo', 'show', BASE + ':' + name]
                    ).stdout.replace('\r', '').split('\n'))
      original |= any(l.strip() and l in base for l in lines)
    if not original:
      return 'changes no original line'
    out = '/verif/seeded/' + bug['id']
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'wb').write(patch)
    open(out + '/demo.py', 'w').write(bug['demo'])
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    if bug.get('native'):
      # the emulated device, for changes of the CUDA sources
      shutil.copytree('/verif/pbt/cuda', out + '/pbt/cuda', dirs_exist_ok=True)
      for name in ('env.py', 'native.py', '__init__.py'):
        shutil.copy('/verif/pbt/' + name, out + '/pbt/' + name)
    json.dump(dict(property=bug['property'], needs=bug['needs'],
                   what_it_breaks=bug['what']),
              open(out + '/meta.json', 'w'), indent=1)
    clean = sh(['bash', out + '/demo.sh'], cwd='/repo')
    bad = sh(['bash', out + '/demo.sh'], cwd=where)
    if clean.returncode:
      return 'demo fails on the clean tree: ' + clean.stderr[-600:]
    if not bad.returncode:
      return 'demo passes with the bug'
    if 'Error' in bad.stderr and 'AssertionError' not in bad.stderr:
      print('  note: demo ends with', bad.stderr.strip().splitlines()[-1])
    if verify_tests:
      env = dict(os.environ, PYTHONPATH=where, TF_USE_LEGACY_KERAS='1',
                 CUDA_VISIBLE_DEVICES='-1', TF_CPP_MIN_LOG_LEVEL='3',
                 PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
      stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
      files = sorted({s.split('::')[0].rsplit('.', 1)[0].replace('.', '/') +
                      '.py' for s in stable})
      xml = where + '/junit.xml'
      sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4',
          '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + xml] +
         files, cwd=where, env=env)
      result = where + '/result.json'
      sh(['/usr/bin/python3', '/opt/vp/results.py', result, 'junit:' + xml])
      passed = set(json.load(open(result))['passed'])
      missing = set(stable) - passed
      if missing:
        return 'stable tests fail: ' + ', '.join(sorted(missing)[:4])
    return None
  finally:
    shutil.rmtree(where, ignore_errors=True)


def main():
  spec = {}
  exec(open(sys.argv[1]).read(), spec)
  for bug in spec['BUGS']:
    if sys.argv[2:] and bug['id'] not in sys.argv[2:]:
      continue
    problem = plant(bug)
    if problem:
      shutil.rmtree('/verif/seeded/' + bug['id'], ignore_errors=True)
    print(bug['id'], problem or 'kept', flush=True)


main()
