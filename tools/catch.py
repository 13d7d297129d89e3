"""Runs the checks against the planted bugs, each in its own scratch copy of
the repository: python3 tools/catch.py [ID ...]"""
import json
import os
import shutil
import subprocess
import sys
import time

SEEDED = '/verif/seeded'


def main():
  names = sys.argv[1:] or sorted(os.listdir(SEEDED))
  for name in names:
    meta = json.load(open(os.path.join(SEEDED, name, 'meta.json')))
    where = '/tmp/catch_' + name
    shutil.rmtree(where, ignore_errors=True)
    shutil.copytree('/repo', where, symlinks=True)
    try:
      subprocess.run(['git', '-C', where, 'apply',
                      os.path.join(SEEDED, name, 'patch.diff')], check=True)
      start = time.time()
      run = subprocess.run(
          ['/verif/check', meta['property']], capture_output=True, text=True,
          env=dict(os.environ, VERIF_REPO=where, VERIF_CORPUS='off'))
      lines = [l for l in run.stdout.splitlines() if 'VIOLATION' in l]
      good = run.returncode == 1 and any(
          'property=' + meta['property'] in l for l in lines)
      print('%-28s %s %-7s exit %d %5.1f s  %s' %
            (name, meta['property'], 'caught' if good else 'MISSED',
             run.returncode, time.time() - start,
             (lines or run.stdout.splitlines()[-1:] or [''])[0][:200]),
            flush=True)
    finally:
      shutil.rmtree(where, ignore_errors=True)


main()
