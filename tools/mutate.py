"""Runs the checks against small random changes of a file of the repository:
python3 tools/mutate.py FILE COUNT SEED CHECK...

Prints the changes that none of the checks reports. These are either without
effect, outside of what is claimed, or show what the checks do not see."""
import ast
import os
import random
import shutil
import subprocess
import sys

SWAPS = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
         ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.Add: '-',
         ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/',
         ast.And: 'or', ast.Or: 'and'}
NAMES = {'minimum': 'maximum', 'maximum': 'minimum', 'floor': 'ceil',
         'ceil': 'floor', 'reduce_max': 'reduce_min', 'reduce_min': 'reduce_max',
         'reduce_sum': 'reduce_max', 'reduce_mean': 'reduce_sum',
         'reduce_prod': 'reduce_sum', 'unsorted_segment_max':
         'unsorted_segment_sum', 'unsorted_segment_sum': 'unsorted_segment_max',
         'unsorted_segment_mean': 'unsorted_segment_sum',
         'unsorted_segment_min': 'unsorted_segment_max'}


def changes(text):
  """List of (start, end, replacement) in characters."""
  tree = ast.parse(text)
  starts = [0]
  for line in text.split('\n'):
    starts.append(starts[-1] + len(line) + 1)
  at = lambda line, col: starts[line - 1] + col
  begin = lambda n: at(n.lineno, n.col_offset)
  end = lambda n: at(n.end_lineno, n.end_col_offset)
  docs = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      docs.add(id(n.value))
      docs.add(id(n))
    if isinstance(n, ast.Raise):
      for m in ast.walk(n):
        docs.add(id(m))
    if isinstance(n, (ast.arguments,)):
      continue
  out = []

  def between(a, b, old, new):
    piece = text[end(a):begin(b)]
    if piece.count(old) == 1:
      i = end(a) + piece.index(old)
      out.append((i, i + len(old), new))
  ops = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==',
         ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.Add: '+',
         ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
         ast.And: 'and', ast.Or: 'or'}
  for n in ast.walk(tree):
    if id(n) in docs:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      kind = type(n.ops[0])
      if kind in SWAPS:
        between(n.left, n.comparators[0], ops[kind], SWAPS[kind])
    elif isinstance(n, ast.BinOp) and type(n.op) in SWAPS:
      between(n.left, n.right, ops[type(n.op)], SWAPS[type(n.op)])
    elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
      between(n.values[0], n.values[1], ops[type(n.op)], SWAPS[type(n.op)])
    elif isinstance(n, ast.Constant):
      v = n.value
      if v is True or v is False:
        out.append((begin(n), end(n), str(not v)))
      elif isinstance(v, int):
        out.append((begin(n), end(n), str(v + 1)))
        if v:
          out.append((begin(n), end(n), str(v - 1)))
      elif isinstance(v, float):
        out.append((begin(n), end(n), repr(v * 1.25 + (v == 0))))
    elif isinstance(n, ast.Attribute) and n.attr in NAMES:
      out.append((end(n) - len(n.attr), end(n), NAMES[n.attr]))
    elif isinstance(n, (ast.AugAssign,)) or (
        isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
      out.append((begin(n), end(n), 'pass'))
    elif isinstance(n, ast.If):
      out.append((begin(n.test), end(n.test), 'True'))
      out.append((begin(n.test), end(n.test), 'False'))
    elif isinstance(n, ast.IfExp):
      out.append((begin(n), end(n), text[begin(n.body):end(n.body)]))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
      out.append((begin(n), begin(n.operand), ''))
    elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
      a, b = n.args
      out.append((begin(a), end(b), text[begin(b):end(b)] + ', ' +
                  text[begin(a):end(a)]))
  return out


def main():
  name, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
  checks = sys.argv[4:]
  text = open(os.path.join('/repo', name), newline='').read()
  if not text.isascii():
    text = text.encode('ascii', 'replace').decode()
  found = changes(text)
  random.Random(seed).shuffle(found)
  where = '/tmp/mutate_%s' % name.replace('/', '_')
  shutil.rmtree(where, ignore_errors=True)
  shutil.copytree('/repo', where, symlinks=True)
  survived = 0
  try:
    for start, stop, new in found[:count]:
      changed = text[:start] + new + text[stop:]
      try:
        compile(changed, name, 'exec')
      except SyntaxError:
        continue
      with open(os.path.join(where, name), 'w', newline='') as f:
        f.write(changed)
      line = text[:start].count('\n') + 1
      row = text.split('\n')[line - 1].strip()
      caught = None
      for check in checks:
        run = subprocess.run(
            ['/verif/check', check], capture_output=True, text=True,
            env=dict(os.environ, VERIF_REPO=where, VERIF_CORPUS='off'))
        if run.returncode == 1:
          caught = check
          break
        if run.returncode:
          caught = check + ' (exit %d)' % run.returncode
          break
      print('%s %s:%d  %r -> %r   %s' % (
          caught or 'SURVIVED', name, line, text[start:stop][:60], new[:60],
          row[:100] if not caught else ''), flush=True)
      survived += not caught
  finally:
    shutil.rmtree(where, ignore_errors=True)
  print('%d survived' % survived)


main()
