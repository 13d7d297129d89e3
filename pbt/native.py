"""Builds the native operations of custom_ops/ for the CPU.

The sources are copied, the parts of CUDA that are no C++ are rewritten, and
they are linked with cuda/emu.cpp, which runs the kernels. The result is a
package tfg_custom_ops that pylib takes instead of the TensorFlow
implementations."""
import ctypes
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from pbt import env

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cuda')


class CannotBuild(Exception):
  pass


def _rewrite(text):
  # kernel<D><<<blocks, threads, shared, stream>>>(arguments)
  text = re.sub(
      r'([A-Za-z_][\w:]*\s*(?:<[^<>;{}()]*>)?)\s*<<<(.*?)>>>\s*\(',
      r'::emu::launch("\1", [=](auto... emu_args) { \1(emu_args...); }, \2)(',
      text, flags=re.S)
  text = re.sub(
      r'extern\s+__shared__\s+(?:__align__\(\d+\)\s*)?([\w:]+)\s+(\w+)\s*'
      r'\[\s*\]\s*;', r'\1* \2 = (\1*)::emu::shared_dynamic();', text)
  text = re.sub(
      r'__shared__\s+(?:__align__\(\d+\)\s*)?([\w:<>, ]+?)\s+(\w+)\s*'
      r'((?:\[[^\];]*\]\s*)*);',
      r'static char emu_tag_\2; typedef \1 emu_type_\2 \3; '
      r'emu_type_\2& \2 = *(emu_type_\2*)::emu::shared_static('
      r'&emu_tag_\2, sizeof(emu_type_\2));', text)
  text = re.sub(
      r'REGISTER_KERNEL_BUILDER\s*\((.*?)Device\(\s*DEVICE_GPU\s*\)(.*?),'
      r'\s*([\w:<>]+)\s*\)\s*;',
      r'REGISTER_KERNEL_BUILDER(\1Device(DEVICE_CPU)\2, ::emu::Wrapped<\3>);',
      text, flags=re.S)
  text = re.sub(r'[\w]+\s*->\s*eigen_device<\s*Eigen::GpuDevice\s*>\(\)\s*'
                r'\.\s*stream\(\)', '::emu::stream()', text)
  text = re.sub(r'(\w+)\s*->\s*allocate_(output|temp)\s*\(',
                r'::emu::allocate_\2(\1, ', text)
  text = re.sub(r'\b(?:tensorflow::)?Status::OK\(\)', 'absl::OkStatus()',
                text)
  text = re.sub(r'#define\s+EIGEN_USE_GPU', '', text)
  text = re.sub(r'typedef\s+long\s+long(?:\s+int)?\s+int64_m',
                'typedef int64_t int64_m', text)
  text = re.sub(r'(?<![\w:.>])(?:::|std::)?exit\s*\(', '::emu::fail_exit(',
                text)
  text = re.sub(r'(?<![\w.>])(?:std::)?time\s*\(\s*(?:NULL|0|nullptr)\s*\)',
                '::emu::clock()', text)
  return text


def _sources(root):
  for folder, _, files in os.walk(root):
    for name in sorted(files):
      if name.endswith(('.cc', '.cpp', '.h', '.hpp', '.cuh', '.cu', '.py')) \
          and not name.endswith('_test.py'):
        yield os.path.join(folder, name)


def _digest(root):
  h = hashlib.sha256()
  for top in (root, HERE):
    for path in sorted(_sources(top)):
      h.update(os.path.relpath(path, top).encode())
      with open(path, 'rb') as f:
        h.update(f.read())
  with open(os.path.abspath(__file__), 'rb') as f:
    h.update(f.read())
  return h.hexdigest()[:16]


def build(target):
  """Builds the package into the folder target/<digest>, if it is not there,
  and returns the folder."""
  root = os.path.join(env.REPO, 'custom_ops', 'tfg_custom_ops')
  target = os.path.join(target, _digest(root))
  if os.path.exists(os.path.join(target, 'done')):
    return target
  shutil.rmtree(target, ignore_errors=True)
  src = os.path.join(target, 'src')
  package = os.path.join(target, 'tfg_custom_ops')
  compiled = []
  for path in _sources(root):
    name = os.path.relpath(path, root)
    with open(path, encoding='utf-8', errors='replace') as f:
      text = f.read()
    if name.endswith('.py'):
      out = os.path.join(package, name)
    else:
      out = os.path.join(src, 'tfg_custom_ops', name)
      text = _rewrite(text)
      if name.endswith(('.cc', '.cpp', '.cu')):
        compiled.append(out)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out, 'w', encoding='utf-8') as f:
      f.write(text)
  if not os.path.exists(os.path.join(package, 'shared', '__init__.py')):
    os.makedirs(os.path.join(package, 'shared'), exist_ok=True)
  import importlib.util
  tf = os.path.dirname(importlib.util.find_spec('tensorflow').origin)
  flags = ['-I' + HERE, '-I' + src, '-I' + os.path.join(tf, 'include'),
           '-std=c++17', '-fPIC', '-w', '-DNDEBUG', '-D_GLIBCXX_USE_CXX11_ABI=1',
           '-DEIGEN_MAX_ALIGN_BYTES=64', '-fvisibility=hidden', '-pthread',
           '-ffp-contract=off']
  errors = []

  def compile_one(path):
    out = path + '.o'
    kernel = path.endswith(('.cu.cc', '.cu'))
    extra = ['-O1', '-fsanitize=thread'] if kernel else ['-O0']
    if path.endswith('emu.cpp'):
      extra = ['-O2']
      out = os.path.join(target, 'emu.o')
    if kernel:
      extra += ['-x', 'c++', '-include', 'cuda_runtime.h']
    elif not path.endswith('emu.cpp'):
      extra += ['-include', 'emu_tf.h']
    run = subprocess.run(['g++', *flags, *extra, '-I' + os.path.dirname(path),
                          '-c', path, '-o', out],
                         capture_output=True, text=True)
    if run.returncode:
      errors.append('%s:\n%s' % (path, run.stderr[-3000:]))
    return out

  # the files that include TensorFlow take longest
  compiled.append(os.path.join(HERE, 'emu.cpp'))
  compiled.sort(key=lambda p: p.endswith('.cu.cc'))
  with ThreadPoolExecutor(8) as pool:
    objects = dict(zip(compiled, pool.map(compile_one, compiled)))
  if errors:
    raise CannotBuild('\n'.join(errors))
  common = [o for p, o in objects.items() if '/cc/ops/' not in p]
  for path, obj in objects.items():
    if '/cc/ops/' not in path:
      continue
    op = os.path.relpath(path, os.path.join(src, 'tfg_custom_ops')).split(
        os.sep)[0]
    so = os.path.join(package, op, 'python', 'ops', '_%s_ops.so' % op)
    run = subprocess.run(
        ['g++', '-shared', '-o', so, obj, *common, '-Wl,-Bsymbolic',
         '-L' + tf, '-l:libtensorflow_framework.so.2', '-pthread',
         '-Wl,-rpath,' + tf], capture_output=True, text=True)
    if run.returncode:
      raise CannotBuild(run.stderr[-3000:])
  shutil.rmtree(src)
  with open(os.path.join(target, 'done'), 'w') as f:
    f.write('ok\n')
  return target


BUILD = os.path.join(env.HERE, 'build', 'native')


def prepare():
  """Builds the package in a process of its own."""
  run = subprocess.run(
      [env.PYTHON, '-c', 'from pbt import native; native.main()'],
      env=dict(os.environ, PYTHONPATH=env.HERE), cwd=env.HERE,
      capture_output=True, text=True)
  if run.returncode:
    raise CannotBuild((run.stdout + run.stderr)[-4000:])


def main():
  import fcntl
  os.makedirs(BUILD, exist_ok=True)
  with open(os.path.join(BUILD, 'lock'), 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    keep = os.path.basename(build(BUILD))
    old = sorted((n for n in os.listdir(BUILD) if n not in ('lock', keep)),
                 key=lambda n: os.path.getmtime(os.path.join(BUILD, n)))
    for name in old[:-3]:
      shutil.rmtree(os.path.join(BUILD, name), ignore_errors=True)


_folder = None
_handles = []


def install():
  """Puts the package on the path; call it before pylib is imported."""
  global _folder
  _folder = build(BUILD)
  sys.path.insert(0, _folder)
  import tensorflow  # pylint: disable=unused-import
  import tfg_custom_ops  # pylint: disable=import-error,unused-import


def configure(seed, mps=2, blocks=2, preempt=0, resident=4, order=1):
  if not _handles:
    for where, _, files in os.walk(_folder):
      for name in files:
        if name.endswith('.so'):
          _handles.append(ctypes.CDLL(os.path.join(where, name)))
  for h in _handles:
    h.emu_configure(ctypes.c_uint64(seed), mps, blocks, preempt, resident,
                    order)
