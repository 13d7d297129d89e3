"""Writes MANIFEST.json and checks/rules.json (run after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LATTICE = ('Clouds are integers times a step: on dyadic steps every float32 '
           'decision is exact, elsewhere pairs within rounding of a boundary '
           'are not judged.')
CLOUD = ('Batches of 1-6 clouds (empty ones where allowed), 2-6 dimensions, '
         'given with shuffled batch ids, with sizes or padded (garbage in the '
         'padding), with per-cloud offsets, duplicate points and degenerate '
         '(flat) clouds. ')
FLOAT = ('Floats are compared with a tolerance derived from the magnitude of '
         'the summed terms.')
CPU = 'TensorFlow 2.16 eager CPU kernels and NumPy are trusted.'
PRIV = ('Weights are set, and pairs read, through the attributes of the '
        'objects (there is no public accessor).')

# id: (technique, rule, assumptions)
C = {}


def c(pid, technique, rule, *assumptions):
  C[pid] = (technique, rule, list(assumptions) + [CPU])


c('C01', 'property-based testing against a list-of-arrays model',
  CLOUD + 'Each is built, read back in every form and compared with the plain '
  'lists of points. Non-trivial: more than one cloud and more than two points.')
c('C02', 'model-based stateful property testing',
  CLOUD + 'A random history of reshapes (valid, None, invalid) and reads runs '
  'on one object; every read is compared with the model of the current batch '
  'shape. Non-trivial: the history reshapes at least once and uses at least 3 '
  'kinds of operations.')
c('C03', 'property-based testing against brute-force boxes',
  CLOUD + 'Boxes and diameters of all norms are compared with per-cloud minima '
  'and maxima. Non-trivial: more than one cloud and one with several points.')
c('C04', 'property-based testing of rejection (mutated valid calls)',
  'A valid call of a constructor, accessor, layer or reader is generated, one '
  'argument corrupted; the corrupted call has to raise (the documented type '
  'where there is one) and the valid call to succeed. Every case is '
  'non-trivial: each executes a valid and a corrupted call.')
c('C05', 'property-based testing against a float64 grid model',
  CLOUD + 'Keys, order, permutation and table are compared with a brute-force '
  'grid. Non-trivial: more than two occupied cells, one with several points.',
  LATTICE)
c('C06', 'property-based testing against brute-force neighbor search',
  CLOUD + 'Centers: the points, a subset, or other points (also outside the '
  'box); the sets of pairs, order, ranges and limits are compared with all '
  'pairwise distances. Non-trivial: there are pairs besides the trivial ones, '
  'and not all points of a cloud are neighbors.', LATTICE, PRIV)
c('C07', 'metamorphic property testing (transposition) with a brute-force '
  'oracle',
  CLOUD + 'Transposed once and twice, and through hierarchies. Non-trivial: '
  'more than two pairs between different clouds.', LATTICE, PRIV)
c('C08', 'property-based testing against a float64 kernel density estimate',
  CLOUD + 'Sequences of compute_pdf/get_pdf calls, free functions and all '
  'normalisations are compared with the formula. Non-trivial: a point has '
  'neighbors besides itself.', LATTICE, FLOAT)
c('C09', 'property-based testing with a validity predicate',
  CLOUD + 'The samples of every entry point are checked for being input '
  'points, separation, and coverage of the input. Non-trivial: a proper subset '
  'of more than two points was sampled.', LATTICE,
  'The random choices of the sampling are seeded by the case.')
c('C10', 'property-based testing against brute-force cell averages',
  CLOUD + 'Compared with the mean of each occupied cell. Non-trivial: more '
  'than two occupied cells, one with several points.', LATTICE, FLOAT)
c('C11', 'model-based stateful property testing',
  CLOUD + 'Hierarchies of 1-4 levels; each level is compared with the '
  'sampling predicate of the level before, then a history of reshapes and '
  'reads runs on all levels. Non-trivial: several levels, the last with '
  'several points, and at least 3 kinds of operations.', LATTICE)
c('C12', 'metamorphic and model property testing on exact integers',
  CLOUD + 'Integer features and basis values, so all sums are exact: compared '
  'with a loop, linear combinations and permuted points. Non-trivial: a center '
  'with several neighbors and more than three pairs.', LATTICE, PRIV)
for pid, name in (('C13', 'Monte Carlo convolution'), ('C14', 'PointConv'),
                  ('C15', 'kernel point convolution')):
  c(pid, 'property-based testing against a float64 reference convolution',
    CLOUD + 'Random layer configurations and weights; the %s is compared with '
    'its formula over brute-force pairs. Non-trivial: a center has several '
    'neighbors and the result is not zero.' % name, LATTICE, FLOAT, PRIV)
c('C16', 'property-based testing with geometric validity predicates',
  'All layouts, seeds of the random optimisation and rotations, cube sizes and '
  'random sets of points. Non-trivial: a rotated or optimised layout, a point '
  'set of full rank, a cube of more than 2 points per side.', FLOAT)
c('C17', 'property-based testing against per-cloud reductions',
  CLOUD + 'Non-trivial: several clouds, one with several points.', FLOAT)
c('C18', 'property-based testing against brute-force reductions',
  CLOUD + 'Non-trivial: at least two centers judged, one with several '
  'neighbors.', LATTICE, FLOAT)
c('C19', 'metamorphic property testing over feature layouts',
  CLOUD + 'Every layer is called with packed and padded features and all '
  'output forms, which have to agree. Non-trivial: several clouds and more '
  'than three points.', FLOAT)
c('C20', 'differential property testing against the composition of layers',
  CLOUD + 'All networks, layer types, projections, modes; compared with the '
  'documented sequence of batch norm, activation and convolutions (float64). '
  'Non-trivial: more than two points and more pairs than points.', LATTICE,
  FLOAT, PRIV)
c('C21', 'metamorphic property testing',
  CLOUD + 'The same operation is run on a permuted, split, joined, translated, '
  'mirrored or scaled input and results are mapped back. Non-trivial: more '
  'than three points (and several clouds for splits).', LATTICE, FLOAT)
c('C22', 'round-trip property testing (write, load, compare)',
  'Generated matrices are written as text in a scratch directory with all '
  'delimiters, line endings, number formats and loaded again. Non-trivial: '
  'more than one line, or several files of different lengths.',
  'Files are read through TensorFlow file I/O on the local file system.')
c('C23', 'round-trip property testing (write meshes, load, compare)',
  'Generated triangle meshes are written as obj/off in a scratch directory and '
  'loaded again. Non-trivial: several meshes of different sizes.',
  'trimesh is trusted to parse obj and off; its text-mode loader does not '
  'read binary ply through tensorflow_graphics.',
  'The abstract resolver class of tensorflow_graphics is made instantiable '
  '(its installed version cannot be with the installed trimesh).')
c('C24', 'differential property testing (graph against eager)',
  CLOUD + 'A pipeline is traced once with unknown sizes and run on a sequence '
  'of inputs, compared with eager mode. Non-trivial: several inputs to one '
  'trace with unknown sizes.', FLOAT)
c('C25', 'differential property testing of gradients',
  CLOUD + 'The gradient of a random combination of the outputs is compared, '
  'entry by entry, with the gradient of a float64 formula over brute-force '
  'pairs; cases at a kink are not judged. Non-trivial: more pairs than centers '
  'and a non-zero gradient for every argument.', LATTICE, FLOAT, PRIV,
  'The tolerance is 30 times the change of the reference gradient under '
  'float32 rounding of the inputs, plus 2e-4 of the largest entry.')
c('C26', 'differential property testing with a stand-in backend',
  CLOUD + 'A stand-in for the compiled package follows the interface of its '
  'operations and checks every argument it is given; all results and gradients '
  'are compared with the TensorFlow fallback. Non-trivial: more pairs than '
  'centers.', LATTICE, FLOAT,
  'The stand-in is written from the interface of the operations in '
  'custom_ops/ (their registrations and kernel documentation).')
c('C27', 'model-based stateful property testing (shared against fresh objects)',
  CLOUD + 'A random sequence of operations over a pool of shared objects; every '
  'result is compared with that of fresh objects, and all inputs are compared '
  'with copies. Non-trivial: at least 3 kinds of operations and 4 steps.',
  FLOAT)
c('C28', 'property-based testing of the CUDA sources under an emulated device '
  'with generated schedules',
  CLOUD + 'The CUDA sources are compiled for the CPU against an emulated device '
  '(generated size of the device, order of blocks and threads, preemption at '
  'memory accesses, all accesses checked against the arrays of the operation) '
  'and their results are judged by the oracles of C05, C06, C08, C09, C10, C25 '
  'and, for the aggregation, a float64 sum. Non-trivial: as in those checks; '
  'for the aggregation more pairs than centers.', LATTICE, FLOAT,
  'The emulated device is sequentially consistent and interleaves the threads '
  'at barriers, atomic operations and (if drawn) at memory accesses.',
  'The host code around the kernels (TensorFlow op registration) is rewritten '
  'textually from GPU to CPU devices.')

c('C29', 'property-based testing of the executed example programs against an '
  'encoded data set',
  'Data sets whose points encode their sample and row are written to a scratch '
  'folder, the programs are executed up to the models, and each point of each '
  'batch is decoded and compared with the listing. Non-trivial: at least two '
  'batches and two steps; for executed programs at least one full batch of '
  'training and test samples of more than one category.')
c('C30', 'metamorphic and differential property-based testing of the example '
  'models',
  'Batches of generated clouds are given to the models with random weights; '
  'the logits are compared with those of other padding, order, other clouds, '
  'moved clouds and graph mode; blocks with the composition of their layers. '
  'Non-trivial: more than 3 points per cloud and 2 levels; blocks with more '
  'than 2 output points.', FLOAT,
  'Few levels and features instead of those of the paper.')

c('C31', 'model-based property-based testing of the training loops of the '
  'example programs',
  'The training functions run with a small recording model on encoded data '
  'sets; its calls, the steps of the optimizer and the printed results are '
  'compared with a loop that takes the labels from the listing. Non-trivial: '
  'several epochs and at least one test batch.', FLOAT)

NOTE = ('Generated-input search: no violation among the cases of a run (8 '
        'processes, cases fixed by VERIF_SEED), no proof of absence. ')

NOT_APPLICABLE = {}


def main():
  ids = [json.loads(l)['id'] for l in open(os.path.join(HERE,
                                                        'properties.jsonl'))]
  checks, rules = [], {}
  absent = []
  for pid in ids:
    if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
      absent.append(dict(property=pid, reason=NOT_APPLICABLE.get(
          pid, 'check not built yet')))
      continue
    technique, rule, assumptions = C[pid]
    checks.append(dict(
        property=pid, quick_cmd='./check ' + pid,
        thorough_cmd='VERIF_TIER=thorough ./check ' + pid,
        evidence_file='evidence/%s.json' % pid, technique=technique,
        level='exploration', level_note=NOTE + ' '.join(assumptions)))
    rules[pid] = dict(rule=rule, assumptions=assumptions)
  manifest = dict(
      version=1, setup_cmd='true', checks=checks, not_applicable=absent,
      notes='No hooks in /repo are needed. Every check imports the code from '
            '/repo\'s working tree; ./check replay FILE re-executes a replay '
            'file.')
  for name, data in (('MANIFEST.json', manifest),
                     ('checks/rules.json', rules)):
    with open(os.path.join(HERE, name), 'w') as handle:
      json.dump(data, handle, indent=1)
      handle.write('\n')


if __name__ == '__main__':
  main()
