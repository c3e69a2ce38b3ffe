"""The properties of ocnn-pytorch (source of properties.jsonl / MANIFEST.json)."""
OC, PT, SK = 'ocnn/octree/octree.py', 'ocnn/octree/points.py', 'ocnn/octree/shuffled_key.py'
CONV, DW, GC = 'ocnn/nn/octree_conv.py', 'ocnn/nn/octree_dwconv.py', 'ocnn/nn/octree_gconv.py'
POOL, PAD, COL = 'ocnn/nn/octree_pool.py', 'ocnn/nn/octree_pad.py', 'ocnn/nn/octree2col.py'
INT, NORM, DROP = 'ocnn/nn/octree_interp.py', 'ocnn/nn/octree_norm.py', 'ocnn/nn/octree_drop.py'
ALI, VOX, UT = 'ocnn/nn/octree_align.py', 'ocnn/nn/octree2vox.py', 'ocnn/utils.py'
MOD, RES, DS = 'ocnn/modules/modules.py', 'ocnn/modules/resblocks.py', 'ocnn/dataset.py'
AE, OU, HR, I2S = ('ocnn/models/autoencoder.py', 'ocnn/models/ounet.py', 'ocnn/models/hrnet.py',
                   'ocnn/models/image2shape.py')
LN, RN, SN, UN = ('ocnn/models/lenet.py', 'ocnn/models/resnet.py', 'ocnn/models/segnet.py',
                  'ocnn/models/unet.py')


def p(id, title, statement, over, q, why, files, mech, **kw):
  return dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
              mech=mech, **kw)


PROPS = [
    p('P01', 'Shuffled keys encode and decode coordinates losslessly',
      'For every depth from 1 to 16, encoding integer cell coordinates and a batch index produces the key '
      'whose bits interleave z, y and x from the least significant bit and carry the batch index from bit 48 '
      'upwards. Decoding such a key returns exactly the coordinates and batch index that were encoded, and '
      'encoding a decoded key returns the key. Key order is batch-major and, within a sample, the depth-first '
      'order of the octree.',
      'inputs', 'all depths 1..16, all cell coordinates below 2^depth and all batch indices',
      'the tests draw a few random coordinates at one or two depths; 2^48 keys and all depths are out of reach',
      [SK], [('table driven encoder', SK + ': xyz2key'), ('table driven decoder', SK + ': key2xyz'),
             ('tables', SK + ': KeyLUT')], obs=['ocnn.octree.xyz2key', 'ocnn.octree.key2xyz']),
    p('P02', 'An octree built from points contains exactly the occupied cells',
      'Building an octree from any point cloud yields at every level, for every sample, the ordered keys of '
      'all eight children of each occupied cell above, counts that equal the stored arrays, and child links '
      'that number the occupied cells in order and mark all others empty. Levels up to the full depth hold '
      'every cell, and the returned index maps every point to the finest-level occupied cell that contains '
      'it. Queries for the keys, coordinates, batch indices and occupancy of a level report those of all its '
      'nodes, or of its occupied nodes when requested.',
      'inputs', 'all point clouds (any number, duplicates, any batch ids), all depths and full depths',
      'the tests compare a handful of stored octrees; they cannot cover arbitrary point sets and batches',
      [OC], [('construction', OC + ': Octree.build_octree'), ('full levels', OC + ': Octree.octree_grow_full')],
      obs=['Octree.keys, children, nnum, nnum_nempty after build_octree']),
    p('P03', 'Growing and splitting keeps an octree well formed',
      'Marking nodes as split or empty numbers the split nodes consecutively in order, marks all others empty, '
      'records their count and never leaves a level without any split node. Growing a level afterwards creates '
      'exactly the eight children of each split node, in key order and with the batch index kept, and marks '
      'all of them as non-empty until split. Growing a full level creates every cell of every sample.',
      'histories', 'all sequences of split and grow steps, all split masks, all batch sizes and depths',
      'the tests grow one tree along one recorded structure',
      [OC], [('split', OC + ': Octree.octree_split'), ('grow', OC + ': Octree.octree_grow'),
             ('grow full', OC + ': Octree.octree_grow_full'), ('initial octree', OC + ': init_octree')],
      obs=['Octree.keys, children, nnum, nnum_nempty']),
    p('P04', 'Neighbour tables point to the geometric neighbours',
      'For every node and each of the 27 offsets of a 3x3x3 window, the neighbour table holds the index of the '
      'node of the same sample at that offset, or -1 if the cell is outside the volume or not part of the '
      'octree. Neighbourhood queries select the offsets of the requested kernel in x-major order, take the '
      'first sibling of each group when the stride is two, and translate to occupied-node numbering when only '
      'occupied nodes are requested.',
      'inputs', 'all octrees, all depths, kernels, strides and batch sizes',
      'the tests compare the tables of a few stored octrees',
      [OC], [('recursive construction', OC + ': Octree.construct_neigh'),
             ('look-up tables', OC + ': Octree.reset'), ('queries', OC + ': Octree.get_neigh')],
      obs=['Octree.neighs', 'Octree.get_neigh']),
    p('P05', 'Merging octrees concatenates the samples and loses nothing',
      'The octree merged from any list of single-sample octrees contains, at every level, the nodes of every '
      'sample in list order with that sample\'s batch index, child links shifted into the merged numbering, '
      'and the concatenated point, normal and feature signals. Node counts are the totals and the per-sample '
      'counts are recorded. The merged octrees themselves are left unchanged.',
      'inputs', 'all lists of octrees of equal depth and full depth',
      'the tests merge two stored octrees', [OC, PT],
      [('merge', OC + ': merge_octrees'), ('merge points', PT + ': merge_points')],
      obs=['merge_octrees result']),
    p('P06', 'Voxel signals are the averages of the points in each cell',
      'The positions and features stored for each occupied finest-level cell are the averages over exactly the '
      'points of the cell and sample, and its normal is the normalised sum. Input features are assembled in '
      'the documented channel order and scale, zero on empty nodes when all nodes are requested, and turning '
      'an octree back into points returns the stored averages in the original coordinate range.',
      'inputs', 'all point clouds, feature widths and feature selections',
      'the tests check one small stored cloud', [OC],
      [('averaging', OC + ': Octree.build_octree'), ('features', OC + ': Octree.get_input_feature'),
       ('back to points', OC + ': Octree.to_points')], obs=['Octree.points/normals/features', 'to_points']),
    p('P07', 'Searching keys finds exactly the matching node',
      'Searching an octree for a key or a cell returns the index of the node with that key, in the numbering '
      'of all or of occupied nodes as requested, and -1 if there is none. Looking values up by sorted keys, or '
      'aligning features of one octree to another, copies the value of the equal key and gives zero where the '
      'key is absent.',
      'inputs', 'all octrees and all queries, including queries below, above and between the keys',
      'the tests query a small octree and a few random keys', [OC, ALI],
      [('search', OC + ': Octree.search_key, search_xyzb'), ('align', ALI + ': search_value, octree_align')],
      obs=['search_key', 'search_xyzb', 'octree_align']),
    p('P08', 'Octree convolutions compute their mathematical definition',
      'For every supported kernel shape and stride, with or without empty nodes and bias, convolution yields at '
      'each output node the sum over kernel offsets of the neighbour\'s features times that offset\'s weights, '
      'with missing neighbours contributing zero. Deconvolution is the exact transpose of the convolution with '
      'the same weights, depthwise convolution applies one weight per channel, and grouped convolution applies '
      'independent convolutions to channel groups.',
      ['inputs', 'configurations'], 'all octrees, data, weights, kernel shapes, strides and modes',
      'the tests compare a few sizes on one stored octree', [CONV, DW, GC, COL],
      [('base', CONV + ': OctreeConvBase'), ('modules', CONV + ': OctreeConv, OctreeDeconv'),
       ('depthwise', DW + ': OctreeDWConv'), ('grouped', GC + ': OctreeGroupConv'),
       ('gather/scatter', COL + ': octree2col, col2octree')], obs=['forward of each module']),
    p('P09', 'Memory limits and execution strategy never change a convolution',
      'The buffered and the direct implementation of a convolution or deconvolution return the same result. '
      'Every limit on the temporary buffer, including one smaller than a single row, yields the same result as '
      'an unlimited buffer.',
      'configurations', 'all buffer limits, kernels, strides, octrees',
      'the tests never reach a case in which more than one chunk is used with the smallest buffers',
      [CONV, DW], [('chunk loop', CONV + ': OctreeConvBase.setup, check_and_init'),
                   ('chunk loop', DW + ': OctreeDWConvBase'), ('direct path', CONV + ': OctreeConv.forward')],
      obs=['forward with different max_buffer / direct_method']),
    p('P10', 'Gradients are the exact derivatives of the forward results',
      'Back-propagation through convolution, deconvolution and depthwise convolution returns, for every octree '
      'and mode, the exact adjoint of the forward map for the data and for the weights. It returns one gradient '
      'per forward argument and computes nothing for arguments that need no gradient.',
      'inputs', 'all octrees, data, weights, output gradients and combinations of required gradients',
      'the tests compare gradients numerically on one octree', [CONV, DW],
      [('autograd', CONV + ': OctreeConvFunction, OctreeDeconvFunction'),
       ('autograd', DW + ': OctreeDWConvFunction')], obs=['backward of the autograd functions']),
    p('P11', 'Padding, pooling and unpooling act node by node',
      'Padding writes each occupied-node row to its node and a fill value elsewhere, and removing the padding '
      'restores the rows. Max pooling takes the maximum over the existing children of each parent, unpooling '
      'puts values back to the recorded child and zero elsewhere, average pooling averages over the existing '
      'neighbours only, and global pooling averages the nodes of each sample.',
      ['inputs', 'configurations'], 'all octrees, depths, modes and data',
      'the tests cover one octree and average pooling only', [PAD, POOL],
      [('padding', PAD + ': octree_pad, octree_depad'),
       ('pooling', POOL + ': octree_max_pool, octree_max_unpool, octree_avg_pool, octree_global_pool')],
      obs=['results of the pooling operators']),
    p('P12', 'Interpolation uses exactly the existing neighbouring nodes',
      'Nearest interpolation returns the feature of the node containing the query point of the same sample and '
      'zero if there is none. Linear interpolation is the average of the existing nodes among the eight '
      'surrounding ones weighted by trilinear weights and renormalised, and with bound checking ignores nodes '
      'outside the volume. Upsampling gives every finer node the interpolated value at its centre.',
      'inputs', 'all octrees, depths, query points and modes',
      'the tests use one stored octree and few points', [INT],
      [('nearest', INT + ': octree_nearest_pts'), ('linear', INT + ': octree_linear_pts'),
       ('upsample', INT + ': octree_nearest_upsample, OctreeUpsample')], obs=['interpolation results']),
    p('P13', 'Group and instance normalisation use per-sample statistics',
      'Group normalisation subtracts, for every sample and channel group, the mean over the nodes of that '
      'sample and the channels of that group and divides by their standard deviation, then applies the affine '
      'parameters per channel. Instance normalisation is the case of one channel per group, and a sample '
      'without nodes never produces undefined values for others.',
      'inputs', 'all octrees, batch sizes, channel and group counts',
      'the tests compare against a dense normalisation on few shapes', [NORM],
      [('group norm', NORM + ': OctreeGroupNorm'), ('instance norm', NORM + ': OctreeInstanceNorm')],
      obs=['forward of the normalisation modules']),
    p('P14', 'Samples of a batch never influence each other',
      'Every operator applied to a batched octree gives, on the nodes of one sample, a result that depends only '
      'on that sample\'s data, structure and query points. This holds for construction, neighbour search, '
      'convolution, pooling, interpolation, normalisation and drop path.',
      'inputs', 'all batches and all contents of the other samples',
      'tests compare one merged octree with stored results', [OC, CONV, POOL, INT, NORM, DROP],
      [('batch bits in keys', SK + ': xyz2key'), ('neighbour tables', OC + ': Octree.construct_neigh'),
       ('batch ids', OC + ': Octree.batch_id')], obs=['rows of a sample in operator results']),
    p('P15', 'Operators leave the tensors and octrees of the caller unchanged',
      'Calling an operator, module, query or conversion never modifies the data tensors, index tensors, query '
      'points, lists or octrees passed to it. The exceptions are the documented ones: building, splitting, '
      'growing and neighbour construction update the octree they are called on, and transformations update the '
      'point cloud object but never the tensors it was created from.',
      ['inputs', 'histories'], 'all operators, all inputs and all sequences of calls',
      'tests look at the results only, never at what happens to the arguments',
      [OC, PT, CONV, POOL, PAD, INT, NORM, DROP, ALI, COL, VOX, UT],
      [('cloning before in-place updates', OC + ': get_neigh, merge_octrees'),
       ('functional updates', 'ocnn/nn/*.py')], obs=['arguments after the call']),
    p('P16', 'Everything is computed on the device of the data',
      'When the data and the octree live on one device, every operator runs without mixing devices and returns '
      'its result on that device. Moving an octree or a point cloud places every tensor it needs on the target '
      'device.',
      'configurations', 'all devices, operators and modes',
      'the tests run on the CPU only', [OC, PT, SK, CONV, DW, POOL, PAD, INT, NORM, DROP, ALI, COL, VOX],
      [('device arguments of created tensors', 'ocnn/**/*.py'), ('cached tables per device', SK + ': KeyLUT')],
      obs=['device of results']),
    p('P17', 'Results keep the floating point type of the data',
      'Every operator returns its result in the data type of its input features, and indices as integers, for '
      'single, double and half precision data alike.',
      'configurations', 'all floating point types, operators and modes',
      'the tests use single precision only', [CONV, DW, POOL, PAD, INT, NORM, DROP, ALI, COL, VOX],
      [('dtype arguments of created tensors', 'ocnn/nn/*.py')], obs=['dtype of results']),
    p('P18', 'Copies and conversions carry every attribute',
      'Moving an octree or a point cloud to another device yields an object with all its attributes: structure, '
      'neighbour tables, signals, counts, batch size and batch information. Slicing and merging point clouds '
      'carry every attribute that is present, and saving one writes the requested attributes that are present, '
      'unchanged and in the requested order.',
      'histories', 'all states of the object before the conversion',
      'the tests run on one device so the copying paths are never executed', [OC, PT],
      [('octree transfer', OC + ': Octree.to'), ('points transfer', PT + ': Points.to'),
       ('slicing', PT + ': Points.__getitem__'), ('merging', PT + ': merge_points')],
      obs=['attributes of the copy']),
    p('P19', 'Every model and block can be built and returns the documented shape',
      'Each network and building block of the library can be constructed with its documented arguments and, on '
      'a matching octree, returns an output with one row per sample, node or query point and the requested '
      'number of channels. All its convolutions, pools and interpolations consistently use the requested '
      'empty-node mode, and encoder, decoder and skip levels match.',
      'configurations', 'all documented constructor arguments and octrees of matching depth',
      'no test constructs any model', [MOD, RES, LN, RN, SN, UN, HR, AE, OU, I2S],
      [('modules', MOD), ('residual blocks', RES), ('networks', 'ocnn/models/*.py')],
      obs=['constructor and forward of each model']),
    p('P20', 'Point transformations keep points, normals and annotations aligned',
      'Rotation, scaling, translation, flipping and normalisation map positions by the documented affine map '
      'and normals by the corresponding normal transformation. Clipping and slicing keep exactly the selected '
      'points together with their normals, features, labels and batch indices, in order.',
      'inputs', 'all point clouds and transformation parameters',
      'the tests transform a few fixed points', [PT],
      [('transformations', PT + ': rotate, scale, translate, flip, normalize, orient_normal'),
       ('selection', PT + ': clip, inbox_mask, __getitem__')], obs=['Points attributes after the call']),
    p('P21', 'Drop path drops whole samples and is the identity in evaluation',
      'In evaluation mode, or with drop probability zero, drop path returns its input unchanged. In training, '
      'each sample is kept or dropped as a whole with the configured probability, and kept samples are scaled '
      'by the inverse keep probability when requested.',
      'inputs', 'all drop probabilities, batches and random draws',
      'the test checks one probability statistically', [DROP],
      [('drop path', DROP + ': OctreeDropPath')], obs=['forward in training and evaluation']),
    p('P22', 'Utility reductions and grids compute their definitions',
      'Scatter-add sums every source element into the bin given by its index, along any dimension, into a given '
      'or freshly zeroed output of the documented size. The exclusive cumulative sum starts at zero and has one '
      'element more, grids enumerate their cells in x-major order including both ends, and truncated division '
      'rounds towards zero.',
      'inputs', 'all tensors, dimensions and indices',
      'the tests use single examples', [UT],
      [('scatter', UT + ': scatter_add, broadcast'), ('scan', UT + ': cumsum'), ('grid', UT + ': range_grid'),
       ('division', UT + ': trunc_div')], obs=['results']),
    p('P23', 'The data pipeline yields clipped points and a consistent batch',
      'Transforming a sample applies augmentation only when requested and with parameters within the configured '
      'ranges, then clips the points into the octree\'s domain before building the octree, and reports the mask '
      'of kept points. Collating merges octrees, with neighbour tables, and points in sample order and keeps '
      'labels and all other entries per sample.',
      ['inputs', 'configurations'], 'all samples, settings and batch compositions',
      'no test covers the pipeline', [DS],
      [('transform', DS + ': Transform'), ('collate', DS + ': CollateBatch')],
      obs=['returned dictionaries']),
    p('P24', 'Decoders grow the octree they predict on consistently',
      'When a decoder generates an octree, every level is predicted from features of exactly the nodes present, '
      'split by the predicted label, and grown before the next level is used, so that logits have one row per '
      'node of each level and the signal one row per occupied finest node. When guided by a given octree, its '
      'structure is left untouched.',
      'histories', 'all predicted label patterns, depths and batch sizes',
      'no test runs a decoder', [AE, OU, I2S],
      [('decoders', AE + ': AutoEncoder.decoder'), ('decoders', OU + ': OUNet.decoder'),
       ('decoders', I2S + ': Image2Shape.decoder')], obs=['returned dictionary', 'octree after decoding']),
    p('P25', 'Voxel conversion places every node at its cell',
      'Converting node features to a dense volume writes the feature of every node at its batch, x, y and z '
      'position and zero where no node exists.',
      'inputs', 'all octrees, depths and data',
      'no test covers the conversion', [VOX],
      [('conversion', VOX + ': octree2voxel, Octree2Voxel')], obs=['returned volume']),
    p('P26', 'Degenerate inputs are handled without failure',
      'Octrees built from a single point or from no point, samples and levels without nodes, empty query sets, and '
      'levels at or above the full depth are processed by every operator without errors, giving the natural empty, zero or '
      'full-level result.',
      'inputs', 'all degenerate sizes of points, nodes, queries and batches',
      'tests use ordinary inputs', [OC, POOL, INT, NORM, COL, UT],
      [('guards', 'ocnn/**/*.py')], obs=['results and raised errors']),
    p('P27', 'Mismatched data is rejected before it can corrupt a result',
      'Operators that take features of a particular level reject data whose number of rows does not match that '
      'level in the selected mode, and convolutions reject data with the wrong number of channels. Unsupported '
      'kernels, strides and growth beyond the full depth are rejected as well, and so are point clouds whose '
      'attributes differ in shape or number of rows from the points.',
      'inputs', 'all mismatching row and channel counts and unsupported arguments',
      'tests use matching data only', [CONV, DW, GC, INT, ALI, OC, PT],
      [('guards', 'assertions in ocnn/nn/*.py, ocnn/octree/*.py')], obs=['raised errors']),
    p('P28', 'Trained networks reach the published accuracy',
      'Training the example projects with the provided configurations reaches the published accuracy, and '
      'training converges.',
      'configurations', 'training runs', 'tests do not train',
      ['projects/classification.py', 'projects/segmentation.py'],
      [('training loops', 'projects/*.py')]),
    p('P29', 'Operators run within the time and memory budgets of the hardware',
      'The time and memory needed by each operator grow linearly with the number of octree nodes.',
      'inputs', 'all octree sizes', 'tests do not measure', [CONV, OC], [('operators', 'ocnn/nn/*.py')]),
    p('P30', 'Single precision results stay close to exact arithmetic',
      'Rounding errors of all operators stay within a small multiple of machine precision, so results do not '
      'depend noticeably on summation order.',
      'inputs', 'all data magnitudes', 'tests compare with fixed tolerances', [CONV, NORM, INT],
      [('reductions', 'ocnn/nn/*.py')]),
]

NA = {
    'P28': 'depends on data sets, stochastic optimisation and run time; no static argument over the source '
           'bounds the accuracy of a training run',
    'P29': 'quantifies over wall-clock time and allocator behaviour of torch kernels, which are not visible '
           'in the source',
    'P30': 'needs bounds on input magnitudes and the kernels\' summation order; the analysis treats floats '
           'as reals',
}
