"""Decision method per property (source of section 2 of DESIGN.md)."""
HOW = {
    'P01': 'Encoder and decoder are interpreted for every depth 1..16 on symbolic coordinates (bit slices of '
           'unknown integers); the resulting bit polynomial is compared with the interleaving specification, '
           'the round trips with the identity, and all table entries are evaluated. Dense over all 2^48 keys, '
           'which no test can enumerate.',
    'P02': 'The build is interpreted on a point cloud with a symbolic number of points whose coordinates and '
           'batch ids are uninterpreted; `unique`/`searchsorted`/`scatter` are modelled as counting and ranking '
           'terms. Obligations: keys, counts, children per level and the point-to-node index.',
    'P03': 'octree_split, octree_grow and octree_grow_full are interpreted on an abstract octree with an '
           'arbitrary label function; numbering, counts, keys and children of the new level are compared '
           'with rank/selection terms; the empty-label boundary case is a separate path. An inductive step: '
           'any sequence of split and grow steps is covered.',
    'P04': 'construct_neigh is interpreted per depth: the entry for a child is compared with the entry of the '
           'parent table prescribed by the geometry, for all 64 parent offsets x 27 offsets and an arbitrary '
           'parent table (induction over depth); get_neigh for every kernel, stride and mode.',
    'P05': 'merge_octrees is interpreted on 1..4 abstract octrees with distinct prefixes; each slice of the '
           'merged arrays is compared with the source shifted by the cumulative counts.',
    'P06': 'Averages are interpreted on an arbitrary cloud; the stored value of a node is compared with the '
           'quotient of two bounded sums over the points whose key equals the node key.',
    'P07': 'search_key / search_xyzb / search_value / octree_align are compared with the unique row of equal '
           'key (lower bound in a strictly increasing sequence), including queries outside the keys.',
    'P08': 'forward of every module, kernel, stride, mode, bias is compared with the defining double sum '
           'over neighbours and channels.',
    'P09': 'The buffer size is a free parameter: chunk loops are unrolled for 1..n chunks over symbolic row '
           'counts, covering divisible, ragged and smaller-than-one-row limits; results are compared with the '
           'same specification as P08.',
    'P10': 'backward is interpreted after forward with arbitrary needs_input_grad; results are compared with '
           'the adjoint of the specified forward sum and with None for inputs that need no gradient; also for data and '
           'weights of different floating point types.',
    'P11': 'Each pooling/padding operator is compared node by node with its definition (max / sum over the '
           'existing children, scatter to the recorded child, mean over existing neighbours, per sample mean).',
    'P12': 'Interpolation of symbolic query points is compared with the weighted sum over the eight corner '
           'cells (arbitrary search results), all modes and bound checks, all levels.',
    'P13': 'Group and instance norm are compared with the per-sample, per-group statistics written as bounded '
           'sums.',
    'P14': 'Non-interference by a locality type system on the extracted terms: rows are typed by the level and '
           'sample they belong to; neighbours, children, parents, selections and checked key searches keep the '
           'sample, and sums over all rows must be restricted to it. A term that is not typable is refuted with '
           'two batches that agree on one sample only. Construction is covered by the equality proved for P02.',
    'P15': 'Alias/effect analysis: every storage has an owner; any in-place write, or attribute assignment to a '
           'caller object, on any path of any harness of the other properties is reported.',
    'P16': 'Device propagation on every path of every harness with all inputs on cuda:0: mixing devices or '
           'returning a tensor on another device is reported.',
    'P17': 'Dtype propagation with float64 and float16 inputs: promotion, dtype errors and down-casts are '
           'reported on every path.',
    'P18': 'Field coverage: copies, moves and merges are compared attribute by attribute with the source for '
           'every combination of present and absent attributes. Written files are captured by a model of '
           '`np.savez`/`np.savetxt` and compared with the requested attributes.',
    'P19': 'Constructors are interpreted for the enumerated documented arguments, forwards with symbolic '
           'batch, node and query counts; every shape agreement and assertion on the way is decided and the '
           'result shape compared. Blocks are compared by value with the composition of their stages.',
    'P20': 'Each transformation is compared with its affine map on points and normals; selections with the '
           'rank/selection terms of the mask for all attributes.',
    'P21': 'Drop path with symbolic random draws: rows of one sample share one factor, expectation is kept, '
           'inference is the identity; OctreeDropPath composition with symbolic batch ids.',
    'P22': 'Each utility is compared with its definition (exclusive cumulative sums, scatter, resizing, file '
           'lists).',
    'P23': 'Transform and collate are interpreted on symbolic samples; augmentation ranges, clipping order, '
           'mask and merged fields are compared.',
    'P24': 'Decoders are interpreted with arbitrary network outputs (linear layers havoced), split and grow '
           'replaced by contracts; a typestate protocol (grown -> split by the argmax label -> next level '
           'grown) and the row counts of logits and signal are checked; guided decoding may not touch the '
           'octree.',
    'P25': 'The dense volume is compared with the sum over nodes of cell-match brackets, all depths.',
    'P26': 'The obligations of the other properties are repeated with sizes fixed to zero (no query, no point, no '
           'occupied node from a level on): an operation that raises (reduction, reshape or index into an empty '
           'tensor) or a result of another shape or value than specified is reported. Sizes of at least one are '
           'already covered symbolically by the other properties.',
    'P27': 'Calls with symbolic wrong row or channel counts must raise on every path; acceptance is reported. '
           'The same for point clouds whose attributes differ in shape or rows from the points.',
}
