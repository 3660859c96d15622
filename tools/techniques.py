NA = {}
_n = 'Judges executions of the real code at its public interface under generated workloads; inputs outside the generators are not covered.'
TECH.update({
 'C01': ('round-trip monitor: every double compared bit for bit', _n),
 'C02': ('byte-level monitor: independent element-by-element encoder/decoder of the file format', _n),
 'C03': ('fault injection into padding and file length, refusal monitor', _n + ' Padding faults are placed at random positions of every matrix, every run.'),
 'C04': ('fault injection (full device, file-size limit at chosen offsets) in child processes, outcome-versus-bytes monitor', _n + ' Faults are injected through RLIMIT_FSIZE and /dev/full.'),
 'C05': ('numeric monitor against an independent conversion', _n),
 'C06': ('monitor recomputing every distance of each query', _n),
 'C07': ('monitor with independent spherical/faceted areas and derived rounding bounds', _n),
 'C08': ('monitor of returned corner points and counts, refusal monitor', _n),
 'C09': ('monitor with an independent great-circle construction of all grid points', _n),
 'C10': ('longitude convention and span monitor', _n),
 'C11': ('monitor with independent great-circle edge lengths', _n),
 'C12': ('monitor with independent cell areas, sums against the region area', _n),
 'C13': ('differential monitor on both sides of the (also modified) threshold', _n),
 'C14': ('zero-pattern monitor over all boundary terms', _n),
 'C15': ('bit-exact monitor of retained corner points', _n),
 'C16': ('orientation monitor over rotations of source and corner pairs', _n),
 'C17': ('differential monitor across input routes, refusal monitor', _n),
 'C18': ('conservation monitor across refinement pipelines', _n),
 'C19': ('side-effect monitor: digests of arguments, files and process state around each call', _n + ' Time stamps of files and descriptors are not watched.'),
 'C20': ('determinism monitor: repeated, interleaved, re-laid-out and cross-process calls; write-through aliasing probes', _n),
 'C21': ('monitor against construction: tiles cut from one grid', _n),
 'C22': ('monitor with an independent construction of the midpoint strip', _n),
 'C23': ('refusal monitor over perturbed, shifted and differently divided tiles', _n),
 'C24': ('bit-exact monitor of all terms tile A already has', _n),
 'C25': ('monitor of boundary terms against the undivided grid (known finding on this tree)', _n),
 'C26': ('tag-tracing monitor: every value of the stitched grid is traced to its source', _n),
 'C27': ('differential monitor over orders of stitching and against the undivided grid', _n),
 'C28': ('differential monitor: tool output bytes and exit status against the library call', _n),
 'C29': ('round-trip monitor over meta/data pairs with independent parser', _n),
 'C30': ('assembly monitor with tagged values from an independent writer', _n),
 'C31': ('differential monitor: selection against slicing the full field', _n),
 'C32': ('mutation of meta files and truncation of data files, faithfulness/refusal monitor', _n),
 'C33': ('monitor comparing converted matrices with the written fields', _n),
 'C34': ('monitor with independently located boundary points and a stand-in interpolator of known operator', _n + ' xESMF/ESMF is not installed; its weights are not covered.'),
 'C35': ('file-set, length, byte-order and element-order monitor', _n + ' xESMF is replaced by a stand-in.'),
 'C36': ('monitor with an independent reading of the boundary index vectors', _n + ' xESMF is replaced by a stand-in.'),
 'C37': ('history monitor: boundary files recomputed after each of several runs into one directory', _n + ' xESMF is replaced by a stand-in that stores and reuses weights as documented.'),
 'C38': ('schedule-noise monitor: calls made concurrently in threads against the same calls made alone', _n + ' Threads of one interpreter; interleavings are sampled at Python lines.'),
 'C39': ('metamorphic monitor: calls in plain form against equivalent forms of their arguments', _n),
})
