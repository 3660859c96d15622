#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['simplegrid/'+f for f in files],
            state=[dict(name=a, meaning=b, where='simplegrid/'+c) for a, b, c in state],
            mechanism=[dict(name=a, where='simplegrid/'+b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

# ---------------------------------------------------------------- file i/o
p('C01', 'mitgrid files round-trip every matrix exactly',
  'Writing a grid of ni x nj tracer cells to a mitgrid file and reading it back with the same ni and nj returns all sixteen named matrices, each with its documented shape and with every double bit-identical (infinities, signed zeros and subnormals included; NaN stays NaN). Reading a file with zero padding and writing the result again, to another file or in place, reproduces the file byte for byte; what was read does not change with the file afterwards. A matrix that was absent (None) reads back as all NaN.',
  ['inputs'], 'every ni, nj >= 1, every content of the sixteen matrices, every memory layout (C, Fortran, sliced, big-endian) of the arrays handed in',
  'the tests only read fixture files; nothing writes a file and reads it back, and no test has ni != nj together with non-trivial values in every field',
  ['gridio.py', 'mitgridfilefields.py'],
  [('write_mitgridfile', 'gridio.py'), ('read_mitgridfile', 'gridio.py')],
  ['return value of read_mitgridfile', 'bytes of the file'])
p('C02', 'mitgrid files have exactly the documented byte layout',
  'A written mitgrid file consists of exactly 16*(ni+1)*(nj+1) big-endian 64-bit floats: the sixteen matrices in the order XC YC DXF DYF RAC XG YG DXV DYU RAZ DXC DYC RAW RAS DXG DYG, each stored column-major (x index fastest) in an (ni+1) x (nj+1) slot whose unused last row and/or column is zero. The reader decodes any file laid out that way, whoever produced it, to the matrices an independent decoder of the format obtains.',
  ['inputs'], 'every ni, nj >= 1 and every content; files written by the package and by an independent encoder',
  'a writer and reader that agree with each other but not with MITgcm pass every round trip; the tests only look at a few small files the package wrote itself',
  ['gridio.py', 'mitgridfilefields.py'],
  [('field order and padding tables', 'mitgridfilefields.py'), ('slot encoding', 'gridio.py')],
  ['bytes of the file'])
p('C03', 'Strict reading rejects exactly the files with non-zero padding',
  'With strict=True reading a mitgrid file (directly, or through regrid, addfringe or stitch) raises RuntimeError if and only if some padding row or padding column of some matrix holds a non-zero value; with strict=False the padding is ignored and the unpadded values are returned unchanged. A file too short to hold all sixteen matrices for the given ni, nj is refused with an exception and never returned as a grid.',
  ['inputs'], 'every ni, nj, every padding position of each of the sixteen matrices, every non-zero value (NaN included), every truncation length',
  'every fixture has clean padding, so the strict branch is never taken; no test reads a damaged file',
  ['gridio.py', 'addfringe.py', 'stitch.py', 'regrid.py'],
  [('padding check in read_mitgridfile', 'gridio.py')],
  ['exception or return value'])
p('C04', 'A failed write is never reported as success',
  'When writing a mitgrid file or an MDS meta/data pair returns normally, the complete bytes are in the file, also when another process looks at it right away. If the device fills up or a file-size limit is hit at any point, the call raises an exception (and the command-line tool exits with a non-zero status) instead of returning success over a short file.',
  ['fault_sequences', 'inputs'], 'every byte offset at which the write may fail, for small (buffered) and large outputs, each writer',
  'the tests never let a write fail; a lost final buffer is invisible to a test on a healthy disk',
  ['gridio.py', 'mds.py', 'mkgrid.py'],
  [('file handling in write_mitgridfile', 'gridio.py'), ('data/meta output in wrmds', 'mds.py')],
  ['return/exception of the writer', 'length and bytes of the file under RLIMIT_FSIZE and /dev/full'])
# ---------------------------------------------------------------- geometry utilities
p('C05', 'Lon/lat to Cartesian conversion is exact on the sphere',
  'Converting two equally-shaped 2-d longitude/latitude matrices gives, at each index, the point (r cos lat cos lon, r cos lat sin lon, r sin lat) on the sphere of the requested radius r (1 by default), for longitudes of any winding. Inputs that are not 2-d matrices of equal shape are refused with ValueError.',
  ['inputs'], 'all matrices of longitudes and latitudes in degrees, any winding (-540..720), poles included, any radius, any array layout',
  'no test calls it directly and the default radius hides the radius argument',
  ['util.py'], [('lonlat2cart', 'util.py')], ['return value', 'exception'])
p('C06', 'Nearest-point search returns a true nearest neighbour',
  'The search returns indices (i, j) and distance such that the distance is the great-circle distance from the query to the matrix point at (i, j), and no other point of the matrix is closer (undefined, NaN points are never nearest). It holds across the dateline, at the poles, for either longitude convention and for any memory layout of the matrices; unequal or non-2-d matrices are refused with ValueError.',
  ['inputs'], 'every query point and every lon/lat matrix (transposed, rotated and sliced views included)',
  'three queries on one tile, none across the dateline or on a view',
  ['util.py'], [('nearest', 'util.py')], ['returned indices and distance'])
p('C07', 'Quadrilateral area utilities agree with true area',
  'For an array of unit-sphere corner points the spherical routine returns, for every cell, the area of the two spherical triangles that make up the quadrilateral (cells that touch a pole, i.e. with coinciding corners, included), and the faceted routine returns the norm of the planar quadrilateral area vector, each to within its rounding error. The result has one entry per cell, in the index order of the corners, and for well-conditioned small cells the two routines agree.',
  ['inputs'], 'every array of convex cells with edges from about 10 m (faceted) or 5 km (spherical) up to about 60 degrees, any orientation and position on the sphere',
  'areas are only compared with stored results of the same code on a few fixtures',
  ['util.py'], [('squad_uarea', 'util.py'), ('pquad_uarea', 'util.py')], ['return value'])
# ---------------------------------------------------------------- mkgrid
p('C08', 'mkgrid puts the requested corners at the requested places',
  'A grid made with given corners and subdivision counts reports ni=lon_subscale and nj=lat_subscale and contains all sixteen matrices with their documented shapes. The first corner (lon1,lat1) is exactly the corner point at minimum i, maximum j, the second (lon2,lat2) the one at maximum i, minimum j, and the two remaining corners combine the longitudes and latitudes of these two, whatever the relative order of the corner coordinates.',
  ['inputs'], 'all corner pairs (any order, any hemisphere, across Greenwich and the dateline) spanning less than 180 degrees of longitude, all subdivision counts >= 1, lon and lat counts different',
  'two grids on one 1-degree square, both with equal subdivision counts, and both tests fail at this commit for numerical reasons',
  ['mkgrid.py', 'computegrid.py'], [('corner assignment', 'mkgrid.py')], ['returned tuple'])
p('C09', 'Grid points are equal great-circle subdivisions',
  'In every grid produced by mkgrid or regrid, the cell corners and cell centres are the points obtained by dividing the great-circle arcs along the x-edges of each original cell into equal arcs, and then the arcs between corresponding points of successive original y-levels into equal arcs, at twice the requested resolution: corners are the even and centres the odd points in both directions. No point deviates from that construction by more than rounding error.',
  ['inputs'], 'all regions and source grids (regular, rotated-pole curvilinear, irregular) with arcs shorter than 180 degrees, all subdivision counts including unequal ones',
  'a handful of fixed subdivisions of one or two cells near 67N and the equator',
  ['computegrid.py', 'mkgrid.py', 'regrid.py'], [('fill', 'computegrid.py'), ('XC/XG partition in tomitgrid', 'computegrid.py')], ['XC, YC, XG, YG of the result'],
  [('compute grid', 'corner points at twice the output resolution plus a boundary ring', 'computegrid.py')])
p('C10', 'Output longitudes keep the convention of the input region',
  'If the longitudes of the region being gridded are all non-negative (0 to 360 convention), every longitude of the result lies in 0..360; if some are negative (-180 to 180 convention), every longitude of the result lies in -180..180. In particular a region across the dateline yields no longitude outside its own span, modulo rounding at the span ends, and a region from longitude 0 eastwards begins at 0 throughout, not at 360.',
  ['inputs'], 'regions and source grids in either convention, across the dateline, Greenwich, or neither, away from the poles',
  'all test regions lie away from the dateline and Greenwich, with one sign of longitude',
  ['computegrid.py'], [('lon0to360 handling in fill', 'computegrid.py')], ['XC, XG of the result'])
p('C11', 'Edge lengths are great-circle distances between the right points',
  'In every grid produced by mkgrid or regrid each defined entry of DXG, DYG, DXF, DYF, DXC, DYC, DXV and DYU equals, in metres on the package sphere, the sum of the great-circle distances of its two half-edges between successive points of the double-resolution grid, at the position MITgcm assigns to that quantity.',
  ['inputs'], 'all regions, source grids and subdivision counts; cells from metres to tens of degrees',
  'compared to stored output of the same code on near-square 1 to 4 cell fixtures, where x/y or index mix-ups can cancel',
  ['computegrid.py'], [('edges', 'computegrid.py'), ('tomitgrid', 'computegrid.py')], ['the eight length matrices of the result'])
p('C12', 'Cell areas are true areas and tile the region',
  'In every grid produced by mkgrid or regrid each defined entry of RAC, RAZ, RAW and RAS equals, in square metres on the package sphere, the sum of the four sub-cell areas around its tracer, corner, U or V point, within the accuracy of the documented faceted (small cells) or spherical (large cells) formula. No defined area is NaN, and RAC sums to the area of the region.',
  ['inputs'], 'all regions, source grids and subdivision counts, cells up to tens of degrees and down to metres; cells at a pole included',
  'compared to stored output of the same code on a few fixtures; no independent area is ever computed and no cell touches a pole',
  ['computegrid.py', 'util.py'], [('areas', 'computegrid.py'), ('tomitgrid', 'computegrid.py')], ['RAC, RAZ, RAW, RAS of the result'])
p('C13', 'The faceted/spherical area switch follows the configured threshold',
  'Areas are computed with the faceted formula if and only if the mean x-edge length and the mean y-edge length of the double-resolution grid are both below the configured transition length, and with the spherical formula otherwise. Changing the configured length takes effect on the next call.',
  ['inputs', 'configurations'], 'threshold values and grids with both, one or neither mean edge length below the threshold, in either direction',
  'no test changes the threshold, and at its default the two formulas differ by less than the test tolerances',
  ['computegrid.py', 'config.py'], [('areas', 'computegrid.py'), ('PLANAR_SPHER_TRANSITION', 'config.py')], ['RAC of the result'])
p('C14', 'Undefined boundary terms are exactly zero and all others positive',
  'In every grid produced by mkgrid or regrid exactly those terms that would need points outside the tile are zero: DXC, DXV, RAW, RAZ on the western and eastern edges and DYC, DYU, RAS, RAZ on the northern and southern edges. Every other length and area is finite and strictly positive.',
  ['inputs'], 'all regions with non-degenerate cells, source grids, subdivision counts (ni != nj and single-cell tiles included)',
  'fixtures are 1x1, 2x2 or square, so a boundary mask in the wrong direction or of the wrong width is rarely visible',
  ['computegrid.py'], [('zero ring around the compute grid', 'mkgrid.py'), ('PZERO tests in tomitgrid', 'computegrid.py')], ['the twelve metric matrices'])
# ---------------------------------------------------------------- regrid
p('C15', 'regrid preserves the existing corner points of the selected region',
  'regrid selects the block of source cells whose opposite corners are the source corner points nearest to the two given positions, returns ni and nj equal to the block size times the subdivision counts, and every source corner point of the block re-appears bit-identically at stride (lon_subscale, lat_subscale) in the result. No other source cells contribute.',
  ['inputs'], 'all source grids, all corner pairs (exact, or off by less than half a cell), all subdivision counts >= 1',
  'five fixed 1x1-cell selections and one whole tile of a single source grid',
  ['regrid.py', 'util.py'], [('corner lookup and mapping to the compute grid', 'regrid.py')], ['XG, YG, ni, nj of the result'])
p('C16', 'regrid aligns the result with the user-given NW/SE corners',
  'Whatever index orientation the source tile has (any of its four 90-degree rotations), the result is arranged so that the first given position is at minimum i, maximum j and the second at maximum i, minimum j. All four rotations of the same source tile give the same result, with lon_subscale applied along the i and lat_subscale along the j direction of the result.',
  ['inputs'], 'source tiles with ni != nj in each of the four rotations, any selected block, unequal subdivision counts, each input route',
  'one corner cell and one interior cell of one tile; only single-cell selections are ever rotated',
  ['regrid.py'], [('rotation loop', 'regrid.py')], ['returned tuple'])
p('C17', 'All regrid input routes give the same grid and bad input is refused',
  'Giving the source as a mitgrid file, as in-memory matrices, or as a pair of XG/YG files (binary or comma-separated, recognised per file by the .csv extension) produces the same result; non-zero padding of a mitgrid file does not enter it (with strict=True such a file is refused). Missing source data, missing ni/nj for file sources, mitgrid files that are too short, binary XG/YG files that do not hold (ni+1)(nj+1) values, and corner positions that are not numbers or select the same row or column of points raise ValueError.',
  ['inputs', 'configurations'], 'all source grids, every combination of input route, all positions that fall on one row or column',
  'the csv test fails at this commit, there is no in-memory test, and no test checks an error',
  ['regrid.py'], [('input selection', 'regrid.py')], ['returned tuple', 'exception'])
p('C18', 'Refinement conserves region area and is consistent across levels',
  'Refining a region by any subdivision counts leaves its outer corner points in place, and the cell areas of the refined grid add up to those of the unrefined region within the formula accuracy and the deviation of the subdivided y-lines from arcs. Refining a mkgrid grid of one cell by (n, m) gives the points and metrics that mkgrid gives for (n, m) directly, and regridding by (1, 1) leaves all corner points unchanged.',
  ['inputs', 'histories'], 'all regions and subdivision counts; sequences mkgrid -> regrid -> regrid, through memory or through files',
  'no test combines two operations',
  ['regrid.py', 'mkgrid.py', 'computegrid.py', 'gridio.py'], [('regrid', 'regrid.py'), ('mkgrid', 'mkgrid.py')], ['returned tuples along the pipeline'])
# ---------------------------------------------------------------- side effects
p('C19', 'Calls have no side effects on their inputs or on the process',
  'No grid, file, edge-matching or MDS call changes its array or dictionary arguments, the files it reads, or process-wide state (warning filters, numpy error state, working directory, configuration values); only the requested output file is created. Reading with a memory map leaves the data file untouched.',
  ['inputs', 'histories'], 'every public entry point, every route, rotated and unrotated regions, successful and failing calls',
  'tests look only at return values, with fresh file input each time',
  ['regrid.py', 'computegrid.py', 'util.py', 'mds.py', 'gridio.py', 'addfringe.py', 'stitch.py', 'matchedges.py'],
  [('copies in fill', 'computegrid.py'), ('input handling', 'regrid.py')], ['digests of arguments, files and process state before and after each call'])
p('C20', 'Results depend only on the inputs and results are independent arrays',
  'The same call with the same inputs gives the same result regardless of the verbose flag, of which calls were made before, of the memory layout of input matrices, and of the process it is made in (working directory, unrelated environment variables, interpreter flags). Modifying a returned matrix changes no other returned matrix, no input, and no later result; a later call changes no earlier result.',
  ['histories', 'inputs'], 'call sequences over all entry points with repeated, interleaved and verbose calls and with mutation of earlier results in between',
  'every test makes a single quiet call',
  ['regrid.py', 'mkgrid.py', 'addfringe.py', 'stitch.py', 'gridio.py', 'mds.py', 'matchedges.py'],
  [('no module-level state', 'computegrid.py')], ['returned values of repeated calls'])
# ---------------------------------------------------------------- tiles
p('C21', 'Edge matching finds the true common edge',
  'For two equally-oriented tiles that share an edge, edge matching reports that edge for each tile (N with S, S with N, E with W, W with E), the slices it returns select coincident points of both tiles, and exchanging the tiles exchanges the answer. Points count as coincident when they lie within the configured fraction of the mean tile diagonal, in either longitude convention and across the dateline.',
  ['inputs', 'configurations'], 'all tile pairs in all four arrangements with different lengths perpendicular to the edge, corner perturbations below and above the tolerance, changed tolerance values',
  'eight pairs on one degree near the equator, always with exactly equal corner points',
  ['matchedges.py', 'config.py'], [('corner distance matrices', 'matchedges.py'), ('POINTS_ARE_CLOSE_ENOUGH', 'config.py')], ['returned edges and slices'])
p('C22', 'Edge matching returns the midpoint strip next to the shared edge',
  'The strip of points returned with a match has 2n-1 entries for an edge of n points and follows the shared edge: it is the middle line of the double-resolution great-circle grid spanned by the shared edge and the next line of points of the second tile, so that every other entry lies halfway along the great circle between corresponding points of the two lines and the entries in between lie at the cell centres. The returned join slice addresses exactly the matching side (without ring corners) of the first tile\'s ringed double-resolution grid.',
  ['inputs'], 'all tile pairs in all four arrangements, n != m, 1-cell-deep and deep second tiles',
  'the strip is only used inside addfringe, whose stored results do not depend on it',
  ['matchedges.py', 'computegrid.py'], [('single-edge compute grid', 'matchedges.py')], ['returned strip and join slice'])
p('C23', 'Tiles that do not share an edge are refused',
  'Edge matching, addfringe and stitch raise ValueError when the tiles are apart, touch at one corner only, coincide, share only part of an edge, have inconsistent edges (one tile rotated by 90 degrees), or divide the shared edge into different numbers of cells. In that case the command-line tools exit with non-zero status and write no output file.',
  ['inputs'], 'all non-adjacent tile pairs of these kinds, at any scale and position',
  'no test exercises a mismatch',
  ['matchedges.py', 'addfringe.py', 'stitch.py'], [('distance and edge checks', 'matchedges.py')], ['exception', 'exit status and output file'])
p('C24', 'addfringe never alters values tile A already has',
  'addfringe returns the true edge pair and a full copy of tile A in which every value that was non-zero in tile A is bit-identical, and in which an undefined (zero) boundary term stays zero unless it lies on the edge shared with tile B. A zero coordinate keeps its position. It needs no particular source for its tiles: values of tile A are kept even where they disagree with a recomputation.',
  ['inputs'], 'all adjacent tile pairs in all four arrangements, arbitrary non-zero values in every matrix, fringes already filled from other neighbours',
  'fixtures are recomputable tiles, so overwriting existing values would not be noticed',
  ['addfringe.py'], [('merge of old and new values', 'addfringe.py')], ['returned tuple, all sixteen matrices'])
p('C25', 'addfringe computes the undefined terms of tile A',
  'A term inside tile A that is undefined (zero) in the file - cell centre, edge length, centre distance or area - is filled with the value that the grid computation gives for tile A\'s corner points. For every term of tile A that is undefined because it spans the edge shared with tile B (DXC, DXV, RAW and inner RAZ for an east or west edge; DYC, DYU, RAS and inner RAZ for a north or south edge), addfringe returns the value that the same computation gives on the two tiles joined.',
  ['inputs'], 'all adjacent tile pairs in all four arrangements, any set of undefined terms',
  'the stored reference results were written by the same code and contain zeros at the shared edge; no fixture has undefined inner terms',
  ['addfringe.py', 'computegrid.py'], [('ring augmentation and recomputation', 'addfringe.py')], ['fringe entries of the returned matrices'])
p('C26', 'stitch places both tiles without loss, gap or overlap',
  'Stitching two tiles that share an edge gives a grid whose cell counts add up along the joined direction and whose matrices have the documented shapes, in which every value of either tile away from the shared edge re-appears bit-identically at its place, with the western or southern tile first. Values on the shared edge that both tiles define come from the first-named tile, and the reported ni, nj are those of the result.',
  ['inputs'], 'all adjacent tile pairs in all four arrangements with different depths, arbitrary values in each of the sixteen matrices',
  'fixtures are mirror-symmetric 1x1 and 2x2 tiles of equal depth whose matrices nearly coincide',
  ['stitch.py'], [('concatenation per edge pair', 'stitch.py')], ['returned tuple, all sixteen matrices'])
p('C27', 'Stitching is order-independent and re-creates a split grid',
  'Stitching A with B gives the same grid as stitching B with A up to which tile supplies the shared-edge values, and stitching three tiles in a row in either grouping gives the same grid. A grid split into tiles and stitched together again has the corner points, centres, and all values of the unsplit grid, the terms spanning the seam included.',
  ['inputs', 'histories'], 'all grids, all split positions and groupings, in both directions, through files',
  'only single stitches of two tiles, with results stored by the same code',
  ['stitch.py', 'addfringe.py', 'gridio.py'], [('stitch', 'stitch.py'), ('addfringe', 'addfringe.py')], ['returned matrices'])
# ---------------------------------------------------------------- CLI
p('C28', 'The command-line tools do what the library calls do',
  'sgmkgrid, sgregrid, sgaddfringe and sgstitch write to --outfile exactly the mitgrid file of the grid that the corresponding library call returns for the same options, sized by the cell counts of that result, with or without --verbose and --strict, started by name or as a module (python -m). An output file that exists already is replaced entirely, also if it is one of the inputs. Whenever the library call fails the tool exits with non-zero status and leaves no output file (an existing one is left alone).',
  ['inputs', 'configurations'], 'all option combinations of the four tools, valid and invalid',
  'the command-line entry points are never executed by the tests',
  ['mkgrid.py', 'regrid.py', 'addfringe.py', 'stitch.py', 'gridio.py'], [('create_parser and main', 'mkgrid.py'), ('create_parser and main', 'regrid.py'), ('create_parser and main', 'addfringe.py'), ('create_parser and main', 'stitch.py')], ['bytes of the output file', 'exit status'])
# ---------------------------------------------------------------- MDS
p('C29', 'MDS meta/data pairs round-trip arrays and metadata',
  'Writing an array with two or more dimensions as an MDS meta/data pair and reading it back returns the same values (rounded to the file precision), shape and record structure, in either precision and either byte order, and the metadata returned (iteration number, times, fields, simulation, precision, dimensions, record count) is what was written. Given a time step, the iteration number and the time are derived from each other consistently.',
  ['inputs', 'configurations'], 'all shapes of 2 to 5 dimensions, precision, byte order, iteration numbers, ndims/nrecords splits, field lists of any length',
  'there are no tests of this module',
  ['mds.py'], [('wrmds', 'mds.py'), ('rdmds', 'mds.py'), ('readmeta', 'mds.py')], ['file bytes, returned array and metadata'])
p('C30', 'MDS reading assembles tiles and iterations correctly',
  'Reading a field stored as any set of rectangular tile files returns the global array with every tile at its declared position, the fill value where no tile was written, and the requested element type. Reading a list of iterations, all iterations, or the last one returns the iterations in the requested (or ascending) order, one entry each.',
  ['inputs', 'histories'], 'all tilings (uneven and missing tiles included), fill values, iteration sets, path wildcards',
  'there are no tests of this module',
  ['mds.py'], [('rdmds', 'mds.py'), ('scanforfiles', 'mds.py')], ['returned array'])
p('C31', 'MDS sub-selection equals slicing the full field',
  'Reading with any selection of records, levels and x/y region (negative indices included) returns exactly the values obtained by reading the whole field and slicing it, whether or not a memory map is used, whether the field is in one file or in tiles, and with the documented squeezing of length-one selections.',
  ['inputs', 'configurations'], 'all combinations of rec, lev, region, memory map, squeeze and tiling',
  'there are no tests of this module',
  ['mds.py'], [('rdmds', 'mds.py')], ['returned array'])
p('C32', 'MDS metadata parsing is faithful and damage is refused',
  'Parsing a meta file returns every key with its values in order as integers, floats or strings, independent of line breaks, spacing and C/C++ comments. Malformed metadata (no assignment, missing or mismatched delimiters, unparsable value), missing files, incompatible tiles, data files too short for what is to be read and unknown precisions or byte orders raise an exception; data that is not in the file is never returned.',
  ['inputs'], 'all well-formed meta files and all single malformations of them; all shorter data lengths, with and without memory map',
  'there are no tests of this module',
  ['mds.py'], [('parsemeta', 'mds.py'), ('rdmds', 'mds.py')], ['returned dictionary', 'exception'])
p('C33', 'MDS run directories convert to the same grid',
  'Converting an MITgcm run directory returns, for each of the sixteen matrices present there, the transposed field at the origin of an array of its documented shape with zeros in the extra row and/or column, None for each absent one (one that is present but damaged or unreadable raises an exception), and the tracer cell counts in x and y. Single-file and tiled output, and the path written with or without a trailing separator, give the same result.',
  ['inputs', 'configurations'], 'all grid sizes, subsets of present fields, precisions, tilings',
  'there are no tests of this module',
  ['mds2mitgrid.py', 'mds.py', 'mitgridfilefields.py'], [('mds2mitgrid', 'mds2mitgrid.py')], ['returned tuple'])
# ---------------------------------------------------------------- getobcs
p('C34', 'Boundary files hold the parent fields interpolated at the boundary points',
  'For each field present in a results directory that holds temperature output (T, S, Eta, W at tracer points; U, UICE at U points; V, VICE at V points), each open boundary, each depth and each output time, the boundary values are the parent field of that depth and time interpolated to the boundary points that MITgcm uses: the boundary cell itself for tracers, its U point for east and the U point one further in for west boundaries, its V point for north and the V point one further in for south boundaries. Output covers all times in ascending order, each once, whether parent results are single files or tiles; a field that lacks one of the times is refused, not made up.',
  ['inputs', 'configurations'], 'all parent and regional grid sizes, depths, times, subsets of present fields, 2-d and 3-d fields, tiled and untiled results, either grid input route (the interpolator itself, xESMF, is not part of the package)',
  'there is no test of this module, and it cannot be imported where ESMF is missing',
  ['getobcs.py', 'mds.py', 'regrid.py'], [('boundary partitions', 'getobcs.py'), ('time and depth loops', 'getobcs.py')], ['bytes of the boundary files', 'arguments of the interpolator'])
p('C35', 'Boundary files are big-endian, column-major, one per field and edge',
  'getobcs writes, for each requested boundary and present field, one file named OB<edge><field in lower case> into the results directory (created if missing, by default the parent directory name plus _obcs), containing exactly boundary length x depths x times big-endian 64-bit floats with the boundary index fastest and time slowest. Nothing is written for absent fields or disabled boundaries.',
  ['inputs', 'configurations'], 'all sizes, depths, times, field subsets, boundary subsets, directory choices',
  'there is no test of this module',
  ['getobcs.py'], [('output of accumulated boundary arrays', 'getobcs.py')], ['names and bytes of the files'])
p('C36', 'Boundary index vectors follow the MITgcm OBCS conventions',
  'A boundary index vector given by the caller selects, point by point, the ones-based row or column the boundary runs along; negative entries count back from the far side (-1 is the last); a zero among them marks a point without boundary (its value is arbitrary, all others are as without it); a vector of zeros of any length switches that boundary off; and an omitted vector means the outermost cells of that side. All four boundaries follow the same rules, from Python and from the command line.',
  ['inputs', 'configurations'], 'all vectors of valid indices, mixed positive and negative, for each boundary, any subset switched off',
  'there is no test of this module',
  ['getobcs.py'], [('boundary index vectors', 'getobcs.py')], ['bytes of the boundary files'])
p('C37', 'Boundary files depend on the call, not on earlier runs',
  'Running getobcs into a results directory that already holds boundary files and stored interpolation weights of earlier runs - for other regional or parent grids of the same or other sizes, other results, times, fields or boundary vectors - gives, for every boundary and field of the run, the boundary files that the same call gives for an empty directory. Stored weights are only reused for the grid points they were computed for.',
  ['histories'], 'all sequences of runs into one results directory, with grids of equal and different sizes',
  'there is no test of this module; a single run never meets what an earlier one left behind',
  ['getobcs.py'], [('weightfilename', 'getobcs.py'), ('reuse_weights', 'getobcs.py')], ['bytes of the boundary files after each run'])
p('C38', 'Concurrent calls do not influence each other',
  'Calls made at the same time in several threads of one process - of the same or of different entry points, on different or on shared input arrays and files, writing different files, also of one directory - each return, write and raise what the same call does when made alone, and leave the floating point error handling of the calling thread as it was.',
  ['schedules', 'inputs', 'histories'], 'all interleavings of any calls of the package in the threads of one process',
  'the tests make one call at a time',
  ['util.py', 'gridio.py', 'mds.py', 'mds2mitgrid.py', 'computegrid.py', 'mkgrid.py', 'regrid.py', 'matchedges.py', 'addfringe.py', 'stitch.py', 'getobcs.py'], [('squad_uarea', 'util.py'), ('parsemeta', 'mds.py')],
  ['results, files and errors of calls made concurrently and alone', 'numpy error state of each thread'])
p('C39', 'Equivalent ways of writing down a call give the same result',
  'A call means the values it is given, not the form they are given in: positional and keyword arguments, left-out and explicitly given documented defaults, None for unused optional inputs, Python and numpy numbers of equal value, lists, tuples and arrays for index vectors, iterations, records, levels and regions, integer-valued grids stored as integers, read-only inputs, dictionaries of any order, other spellings and orders of command line options, and relative, indirect, linked or oddly named paths of the same file or directory all give the same result.',
  ['inputs', 'configurations'], 'all calls of every entry point and all equivalent forms of their arguments',
  'the tests write each call in one form',
  ['regrid.py', 'mkgrid.py', 'gridio.py', 'mds.py', 'mds2mitgrid.py', 'matchedges.py', 'addfringe.py', 'stitch.py', 'getobcs.py', 'util.py'], [('create_parser', 'regrid.py'), ('itrs', 'mds.py')],
  ['results, files and errors of both forms'])
with open(OUT, 'w') as f:
    for r in P:
        assert len(r['title']) <= 80, (r['id'], len(r['title']))
        f.write(json.dumps(r) + '\n')
print(len(P))
