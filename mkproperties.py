import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
CI='cpp/SgConserveInterp2D.h'; NI='cpp/SgNodeInterp2D.h'; FI='cpp/SgFlowInterp2D.h'; FP='cpp/SgFindPointInCell.h'; QI='cpp/SgQuadIntersect.h'; TP='cpp/SgTriangulate.h'
p('C01','Conservative regridding conserves the total',
 'When the destination grid covers the source grid, the sum over the destination cells of (interpolated value times cell area) equals the sum over the source cells of (value times cell area), up to round-off. This holds for every cell-centred field and every pair of logically rectangular grids with convex cells, whatever their resolution, orientation of the indices, mutual alignment (identical, nested, shifted, sharing edges or corners), coordinate scale and offset.',
 ['inputs'],'all pairs of grids with convex cells, the destination covering the source, and all cell fields',
 'The tests compare totals on a handful of unit-scale rectangular and polar grids; conservation must hold for every relative position of two meshes, including the degenerate contacts that make clipping fragile.',
 [CI,QI,TP,'cpp/SgLinearSolve.h'],[('overlap areas by quad-quad clipping and triangulated hull','%s computeWeights; %s; %s'%(CI,QI,TP))],['SgConserveInterp2D_apply'],[('weights','(dst cell, src cell) overlap fractions',CI)])
p('C02','Conservative weights are exact overlap fractions',
 'The conservative weight of a destination cell and a source cell is the area of their intersection divided by the area of the destination cell, for all convex cells and every grid pair, scale and orientation. Pairs of cells that do not overlap have no weight or a weight that is zero up to round-off, and no overlapping pair is missing.',
 ['inputs'],'all pairs of grids with convex cells and all cell pairs',
 'Tests check a few weights of hand-made pairs; the intersection of two quadrilaterals has many contact configurations (shared edges, touching corners, containment, slivers) that only a dense sampling with an independent clipper reaches.',
 [CI,QI,TP],[('vertex/edge candidates, convex hull area',QI+', '+TP)],['SgConserveInterp2D_get'])
p('C03','Conservative averages: constants and bounds kept, far cells untouched',
 'A constant source field is reproduced on every destination cell that lies within the source domain, and every interpolated value of such a cell lies within the range of the source values under it, up to round-off. On a destination cell only partly covered a constant comes out multiplied by the covered fraction of its area. A destination cell away from the source domain keeps the value it had before the interpolation was applied.',
 ['inputs'],'all pairs of grids with convex cells, all fields',
 'No test checks partition of unity cell by cell, nor partially covered or uncovered destination cells, over more than a few grids.',
 [CI],[('normalization of the overlaps by the destination cell area',CI)],['SgConserveInterp2D_apply'])
p('C04','Iterating over the conservative weights visits every pair exactly once',
 'One pass over the weights, from the start or after a reset at any point of an earlier pass, visits every (destination, source) pair exactly once with indices in range and a weight between 0 and 1, signals the end exactly after the last pair, and then starts over. The listed weights are those used by the interpolation: applying to any field gives the sum of listed weight times source value. With no overlap at all the iteration yields no pair (indices -1, weight 0) and stops.',
 ['inputs','histories'],'all grid pairs; all sequences of next/get/reset/apply calls',
 'The tests make one pass over non-empty weights; partial passes, resets, repeated passes and empty overlaps are histories they never run.',
 [CI],[('iterators over nested weight maps',CI+' reset/next/get')],['SgConserveInterp2D_reset','SgConserveInterp2D_next','SgConserveInterp2D_get'],[('weightIt/weightIt2','position of the iteration',CI)])
p('C05','A reused object gives the results of a fresh one',
 'The conservative, nodal and flow interpolators, the point search, the overlapping-cell search, the linear solver and the quad-line projections may be given new grids, data, targets, polygons or lines, and may be computed and applied any number of times in any order. After every such step the results equal those of a newly created object given only the current inputs; nothing of earlier grids (weights, extents, periodicity, search state) remains.',
 ['histories','inputs'],'all sequences of set/compute/apply calls on one object',
 'Every test uses each object once. Leftovers of an earlier configuration only show in multi-step histories with different grid sizes and positions.',
 [CI,NI,FI,FP,'cpp/SgFindOverlappingCells2D.h','cpp/SgLinearSolve.h','cpp/SgQuadLineFlows.h'],[('state rebuilt by the setters and computeWeights','set*/computeWeights of each class')],['all set*/computeWeights/apply functions of the C API'])
p('C06','Nodal interpolation is bilinear and exact for linear fields',
 'At every destination node that gets a value, nodal interpolation reproduces the coordinate fields to within the search tolerance, constant and linear fields, and source node values where nodes coincide, and never leaves the range of the values at the nodes of the source cell holding the point. On rectangular and affine (also reflected, transposed, sheared) source grids every destination node inside the source domain, its border included, gets the value of the bilinear interpolant; on convex-cell curvilinear grids practically all (more than 99.9%) do.',
 ['inputs'],'all source grids with convex cells, all destination points in the source domain, all node fields, coordinate scales and offsets',
 'Tests evaluate a few linear fields on a few grids at unit scale and check a tolerance on average errors; they do not check the interpolant at nodes, edges, borders or far-from-origin and tiny grids.',
 [NI,FP],[('index-space Newton search, then bilinear weights',NI+' computeWeights; '+FP+' getSrcIndicesAndWeights'),('second try from the sides',NI)],['SgNodeInterp2D_apply'])
p('C07','Nodal interpolation leaves nodes outside of the source domain untouched',
 'A destination node outside of the source grid keeps the value it had before the interpolation was applied, whether it lies outside of the bounding box or inside of it but outside of every cell. Destination nodes outside do not affect others: each node inside gets the value it would get on its own.',
 ['inputs'],'all source grids with convex cells, destination grids with nodes inside and outside at any distance from near the border to 100 domain sizes',
 'Tests only use destination grids within the source domain or do not look at the outside nodes.',
 [NI,FP],[('status of the point search',NI+' computeWeights')],['SgNodeInterp2D_apply'])
p('C08','The point search reports truthfully',
 'At every iteration of a point search the reported index position lies in the grid, the reported position is the multilinear map of these indices, the reported error is its distance to the target, and the history is exactly the errors of the iterations since the last reset. The status follows them: converged if and only if the error is below the tolerance, even at the last allowed iteration; out of iterations exactly after the allowed number; stuck only when the error has grown; outside, at once and with nothing moved, exactly when the target is outside of the bounding box of the grid.',
 ['inputs','histories'],'grids of 1 to 3 dimensions, periodic or not, any start, target, tolerance, iteration limit and sequence of resets',
 'Tests run a few successful searches; failing, stuck, outside and limit-hitting searches and restarts are hardly touched.',
 [FP,'cpp/SgFindPointInCell.cpp'],[('Newton iteration with bounds and status codes',FP+' next/reset')],['SgFindPointInCell_next','SgFindPointInCell_getError','SgFindPointInCell_getErrorHistory','SgFindPointInCell_getPosition','SgFindPointInCell_getIndices'])
p('C09','Point search inverts the grid map',
 'On uniform and affine grids of 1 to 3 dimensions the search finds the index position of every target in the grid (nodes, faces and borders included) from every start. It also does so from the middle of mildly distorted grids, and from nearby starts on periodic polar and cylindrical grids (their axes in any order), including across the seam where the periodic index wraps.',
 ['inputs'],'all such grids, scales from 1e-6 to 1e6, targets and starts',
 'Tests look for single targets on two or three grids; periodic wrap-around, 1-D and 3-D grids, border targets and coordinate scales are barely sampled.',
 [FP,'cpp/SgLinearSolve.h'],[('Jacobian by multilinear weights, linear solve, wrap and clamp of indices',FP+' next')],['SgFindPointInCell_next','SgFindPointInCell_getIndices'])
p('C10','Flow of a stream function across a segment is its end-point difference',
 'When the edge data of a grid with convex cells are the differences of a nodal stream function, the flow across every line segment is the difference of the (per cell bilinear) stream function at its ends, whatever cells, edges and nodes the segment crosses, touches or follows. Closed polylines have zero flow, and closed polylines around the hole of an annular grid measure the circulation exactly, wherever the cut of the annulus lies.',
 ['inputs'],'all grids with convex cells, all nodal stream functions, all segments and polylines, coordinate scales',
 'Tests use a few grids with one analytic stream function; segments along shared edges, through nodes, and across many distorted cells are the hard cases.',
 [FI,'cpp/SgQuadLineIntersect.h','cpp/SgQuadLineFlows.h',FP],[('per-cell intersection and projection weights',FI+' computeWeights; cpp/SgQuadLineFlows.h'),('shared edge accounting',FI)],['SgFlowInterp2D_apply'])
p('C11','Flows are linear, additive and follow the cell formula for any edge data',
 'On grids with convex cells the flow across a segment equals, for arbitrary edge data, the sum over the cells it crosses of the bilinear cell formula applied to the part in the cell (entry and exit located in the cell\'s index space), each part of the segment counted once, including segments along grid lines, along the border of the domain and reaching outside of it (parts outside count nothing). Flows are linear in the edge data, change sign when the segment is reversed, and on uniform and affine grids add up when the segment is subdivided.',
 ['inputs'],'all grids with convex cells, all edge data, all segments and subdivisions',
 'Tests use few segments and edge data derived from a stream function, which hides double counting along shared edges.',
 [FI,'cpp/SgQuadLineIntersect.h','cpp/SgQuadLineFlows.h'],[('per-cell projections',FI)],['SgFlowInterp2D_apply'])
p('C12','Quad-line intersection clips the segment to the quad',
 'For every non-degenerate convex quadrilateral and segment, in either orientation and at any scale, intersection points are reported if and only if the segment meets the quad (up to tolerance), they lie on the segment and on the quad, and the first and last are the ends of the part of the segment inside the quad, ordered along the segment. The inputs are not modified.',
 ['inputs'],'all convex quads and segments incl. segments through corners, along edges, touching, inside and far',
 'Tests list about ten configurations; tolerance decisions at corners and along edges need dense sampling.',
 ['cpp/SgQuadLineIntersect.h','cpp/SgQuadLineIntersect.cpp'],[('edge intersections and end points inside',"cpp/SgQuadLineIntersect.h collectIntersectPoints")],['SgQuadLineIntersect_getIntersectPoints'])
p('C13','Quad-line projections satisfy the bilinear identities',
 'For a segment inside a convex quad the projections onto its four edges are the products of the differences and mean values of the bilinear coordinates of the segment ends (along the first coordinate: difference times one minus the mean of the other on the low edge, difference times the mean on the high edge; likewise along the second). They are therefore additive along the segment, change sign with its direction and project each edge of the quad onto itself alone.',
 ['inputs'],'all convex quads and segments within them',
 'Tests evaluate about five segments in the unit square.',
 ['cpp/SgQuadLineFlows.h','cpp/SgQuadLineFlows.cpp',FP],[('index positions of the ends, projections','cpp/SgQuadLineFlows.h computeProjections')],['SgQuadLineFlows_getProjection'])
p('C14','Quad-quad intersection points span exactly the intersection',
 'For every two convex quadrilaterals of any orientation, scale and mutual position the collected points all lie in both quads (up to tolerance) and their convex hull is the intersection; in particular every corner of the intersection is among them. Disjoint quads have none, and the inputs are not modified.',
 ['inputs'],'all pairs of convex quads incl. identical, nested, sharing edges/corners, rotated copies, thin',
 'Tests list about ten pairs.',
 [QI,'cpp/SgQuadIntersect.cpp'],[('nodes of one in the other and edge crossings',QI+' collectIntersectPoints')],['SgQuadIntersect_getIntersectPoints'])
p('C15','Convex hull area is right for every point set and order',
 'The area reported for a planar point set is that of its convex hull, for any number (0 and up) of points, duplicates, collinear and nearly coincident points, at any coordinate scale and offset. It does not depend on the order of the points or on points inside being added, and it is zero when the points span no area.',
 ['inputs'],'all planar point sets and all orders, scales 1e-8 to 1e8',
 'Tests triangulate a dozen small unit-scale sets; the result must not depend on order or scale.',
 [TP,'cpp/SgTriangulate.cpp'],[('incremental hull triangulation with relative tolerances',TP)],['SgTriangulate_getConvexHullArea'])
p('C16','The linear solver solves, or says so',
 'A well conditioned square system is solved to working accuracy, an overdetermined one in the least-squares sense and an underdetermined one with the solution of smallest norm, for any sizes, scales and equilibration; the status is zero and the reported residual is the sum of the absolute residuals of the returned solution. A square system with an exactly zero row is reported with a positive status, and the solver works on copies of its inputs and remains usable: solving again, with a new matrix, a new right-hand side, both or none, gives the same as a new solver.',
 ['inputs','histories'],'all full-rank systems up to 7x7 with condition up to 1e7; singular systems with a zero row',
 'Tests solve five fixed systems (and the underdetermined one fails in the baseline).',
 ['cpp/SgLinearSolve.h','cpp/SgLinearSolve.cpp'],[('LAPACK least squares driver','cpp/SgLinearSolve.h solve')],['SgLinearSolve_solve','SgLinearSolve_getSolution','SgLinearSolve_getResidual'])
p('C17','Box iteration enumerates every index set exactly once',
 'For every box of index ranges, in any number of dimensions and with any (also negative) low corner, the number of elements is the product of the extents, element k is the k-th index set in row-major order (last index fastest), and the index of an index set is the inverse of that. Empty boxes have no element.',
 ['inputs'],'all boxes in 1 to 5 dimensions',
 'One test with one box, which fails in the baseline.',
 ['cpp/SgBoxIterator.h','cpp/SgBoxIterator.cpp'],[('strides','cpp/SgBoxIterator.h')],['SgBoxIterator_getElement','SgBoxIterator_getIndex','SgBoxIterator_getNumberOfElements'])
p('C18','Side iteration enumerates all directions exactly once',
 'In d dimensions the iteration over sides visits all 3^d combinations of -1, 0 and 1 exactly once, in counting order starting with all -1, reading the current one does not move, and the end is signalled exactly when all have been visited. A reset at any point starts over.',
 ['inputs','histories'],'dimensions 1 to 7; all interleavings of get, next and reset',
 'One test walks one dimension count.',
 ['cpp/SgSideIterator.h'],[('mixed-radix counter','cpp/SgSideIterator.h next')],['SgSideIterator_type::get','SgSideIterator_type::next'])
p('C19','Cells under a polygon: none missed, none repeated, none far',
 'The list of source cells of a polygon has no duplicates, only valid cell numbers, and contains every cell that the polygon (its edges; for convex polygons its interior) overlaps by more than the search tolerance and a cell holding each vertex in the grid, also of polygons shrunk to a point or a line. On axis-aligned grids it holds no cell further than one cell from the bounding box of the polygon. This holds for uniform and mildly stretched axis-aligned grids with any polygon, also reaching out of the grid, and for affine grids with the polygon vertices in the grid.',
 ['inputs'],'all such grids (neighbouring spacings within 30% of each other), polygons of 1 to 8 vertices, scales 0.1 to 1000',
 'Three tests with one polygon each.',
 ['cpp/SgFindOverlappingCells2D.h','cpp/SgFindOverlappingCells2D.cpp'],[('index box of the vertices','cpp/SgFindOverlappingCells2D.h')],['SgFindOverlappingCells2D_getSrcCellIndices'])
p('C20','Octree keys locate points in nested, halving boxes',
 'The root box of an octree is the bounding box of its points, each child box halves its parent along every axis and the children tile it. The key of a point at a level has that many digits, is a prefix of its keys at deeper levels, and the box of the key contains the point; a point out of the root box is located like the closest point of that box. Keys may be deeper than the boxes built, and point sets may be flat along some axes (then only the box of the key must contain the closest point).',
 ['inputs'],'all point sets in 1 to 4 dimensions and all levels',
 'Tests insert a few points.',
 ['cpp/SgOctreePoints.h','cpp/SgOctreePoints.cpp'],[('bisection per axis','cpp/SgOctreePoints.h getKey/getLo/getHi')],['SgOctreePoints_type::getKey','SgOctreePoints_type::getLo'])
p('C21','The tripolar grid is the specified one',
 'Rows below the cap row of a tripolar grid are the regular latitude/longitude grid; the rows of the cap are the bipolar map (rotated sphere shrunk stereographically to the perimeter latitude), so that the first row of the cap continues the regular rows at constant latitude and the last row is folded onto itself. All coordinates are finite, latitudes within -90..90 and longitudes within -180..180, for every resolution and cap row, and asking for the grid again changes nothing.',
 ['inputs','configurations'],'all grid sizes (3 to 40 by 4 to 61) and cap rows',
 'One test generates one grid and only prints it.',
 ['cpp/SgTripolarGrid.h','cpp/SgTripolarGrid.cpp'],[('closed formulas per node','cpp/SgTripolarGrid.h')],['SgTripolarGrid_getGrid'])
p('C22','Grid generators produce the documented grids',
 'The rectangular generator spaces nodes evenly from one corner to the other, the polar one places them on circles about the given centre with the angle covering a full turn, and the rotated-pole one rotates the regular latitude/longitude grid rigidly by the two given angles, with latitudes and longitudes in range. The first index is slowest in all of them, for every size, centre, extent (also decreasing) and angle. The 3 x 3 matrix products they are made of are those of linear algebra.',
 ['inputs'],'all sizes, corners, centres, radii, angles',
 'The generators are only used with a few arguments, never compared with what they should produce (the polar centre was ignored).',
 ['utils/createGrids2D.cpp','utils/createGrids2D.h'],[('closed formulas','utils/createGrids2D.cpp')],['createRectangularGrid','createPolarGrid','createRotatedPoleGrid'])
p('C23','Command line values arrive as given',
 'After a successful parse every registered option has the value last given for it on the command line, or its default, at full precision and range for floating point, integer, string, flag, and comma separated list options, including negative numbers and numbers starting with a decimal point; flags toggle, unknown text that is not an option is ignored, and an option is only visible under its own type. An unknown option makes the parse fail; both help flags are always accepted.',
 ['inputs','configurations'],'all sets of registered options and argument vectors (except values that are themselves option names or start with a dash and a letter)',
 'One test parses one fixed command line.',
 ['utils/CmdLineArgParser.cpp','utils/CmdLineArgParser.h'],[('typed maps and string conversion','utils/CmdLineArgParser.cpp')],['CmdLineArgParser::parse','CmdLineArgParser::get'])
p('C24','Simplices own their points and list complete boundaries',
 'Lines, triangles and tetrahedra return exactly the three-dimensional points they were created with, even after the caller has overwritten its arrays. A triangle lists its 3 edges going round, a tetrahedron its 6 distinct edges and 4 distinct faces, each of valid distinct node numbers.',
 ['inputs'],'all point coordinates',
 'Tests create one of each and do not check the connectivity.',
 ['cpp/SgLine.h','cpp/SgTriangle.h','cpp/SgTetrahedron.h'],[('copied coordinates, constant connectivity tables','cpp/SgTetrahedron.h')],['SgTetrahedron_getEdge','SgTetrahedron_getFace','SgTriangle_getEdge','SgLine_getPoint'])
p('C25','No memory error or undefined behaviour on any valid use',
 'No call of the library with valid arguments reads or writes outside of an allocation or the caller\'s arrays, uses freed or uninitialized memory, or executes undefined operations, whatever the grids (down to a single cell, disjoint, degenerate at a pole), data and call history. Arrays given to the library are read and written only within the sizes implied by the dimensions.',
 ['inputs','histories'],'all inputs and call sequences of the other properties',
 'The tests are built without instrumentation: out-of-bounds reads of adjacent memory and uninitialized values pass unnoticed.',
 ['cpp','utils'],[('ownership and index arithmetic','all components')],['every C API function under AddressSanitizer, UBSan, libstdc++ assertions and memcheck'])
p('C26','Deleting an object returns everything it allocated',
 'After an object of the library has been deleted, all memory allocated by it since its creation has been released, exactly once, whatever was done with it: never configured, partly configured, reconfigured, recomputed, iterated, failed. Memory held during use does not grow with the number of repeated computations on the same inputs.',
 ['histories'],'all call sequences between new and del, for every kind of object',
 'No test looks at memory; objects are used once before the process exits.',
 ['cpp'],[('destructors and _del functions','all components')],['allocation accounting around every object life'])
p('C27','Objects are independent, deterministic and leave inputs alone',
 'Two objects never influence each other: interleaving the calls of several objects in any order, or using different objects from different threads at the same time, gives bit for bit the results each gives alone, and repeating a computation gives identical bits. Coordinates, data, dimensions and index arrays passed as inputs are never modified.',
 ['schedules','histories','inputs'],'all interleavings of the calls of several objects, within one thread and across threads',
 'The tests use one object at a time in one thread.',
 ['cpp'],[('no global state; copies of inputs','all components')],['results of interleaved and concurrent histories compared with isolated ones; ThreadSanitizer'])
p('C28','The Python class gives the results of the C library',
 'For any valid sequence of operations the Python conservative interpolation class returns exactly what the underlying library computes on the same numbers, with zero on destination cells that overlap nothing, for arrays of any float or integer type and memory layout (strided, transposed, reversed, Fortran ordered, read-only), and does not modify its inputs. Computing weights before both grids are set, and applying them before they are computed for the current grids, raise errors instead of using missing or stale weights.',
 ['inputs','histories'],'all grids, fields, array types and layouts, and call sequences of the Python class',
 'No listed test imports the Python package; array layouts and reuse are never exercised.',
 ['py/conserveInterp2D.py','py/__init__.py'],[('ctypes wrappers, array conversion and state flags','py/conserveInterp2D.py')],['sigrid.conserveInterp2D.ConserveInterp2D'])
p('C29','Objects keep their own copies of what they are given',
 'The interpolators, the point search, the overlapping-cell search, the linear solver, the triangulation, the octree and the simplices keep their own copies of the grids, dimensions, periodicities, polygons, polylines, matrices and points they are given: the caller may overwrite or free its arrays as soon as the call has returned, and every later computation and query gives bit for bit the results it would have given had the arrays been kept.',
 ['histories','inputs'],'all objects and call sequences, every input array overwritten and freed right after the call it was passed to',
 'The tests keep all their arrays alive and unchanged; a pointer stored instead of a copy works there, and with most allocators even for a while after freeing.',
 [CI,NI,FI,FP,'cpp/SgFindOverlappingCells2D.h','cpp/SgLinearSolve.h','cpp/SgTriangulate.h','cpp/SgOctreePoints.h'],[('std::vector members filled by the setters','set* and constructors of each class')],['all functions of the C API'])
p('C30','Face basis functions are dual to the grid map and saved as they are',
 'For every map and grid size the cell face basis functions (scripts/cellFaceBasis.py) are, at the centre of each cell, those dual to the discrete map: the function of a face has no component across the faces of the other direction and a flux that falls linearly from one at its face to zero at the opposite one, so that the functions of opposite faces add up to unit flux. The saved VTK file holds the same nodes and vectors in the same order.',
 ['inputs'],'all invertible maps given as expressions, all numbers of nodes, scales from 1e-3 to 1e3',
 'No test runs the script.',
 ['scripts/cellFaceBasis.py'],[('averages, finite differences, Jacobian','FaceBasis.__init__'),('output','FaceBasis.saveVtk')],['FaceBasis.bases','FaceBasis.saveVtk'])
p('C31','Return values of the C interface tell the truth',
 'Every function of the C interface returns 0 when a valid call has done its work, whatever the inputs and the state of the object, so that a caller may take any other value for an error. The functions with several outcomes report the right one: advancing the iteration over the conservative weights returns 0 while pairs remain and 1 at the end; a step of the point search returns 0 while it goes on, 1 exactly when the position error is below the tolerance, -3 for a target outside the bounding box of the grid and another negative value when it gives up; solving returns 0 for a regular system and a positive value when a row of the matrix is zero; projecting a segment onto the edges of a cell returns 0 when both end points were located in the cell, 1 when only the start and 2 when only the end was not, and a positive value when neither was.',
 ['inputs','histories'],'all functions of the C interface, all valid inputs and call sequences',
 'The tests ignore nearly every return value, and none provokes the failures that have to be reported.',
 ['cpp'],[('return values','the extern "C" functions of each component'),('search status','cpp/SgFindPointInCell.h next'),('projection status','cpp/SgQuadLineFlows.h computeStartEndLineIndices')],['return values of all functions of the C API'])
p('C32','The help text lists every option with its current value',
 'The help text of the command line parser shows the purpose and the name of the executable, then every registered option exactly once on a line of its own, with its type, the help text it was (last) registered with and its current value - the default, or what the command line has set - and then the footnotes, the latest added first, ending with the standard one. Showing it changes no value.',
 ['inputs','histories'],'all sets of registered options of the four types, all footnotes, before and after parsing',
 'No test looks at the help text.',
 ['utils/CmdLineArgParser.cpp','utils/CmdLineArgParser.h'],[('maps of values and help texts','CmdLineArgParser::help')],['CmdLineArgParser::help','CmdLineArgParser::get'])
p('C33','Messages and listings report what happened',
 'Computing nodal weights reports every destination node for which no position is found exactly once, with its coordinates: as outside, with the corners of the domain, when it lies outside of the bounding box of the source grid, otherwise as failed, with the best position reached, its distance to the node and the error code. Nodes that get a value are not reported. Projecting a segment onto the edges of a quad reports each end whose search fails and no other. The debug listing of the flow interpolation shows each segment that crosses the grid once, with each of its cells and the four edge weights used by the interpolation, nothing else, and changes nothing. An unknown command line option is named.',
 ['inputs','histories'],'all source and destination grids, quads, segments, polylines and argument vectors',
 'No test reads the messages; they are all a user has to find out which points of a large grid got no value and why.',
 [NI,FI,'cpp/SgQuadLineFlows.h','utils/CmdLineArgParser.cpp'],[('messages of failed searches',NI+' computeWeights; cpp/SgQuadLineFlows.h computeStartEndLineIndices'),('listing of the weights',FI+' debug'),('unknown options','CmdLineArgParser::parse')],['standard error and output','SgFlowInterp2D_debug'])
p('C34','Interpolation is linear and local in the data',
 'Conservative, nodal and flow interpolation are linear in the source data (data times a power of two give exactly the results times it) and local: a destination value does not change by a single bit when missing (not-a-number), infinite or huge values are put into source cells, nodes or edges away from its cell, node or segment, nor with what the output array held before. A missing or infinite value in a source cell under the destination cell (at a node of the cell holding the destination node, on an edge of the cell holding the segment) always shows in the result.',
 ['inputs'],'all grids, source data including not-a-number and infinities, and previous contents of the output',
 'Tests apply smooth finite data to zeroed outputs; sums with cancelling terms, zero weights times missing values and outputs cleared by arithmetic show only with other data.',
 [CI,NI,FI],[('application of the weights',CI+' apply; '+NI+' apply; '+FI+' apply')],['SgConserveInterp2D_apply','SgNodeInterp2D_apply','SgFlowInterp2D_apply'])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P))
