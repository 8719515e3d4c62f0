#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a check in checks.py)."""
import json, os, subprocess
import checks
ROOT = os.path.dirname(os.path.abspath(__file__))
GG = 'source/girgs/source/Generator.cpp'; GI = 'source/girgs/include/girgs/'; HI = 'source/hypergirgs/include/hypergirgs/'; HG = 'source/hypergirgs/source/Generator.cpp'
P = {}
def p(id, title, statement, over, otext, why, files, mech, note): P[id] = dict(title=title, statement=statement, over=over, otext=otext, why=why, files=files, mech=mech, note=note)
p('C01', 'Threshold GIRG: an edge exactly where the model puts one',
  'For infinite alpha, generateEdges returns the pair {u,v} if w_u*w_v/W exceeds d(u,v)^D and does not return it if d(u,v)^D is larger, where d is the torus maximum-norm distance of the two positions in [0,1)^D and W the sum of all weights. This holds for dimensions 1 to 5, every set of positive weights and positions, every seed and every number of threads; for a pair exactly on the border (up to rounding) either answer is right. Each edge is reported exactly once and never joins a node with itself.',
  ['inputs', 'configurations'], 'all positions (multiples of a small power of two in the unit cube), several weight vectors with up to 3 symbolic nodes (up to 60 nodes with one symbolic), dimensions 1 to 5, 1 to 7 threads',
  'Tests compare a handful of random graphs with a quadratic reference; a wrong cell-pair rule shows only for particular relative positions and weights, e.g. across the torus border or at a cell boundary.',
  [GG, GI + 'SpatialTree.inl', GI + 'SpatialTreeCoordinateHelper.inl', GI + 'WeightLayer.h', GI + 'Node.h'], 'the whole edge sampling is executed with symbolic positions; the reported edge set is compared with the model formula on every path',
  'All positions within the lattice bound for the listed weight vectors; at most 3 nodes are symbolic, graphs of up to 60 nodes have one symbolic node.')
p('C02', 'Binomial GIRG: every pair is an edge with the probability of the model',
  'For finite alpha > 1, generateEdges makes the pair {u,v} an edge with probability min(1, ((w_u*w_v/W)/d(u,v)^D)^alpha), whatever part of the algorithm decides the pair, assuming ideal uniform and geometric draws. A pair whose probability is 1 is always an edge; a pair whose probability is below 1e-6 may be left out without a draw.',
  ['inputs', 'configurations'], 'all positions of a pair of nodes, all values of the random draws, several weights, alpha between 1.5 and 20, dimensions 1 to 4, and the skip distances of all cell pairs with 4 to 5 nodes',
  'A statistical test can only see gross deviations of the degree; a bound that is too small for some cell distance changes the probability of a few far pairs only.',
  [GG, GI + 'SpatialTree.inl'], 'the acceptance decision is executed with symbolic positions and draws and compared with the model probability; the success probability of skip draws times the acceptance probability has to give the model probability',
  'The product of skip probability and acceptance probability is compared as a real-number identity; quality of the pseudo random generators is not covered.')
p('C03', 'Edge sampling considers every unordered pair of nodes exactly once',
  'Both generators decide every unordered pair of distinct nodes exactly once: when all draws favour an edge, every pair with a probability above 1e-6 is reported, and no edge list ever contains a pair twice (in either orientation), a self loop or an index outside [0,n).',
  ['inputs', 'configurations'], 'symbolic positions / angles for up to 6 nodes in several weight layers (1 to 2 among up to 100 nodes), dimensions 1 to 5, 1 to 16 threads, release and debug builds',
  'Duplicate or lost pairs occur only where two cells of different size meet in a particular way; tests check the property on few random instances.',
  [GG, GI + 'SpatialTree.inl', HI + 'HyperbolicTree.inl', HG], 'all draws are forced to their edge-favouring extreme while positions stay symbolic; the reported set is compared with the complete graph',
  'Up to 6 symbolic nodes; layers and levels are exercised through the weights and radii of the listed jobs.')
p('C04', 'Cell numbering is a locality preserving bijection',
  'Interleaving the bits of the coordinates of a grid cell and separating them again are inverse to each other for every dimension 1 to 5 and every coordinate that fits the code, with the portable and with the BMI2 implementation, and both implementations give the same number. The code of a cell shifted right by the dimension is the code of the enclosing cell on the next coarser grid.',
  ['inputs', 'configurations'], 'all 2^32 codes and all coordinates, dimensions 1 to 5, both implementations', 'Tests try a few thousand values and only the implementation of the build machine.',
  [GI + 'BitManipulation.h', GI + 'BitManipulationGeneric.inl', GI + 'BitManipulationBMI2.inl'], 'bit-vector proof over all inputs', 'Complete for the stated domain (no loop bound involved): all 32 code bits for dimensions 1 to 4, 30 code bits (6 per coordinate) for dimension 5.')
p('C05', 'A point lies in the cell that is computed for it, on every grid level',
  'For every position in [0,1)^D and every level, the grid cell computed for the position has bounds that contain the position, the cell number lies within the level, and the cell on a coarser level is the ancestor of the cell on a finer level. Neighbouring cells of a level partition the torus without gaps.',
  ['inputs', 'configurations'], 'all cells and all real positions, levels 0 to 31/D-1 (selected), dimensions 1 to 5', 'Tests look at a few levels and random points; rounding at cell borders and the deepest levels are never hit.',
  [GI + 'SpatialTreeCoordinateHelper.h', GI + 'SpatialTreeCoordinateHelper.inl'], 'bit-vector and real-arithmetic queries over the helper functions', 'Positions are reals; the products with powers of two used by the code are exact in IEEE arithmetic.')
p('C06', 'Cell adjacency and cell distance respect the torus metric',
  'Two cells of one level are reported as touching exactly if their closures share a point on the torus, and the distance of two cells is the exact minimum of the torus maximum-norm distance of their points (0 for touching cells); the relation is symmetric. Hence no two points are ever closer than the distance of their cells.',
  ['inputs', 'configurations'], 'all pairs of cells and all pairs of points within them, several levels, dimensions 1 to 5', 'Tests enumerate small levels in few dimensions.',
  [GI + 'SpatialTreeCoordinateHelper.inl'], 'bit-vector queries with symbolic cell numbers; real queries with symbolic points', 'Levels are listed in the evidence.')
p('C07', 'Parent, child and level arithmetic of the cell tree is consistent',
  'The children of a cell are distinct, consecutive cells of the next level whose parent is that cell, the first cell and the number of cells of each level are consistent with the sizes of all previous levels, for every dimension 1 to 5.',
  ['inputs', 'configurations'], 'all cells of all levels that fit 32 bit, dimensions 1 to 5', 'Tests look at a few levels.', [GI + 'SpatialTreeCoordinateHelper.h', HI + 'AngleHelper.h'], 'bit-vector queries', 'Complete for the stated domain.')
p('C08', 'Parallel integer sort returns a stable sorted permutation',
  'The parallel radix sort returns a permutation of its input ordered by the key function and stable for equal keys, for every input length, every key not larger than the announced maximal key (including a maximal key that is a power of two or zero), and every number of threads. Both libraries carry a copy of this sort and both behave that way.',
  ['inputs', 'configurations'], 'all keys within the windows of the bound, 2 to 5 elements (1 to 3 symbolic keys among up to 70000 elements), 1 to 4 threads, radix widths 2, 3 and 8, in-place and two-array entry points', 'Tests use random keys; boundary keys, powers of two as maximum and chunks that are empty or of one element are not sampled.',
  ['source/girgs/include/girgs/IntSort.h', 'source/hypergirgs/include/hypergirgs/IntSort.h'], 'symbolic keys, path exploration with merged symbolic addressing', 'Mostly symbolic short inputs with a lowered parallel grain size (hook GIRGS_VERIF_INTSORT_GRAIN); long inputs with the production grain size have few symbolic keys.')
p('C09', 'A weight layer finds exactly the nodes of every cell',
  'After the spatial partition of the nodes is built, the nodes reported for any cell on any level of any weight layer are exactly the nodes of that layer whose position lies in the cell, each exactly once, and every node is in exactly the layer of its weight. The number of threads does not change this.',
  ['inputs', 'configurations'], 'all positions on a lattice (8 bits per coordinate) for 2 to 6 nodes, up to 70000 nodes with 0 to 2 symbolic, several weight vectors, dimensions 1 to 5, 1 to 8 threads', 'Tests check random instances; empty cells, nodes on cell borders and chunk borders of the parallel prefix sums are not covered.',
  [GI + 'SpatialTree.inl', GI + 'WeightLayer.h'], 'the partition is built from symbolic positions and every cell is compared with a direct count', 'Up to 6 symbolic nodes; threads 1 to 8 with one interleaving per parallel region (interleavings: C18).')
p('C10', 'Threshold HRG: an edge exactly within hyperbolic distance R',
  'For temperature 0, hypergirgs::generateEdges returns the pair {u,v} if and only if the hyperbolic distance of the two nodes is less than R, for all radii in (0,R], all angles in [0,2*pi) and every number of threads; each edge is reported once.',
  ['inputs', 'configurations'], 'all angles for 2 to 3 nodes (one symbolic among up to 150 nodes), several radii vectors and R between 3 and 12', 'Tests compare few random graphs with a quadratic reference; pairs close to the border angle or to angle 0 are rare.',
  [HG, HI + 'HyperbolicTree.inl', HI + 'RadiusLayer.h', HI + 'Point.h'], 'symbolic angles, comparison with the distance formula evaluated independently', 'A guard band of 1e-6 around distance R is left undecided (rounding of the distance formula).')
p('C11', 'Binomial HRG: every pair is an edge with the probability of the model',
  'For temperature T in (0,1), hypergirgs::generateEdges makes a pair with hyperbolic distance d an edge with probability 1/(1+exp((d-R)/(2T))), whatever part of the algorithm decides the pair, assuming ideal draws.',
  ['inputs', 'configurations'], 'angles in brackets around the circle, all values of the draws, several radii, R and T', 'Statistical tests see gross deviations of the degree only.',
  [HG, HI + 'HyperbolicTree.inl', HI + 'DistanceFilter.h'], 'the acceptance decision is executed with symbolic angles and draws and compared with the model probability', 'The probability is decided up to 1e-4 (binning of the distance filter is resolved exactly).')
p('C12', 'The distance filter for random draws decides like the exact comparison',
  'Accelerated acceptance of HRG pairs (a table of distance bounds per probability bin) returns for every draw and every distance the same decision as comparing the draw with the connection probability of the exact distance.',
  ['inputs'], 'all draws in [0, max probability] and all values of cosh of the distance, several R, T and maximal probabilities', 'The table is consulted for one bin per draw; wrong bounds in rarely used bins never show in a degree test.',
  [HI + 'DistanceFilter.h'], 'symbolic draw and symbolic distance against the exact comparison', 'Draws within 1e-9 of the exact probability are not judged.')
p('C13', 'Hyperbolic angle cells: containment, adjacency, distance and tree arithmetic',
  'For every angle in [0,2*pi) the cell computed on each level contains the angle and is the ancestor of the cell on deeper levels; two cells are reported as touching exactly if they are equal or neighbours on the circle; the angular distance of two cells is the exact minimum over their points and is symmetric.',
  ['inputs', 'configurations'], 'all angles, all pairs of cells of levels up to 30', 'Tests use random angles and small levels.', [HI + 'AngleHelper.h', 'source/hypergirgs/source/AngleHelper.cpp'], 'bit-vector queries over cell numbers, real queries over angles', 'Angles closer than 1e-12 to a cell border are not judged.')
p('C14', 'A radius layer holds exactly its nodes, and each cell finds exactly its nodes',
  'Partitioning the nodes of a hyperbolic graph into radius layers puts each node into the one layer whose radius interval contains its radius, including radius 0, and the nodes reported for any angular cell on any level of a layer are exactly the nodes of that layer in that cell. The number of threads does not change this.',
  ['inputs', 'configurations'], 'symbolic radii and angles for 2 to 4 nodes (0 to 1 among up to 70000), several R and layer heights, 1 to 8 threads', 'Tests use random radii; exact layer borders, the disc center, empty cells are not covered.',
  ['source/hypergirgs/source/RadiusLayer.cpp', HI + 'RadiusLayer.h', HI + 'HyperbolicTree.inl'], 'symbolic radii and angles, each cell compared with a direct count', 'Up to 4 symbolic nodes.')
p('C15', 'HRG partitioning level covers all pairs within distance R',
  'For each pair of radius layers, two nodes of these layers that lie in cells which do not touch on the partitioning level of the pair have a hyperbolic distance of at least R.', ['inputs', 'configurations'], 'all radii inside the layers, several R', 'Violations only lose rare pairs near the border.',
  [HI + 'HyperbolicTree.inl', 'source/hypergirgs/source/RadiusLayer.cpp'], 'symbolic radii with lemma points for cosh and sinh', 'Radii are covered by brackets whose worst corner is evaluated.')
p('C16', 'Same seed, same configuration: identical output',
  'Calling an edge generator or a sampler twice with the same arguments, the same non-negative seed and the same number of threads yields identical results: the draws used for each pair or value depend only on the seed and on the node data, not on the scheduling of threads (threshold graphs and binomial graphs, GIRG and HRG). A seed of 0 is a fixed seed as any other.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings at work distribution points for 1 to 3 threads, several inputs of up to 100 nodes', 'Tests run each configuration once or twice on one machine schedule.', [GG, GI + 'SpatialTree.inl', HG, HI + 'HyperbolicTree.inl'],
  'two runs in one symbolic execution with forked schedules, the draws are uninterpreted values keyed by the engine state', 'Schedules are explored at the granularity of synchronisation and work-distribution points.')
p('C17', 'Parallel HRG edge generation terminates on every schedule',
  'hypergirgs::generateEdges terminates with all threads released for every number of nodes (including 0 and 1), every radius vector and every interleaving of its worker threads.', ['schedules', 'inputs', 'configurations'], 'all interleavings at synchronisation points within a preemption bound, 2 to 4 threads, several small inputs', 'Tests run on one schedule; a lost wake-up hangs only rarely.',
  [HI + 'HyperbolicTree.inl', HI + 'ScopedTimer.h'], 'mutex and condition variable model with forked schedules; a path on which no thread can run is reported', 'Bounded number of preemptions; spurious wake-ups allowed.')
p('C18', 'No data race between the threads of one library call',
  'No two threads of one call into either library access the same memory without synchronisation, at least one of them writing, for every input and number of threads.', ['schedules', 'inputs', 'configurations'], 'happens-before analysis on all explored paths with 2 to 4 threads over all parallel regions', 'Tests are not run under a race detector and races corrupt results only occasionally.',
  [GG, GI + 'SpatialTree.inl', HG, HI + 'HyperbolicTree.inl', 'source/hypergirgs/source/RadiusLayer.cpp', GI + 'IntSort.h', 'source/girgs/source/WeightScaling.cpp'], 'vector clocks over the executed IR accesses', 'Happens-before races of the explored schedules; sequential consistency.')
p('C19', 'Threshold graphs do not depend on seed or thread count',
  'For infinite alpha (GIRG) and temperature 0 (HRG) the set of edges returned by the generators is the same for every seed and for every number of threads.', ['schedules', 'inputs', 'configurations'], 'symbolic positions or angles, seeds and thread counts 1 to 4', 'Tests fix seed and thread count.', [GG, HG, GI + 'SpatialTree.inl', HI + 'HyperbolicTree.inl'], 'two runs on the same symbolic input', 'As C01 and C10.')
p('C20', 'GIRG samplers: range, size and independence of the samples',
  'generateWeights returns n values between 1 and n/2 (between n/2 and 1 for n = 1), each the inverse transform (((n/2)^(1-ple)-1)*u+1)^(1/(1-ple)) of a uniform draw u in [0,1), and generatePositions returns n vectors of D coordinates in [0,1); each value comes from its own draw (no draw is used twice), for every n >= 1, seed and number of threads, sequential and parallel.',
  ['inputs', 'configurations', 'schedules'], 'all values of the draws for n up to 20, the production chunk size for n up to 30007, 1 to 4 threads', 'Tests look at a few seeds and statistics.', [GG], 'draws are symbolic values keyed by engine and index', 'Quality of std::mt19937 is outside.')
p('C21', 'HRG samplers: range, size and independence of the samples',
  'sampleRadii and sampleAngles and their combination return n radii in [0,R], distributed with density proportional to sinh(alpha*r), and n angles in [0,2*pi) (or an empty list for n = 0); each value comes from its own draw, sequential and parallel.',
  ['inputs', 'configurations', 'schedules'], 'all values of the draws for n up to 5, the production chunk size for n up to 30007, 1 to 4 threads, several R and alpha', 'Tests look at a few seeds and statistics.', [HG], 'draws are symbolic values keyed by engine and index', 'Quality of std::mt19937_64 is outside.')
p('C22', 'Weight scaling hits the desired expected degree (threshold model)',
  'For infinite alpha, scaleWeights multiplies all weights by one common positive factor, which it returns, such that the expected average degree of the threshold model with uniform positions is within 0.02 of the desired degree. This holds for every weight vector and every attainable degree and for dimensions 1 to 5.',
  ['inputs', 'configurations'], 'all weights in an interval (1 to 2 symbolic weights, up to 6 nodes) or all degrees in an interval (up to 1000 nodes), 1 to 4 threads', 'Tests compare sampled degrees with a tolerance above the error of a wrong correction term.', ['source/girgs/source/WeightScaling.cpp', GG], 'the search is executed with symbolic weights or symbolic degree; the result is compared with the closed form of the expected degree', 'Real arithmetic on the symbolic inputs.')
p('C23', 'Weight scaling hits the desired expected degree (finite alpha)',
  'For finite alpha between 1.2 and 8, scaleWeights multiplies all weights by one common positive factor, which it returns, such that the expected average degree of the binomial model with uniform positions is within 0.02 of the desired degree, for every attainable desired degree and dimensions 1 to 5.',
  ['inputs', 'configurations'], 'all degrees in an interval for several weight vectors with up to 200 nodes', 'Tests compare sampled degrees with a large tolerance.', ['source/girgs/source/WeightScaling.cpp', GG], 'symbolic degree; the bisection forks; the result is compared with the closed form of the expected degree', 'Weights are concrete in the quick tier.')
p('C24', 'Disc radius realises the desired expected degree',
  'calculateRadius returns the R for which the asymptotic degree formula n*X*exp(-R/2) of the hyperbolic model equals the desired degree, and calculateRadiusLikeNetworKit the one of the formula used by NetworKit (within its search accuracy of 0.01 for T = 0), for every number of nodes.', ['inputs', 'configurations'], 'all degrees in an interval, n from 10 to 2*10^9, several alpha and T', 'Tests sample graphs for a few parameters.', [HG], 'symbolic degree with lemma points for log and exp', 'The degree formulas are those documented in the literature, written independently in the harness.')
p('C25', 'No edge is lost or duplicated by buffering',
  'The edge list returned by generateEdges of either library contains all edges found by all threads exactly once, however many edges a thread finds relative to the internal buffer capacity, and the thread in which an edge is found makes no difference.', ['schedules', 'configurations'], 'buffer capacity lowered to 1 to 4 edges, 1 to 8 threads, complete graphs on up to 6 nodes and clustered graphs on up to 12 nodes, explored schedules; production capacity with complete graphs on up to 2100 nodes', 'Buffers hold a million edges, so tests never flush a full buffer.', [GG, HG], 'buffer capacity lowered by hook GIRGS_VERIF_BLOCK', 'Capacity is a compile-time constant; a production buffer is filled in two concrete complete graphs.')
p('C26', 'Dot export writes the given graph',
  'saveDot writes one node line per node with index, weight (at least two decimals) and all coordinates (at least six decimals), in the order of the nodes, followed by one line per edge with the two endpoint indices, inside one graph block, to the named file (replacing its content), and throws if the file cannot be opened.', ['inputs'], 'symbolic weights and coordinates, all edge lists with up to 2 edges on up to 12 nodes, one with 700, dimensions 1 to 5', 'No test reads the file.', [GG], 'the stream is modelled; the text written is compared with the expected text', 'Formatting of numbers by the C++ library is outside.')
p('C27', 'gengirg command line: options reach the library, bad input is rejected',
  'gengirg passes n, d, ple, alpha, deg, the three seeds and the thread count to the library unchanged, uses the documented defaults for absent options, writes exactly the files that are requested, with the generated graph (replacing existing files), and ends with a nonzero status without writing anything if a parameter is outside the documented range or not a number.', ['inputs', 'configurations'], 'symbolic option values including NaN, all single options and combinations of output options', 'No test runs the command line client.', ['source/cli/gengirg/main.cpp'], 'main is executed symbolically with stand-ins for the library', 'Text to number conversion of the C library is modelled.')
p('C28', 'genhrg command line: options reach the library, bad input is rejected',
  'genhrg passes n, alpha, t, deg, the seeds and the thread count to the library unchanged, uses the documented defaults for absent options, writes exactly the files that are requested, with the generated graph (replacing existing files) (coordinates with at least 16 decimals), and ends with a nonzero status without writing anything if a parameter is outside the documented range (alpha in (0.5,1], t in [0,1), deg from 1 to n-1) or not a number.', ['inputs', 'configurations'], 'symbolic option values including NaN, all single options and combinations of output options', 'No test runs the command line client.', ['source/cli/genhrg/main.cpp'], 'main is executed symbolically with stand-ins for the library', 'Text to number conversion of the C library is modelled.')
p('C29', 'Cached hyperbolic distance equals the distance formula',
  'The distance computed from the cached node data equals acosh(cosh r1 cosh r2 - sinh r1 sinh r2 cos(a1-a2)), is symmetric, and the fast comparison with R gives the same answer as comparing that distance.', ['inputs'], 'all angles, several radii and R', 'Tests use random points.', [HI + 'Point.h'], 'symbolic angles and radii', 'Values within 1e-9 relative of R are not judged.')
p('C30', 'Conversions between hyperbolic and GIRG coordinates are inverse',
  'radiusToGirgWeight and girgWeightToRadius are inverse to each other for every disc radius (and weight scaling), larger weights belong to smaller radii, and the border of the disc has weight 1; angleToGirgPosition and girgPositionToAngle are inverse to each other and map [0,2*pi) and [0,1) proportionally onto each other.', ['inputs'], 'all radii, weights, angles and positions; four weight scalings', 'Not tested; used to compare the two libraries.', [GI + 'Hyperbolic.h'], 'symbolic values with the exp/log inverse axioms', 'Equality up to 1e-9.')
p('C31', 'Integer powers in the distance computation are exact',
  'The dimension-fold power used for edge probabilities equals repeated multiplication for every real base and every dimension 1 to 5 (0 to 16 for the helper).', ['inputs', 'configurations'], 'all reals, all exponents', 'Tests use few values.', [GI + 'Helper.h'], 'polynomial identity over the reals', 'Real arithmetic.')
p('C32', 'Node distance is the maximum norm on the torus',
  'The distance of two GIRG nodes is max over the coordinates of min(|x-y|, 1-|x-y|): symmetric, zero exactly for equal positions, at most 1/2, and it satisfies the triangle inequality.', ['inputs', 'configurations'], 'all positions in [0,1)^D, dimensions 1 to 5', 'Tests use random positions.', [GI + 'Node.h'], 'linear real arithmetic over symbolic positions', 'Real arithmetic.')
p('C33', 'No undefined behaviour or invalid memory access in library calls',
  'Library calls with valid arguments never read or write outside live memory, read uninitialised memory, overflow signed arithmetic, shift out of range, convert a floating point value outside the integer range or fail an assertion.', ['inputs', 'configurations', 'schedules'], 'all explored paths of the harnesses in instrumented builds', 'Tests are not run with sanitizers.', [GG, GI + 'SpatialTree.inl', HG, HI + 'HyperbolicTree.inl', 'source/girgs/source/WeightScaling.cpp', GI + 'IntSort.h'], 'every access of the executed IR is checked; arithmetic checks come from compiler instrumentation', 'Within the inputs of the jobs.')
p('C34', 'Unsupported dimensions give an empty graph',
  'generateEdges for positions with an unsupported dimension (0 or more than 5) returns an empty edge list and reports the problem, and never reads outside the positions.', ['inputs', 'configurations'], 'dimensions 0, 6, 7, 9 and 32', 'Not tested.', [GG], 'execution with symbolic positions', 'None.')
p('C35', 'Graphs on fewer than two nodes are empty',
  'generateEdges of both libraries returns an empty edge list for zero nodes and for one node, for every dimension, weight, position, radius, angle, alpha, temperature, seed and number of threads, without touching memory outside its arguments and without waiting forever.',
  ['inputs', 'configurations', 'schedules'], 'zero and one node, all positions on a lattice and windows of angles, dimensions 1 to 5, 1 to 16 threads', 'Tests start at larger graphs; empty vectors hit code paths (first element, minimum, logarithm of the smallest weight) that no test enters.',
  [GG, HG, HI + 'HyperbolicTree.inl', GI + 'SpatialTree.inl'], 'execution with a symbolic position or angle; any reported edge, invalid access, exception or blocked path is a violation', 'Listed weights, radii, alpha and temperatures.')
p('C36', 'Generating and exporting a graph leaves its inputs unchanged',
  'generateEdges of both libraries and saveDot do not modify the weights, positions, radii, angles or edges they are given, so the caller can generate again or export with the same data and node i of the result is node i of the input.',
  ['inputs', 'configurations'], 'symbolic positions or angles of 2 to 4 nodes, 1 to 3 threads, with and without temperature', 'Tests reuse their inputs, but never compare them with a copy; a change that depends on the data (sorting, clamping) shows only for some inputs.',
  [GG, HG, GI + 'SpatialTree.inl', HI + 'HyperbolicTree.inl'], 'byte-wise comparison of all inputs with a copy taken before the call, on every path', 'Up to 4 nodes.')
p('C37', 'Profiling output does not change the graph',
  'The edges produced by hypergirgs::generateEdges and by the spatial tree of girgs are the same whether or not time measurements (profile) are enabled, for the same inputs and seed.',
  ['inputs', 'configurations'], 'symbolically chosen positions or angles of 3 to 4 nodes, all draws, 1 to 4 threads, with and without temperature', 'Tests never enable the time measurements and compare the edges.',
  [HG, HI + 'ScopedTimer.h', GG, HI + 'HyperbolicTree.inl'], 'two runs in one symbolic execution, with the draws of both tied to the same uninterpreted values', 'What is printed is not checked.')
p('C38', 'Weight scaling rejects an impossible alpha',
  'scaleWeights throws, and leaves the weights as they were, for every alpha that is not a number, negative, zero or exactly 1; the formula of the binomial model is not defined there.',
  ['inputs', 'configurations'], 'all 2^64 bit patterns of alpha that are NaN, not positive or equal 1, several weight vectors and dimensions', 'Tests call it with valid alpha only.',
  ['source/girgs/source/WeightScaling.cpp', GG], 'symbolic IEEE double alpha; the path has to end in an exception with the weights unchanged', 'Listed weight vectors.')
p('C39', 'The result of a call does not depend on earlier calls',
  'generateEdges, generateWeights, generatePositions, scaleWeights and the samplers and radius computations of hypergirgs return, for the same arguments, seed and number of threads, what they return as the first call of a process, whatever calls with other arguments (other sizes, dimensions, weights, temperatures, seeds, thread counts) were made before; a tree object can be used more than once.',
  ['histories', 'inputs', 'configurations'], 'histories of one or two earlier calls with other arguments, 2 to 5 nodes in several arrangements, all draws, 1 to 5 threads', 'Tests run each case in a process of its own; tables or buffers kept between calls show only when calls with different arguments follow each other.',
  [GG, HG, HI + 'HyperbolicTree.inl', GI + 'SpatialTree.inl', 'source/girgs/source/WeightScaling.cpp'], 'reference and later call in one symbolic execution; the variables of static storage duration are reset in between by the executor (a child process in the replay)', 'Short histories of calls of the same function.')
NA = {}
if __name__ == '__main__':
    ids = [i for i in sorted(P) if i in checks.CHECKS]
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for i in ids + sorted(NA):
            q = P[i]; assert len(q['title']) <= 80, i
            f.write(json.dumps({'id': i, 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['otext']}, 'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': [{'name': q['files'][0].split('/')[-1], 'where': ', '.join(q['files'])}], 'observe_at': [q['mech']]}}) + '\n')
            for x in q['files']:
                if not os.path.exists('/repo/' + x): print('missing anchor', i, x)
    hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verification hooks'], capture_output=True, text=True).stdout.split()
    man = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'hooks': {'guard': 'GIRGS_VERIF', 'enable': 'the checks compile /repo\'s sources with -DGIRGS_VERIF (and, where needed, -DGIRGS_VERIF_INTSORT_GRAIN=k, -DGIRGS_VERIF_CHUNK=k, -DGIRGS_VERIF_BLOCK=k)', 'source_commits': hooks},
      'checks': [{'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i, 'technique': 'symbolic execution of the LLVM IR of the real sources, decided by SMT (z3)', 'level': 'model_checking',
        'level_note': 'Solver verdict over all values of the symbolic inputs within the stated bounds. ' + P[i]['note'] + ' Trusts clang, the executor in engine/ and z3.'} for i in ids],
      'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(NA.items())]}
    json.dump(man, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    print(len(ids), 'properties')
