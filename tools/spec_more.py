ENT = 'frackit/entitynetwork/'
prop('C01', 'An accepted pair of entities satisfies every active constraint',
     'For every supported pair of entity types and every combination of active constraints, the evaluation accepts the pair exactly if all active constraints hold: if the entities do not intersect, the distance between them is at least the minimum distance; if they do, every part of the intersection satisfies the dimension, magnitude and angle constraints and keeps the minimum distance to the boundaries of both entities (intersection ends on a boundary excepted). A user-defined tolerance is the one the intersection is computed with.',
     [IN, CF], 'all entities of the 22 supported pairs of types, all combinations of active constraints, all intersection results',
     'The tests evaluate a handful of disk pairs with one constraint each; a constraint skipped for one result type, one entity or one part of the intersection goes unnoticed.',
     [ENT + 'constraints.hh', ENT + 'constraints_impl/admissibledimension.hh', ENT + 'constraints_impl/admissiblemagnitude.hh', ENT + 'constraints_impl/admissibledistancetoboundary.hh', 'frackit/intersection/emptyintersection.hh'],
     [('pair evaluation', 'EntityNetworkConstraints::evaluate'), ('admissibility of the parts', 'entitynetwork/constraints_impl/')], tech=VN)
prop('C02', 'Constraints are switched independently and the last setting wins',
     'Setting, changing or neglecting one constraint changes the outcome of evaluations with respect to this constraint only; the last setting wins; initially nothing is constrained, equi-dimensional intersections are not admissible and the default tolerance is used; the angle engine given at construction is the one used.',
     [HI, CF], 'all sequences of settings (by induction over one setting applied to every kind of state)',
     'Tests set constraints once on a fresh object and never switch one off or on again while others are active.',
     [ENT + 'constraints.hh'], [('setters', 'EntityNetworkConstraints::set*/neglect*/allow*')], tech=VN + '; one transition per state class')
prop('C03', 'Sets, relations and abstract geometries are evaluated completely',
     'A set of entities is admissible exactly if each of its elements is; two sets exactly if all pairs are; an abstract geometry behaves like the geometry it points to. Entities are kept under the id they were added with. A constraints matrix evaluates, for the id of a candidate, exactly the relations defined for that id, each with its own constraints and against the set of the other id; empty sets are skipped, and a relation cannot be defined twice.',
     [IN, HI], 'all sets and candidates; composed histories of additions and relation definitions with symbolic entities',
     'Tests use one or two sets of one type and never check which set a relation was evaluated against.',
     [ENT + 'constraints.hh', ENT + 'constraintsmatrix.hh', ENT + 'multigeometryentityset.hh', 'frackit/geometryutilities/applyongeometry.hh', 'frackit/geometryutilities/assign.hh'],
     [('set overloads', 'EntityNetworkConstraints::evaluate'), ('relations', 'EntityNetworkConstraintsMatrix'), ('sets by id', 'MultiGeometryEntitySet')], tech=VN + ', composed over call sequences from the public constructors')

REFM = 'static analysis: translation validation by gated value numbering (the value terms of the function and of a never-executed reference model, kernel calls uninterpreted, have the same normal form)'
INT = 'frackit/intersection/'
prop('I01', 'Intersection is symmetric, total over supported pairs, safe by default',
     'Intersecting A with B and B with A yields the same result for every supported pair of shapes. Without an explicit tolerance the smaller of the default tolerances of the two shapes is used. A pair that is not supported is refused with an exception instead of yielding some result.',
     [IN, PR], 'all supported pairs of shape types in both orders, all shapes and tolerances',
     'The tests call each pair in one order with one tolerance.',
     [INT + 'intersect.hh', INT + 'intersectiontraits.hh'], [('dispatch', 'Frackit::intersect overloads')], tech=VN)
prop('I02', 'Tolerances: caller\'s tolerance decides, defaults scale with size',
     'The tolerance given to an intersection reaches every decision it takes (distance to planes, containment, box rejection, kernel algorithms) and no other tolerance replaces it. The default tolerance of a shape is the kernel precision times the characteristic length of the shape.',
     [IN], 'all supported pairs, all tolerances', 'Tests use the default tolerance on shapes of size one, for which a dropped, replaced or unscaled tolerance changes nothing.',
     [INT + 'intersect.hh', INT + 'algorithms', 'frackit/precision/defaultepsilon.hh', 'frackit/precision/precision.hh'],
     [('tolerance flow', 'intersection/algorithms/*'), ('defaults', 'defaultEpsilon overloads')], tech=REFM + '; flow of the tolerance into decisions')
prop('I03', 'Bounding boxes reject a pair only if it cannot intersect',
     'Two bounding boxes are reported to overlap exactly if their intervals overlap within the tolerance in all three coordinate directions, and the bounding box of a shape is the kernel box of its boundary representation. An intersection is rejected early only by the overlap of the boxes of exactly the two shapes concerned.',
     [IN], 'all boxes, tolerances, shapes', 'Tests check boxes separated along one axis.',
     [INT + 'bboxintersection.hh', 'frackit/geometryutilities/getboundingbox.hh', 'frackit/occ/breputilities.hh', INT + 'algorithms'],
     [('box overlap', 'doIntersect'), ('boxes', 'getBoundingBox'), ('early rejection', 'intersection algorithms')], tech=REFM)
prop('I05', 'Emptiness and intersection angles consider every part of a result',
     'An intersection result is empty exactly if all of its parts are. The angle between two shapes at their intersection is the angle between their tangent planes at the intersection; for extended intersections it is the smallest such angle over the documented sample points, and for results with several parts the smallest over all parts. The order of the two shapes is irrelevant, and rounding errors never make the angle undefined.',
     [IN], 'all supported pairs, all intersection results of any number of parts', 'Tests compute the angle for single-part results at right angles.',
     [INT + 'emptyintersection.hh', INT + 'intersectionangle.hh'], [('emptiness', 'isEmptyIntersection'), ('angle', 'IntersectionAngle')], tech=REFM)
prop('I06', 'Intersections are assembled from all kernel results, each once',
     'For every supported pair of shapes the result consists of exactly the parts found by the geometry kernel and the plane and line computations it is built from, classified correctly (none, point, segment, arc, ellipse, edge, face): touching points, intersection edges and overlap faces are all kept, each once, and lower-dimensional contacts covered by a higher-dimensional part are not reported again. Parallel and coplanar configurations are told apart by the distance of the planes, and kernel failures and unsupported (non-convex) shapes raise an exception.',
     [IN, FA], 'all supported pairs and all results of the kernel calls (which stay uninterpreted), including kernel failure',
     'Tests cover about one configuration per kind of result; duplicates, dropped last edges, misclassified contacts and failed kernel calls need specific configurations.',
     [INT + 'algorithms', INT + 'intersect.hh'], [('algorithms', 'intersection/algorithms/algo_*.hh'), ('dispatch', 'intersect.hh')], tech=REFM)
OC = 'frackit/occ/'
prop('O01', 'Boundary representations carry exactly the data of the shape',
     'The boundary representation, kernel curve or kernel surface made from a shape has the position, orientation, extent and connectivity of the shape, and conversions of points, vectors and directions to and from the kernel are inverse to each other. The parts of a boundary representation that are listed by kind are all parts of that kind, in order. A failure to build a representation raises an exception.',
     [IN, FA], 'all shapes of all types, all boundary representations',
     'Tests look at the number of parts or at upright shapes at the origin; exchanged axes, radii or corners of a general shape go unnoticed.',
     [OC + 'breputilities.hh', OC + 'geomutilities.hh', OC + 'gputilities.hh'], [('representations', 'OCCUtilities::getShape, getGeomHandle'), ('parts', 'OCCUtilities::getVertices/...'), ('conversions', 'OCCUtilities::point/direction/vector')], tech=REFM)
prop('O02', 'Kernel operations get all operands and the tolerance, and report failure',
     'Cutting, intersecting, fragmenting, fusing, translating and reading shapes pass every operand, the tolerance and the displacement of the caller to the kernel operation of that name and return its result. If the kernel operation did not succeed an exception is raised instead of returning a shape.',
     [IN, FA], 'all operands, tolerances, including failing kernel operations', 'Tests never see a failing kernel operation and use operands for which a lost operand or tolerance is not visible.',
     [OC + 'breputilities.hh'], [('boolean operations', 'OCCUtilities::cut/intersect/fragment/fuse'), ('translate, readShape', 'OCCUtilities')], tech=REFM)
prop('D01', 'Distances are minimal over all parts and keep the caller\'s settings',
     'The distance between two shapes is the kernel distance of their boundary representations with the settings of the caller, or the Euclidean distance for points, lines and segments; to a set of shapes it is the smallest over the set. The distance to the boundary of a shape and the test whether a point lies on it consider every edge, circle or face of that boundary. Kernel failures and unsupported shapes raise an exception.',
     [IN, FA], 'all supported pairs of shapes, sets of any size, all settings',
     'Tests use configurations in which the first part is the closest and the default settings.',
     ['frackit/distance'], [('distances', 'computeDistance'), ('boundaries', 'computeDistanceToBoundary, pointOnGeometryBoundary')], tech=REFM)
prop('M01', 'Magnitudes match the dimension; contained magnitudes sum all parts',
     'The magnitude of a shape is zero, its length, its area or its volume according to its dimension; composed shapes add up the magnitudes of all their parts. The magnitude contained in a domain is the sum over all parts of the intersection of the shape with the domain, computed with the tolerance of the domain, and zero if there is none.',
     [IN], 'all shape types and domains, any number of parts', 'Tests use shapes that lie inside or intersect the domain in a single part.',
     ['frackit/magnitude'], [('magnitudes', 'computeLength/Area/Volume/Magnitude'), ('contained magnitudes', 'computeContainedMagnitude')], tech=REFM)
NB = 'frackit/entitynetwork/networkbuilder.hh'
prop('N01', 'Networks keep every part of every entity, numbered by its entity',
     'A built network consists of all parts the entities were cut into (or the entity itself where it was left whole), each part once, and each part carries the running number of the entity it stems from; numbers of several sub-networks follow each other without overlap. Building again gives the network of the data added so far. A failed fragmentation raises an exception.',
     [IN, HI, FA], 'all entities, all fragmentation results (parts, untouched and vanished entities), repeated builds',
     'Tests only look at the number of parts of simple configurations, never at lost, repeated or misnumbered parts.',
     [NB, 'frackit/entitynetwork/entitynetwork.hh'], [('builder', 'EntityNetworkBuilder::build'), ('fragments', 'EntityNetworkBuilderBase::fragment_')], tech=REFM)
prop('N02', 'Builders refuse inconsistent data and forget cleared data',
     'A network builder raises an exception for entities of different dimensions, for entities not of lower dimension than the domain, for sub-domains of different dimensions or with an id that is taken, and for access to a network that was not built or was cleared. After clear() nothing added before has an effect. All kernel operations use the tolerance set by the user, otherwise the smallest default tolerance of the sub-domains or, without any, of the entities.',
     [HI, IN], 'all orders of use of both builders, all shapes and tolerances', 'Tests use the builders once, correctly and with the default tolerance.',
     [NB], [('rules of use', 'EntityNetworkBuilderBase'), ('tolerance', 'setEpsilon/setDefaultEpsilon')], tech=REFM)
prop('N03', 'Networks are confined to their sub-domains as requested',
     'The entities of a sub-domain that bounds its network are confined to that sub-domain; those of other sub-domains to the union of all sub-domains defined so far, if this is enabled, and entities without sub-domain stay unconfined. Numbering is not disturbed by entities that vanish. In contained networks the sub-domains are fragmented together with the entities, and every sub-domain has its own parts, entity parts and numbers, also if there are none.',
     [IN, HI, FA], 'all sub-domains, entities, confinement flags, all results of the kernel operations', 'Tests use one or two sub-domains whose entities all reach the network.',
     [NB, 'frackit/entitynetwork/containedentitynetwork.hh'], [('confinement', 'EntityNetworkBuilderBase::confineNetworks_'), ('contained networks', 'ContainedEntityNetworkBuilder::build')], tech=REFM)
prop('N04', 'Entity sets hand over exactly the selected entities',
     'A set of entities of several geometry types keeps every entity under its id, refuses an id used with another geometry type, and passes all entities, or all of the ids selected and no others, under the given sub-domain id to the network builder. The numbers of entities match what was added.',
     [HI, IN], 'all sequences of additions and selections', 'Tests export all sets at once.',
     ['frackit/entitynetwork/multigeometryentityset.hh'], [('sets', 'MultiGeometryEntitySet')], tech=REFM)
SA = 'frackit/sampling/'
prop('S01', 'Sampled points lie in the geometry they are sampled for',
     'A point sampler returns the point given by one draw of each of its distributions, in the axis the distribution was given for; default samplers draw in exactly the extent of the box, cylinder or hollow cylinder, with squared radii drawn between the squared bounds, so that the points are spread uniformly over it and never leave it.',
     [IN, HI], 'all boxes, cylinders, hollow cylinders, all distributions and draws', 'Tests look at few draws in unit-size geometries at the origin; a wrong base point, radius or exchanged axis is visible only for others.',
     [SA + 'boxpointsampler.hh', SA + 'cylinderpointsampler.hh', SA + 'makepointsampler.hh', SA + 'makeuniformpointsampler.hh', SA + 'uniformpointsamplertraits.hh'], [('point samplers', 'BoxPointSampler, CylinderPointSampler'), ('default samplers', 'makePointSampler, makeUniformPointSampler')], tech=REFM)
prop('S02', 'Sampled geometries use every distribution once in its documented role',
     'A sampled disk, quadrilateral or polygon has the orientation, size and position given by one admissible draw of each of the distributions of the user: disk axes are positive and the minor axis is not larger than the major one, edges are not shorter than the minimum, strike rotates about the vertical and dip about the rotated in-plane axis, and the polygon is centred at the sampled point. Draws that are not admissible are repeated, or refused with an exception.',
     [IN, HI], 'all distributions, all sequences of draws', 'Tests cannot tell a swapped or reused distribution from a random result and never meet inadmissible draws.',
     [SA + 'disksampler.hh', SA + 'quadrilateralsampler.hh', SA + 'polygonsampler.hh'], [('samplers', 'DiskSampler, QuadrilateralSampler, PolygonSampler')], tech=REFM)
prop('S03', 'Sampling counters and targets are kept per id',
     'The sampling status counts the entities of every id separately, reports an id finished exactly if its count has reached its target and everything finished exactly if all ids are, keeps counts when a target is changed, keeps targets when counters are reset, forgets all on reset, and refuses to tell whether an id without target is finished.',
     [HI, IN], 'histories of targets, counts and resets over arbitrary, possibly equal ids', 'Tests have no history with a changed target, a reset of one counter or several ids at different stages.',
     [SA + 'status.hh'], [('status', 'SamplingStatus')], tech=REFM)
prop('S04', 'Samplers of several geometries are used in turn under their own ids',
     'The sequential strategy returns the ids it knows in the order they were added, over and over, each once per turn, also if ids are added in between. A sampler of several geometry types returns a geometry of exactly the sampler registered for the id it reports; ids that are taken and an empty sampler are refused.',
     [HI, IN], 'sequences of additions and samplings with arbitrary, possibly equal ids', 'Tests use one sampler per geometry type and never an id twice.',
     [SA + 'multigeometrysampler.hh', SA + 'sequentialsamplingstrategy.hh', SA + 'samplingstrategy.hh'], [('strategy', 'SequentialSamplingStrategy::getNextId'), ('sampler', 'MultiGeometrySampler::operator()')], tech=REFM)
prop('W01', 'Written networks hold every part once, under the number of its entity',
     'The boundary representation that is written holds every vertex, edge, wire, face, shell and solid of the network exactly once. Every part of an entity or sub-domain is listed, by its number in the written shape, under the number of its entity or the id of its sub-domain; entities of different sub-domains have different numbers; every edge in which two entity fragments meet is listed in exactly one intersection, whatever the orientation of the faces. Networks of unsupported dimensions are refused and write failures raise an exception.',
     [IN, CF], 'all networks without and with sub-domains (two fragments with arbitrary parts each), shared and repeated parts, any orientation',
     'The test writes one network and never reads the file: a part missing in the shape, or a wrong number, goes unnoticed.',
     ['frackit/io/brepwriter.hh'], [('shape and numbering', 'BRepWriter')], tech=REFM)
prop('W02', 'Mesh files name all groups and set the mesh sizes of the user',
     'The mesh file merges the written shape, defines one physical group per sub-domain, entity and intersection with exactly its parts and its number, and sets the size at the boundary for sub-domains and the size at entities afterwards, so that the latter prevails; with one size given it is used for both. A failure to write raises an exception.',
     [IN, CF], 'all networks without and with sub-domains (two fragments with arbitrary parts each), all mesh sizes and file names',
     'The test writes one network and never reads the file.',
     ['frackit/io/gmshwriter.hh'], [('mesh file', 'GmshWriter::write')], tech=REFM)
PB = ['frackit/python', 'python/frackit']
BIM = 'static analysis: symbolic evaluation of the pybind11 module initialisations and of every registered callable against the library function of its name'
prop('B01', 'Python functions do what the C++ function of that name does',
     'Every function, method, property and constructor registered in the Python modules computes exactly what the C++ function of that name computes for the same arguments in the same order; shapes are unwrapped and wrapped without loss and no argument, tolerance or alternative of a result is dropped, exchanged or replaced. Representations and names state the type and the coordinates in their order.',
     [PR, IN], 'all registered callables and all arguments', 'Python tests call some functions for shapes on which exchanged arguments or overloads do not show.',
     PB, [('bindings', 'pybind11_init__* and the callables registered there')], tech=BIM)
prop('B02', 'The Python interface is complete and its keywords mean what they say',
     'All public classes with their base classes, and all functions, constructors and overloads of the Python interface are registered under their names. Keywords stand for the parameters they name, omitted arguments have the defaults of C++, and references handed to Python are copies or keep their owner alive.',
     [PR, CF], 'all registrations of all modules', 'Python tests use positional arguments and a part of the interface.',
     PB, [('registrations', 'class_::def, module_::def with keywords')], tech=BIM)
PYM = 'static analysis: abstract interpretation of the Python syntax trees over terms, partitioned by the conditions on symbols, against reference definitions'
PYN = ('Lists and tables are taken in a few fixed sizes, rejection loops up to some 30 rejections (or endlessly many); draws of one sampler are interchangeable, the compiled modules stay opaque and are the subject of B01 and B02. ')
prop('B03', 'Python wrappers choose dimension, overload and constraints correctly',
     'The Python functions around the compiled modules pick the class of the right dimension for the given coordinates or arguments, compute lengths, areas and volumes only of geometries of that dimension, and take the smallest distance over a list; boolean operations get the shapes of their arguments in order with the tolerance. Constraints accept lists exactly if every pair is admissible; a constraints matrix evaluates, for an entity of a set, exactly the constraints registered for that set against each other set that has entities, and refuses ids that are taken or incomplete; builders get every entity once, in order, with its sub-domain.',
     [IN, HI], 'all arguments; lists and constraint tables of up to four entries', 'Python tests call few wrappers, with constraint tables whose rows and columns have the same ids.',
     ['python/frackit/geometry/__init__.py', 'python/frackit/occutilities/__init__.py', 'python/frackit/entitynetwork/__init__.py'],
     [('constraints', 'EntityNetworkConstraints.evaluate, EntityNetworkConstraintsMatrix'), ('construction', 'Point, Vector, Direction, Circle'), ('operations', 'computeDistance, cut, intersect, fragment, fuse')], tech=PYM, note=PYN)
prop('B04', 'Python samplers build the shape their drawn parameters describe',
     'Points of boxes and (hollow) cylinders follow from one draw of each coordinate sampler within the bounds of the shape, the radial coordinate from the squared radius. Disks, polygons and quadrilaterals sampled in Python have the center, axes, lengths and rotations drawn from the given samplers and closed boundaries in cyclic order; inadmissible draws (lengths that are not positive, less than three corners) are drawn again, and where the number of attempts is bounded, failure raises an exception.',
     [IN, HI], 'all values of the samplers, any number of rejected draws; polygons of 3 to 5 corners for representative boundary draws', 'Python tests only call the samplers and check no value.',
     ['python/frackit/sampling/__init__.py'],
     [('point samplers', 'BoxPointSampler, CylinderPointSampler, makePointSampler'), ('shape samplers', 'DiskSampler, PolygonSampler, QuadrilateralSampler')], tech=PYM, note=PYN)
HDN = ('Trusted: clang\'s front end, and that it accepts what the project\'s other compilers accept. Only headers and classes of the unchanged tree are judged; a header that is new and fails is undecided. ')
prop('H01', 'Every header stands alone and may be included in several units',
     'Each public header compiles as the first and only include of a unit and if it is included repeatedly, and all headers can be included together in any order; including only the header of a class suffices to use all of its members. Headers define only templates, inline functions and entities of internal linkage, so that a program may include them in any number of units, and no header is hidden by the include guard of another.',
     [PR], 'all headers, all programs that consist of several units including any of them in any order',
     'Every test is a single unit that includes a fixed list of headers, so that a missing include, a non-inline definition or an include guard used twice goes unnoticed until another program includes the header.',
     ['frackit'], [('headers', 'frackit/**/*.hh except the sources of the Python modules'), ('members of class templates', 'explicit instantiation with only the header of the class')],
     tech='static analysis: compile-only witness units per header (front end without code generation), query over the intermediate representation for strong definitions in headers, and over the include guards', note=HDN)
prop('H02', 'The public interface accepts every documented combination of types',
     'Every documented function can be called with every documented combination of geometry types, boundary representations and lists of them, in every documented order of the arguments and with the optional arguments left out, and the result has the documented type. The result type of an intersection is the same in both orders and with the default tolerance, and geometry, dimension and emptiness traits agree with the types they are asked for.',
     [PR], 'all well-typed programs against the public interface (one type-level witness per function and combination of types)',
     'A combination of template arguments that no test instantiates is never compiled: overloads that recurse, are ambiguous, are missing or return another type stay unnoticed.',
     ['frackit/geometry', 'frackit/intersection', 'frackit/distance', 'frackit/magnitude', 'frackit/geometryutilities', 'frackit/occ', 'frackit/sampling', 'frackit/entitynetwork', 'frackit/io'],
     [('intersections', 'intersect, Intersection, IntersectionAngle'), ('quantities', 'computeDistance, computeMagnitude, computeContainedMagnitude, getBoundingBox, getDimension'), ('classes', 'samplers, constraints, network builders, writers')],
     tech='static analysis: type-level encodings (units of explicit instantiations and static assertions that fail to build if the interface violates them; compiled without code generation, never executed)', note=HDN)
