LN = "Held on the generated executions only (count in evidence); trusts the reference model in the harness, gcc's ASan/UBSan and float tolerances stated in DESIGN.md."
V = "VirtualRobot/"
prop("C01", "Node poses are the composition of joint motions along the kinematic chain",
 "After any sequence of joint commands, configuration changes, node-set commands and root-pose or node-pose placements, every robot node's global pose equals the robot's pose composed along its chain with each node's fixed transform and its joint's motion (rotation about the axis or translation along the direction, offset included), and is a rigid transform. Poses reported in the root frame, by links, by sensors and by the visualization and collision models attached to the nodes agree with it, and placing a robot so that a node reaches a given pose puts exactly that node there without changing any joint value.",
 ["inputs","histories","configurations"], "all kinematic trees (fixed, revolute, prismatic joints, arbitrary axes, offsets, propagation), all command sequences, all root poses",
 "Tests evaluate a handful of poses of fixed sample robots; the composition law must hold for every tree, every joint vector and after every update path (several of which skip or batch the pose update).",
 [V+"Robot.cpp",V+"Nodes/RobotNode.cpp",V+"Nodes/RobotNodeRevolute.cpp",V+"Nodes/RobotNodePrismatic.cpp",V+"Nodes/RobotNodeFixed.cpp",V+"SceneObject.cpp",V+"RobotNodeSet.cpp",V+"Nodes/Sensor.cpp"],
 [("pose propagation",V+"Nodes/RobotNode.cpp updatePose / updateTransformationMatrices"),("joint application",V+"Robot.cpp setJointValues, applyJointValues"),("root placement",V+"Robot.cpp setGlobalPose, setGlobalPoseForRobotNode")],
 "reference-model monitor (independent double-precision forward kinematics) over generated command histories, ASan+UBSan build", LN)
prop("C02", "Commanded joint values are confined to their limits",
 "Whatever value is commanded and through whichever interface (single joint, map, vector, node set, configuration, delta), a joint with enforced limits holds the commanded value clipped to its limits and is never left outside them, and commands to one joint change no other joint except those it declares to drive, which receive the scaled value under their own limits. A joint declared limitless keeps every commanded angle up to whole turns, and the shortest signed delta it reports to a target, when commanded, reaches that target.",
 ["inputs","histories"], "all joints, limits, command interfaces and values, including values far outside the limits and at the bounds",
 "Tests command values inside the limits of sample robots; clipping, wrap-around and propagation must hold for every value, limit pair and interface.",
 [V+"Nodes/RobotNode.cpp",V+"Robot.cpp",V+"RobotNodeSet.cpp",V+"RobotConfig.cpp"],
 [("limit enforcement",V+"Nodes/RobotNode.cpp setJointValueNoUpdate, checkJointLimits, isLimitless"),("propagation",V+"Nodes/RobotNode.cpp propagateJointValue"),("delta",V+"Nodes/RobotNode.cpp getDelta")],
 "reference-model monitor over generated command histories, ASan+UBSan build", LN)
prop("C03", "Frame conversions between objects are exact, mutually inverse changes of frame",
 "Converting a pose, position or direction from global coordinates, the robot's root frame or another object's frame into an object's local frame and back returns the original, and equals multiplication by the relative pose of the two frames for any robot placement, including rotated ones. A coordinate linked to a frame keeps its meaning in the world when it is re-expressed in another frame and follows its frame when the robot moves.",
 ["inputs","configurations"], "all pairs of frames, all robot placements and joint values, all poses",
 "Tests use a few axis-aligned or identity placements; an error in frame order or a missing inverse shows only for rotated, translated combinations.",
 [V+"SceneObject.cpp",V+"Nodes/RobotNode.cpp",V+"Robot.cpp",V+"LinkedCoordinate.cpp"],
 [("conversions",V+"SceneObject.cpp toLocalCoordinateSystem, toGlobalCoordinateSystem, getTransformationTo/From, transformTo"),("root-frame conversions",V+"Nodes/RobotNode.cpp, "+V+"Robot.cpp getGlobalPoseForRobotNode"),("linked coordinates",V+"LinkedCoordinate.cpp")],
 "algebraic-law and reference-model monitor over generated robots and placements", LN)
prop("C04", "A cloned robot is equivalent to its original and independent of it",
 "A clone of a robot, or an extracted part of it, has the same nodes, kinematic structure, joint parameters and limits, node sets, end effectors, sensors, physical properties and current joint values and poses as the original restricted to that part. From then on the two share no mutable state: commands to one, or its destruction, never change what the other reports, and both respond identically to identical commands.",
 ["inputs","histories","configurations"], "all robots, all interleavings of commands on original and clone, all lifetimes",
 "Tests clone one sample robot and compare a few attributes; equivalence must hold for every attribute combination and independence over all later histories.",
 [V+"Robot.cpp",V+"RobotFactory.cpp",V+"Nodes/RobotNode.cpp",V+"Nodes/RobotNodeRevolute.cpp",V+"Nodes/RobotNodePrismatic.cpp",V+"EndEffector/EndEffector.cpp",V+"RobotNodeSet.cpp",V+"SceneObject.cpp"],
 [("robot clone",V+"Robot.cpp clone, extractSubPart"),("node clone",V+"Nodes/RobotNode.cpp clone, _clone overrides")],
 "differential monitor (original vs clone) over generated robots and histories, ASan for shared or dangling state", LN)
prop("C05", "Saving a robot description and loading it again yields the same robot",
 "A robot written to its XML description and read back has the same nodes, parent relations, joint types, axes, limits, offsets, limitless flags, velocity, acceleration and torque limits, couplings, masses, inertias, node sets, end effectors and sensors, and produces the same poses for the same joint values. Reading a description interprets declared units and transformation notations (matrix, roll-pitch-yaw, DH) as the documentation defines them.",
 ["inputs"], "all robots expressible in the format, all units and transformation notations, all joint values afterwards",
 "Tests parse small strings and check that parsing does not throw; nothing compares a saved-and-reloaded robot with its original, attribute by attribute, over the space of robots.",
 [V+"XML/RobotIO.cpp",V+"XML/BaseIO.cpp",V+"Robot.cpp",V+"Nodes/RobotNode.cpp",V+"Nodes/RobotNodeRevolute.cpp",V+"Nodes/RobotNodePrismatic.cpp",V+"RobotNodeSet.cpp",V+"EndEffector/EndEffector.cpp"],
 [("writer",V+"Robot.cpp toXML, node _toXML"),("reader",V+"XML/RobotIO.cpp createRobotFromString, loadRobot"),("units and transforms",V+"XML/BaseIO.cpp")],
 "round-trip and reference-interpretation monitor over generated descriptions", LN)
prop("C06", "Jacobians are the derivatives of the pose they describe",
 "Every Jacobian the library computes (tool pose, position or orientation part, in any reference frame, center of mass, and constraint or hierarchy Jacobians) equals the derivative of the described quantity with respect to the joint values, with zero columns for joints that do not influence it. The error vector of a goal vanishes exactly when the goal is reached, and the pseudo-inverse reproduces the Moore-Penrose solution where the Jacobian has full rank.",
 ["inputs","configurations"], "all kinematic chains, joint sets in any order, joint values, reference frames, tool points and cartesian selections",
 "Tests compare one robot's Jacobian at a few configurations; the derivative relation must hold at all configurations, frames and chains.",
 [V+"IK/DifferentialIK.cpp",V+"IK/JacobiProvider.cpp",V+"IK/CoMIK.cpp",V+"IK/HierarchicalIK.cpp",V+"IK/StackedIK.cpp",V+"IK/JointLimitAvoidanceJacobi.cpp"],
 [("tool Jacobian",V+"IK/DifferentialIK.cpp getJacobianMatrix"),("pseudo inverse",V+"IK/JacobiProvider.cpp computePseudoInverseJacobianMatrix"),("CoM Jacobian",V+"IK/CoMIK.cpp getJacobianMatrix")],
 "finite-difference oracle (library-independent forward kinematics) over generated chains", LN)
prop("C07", "An inverse-kinematics success is a real solution within tolerance and limits",
 "Whenever a solver reports success, the robot is left in (or the returned configuration describes) a state in which every requested goal is met within the tolerances set, joint limits hold, and no configured collision constraint is violated; joints outside the solver's joint set are unchanged. For targets generated from reachable configurations close to the start, the iterative solver succeeds.",
 ["inputs","configurations"], "all chains, targets, start configurations, tolerances and solver kinds",
 "Tests call solvers on single targets of sample robots; soundness of a success must hold for every target, including unreachable ones.",
 [V+"IK/DifferentialIK.cpp",V+"IK/GenericIKSolver.cpp",V+"IK/AdvancedIKSolver.cpp",V+"IK/IKSolver.cpp",V+"IK/GazeIK.cpp",V+"IK/CoMIK.cpp",V+"IK/ConstrainedOptimizationIK.cpp",V+"IK/ConstrainedIK.cpp"],
 [("iterative solver",V+"IK/DifferentialIK.cpp computeSteps, checkTolerances"),("generic solver",V+"IK/GenericIKSolver.cpp solve"),("optimization solver",V+"IK/ConstrainedOptimizationIK.cpp solve")],
 "post-condition monitor: independent pose error and limit oracle after each reported success", LN)
prop("C08", "A robot shared between threads is updated and read atomically and race-free",
 "With thread-safe access enabled (the default), any number of threads may concurrently set joint values or the robot's pose and read joint values and poses of the robot and its nodes without a data race or deadlock. Each write is applied as a whole: a pose read while holding the robot's read lock, and the state after all writers finished, correspond to complete commands, never to a mixture within one command.",
 ["schedules","histories"], "all interleavings of readers and writers over the joint, pose and configuration interfaces",
 "The one thread-safety test runs two threads and checks that nothing crashes; races depend on schedules and interfaces it does not drive, and it runs without a race detector.",
 [V+"Robot.cpp",V+"Robot.h",V+"Nodes/RobotNode.cpp",V+"RobotNodeSet.cpp",V+"SceneObject.cpp"],
 [("robot mutex",V+"Robot.h getReadLock/getWriteLock"),("locked writers",V+"Robot.cpp setJointValues, applyJointValues, setGlobalPose"),("locked readers",V+"Nodes/RobotNode.cpp getGlobalPose, getJointValue")],
 "ThreadSanitizer build plus snapshot-atomicity checker over recorded concurrent histories", LN+" Schedules are those the OS and injected yields produced.")
prop("C09", "Collision queries and distances agree exactly with the triangle geometry",
 "For any two collision models at any poses, the collision answer is true exactly when some pair of their triangles intersects, and the distance equals the smallest distance between the two triangle sets, attained by the two reported closest points, which lie on the respective surfaces in the world. The answers are symmetric, unaffected by a common rigid motion, and follow every pose change, scaling, inflation, clone or enable/disable of a model.",
 ["inputs","histories","configurations"], "all triangle meshes, relative poses (separate, touching, nested, degenerate) and model manipulation histories",
 "Tests query a few box and sphere placements; bounding-volume traversal, transform order and cached poses can be wrong for relative poses the tests never visit.",
 [V+"CollisionDetection/CollisionChecker.cpp",V+"CollisionDetection/CollisionModel.cpp",V+"CollisionDetection/PQP/CollisionCheckerPQP.cpp",V+"CollisionDetection/PQP/CollisionModelPQP.cpp",V+"CollisionDetection/PQP/PQP++/PQP.cpp",V+"CollisionDetection/PQP/PQP++/TriDist.cpp"],
 [("pairwise queries",V+"CollisionDetection/PQP/CollisionCheckerPQP.cpp"),("pose cache",V+"CollisionDetection/CollisionModel.cpp setGlobalPose"),("bounding volumes",V+"CollisionDetection/PQP/PQP++")],
 "brute-force triangle-pair oracle (double precision) over generated meshes, poses and histories, ASan+UBSan build", LN)
prop("C10", "Collision results for groups are exactly the union of their pairwise results",
 "A collision or distance query between sets of objects, robots, node sets or through a collision manager returns what the pairwise queries over all its member pairs imply: collision if any considered pair collides, and the minimum distance with the pair and points that attain it. A manager considers exactly the pairs that were registered, in any order of registration, and reports a configuration collision-free exactly when none of them collides.",
 ["inputs","histories","configurations"], "all set compositions, registration orders, object poses and query overloads",
 "Tests cover at most one small set; which pairs are considered depends on registration histories and set compositions.",
 [V+"CollisionDetection/CDManager.cpp",V+"CollisionDetection/CollisionChecker.cpp",V+"SceneObjectSet.cpp",V+"RobotNodeSet.cpp"],
 [("manager",V+"CollisionDetection/CDManager.cpp"),("set queries",V+"CollisionDetection/CollisionChecker.cpp"),("set membership",V+"SceneObjectSet.cpp addSceneObject, removeSceneObject")],
 "reference-model monitor: group answers vs all member pairs over generated registration histories", LN)
prop("C11", "Mesh operations preserve geometry and bounds always enclose it",
 "Appending, merging, de-duplicating, scaling, flipping, inflating, recoloring and copying a triangle mesh yields the triangles those operations mathematically define, with valid indices and every corner keeping its color; reported areas, center and size agree with the triangles. A bounding box of any model encloses every vertex tightly in the frame it is reported in (through moves, clones and inflation), and importing an STL file (text or binary) yields exactly the (non-degenerate) triangles stored in it.",
 ["inputs","histories"], "all meshes (including degenerate ones), transformations and operation sequences",
 "Tests import one file and build small meshes; index and transform errors depend on mesh structure and operation order.",
 [V+"Visualization/TriMeshModel.cpp",V+"Visualization/TriMeshUtils.cpp",V+"BoundingBox.cpp",V+"Import/MeshImport/STLReader.cpp",V+"CollisionDetection/CollisionModel.cpp",V+"Visualization/CoinVisualization/CoinVisualizationFactory.cpp"],
 [("mesh",V+"Visualization/TriMeshModel.cpp"),("bounds",V+"BoundingBox.cpp"),("import",V+"Import/MeshImport/STLReader.cpp")],
 "reference-model monitor over generated meshes and operation sequences, ASan+UBSan build", LN)
prop("C12", "Mass, center of mass and inertia are conserved aggregates of the parts",
 "A robot's and a node set's total mass equals the sum over their bodies, and their center of mass is the mass-weighted mean of the bodies' world centers of mass for every configuration, moving rigidly with the robot. Cloning, saving and reloading, or moving joints changes no mass, local center of mass or inertia, and derived inertias are symmetric, positive semidefinite and scale linearly with mass.",
 ["inputs","histories","configurations"], "all mass distributions, joint values, placements and node-set selections",
 "No test checks mass properties of articulated bodies over configurations.",
 [V+"Robot.cpp",V+"RobotNodeSet.cpp",V+"SceneObject.cpp",V+"Visualization/TriMeshModel.cpp",V+"IK/CoMIK.cpp"],
 [("aggregates",V+"Robot.cpp getCoMGlobal, getMass; "+V+"RobotNodeSet.cpp getCoM, getMass"),("body properties",V+"SceneObject.cpp setCoMLocal, initializePhysics, getCoMGlobal")],
 "conservation monitor with independent recomputation over generated robots and configurations", LN)
prop("C13", "Trajectories and configurations interpolate, index and apply consistently",
 "A joint trajectory passes through its points in order, has the length of the polyline through them, and evaluated at any fraction of that length lies on the polyline at that fraction, first and last points at 0 and 1; inserting, removing, reversing and cloning points changes exactly those points. A named joint configuration applied to a robot sets exactly its joints, and reading, comparing, serializing and reloading configurations and trajectories preserves them.",
 ["inputs","histories"], "all point sequences (including single, repeated and many points), all fractions, all edit sequences",
 "Tests build a two-point trajectory; indexing errors need edit histories, repeated points or fractions at boundaries.",
 [V+"Trajectory.cpp",V+"RobotConfig.cpp",V+"XML/RobotIO.cpp",V+"XML/BaseIO.cpp"],
 [("interpolation",V+"Trajectory.cpp interpolate"),("edits",V+"Trajectory.cpp addPoint, insertPoint, erasePosition, reverseOrder"),("configurations",V+"RobotConfig.cpp")],
 "reference-model monitor (vector of points) over generated edit histories", LN)
prop("C14", "Time-optimal trajectories respect limits and stay on their path",
 "A time-parameterized trajectory that is reported valid starts at rest at the first waypoint and ends at rest at the last, its positions stay on the given path (within the configured corner blending), and its velocities and accelerations never exceed the given per-joint maxima. Its velocity is the time derivative of its position and its duration is finite, positive and not shorter than the fastest time the limits permit.",
 ["inputs"], "all waypoint lists, velocity and acceleration limits, blending deviations and time steps",
 "The tests check validity and duration for three hard-coded waypoint lists.",
 [V+"TimeOptimalTrajectory/TimeOptimalTrajectory.cpp",V+"TimeOptimalTrajectory/Path.cpp"],
 [("phase-plane integration",V+"TimeOptimalTrajectory/TimeOptimalTrajectory.cpp"),("blended path",V+"TimeOptimalTrajectory/Path.cpp")],
 "trace monitor over densely sampled trajectories against path geometry and limits", LN)
prop("C15", "Compression is lossless for every byte sequence and block partition",
 "Any sequence of bytes, written in any number and size of blocks, is returned unchanged and in order by decompression, and the end of the stream is reported exactly once, after the last byte. Damaged or truncated compressed input is rejected or yields an error indication, never memory corruption, and buffer bounds given by the caller are never exceeded.",
 ["inputs","fault_sequences"], "all byte sequences, block sizes and splits, all corruptions of compressed streams",
 "Tests compress random blocks of a few fixed sizes; boundary cases depend on run lengths, block limits and corrupt data.",
 [V+"Compression/CompressionBZip2.cpp",V+"Compression/CompressionRLE.cpp"],
 [("bzip2 streams",V+"Compression/CompressionBZip2.cpp addBlock, finishWriting, getNextBlock"),("run-length coding",V+"Compression/CompressionRLE.cpp RLE_Compress, RLE_Uncompress")],
 "round-trip oracle with hostile generated data and corrupted streams, ASan+UBSan build", LN)
prop("C16", "A workspace map records exactly the poses added to it",
 "After any sequence of poses has been added, a query of the six-dimensional workspace map returns for each pose the value of exactly the cell that contains it, saturating at the maximum and zero for cells never reached and for poses outside the extents; counts, sums, maxima, averages and cuts are consistent with the cell contents. Sampled configurations drawn from the map or covered by it are reachable according to it, also when it is filled from several threads or moved with its base.",
 ["inputs","histories","schedules"], "all discretizations, extents, orientation encodings, pose sequences and fill strategies",
 "Tests add one pose to one map; indexing, saturation and bookkeeping depend on cell boundaries and histories.",
 [V+"Workspace/WorkspaceRepresentation.cpp",V+"Workspace/WorkspaceDataArray.cpp",V+"Workspace/Reachability.cpp",V+"Workspace/WorkspaceGrid.cpp"],
 [("cell indexing",V+"Workspace/WorkspaceRepresentation.cpp getVoxelFromPose, matrix2Vector"),("cell storage",V+"Workspace/WorkspaceDataArray.cpp")],
 "reference-model monitor (sparse map of cells) over generated pose histories, ASan+UBSan build", LN)
prop("C17", "A saved workspace map is restored exactly, and damaged files are refused",
 "Saving a reachability or manipulability map and loading it with the same robot restores every cell, extent, discretization, base, tool and orientation setting, so that every query and every later change behaves identically; clones do likewise. A truncated or foreign file is refused with an error and never corrupts memory.",
 ["inputs","fault_sequences"], "all map contents and parameters, all truncations and header corruptions",
 "One test saves and reloads one map and compares two values.",
 [V+"Workspace/WorkspaceRepresentation.cpp",V+"Workspace/WorkspaceDataArray.cpp",V+"Workspace/Reachability.cpp",V+"Workspace/Manipulability.cpp"],
 [("save/load",V+"Workspace/WorkspaceRepresentation.cpp save, load"),("clone",V+"Workspace/Reachability.cpp clone")],
 "round-trip and fault-injection monitor (truncations, bit flips) under ASan", LN)
prop("C18", "Rotation representations convert into each other without changing the rotation",
 "Conversions between rotation matrices, roll-pitch-yaw angles, quaternions, axis-angle, DH parameters and pose vectors preserve the rotation (and position) they represent, for every rotation including singular, half-turn and identity cases. Rotation distances and interpolations agree with the geodesic on rotations: zero for equal rotations, symmetric, at most half a turn, interpolation hitting both ends and proceeding proportionally.",
 ["inputs"], "all rotations (with emphasis on singular configurations), all argument encodings",
 "Tests check a few named rotations; sign and ordering errors appear only in particular octants or near singularities.",
 [V+"MathTools.cpp",V+"math/Helpers.cpp",V+"Transformation/DHParameter.cpp"],
 [("conversions",V+"MathTools.cpp eigen4f2rpy, rpy2eigen4f, quat2eigen4f, eigen4f2quat, eigen4f2axisangle, axisangle2eigen4f, slerp"),("helpers",V+"math/Helpers.cpp")],
 "independent double-precision oracle over generated rotations", LN)
prop("C19", "Geometric primitives compute what their definitions say",
 "Projections onto lines, segments and planes, distances, intersections of lines, planes and triangles, barycentric tests, planar convex hulls and their centers, areas, random and spherical coordinates, and fitted or implicit primitives satisfy their defining equations for every non-degenerate input: results lie on the primitive and are nearest, intersections lie on both, hulls contain all points and are convex. Degenerate input yields a defined result, never an out-of-range access or an undefined number.",
 ["inputs"], "all primitive parameters and points, including near-degenerate ones",
 "Tests evaluate a few hand-picked coordinates.",
 [V+"MathTools.cpp",V+"math/Line.cpp",V+"math/Plane.cpp",V+"math/Triangle.cpp",V+"math/Bezier.cpp",V+"math/Helpers.cpp"],
 [("primitives",V+"MathTools.cpp getNearestPointOnLine, getDistancePointPlane, createConvexHull2D, intersect functions"),("math classes",V+"math/*.cpp")],
 "definition oracle (double precision) over generated inputs, UBSan+ASan", LN)
prop("C20", "A planned motion is a valid solution of its planning problem",
 "When a motion planner reports success, its solution starts exactly at the start and ends exactly at the goal configuration, every configuration sampled along it at the space's sampling resolution lies within the joint bounds and is free of collisions and satisfies the configured constraints, and the search trees contain only valid, properly linked nodes. When start or goal is invalid no solution is reported, and when planning fails or is stopped no partial path is presented as a solution.",
 ["inputs","configurations","histories"], "all planning problems, planners (uni- and bidirectional, extend modes), sampling sizes and seeds",
 "The tests plan one or two problems once; validity must hold for every random exploration.",
 ["MotionPlanning/Planner/Rrt.cpp","MotionPlanning/Planner/BiRrt.cpp","MotionPlanning/Planner/MotionPlanner.cpp","MotionPlanning/CSpace/CSpaceSampled.cpp","MotionPlanning/CSpace/CSpace.cpp","MotionPlanning/CSpace/CSpaceTree.cpp"],
 [("planners","MotionPlanning/Planner/Rrt.cpp plan, BiRrt.cpp plan"),("path validity","MotionPlanning/CSpace/CSpaceSampled.cpp isPathValid"),("config validity","MotionPlanning/CSpace/CSpace.cpp isConfigValid")],
 "post-condition monitor: independent path re-validation and tree-invariant checker on every planner run, ASan+UBSan build", LN)
prop("C21", "Path post-processing keeps a valid solution valid and never lengthens it",
 "Shortcutting and smoothing a collision-free path returns a path with the same start and goal whose segments are all valid at the space's sampling resolution; shortcutting never returns a longer path and never modifies the original. A path evaluated at any time in [0,1] lies on its polyline, passes through its points in order, and editing, cloning, appending, reversing and re-sampling it changes only what the operation defines.",
 ["inputs","histories"], "all valid paths, spaces, metric weights, border joints, iteration counts and edit sequences",
 "Tests do not exercise post-processing; validity after thousands of random shortcuts is a property of all of them.",
 ["MotionPlanning/PostProcessing/ShortcutProcessor.cpp","MotionPlanning/PostProcessing/ElasticBandProcessor.cpp","MotionPlanning/CSpace/CSpacePath.cpp","MotionPlanning/CSpace/CSpaceSampled.cpp"],
 [("shortcuts","MotionPlanning/PostProcessing/ShortcutProcessor.cpp"),("paths","MotionPlanning/CSpace/CSpacePath.cpp")],
 "post-condition monitor with independent re-validation and a polyline reference model, ASan+UBSan build", LN)
prop("C22", "Background planning can be started, polled, stopped and joined safely",
 "Planning and path processing in background threads yields the same kind of result as a foreground run; starting, polling, stopping at any moment, restarting and destroying them never races, deadlocks, crashes or loses a stop request, and after a stop returns the worker is no longer running. Status queries are consistent: running until the worker ends, and a result is offered only after it is complete.",
 ["schedules","histories"], "all interleavings of control calls with the worker's progress",
 "Tests never start planning threads; lost stops and races depend on timing.",
 ["MotionPlanning/Planner/PlanningThread.cpp","MotionPlanning/PostProcessing/PathProcessingThread.cpp","MotionPlanning/Planner/Rrt.cpp","MotionPlanning/PostProcessing/ShortcutProcessor.cpp","MotionPlanning/CSpace/CSpace.cpp"],
 [("planning thread","MotionPlanning/Planner/PlanningThread.cpp"),("processing thread","MotionPlanning/PostProcessing/PathProcessingThread.cpp"),("stop flags","MotionPlanning/Planner/MotionPlanner.cpp stopExecution")],
 "ThreadSanitizer build plus lifecycle-trace checker with randomized stop timing", LN+" Schedules are those the OS and injected delays produced; hangs are judged by a generous watchdog and a re-run.")
prop("C23", "Configuration-space bookkeeping is exact",
 "A search tree always contains exactly the configurations added and not removed, linked acyclically to their parents, and its nearest-neighbour query returns a configuration at minimal distance under the space's metric; the space never hands out a node that is in use and recycles released ones. Distances and interpolation respect weights and wrap limitless joints the short way, and validity equals bounds, collision manager and constraint checks.",
 ["inputs","histories"], "all insert, remove and query histories, dimensions, metric weights and border joints",
 "No test touches trees or the metric; errors depend on removal histories and wrap-around.",
 ["MotionPlanning/CSpace/CSpace.cpp","MotionPlanning/CSpace/CSpaceTree.cpp","MotionPlanning/CSpace/CSpaceSampled.cpp","MotionPlanning/CSpace/Sampler.cpp"],
 [("tree","MotionPlanning/CSpace/CSpaceTree.cpp"),("metric and interpolation","MotionPlanning/CSpace/CSpace.cpp calcDist, interpolate"),("node pool","MotionPlanning/CSpace/CSpace.cpp createNewNode, removeNode")],
 "reference-model monitor over generated operation histories, ASan+UBSan build", LN)
prop("C24", "Convex hulls and grasp quality follow from the contacts alone",
 "A computed convex hull contains every input point, has only input points as vertices, closed outward-facing facets, and the volume and center of that polytope; a mesh made from it or refined from a model keeps its surface. Friction cones open by the angle of the friction coefficient around the contact normal. Grasp quality in wrench space depends only on the current contacts and the object: force closure is reported exactly when the origin lies in the hull of the contact wrenches, quality is the distance of the hull center to its nearest facet (relative to the object wrench space where normalised) and never negative, volume is that of the hull; none of it changes with the order of contacts or when object and contacts move together, and an added contact neither shrinks the volume nor loses force closure.",
 ["inputs","configurations"], "all point sets and contact sets, rigid motions, permutations and friction parameters",
 "No test covers grasp quality or hull generation.",
 ["GraspPlanning/ConvexHullGenerator.cpp","GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp","GraspPlanning/GraspQuality/GraspQualityMeasure.cpp","GraspPlanning/ContactConeGenerator.cpp","GraspPlanning/MeshConverter.cpp"],
 [("hull","GraspPlanning/ConvexHullGenerator.cpp CreateConvexHull"),("wrench space","GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp"),("cones","GraspPlanning/ContactConeGenerator.cpp")],
 "definition oracle (containment, ridges, independent convex-hull membership by minimal-norm points) and invariance monitor over generated point and contact sets, ASan+UBSan build", LN)
prop("C25", "Closing a gripper stops at contact and reports contacts that are real",
 "Closing or opening an end effector moves only its actor joints, monotonically in their actuation direction and within limits, and ends with each actor either at its limit or stopped by contact, without leaving the hand in collision with the object or with parts its collision modes respect. Every reported contact names bodies of the hand and object that are in proximity at the reported points (obstacle points in the obstacle's frame). Asking again changes nothing, opening reverses closing, and collision, distance and overlap queries on the hand agree with the separate distance of its parts. Stored preshapes restore exactly the joint values they describe, and a copied hand behaves like the original and never moves it",
 ["inputs","configurations"], "all hands, objects, relative poses, step sizes and pre-shapes",
 "No test closes a hand on an object.",
 [V+"EndEffector/EndEffector.cpp",V+"EndEffector/EndEffectorActor.cpp",V+"Grasping/Grasp.cpp",V+"Grasping/GraspSet.cpp"],
 [("closing",V+"EndEffector/EndEffectorActor.cpp moveActor, moveActorCheckCollision"),("contacts",V+"EndEffector/EndEffector.cpp closeActors"),("grasps",V+"Grasping/Grasp.cpp getTcpPoseGlobal, getTargetPoseGlobal")],
 "post-condition monitor with independent distance oracle over generated hands and objects, ASan+UBSan build", LN)
prop("C26", "The dynamics world mirrors its objects and conserves what physics conserves",
 "The set of objects and robots in a simulated world is exactly what was added and not removed; after every step each object's pose in the model equals the pose of its simulated body, poses stay finite and rigid, static objects never move and kinematic objects move only when commanded. Free flight follows gravity, impacts and rest obey the contact and momentum laws, disabled collisions do not act, motor driven robot joints stay connected, within limits and reach their targets, and set poses, velocities and joint targets are read back unchanged in the units of the interface.",
 ["histories","inputs"], "all add, remove, step, pose and velocity command histories",
 "Tests only create an empty world and one object.",
 ["SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp","SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp","SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp","SimDynamics/DynamicsEngine/DynamicsObject.cpp","SimDynamics/DynamicsEngine/DynamicsEngine.cpp","SimDynamics/DynamicsWorld.cpp"],
 [("world","SimDynamics/DynamicsWorld.cpp"),("bodies","SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp"),("motion state","SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp")],
 "reference-model monitor over generated command histories with physical invariants, ASan+UBSan build", LN)
prop("C27", "Scenes, objects and grasps survive saving and loading",
 "Manipulation objects with their grasps, obstacles, and scenes with robots, configurations, object sets and trajectories, written to XML and read back, have the same names, poses, physical properties, grasps (end effector, transform, quality, preshape) and contents. Lookup, registration and removal by name behave as a set keyed by name throughout.",
 ["inputs","histories"], "all scenes, objects and grasp sets expressible in the formats",
 "Tests parse small scene strings and check the absence of exceptions.",
 [V+"Scene.cpp",V+"XML/SceneIO.cpp",V+"XML/ObjectIO.cpp",V+"ManipulationObject.cpp",V+"Obstacle.cpp",V+"Grasping/GraspSet.cpp",V+"Grasping/Grasp.cpp"],
 [("writers",V+"Scene.cpp, "+V+"ManipulationObject.cpp toXML"),("readers",V+"XML/SceneIO.cpp, "+V+"XML/ObjectIO.cpp")],
 "round-trip and set-model monitor over generated scenes, ASan+UBSan build", LN)
prop("C28", "Malformed descriptions are refused with an exception, never undefined behaviour",
 "Reading any damaged, truncated or nonsensical robot, object, scene or STL mesh description either succeeds or raises the library's VirtualRobotException (or the documented error result). It never crashes, hangs or overflows the stack (not even for files that include themselves), and never reads or writes out of bounds. What is loaded is consistent: unique node names, one tree below the root, end effectors and node sets whose frames exist in the robot, joint values within limits, mesh faces that refer to existing vertices; it can be used, copied and saved. References to nodes, files or sets that do not exist, missing or non-numeric mandatory values, unknown tags, duplicated definitions and truncated files are reported, and a damaged file leaves no trace that would change how the next valid one loads.",
 ["inputs","fault_sequences"], "all byte-level and structural mutations of descriptions",
 "Tests try about twenty malformed strings; the parser must withstand all of them.",
 [V+"XML/BaseIO.cpp",V+"XML/RobotIO.cpp",V+"XML/ObjectIO.cpp",V+"XML/SceneIO.cpp",V+"XML/rapidxml.hpp",V+"Import/MeshImport/STLReader.cpp"],
 [("parsing",V+"XML/BaseIO.cpp"),("robots",V+"XML/RobotIO.cpp"),("meshes",V+"Import/MeshImport/STLReader.cpp")],
 "mutation fuzzing of descriptions under ASan+UBSan with an exception-only oracle", LN)
prop("C29", "Planned grasps and approach poses are where and what the planner says",
 "A generated approach pose lies on a line through the surface of the object where it stands in the world, is oriented against the surface normal there, and leaves the hand free of collision; moving the hand by a delta moves exactly its approach frame, and generating poses or planning never moves the original hand or the object. Every grasp a planner reports and stores reaches the demanded quality and, if asked for, force closure; its stored pose, joint values, score and evaluation statistics are those of the hand at that grasp, free of the given obstacles. A zero timeout means none. Pose sets for uncertainty stay within the configured extents around the object's true pose and contain it, and evaluating grasps or poses reports statistics that follow from the individual poses and restores hand and object in every case.",
 ["inputs","configurations"], "all hands, objects, poses, preshapes, planner parameters and uncertainty extents",
 "No test plans or evaluates a grasp.",
 ["GraspPlanning/ApproachMovementGenerator.cpp","GraspPlanning/ApproachMovementSurfaceNormal.cpp","GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp","GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp"],
 [("approach","GraspPlanning/ApproachMovementSurfaceNormal.cpp createNewApproachPose"),("planner","GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp planGrasp"),("uncertainty","GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp")],
 "post-condition monitor with independent mesh collision oracle over generated hands, objects and planner runs, ASan+UBSan build", LN)

