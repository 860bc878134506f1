#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Reproducible simulation",
 "Executing the same sequence of API calls (creations, mutations, destructions, queries and updates with the same time steps) from a fresh PhysicsCommon on the same build always yields bit-identical body and joint state and the identical ordered stream of collision and trigger events. The result does not depend on where memory is placed, on the previous contents of allocated memory, on how much unrelated work the process or another PhysicsCommon did before, or on the order in which addresses happen to compare.",
 ["histories", "configurations", "fault_sequences"],
 "all API histories, all allocator placements/garbage contents/heap tunings, all preceding process activity",
 "Unit tests run one scenario once in one memory layout; they cannot compare two layouts, and an address- or garbage-dependent result passes them every time.",
 ["src/collision/broadphase", "src/engine/OverlappingPairs.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/systems/DynamicsSystem.cpp", "include/reactphysics3d/containers"],
 [("ordered arrays + hash containers keyed by ids, not pointers", "include/reactphysics3d/containers/{Array,Map,Set}.h, src/engine/OverlappingPairs.cpp"),
  ("entities recycled in a deterministic order", "src/engine/EntityManager.cpp")],
 observe=["body transforms/velocities after every PhysicsWorld::update", "EventListener callbacks"])

prop("C02", "Observation does not perturb the simulation",
 "Reading the world - ray casts, point and containment tests, any getter, computing world AABBs or debug-renderer primitives, attaching a pass-through event listener, or logging at any level - never changes any later simulation result: the trajectory and events of a run with arbitrary observations inserted are bit-identical to those of the run without them.",
 ["histories", "schedules"],
 "all API histories and all placements of observing calls within them",
 "A test asserts what a query returns, never that the thousand following updates are unchanged by having asked.",
 ["src/engine/PhysicsWorld.cpp", "src/utils/DebugRenderer.cpp", "src/collision/Collider.cpp", "src/body/Body.cpp", "src/utils/DefaultLogger.cpp"],
 [("const query paths over the broad-phase tree", "src/systems/BroadPhaseSystem.cpp"), ("debug primitives computed into own arrays", "src/utils/DebugRenderer.cpp")],
 observe=["hash of all body/joint state and event stream per update"])

prop("C03", "Worlds are isolated from each other",
 "Several worlds created from one PhysicsCommon, sharing its memory, collision shapes and meshes, never influence one another: each world's trajectory and events are bit-identical to those of the same world simulated alone, whatever is interleaved in the others, including creating and destroying whole worlds and bodies between its updates.",
 ["histories", "schedules"],
 "all interleavings of operations on several worlds of one PhysicsCommon",
 "The tests create one world at a time; interference needs two worlds whose updates and destructions interleave through the shared allocators and shapes.",
 ["src/engine/PhysicsCommon.cpp", "src/engine/PhysicsWorld.cpp", "src/memory/MemoryManager.cpp", "src/collision/shapes/CollisionShape.cpp"],
 [("per-world component stores and systems", "src/engine/PhysicsWorld.cpp"), ("shared frame allocator reset at the end of an update", "src/engine/PhysicsWorld.cpp update(), src/memory/SingleFrameAllocator.cpp")])

prop("C04", "Memory is owned, accounted for and returned",
 "With a user supplied allocator, every block the library obtains is released exactly once with the size it was requested with, nothing outside a live block is ever read or written, and once the PhysicsCommon is destroyed nothing is outstanding; this holds for every history and for tearing down colliders, bodies, joints, shapes, meshes, worlds or the whole PhysicsCommon in any permitted state. A bounded working set that is created and destroyed or simulated forever keeps using a bounded amount of memory.",
 ["histories", "crash_points", "fault_sequences"],
 "all API histories, all teardown points, and all destruction orders the API permits",
 "Tests build a fixture once and free it in one order; leaks, double releases, wrong sizes and dangling references need destruction at unusual points of long histories.",
 ["src/memory", "src/engine/PhysicsCommon.cpp", "src/components", "include/reactphysics3d/containers", "src/engine/PhysicsWorld.cpp"],
 [("size-aware allocate/release pairs", "include/reactphysics3d/memory/MemoryAllocator.h"), ("PhysicsCommon owns everything created through it", "src/engine/PhysicsCommon.cpp release()")],
 hook=None)

prop("C05", "Every object keeps exactly the state the API gave it",
 "After any sequence of API calls and updates, every property readable through a body, collider, shape, material, joint or world getter equals what a simple reference model of the documented setters predicts (last value written, documented side effects, and derived quantities such as mass, centre of mass, inertia, world transforms, bounding boxes and the volume and inertia of each shape consistent with the colliders present). Creating, changing or destroying any object never changes a property of an unrelated object, and an update changes nothing but what the simulation of moving bodies is meant to change.",
 ["histories"],
 "all sequences of creation, mutation, destruction and updates over many coexisting objects",
 "Tests set one property of one object and read it back; corruption through index reuse, component swap on deletion, or enable/disable reordering needs long mixed histories over many objects.",
 ["src/components", "src/body", "src/collision/Collider.cpp", "src/engine/PhysicsWorld.cpp", "src/engine/EntityManager.cpp", "src/constraint"],
 [("component arrays partitioned into enabled/disabled with swap on move", "src/components/Components.cpp and the *Components.cpp"),
  ("entity generation counters", "src/engine/EntityManager.cpp")])

prop("C06", "Collision and trigger events follow start / stay / exit",
 "For each pair of colliders, the reported events always form start, then stay on each following update, then exit once, with one event per pair and update: start only if the pair was not touching at the previous update, stay only if it was, exit exactly when it stops touching. An exit carries no contact points while start and stay carry at least one, every reported collider and body is alive and is the one that touches, a pair with a trigger collider is reported only as a trigger event and a pair without only as a contact event; pairs at rest asleep are silent and resume with stay.",
 ["histories", "fault_sequences"],
 "all histories of motion, teleportation, sleeping, filter/trigger changes and destruction, observed update by update",
 "Tests look at a few hand made frames with two bodies; pairing errors need many pairs, swap-deletes in the pair list, sleep transitions and destruction in between.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp", "src/collision/CollisionCallback.cpp", "src/collision/OverlapCallback.cpp"],
 [("previous/current contact pairs and lost contact pairs", "src/systems/CollisionDetectionSystem.cpp"), ("collidingInPreviousFrame/collidingInCurrentFrame per pair", "include/reactphysics3d/engine/OverlappingPairs.h")],
 observe=["EventListener::onContact", "EventListener::onTrigger"])

prop("C07", "No touching pair is missed and none is invented",
 "At every update, each pair of active, simulated colliders of different bodies (at least one of them dynamic, awake or not both asleep) whose shapes clearly overlap is reported, and no pair whose shapes are clearly apart is ever reported, whatever creations, moves, rotations, resizes and removals led there. Pairs excluded by category/mask bits, by a no-collision joint, by belonging to one body or to two static bodies are never reported, and every reported contact point lies on both shapes with a unit normal pointing from the first body to the second and a depth agreeing with its two points.",
 ["histories", "inputs"],
 "all histories of creation, movement, resizing, filtering and removal for all supported shape kinds",
 "Tests check chosen shape pairs in fresh worlds; a missed pair arises from the incremental broad-phase (fat AABBs, moved lists, tree rotations, pair caches, temporal coherence data) after particular histories.",
 ["src/collision/broadphase/DynamicAABBTree.cpp", "src/systems/BroadPhaseSystem.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp", "src/collision/narrowphase"],
 [("dynamic AABB tree with fat AABBs and a moved-shape set", "src/systems/BroadPhaseSystem.cpp"), ("narrow phase with last-frame info", "src/collision/narrowphase")],
 observe=["EventListener::onContact/onTrigger"])

prop("C08", "Sleeping is sound and reversible",
 "A body falls asleep only if sleeping is enabled for the world and allowed for the body, and only after it stayed below the sleep velocities for the configured time; while asleep it has zero velocity and does not move. Bodies connected by contacts or joints fall asleep together only when all are quiet, and a sleeping body is awake again by the end of the update in which a moving body newly touches it, or immediately when its velocity, pose, type or force is changed, a joint on it is removed, a collider that it touches is destroyed, or the world forbids sleeping; it is also awake when what it touched has left it (it never floats); a resting stack left alone eventually sleeps.",
 ["histories", "fault_sequences", "configurations"],
 "all histories and time-step sequences, with sleep parameters changed at arbitrary points",
 "Needs long simulated time, islands of several bodies and disturbances at arbitrary instants; the tests contain no multi-update sleeping scenario.",
 ["src/systems/DynamicsSystem.cpp", "src/engine/PhysicsWorld.cpp", "src/body/RigidBody.cpp", "include/reactphysics3d/engine/Islands.h"],
 [("island sleep timer", "src/engine/PhysicsWorld.cpp updateSleepingBodies"), ("wake on overlap / on API call", "src/systems/CollisionDetectionSystem.cpp, src/body/RigidBody.cpp setIsSleeping")])

prop("C09", "Only what may move moves",
 "During an update a static body never moves or gains velocity, a kinematic body moves exactly according to the velocity the user gave it and nothing else changes that velocity, an inactive or sleeping body stays put, and a dynamic body gains no velocity along a world axis whose translation is locked or about one whose rotation is locked - under any contacts, joints, forces, gravity and history of type, activation and lock changes.",
 ["histories", "fault_sequences"],
 "all histories mixing type, activation, lock changes, contacts, joints and forces",
 "Tests never simulate type changes or locks under contact; violations need solver feedback into a body whose type or lock was changed in the middle of a history.",
 ["src/systems/DynamicsSystem.cpp", "src/systems/ContactSolverSystem.cpp", "src/systems/Solve*JointSystem.cpp", "src/body/RigidBody.cpp"],
 [("zero inverse mass/inertia for non dynamic bodies", "src/body/RigidBody.cpp setType"), ("lock axis factors", "src/systems/DynamicsSystem.cpp")])

prop("C10", "Unconstrained motion follows the documented integration",
 "A dynamic body without contacts or joints follows semi-implicit Euler with its mass, inertia, damping, gravity switch, lock factors and the forces and torques accumulated since the last update, for every time step, and those accumulators are empty again after each update for every body, awake or not. A force applied at a point (local or world) acts as that force plus its torque about the centre of mass, and n updates behave as the model's n steps in any mixture of step sizes.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of forces, property changes and time steps (including jittered, stalled and catch-up steps)",
 "Tests check accumulators and getters without simulating; drift between model and engine only appears over update histories with off-centre masses, damping, locks and property changes in flight.",
 ["src/systems/DynamicsSystem.cpp", "src/body/RigidBody.cpp", "src/components/RigidBodyComponents.cpp"],
 [("integrateRigidBodiesVelocities / Positions", "src/systems/DynamicsSystem.cpp"), ("reset of external forces", "src/systems/DynamicsSystem.cpp")])

prop("C11", "Interactions conserve momentum and create no energy",
 "Contacts and passive joints between dynamic bodies only exchange momentum: with no external force, damping, axis lock or immovable body the total linear momentum of the system is constant and its angular momentum constant up to solver tolerance, and no collision, resting contact or passive joint raises the kinetic energy of the system beyond solver tolerance. This holds at every update, including with warm starting after contacts are created, kept, lost or their bodies woken, and for any step size sequence.",
 ["histories", "inputs", "fault_sequences"],
 "all isolated systems, their collision histories and time-step sequences",
 "No test runs the solvers at all; sign or warm-start errors need multi-body contact histories to show up as momentum or energy drift.",
 ["src/systems/ContactSolverSystem.cpp", "src/systems/ConstraintSolverSystem.cpp", "src/systems/Solve*JointSystem.cpp"],
 [("equal and opposite impulses; accumulated and clamped impulses; warm starting", "src/systems/ContactSolverSystem.cpp")])

prop("C12", "World queries agree with the world's current contents",
 "At any moment, ray casts (world, body and collider level, with mask and callback return value steering), point tests, overlap tests and collision tests report exactly the colliders an exhaustive test over the current active, queryable colliders and their current transforms would report, up to geometric tolerance, with hit points and normals on the surface, regardless of what was created, moved, resized, put to sleep, filtered or destroyed since the last update or whether an update ever happened.",
 ["histories", "inputs"],
 "all histories preceding a query, all query kinds and all callback decisions",
 "Tests query fresh static fixtures; staleness of the broad-phase tree, of pair caches or of cached transforms is only visible between arbitrary mutations and without an intervening update.",
 ["src/engine/PhysicsWorld.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/systems/BroadPhaseSystem.cpp", "src/collision/Collider.cpp", "src/body/Body.cpp", "src/collision/broadphase/DynamicAABBTree.cpp"],
 [("broad-phase ray cast with hit fraction clipping", "src/collision/broadphase/DynamicAABBTree.cpp raycast"), ("queries run a broad-phase pass over moved shapes", "src/systems/CollisionDetectionSystem.cpp")])

prop("C13", "Joints hold, respect limits and drive their motors",
 "A joint keeps its constrained degrees of freedom together (anchor points coincide, locked rotation and translation axes stay aligned), keeps hinge angles, slider translations and ball-and-socket cone angles inside enabled limits, and drives an enabled unobstructed motor to its target speed without exceeding its maximum force or torque; along a free direction the bodies move exactly as their velocities say; deviations stay bounded and, with either position correction technique, within a bounded number of steps after disturbances (impacts, teleports, limit or motor changes, irregular steps) stop, vanish to tolerance. Destroying a body destroys its joints and only those.",
 ["histories", "fault_sequences", "configurations"],
 "all joint kinds, limit/motor reconfigurations, disturbances and time-step sequences",
 "Tests contain no joint simulation; constraint drift, warm-start or limit-state errors need many updates and disturbances.",
 ["src/systems/Solve*JointSystem.cpp", "src/systems/ConstraintSolverSystem.cpp", "src/constraint", "src/components/*JointComponents.cpp"],
 [("velocity and position constraint solving with warm start", "src/systems/Solve*JointSystem.cpp")])

prop("C14", "Contacts hold bodies apart, settle and obey friction and bounciness",
 "Bodies dropped at moderate speed on an immovable support never end up through it or deeper than a small bound, come to rest in bounded time, and stay resting; a body on a support keeps or loses its tangential speed according to the friction coefficients of the two materials, and a bouncing body rebounds with the speed given by the materials' bounciness and never faster. This holds for every supported shape kind and support kind, for stacks, and after disturbances and irregular time steps stop.",
 ["histories", "inputs", "fault_sequences"],
 "all shape/support kinds, materials, drop poses, disturbances and time-step sequences",
 "Tests never simulate contact response; tunnelling, jitter, energy pumping and wrong material mixing appear only over many updates.",
 ["src/systems/ContactSolverSystem.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/collision/narrowphase", "include/reactphysics3d/engine/Material.h"],
 [("contact solver with split impulses, friction and restitution", "src/systems/ContactSolverSystem.cpp"), ("manifold reduction and persistence", "src/systems/CollisionDetectionSystem.cpp")])

prop("C15", "Meshes and height fields do not depend on the caller's buffers",
 "Convex meshes, triangle meshes and height fields capture the caller's data when they are created, in any supported vertex, normal, index and height data layout (type, stride, start): changing, reusing or freeing the caller's buffers afterwards never changes any geometry, query or simulation result. Two meshes built from the same data presented in different layouts behave identically, and a malformed input is reported through messages with a null result rather than by crashing or leaking.",
 ["histories", "inputs", "fault_sequences"],
 "all data layouts, all points of buffer reuse after creation, all corruptions of index data",
 "Tests keep their buffers alive and intact and use one layout per class.",
 ["src/collision/TriangleMesh.cpp", "src/collision/ConvexMesh.cpp", "src/collision/HeightField.cpp", "src/collision/VertexArray.cpp", "src/collision/TriangleVertexArray.cpp", "src/collision/PolygonVertexArray.cpp", "src/utils/quickhull"],
 [("data copied and validated at creation", "src/collision/TriangleMesh.cpp, src/collision/HeightField.cpp, src/collision/ConvexMesh.cpp")])

prop("C16", "Memory allocators are safe under concurrent use",
 "When several threads allocate and release from the same heap or pool allocator, under any thread schedule, no two live blocks overlap, every block is suitably aligned and keeps its contents until released, every release is matched, there is no data race or deadlock, and destroying the allocator returns everything to its base allocator. The same holds for independently created allocators used from different threads.",
 ["schedules", "histories"],
 "all thread interleavings of allocate/release sequences of all sizes",
 "There is no concurrent allocator test, and a test would observe only the schedules the OS happens to produce.",
 ["src/memory/PoolAllocator.cpp", "src/memory/HeapAllocator.cpp", "src/memory/SingleFrameAllocator.cpp", "include/reactphysics3d/memory/DefaultAllocator.h"],
 [("std::mutex in each allocator", "src/memory/*.cpp"), ("shared size-to-heap lookup table", "src/memory/PoolAllocator.cpp")])

prop("C17", "Logging is loss-free, filtered and survives failing sinks",
 "With any number of threads logging through one logger to any mixture of stream and file destinations, every message whose level is enabled on a destination appears there exactly once, whole, uncorrupted and in each thread's order, and no other message appears; there is no data race or deadlock, and a destination that fails or throws affects only itself or its caller: later messages and the other destinations keep working. Removing destinations or destroying the logger leaves the library usable.",
 ["schedules", "fault_sequences"],
 "all thread interleavings of log calls and all failure points of the destination streams",
 "There is no logger test; interleaving and failing streams cannot be sampled by single threaded calls.",
 ["include/reactphysics3d/utils/DefaultLogger.h", "src/utils/DefaultLogger.cpp", "src/engine/PhysicsCommon.cpp"],
 [("mutex around log()", "src/utils/DefaultLogger.cpp"), ("per destination level filter and formatter", "include/reactphysics3d/utils/DefaultLogger.h")])

prop("C18", "Independent PhysicsCommon instances can run on different threads",
 "Threads that each own their PhysicsCommon (with its worlds, shapes and meshes) and share nothing but the library can create, simulate, query and destroy concurrently under any schedule without data race or deadlock, and every thread obtains bit-identical results to running alone.",
 ["schedules", "histories"],
 "all thread interleavings of independent library users",
 "All tests are single threaded; hidden shared mutable state only shows under particular interleavings.",
 ["src/engine/PhysicsCommon.cpp", "src/memory/PoolAllocator.cpp", "src/memory/MemoryManager.cpp", "src/collision/narrowphase", "src/utils"],
 [("no mutable global state besides the logger pointer and pool size table", "src/engine/PhysicsCommon.cpp, src/memory/PoolAllocator.cpp")])

prop("C19", "The simulation survives irregular time steps and violent input",
 "For any finite, valid API history - time steps from a millisecond to a tenth of a second in any order, high velocities, deep initial overlap, coincident centres, large mass ratios, teleports into other bodies, consistent joints, with the default position correction - every update terminates without crashing or tripping an internal assertion, and every body keeps finite position and velocity and a unit-length orientation.",
 ["fault_sequences", "inputs", "histories"],
 "all time-step fault sequences and all valid, possibly violent, scene states",
 "Tests use regular inputs; divergence, NaN propagation and non-terminating iterations need degenerate configurations reached over time.",
 ["src/systems", "src/collision/narrowphase/GJK", "src/collision/narrowphase/SAT", "src/collision/broadphase", "src/mathematics"],
 [("bounded iterations, epsilon guards and orientation renormalisation", "src/systems/DynamicsSystem.cpp, src/collision/narrowphase/GJK/GJKAlgorithm.cpp")])

prop("C20", "Geometric predicates are exact up to tolerance for all shapes",
 "For every pair of convex shapes in every relative pose, the narrow-phase separation, penetration depth and closest features, and the convex hull computed from any point cloud, agree with exact geometry up to a stated tolerance.",
 ["inputs"], "all shapes and poses (a pure function of its input)",
 "Tests sample a handful of poses per algorithm.",
 ["src/collision/narrowphase", "src/utils/quickhull"],
 [("SAT, GJK, QuickHull", "src/collision/narrowphase, src/utils/quickhull")])

prop("C21", "Math types obey their algebra",
 "Vectors, matrices, quaternions and transforms satisfy their algebraic laws (inverse, composition, slerp end points, rotation/matrix round trips) up to rounding for all finite inputs.",
 ["inputs"], "all finite operands (pure functions)",
 "Tests sample a few operands.",
 ["src/mathematics", "include/reactphysics3d/mathematics"],
 [("closed-form operators", "include/reactphysics3d/mathematics")])

prop("C22", "Unrelated parts of a world do not influence each other",
 "Groups of bodies, colliders and joints of one world that never touch each other, are not joined and are not both addressed by an operation evolve independently: the trajectory, sleeping flags, joint reactions and events of a group are bit-identical whether other groups exist or not, however many there are, in whatever order the groups were created, and whatever is created, destroyed, put to sleep, activated, retyped or reconfigured in the others (as long as the group's own constraints have only one possible solving order, i.e. at most one solved contact pair and one joint of each type).",
 ["histories", "schedules"],
 "all histories of several groups in one world, all interleavings of their operations and all subsets of the groups",
 "Components of all objects share packed arrays that are swapped, moved and grown by operations on any object; a test with a handful of objects never sees an unrelated object's slot, stamp or loop state leak into another.",
 ["src/components", "src/systems", "src/engine/PhysicsWorld.cpp", "src/engine/Islands.h", "src/collision/broadphase/DynamicAABBTree.cpp"],
 [("packed component arrays with a disabled tail", "src/components/Components.cpp"), ("joint solver loops over all joints of a type", "src/systems/SolveSliderJointSystem.cpp"), ("islands solved together in one contact solver", "src/systems/ContactSolverSystem.cpp")])

prop("C23", "The debug renderer shows exactly what is in the world",
 "After every update with debug rendering enabled, the debug renderer holds exactly the primitives of that update: for every collider of every active body whose debug display is on, and for the displayed items only, the edges of its world bounding box, the edges of a broad-phase box that contains these bounds, triangles that form a closed surface on the surface of its shape (or are exactly the triangles of its mesh or height field) and its shape normals; for every contact point reported in the update, a small sphere around it and a line along its normal; each in the colour of its item. Nothing of earlier updates, of inactive or of unmarked bodies is left or drawn, and nothing is missing.",
 ["histories", "inputs"],
 "all histories of bodies, colliders, shapes and contacts with debug items, debug bodies, sphere radii and normal lengths switched at any time",
 "Unit tests do not look at debug primitives at all; stale, missing or misplaced primitives need a history of objects that move, sleep, come and go between updates.",
 ["src/utils/DebugRenderer.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/engine/PhysicsWorld.cpp"],
 [("primitives are reset and rebuilt in every update", "src/engine/PhysicsWorld.cpp"), ("triangulation of shapes", "src/utils/DebugRenderer.cpp"), ("contacts handed to the debug renderer", "src/systems/CollisionDetectionSystem.cpp")])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
