#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, technique=technique, na=na))


I = "include/Simu/"
S = "src/Simu/"

p("P01", "Interval and box overlap is exactly having a common point",
  "Two intervals overlap exactly when they share a value, including when they only touch, and a value is contained exactly when it lies between the bounds. "
  "Two bounding boxes overlap exactly when both are valid and share a point; overlap is symmetric, and an invalid box overlaps and contains nothing. "
  "The tolerant comparison accepts exactly the values within its tolerance.",
  ["inputs"], "every pair of intervals and boxes over finite single-precision bounds, degenerate and invalid ones included",
  "The tests compare a handful of integer boxes; rounding in the test for overlap only fails on particular bit patterns.",
  [I + "math/Interval.hpp", I + "physics/BoundingBox.hpp", S + "physics/BoundingBox.cpp"],
  [("overlaps", I + "math/Interval.hpp"), ("BoundingBox::overlaps", S + "physics/BoundingBox.cpp")])
p("P02", "Combining and scaling bounding boxes",
  "Combining boxes gives the smallest box that contains both; it is commutative and associative and ignores invalid boxes. "
  "The box of a set of points contains each of them, touches one with each side, and is invalid exactly for the empty set. "
  "Scaling keeps the center, multiplies the extent, and orders containment by the ratio.",
  ["inputs"], "all boxes and point sets with finite single-precision coordinates",
  "Tests check a few integer examples; laws such as associativity with invalid boxes concern all triples.",
  [I + "physics/BoundingBox.hpp", S + "physics/BoundingBox.cpp"],
  [("combinedWith, containing constructors, scaled", S + "physics/BoundingBox.cpp")])
p("P03", "Matrix and vector algebra",
  "Matrix and vector operations compute their mathematical definitions element by element: sums, products of any compatible shapes, transposes, rows and columns, dot and cross products, perpendiculars, norms, normalization and projection. "
  "Element-wise comparisons, minimum, maximum and absolute value follow the scalar operation on every value, and the all/any reductions are conjunction and disjunction.",
  ["inputs"], "all entries (reals for the algebra; all IEEE singles for comparisons; all 32-bit integers)",
  "Tests multiply a few constant matrices; index mistakes in one shape or NaN behaviour are not reached.",
  [I + "math/Matrix.hpp", I + "math/Matrix.inl.hpp"],
  [("operators and free functions", I + "math/Matrix.inl.hpp")])
p("P04", "Linear solver and inverse",
  "Solving a linear system with a regular matrix returns a vector that satisfies it, and inverting gives a matrix whose product with the original is the identity. "
  "A matrix is reported as not solvable exactly when it is singular, and inverting a singular matrix is refused.",
  ["inputs"], "all regular 2x2 systems; triangular, family and pivot-requiring 3x3 and 4x4 systems with any right-hand side; singular matrices",
  "Tests solve two constant systems; row exchanges and zero pivots depend on the sign pattern and magnitudes.",
  [I + "math/Matrix.hpp", I + "math/Matrix.inl.hpp"],
  [("Solver (QR by Givens rotations), solve, invert", I + "math/Matrix.inl.hpp")])
p("P05", "Complementarity problem and iterative solver",
  "For a matrix with positive principal minors the linear complementarity solver returns non-negative unknowns and non-negative residuals that are complementary. "
  "The projected iterative solver respects its bounds and stops only once the last correction is below its threshold.",
  ["inputs"], "all 2x2 P-matrices and right-hand sides; diagonally dominant systems with any right-hand side and initial guess",
  "Only four active-set cases exist and tests exercise single points of them.",
  [I + "math/Matrix.hpp", I + "math/Matrix.inl.hpp"],
  [("solveLcp, solveInequalities", I + "math/Matrix.inl.hpp")])
p("P06", "Closest point on a segment and on a triangle",
  "The reported closest point of a segment or triangle to a query point belongs to it, and no point of the segment or triangle is nearer to the query point, degenerate segments and triangles included. "
  "Barycentric coordinates sum to one and reproduce the query point; those of an edge reproduce its projection.",
  ["inputs"], "all segments; all axis-aligned-edge triangles, representative oblique and all flat triangles against every query point",
  "Tests try one triangle and a few points: the seven Voronoi regions have boundaries no example meets.",
  [I + "math/BarycentricCoordinates.hpp", S + "math/BarycentricCoordinates.cpp"],
  [("LineBarycentric, TriangleBarycentric", S + "math/BarycentricCoordinates.cpp")])
p("P07", "Area, centroid and second moment of polygons",
  "Area, centroid and moment of area equal the integrals over the polygon: area is the signed sum over triangles, the centroid is the area-weighted mean and the moment is the second moment about the centroid. "
  "They are invariant under choice of first vertex and translation and scale with the second, first and fourth power; degenerate geometry is reported exactly when the area is null.",
  ["inputs"], "all triangles and quadrilaterals (also concave and crossing) and fans of up to six vertices with real coordinates",
  "Tests evaluate a square and one triangle near the origin.",
  [I + "math/Geometry.hpp", I + "math/Geometry.inl.hpp", S + "math/Geometry.cpp"],
  [("GeometricProperties", I + "math/Geometry.inl.hpp")])
p("P08", "Polygons are stored positively oriented with the given vertices",
  "A polygon built from vertices in either orientation stores exactly these vertices counterclockwise; vertices already positively oriented keep their order, and the properties it reports are those of its vertices. "
  "Fewer than three vertices are refused, and a box is a centered rectangle with the given dimensions.",
  ["inputs"], "all triangles, quadrilaterals and pentagons on an exact coordinate lattice; vertex counts 0 to 5",
  "Tests build three polygons; orientation is decided by a sum whose sign depends on every coordinate.",
  [I + "math/Polygon.hpp", I + "math/Polygon.inl.hpp", S + "math/Geometry.cpp"],
  [("Polygon constructor", I + "math/Polygon.inl.hpp")])
p("P09", "Support points, edge iteration and edge clipping",
  "The furthest vertex in a direction is a vertex of the geometry that no other vertex exceeds in that direction; a null direction is refused. "
  "Iterating edges visits each consecutive pair of vertices once, in order and cyclically, with inverse next and previous steps. "
  "An edge's normal, side tests, distance and clipping against another edge agree with their geometric definition.",
  ["inputs"], "all vertex positions for geometries of up to 6 vertices, all edges and query points",
  "Tests iterate one polygon; ties, the wrap-around edge and parallel clipping are not covered.",
  [I + "math/Edges.hpp", I + "math/Geometry.hpp", I + "math/Geometry.inl.hpp"],
  [("furthestVertexInDirection", I + "math/Geometry.inl.hpp"), ("Edges, Edges::Edge", I + "math/Edges.hpp")])
p("P10", "Collision verdict of convex shapes",
  "The collision test of two convex geometries reports them as colliding when their interiors meet and as separate when they are disjoint, whatever the shapes, their relative position and the initial search direction. "
  "The verdict does not depend on the order of the geometries.",
  ["inputs"], "a family of convex shapes at every relative lattice translation and start direction, free vertices in some",
  "Tests try a few placements; the simplex search has cycles and degenerate directions that only specific offsets reach.",
  [I + "math/Gjk.hpp", I + "math/Gjk.inl.hpp", S + "math/Gjk.cpp"],
  [("Gjk, Simplex", I + "math/Gjk.inl.hpp")])
p("P11", "Separation and penetration are the minimal translation",
  "The reported separation of disjoint convex polygons is a translation that makes them touch and no shorter translation does. "
  "The reported penetration of overlapping ones is a translation that separates them to touching and no shorter one does; the opposite order gives the opposite vector.",
  ["inputs"], "a family of convex shapes with real offsets along lines that sweep over every relative configuration",
  "Tests use few constant placements; the nearest feature changes with the offset and searches can stop one step too early.",
  [I + "math/Gjk.hpp", I + "math/Gjk.inl.hpp", S + "math/Gjk.cpp", I + "math/BarycentricCoordinates.hpp"],
  [("getSeparation, getPenetration, Polytope", I + "math/Gjk.inl.hpp")])
p("P12", "Rigid transforms",
  "A transform rotates by its angle and then translates; rotation preserves lengths, dot products and orientation. "
  "Composing transforms equals applying them in turn, inverting undoes them, and directions ignore the translation.",
  ["inputs"], "all angles, offsets and points with real coordinates",
  "Tests compare a few angles with a tolerance.",
  [I + "physics/Transform.hpp", I + "math/Matrix.hpp", I + "math/Matrix.inl.hpp"],
  [("Transform", I + "physics/Transform.hpp")])
p("P13", "R-tree contents and region queries",
  "After any history of insertions, erasures, updates and moves, the tree contains exactly the values that were inserted and not erased, each reachable once by iteration. "
  "A region query visits exactly the values whose box overlaps the region; iterators to other values stay valid, and the tree's bounds are those of its values.",
  ["inputs", "histories"], "every short history of operations with box extents that are arbitrary on one axis",
  "Tests insert fixed boxes; splits, merges and sibling updates depend on the relative order of all extents.",
  [I + "physics/RTree.hpp", I + "physics/RTree.inl.hpp"],
  [("RTree insert/erase/update/forEachIn", I + "physics/RTree.inl.hpp")],
  [("root_", "binary tree whose boxes contain their children", I + "physics/RTree.hpp")])
p("P14", "Updating the tree reports every overlapping pair once",
  "Updating all boxes and collecting collisions reports exactly the unordered pairs of values whose updated boxes overlap, each exactly once and never a value with itself. "
  "Afterwards the tree holds the updated boxes, so later queries and updates agree with them.",
  ["inputs", "histories"], "trees of up to 20 values with updated boxes that are arbitrary on one axis, over two successive updates",
  "Tests count pairs for one arrangement; a pair lost in a re-insertion depends on the tree's shape.",
  [I + "physics/RTree.hpp", I + "physics/RTree.inl.hpp"],
  [("updateAndCollide", I + "physics/RTree.inl.hpp")])
p("P15", "Mass properties of solids and of their combination",
  "Mass, center and inertia of a geometry are its integrals with the given density. "
  "Combining mass properties adds masses, averages centers by mass and adds inertias about the common center: the result equals that of the undivided body, independently of order. "
  "Non-positive density, mass or inertia and geometry without surface are refused.",
  ["inputs"], "all triangles and quadrilaterals, densities and combinations with real values",
  "Tests add one pair of boxes; the parallel-axis term only shows with distinct centers.",
  [I + "physics/Mass.hpp", I + "physics/Body.hpp", S + "physics/Body.cpp", I + "math/Geometry.inl.hpp"],
  [("MassProperties, Mass", I + "physics/Body.hpp")])
p("P19", "Combining material properties",
  "Combining two properties applies the mode of higher priority (average, minimum, multiply, maximum in increasing priority) to both values and keeps that mode. "
  "The result does not depend on the order of the operands.",
  ["inputs"], "all pairs of IEEE values and all pairs of modes",
  "Tests check one pair per mode.",
  [I + "physics/CombinableProperty.hpp", I + "physics/Material.hpp"],
  [("CombinableProperty", I + "physics/CombinableProperty.hpp")])
p("P31", "Camera mapping between the view and the scene",
  "The camera's transform maps the viewed rectangle, whose size is the view dimensions divided by the zoom and which is centered on the camera, onto [-1, 1] x [-1, 1], and the inverse transform undoes it for every camera. "
  "Panning moves the center by the offset, zooming in and out scales the zoom by 5/4 and 4/5, and the view dimensions for a screen are its pixels times the pixel size. "
  "A zoom or view dimension that is not positive is ignored.",
  ["inputs"], "all camera centers, zooms, view sizes and points with real values",
  "There are no tests of the camera; mapping mistakes only show for asymmetric configurations.",
  [I + "app/Camera.hpp", S + "app/Camera.cpp"],
  [("Camera::transform, invTransform", S + "app/Camera.cpp")])
p("P16", "Impulses and free motion of a body",
  "An impulse changes the momentum by itself and the angular momentum by its moment about the center of mass, a force does so in proportion to the time, and neither moves the body; setting one velocity leaves the other alone. "
  "In a step a free body advances by velocity times time and turns by angular velocity times time around its center of mass, keeping its velocities. "
  "Nothing moves in a step whose duration is not positive.",
  ["inputs", "histories"], "all placements, velocities, impulses, points of application, densities and time steps (real), over up to two steps",
  "Tests apply unit impulses to a body at the origin; wrong moment arms only show off center.",
  [I + "physics/Body.hpp", S + "physics/Body.cpp", S + "physics/World.cpp", I + "physics/Island.hpp"],
  [("applyImpulse, Position::advance", I + "physics/Body.hpp"), ("World::step", S + "physics/World.cpp")])
p("P17", "Force fields act on exactly the colliders in their domain",
  "In every step of positive duration, a global force field is applied once to every collider of a body that is not structural, and a region force field exactly to those whose bounding box overlaps the region, with the time step given. "
  "Gravity gives every body the same acceleration and no spin, whatever its mass, colliders and orientation; a linear field gives every body its force; fields add up. "
  "Structural bodies are not affected by any field, and a killed field does not act any more.",
  ["inputs", "histories"], "all accelerations, forces, velocities, regions and body positions (real); worlds of up to four bodies and two fields",
  "Tests use one field and one body; compound bodies and regions that only touch a box are not sampled.",
  [I + "physics/ForceField.hpp", S + "physics/World.cpp"],
  [("World::applyForces", S + "physics/World.cpp"), ("Gravity, LinearField", I + "physics/ForceField.hpp")])
p("P18", "Colliders of a body: geometry, mass and queries",
  "A collider's world-space vertices are its local vertices transformed by the body's position and orientation, and its bounding box contains them tightly, after steps as well. "
  "Adding and removing colliders keeps mass, center and inertia those of the present colliders, moves no other collider and keeps the velocity of the matter at the center of mass. "
  "Region and point queries of the world find each body once for each of its present colliders there and nothing else.",
  ["inputs", "histories"], "all positions, orientations, velocities, densities and query regions (real); every order of up to four additions and removals of four shapes",
  "Tests add one collider to a body that is not rotated.",
  [I + "physics/Collider.hpp", I + "physics/Body.hpp", S + "physics/Body.cpp", S + "physics/World.cpp"],
  [("Collider::update, Colliders", I + "physics/Collider.hpp"), ("Body::addCollider, removeCollider", S + "physics/Body.cpp")])
p("P21", "Equality constraints: hinge, rotation, weld",
  "After solving, the two points of a hinge have the same velocity, bodies of a rotation constraint the same angular velocity and welded bodies move as one, while total momentum and angular momentum are kept and structural bodies are not affected. "
  "Position correction restores points and angles that drifted without moving structural bodies, and a warm start repeats the last impulse without changing the solution. "
  "Dominance weighs the masses that the bodies of a constraint have at the time, also after colliders were added or removed.",
  ["inputs", "histories"], "all velocities, points and drifts (real) for pairs of bodies of different mass, dominance and orientation",
  "Tests check a few symmetric configurations after many steps with a tolerance that hides wrong moment arms and masses.",
  [I + "physics/ConstraintFunction.hpp", I + "physics/ConstraintSolver.hpp", I + "physics/Constraint.inl.hpp", I + "physics/ConstraintInterfaces.hpp"],
  [("EqualitySolver", I + "physics/ConstraintSolver.hpp"), ("HingeConstraintFunction, RotationConstraintFunction", I + "physics/ConstraintFunction.hpp")])
p("P22", "Constraints with limits act only at their limits",
  "A constraint with limits is active exactly when a limit is reached; it stops motion further past that limit, leaves motion back inside alone, and with two equal limits acts as an equality. "
  "Position correction moves bodies back to the violated limit and nothing within the limits. "
  "Limits in the wrong order, and distances that are not positive, are refused; either limit may be absent.",
  ["inputs"], "all velocities, offsets and optional limits (real) for rotations and distances between bodies of different mass, dominance and orientation",
  "Tests use one or two limits; boundaries, absent limits and the other limit of a pair are not sampled.",
  [I + "physics/DistanceConstraint.hpp", I + "physics/ConstraintSolver.hpp", I + "physics/ConstraintFunction.hpp"],
  [("LimitsSolver, InequalitySolver", I + "physics/ConstraintSolver.hpp"), ("DistanceConstraint", I + "physics/DistanceConstraint.hpp")])
p("P23", "Motors and the mouse constraint",
  "A motor accelerates a body toward its velocity in its direction with at most its force or torque scaled by the throttle, never past that velocity, acts on the driven velocity only and does not move the body itself; the throttle is clamped to 0..1 and the direction normalized. "
  "Specifications by acceleration or time reach what they say for the body's mass. "
  "A soft constraint and the mouse balance damping and stiffness against the motion of the grabbed point.",
  ["inputs", "histories"], "all velocities, maximal velocities, forces and throttles (real), twelve directions, up to three successive solutions with changing throttle",
  "Tests drive from rest with a full throttle; braking, reversed or changed throttles with warm start are not sampled.",
  [I + "physics/Motors.hpp", I + "physics/ConstraintSolver.hpp", I + "app/MouseConstraint.hpp"],
  [("RotationMotor, TranslationMotor", I + "physics/Motors.hpp"), ("MotorSolver, SoftSolver", I + "physics/ConstraintSolver.hpp")])
p("P24", "Contacts push, bounce and rub within their bounds",
  "After solving a contact its bodies do not approach at any contact point, impulses only push, are zero for bodies that separate, and keep momentum and angular momentum; structural bodies are not affected. "
  "A fast impact bounces with the combined coefficient of restitution and gains no energy; friction opposes sliding, stops it at most, and stays within its coefficient times the normal impulse. "
  "Position correction takes back only a part of the overlap beyond the allowed one.",
  ["inputs", "histories"], "all velocities and warm starts (real) for six ways two bodies touch in one or two points",
  "Tests drop boxes and check where they end; pairs of contact points with one separating, and warm starts, are not sampled.",
  [I + "physics/Constraint.hpp", I + "physics/ConstraintSolver.hpp"],
  [("ContactConstraint", I + "physics/Constraint.hpp"), ("solveLcp", I + "math/Geometry.hpp")])
p("P25", "Contact points and normals of overlapping colliders",
  "Two colliders get contact points exactly if they overlap by more than the tolerance of their materials; the normal is a unit vector out of the second collider in the direction of least overlap. "
  "Contact points lie on the boundaries of their own colliders, overlap by at most the depth, and for boxes include the deepest point and lie apart along the normal. "
  "Updating a contact after its bodies moved gives the contact of the new places.",
  ["inputs", "histories"], "all positions along lines (real) for pairs out of six convex shapes in two orientations, before and after motion",
  "Tests check a few boxes placed along an axis; clipping mistakes need slanted edges, overlaps past a corner or deep overlaps.",
  [I + "physics/ContactManifold.hpp", I + "math/Edges.hpp", I + "math/Gjk.hpp"],
  [("ContactManifold::update, computeContacts", I + "physics/ContactManifold.hpp"), ("Edge::clipInside", I + "math/Edges.hpp")])
p("P26", "Every step solves each island completely and separately",
  "In every step of positive duration each active constraint is prepared once, warm started once if enabled, then solved as many times as the settings tell, in this order, with the current positions and velocities of its bodies; inactive ones are not solved. "
  "The velocity of each body changes by exactly the impulses of its constraints and each body moves exactly once, by its new velocity and the corrections; structural bodies keep their velocity. "
  "Bodies that are not connected through bodies that can move do not affect each other.",
  ["inputs", "histories"], "all subsets of active constraints of a graph over four bodies with structural ones at rest or moving, all impulses and velocities (real)",
  "Tests have one constraint; bodies shared between islands and constraints that change their activity are not sampled.",
  [I + "physics/Island.hpp", I + "physics/Bodies.hpp", S + "physics/World.cpp"],
  [("Island::init, solveIslands", I + "physics/Island.hpp"), ("Body::interactsAsStructural", S + "physics/Body.cpp")])
p("P27", "Dominance: structural bodies are never moved by others",
  "A structural body (dominance 0), with or without colliders, keeps its velocity through every contact, constraint and force field and moves by it only, while bodies held by it or running into it follow. "
  "Otherwise dominance divides the mass in constraints, per body or as given for one constraint, and with equal dominance a step without fields keeps the total momentum and the center of mass moves by it. "
  "A constraint is refused exactly if neither of its bodies can move.",
  ["inputs", "histories"], "all velocities and gravities (real) for every pair of five dominances, in contact or at a distance, over up to three steps",
  "Tests use dominances 0 and 1 only and look at where bodies come to rest.",
  [I + "physics/Bodies.hpp", I + "physics/Bodies.inl.hpp", I + "physics/ConstraintInterfaces.hpp", S + "physics/World.cpp"],
  [("Bodies::Bodies, isBodyStructural", I + "physics/Bodies.inl.hpp"), ("World::applyForces", S + "physics/World.cpp")])
p("P29", "The contacts of a world follow the overlaps of its colliders",
  "After every step there is exactly one live contact for each pair of colliders whose bounding boxes overlap and which belong to different bodies that are not both structural and have no constraint that disables contacts between them, and no other. "
  "Both bodies of a contact list it, and bodies list no contact that was removed, also after constraints, velocities or the contact factory change. "
  "Contacts are made by the factory of the world, each once.",
  ["inputs", "histories"], "all positions and displacements of a body (real) among up to three bodies with up to four colliders, two or three steps, constraints made and killed in between",
  "Tests look at one pair; contacts that end, or a factory changed while contacts exist, are not sampled.",
  [S + "physics/World.cpp", I + "physics/World.hpp"],
  [("World::updateBodies, cleanup", S + "physics/World.cpp"), ("World::setContactFactory", I + "physics/World.hpp")])
p("P28", "Objects of a world live and are removed exactly as asked",
  "Bodies, constraints and force fields that are killed or that ask to die (shouldDie) are removed from the world by the next step along with the constraints of removed bodies, and nothing else ever is; every object is told once of its construction, its kill and its removal and, while it lives, of the start and end of every step, all removed objects (contacts too) being told before any is released, and each being released exactly once. "
  "Bodies list living constraints and contacts only, and nothing released is used again, whatever the order of kills, removed and added colliders, steps and clears. "
  "A cleared world is empty and usable.",
  ["histories"], "every history of up to three (quick) or five (thorough) operations among kills, breaking constraints (strain and threshold real), removed and added colliders, new bodies and steps, on a world of linked, touching bodies",
  "Tests kill one object at a time; callbacks that kill others, dangling lists and use after release show only in particular histories.",
  [S + "physics/World.cpp", I + "physics/World.hpp", I + "physics/PhysicsObject.hpp", S + "physics/Body.cpp"],
  [("World::cleanup, Cleaner", S + "physics/World.cpp"), ("PhysicsObject::kill", I + "physics/PhysicsObject.hpp"), ("~Body", S + "physics/Body.cpp")])
p("P30", "Sleeping: only bodies at rest sleep, and what concerns them wakes them",
  "No body sleeps while sleeping is disabled; when it is enabled a body sleeps once its speed and its spin, either way round, were below the thresholds at the end of every step for the delay, and no body that moves or spins sleeps. "
  "A body is awake after its velocity is set, after an impulse, a new constraint, contact, force field that covers it or command of its motor, and after sleeping is disabled; other bodies sleep on. "
  "Force fields act on bodies that are awake only, constraints on all.",
  ["inputs", "histories"], "all velocities, thresholds, delays, fields, regions (real), spins of either sign, up to five steps with sleeping enabled and disabled in between",
  "No test enables sleeping; the wrong sign of a spin, or a timer that is not reset, shows only in specific histories.",
  [I + "physics/Body.hpp", S + "physics/World.cpp", I + "physics/World.hpp", I + "physics/Island.hpp"],
  [("Body::updateTimeImmobile, isImmobile", I + "physics/Body.hpp"), ("World::updateBodies, applyForces", S + "physics/World.cpp"), ("World::updateSettings, makeForceField", I + "physics/World.hpp")])
p("P33", "Scenes run by the frame, the keys and the menus",
  "A frame moves the world of the running scene by its duration, at most 1/60 s, times the play speed, and by nothing when the scene is paused; the scene is told the same time once before and once after, and no other scene moves. "
  "The keys and buttons pause and resume, double and halve the speed, step by one frame, make the scene anew and close the application, on press only (the step also on repeat); input captured by menus does not reach the scene. "
  "Scrolling up zooms in, down zooms out by the same, arrows move the view at 500 pixels a second, and the view and the picture follow the size of the window.",
  ["inputs", "histories"], "all velocities, durations, speeds, zooms and pixel sizes (real), every history of up to four keys with their actions, four turns of choosing scenes, three clicks",
  "The application layer has no tests at all.",
  [S + "app/Scene.cpp", I + "app/Scene.hpp", S + "app/Application.cpp"],
  [("Scene::step", I + "app/Scene.hpp"), ("Scene::onKeypress, onMouseScroll, moveCamera", S + "app/Scene.cpp"), ("Application::run, doGui, changeScene", S + "app/Application.cpp")])
p("P34", "The mouse and the tools act on what is under the mouse",
  "The mouse position given to a scene is the point that the camera shows at the mouse, for every window and camera; input goes to the tool in use and reaches the scene only when the tool does not use it. "
  "The grabber holds the movable body under the mouse from the press of the left button to its release, the hold follows the mouse, and ends with the body or the scene; nothing removed is used again. "
  "The box spawner makes one box where the mouse is, with the size and the material chosen.",
  ["inputs", "histories"], "all positions, cameras and sizes (real); every history of three (quick) or five (thorough) presses, releases, moves, resets, kills and steps",
  "The application layer has no tests at all; the use of a removed hold needs a reset or a removal between press and release.",
  [S + "app/Tool.cpp", I + "app/Tool.hpp", S + "app/Application.cpp", S + "app/Scene.cpp"],
  [("Grabber, BoxSpawner", S + "app/Tool.cpp"), ("windowToScene", S + "app/Application.cpp"), ("Scene::mousePress", S + "app/Scene.cpp")])
p("P35", "Everything drawn reaches OpenGL once, in order, shape and color",
  "Every polygon is given to OpenGL exactly once, as the triangles between its center and each of its edges, in its color, in the order drawn, with valid buffers and the camera transform, whatever the number of polygons and flushes. "
  "Lines are rectangles between their ends with the line width, points regular polygons with the radius and precision set, triangles positively oriented, contours at their width around the polygon. "
  "Invalid lines and precisions are refused.",
  ["inputs"], "all coordinates, widths and radii (real), three to five vertices, up to hundreds of polygons across flushes, precisions up to 300",
  "The application layer has no tests at all.",
  [S + "app/Renderer.cpp", I + "app/Renderer.hpp"],
  [("OpenGlRenderer::drawPolygon, flush", S + "app/Renderer.cpp"), ("Renderer::drawLine, drawPoint, drawContouredPolygon", S + "app/Renderer.cpp")])
p("P20", "Pools give memory that is aligned, disjoint, kept, and given back",
  "The memory a pool gives is aligned for its type, lies within its block, overlaps no other memory in use and keeps what is written to it until it is released; an allocation fails only when no gap of the block fits it or its size in bytes cannot be represented. "
  "Released memory can be used again as a whole, copies of an allocator share one pool whichever type they allocate, and containers that use one keep their elements through copies, moves, swaps and the replacement of their allocator. "
  "Unique owners made from an allocator destroy each object once, where it was made, also through any of its bases and after the allocator is gone, and give all memory back, also when a constructor fails.",
  ["histories", "inputs"], "all histories of three to five allocations and releases within a block or pool; all object counts; all values held",
  "The existing tests allocate a few fixed sequences; the free list depends on the order of every release and on alignment gaps.",
  [I + "utility/Memory.hpp"],
  [("Block::allocate / deallocate", I + "utility/Memory.hpp"), ("FreeListAllocator", I + "utility/Memory.hpp"), ("makeUnique, replaceAllocator", I + "utility/Memory.hpp")])
#NEXT


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps(dict(
                id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                             **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in q["state"]]} if q["state"] else {})))) + "\n")
            assert len(q["title"]) <= 80, q["id"]
    checks, na = [], []
    for q in P:
        if q["na"]:
            na.append(dict(property=q["id"], reason=q["na"]))
            continue
        head = open(V + "/harness/%s.cpp" % q["id"]).read().splitlines()
        note = " ".join(l[4:] for l in head if l.startswith("//! "))
        checks.append(dict(
            property=q["id"], quick_cmd="python3 /verif/check.py %s --tier quick" % q["id"],
            thorough_cmd="python3 /verif/check.py %s --tier thorough" % q["id"],
            technique="symbolic execution of the compiled code (LLVM IR), path-by-path, with Z3 (" + (q["technique"] or "real arithmetic") + ")",
            level="model_checking", level_note=note, evidence_file="evidence/%s.json" % q["id"]))
    m = dict(version=1, setup_cmd="bash /verif/engine/build.sh /verif/build", checks=checks, not_applicable=na,
             notes="Every check recompiles /repo's sources to LLVM IR, instruments them and explores the harness in /verif/harness. See DESIGN.md.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")


main()
