T_OWN = 'ownership analysis over the type-checked program (strong-reference type graph, SCCs)'
T_VN = 'gated value-numbering dataflow over MIR'

prop('C04', 'Strong ownership is acyclic: dropping the world frees everything it owns',
     'No set of objects created by the library can keep itself alive through owning references: bodies, fixtures, contacts, joints and proxies refer back to their owners only weakly, '
     'and the only owning chains between objects of the same kind are the list links (and a gear joint owning the two joints it couples). '
     'Consequently dropping the last handle to a world releases every body, fixture, contact and joint that the caller does not hold.',
     ['histories', 'programs'], 'every sequence of creations/destructions, every user program that holds or drops handles',
     'Leaks are invisible to assertions on simulation state; tests never drop worlds and count survivors, and cannot enumerate all object graphs.',
     ['src/b2_world.rs', 'src/b2_body.rs', 'src/b2_fixture.rs', 'src/b2_contact.rs', 'src/b2_joint.rs', 'src/b2_contact_manager.rs'],
     [('Weak back references', 'm_world, m_body, proxy.fixture, edge.other/contact/joint, m_prev'), ('strong forward links', 'list heads and m_next')],
     technique=T_OWN, note='type-level over-approximation of the ownership graph; cycles through user supplied callback objects are outside the library')

prop('C10', 'The library contains no unsafe code',
     'No part of the library, with or without the serialization feature, uses unsafe code or mutable static variables, so no sequence of safe API calls can cause undefined behaviour originating in this crate.',
     ['programs', 'configurations'], 'all feature configurations and all safe user programs',
     'Undefined behaviour may stay silent in any test run.',
     ['src/lib.rs'], [('safe Rust only', 'whole crate')],
     technique='lint over HIR unsafe blocks/items and MIR raw-pointer dereferences', note='dependencies and the standard library are trusted')

prop('C13', 'Forces, impulses, velocities and sleep requests act exactly as documented',
     'Applying a force, torque or impulse affects only dynamic bodies that are awake or are woken by the call, adds exactly the given force and its moment about the centre of mass (impulses scaled by inverse mass and inertia), and changes nothing else. '
     'Setting a nonzero velocity wakes a non-static body and static bodies never take a velocity; putting a body to sleep clears its velocities, forces and sleep timer, waking resets the timer, and disallowing sleep wakes it. '
     'Every motion query returns the stored state or its exact transform between local and world frame.',
     ['inputs', 'histories'], 'every body type, awake/sleep flag combination, wake argument and real-valued operand',
     'The behaviour is a decision table over type, flags and arguments multiplied by continuous operands; tests sample a handful of cells on dynamic bodies only.',
     ['src/b2_body.rs', 'src/private/dynamics/b2_body.rs'],
     [('guards on body type and awake flag', 'apply_force, apply_linear_impulse, set_linear_velocity'), ('sleep transition', 'set_awake, set_sleeping_allowed')],
     state=[('m_flags', 'awake/auto-sleep/bullet/fixed rotation/enabled bits'), ('m_force, m_torque', 'accumulators')],
     observe='public getters of the body',
     technique=T_VN + ': complete effect summary of each method compared with a specification, including the frame condition',
     note='real arithmetic instead of floating point; one rigid body object, no concurrent borrow')

prop('C12', 'Mass, inertia and centre of mass follow from type, fixtures and flags',
     'A dynamic body\'s mass, centre of mass and rotational inertia are exactly the density-weighted sums over its current fixtures (inertia taken about the centre of mass), its inverses match, static and kinematic bodies have zero mass, inertia and inverses, and a fixed-rotation body has zero rotational inertia. '
     'Explicit mass data is honoured only for dynamic bodies (non-positive mass counts as one), and whenever the centre of mass moves the body\'s centre velocity changes by exactly its angular velocity crossed with that displacement. '
     'No other body state changes.',
     ['inputs', 'histories'], 'every fixture list, density, body type and fixed-rotation flag, and every explicit mass data value',
     'The result is an unbounded sum over fixtures combined with type and flag cases; tests fix one or two fixtures on a dynamic body at rest.',
     ['src/b2_body.rs', 'src/private/dynamics/b2_body.rs', 'src/b2_fixture.rs'],
     [('mass accumulation over the fixture list', 'reset_mass_data'), ('explicit override', 'set_mass_data'), ('rotation lock', 'set_fixed_rotation')],
     state=[('m_mass, m_inv_mass, m_i, m_inv_i', 'mass model'), ('m_sweep.local_center', 'centre of mass')],
     technique=T_VN + ' with loop summaries: accumulators identified by their per-iteration increment, exit state compared with a specification',
     note='shape mass formulas are a separate property; real arithmetic')

# ---------------------------------------------------------------- joints

prop('C24', 'Joint definitions and creation carry every parameter faithfully',
     'Every kind of joint definition starts from its documented defaults, its initialiser derives the local anchors, axes, reference angles and lengths exactly from the two bodies\' current poses, and the spring helpers convert a frequency and damping ratio to stiffness and damping of the reduced mass or inertia. '
     'A joint created from a definition is of the matching kind, carries every parameter of the definition (sanitised as documented), refers to the given bodies and starts with zero accumulated impulse. '
     'Impossible definitions (a joint from a body to itself, invalid ranges or ratios) are rejected.',
     ['inputs', 'configurations'], 'all ten joint kinds, every field value, every pair of body poses and masses',
     'Each of about 150 fields is its own data path; tests construct a couple of joints at identity poses where wrong frames or swapped fields give equal numbers.',
     ['src/b2_joint.rs', 'src/private/dynamics/b2_joint.rs', 'src/joints/'],
     [('definition defaults and initialize', 'B2*JointDef'), ('constructors', 'B2*Joint::new'), ('dispatch', 'B2joint::create')],
     technique=T_VN + ': returned value and effects of every definition/constructor compared field by field with a specification',
     note='real arithmetic; joint registration in the world is a separate property')

prop('C25', 'Changing a joint parameter has exactly the documented effect',
     'Setting a motor, limit, spring, target, offset, length or ratio parameter of a joint stores exactly that value (clamped or ordered where documented), and leaves every other parameter alone. '
     'Where the change can influence a sleeping body both attached bodies are woken, and changed limits discard the accumulated limit impulse; setting a value that is already in force does not wake anything where the interface promises that. '
     'Invalid arguments are rejected, and shifting the world origin moves exactly the world-space points a joint stores.',
     ['inputs', 'histories'], 'every setter of every joint kind, all argument values, sleeping and awake bodies',
     'The effect of a forgotten wake-up or impulse reset shows only when bodies happen to sleep or when the limit was active before; tests seldom change parameters at all.',
     ['src/joints/', 'src/private/dynamics/joints/'],
     [('setters', 'enable_limit, set_limits, enable_motor, set_motor_speed, set_max_*, set_target, set_linear_offset, set_length')],
     technique=T_VN + ': complete effect summary of each setter compared with a specification, including the frame condition',
     note='real arithmetic')

prop('C31', 'Joint readings report the true anchors, coordinates, speeds and reactions',
     'The anchors, joint translation, angle and speed a joint reports are exactly the documented functions of the two bodies\' current poses and velocities, in the documented frame and sign. '
     'The reported reaction force and torque are exactly the last accumulated impulses on the second body, expressed in world axes and scaled by the inverse time step. '
     'Every accessor returns the parameter it is named after and no reading changes any state or panics.',
     ['inputs', 'histories'], 'all ten joint kinds, every body pose/velocity and impulse state',
     'Frame or sign mistakes vanish at identity poses and in symmetric scenes; the one reaction test covers a single static configuration.',
     ['src/joints/', 'src/b2_joint.rs'],
     [('readings', 'get_anchor_*, get_reaction_*, get_joint_translation/angle/speed')],
     technique=T_VN + ': symbolic return value compared with a specification, no effects allowed', note='real arithmetic')

def joint(pid, kind, extra, where):
    prop(pid, '%s joint: every solver stage applies exactly the constraint' % kind.capitalize(),
         'For the %s joint, the setup stage derives effective masses, softness, bias and cached geometry exactly from the bodies\' poses, masses and the time step, and warm starting re-applies exactly the (time-step scaled) stored impulses or clears them. '
         'Each velocity iteration applies exactly the impulse that %s, %s its true moment arms, and accumulates just that impulse. '
         '%s' % (kind, extra[0], 'on that body with' if kind == 'mouse' else 'equal and opposite on the two sides with', extra[1]),
         ['inputs', 'histories'], 'all poses, masses (including infinite), velocities, limit/motor/spring settings, accumulated impulses and time steps',
         'The result is a piecewise algebraic function of some thirty reals and several switches; tests observe only settled end states within tolerances, which wrong effective masses, signs or arms still reach.',
         ['src/joints/b2_%s_joint.rs' % where, 'src/private/dynamics/joints/b2_%s_joint.rs' % where],
         [('solver stages', 'init_velocity_constraints, solve_velocity_constraints, solve_position_constraints')],
         state=[('accumulated impulses', 'joint fields'), ('solver arrays', 'positions and velocities indexed by island index')],
         technique=T_VN + ': piecewise polynomial summary of each stage compared with the constraint equations',
         note='real arithmetic instead of floating point; the attached bodies are distinct')

POSN = 'The position stage moves the bodies by exactly the constraint correction, bounded per step as documented, reports convergence exactly when the remaining error is within tolerance, and no stage touches any other state.'
NOPOS = 'The position stage moves nothing and always reports convergence, and no stage touches any other state.'
joint('C40', 'revolute', ('removes the relative velocity of the anchor points and of the enabled motor and angle limits, clamped to the motor torque and one-sided at limits', POSN), 'revolute')
joint('C41', 'prismatic', ('removes relative motion perpendicular to the axis and relative rotation, drives the motor within its force bound, pushes one-sidedly at translation limits and applies the axis spring', POSN), 'prismatic')
joint('C42', 'distance', ('enforces rigid length, or spring plus one-sided minimum and maximum length, along the line between the anchors', POSN), 'distance')
joint('C43', 'weld', ('removes relative velocity and rotation of the anchors, with the angular spring when stiffness is set', POSN), 'weld')
joint('C44', 'wheel', ('removes motion perpendicular to the suspension axis, applies the suspension spring and one-sided translation limits, and drives the wheel motor within its torque bound', POSN), 'wheel')
joint('C45', 'pulley', ('keeps the first length plus ratio times the second length constant', POSN), 'pulley')
joint('C46', 'gear', ('keeps the ratio-weighted sum of the two coupled joint coordinates constant over all four bodies', POSN.replace('the bodies', 'the four bodies')), 'gear')
joint('C47', 'mouse', ('pulls the grabbed point of the second body towards the target with spring and damping, bounded by the maximum force times the time step', NOPOS), 'mouse')
joint('C48', 'friction', ('opposes relative linear and angular velocity, bounded by the maximum force and torque times the time step', NOPOS), 'friction')
joint('C49', 'motor', ('drives the second body towards the target offset and angle by the correction factor, bounded by the maximum force and torque times the time step', NOPOS), 'motor')

# ---------------------------------------------------------------- contact solver

prop('C14', 'Contact impulses carry over between steps faithfully',
     'At the start of a solve each touching contact contributes one constraint holding exactly its two bodies\' masses, its friction, restitution, threshold and tangent speed, its shapes\' radii and every manifold point. '
     'With warm starting, the impulses stored on each manifold point are scaled by the step ratio and re-applied equal and opposite to the two bodies along the contact normal and tangent at the true arms; without it they start at zero. '
     'After the velocity iterations the accumulated impulses are stored back on the same manifold points, and nothing else changes.',
     ['inputs', 'histories'], 'every contact list, one or two manifold points, warm starting on or off, all masses, arms and impulses',
     'A lost or misplaced impulse only slows convergence, so scenes still come to rest and every assertion with a tolerance passes.',
     ['src/private/dynamics/b2_contact_solver.rs', 'src/private/dynamics/b2_contact_solver_private.rs'],
     [('constraint records', 'contact solver construction'), ('warm start', 'warm_start'), ('store', 'store_impulses')],
     state=[('normal/tangent impulse per manifold point', 'carried between steps')],
     technique=T_VN + ': one generic contact, specialised to each point count, compared with a specification',
     note='real arithmetic; loop over contacts summarised by a generic iteration')

prop('C15', 'Contact solver set-up derives arms, effective masses and bounce exactly',
     'For each contact point the solver uses the world manifold of the current poses to derive the normal, the arms from both centres of mass, and the normal and tangential effective masses including rotation. '
     'The restitution bias applies exactly when the approach speed exceeds the threshold, and equals the restitution times the approach velocity. '
     'With two points the block solver matrix and its inverse are exact, and a nearly dependent pair is reduced to a single point.',
     ['inputs', 'configurations'], 'all poses, masses, velocities, restitution settings; one or two points; block solver on or off',
     'Effective masses and bias are continuous functions of some twenty reals; errors only alter convergence or bounce height in configurations tests do not measure.',
     ['src/private/dynamics/b2_contact_solver_private.rs'],
     [('set-up', 'initialize_velocity_constraints')],
     technique=T_VN + ': one generic contact, specialised to each point count, compared with a specification',
     note='real arithmetic; the world manifold itself is a separate property')

prop('C16', 'Contact velocity iteration obeys Coulomb friction and never pulls',
     'Each velocity iteration applies to the two bodies equal and opposite impulses at the contact points: a tangential impulse that removes relative slip (towards the surface speed) with its accumulated value bounded by friction times the accumulated normal impulse, and a normal impulse whose accumulated value is never negative. '
     'For two points with the block solver enabled, the normal impulses are exactly the solution of the two-point complementarity problem, tried in the documented order of cases. '
     'Only the two bodies\' velocities and that contact\'s accumulated impulses change.',
     ['inputs', 'histories', 'configurations'], 'all velocities, accumulated impulses, masses, frictions; one or two points; block solver on or off',
     'The step is a piecewise algebraic map with eight branches; a wrong branch or sign is absorbed by later iterations in scenes that tests can check.',
     ['src/private/dynamics/b2_contact_solver_private.rs'],
     [('velocity iteration', 'solve_velocity_constraints')],
     technique=T_VN + ': piecewise polynomial summary of one generic contact, specialised to each point count, compared with the constraint equations',
     note='real arithmetic; loop over contacts summarised by a generic iteration')

prop('C17', 'Contact position correction pushes apart only penetrating points, bounded',
     'Each position iteration re-evaluates every manifold point at the bodies\' current trial poses, and moves both bodies along the contact normal by exactly the Baumgarte fraction of the penetration beyond the slop, bounded per iteration, weighted by inverse masses and inertias at the true arms. '
     'Separated points move nothing, and the iteration reports success exactly when the deepest penetration is within the documented tolerance. '
     'In the time-of-impact variant only the two bodies of the impact move; all others act as if immovable.',
     ['inputs', 'histories'], 'circle, face-A and face-B manifolds, one or two points, all poses, radii and masses; discrete and time-of-impact variants',
     'Overlap is resolved gradually over many steps, so wrong fractions, arms or bounds still converge in any scene a test can assert on.',
     ['src/private/dynamics/b2_contact_solver_private.rs'],
     [('position iteration', 'solve_position_constraints, solve_toi_position_constraints, position solver manifold')],
     technique=T_VN + ': one generic contact, specialised to manifold kind and point count, compared with a specification',
     note='real arithmetic; other manifold shapes cannot be produced by the collision routines')

# ---------------------------------------------------------------- maths and shapes

prop('C26', 'Vector, matrix, rotation, transform and sweep algebra is exact',
     'Every public vector, matrix, rotation and transform operation (sums, products, transposed products, inverses, solves, norms, distances, component-wise min, max, clamp and absolute value) equals its algebraic definition for all operands; singular matrices are solved with the documented zero convention. '
     'A sweep evaluated at a fraction gives the transform that interpolates centre and angle linearly and accounts for the local centre; advancing re-bases its start at the given time on the same motion and normalising removes whole turns from both angles alike. '
     'No operation changes anything but its stated output.',
     ['inputs'], 'all real operands',
     'Transposition, sign and frame errors vanish for identity rotations, symmetric matrices and axis-aligned vectors, which is what tests use.',
     ['src/b2_math.rs', 'src/private/common/b2_math.rs'],
     [('algebra', 'operators and free functions of the math module')],
     technique=T_VN + ': polynomial normal form of each result compared with its definition', note='real arithmetic instead of floating point; bit-twiddling integer helpers are not covered')

prop('C28', 'Shape queries: point tests, ray casts, boxes and mass are geometrically exact',
     'For circles, edges, polygons and chain children, the point test, the bounding box (grown by the shape radius) and the mass, centroid and inertia about the local origin equal their geometric definitions under any transform. '
     'A ray cast hits exactly when the segment enters the shape within the maximum fraction (from the front only, for one-sided edges; never from inside a solid), and then reports the entry fraction and the unit outward normal in world axes. '
     'Boxes, edges and chain children are built from exactly the given dimensions and neighbouring vertices.',
     ['inputs'], 'all transforms, rays, densities, radii and vertices; polygons with each vertex count from 3 to 8 (ray casts: 3)',
     'Each result is a piecewise algebraic function of many reals; tests use a handful of axis-aligned shapes at identity transforms.',
     ['src/shapes/', 'src/private/collision/b2_circle_shape.rs', 'src/private/collision/b2_edge_shape.rs', 'src/private/collision/b2_polygon_shape.rs', 'src/private/collision/b2_chain_shape.rs'],
     [('shape operations', 'test_point, ray_cast, compute_aabb, compute_mass, set_as_box, get_child_edge')],
     technique=T_VN + ': returned and stored values compared with their geometric definition, loops over vertices specialised to each vertex count',
     note='real arithmetic; polygon ray casts decided for three vertices, the code being uniform in the count')

prop('C29', 'Polygons built from points are counter-clockwise convex hulls with normals',
     'Creating a polygon from three to eight points welds points closer than half the linear slop, wraps the remaining ones counter-clockwise from the right-most lowest point taking the farthest of collinear candidates, and stores exactly those vertices in that order. '
     'Each stored normal is the unit outward normal of the edge to the next vertex and the stored centroid is the area centroid. '
     'Too few, too many or degenerate points are rejected and every other point set is accepted.',
     ['inputs'], 'all point sets, in any order, with duplicates and collinear points',
     'Hull construction is order dependent with special cases for duplicates and collinear points; tests supply points already in convex order.',
     ['src/private/collision/b2_polygon_shape.rs'],
     [('weld, extreme point, gift wrapping, normals, centroid', 'polygon set')],
     technique=T_VN + ' with loop summaries: the state transition and stop condition of every pass compared with a specification',
     note='real arithmetic; each pass is decided as a recurrence (initial value, transition, stop condition)')

prop('C30', 'Bounding boxes, world manifolds, point states and clipping are exact',
     'Bounding box centre, extents, perimeter, union, containment, overlap, validity and ray cast are exactly their geometric definitions, touching counts as overlap, and every operation leaves its inputs alone. '
     'A world manifold has the normal pointing from the first shape to the second, each point midway between the two surfaces and the signed separation between them, for every manifold kind and point count. '
     'Comparing two manifolds classifies every point as added, persisted or removed by its feature identity, and clipping a segment to a half plane keeps inside points with their identity and adds exactly the crossing point.',
     ['inputs'], 'all boxes, rays, manifolds of every kind and point count, and segments',
     'Every result is continuous in its inputs and tests sample a few values; mirrored cases such as the reference face on the second shape are rarely exercised.',
     ['src/b2_collision.rs', 'src/private/collision/b2_collision.rs'],
     [('boxes', 'bounding box methods and overlap test'), ('world manifold', 'world manifold initialise'), ('point states', 'get point states'), ('clipping', 'clip segment to line')],
     technique=T_VN, note='real arithmetic; specialised to each manifold kind and each pair of point counts (0 to 2)')

prop('C32', 'Contact manifolds against circles pick the nearest feature exactly',
     'Colliding a circle with a circle, polygon or edge yields no point exactly when the surfaces are farther apart than the radii allow, and otherwise one point whose kind, normal, reference point and feature identity are those of the nearest vertex or face. '
     'A one-sided edge ignores circles behind it and leaves a circle at a shared vertex to the neighbouring edge whose face it is over. '
     'Nothing else in the manifold changes.',
     ['inputs'], 'all circle, polygon and edge shapes, radii and relative transforms',
     'The outcome depends on which Voronoi region the centre lies in; tests hit one or two regions and never the shared-vertex cases.',
     ['src/private/collision/b2_collide_circle.rs', 'src/private/collision/b2_collide_edge.rs'],
     [('circle manifolds', 'collide circles, polygon and circle, edge and circle')],
     technique=T_VN + ' with loop summaries', note='real arithmetic; the face search is decided as a recurrence')

prop('C33', 'Polygon contact manifolds use the true separating face and clipped edge',
     'Two polygons yield no point when a face of either separates them by more than the combined skin; otherwise the reference face is the face of greatest separation, switching to the second polygon only beyond a small tolerance. '
     'The contact points are the incident edge of the other polygon, the one facing the reference face most squarely, clipped to the side planes of the reference face, keeping those within the combined skin, in the local frame of the incident polygon. '
     'The stored normal, reference point and feature identities belong to the reference face, with features exchanged when it is on the second polygon.',
     ['inputs'], 'all pairs of convex polygons, radii and transforms',
     'The reference-on-second-polygon branch, face index wrap-around and tolerance are each reached only by particular geometry, and an error shows up as jitter rather than as a failing assertion.',
     ['src/private/collision/b2_collide_polygon.rs'],
     [('polygon manifolds', 'collide polygons')],
     technique=T_VN + ' with loop summaries', note='real arithmetic; clipping is an uninterpreted function here and decided in C30')

prop('C34', 'Edge and polygon manifolds respect hysteresis and ghost vertices',
     'An edge and a polygon yield no point when an axis separates them by more than the combined skin, when the polygon lies behind a one-sided edge, or when the contact normal belongs to a convex neighbouring edge. '
     'Otherwise the polygon axis is used only if clearly better than the edge axis, a concave neighbour forces the edge axis, and the points are the incident edge clipped to the side planes of the reference face, keeping those within the skin. '
     'Normals, reference points, local frames and feature identities are those of the chosen reference face.',
     ['inputs'], 'all edges with and without ghost vertices, polygons, radii and transforms',
     'Ghost vertex handling only matters when shapes slide across vertices of chains; tests hardly ever place a polygon in the convex, concave or hysteresis regions.',
     ['src/private/collision/b2_collide_edge.rs'],
     [('edge manifold', 'collide edge and polygon')],
     technique=T_VN + ' with loop summaries', note='real arithmetic, non-degenerate edges; clipping is decided in C30')

prop('C02', 'Intrusive lists keep exactly the objects inserted and not removed',
     'Inserting a body, joint, contact, fixture or list entry puts it at the front and links it to its neighbour; removing one links its neighbours to each other and leaves every other link alone, whatever its position. '
     'Walking a list from the head visits each element once, in order, and clearing empties it.',
     ['histories'], 'all list contents and positions of the inserted or removed element, for each of the six lists',
     'Position-dependent link errors (front, middle, last, only element) corrupt a list silently and show up steps later.',
     ['src/b2rs_double_linked_list.rs', 'src/b2rs_linked_list.rs'],
     [('doubly linked list', 'push_front, remove, clear, iteration'), ('singly linked list', 'push_front, remove, clear, iteration')],
     technique=T_VN + ' with loop summaries', note='the element is assumed to be in the list it is removed from; different symbolic elements are assumed to be different objects')

prop('C03', 'Contacts are created, kept and destroyed exactly when their pair demands it',
     'A pair of overlapping proxies gets exactly one contact unless both are on the same body, a contact for the same two fixture children exists in either order, or a filter refuses; the contact is registered with the world and both bodies and counted. '
     'Each step a contact flagged for filtering is refiltered and dropped if refused, a contact with an active body is dropped if its proxies no longer overlap and updated otherwise, and all others are left alone. '
     'Destroying a contact reports the end of touching, removes it from the world and both bodies, uncounts it, and wakes both bodies if it was pressing on them.',
     ['histories', 'inputs'], 'all contact managers, pairs, filters, listeners and contact states',
     'Duplicate contacts, missed removal from one of three lists, or a wrong refilter decision need particular histories to surface and then corrupt later steps.',
     ['src/private/dynamics/b2_contact_manager.rs', 'src/private/dynamics/b2_contact.rs'],
     [('creation', 'contact manager add pair'), ('narrow phase', 'contact manager collide'), ('destruction', 'contact manager destroy')],
     technique=T_VN + ' with loop summaries', note='list operations, filters, broad-phase overlap and contact update are separate properties; bodies and fixtures are assumed alive')

prop('C05', 'Contact updates set touching, carry impulses and report each event once',
     'Updating a contact enables it and makes it touching exactly when its shapes overlap (sensors) or have contact points (others); sensors get no points, and the points of other contacts are freshly computed at the current placement of both bodies. '
     'A point keeps the accumulated impulses of the old point with the same feature identity and starts from zero otherwise; both bodies wake exactly when touching of a solid contact changes. '
     'The listener is told begin, end and pre-solve exactly on the respective transitions, with the previous manifold for pre-solve, and what it changes is kept.',
     ['histories', 'inputs'], 'all contacts, previous states, listener present or not, and every combination of old and new point counts',
     'Event and impulse errors depend on the previous state and on feature identities; tests follow one or two contacts through one transition.',
     ['src/private/dynamics/b2_contact.rs'],
     [('update', 'contact update')],
     technique=T_VN, note='specialised to each pair of old and new point counts (0 to 2); evaluation of the manifold is C32 to C34')

prop('C09', 'Every pair of shape kinds gets the matching contact and collision routine',
     'Each combination of circle, edge, polygon and chain that can collide, in either order, creates a contact whose fixtures are in the canonical order with their own child indices; edge and chain pairs create none. '
     'That contact computes its manifold with the routine for its two kinds from the shapes of its own fixtures, at the placement of the matching body, using the child edge for a chain. '
     'Each shape reports and converts to its own kind only.',
     ['inputs', 'configurations'], 'all pairs of shape kinds in both orders',
     'Rare pairs such as polygon against chain in swapped order are not covered by tests, and a swapped argument still produces plausible contacts.',
     ['src/private/dynamics/b2_contact_registers.rs', 'src/private/dynamics/b2_contact.rs', 'src/private/dynamics/contacts', 'src/shapes/b2rs_to_derived_shape.rs'],
     [('factory table', 'contact registers default'), ('factory', 'contact create'), ('evaluation', 'evaluate of the seven contacts')],
     technique=T_VN + ' with exact evaluation of the factory table', note='the collision routines themselves are C32 to C34')

prop('C50', 'Contact parameters mix by rule and every contact accessor does its one job',
     'A new contact is enabled, not touching, without points and not linked anywhere; its friction is the geometric mean, its restitution the larger and its restitution threshold the smaller of its fixtures\' values. '
     'Resetting a parameter restores that mix, setting one changes it alone, and every query returns its own value. '
     'The world manifold of a contact uses the transforms and radii of its first and second fixture in that order.',
     ['inputs'], 'all fixtures and parameter values',
     'Parameters are read by the solver many steps later; crossed or stale parameters give plausible but wrong motion.',
     ['src/b2_contact.rs', 'src/private/dynamics/b2_contact.rs'],
     [('mixing', 'mix friction, restitution, threshold'), ('interface', 'contact accessors')],
     technique=T_VN, note='real arithmetic')

prop('C06', 'No operation trips over its own borrows, and callbacks find objects free',
     'No library operation, called on objects that the caller is entitled to pass, panics because it borrows an object that it or one of its callers inside the library already holds. '
     'Whenever the library calls a contact listener, a contact filter, a destruction listener or a query closure, no body, fixture or joint is held, so the callback may inspect and change them.',
     ['programs', 'histories'], 'all library functions, all call chains between them and all combinations of object types',
     'A conflicting borrow panics only when two handles happen to lead to the same object, for instance a fixture that has a contact when its filter is changed; tests rarely build that combination.',
     ['src'],
     [('cells', 'reference-counted cells holding world objects'), ('callbacks', 'listeners, filters and closures')],
     technique='borrow-effect analysis over MIR: transitive borrow effects per function, guards followed from borrow to drop, held sets propagated down the call graph',
     note='objects are told apart by type; pairs that are different by construction (the two bodies of a contact, list neighbours) are listed with the reason')

prop('C07', 'Collision filtering follows groups, masks, body types and joints',
     'Two fixtures pass the default filter by the sign of their common non-zero group, and otherwise exactly when each mask admits the category of the other; two bodies may collide exactly when one is dynamic and no joint between them forbids it. '
     'Changing the filter of a fixture stores it, marks exactly the contacts of this fixture for filtering and all its proxies for pairing, and changes nothing else.',
     ['inputs', 'configurations'], 'all filters, body types, joint lists and contact lists',
     'Group, category and mask interact; asymmetric mistakes only show for particular bit patterns or with several joints between two bodies.',
     ['src/private/dynamics/b2_world_callbacks.rs', 'src/private/dynamics/b2_body.rs', 'src/private/dynamics/b2_fixture.rs'],
     [('default filter', 'should_collide of the contact filter'), ('body rule', 'should_collide of the body'), ('refiltering', 'refilter of the fixture')],
     technique=T_VN, note='loops over joints, contacts and proxies are summarised by one generic iteration')

prop('C35', 'Bodies are created, destroyed, retyped and enabled completely and consistently',
     'A new body carries every value of its definition, and invalid positions, velocities or damping are rejected; the world gains exactly that body. '
     'Destroying a body ends all its joints and contacts, removes all its broad-phase proxies, tells the destruction listener about each joint and fixture, and removes the body from the world. '
     'Changing the type recomputes mass, clears forces (and motion for static bodies), wakes the body, ends its contacts and marks all its proxies for pairing; enabling and disabling create or remove proxies and contacts, and repeating either does nothing.',
     ['histories', 'inputs'], 'all bodies with any joints, contacts, fixtures, flags and types, with or without a listener',
     'Left-over contacts, proxies or stale motion only show later and only for particular combinations of attached objects.',
     ['src/private/dynamics/b2_world.rs', 'src/private/dynamics/b2_body.rs', 'src/b2_body.rs'],
     [('creation', 'create_body and the body constructor'), ('destruction', 'destroy_body'), ('type change', 'set_type'), ('enabling', 'set_enabled')],
     technique=T_VN, note='list passes are summarised by one generic iteration; list operations, contact destruction and mass computation are C02, C03 and C12')

prop('C36', 'Joints are created, registered and destroyed completely, and refilter contacts',
     'Every kind of joint definition yields a joint of that kind, registered once with the world and once with each of its two bodies, each entry naming the joint and the other body; no body is woken. '
     'Destroying a joint removes it from the world and both bodies and wakes both. '
     'In both cases, exactly the contacts between the two bodies are marked for filtering when the joint forbids collision, and no others.',
     ['histories', 'configurations'], 'all ten kinds of joints, body pairs, contact lists and collision settings',
     'Registration mistakes show only when the joint list of the other body is used later, and refiltering only with existing contacts.',
     ['src/private/dynamics/b2_world.rs', 'src/private/dynamics/b2_joint.rs', 'src/b2_joint.rs'],
     [('creation', 'create_joint'), ('dispatch', 'joint create'), ('destruction', 'destroy_joint')],
     technique=T_VN, note='the contact pass is summarised by one generic iteration; constructors of the joints are C24')

prop('C37', 'Fixtures carry their definition, own one proxy per child and leave cleanly',
     'A new fixture carries every value of its definition and a copy of its shape, joins exactly its body, updates mass when it has density, and gets proxies exactly when its body is enabled. '
     'It has one proxy per shape child with the box of that child, synchronising them covers the boxes of both placements and reports their displacement, and removing takes them all. '
     'Destroying a fixture ends exactly its own contacts, removes its proxies, leaves the body and recomputes mass; every accessor returns or changes its own value only.',
     ['inputs', 'histories'], 'all definitions, shapes with any number of children, placements, contact lists and enabled states',
     'Chains with many children, disabled bodies and fixtures sharing a body with others are combinations that tests do not enumerate.',
     ['src/private/dynamics/b2_fixture.rs', 'src/b2_fixture.rs', 'src/private/dynamics/b2_body.rs'],
     [('creation', 'create_fixture'), ('destruction', 'destroy_fixture'), ('proxies', 'create, destroy and synchronise proxies')],
     technique=T_VN, note='passes over children and contacts are summarised by one generic iteration; box formulas are C28')

prop('C01', 'A locked world refuses structural changes before changing anything',
     'While a step is in progress (as seen from any callback) the world reports itself locked, and creating or destroying bodies, fixtures or joints, changing a body\'s type, enabled state, placement or mass, and shifting the origin all fail without having changed anything. '
     'Only a step locks and unlocks the world, and no other public operation of worlds, bodies or fixtures adds to or removes from the world\'s structure while locked.',
     ['histories', 'programs'], 'all public operations, called at any moment, including from inside callbacks',
     'Tests would have to call every operation from every callback in every state; a missing refusal corrupts lists only later.',
     ['src/b2_world.rs', 'src/private/dynamics/b2_world.rs', 'src/private/dynamics/b2_body.rs', 'src/b2_body.rs'],
     [('lock', 'the world\'s locked flag, set by step'), ('refusals', 'assertions at the start of each mutator')],
     technique=T_VN, note='effects of each operation in order, plus call-graph reachability of the list and proxy operations from every public function')

prop('C21', 'Shifting the origin moves every absolute position by the same amount',
     'After shifting the origin, every body position and its current and previous centre of mass, the world anchors of mouse and pulley joints, and every box of the broad-phase have been moved by exactly the negated shift. '
     'Nothing else changes: angles, velocities, local anchors, proxies and the tree structure stay as they were, and the shift is refused in a locked world.',
     ['inputs', 'histories'], 'all worlds (any bodies, joints of all kinds and trees) and all shifts',
     'A forgotten position only shows as a jump in a later step of the particular joint or body concerned.',
     ['src/private/dynamics/b2_world.rs', 'src/private/collision/b2_dynamic_tree.rs', 'src/b2_broad_phase.rs', 'src/b2_joint.rs', 'src/joints/b2_mouse_joint.rs', 'src/joints/b2_pulley_joint.rs'],
     [('world shift', 'shift_origin'), ('joint shift', 'shift_origin of each joint'), ('tree shift', 'shift_origin of the dynamic tree')],
     technique=T_VN, note='passes over bodies, joints and nodes are summarised by one generic iteration')

prop('C22', 'A step runs its phases once, in order, under the lock, with the right time step',
     'A step first finds pending pairs if any were announced, then updates contacts, then (only when time passes) solves motion and handles impacts if these are enabled, and finally clears forces if asked; the world is locked during all but the first, and unlocked afterwards. '
     'Every phase gets the step length, its inverse, the ratio to the previous step, both iteration counts and the warm-starting setting; a step of no length moves nothing and leaves the remembered length. '
     'Clearing forces zeroes force and torque of every body and nothing else.',
     ['inputs', 'histories'], 'all step lengths (positive, zero, negative), iteration counts, settings and previous steps',
     'Varying step lengths, zero-length steps and switched-off phases combine into cases that tests sample at most once.',
     ['src/private/dynamics/b2_world.rs', 'src/b2_world.rs'],
     [('step', 'step'), ('forces', 'clear_forces')],
     technique=T_VN, note='the phases themselves are other properties; profile timings are ignored')

prop('C38', 'Distance between shapes and closest points',
     'The distance query sees exactly the vertices and radius of the given child of each shape, and returns the distance and closest points of the simplex left when no new support point exists, with or without radii. '
     'Memory of the previous query only changes where the search starts, never the shapes it is made of, and is replaced by the final simplex. '
     'Two shapes overlap exactly when that distance, radii included, is below the tolerance.',
     ['inputs', 'histories'], 'all shapes, children, placements, cache contents and simplex sizes',
     'Degenerate simplices, stale caches and the wrap-around child of a chain are reached by few inputs, and a wrong region gives a plausible distance.',
     ['src/private/collision/b2_distance.rs', 'src/b2_distance.rs', 'src/private/collision/b2_collision.rs'],
     [('proxy', 'set_shape, get_support'), ('simplex', 'solve2, solve3, read_cache, write_cache'), ('iteration', 'b2_distance_fn'), ('overlap', 'b2_test_overlap_shapes')],
     technique=T_VN, note='the iteration is summarised by one generic round over the pieces checked separately; convergence and rounding are not addressed')

prop('C39', 'Placing or advancing a body keeps its pose, sweep and fixtures consistent',
     'Placing a body sets its transform and its current and previous centre and angle to the same pose, moves all its fixtures there and announces new pairs; advancing it moves along its sweep to the given time and places it there; the transform follows from centre and angle. '
     'Synchronising covers, for every fixture, the motion of an awake body and only the present place of a sleeping one. '
     'Reading any of these values returns it unchanged.',
     ['inputs', 'histories'], 'all poses, local centres, sweeps, fixture lists and sleep states',
     'An inconsistent previous pose or a missed fixture shows only in the next continuous step or pair update.',
     ['src/private/dynamics/b2_body.rs', 'src/b2_body.rs'],
     [('placement', 'set_transform'), ('advance', 'advance'), ('synchronisation', 'synchronize_transform and synchronize_fixtures')],
     technique=T_VN, note='passes over fixtures are summarised by one generic iteration; the fixture update is C37')

prop('C51', 'World settings, listeners, counts and lists are what was set and what is there',
     'Every world setting reads back as written and writing it changes nothing else; listeners, filter and drawer replace only their own slot; counts and lists are those of the world\'s bodies, joints, contacts and proxies. '
     'Forbidding sleep wakes every body and allowing it wakes none. '
     'A new world is empty, unlocked, has the given gravity, and has warm starting, continuous physics, sleeping and force clearing on and sub-stepping off.',
     ['histories', 'configurations'], 'all settings, in any order, on any world',
     'A setter that touches a neighbouring setting is visible only in runs that use both.',
     ['src/b2_world.rs', 'src/private/dynamics/b2_world.rs'],
     [('settings', 'setters and getters of the world'), ('construction', 'the world constructor')],
     technique=T_VN, note='setters, getters and the constructor are specified whole, with frame conditions')

prop('C18', 'Islands are exactly what touches or is joined; each member is solved once',
     'Each step groups every awake, enabled, non-static body with all bodies it reaches through enabled touching solid contacts and through joints, stopping at static bodies; each body, contact and joint is solved in exactly one group per step (static bodies in every group that reaches them). '
     'Everything reached is woken, and sleeping or disabled bodies are never solved on their own account. '
     'Fixtures of the moved bodies follow before new pairs are sought, once.',
     ['inputs', 'histories'], 'all graphs of bodies, contacts and joints with any flags',
     'The result depends on the shape of the contact graph; a wrong flag only shows as a body left behind in particular arrangements.',
     ['src/private/dynamics/b2_world.rs', 'src/private/dynamics/b2_island.rs'],
     [('island building', 'solve of the world'), ('membership', 'add_body, add_contact, add_joint and clear of the island')],
     technique=T_VN, note='the search is decided as an invariant of one generic iteration of the pending stack and its two neighbour passes; the island\'s own solve is C23; profile timings are ignored')

prop('C23', 'An island is integrated, solved, written back, reported and put to sleep',
     'Within a step each dynamic body gains velocity from gravity, forces and damping exactly once, constraints are prepared and iterated the requested number of times, positions advance by velocity times time within the movement limits and are corrected until solved, and results reach the bodies and the listener. '
     'An island falls asleep as a whole exactly when it may, its positions are solved, and every non-static member has been slow for long enough. '
     'Resolving an impact uses the current state, no warm starting and no stored impulses, and restarts the two impacting bodies from their corrected pose.',
     ['inputs', 'histories'], 'all islands (any number of bodies, contacts and joints), step parameters, velocities and sleep times',
     'Each phase influences the next numerically; a dropped or doubled phase still looks plausible in a single scenario.',
     ['src/private/dynamics/b2_island_private.rs', 'src/private/dynamics/b2_island.rs'],
     [('motion', 'solve of the island'), ('impact', 'solve_toi of the island'), ('report', 'report of the island')],
     technique=T_VN, note='joint and contact constraint code is other properties; the listener report is specialised to 0, 1 and 2 contact points')

prop('C19', 'Impacts within a step are found earliest first and resolved in a small island',
     'When impacts are handled, the next one is the earliest among enabled solid contacts that involve a moving body and a bullet or non-dynamic one, computed over the common remaining interval and remembered until a body moves. '
     'Its bodies advance to that moment and are resolved for the remaining time with their touching static, kinematic and bullet neighbours; if the refreshed contact turns out not solid, the bodies return to where they were. '
     'This repeats until no impact lies within the step, or once per step with sub-stepping, never fails for large groups, and leaves no mark behind.',
     ['inputs', 'histories'], 'all worlds with any contacts, flags, cached impacts, sweeps and numbers of neighbours',
     'Impacts, cached times and sub-step limits interact across bodies; tests see a handful of bullets.',
     ['src/private/dynamics/b2_world.rs', 'src/b2_time_of_impact.rs'],
     [('continuous phase', 'solve_toi of the world')],
     technique=T_VN, note='the time-of-impact computation, contact refresh and island solving are recorded calls with unknown results; passes are summarised by one generic iteration; neighbour passes of the two bodies are analysed separately')

prop('C27', 'Box queries and ray casts visit every candidate and obey the callback',
     'A box query reports exactly the fixtures whose stored box overlaps the query box, each once per stored box, until the callback says stop. '
     'A ray cast tries every fixture child whose stored box the still-unclipped ray can reach, and reports each real hit with its fixture, point, normal and fraction. '
     'The callback\'s answer is obeyed: zero ends the cast, a positive number shortens the ray, a negative one ignores the hit, and a miss changes nothing.',
     ['inputs', 'histories'], 'all trees, boxes, segments, callback answers and numbers of pending nodes, including more than fit the fixed buffer',
     'Whether every candidate is reached depends on the tree shape and clipping history; tests see few trees and callbacks.',
     ['src/b2_dynamic_tree.rs', 'src/b2_broad_phase.rs', 'src/private/dynamics/b2_world.rs', 'src/b2_growable_stack.rs'],
     [('tree search', 'query and ray_cast of the tree'), ('world search', 'query_aabb and ray_cast of the world'), ('pending list', 'growable stack')],
     technique=T_VN, note='assumes the tree invariant that a node\'s box contains its children (decided by the tree maintenance property); each shape\'s own ray cast is another property')

prop('C20', 'The proxy tree stays linked, tight and balanced through every change',
     'Creating, moving and destroying proxies keeps every proxy reachable from the root once, parent and child links mutual, each inner box exactly the union of its children\'s boxes and each height exact; nodes whose subtrees differ in height by more than one are rotated. '
     'A proxy stores its box plus a margin and predicted movement; the stored box is replaced, and the proxy marked as moved, exactly when the new box leaves it or it has become far too large. '
     'Nodes come from one free list, which doubles when empty and never hands out a node in use; a new leaf joins the sibling of least perimeter cost.',
     ['inputs', 'histories'], 'all trees, boxes, displacements and histories of proxy creation, movement and destruction',
     'A wrong link, box or height shows only for particular tree shapes reached by long histories; the assertion sweep over a tree is not run by the stable tests.',
     ['src/private/collision/b2_dynamic_tree.rs', 'src/b2_dynamic_tree.rs'],
     [('insertion', 'insert_leaf'), ('removal', 'remove_leaf'), ('rotation', 'balance'), ('node pool', 'allocate_node, free_node')],
     technique=T_VN, note='tree nodes named by different links are taken to be different nodes (they are in a well-formed tree); descent and climb are summarised by one generic iteration; rebuilding and diagnostics are specified separately')

prop('C52', 'Every overlapping pair with a moved proxy is found and reported once',
     'A proxy is queued when it is created, when its stored box was replaced and when it is touched, and a destroyed proxy leaves the queue. '
     'An update searches the tree with the stored box of every queued proxy and reports each overlapping pair with the owners of both proxies, never a proxy with itself, and a pair of two moved proxies from one side only. '
     'Afterwards the queue is empty and the movement marks are cleared; both buffers grow when full.',
     ['inputs', 'histories'], 'all trees, queue contents, numbers of queued proxies and of pairs',
     'A missed pair needs a particular tree, queue order and buffer fill level; tests see a handful of bodies.',
     ['src/b2_broad_phase.rs', 'src/private/collision/b2_broad_phase.rs'],
     [('queue', 'buffering of moved proxies'), ('pairs', 'update of pairs and its query callback')],
     technique=T_VN, note='a proxy queued twice is searched twice and may report a pair twice; the contact manager drops duplicates (checked by the contact creation property); tree invariants are the tree maintenance property')

prop('C53', 'Time of impact of two moving shapes',
     'The search reports overlapped at time zero, touching or failed at the time reached, or separated at the end of the interval, each exactly in the situation it stands for, within bounded rounds. '
     'The separating axis is the line between the closest vertices or the normal of the closest face pointing apart, and its separation is measured between the deepest vertices with both shapes placed on their own motion at the tried time. '
     'The shapes are brought to the sum of their radii less the allowed penetration.',
     ['inputs', 'histories'], 'all shapes, motions, radii, time intervals and intermediate separations',
     'Each outcome is reached by a narrow set of motions, and a wrong bracket or tolerance still terminates with a plausible time.',
     ['src/private/collision/b2_time_of_impact.rs', 'src/b2_time_of_impact.rs'],
     [('axis', 'initialize of the separation function'), ('separation', 'find_min_separation, evaluate'), ('search', 'b2_time_of_impact')],
     technique=T_VN, note='the three nested searches are each summarised by one generic round; the distance query is C38; that the search converges is not addressed')

prop('C54', 'Casting a shape along a translation',
     'A shape cast reports a hit exactly when the moving shape comes within the target distance before the end of the translation, and nothing when the shapes start overlapping, end enclosing each other, move apart or meet only beyond it. '
     'A hit carries the fraction travelled, the unit normal at the contact and the point on the surface of the first shape; no hit leaves the full fraction and cleared vectors.',
     ['inputs', 'histories'], 'all shapes, placements, translations, radii and simplex sizes',
     'The reversal of the shapes, the shift of each support point and the reset of the simplex only matter in particular approach directions.',
     ['src/private/collision/b2_distance.rs', 'src/b2_distance.rs'],
     [('cast', 'b2_shape_cast')],
     technique=T_VN, note='the iteration is summarised by one generic round over the simplex pieces of C38; convergence is not addressed')

prop('C55', 'Ropes: set-up, stepping, tuning and reset',
     'A rope starts with every particle at its defined place and mass, neighbours linked at their rest lengths and consecutive triples by the chosen bending model. '
     'A step damps and accelerates the free particles, carries the massless ones to where the rope is held, applies the chosen bending and stretching corrections in order as often as asked, sharing each correction by inverse mass, and takes the new velocities from the distance moved; a zero time step changes nothing. '
     'Retuning recomputes every spring and damper, and a reset returns every particle to rest in its starting shape at the given place.',
     ['inputs', 'histories', 'configurations'], 'all ropes of three or more particles, masses, tunings, step lengths and iteration counts',
     'Ropes have no tests; a wrong factor in one of the twelve model combinations only changes how the rope sags or how quickly it settles.',
     ['src/private/rope/b2_rope.rs', 'src/b2_rope.rs'],
     [('constraint passes', 'solve_stretch_*, solve_bend_*, apply_bend_forces'), ('step', 'step'), ('set-up and tuning', 'create, set_tuning, reset')],
     technique=T_VN, note='each pass is decided for one generic constraint or particle of a sequence of any length; rounding, stability and coefficients left over when a rope is created again over coincident particles are not addressed')

prop('C56', 'Debug drawing shows the shapes, joints, boxes and centres as they are',
     'With a drawer attached, each step of drawing shows exactly what its flags ask for: every fixture of every body in the colour of the body\'s state at the body\'s pose, every joint between its current anchors, every broad-phase box, contact pair and centre of mass. '
     'Each kind of shape and joint is drawn with its own outline, axes, limits and ghost lines, and turning flags on or off changes only those flags.',
     ['inputs', 'histories', 'configurations'], 'all worlds, shape and joint kinds, body states and flag combinations',
     'Drawing has no tests, needs a display to judge, and a wrong transform or colour shows only for one body state or joint option.',
     ['src/private/dynamics/b2_world.rs', 'src/b2_draw.rs', 'src/private/dynamics/b2_joint.rs', 'src/private/dynamics/joints/b2_prismatic_joint.rs', 'src/private/dynamics/joints/b2_revolute_joint.rs', 'src/private/dynamics/joints/b2_wheel_joint.rs', 'src/private/dynamics/joints/b2_distance_joint.rs'],
     [('world drawing', 'debug_draw, draw_shape'), ('joint drawing', 'draw'), ('flags', 'set_flags, append_flags, clear_flags')],
     technique=T_VN, note='the sequence of calls made on the drawer is decided, with every argument and the condition it is made under; what the drawer does with them is the user\'s')

prop('C57', 'Letting go of a world or body takes bounded stack, however large it is',
     'When a world, a body or the last reference to one is dropped, the bodies, joints, contacts and fixtures listed in it are released one after another, so the stack used does not grow with their number. '
     'Each released object is first detached from its successor, so an object the user still holds keeps none of the others alive.',
     ['inputs', 'histories'], 'every world and body, with any number of bodies, fixtures, joints and contacts',
     'Small test worlds release recursively without trouble; only hundreds of thousands of joints on one body overflow the stack.',
     ['src/b2_world.rs', 'src/b2_body.rs', 'src/b2_contact_manager.rs', 'src/b2rs_double_linked_list.rs', 'src/b2rs_linked_list.rs'],
     [('drop of the owners', 'impl Drop for B2world, B2body, B2contactManager'), ('list release', 'remove_all, take_next')],
     technique=T_VN, note='every field of a list type in the crate is found from its type, and the drop of its owner is summarised; recursion through user data is not addressed')

prop('C08', 'A saved world loads back with the same bodies, shapes and joints',
     'Saving a world and loading it back, from formats that keep values in order or by name, yields the saved gravity and exactly one body, fixture and joint for each saved one, with the same settings, shape, material, filter and user data. '
     'Every loaded fixture belongs to the counterpart of its body, and every loaded joint connects the counterparts of the bodies, and for gears the joints, it connected before. '
     'Mouse joints are not saved; list order, step settings, warm starting impulses and overridden masses are not part of the saved state.',
     ['inputs', 'histories', 'configurations'], 'every world that can be built with the public interface and every self-describing or positional data format',
     'A round trip compares one world in one format; swapped fields of equal type, references that are only right for symmetric worlds and rarely used joint kinds go unnoticed.',
     ['src/serialize/serialize_b2_world.rs', 'src/serialize/serialize_b2_body.rs', 'src/serialize/serialize_b2_fixture.rs', 'src/serialize/serialize_b2_joint.rs', 'src/shapes/serialize_b2_polygon_shape.rs'],
     [('writers and readers of each record', 'serialize, visit_seq, visit_map'), ('references as positions', 'm_island_index, m_index and the body and joint tables')],
     observe='the loaded world through the public getters',
     technique=T_VN + ': writers, readers and constructors are summarised with recording stand-ins for the data format, and the composition write-read-construct is shown to be the identity on each field',
     note='derive-generated readers are analysed as expanded; error paths and malformed input are not covered; data formats are trusted to return what was written')

prop('C11', 'Results depend only on the world and the calls made to it',
     'Repeating the same calls on worlds built the same way gives the same results: nothing in the library lets the clock, statistics shared between worlds, memory addresses, hash seeds, the environment or other threads influence a simulation, a query or a callback. '
     'Timing measurements and call statistics are reported and used for nothing else, and global settings are changed by the user only.',
     ['histories', 'configurations', 'schedules'], 'all programs, repetitions and machines',
     'A dependence on timing or on what another world did shows only under load, after long runs or on another machine; a repeated test in one process agrees with itself.',
     ['src/b2_timer.rs', 'src/b2_time_step.rs', 'src/b2_distance.rs', 'src/b2_time_of_impact.rs', 'src/b2_contact.rs'],
     [('timing records', 'B2timer, B2Profile'), ('shared counters and settings', 'static atomics')],
     observe='any result of the public interface',
     technique='forward provenance (taint) analysis over the MIR of the whole crate, flow-insensitive per function, through parameters, returns and fields, in both feature configurations',
     note='floating-point evaluation is trusted to be repeatable on one machine; user callbacks and user data are outside; data flowing through containers or fields of other types is reported, not followed')
