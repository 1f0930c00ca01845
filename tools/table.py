NOT_APPLICABLE = []

prop("C14", "foot", "Foot load sharing reproduces the wrench without pulling",
     "For every foot size, position and loaded wrench, the forces assigned to the four corner points sum to exactly that wrench (force and torque), no point pulls on the ground while the centre of pressure is inside the foot, and no force is produced when there is no normal load. "
     "The four points are always the corners of the last accepted rectangle in the order front-left, front-right, back-left, back-right, mapped by the given frame transform, and the normal-load ratios are non-negative, sum to one and reproduce the centre of pressure. "
     "Non-positive dimensions are refused without disturbing the current foot, and an unset foot answers nothing.",
     ["inputs", "histories"], "all foot sizes and offsets, frame transforms, wrenches with any centre of pressure (interior, edges, corners, outside, unloaded) and any earlier use of the same object",
     "The only test uses one foot, one fixed normal force and interior pressure points on a smooth curve; edges, corners, unloaded feet, other sizes, transforms and object reuse are never exercised.",
     ["src/RectangularFoot.cpp", "include/DynamicalPlanner/RectangularFoot.h"],
     [("load ratios from the centre of pressure", "RectangularFoot::getNormalRatiosFromCoP"), ("least-squares split of the tangential load with active points", "RectangularFoot::getForces"), ("corner table", "RectangularFoot::setFoot")],
     ["returned point positions", "returned ratios", "returned forces", "return values"],
     "property-based testing: generated feet, wrenches and call histories against an equilibrium oracle",
     "Exploration: hundreds of thousands of generated feet, wrenches and histories; trusts iDynTree's Transform and Eigen.")

prop("C15", "settings", "Settings hold only complete and consistent problem descriptions",
     "A problem description is accepted if and only if every quantity that the always-present and the enabled features need is present, correctly sized, consistent with the robot model and in its documented range; what concerns disabled costs is never a reason to refuse it. "
     "A refused description leaves the previously accepted settings and their validity untouched, an accepted one is returned unchanged, and construction from a description is equivalent to setting it. "
     "The defaults computed for any robot model that has the default frames are accepted, take the joint limits from the model and request zero velocities.",
     ["inputs", "histories", "configurations"], "all combinations of enabled costs and complementarity types, each required quantity missing, mis-sized or out of range, robot models of different sizes, and sequences of accepted and refused descriptions",
     "No test offers an invalid description; the tests only load one set of valid settings.",
     ["src/Settings.cpp", "include/DynamicalPlanner/Settings.h"],
     [("validation", "Settings::setFromStruct"), ("defaults", "Settings::Defaults")],
     ["return value of setFromStruct", "isValid", "getSettings"],
     "property-based testing: generated descriptions and deviations against a reference verdict",
     "Exploration: every listed deviation is generated many times on random robot models and feature combinations; the reference verdict is an independent table of requirements.")

prop("C09", "kindyn", "The kinematics service answers for exactly the state it is asked about",
     "Every query to the shared kinematics and dynamics service (transforms, Jacobians, velocities, momentum, mass matrix, static forces) returns what the robot model gives for the state, frame, velocity representation, floating base and gravity of that query, whatever was asked, configured or copied before and whichever other threads use the service. "
     "Its configuration derivatives (frame velocity, momentum, static torques with respect to the joints) are the derivatives of those quantities at that state, and a state of the wrong size is refused. "
     "The per-time pool serves each time with the computations of the closest set time, never shares computations between two set times, and gives all of them the configuration of the template however often the times are set.",
     ["inputs", "histories", "schedules"], "robot trees of one to seven joints, all representations, sequences of queries with single-component state changes, base, gravity and tolerance changes and copies, lists of times set repeatedly with growing and shrinking length, concurrent users",
     "The tests use one fixed model and compare a few derivatives at a few fixed states, with one time list and no concurrency.",
     ["src/private/SharedKinDynComputations.cpp", "src/private/TimelySharedKinDynComputations.cpp"],
     [("cached robot state and update tolerance", "SharedKinDynComputations::sameState, updateRobotState"), ("child force buffers", "SharedKinDynComputations::computeChildStaticForces and getStaticForcesJointsDerivative"), ("slot lookup", "TimelySharedKinDynComputations::get, setTimings")],
     ["returned kinematic quantities", "returned Jacobians and derivatives", "slot identity"],
     "property-based testing: model-based histories against freshly configured iDynTree computations and finite differences",
     "Exploration: over a hundred thousand histories on random robots per quick run; trusts iDynTree; thread interleavings are sampled by the operating system, not enumerated.")

prop("C10", "maths", "Quaternion calculus and smoothing functions are exact",
     "For every unit quaternion and angular velocity the trivialised maps turn velocities into quaternion rates that move the rotation accordingly and back again; for every quaternion the normalisation, its derivative, the derivative of a rotated vector, the inverse and the companion Jacobians are the exact derivatives of what they claim, and the error quaternion represents the relative rotation. "
     "The bounds check accepts unit quaternions and refuses components beyond one. "
     "The hyperbolic secant and tangent smoothers return finite exact values and first and second derivatives for every argument and scaling, and a disabled smoother is the given constant with zero derivatives.",
     ["inputs", "configurations"], "unit and non-unit quaternions including half-turns and near-identity ones, any angular velocity and vector, arguments up to saturation, any scaling and disabling history",
     "The tests compare single perturbations at a handful of random quaternions within loose tolerances and never saturate, rescale or disable the smoothers.",
     ["src/private/QuaternionUtils.cpp", "src/private/HyperbolicSecant.cpp", "src/private/HyperbolicTangent.cpp", "src/private/SmoothingFunction.cpp"],
     [("trivialised maps", "QuaternionLeftTrivializedDerivative and Inverse"), ("normalisation derivative", "NormalizedQuaternionDerivative"), ("smoothers", "HyperbolicSecant::evalDoubleDerivative, HyperbolicTangent::evalDoubleDerivative")],
     ["returned matrices and vectors"],
     "property-based testing: algebraic identities, round trips and exact difference quotients over generated quaternions",
     "Exploration: hundreds of thousands of generated quaternions and arguments per quick run.")

prop("C11", "levi", "Symbolic expressions evaluate and differentiate exactly, whenever asked",
     "For every expression graph built from variables, mutable and constant matrices with the library's operators (sums, products, divisions, powers, transposes, rows, columns, blocks, elements, skew and vee, horizontal and vertical composition, expressions used as variables, squeezed expressions), the declared size, the value, and the first and second column derivatives are those of the mathematical expression. "
     "This holds at every moment of any history of leaf changes, evaluations, copies, repeated differentiations and cache clearings, also for expressions and derivatives obtained before the changes and for groups squeezed together.",
     ["inputs", "histories"], "random expression graphs of up to fourteen nodes with shared subexpressions and random histories of changes, evaluations, differentiations, squeezing and cache clearing",
     "The tests evaluate a few fixed formulas; stale buffers and wrong derivatives appear only for particular graph shapes, sharing and evaluation orders.",
     ["extern/levi/include/levi/OperatorsEvaluables.h", "extern/levi/include/levi/AccessorEvaluables.h", "extern/levi/include/levi/AdvancedConstructors.h", "extern/levi/include/levi/Evaluable.h", "extern/levi/include/levi/Registrar.h"],
     [("operators and their derivatives", "levi::ProductEvaluable, DivisionEvaluable, PowEvaluable and the accessors"), ("evaluation registers", "levi::Registrar, Evaluable::evaluateID"), ("derivative buffer", "Evaluable::getColumnDerivative")],
     ["Expression::evaluate", "Expression::getColumnDerivative", "rows and cols", "isDependentFrom"],
     "property-based testing: random graphs and histories against hyper-dual reference arithmetic",
     "Exploration: a million graphs with histories per quick run.")

prop("C21", "visualizer", "What is shown and saved is the trajectory",
     "Once a model is set (only one is ever accepted), playing or saving states shows each state in order exactly once: the robot at its base pose and joints, an arrow for each non-zero contact force at its contact point and no other arrow, over the whole window or image, seen from the camera in force or the one given for that state. "
     "All states are shown when no end time is given (it is negative), and exactly those up to a positive end time otherwise; playing and saving keep the pace of the trajectory whatever drawing costs, and leave the camera where it was put. "
     "Saved images are numbered without gaps and are exactly those the movie is made of, at the rate the trajectory asks for; a receding-horizon animation shows the executed state on the left and each predicted state on the right. Whatever was shown before, with however many contact points, leaves no trace, and requests without a model or with mismatched sizes are refused without showing, saving or running anything.",
     ["inputs", "histories"], "histories of models, cameras, lights, played and saved trajectories of zero to a hundred states, and receding-horizon animations with any number of iterations and predicted states, with and without end time, with changing numbers of contact points and drawing costs",
     "No test calls the visualizer (it needs a display), and nothing checks what it shows.",
     ["src/Visualizer.cpp", "include/DynamicalPlanner/Visualizer.h"],
     [("state drawing", "Visualizer::VisualizerImplementation::updateViz"), ("playing", "Visualizer::visualizeStates"), ("saving", "Visualizer::visualizeStatesAndSaveAnimation, visualizeMPCStatesAndSaveAnimation")],
     ["what iDynTree::Visualizer is asked to draw and save", "started commands", "time between drawings", "return values"],
     "property-based testing: generated call histories against a model of the shown pictures, with a recording stand-in for the window and a virtual clock",
     "Exploration: 600,000 histories per quick run; trusts that iDynTree's visualizer paints what it is told.")

prop("C22", "logger", "A saved log is the run it was saved from",
     "For any settings, trajectories of states and controls, computation times and costs, with any number of joints and of contact points on each foot, the saved file holds under its documented name each quantity of each state and control in the column of its instant (positions and forces of every point, momentum, centre of mass, base position and quaternion, joints, times, and the corresponding controls), the times and costs in order, and every scalar, flag, name, weight, limit, point and formulation of the settings under the name of its field together with the robot model. "
     "What is absent is simply not in the file, and saving again under the same name replaces the earlier log without touching others.",
     ["inputs", "histories"], "random settings, zero to seven states and controls in any combination, one to five points per foot (also different on the two feet), repeated saving to the same and to different files",
     "The logger test saves one run and never reads it back (and cannot be built without matioCpp).",
     ["src/Logger.cpp", "include/DynamicalPlanner/Logger.h"],
     [("trajectories", "Logger::saveSolutionVectorsToFile"), ("settings", "populateSettingsStruct")],
     ["variables written to the file"],
     "property-based testing: generated logs read back from a recording stand-in for the file library",
     "Exploration: 150,000 generated sequences of logs per quick run; trusts that matioCpp writes what it is given (it is not in this sandbox).")

prop("C20", "containers", "Variable labels and state and control containers stay consistent",
     "At every moment of any history of additions, writes, assignments, clears and copies, the labeller partitions its vector into the labels in order of addition: ranges are contiguous and of the requested size, a repeated label is refused without effect, unknown labels give invalid ranges and empty segments, and reading or writing through a label, a range or an index shows the same vector. "
     "State and control containers have exactly the sizes they were asked for, notice any size mismatch (also on one foot only), start from zero and can be zeroed completely; constant references return their state or control at any time. For any contact points the feet centroid is their mean, and along any direction the forward foot and the smallest force norm on it are reported correctly.",
     ["inputs", "histories"], "random operation sequences on the labeller against a reference map, containers of every combination of joint and point counts, feet placed anywhere",
     "The test performs one fixed sequence of additions and writes.",
     ["src/private/VariablesLabeller.cpp", "src/State.cpp", "src/Control.cpp"],
     [("label ranges", "VariablesLabeller::addLabelAndGetIndexRange"), ("container sizing", "State::resize, Control::resize, checkSize")],
     ["label ranges", "segments", "container contents"],
     "property-based testing: stateful model-based histories",
     "Exploration: over a hundred thousand histories per quick run.")

prop("C18", "initial", "Default initial states stand still on the ground",
     "For every valid robot, joint configuration and pair of feet, the default initial state has the left sole at the origin, a centre of mass, base pose and contact points consistent with the robot's kinematics, no momentum, and vertical non-pulling contact forces that carry exactly the weight; with parallel soles they give no pitch moment about the centre of mass, and no roll moment when the centre of mass lies between the feet. "
     "Grounding a state moves the base only vertically, by the height of the lowest contact point, so that this point ends on the ground, and makes centre of mass and contact points consistent while leaving everything else as it was. "
     "Settings that were never accepted, unset feet, joint configurations of the wrong size and a number of points different from that of the feet are refused.",
     ["inputs", "configurations"], "random robots with random foot frames, base links, joint configurations, foot rectangles, initial heights from far below to far above the ground, and arbitrary earlier contents of the state",
     "Only the solver test calls these helpers, for one robot and posture, and checks nothing but their return value.",
     ["src/Utilities.cpp"],
     [("weight sharing between feet", "Utilities::FillDefaultInitialState"), ("grounding recursion", "Utilities::SetMinContactPointToZero_impl")],
     ["State fields", "return values"],
     "property-based testing: generated robots against independent kinematics and static equilibrium",
     "Exploration: tens of thousands of generated robots and states per quick run; trusts iDynTree's kinematics.")

prop("C19", "references", "References, guesses and walking plans follow their definition over time",
     "At every time the position reference is the position of the last element whose range contains that time and its weight grows from one over that range as the squared linear factor of each axis, both zero when no element is active, through any history of resizing and rewriting the elements, and always finite. "
     "The translating guess moves base and contact points with its centre-of-mass reference, keeps orientation, joints and forces, has no momentum, carries the requested time and is invalid exactly when its reference is. Exponential weights follow their formula. "
     "The walking state machine always has the start plus a whole number of increments as target, plans the next step exactly one increment ahead only when the current one is done in the future or overdue, makes it only after it was planned and never while the front foot is not loaded early in the step, and shifts its time ranges with the elapsed time; inconsistent descriptions are refused.",
     ["inputs", "histories"], "random element lists with overlapping, instantaneous and unlimited ranges, queries before, inside and after them, moving references that may be unavailable, and walking histories of up to forty advances with random progress, loading and timing",
     "No test checks the references, guesses or the state machine; the solver tests only use them as inputs.",
     ["src/PositionReferenceGenerator.cpp", "src/Utilities.cpp"],
     [("active element lookup", "PositionReference::get, TimeVaryingWeight::get"), ("guess", "TranslatingCoMStateGuess::get"), ("state machine", "SimpleWalkingStateMachine::advance")],
     ["returned positions and weights", "guess state", "reference ranges and targets"],
     "property-based testing: stateful histories against a reference model",
     "Exploration: hundreds of thousands of histories per quick run.")

prop("C01", "contacts", "Contact constraints accept exactly what the contact model allows",
     "For every contact point, force, velocity, force rate and smoothing, the contact constraints (friction cone, the classical, planar and dynamical complementarities, force-rate control, normal and planar velocity control, feet relative height, quaternion norm) evaluate to the documented expression of that point's own variables with the documented bounds, for every number of points, whichever foot and index. "
     "Consequently forces outside the cone, forces at a distance, sliding under load, sideways or downward motion of points on the ground, and force growth faster than allowed are refused, and their admissible counterparts are accepted. "
     "Changed friction coefficients and tolerances take effect at once and invalid ones are refused without effect.",
     ["inputs", "configurations", "histories"], "one to eleven points per foot, both feet, any index, any force, position, velocity and rate, any smoothing factor and bound, points revisited in any order",
     "The tests compare derivatives at one random point for one fixed setup and never evaluate the constraints against the contact model.",
     ["src/private/ContactFrictionConstraint.cpp", "src/private/ContactForceControlConstraints.cpp", "src/private/NormalVelocityControlConstraints.cpp", "src/private/PlanarVelocityControlConstraints.cpp", "src/private/DynamicalComplementarityConstraint.cpp", "src/private/ClassicalComplementarityConstraint.cpp", "src/private/ClassicalPlanarComplementarityConstraint.cpp", "src/private/FeetRelativeHeightConstraint.cpp", "src/private/QuaternionNormConstraint.cpp"],
     [("constraint values", "evaluateConstraint of each class"), ("bounds", "constructors and setEqualityTolerance, setFrictionCoefficient")],
     ["evaluateConstraint", "getLowerBound and getUpperBound", "acceptance of generated contact states"],
     "property-based testing: generated contact states against a reference model of each constraint and against physical acceptance",
     "Exploration: 140,000 generated contact states per quick run, two orders of magnitude more in thorough; trusts iDynTree vectors and Eigen.")

prop("C05", "taskcosts", "Task costs measure the task they are named after",
     "Every cost on contact points, feet and joints (force mean, force ratio, phantom forces, swing height, complementarity, foot yaw, feet distance, mean point position, joint velocities for a posture) evaluates to the documented expression of its own variables at the given time, with references and weights that vary over time. "
     "It is zero when and only when the task is met, never negative for non-negative weights, and grows as the state moves away from the task. "
     "References, ratios and weights changed later take effect at once and invalid ones are refused.",
     ["inputs", "configurations", "histories"], "one to eleven points per foot, both feet, constant and time-varying references and weights, task met or missed by a generated amount, references changed between evaluations",
     "The tests only check that the derivatives of a few costs are consistent with their values at one point; a cost that measures the wrong task passes.",
     ["src/private/ForceMeanCost.cpp", "src/private/ForceRatioCost.cpp", "src/private/PhantomForcesCost.cpp", "src/private/SwingCost.cpp", "src/private/ComplementarityCost.cpp", "src/private/FootYawCost.cpp", "src/private/FeetDistanceCost.cpp", "src/private/MeanPointPositionCost.cpp", "src/private/JointsVelocityForPosturalCost.cpp"],
     [("cost values", "costEvaluation of each class"), ("references", "the set* methods of each class")],
     ["costEvaluation", "return values of the setters"],
     "property-based testing: generated states and references against reference cost formulas and task-met/task-missed pairs",
     "Exploration: 140,000 generated evaluations per quick run; trusts iDynTree vectors and Eigen.")

prop("C03", "pointderivatives", "Contact and point-cost derivatives are the true derivatives",
     "At every state, control and time, the first derivatives that the contact constraints and the costs on points, feet and joints hand to the optimizer are the derivatives of their values, and the second derivatives, contracted with any multipliers, are the derivatives of the first ones and symmetric. "
     "Every non-zero entry lies in the sparsity pattern that the term declares, for all five derivative blocks.",
     ["inputs", "configurations"], "every constraint and cost kind on points, any number of points, foot and index, any smoothing, references and multipliers, all directions in state and control space",
     "The tests perturb each variable once at a single random point with a loose tolerance; second derivatives of saturated, scaled or off-reference terms are not reached, nor are other indexes.",
     ["src/private/PlanarVelocityControlConstraints.cpp", "src/private/NormalVelocityControlConstraints.cpp", "src/private/ContactForceControlConstraints.cpp", "src/private/DynamicalComplementarityConstraint.cpp", "src/private/PhantomForcesCost.cpp", "src/private/ForceRatioCost.cpp", "src/private/FootYawCost.cpp", "src/private/SwingCost.cpp"],
     [("first derivatives", "constraintJacobianWRT*, costFirstPartialDerivativeWRT*"), ("second derivatives", "constraintSecondPartialDerivativeWRT*, costSecondPartialDerivativeWRT*"), ("declared sparsity", "the *Sparsity methods")],
     ["derivative matrices", "declared sparsity patterns"],
     "property-based testing: extrapolated finite differences with error estimates along generated directions, mask inclusion",
     "Exploration: 120,000 generated differentiations per quick run; components whose difference quotients do not converge are counted and not judged.")

prop("C08", "pointhistory", "Contact and point-cost answers do not depend on what was asked before",
     "Every value, first derivative and second derivative of a contact constraint or of a cost on points, feet and joints is a function of the time, state, control and multipliers of that query alone: any order of value and derivative queries, at points that move wholly, partly or not at all, gives what a freshly created term gives, in buffers that are reused without being cleared.",
     ["histories"], "sequences of value and derivative queries on one object with settings that change in between, at points that change wholly, in single components, or not at all, with time-varying references",
     "The tests query each quantity once or in one fixed order, so a stale cached state or an uncleared buffer entry is never seen.",
     ["src/private/PlanarVelocityControlConstraints.cpp", "src/private/ContactForceControlConstraints.cpp", "src/private/ForceRatioCost.cpp", "src/private/MeanPointPositionCost.cpp", "src/private/FootYawCost.cpp"],
     [("cached variables", "the updateVariables or stateVariables members of each term"), ("reused buffers", "the derivative methods of each term")],
     ["values and derivatives of a used object against a fresh one"],
     "property-based testing: generated query histories, differential against a fresh object",
     "Exploration: 60,000 histories per quick run.")

prop("C02", "dynamics", "The transcribed dynamics is the dynamics of the robot",
     "At every state, control and time, the dynamics gives each state variable its documented rate: contact positions follow their velocity controls, horizontally only as far as the height smoothing allows; forces follow their rates, normal force growing only on the ground and dissipating away from it; momentum changes by gravity and the contact wrench about the centre of mass; the centre of mass follows momentum over mass; base and joints follow their velocities. "
     "Turning and shifting everything about the vertical turns the rates likewise. First derivatives are those of the rates, second derivatives those of the first ones for any multipliers, non-zeros stay inside the declared sparsity, and no answer depends on earlier queries or on other terms sharing the services.",
     ["inputs", "configurations", "histories"], "random robots, one to eight points per foot, non-unit base quaternions, any smoothing (also disabled) and dissipation, any multipliers, histories of queries interleaved with another term",
     "The test compares derivatives once at one random point; a wrong rate with consistent derivatives passes, and sparsity and history effects need particular sequences and entries.",
     ["src/private/DynamicalConstraints.cpp", "src/private/ExpressionsServer.cpp", "src/private/QuaternionUtils.cpp"],
     [("rates", "DynamicalConstraints::dynamics"), ("derivatives", "DynamicalConstraints::dynamicsStateFirstDerivative, dynamicsSecondPartialDerivativeWRTState"), ("sparsity", "DynamicalConstraints::Implementation::setSparsity"), ("shared robot state", "ExpressionsServer::updateRobotState")],
     ["dynamics", "state and control derivatives", "second derivatives", "declared sparsity"],
     "property-based testing: reference rates, symmetry relation, extrapolated finite differences, histories against fresh objects",
     "Exploration: 4,600 generated dynamics evaluations and histories per quick run (each builds a robot and its expressions); finite-difference components that do not converge are not judged.")

prop("C04", "bodyterms", "Whole-robot constraints and costs measure the robot's kinematics",
     "For every robot, state, control and time, the whole-robot terms evaluate to their documented expression of the robot's real kinematics: angular momentum, centre of mass and contact points minus the corresponding variables, lateral distance of the feet in the reference foot, centre-of-mass momentum error, angular velocity and orientation error of a frame, and joint torques that hold the posture against gravity and contact forces. "
     "Postures consistent with the kinematics satisfy the kinematic constraints with their bounds, and displaced ones are refused by exactly the displacement. Base orientation is that of the normalised quaternion and body and frame velocities include the base motion.",
     ["inputs", "configurations"], "random robots with offset frames on any link, non-unit base quaternions, any velocities, moving references, tolerances and weights, one to three terms sharing the kinematics services at related points and different times",
     "The tests only compare derivatives with values at one point of one model; a term that consistently measures the wrong quantity passes.",
     ["src/private/CentroidalMomentumConstraint.cpp", "src/private/CoMPositionConstraint.cpp", "src/private/ContactPositionConsistencyConstraint.cpp", "src/private/FeetLateralDistanceConstraint.cpp", "src/private/CoMVelocityCost.cpp", "src/private/FrameAngularVelocityCost.cpp", "src/private/FrameOrientationCost.cpp", "src/private/StaticTorquesCost.cpp", "src/private/ExpressionsServer.cpp"],
     [("term values", "evaluateConstraint and costEvaluation of each class"), ("robot state", "updateRobotState of each class and ExpressionsServer::updateRobotState")],
     ["evaluateConstraint", "costEvaluation", "getLowerBound and getUpperBound"],
     "property-based testing: differential against freshly configured iDynTree kinematics, consistent and displaced postures",
     "Exploration: 2,800 generated robots and postures per quick run; trusts iDynTree.")

prop("C06", "bodyderivatives", "Derivatives of the whole-robot terms are the true derivatives",
     "At every state, control and time, the first derivatives of the whole-robot constraints and costs (centroidal momentum, centre of mass, contact position, feet lateral distance, centre-of-mass velocity, frame orientation and angular velocity, static torques) are the derivatives of their values with respect to every state and control variable including the non-normalised base quaternion; their second derivatives, contracted with any multipliers, are the derivatives of the first ones and symmetric (static torques provide none). "
     "Every non-zero entry lies in the sparsity pattern the term declares.",
     ["inputs", "configurations"], "random robots with offset frames on any link, every term kind, random frames, references, weights and multipliers, all directions in state and control space",
     "The tests perturb each variable once at a single point of one model with loose tolerances; frames with an offset, rotated frames and other models are not reached.",
     ["src/private/CentroidalMomentumConstraint.cpp", "src/private/CoMPositionConstraint.cpp", "src/private/ContactPositionConsistencyConstraint.cpp", "src/private/FeetLateralDistanceConstraint.cpp", "src/private/CoMVelocityCost.cpp", "src/private/FrameAngularVelocityCost.cpp", "src/private/FrameOrientationCost.cpp", "src/private/StaticTorquesCost.cpp", "src/private/AdjointTransformExpression.cpp", "src/private/TransformExpression.cpp", "src/private/QuaternionErrorExpression.cpp"],
     [("first derivatives", "constraintJacobianWRT*, costFirstPartialDerivativeWRT*"), ("second derivatives", "constraintSecondPartialDerivativeWRT*, costSecondPartialDerivativeWRT*"), ("expression derivatives", "getNewColumnDerivative of the kinematic expressions"), ("declared sparsity", "the *Sparsity methods")],
     ["derivative matrices", "declared sparsity patterns"],
     "property-based testing: extrapolated finite differences with error estimates along generated directions, mask inclusion",
     "Exploration: 3,000 generated robots per quick run; components whose difference quotients do not converge are counted and not judged.")

prop("C07", "bodyhistory", "Whole-robot answers do not depend on what was asked before",
     "Every value, first and second derivative of a whole-robot constraint or cost is a function of the time, state, control and multipliers of that query alone: whatever this term and the other terms that share its kinematics and expression services were asked before, at points that move wholly, partly or not at all and at any time, the answer is that of a term created afresh with services of its own.",
     ["histories"], "sequences of value and derivative queries on up to three terms sharing one kinematics pool and expression server, at points that change wholly, in single components, or not at all, at changing times",
     "The tests query each term once, alone and at one point; stale state shared through the services needs particular interleavings and partial changes.",
     ["src/private/ExpressionsServer.cpp", "src/private/SharedKinDynComputations.cpp", "src/private/TimelySharedKinDynComputations.cpp", "src/private/FrameAngularVelocityCost.cpp", "src/private/CentroidalMomentumConstraint.cpp", "src/private/FrameOrientationCost.cpp"],
     [("cached robot state", "sameVariables and updateRobotState of each term"), ("shared expressions", "ExpressionsServer caches"), ("shared kinematics", "TimelySharedKinDynComputations::get")],
     ["values and derivatives of used terms with shared services against fresh ones"],
     "property-based testing: generated interleaved query histories, differential against fresh objects",
     "Exploration: 700 interleaved histories of shared terms per quick run.")

prop("C12", "compiled", "Compiled expressions compute what the expression computes",
     "Turning an expression into generated code that is compiled and loaded (compile), alone or as a named group (CompileMultipleExpressions), preserves its meaning: whatever the nesting and sharing of sums, products, divisions, negations, powers, selections and compositions, whatever the sizes including 1x1, and whatever name is given (one not used before), the generated code compiles, has the size of the expression, and gives its value at every later moment, following the changes of the leaves, also when used inside a larger expression. "
     "In a group every output carries the value of the expression registered under that name. "
     "This includes compiled derivatives and exponents that have no short decimal form.",
     ["inputs", "histories"], "random expression graphs of up to twenty-two nodes rich in nested scalar and matrix arithmetic with repeated subexpressions, one to six compiled together, followed by histories of leaf changes; arbitrary names",
     "The one test compiles a single rotation formula and its derivatives; operator precedence, repeated subexpressions, 1x1 selections and names decide the generated text only for other shapes.",
     ["extern/levi/include/levi/AutogeneratedHelper.h", "extern/levi/include/levi/MultipleCompiledExpressions.h", "extern/levi/include/levi/AutogeneratedEvaluable.h", "extern/levi/include/levi/TreeExpander.h"],
     [("literal of every operation and extraction of repeated subexpressions", "levi::AutogeneratedHelper::expandElement, getScalarVariables, getCommonSubExpression"), ("group outputs", "levi::MultipleCompiledExpressions"), ("compiled evaluable", "levi::AutogeneratedEvaluable::evaluate")],
     ["value of the compiled expressions", "rows and cols"],
     "property-based testing: differential test of the generated, compiled and loaded code against reference arithmetic over random graphs and histories",
     "Exploration: about two thousand generated libraries per quick run (each needs a compiler run); generated code is compiled without optimisation; names are used once per process.")

prop("C13", "server", "Shared kinematic expressions follow the state and differentiate exactly",
     "Whatever was updated, requested or cleared before, in whichever order and at whichever of the set times, every expression obtained from the expression server (base pose and twist, centre of mass, relative transforms, adjoints, quaternions, Jacobians and velocities between any frames, absolute velocities, link and composite inertias, momentum, quaternion errors, motion subspaces) evaluates to that quantity of the robot model for the state last given or selected by time, "
     "and its first and second derivatives with respect to every state variable are the derivatives of that quantity. Each request is answered for exactly the frames, joints, links and variables it names, whatever those names are.",
     ["inputs", "configurations", "histories"], "random trees of one to fourteen joints with any floating base, offset frames and names whose concatenations coincide, non-unit quaternions, several times, updates through the server or through the shared kinematics, any pair of derivative variables",
     "The tests check single expressions of one model at one random state with loose tolerances; stale variables and confused labels need particular histories and names.",
     ["src/private/ExpressionsServer.cpp", "src/private/AdjointTransformExpression.cpp", "src/private/RelativeJacobianExpression.cpp", "src/private/RelativeVelocityExpression.cpp", "src/private/AbsoluteVelocityExpression.cpp", "src/private/RelativePositionExpression.cpp", "src/private/RelativeQuaternionExpression.cpp", "src/private/CoMInBaseExpression.cpp", "src/private/MomentumInBaseExpression.cpp", "src/private/QuaternionErrorExpression.cpp", "src/private/TransformExpression.cpp"],
     [("selection of the state", "ExpressionsServer::updateRobotState"), ("expression caches", "the maps of ExpressionsServer::Implementation"), ("derivatives", "getNewColumnDerivative of each kinematic expression")],
     ["evaluate", "getColumnDerivative"],
     "property-based testing: stateful histories against elementary spatial algebra on plain iDynTree, extrapolated finite differences",
     "Exploration: 150,000 generated servers per quick run; trusts iDynTree's forward kinematics and Jacobians.")

prop("C16", "ocp", "Derivatives handed to the optimiser are those of its problem",
     "For every valid planning problem and every trajectory, the cost gradient, constraint Jacobian and Hessians the optimiser obtains from the planner are the derivatives of the cost and of the constraints it obtains there, with respect to every variable other than the fixed initial state and up to the diagonal regularisation the settings ask for; Hessians are symmetric, and no non-zero lies outside the sparsity pattern the optimiser is told. "
     "Every answer is a function of the trajectory alone, whatever trajectories and quantities the optimiser asked for before.",
     ["inputs", "configurations", "histories"], "random robots and planning problems (every formulation, up to four costs, several steps, both integrators), arbitrary trajectories, variations of everything, of one instant or of single quantities, random multipliers, and random orders of repeated queries",
     "The tests differentiate single constraints and costs; the joint problem, where all terms share one kinematics pool and expression server over several instants, is only ever passed to Ipopt, whose convergence does not reveal a wrong derivative.",
     ["src/Solver.cpp", "src/private/DynamicalConstraints.cpp", "src/private/ExpressionsServer.cpp", "src/private/TimelySharedKinDynComputations.cpp", "src/private/SharedKinDynComputations.cpp", "src/private/HyperbolicTangent.cpp"],
     [("assembled problem", "Solver::Implementation::setCosts, setConstraints, specifySettings"), ("shared services", "TimelySharedKinDynComputations::get, ExpressionsServer"), ("dynamics derivatives", "DynamicalConstraints")],
     ["cost gradient, constraint Jacobian and Hessians of the optimisation problem handed to iDynTree::optimization::Optimizer", "its declared sparsity"],
     "property-based testing: extrapolated finite differences along generated variations, mask inclusion, query histories against fresh planners",
     "Exploration: 500 generated planning problems per quick run; difference quotients that do not converge are counted and not judged; the derivatives with respect to the fixed initial state are not judged.")

prop("C17", "solver", "The optimiser gets the problem the settings describe and its answer is kept",
     "For every valid description of a planning problem and every history of calls on a planner, the problem its optimiser is handed is the one the accepted settings, the last initial state and the last guesses describe: the first instant is the initial state, the instants respect horizon, step and control period and start at the initial time, each variable has the bounds its setting gives it at its instant, "
     "the cost of any trajectory is the sum of exactly the enabled costs with their weights, references and active ranges, consecutive instants are tied by the dynamics of the robot model with the chosen floating base and gravity, and every instant carries exactly the constraints of the chosen complementarity formulation and tolerances. "
     "The guesses reach the optimiser at the instants they are for, and the plan returned holds at each instant the values the optimiser found. What was refused is not used, and a solve that fails returns nothing as its plan.",
     ["inputs", "configurations", "histories"], "random robots, every combination of enabled costs and formulations with random parameters, initial times, guesses, optimisers with different infinities, both integrators and arbitrary trajectories",
     "The solver tests run the optimiser on one configuration starting at time zero and look only at whether it converges; which cost, weight, bound or reference reaches the optimiser is never observed.",
     ["src/Solver.cpp", "src/private/DynamicalConstraints.cpp", "src/private/TimelySharedKinDynComputations.cpp", "src/Settings.cpp"],
     [("assembly of costs, constraints and dynamics", "Solver::Implementation::setCosts, setConstraints, specifySettings"), ("bounds", "Solver::Implementation::setBounds, VariableBound"), ("guesses and answers", "StateGuesses, ControlGuesses, fillSolutionVectors")],
     ["values, bounds and guesses of the optimisation problem handed to iDynTree::optimization::Optimizer", "plans returned by solve"],
     "property-based testing: a probing optimiser evaluates the problem it is handed at generated trajectories against an independent reading of the settings",
     "Exploration: hundreds of generated planning problems per quick run; trusts iDynTree's transcription for its memory safety and the choice of instants within the step limits.")
