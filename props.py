"""The properties (source of properties.jsonl) and what is not claimed."""


def q(over, text):
    return {"over": over, "text": text}


def anch(files, *mech):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}


I = "include/state-observation/"
PROPS = [
    dict(id="P01", title="Everything the public headers declare can be used",
         statement="Every function and member function declared in the library's public headers is defined, so that a program "
                   "calling it with arguments of the declared types compiles, links and runs the code of the library. Every "
                   "public header compiles on its own and in any number of translation units of one program, and every member of the library's own class "
                   "templates can be instantiated.",
         quantifier=q(["programs"], "for every program that includes public headers and calls what they declare"),
         why_tests_cant="A test only links the functions it calls; a declaration without definition, a template member that never "
                        "compiled or a header that is not self-contained shows only in the program that uses it.",
         anchors=anch([I + "tools/*.hpp", I + "observer/*.hpp", "src/*.cpp"],
                      ("declaration/definition pairing", "all headers of include/state-observation and src/*.cpp")),
         note="Exhaustive over the declarations of the public headers; trusts clang's name resolution. Templates are "
              "instantiated with the types the library uses."),
    dict(id="P02", title="Debug and release builds compute the same thing",
         statement="Compiling with assertions disabled changes nothing but the checks themselves: no assertion has an effect that "
                   "the program depends on, and no statement that affects a result is present in only one of the two builds.",
         quantifier=q(["configurations", "inputs"], "for every input on which no assertion fails, in builds with and without NDEBUG"),
         why_tests_cant="The tests run in one configuration only; the other one is what is deployed on robots.",
         anchors=anch(["src/*.cpp", I + "tools/definitions.hpp"],
                      ("BOOST_ASSERT conditions and NDEBUG regions", "whole library"),
                      ("DebugItem / CheckedItem", I + "tools/definitions.hpp")),
         note="Every assertion condition is shown free of writes (transitively through called functions); the ASTs of the two "
              "configurations are compared function by function. Assumes assertions hold (a failing assertion ends the program)."),
    dict(id="P03", title="Instances are independent of each other, copies included",
         statement="Two estimators, models or sensors never influence each other: no function of the library keeps mutable data "
                   "outside the objects it is called on (the documented shared random generator excepted). An object that can be "
                   "copied carries all its data into the copy, and the copy does not use the internals of the original.",
         quantifier=q(["histories", "programs"], "for every interleaving of calls on any number of instances and copies of them"),
         why_tests_cant="Tests use one instance of each class at a time and never copy an estimator.",
         anchors=anch(["src/*.cpp", I + "observer/kalman-filter-base.hpp", I + "tools/probability-law-simulation.hpp"],
                      ("storage with static duration", "whole library"),
                      ("self-referring members", "KalmanFilterBase arithmetics, KineticsObserver filter functor")),
         note="Exhaustive over variables with static storage and over classes whose members can point into the object itself; "
              "user-written copy operations must transfer every member. Assumes user-supplied functors do not share state."),
    dict(id="P04", title="Queries change nothing",
         statement="Asking an object for something never changes what any later operation computes: a const member function writes "
                   "nothing of its object and no global data, and what a non-const query (Jacobians by finite differences, predictions, "
                   "predicted measurements, indexes and sizes) stores is used by no other operation, the last prediction and the last predicted measurement "
                   "excepted. Getters documented to run the pending estimations or simulations are steps and not queries.",
         quantifier=q(["histories"], "for every query inserted at any point of any history of operations"),
         why_tests_cant="Tests call queries at the end of a run; a query that disturbs the estimator only shows in what is estimated after it.",
         anchors=anch(["src/extended-kalman-filter.cpp", "src/kinetics-observer.cpp", "src/imu-mltpctive-dynamical-system.cpp", I + "tools/rigid-body-kinematics.hxx"],
                      ("const member functions", "whole library"),
                      ("non-const queries", "ExtendedKalmanFilter::getAMatrixFD/getCMatrixFD, EKFFlexibilityEstimatorBase::getPrediction, KineticsObserver")),
         note="Transitive effect analysis of every public member function; the conversion memo inside orientations is P08."),
    dict(id="P05", title="Model evaluation depends only on its arguments and the configuration",
         statement="Evaluating the process or the measurement model of a dynamical system, without attached noise, returns a value determined by the "
                   "given state, input and time and by the configuration of the model: it never depends on which evaluations "
                   "were made before, and it modifies neither its arguments nor anything outside the model.",
         quantifier=q(["histories", "inputs"], "for every sequence of earlier evaluations, in particular those of finite differences"),
         why_tests_cant="Tests evaluate models along one trajectory; a stale intermediate result shows only for particular orders "
                        "of evaluations.",
         anchors=anch(["src/imu-dynamical-system.cpp", "src/imu-elastic-local-frame-dynamical-system.cpp", "src/algebraic-sensor.cpp",
                       "src/imu-fixed-contact-dynamical-system.cpp", "src/kinetics-observer.cpp"],
                      ("scratch members and keyed memos of the models", "stateDynamics / measureDynamics of every model class"),
                      ("measurement caches", "src/algebraic-sensor.cpp")),
         note="Interprocedural must-write/upward-exposed-read analysis of every model class; memos are validated structurally. "
              "A frozen table names the scratch arrays written element by element, which are trusted."),
    dict(id="P06", title="An estimation step uses the data in force and nothing left over",
         statement="A step of a filter computes its estimate from the last estimate and covariance and from the inputs, measurements, "
                   "model, transition and measurement matrices and noise covariances in force when it is made: each of these is used, and no intermediate result of an "
                   "earlier step or query enters the estimate. After the step the exposed results (estimate, covariance, prediction, "
                   "predicted measurement, innovation, gain) are those of this step.",
         quantifier=q(["histories"], "for every history of steps, predictions, Jacobian computations, resizes and setter calls before the step"),
         why_tests_cant="Tests run one filter forward with constant data; an estimation from stale intermediate results shows only "
                        "when data is replaced between particular calls.",
         anchors=anch(["src/kalman-filter-base.cpp", "src/extended-kalman-filter.cpp", "src/linear-kalman-filter.cpp", "src/tilt-estimator.cpp"],
                      ("recursive step", "KalmanFilterBase::oneStepEstimation_, TiltEstimator::oneStepEstimation_"),
                      ("predictions and finite differences", "src/extended-kalman-filter.cpp, src/linear-kalman-filter.cpp")),
         note="Transitive upward-exposed-read / must-write summaries of the steps. Models are taken as pure (P05) and user-supplied "
              "state arithmetics as writing their output wholly."),
    dict(id="P07", title="No operation reads a value that was never given",
         statement="No function of the library uses the value of a variable, vector or matrix element that has not been given one: local "
                   "variables are wholly assigned before they are read on every path, and a data member read by an operation of a freshly constructed object "
                   "was given a value by the constructor used. A user therefore never gets results that depend on the former content of the memory.",
         quantifier=q(["inputs", "histories", "configurations"], "for every path through every function and every first operation after every constructor"),
         why_tests_cant="An uninitialised read gives a plausible value most of the time, in particular zero in fresh memory, and the tests take few of the paths.",
         anchors=anch(["src/*.cpp", I + "tools/*.hpp", I + "tools/*.hxx"],
                      ("local variables declared without value, matrices given a size only", "whole library"),
                      ("constructors and members", "all classes of include/state-observation")),
         note="Definite-assignment dataflow with cell coverage of fixed-size matrices. Vectors of variable size filled by consecutive "
              "segments are the subject of the layout properties; reads behind a container element are not followed."),
    dict(id="P08", title="The two representations of an orientation denote the same rotation",
         statement="An orientation object holds a rotation matrix, a quaternion or both: whatever operations were applied to it, "
                   "all representations it holds denote the same rotation, and one that is out of date is never used or returned. Setting, composition, "
                   "inversion, integration of an increment, its converse (the increment from one orientation to another), rotation of a vector, conversion and synchronisation give the same rotation whichever "
                   "representations the operands hold.",
         quantifier=q(["histories", "inputs"], "for every operation and every combination of representations held by its operands"),
         why_tests_cant="There are three holdings per operand and a test compares the value through one representation only; a stale second "
                        "representation is noticed operations later.",
         anchors=anch([I + "tools/rigid-body-kinematics.hpp", I + "tools/rigid-body-kinematics.hxx"],
                      ("class Orientation", I + "tools/rigid-body-kinematics.hxx"),
                      ("presence flags", "CheckedItem, " + I + "tools/definitions.hxx")),
         note="Exhaustive over operations and holdings; rotations are abstracted to their frame types, the numerical content of the "
              "elementary conversions (rotation vector, angle-axis, Euler angles) is trusted. The functions documented as unsafe are excluded."),
    dict(id="P09", title="Kinematics operations derive each quantity from the right ones",
         statement="Composition, inversion, integration over a time step, update from a new sample and conversion to or from a vector of "
                   "rigid-body kinematics never use a quantity that is not set, and set exactly the requested quantities that can be derived. "
                   "Each derived position, orientation, velocity or acceleration is made of the quantities rigid-body mechanics call for, with their signs, factors, powers of the time step and frames: "
                   "transport, Coriolis and centripetal terms included; the vector form holds the requested quantities contiguously in the documented order.",
         quantifier=q(["inputs", "configurations"], "for every combination of quantities set in the operands and of quantities requested"),
         why_tests_cant="There are thousands of combinations of set and requested quantities; tests compose complete kinematics and a wrong term in a partial case, or a value left over from an earlier use, goes unseen.",
         anchors=anch([I + "tools/rigid-body-kinematics.hpp", I + "tools/rigid-body-kinematics.hxx"],
                      ("Kinematics::setToProductNoAlias, getInverse, integrate, update, toVector, fromVector", I + "tools/rigid-body-kinematics.hxx"),
                      ("flags of set quantities", "CheckedItem, " + I + "tools/definitions.hxx")),
         note="Exhaustive over the combinations; values are abstracted to their provenance (products of input quantities with multiplicity, "
              "time-step power and frame): the direction of a vector inside a product of more than two is forgotten. Accessors are trusted to return what is stored (P08 for orientations)."),
    dict(id="P10", title="Rigid-body helper functions combine the right quantities",
         statement="The free helper functions that integrate or differentiate positions and orientations, convert poses between homogeneous matrix "
                   "and six-dimensional vector, invert a pose or a complete motion state, give the motion of a body with a fixed point and build the cross-product matrix compute each "
                   "output from the arguments rigid-body mechanics call for, with their signs, factors, powers of the time step, frames and places, for all their overloads.",
         quantifier=q(["inputs"], "for every overload and every argument value"),
         why_tests_cant="Tests check few overloads at generic points with tolerances that hide second-order terms.",
         anchors=anch([I + "tools/rigid-body-kinematics.hxx", I + "tools/miscellaneous-algorithms.hpp"],
                      ("integrateKinematics, derivate*, invertState, invertHomoMatrix, fixedPointRotationToTranslation, skewSymmetric, homogeneousMatrixToVector6", I + "tools/rigid-body-kinematics.hxx")),
         note="Provenance domain of P09. Elementary conversions between rotation vector, matrix and quaternion are trusted; helpers working on trajectories are not covered."),
    dict(id="P11", title="A filter step computes the Kalman equations",
         statement="After an estimation step, the linear and the extended Kalman filter expose the prediction, predicted measurement, innovation, gain, estimate "
                   "and covariance given by the Kalman equations applied to the previous estimate and covariance, the transition and measurement "
                   "matrices and noise covariances in force, the input of the previous time and the measurement of the new time; the current time advances by one. "
                   "Jacobians by finite differences are, column by column, the difference of the model values at the state moved along one tangent direction and at the state, divided by the increment.",
         quantifier=q(["inputs", "configurations"], "for every model, dimension, with and without inputs and direct transition, and every value of the matrices"),
         why_tests_cant="With a wrong covariance update or a swapped noise matrix a filter still converges, only less well, so the tolerances of the tests do not notice.",
         anchors=anch(["src/kalman-filter-base.cpp", "src/linear-kalman-filter.cpp", "src/extended-kalman-filter.cpp"],
                      ("recursive step", "KalmanFilterBase::oneStepEstimation_"),
                      ("prediction and simulated measurement", "src/linear-kalman-filter.cpp, src/extended-kalman-filter.cpp"),
                      ("finite differences", "ExtendedKalmanFilter::getAMatrixFD, getCMatrixFD")),
         note="Matrix expressions are compared modulo associativity, distributivity, transposition, symmetry of the covariances and inverse; rounding, "
              "conditioning and the choice of the decomposition are not judged."),
    dict(id="P12", title="Sensor and motion models compute what rigid-body mechanics give",
         statement="The accelerometer, gyrometer and magnetometer (quaternion or matrix mode, with or without concatenated input), the inertial motion models, the "
                   "fixed-contact flexibility models for any number of contacts, the bidimensional inverted pendulum and the tilt estimator step give, cell for cell, the "
                   "measurement, next state, Jacobian or state arithmetics of rigid-body mechanics for the arguments and configuration in force. "
                   "Sensors measure gravity plus acceleration, angular velocity and magnetic field in their own frame; free motion integrates position to second order and rotates "
                   "the orientation by the integrated angular velocity; the result of an evaluation depends on no earlier evaluation; noise is applied once, to the result, when one is set.",
         quantifier=q(["inputs", "configurations", "histories"], "for every state, input, sampling period and parameter value, every mode, and evaluations in every order"),
         why_tests_cant="The tests run these models inside a filter that uses the same model on both sides, so a wrong term cancels.",
         anchors=anch(["src/algebraic-sensor.cpp", "src/accelerometer-gyrometer.cpp", "src/accelerometer-gyrometer-magnetometer.cpp", "src/imu-dynamical-system.cpp",
                       "src/imu-mltpctive-dynamical-system.cpp", "src/imu-magnetometer-dynamical-system.cpp", "src/imu-fixed-contact-dynamical-system.cpp",
                       "src/stable-imu-fixed-contact-dynamical-system.cpp", "src/bidim-elastic-inv-pendulum-dyn-sys.cpp", "src/tilt-estimator.cpp"],
                      ("sensors", "src/algebraic-sensor.cpp and the sensors deriving from it"),
                      ("motion models", "stateDynamics and measureDynamics of the dynamical systems"),
                      ("tilt estimator step", "TiltEstimator::oneStepEstimation_")),
         note="Results are compared cell by cell through algebraic value numbers (elements of a prime field), so any algebraically equal rewriting is accepted; "
              "rounding and branches on exact floating-point equality are not judged.  Contacts: 0 to 3."),
    dict(id="P13", title="The DCM estimators are the Kalman filter of the pendulum with a local bias",
         statement="After any sequence of configuration changes, inputs and updates, the planar and the unidimensional DCM estimators give the DCM and bias of the Kalman "
                   "filter of the linear inverted pendulum whose bias is constant in the robot's frame up to its drift, with the sampling time, frequency, drift, "
                   "error deviations, bias, DCM and uncertainties given last, and the rotation since the previous inputs applied to the bias. "
                   "Every setter takes effect on all later updates and survives the other setters; inputs given before the former ones were processed process those first; a bias limit clamps the local bias "
                   "per axis and gives the remainder to the DCM, and zero means no limit.",
         quantifier=q(["histories", "inputs", "configurations"], "for every sequence of constructor, setters, resets, inputs and updates, every parameter value and rotation"),
         why_tests_cant="A filter with a lost parameter or a correction in the wrong frame still converges on the constant-orientation runs of the tests.",
         anchors=anch(["src/lipm-dcm-estimator.cpp", "src/unidim-lipm-dcm-estimator.cpp"],
                      ("inputs and updates", "LipmDcmEstimator::setInputs, update; UnidimLipmDcmEstimator::setInputs, update"),
                      ("matrices of the model", "updateMatricesABQ_"),
                      ("setters and resets", "the public setters of both estimators")),
         note="Sequences analysed: every setter or reset at every stage, every ordered pair of them between two updates, and up to three successive inputs. "
              "Values are compared through algebraic value numbers; rounding is not judged."),
    dict(id="P14", title="Kinetics observer: covariance operations touch the component they name",
         statement="Every operation of the kinetics observer that sets or resets a covariance, of the state or of the process noise, gives the block of the component it names (kinematics, "
                   "gyrometer bias of one IMU, unmodeled wrench, one contact) the matrix given or the default in force, clears the cross terms of that component, and leaves every other cell; "
                   "the collective resets do so for every component in use. Setting part of the state resets the covariance of that part, and only of it, exactly when asked; adding a contact sets both its "
                   "covariances, and operations that are not about covariances change none.",
         quantifier=q(["histories", "configurations"], "for every number of IMUs and contacts, every component, and every operation at any point"),
         why_tests_cant="A block written one component off leaves a positive covariance and a filter that runs; the test looks at the estimated position only.",
         anchors=anch(["src/kinetics-observer.cpp", I + "dynamics-estimators/kinetics-observer.hxx"],
                      ("covariance setters and resets", "KineticsObserver::set*Cov*, reset*Cov*"), ("contacts and state setters", "KineticsObserver::addContact, setState*, setGyroBias")),
         note="Every operation from an arbitrary pair of covariances, with two IMUs and two contacts; blocks are compared through algebraic value numbers."),
    dict(id="P15", title="Kinetics observer: the measurement is what was given since the last estimation",
         statement="The measurement of the kinetics observer, its size and its noise covariance hold, in order, the IMUs, the contact wrenches and the absolute pose given since the last estimation "
                   "and nothing else, each with the covariance given with it, or the default in force if none ever was. The contacts that exist are exactly those added and neither removed nor cleared, also when a contact "
                   "or its sensor is lost while measurements are pending; numbers not given are the lowest free ones, and dropping the inputs drops exactly the pending measurements.",
         quantifier=q(["histories"], "for every sequence of contacts added, updated and removed, sensors given or not, resets and estimations"),
         why_tests_cant="The test uses the same contacts and sensors at every iteration; a stale sensor or a wrong count needs a sensor that comes and goes.",
         anchors=anch(["src/kinetics-observer.cpp"],
                      ("sensors", "KineticsObserver::setIMU, updateContactWithWrenchSensor, updateContactWithNoSensor, setAbsolutePoseSensor, getMeasurementVector, getMeasurementSize"),
                      ("contacts", "KineticsObserver::addContact, removeContact, clearContacts, getListOfContacts"), ("estimation", "KineticsObserver::update")),
         note="A family of sequences covering every sensor and contact event and their pairs around an estimation, two IMUs and three contacts; mixing own and default covariances "
              "for the same sensor is not judged."),
    dict(id="P16", title="Kinetics observer: models and estimation follow rigid-body mechanics",
         statement="The state and measurement predicted by the kinetics observer are those of a rigid body moved by gravity, the additional wrench, the unmodeled wrench and the wrenches of the contacts in force, with the mass, "
                   "center of mass, inertia, angular momentum and their derivatives given last (by finite differences over the time since the former value where they are not given), and of visco-elastic contacts "
                   "relative to their rest poses. The estimate and its covariance are those of the extended Kalman step for these predictions, the pending measurements, both noise covariances and Jacobians obtained by finite "
                   "differences; gyrometer biases, unmodeled wrench and noises count exactly when they are enabled, and sensor and contact kinematics given without velocities are differentiated, or at rest the first time.",
         quantifier=q(["inputs", "histories", "configurations"], "for every state, input and parameter value, and along sequences of contacts and sensors that come and go"),
         why_tests_cant="The test starts at an equilibrium with constant inputs; wrong dynamic terms vanish there, and a filter corrects a wrong model.",
         anchors=anch(["src/kinetics-observer.cpp", "src/extended-kalman-filter.cpp"],
                      ("motion model", "KineticsObserver::stateDynamics, computeAccelerations_, computeContactForces_"), ("measurement model", "KineticsObserver::measureDynamics"),
                      ("inputs", "KineticsObserver::setCenterOfMass, setInertiaMatrix, setAngularMomentum, setAdditionalWrench, setIMU, updateContact*"), ("estimation", "KineticsObserver::update")),
         note="Sequences of up to three estimations; values are compared through algebraic value numbers (any algebraically equal rewriting is accepted); rounding is not judged."),
    dict(id="P17", title="Kinetics observer: state getters, setters, indexes and arithmetics agree",
         statement="After any setter or estimation, every getter of the kinetics observer (state, kinematics, kinematics of an attached frame, accelerations, contact pose and wrench, unmodeled wrench, indexes of the components) gives the "
                   "component it names of the one current state, and the next estimation starts from that same state; a setter changes the component it names and no other, and a new observer is at the origin at rest. "
                   "The sum of a state and a tangent vector, and its converse the difference of two states, act component by component, compose orientations on the left, and leave out exactly the components which are not in use.",
         quantifier=q(["histories", "inputs", "configurations"], "for every setter, estimation, set of components in use and set of contacts"),
         why_tests_cant="An accessor that reads or writes a neighbouring component, or updates one of the two copies of the state, gives plausible numbers.",
         anchors=anch(["src/kinetics-observer.cpp", I + "dynamics-estimators/kinetics-observer.hxx"],
                      ("accessors", "KineticsObserver::get*, setState*, setGyroBias, addContact"), ("indexes", I + "dynamics-estimators/kinetics-observer.hxx"),
                      ("state arithmetics", "KineticsObserver::stateSum, stateDifference")),
         note="Exhaustive over accessors and switches for up to three contacts and IMUs; values are compared through algebraic value numbers."),
    dict(id="P18", title="Every sample, input and measurement is used at the time it was given for",
         statement="In time-indexed arrays, every sample keeps its time index through appending, setting, popping, truncating, resizing, clearing and shifting of the first index, and every accessor answers for exactly the indexes present. "
                   "A Kalman observer estimates one instant at a time, each with the measurement of that very instant and the inputs given for the instants the model needs, whatever the order in which measurements and inputs were pushed, set, overwritten or cleared and however many estimations came before; pending data of later times is kept, past data is dropped. "
                   "The simulator gives, for any time and any order of queries, the state and the measurement of its dynamics along the inputs in force (the last one given not later than that time).",
         quantifier=q(["histories", "inputs", "configurations"], "for every arrangement of samples, pending measurements, inputs and states, and every operation from it"),
         why_tests_cant="Tests feed regular sequences; gaps, overwritten samples, estimations in the middle of pending data and restarts give plausible values of a neighbouring time.",
         anchors=anch(["src/zero-delay-observer.cpp", "src/dynamical-system-simulator.cpp", I + "tools/definitions.hxx"],
                      ("time-indexed arrays", "IndexedMatrixArrayT"), ("observers", "ZeroDelayObserver"), ("simulator", "DynamicalSystemSimulator")),
         note="Exhaustive over arrangements within bounds (three samples, five operations); observers of one state, one measurement and at most one input."),
    dict(id="P19", title="Conversions between rotation representations keep the rotation",
         statement="Conversions between rotation vectors, angle-axis, matrices, quaternions and roll-pitch-yaw angles denote the same rotation, the null rotation included; so do a rotation vector brought back below one turn, the smallest rotation between two vectors, and the Jacobians of the exponential. "
                   "Yaw and angle extraction give the signed angle from a vector to the projection of its image, and merging a tilt with a yaw gives the rotation with exactly that tilt and that heading, degenerate (aligned, pure yaw) arguments included; a case with no answer is refused. "
                   "The test of a rotation matrix accepts rotations and refuses reflections and non-orthogonal matrices.",
         quantifier=q(["inputs"], "for every rotation and vector of general position, and each degenerate configuration"),
         why_tests_cant="Tests draw random rotations; a wrong sign or order can agree on pure yaws or small angles, and degenerate configurations are never drawn.",
         anchors=anch([I + "tools/rigid-body-kinematics.hxx"],
                      ("conversions", "stateObservation::kine::rotationVectorToRotationMatrix"), ("yaw and tilt", "mergeTiltWithYaw, rotationMatrixToYaw, rotationMatrixToAngle")),
         note="Exact arithmetic: accuracy close to the degenerate configurations and the width of the thresholds are not judged."),
    dict(id="P20", title="Wrong sizes, missing data and wrong times are refused, right ones accepted",
         statement="With assertions enabled, the Kalman filters refuse vectors and matrices of every shape but the one of their sizes (tangent sizes included), data at times that leave a gap or are out of reach, and an estimation with a matrix, functor, state, measurement or needed input missing; a change of a size forgets exactly the data that depend on it. "
                   "Simulators, time-indexed containers, noises, models and flexibility estimators refuse out-of-range times, indexes and sizes, and the kinetics observer refuses contacts and IMUs that do not exist, exist already, are given twice or are not updated, and poses that are incomplete. "
                   "Every use with the declared sizes, times and data is accepted, and what was given is what is held.",
         quantifier=q(["inputs", "histories", "configurations"], "for every size and shape around the declared one, every missing datum, and every arrangement of times"),
         why_tests_cant="Tests use the library correctly: a check that was dropped, weakened or too strict is seen only by the user who makes the mistake, or the unusual valid call.",
         anchors=anch(["src/kalman-filter-base.cpp", "src/zero-delay-observer.cpp", "src/linear-kalman-filter.cpp", "src/extended-kalman-filter.cpp", "src/kinetics-observer.cpp"],
                      ("filters", "KalmanFilterBase::check*matrix, set*Size, clear*"), ("observers", "ZeroDelayObserver::set*, push*, get*"),
                      ("contacts and IMUs", "KineticsObserver::addContact, setIMU, updateContact*, update"), ("containers", I + "tools/definitions.hxx")),
         note="Shapes one more and one less in each direction, transposed and empty; small sizes. Algebraic sensors, the elastic-local-frame model and the model-based estimator are not covered."),
    dict(id="P21", title="No reference outlives its object and no result is read while being written",
         statement="No reference, pointer or iterator that the library returns, stores or uses designates an object that has ended (a local variable, a temporary, an element of a container that was resized, erased or reassigned since), and no matrix expression kept for later evaluation reads such an object. "
                   "No matrix assignment reads a part of its destination that it may have overwritten already, be it a product assigned without temporary or a transposed or shifted view of the destination. "
                   "No call passes one object both as an operand and as the result of a function that still reads the operand after it started writing the result.",
         quantifier=q(["inputs", "histories"], "for every path through every function of the library, whatever the values, sizes and growth of the containers"),
         why_tests_cant="Whether a dangling reference or an aliased product gives wrong numbers depends on the allocator, the sizes, the optimiser and the values; most runs look right.",
         anchors=anch(["src", "include/state-observation"], ("in-place products", "noalias() assignments of every estimator"), ("containers", "contacts_, imuSensors_ of KineticsObserver; IndexedMatrixArrayT"),
                      ("results written into arguments", "kine::Kinematics::setToProductNoAlias, kine::integrateKinematics, setToDiffNoAlias")),
         note="Objects are told apart by access paths; indexes that are not constant and what only a user can alias are not decided. Examples and tests excluded."),
]

NOT_APPLICABLE = {}
