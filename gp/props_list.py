prop('P01', 'Every process of a group reaches the same collective operations',
 'Whatever the distribution of the network over processes and whatever each process holds or is asked for, all processes of a group run the same sequence of collective operations: no test on a process rank, on local numbers of buses, branches or elements, or on anything computed from them, decides whether a process joins a collective, skips one, or leaves a function before one that the others reach. A condition that decides about collectives is first agreed between the processes.',
 ['schedules', 'inputs', 'configurations'],
 'For every process count, every distribution of the network including processes that hold no data of a kind, and every control path.',
 'A collective that only some processes reach hangs or mismatches, and only for the distribution or the operating condition that separates the processes; the tests run fixed cases with balanced data.',
 ['src/parallel', 'src/network', 'src/mapper', 'src/factory', 'src/serial_io', 'src/math', 'src/parser', 'src/timer', 'src/configuration', 'src/analysis', 'src/applications'],
 [('collective use of distributed arrays', 'src/parallel/*.hpp, index_hash.cpp, src/network/base_network.hpp, src/mapper/*.hpp'), ('broadcast file contents', 'src/configuration/configuration.cpp, src/parser/bus_table.hpp'), ('decisions agreed between processes', 'src/applications/modules/*/*factory*.cpp checkTrueSomewhere')],
 technique='interprocedural taint of process-dependent values over the clang AST, with structural comparison of the collective sequences of the alternatives of every process-dependent condition',
 note='Flow-sensitive within a function, summaries between functions, flow-insensitive for class members. Assumes values read from the configuration and from files read on every process agree; loops are compared by body, not trip count. Error paths that throw or abort are exempt, as is a catch handler. Templates are analysed in the instantiations that the applications and the drivers use.')

prop('P03', 'Distributed arrays, types, communicators, files and buffers are released',
 'Every distributed array, registered exchange type, process group, communicator, open file, access lock on a local section and dynamically allocated array that a function obtains is released on every normal path, whatever the data, unless it is stored in the owning object or handed to the caller; what an object obtains into a member, its class releases. Nothing is used or released again after its release, and array and single-object memory is released in the form it was obtained in.',
 ['inputs', 'histories', 'configurations'],
 'For every function of the framework and the applications that obtains such a resource, every control path through it, including early returns on empty data.',
 'Leaked arrays and types are invisible until a long study (thousands of contingencies or repeated mappings) runs out of them; tests end after a few operations and do not look at what is still allocated.',
 ['src/parallel', 'src/network', 'src/mapper', 'src/serial_io', 'src/timer', 'src/parser', 'src/partition', 'src/applications'],
 [('distributed arrays of the containers', 'src/parallel/global_store.hpp, global_vector.hpp, index_hash.cpp, task_manager.hpp, communicator.cpp'), ('exchange buffers and index arrays', 'src/network/base_network.hpp initBusUpdate, initBranchUpdate, ~BaseNetwork, clear'), ('mapper scratch arrays', 'src/mapper/*.hpp')],
 technique='path-wise typestate analysis (held / stored / released) over the clang AST with inlining of acquiring and releasing callees',
 note='Paths that throw are not charged. Single objects (new T without []) are only checked for the form of release, since most go to smart pointers. Members are checked per class (some member function releases what some member function obtains), not per object lifetime.')

prop('P04', 'Distributed arrays are sized and addressed for any amount of data, also none',
 'A distributed array that is laid out in one block per process has room for one block on each process however few elements there are, no array is created with no elements, and a section of an array is read, written or opened for access only when it is not empty. A process that holds no data of a kind, a query without answers and a network with fewer components than processes work like any other case.',
 ['inputs', 'configurations'],
 'For every distributed array of the framework and the applications, every number of processes, and every distribution of the data including none on a process or at all.',
 'The array library stops the whole run on an empty section, an empty array or more blocks than elements; the tests use a few processes with plenty of data on each.',
 ['src/parallel', 'src/network', 'src/mapper', 'src/serial_io', 'src/parser', 'src/partition', 'src/factory', 'src/export', 'src/analysis'],
 [('irregular distributions', 'src/parallel/index_hash.cpp, src/parser/hash_distr.hpp, src/network/base_network.hpp, src/mapper/*.hpp'), ('local sections', 'NGA_Access/NGA_Get/NGA_Put after NGA_Distribution in src/parallel, src/serial_io, src/mapper'), ('counts agreed before creation', 'src/parallel/global_store.hpp, global_vector.hpp, src/export/base_export.hpp')],
 technique='path-wise symbolic bounds (linear forms over the inputs of a path, with the conditions passed) over the clang AST',
 note='Assumes a network has at least one bus and that sizes handed to a constructor are positive. Sections with bounds in several dimensions or carried over blocks of a loop (statistics arrays, bus tables) are counted but not decided. No solver: linear forms are compared by coefficients only.')

prop('P05', 'Failures of the solver library surface and its objects are released',
 'Every failure the solver library (PETSc) reports, by status code or by a negative convergence reason after a linear, nonlinear or time-stepping solve, is raised to the caller; no path ignores it and returns as if the call had worked. Every library object, array view or row that a function obtains is handed back, stored in the owning object, or returned on every normal path, and what an object stores it releases itself. No library call receives a handle that nothing has created.',
 ['inputs', 'configurations', 'fault_sequences'],
 'For every wrapper function, every control path through it, and every library call that can fail on it.',
 'The tests never make a library call fail and never look at what is still allocated; a solve that diverges is not in the test inputs.',
 ['src/math'],
 [('status code to exception', 'src/math/petsc/petsc_exception.hpp'), ('matrix, vector, solver wrappers', 'src/math/petsc/*.cpp, *.hpp'), ('convergence reasons', 'src/math/petsc/petsc_linear_solver_implementation.hpp, petsc_nonlinear_solver_implementation.hpp, petsc_dae_solver_implementation.hpp')],
 technique='path-wise typestate analysis (status unexamined / examined, handle held / released, solve unasked / asked) over the clang AST with inlining',
 note='Template wrappers are analysed in the instantiations the applications and drivers use. Loops are unrolled once or twice; status codes ignored in destructors are allowed. Trusts the list of library functions that acquire and release.')

prop('P06', 'A device out of service contributes nothing, one in service exactly once',
 'In every calculation the generators and loads of a bus enter by the sum over those in service, each exactly once, whatever their number, order and kind; the data of one that is out of service influence no result and no decision. Switching or scaling a device, and enforcing or clearing reactive power limits, change the specified power of the bus by exactly that device or by the limits of the generators in service, and the voltage of a bus is controlled only while a generator of the bus is in service. In the dynamic simulations the models of the generators in service, and no others, are initialised and advanced.',
 ['inputs', 'histories'],
 'For every combination of in-service and out-of-service generators and loads on a bus, and every sequence of switching one generator off and on, scaling a load, enforcing and clearing limits.',
 'Test cases have one generator and one load on a bus, all in service; the cases that go wrong have several devices with mixed status, which none of the bundled networks exercises in each application.',
 ['src/applications/components', 'src/applications/modules/dynamic_simulation_full_y', 'src/applications/modules/dynamic_simulation_dae', 'src/applications/modules/powerflow'],
 [('power flow buses', 'src/applications/components/pf_matrix/pf_components.cpp load, setSBus, chkQlim, clearQlim, setGenStatus, scaleLoadPower'), ('dynamic simulation buses', 'src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp load, matrixDiagValues, vectorValues, setGenStatus, predictor, corrector'), ('reduced simulation and Kalman filter', 'src/applications/components/ds_matrix/ds_components.cpp, kds_matrix/kds_components.cpp'), ('DAE simulation', 'src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp')],
 technique='abstract interpretation of the load and evaluation methods over symbolic data of several devices in each combination of status; results compared as exact rational functions with sums over the devices in service, and searched for the symbols of those that are not',
 note='Up to three generators and three loads on a bus stand for any number. Networks of two buses; loads with a dynamic model are outside; generator models stand for themselves by their admittance and current. Reported generation of single generators is not decided here.')

prop('P07', 'Direct and distributed dynamic-model input give the same parameters',
 'For every dynamic model the dynamic-parameter (dyr) reader supports, a record yields the same parameter names, types and values on the device whether it is stored directly in the network data or is packed in a transport record, sent to the owning process and unpacked there. Re-reading a record updates every parameter it sets the first time, and no two parameters of a record are silently filled from one column.',
 ['inputs', 'configurations'],
 'For every model type, every record of that model, with any number of columns present, and every distribution of buses over processes.',
 'The test inputs use a handful of models, and only compare one of the two paths with itself; 743 parameters in 32 models exist and most are never read in a test.',
 ['src/parser/parser_classes', 'src/parser/base_pti_parser.hpp'],
 [('parse: token columns to data collection', 'src/parser/parser_classes/*.hpp parse()'), ('store: token columns to transport struct', 'src/parser/parser_classes/*.hpp store()'), ('extract: transport struct to data collection', 'src/parser/parser_classes/*.hpp extract()')],
 technique='symbolic-free dataflow over clang AST: per-key column provenance compared between parse and extract-after-store',
 note='Sound for the column provenance of every key in every instantiated model parser; trusts atof/atoi and the data collection itself. Does not decide whether the column is the one the PSS/E manual names.')

prop('P09', 'Every parameter a model asks for is stored by a reader under the same type',
 'Whenever application code asks the network data for a named parameter, the input readers that provide this name store it with the same value type and as the same kind (per network component, or per device), so that the request finds the value the input file gave. A reader that stores a name twice for one device replaces the value.',
 ['inputs', 'configurations'],
 'For every named parameter, every reader that stores it, every module, exporter and model that asks for it, and every input file.',
 'A mismatched request is not an error: it misses and a default is used. The test inputs exercise a few models and compare with reference results that were produced with the same defaults.',
 ['src/parser', 'src/component/data_collection.hpp', 'src/applications'],
 [('one table per value type and arity', 'src/component/data_collection.cpp addValue/setValue/getValue'), ('readers', 'src/parser'), ('requests', 'src/applications')],
 technique='whole-program type-resolved agreement of writers and readers of each literal name',
 note='Exact for names that are string literals after macro expansion or flow through locals/parameters to literals (all but the few counted as computed). Does not decide that the value is right, nor that a record is present.')

prop('P11', 'A transfer between processes has the type and amount of its buffers',
 'Whenever values are combined, broadcast, gathered, scattered, written to or read from a distributed array, the transfer is told the type of the values in the buffer and of the array, and exactly as many values as the buffer was made for. No transfer covers only part of a list, runs past its end, or takes its length from another list or from the number of processes, and received text ends where it was sent to end. ',
 ['inputs', 'schedules', 'configurations'],
 'For every call of a reduction, broadcast, gather, scatter, put or get, any number of processes and any amount of data.',
 'With one process, or a list as long as there are processes, a wrong amount gives the right result; the tests use such cases, and a read past the end of a small buffer rarely shows.',
 ['src/parallel', 'src/parser', 'src/network', 'src/mapper', 'src/serial_io', 'src/applications/modules', 'src/timer'],
 [('reductions of lists', 'src/parallel/communicator.cpp; src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp setObservations; powerflow/pf_factory_module.cpp; parser/base_pti_parser.hpp'), ('distributed arrays', 'src/network/base_network.hpp; src/parser/hash_distr.hpp; src/parallel/index_hash.cpp, global_store.hpp, global_vector.hpp; src/mapper/*.hpp; src/serial_io/serial_io.hpp; src/analysis/stat_block.cpp'), ('timers and parsers', 'src/timer; src/parser/PTI*_parser.hpp')],
 technique='type and symbolic-size comparison of every transfer with its buffers (declared, allocated, resized or filled sizes; single-assignment resolution; cross-method aliases) over the clang AST',
 note='Where a buffer comes in as a parameter, or the amount is computed from unrelated variables, the amount is not decided (34 of about 310).')

prop('P12', 'Limit checks report every violation that counts, and only those',
 'The checks of a power flow solution against voltage limits, reactive limits and line ratings, for the whole network, for an area and for named lines, report success exactly when no bus or line they cover that is not marked to be ignored is beyond its limit (for lines the rating in use; one without a rating, or with rating zero, has no limit), whichever process owns it. Each voltage or overload violation found is listed once with its buses and line, and the list of all processes holds those of each. Marking violations to be ignored marks exactly those there are, and clearing the marks removes them all.',
 ['inputs', 'histories'],
 'For every combination of buses and lines within and beyond their limits, ignored or not, inside and outside an area, owned by any process, with ratings given, missing or zero.',
 'The test cases have next to no violations, never check an area or named lines, and run on one process or compare two numbers of violations; a check that misses one or ignores the wrong line prints the same result there.',
 ['src/applications/modules/powerflow', 'src/applications/components/pf_matrix'],
 [('checks and marks', 'src/applications/modules/powerflow/pf_factory_module.cpp checkVoltageViolations, checkQlimViolations, checkLineOverloadViolations, ignore*, clear*, getViolations'), ('limits and marks of one bus or line', 'src/applications/components/pf_matrix/pf_components.cpp checkVoltageViolation, setIgnore, getIgnore'), ('application', 'src/applications/modules/powerflow/pf_app_module.cpp')],
 technique='path-wise abstract interpretation of the checks over a small network whose state is left open (each decision on a bus or line kept with the path), verdict and list compared with what the decisions imply',
 note='Three buses and four branches with two lines each stand for any network; a quantity exactly at its limit is left open. Flows and bus reactive power are taken as given here (decided by P15, P30, P06). Lines are named in the order in which the data name their buses.')

prop('P14', 'Lists that describe the devices of one component stay aligned',
 'The lists in which a component or application keeps the data of its generators, loads, branch elements, observations or watched devices have one entry per device each: whatever data an input leaves out and whichever path a set-up or change takes, an entry is added to, removed from or cleared in all of them or in none. An index therefore means the same device in each of the lists it is used with, and the number of devices kept beside them is theirs. ',
 ['inputs', 'histories', 'configurations'],
 'For every combination of present and missing input data, supported and unsupported device models, and order of operations on the lists.',
 'A list that misses one entry shifts the data of all later devices of the bus; tests use complete data, mostly with one device per bus.',
 ['src/applications/components', 'src/applications/modules', 'src/parser', 'src/parallel', 'src/timer'],
 [('device lists of buses and branches', 'DSFullBus::load, DSFullBranch::load, SetCmplXfmrBranch, SetCmplFeederBranch, PFBus::load, PFBranch::load, YMBranch::load, SEBranch::load, DSBus::load, KalmanBus::load'), ('lists of applications', 'DSFullApp::setObservations, setGeneratorWatch; WindDriver'), ('timers and stores', 'src/timer; src/parallel/global_store.hpp')],
 technique='grouping of lists by common subscripts and path-wise counting of what each operation adds to and removes from every list of a group (abstract interpretation over the clang AST)',
 note='Lists are grouped only where the code subscripts them with one index in one loop. A method that empties and refills some lists of a group is taken to fill them in step with the rest.')

prop('P15', 'Copies of a bus on other processes are refreshed before they are used',
 'The values a bus publishes to its copies lie at distinct places within the exchange buffer whose size it announces, and every operation that changes such a value also publishes it. Between a change that a process makes to the buses it owns and the next evaluation that reads neighbouring buses, or the end of the calculation, the values are exchanged, and what neighbours read are the exchanged values. The exchange sends the values of exactly the owned elements and gives every copy those of its own element, also when a process holds none.',
 ['schedules', 'inputs', 'histories'],
 'For every calculation that exchanges bus values (power flow, state estimation, the DAE dynamic simulation, the resistor grid), every path through it, every mode its evaluations run in, and every distribution of the network.',
 'A missing or late exchange only shows when a line crosses processes, and then often only as a slower or slightly different iteration; tests run small cases and compare the converged result.',
 ['src/network/base_network.hpp', 'src/factory', 'src/applications/components', 'src/applications/modules'],
 [('buffers handed to the components', 'src/applications/components/pf_matrix/pf_components.cpp setXCBuf, getXCBufSize; se_components.cpp; dsimnetwork.cpp; src/factory/base_factory.hpp setExchange'), ('publication of changes', 'PFBus::setValues, chkQlim, clearQlim, resetVoltage, setIsPV; SEBus::setValues'), ('order in the drivers', 'src/applications/modules/powerflow/pf_app_module.cpp solve, pf_helper.hpp, pf_factory_module.cpp, se_app_module.cpp, dsim.hpp'), ('the exchange', 'src/network/base_network.hpp initBusUpdate, updateBuses, initBranchUpdate, updateBranches')],
 technique='byte offsets of published places, path-wise typestate of published members and of stale copies with interprocedural summaries and mode-dependent read/write effects of component methods, and one-round analysis of the exchange loops, over the clang AST',
 note='A catch handler ends a calculation: what failed is not exchanged. A loop over all elements is taken to reach every copy. load() has to publish only for classes whose factory runs it again after the buffers were handed out.')

prop('P23', 'Setting up a component again leaves what setting it up once leaves',
 'Loading the parameters of a bus or branch, and building its admittances, a second time from the same data leaves the component as the first time did. Every list such a set-up fills is emptied first, no counter, sum or scaled value carries over from an earlier set-up, and the factory empties the neighbour lists of a bus before it fills them.',
 ['histories', 'inputs'],
 'For every network component class of the framework and the applications, every content of the data and every number of earlier set-ups.',
 'Contingency studies and control environments reload the same components over and over; stale entries in front of a list are read instead of the new ones, and only after a reload with changed data, which no test does.',
 ['src/applications/components', 'src/applications/modules', 'src/factory'],
 [('reload entry points', 'PFAppModule::reload, DSFullApp::reload'), ('load and setYBus of components', 'src/applications/components/*/*_components.cpp, src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp, src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp'), ('neighbour lists', 'src/factory/base_factory.hpp setComponents')],
 technique='value-flow over the clang AST from an unknown earlier state of the object: no value stored may depend on what the same member held before',
 note='A value the data may supply counts as supplied, and a member that construction sets to zero stays zero under scaling. Objects created afresh by a load (device models) are not followed. Members that a set-up leaves alone are not judged.')

prop('P24', 'What-if changes reach what they name and can be undone',
 'In the power flow, a contingency takes the generators or lines it names out of service and no others, isolates exactly the buses left without a line in service, and taking it back restores every status and isolation there was, also when a device is named twice. In the power flow and the dynamic simulation, scaling an area or zone reaches each generator or load there once and no others, totals reported for the area count each device in service there once over all processes, and resetting brings back the specified power and the initial voltage on every bus. Enforcing and clearing reactive limits, and switching a generator off and on again, leave the specified power, the reactive limits and the control of the voltage of the bus as they were.',
 ['histories', 'inputs'],
 'For every list of devices in a contingency with any status before, every pattern of lines in service, every area and zone, and every change of a bus followed by its reset, on any process.',
 'The contingency tests apply each contingency to a case without other changes and compare a few printed results; what is left behind afterwards, two processes, repeated devices and combined changes are never looked at.',
 ['src/applications/modules/powerflow', 'src/applications/components/pf_matrix', 'src/applications/modules/dynamic_simulation_full_y'],
 [('contingencies', 'src/applications/modules/powerflow/pf_app_module.cpp setContingency, unSetContingency'), ('isolated buses, areas, resets', 'src/applications/modules/powerflow/pf_factory_module.cpp checkLoneBus, clearLoneBus, scale*, reset*, getTotalLoadRealPower, getGeneratorMargins, setRTPRParams'), ('areas of the dynamic simulation', 'src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp scale*, resetPower, getTotalLoadRealPower, getGeneratorMargins, setRTPRParams; dsf_components.cpp getLoadPower, getGeneratorMargins, resetPower'), ('one bus', 'src/applications/components/pf_matrix/pf_components.cpp resetPower, resetVoltage, setGenStatus, chkQlim, clearQlim, setIsPV, resetIsPV')],
 technique='abstract interpretation of the change and then of its reset over small networks and symbolic bus data; statuses compared exactly, specified powers and voltages compared as exact rational functions with those before',
 note='Up to three named devices, three branches, two generators and two loads on a bus stand for any number; contingencies within contingencies and faults or trips in the dynamic simulation are outside. The admittances after a line is switched are decided by P30, the contribution of devices by P06.')

prop('P25', 'Predictor and corrector integrate the same device equations',
 'For every device model of the explicitly integrated dynamic simulation, the corrector advances exactly the states the predictor advanced, evaluates the same derivative at the predicted states that the predictor evaluated at the old ones, and averages the two over the step. Both half-steps drive the same control blocks and the same attached controllers, each with the half-step that is running.',
 ['inputs', 'histories', 'configurations'],
 'For every device model, every parameter set, every operating point and every sequence of steps.',
 'A wrong half-step still gives plausible trajectories: the error is of the order of the step size, and the tests compare short runs of a few models with loose tolerances.',
 ['src/applications/modules/dynamic_simulation_full_y'],
 [('predictor and corrector of each model', 'src/applications/modules/dynamic_simulation_full_y/model_classes predictor/corrector, predictor_currentInjection/corrector_currentInjection'), ('control blocks', 'src/applications/modules/dynamic_simulation_full_y/cblock.cpp updatestate/getoutput'), ('stages of attached controllers', 'model_classes/genrou.cpp, gensal.cpp, regc*.cpp')],
 technique='path-insensitive term extraction of both stages, compared as rational polynomials after renaming states to predicted states',
 note='Decides agreement of the two stages per model; a defect written identically in both stages is not seen, and conditions that guard a limit are not compared (only the set of values).')

prop('P30', 'Every calculation uses the same admittances for the same network data',
 'For a branch made of lines and transformers, straight or reversed, in or out of service, alone or in parallel, the network matrix of power flow, state estimation, Kalman filter and the dynamic simulations has as entries the sums of the two-port admittances of the elements in service, with line-end and bus shunts. The power flow mismatch and the reported flows and flow measurements are those of the same admittances. Switching or tripping an element of the branch changes the matrix by exactly its admittances, and it counts from then on with its new status.',
 ['inputs', 'histories', 'configurations'],
 'For every impedance, charging, tap, phase shift and shunt, for ten kinds of branch (one or two elements of every kind) between two buses.',
 'A dynamic or contingency study starts from a power flow; if any element kind is modelled differently in one of them the results are wrong without any error. Test networks have few reversed, shifted or parallel elements and are not compared across applications.',
 ['src/applications/components', 'src/applications/modules'],
 [('admittances of a branch', 'src/applications/components/y_matrix/ymatrix_components.cpp YMBranch::setYBus, getAdmittance, getTransformer, getShunt, getLineElements'), ('power flow', 'src/applications/components/pf_matrix/pf_components.cpp vectorValues, getComplexPower, setBranchStatus'), ('state estimation', 'src/applications/components/se_matrix/se_components.cpp getComplexPower, vectorGetElementValues'), ('reduced dynamics and Kalman filter', 'src/applications/components/ds_matrix, src/applications/components/kds_matrix'), ('switching and tripping', 'src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp setLineStatus, setBranchTripAction'), ('DAE module', 'src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp DSimBranch::load')],
 technique='abstract interpretation over terms of load, set-up and query functions on symbolic network data; results compared as rational functions with the two-port equations',
 note='Two buses and one branch of at most two elements; sums over more neighbours are taken to be like the sum over one. Shunts at the ends of a line may or may not be counted in its flow. Updates of fault and relay studies that the code marks as provisional are not compared. Only the first fixed shunt of a bus is modelled by the code, and by the check.')

prop('P34', 'A parameter missing from the network data is never replaced by leftovers',
 'When application, export or reader code asks the network data for a named parameter that the input did not contain, what it goes on with is a default set for that parameter: never an undefined variable or member, and never the value of another parameter or of the device, branch or bus handled before.',
 ['inputs', 'configurations'],
 'For every lookup in the components, factories, readers, exporters and device models, every subset of the parameters missing from the input, and every control path from the lookup to the use.',
 'A missing parameter is not an error, and the leftover is usually plausible; the test inputs contain nearly all parameters, and an undefined variable often happens to be zero.',
 ['src/applications', 'src/parser', 'src/export', 'src/component/data_collection.hpp'],
 [('lookups report a miss and leave the target alone', 'src/component/data_collection.cpp getValue'), ('component load', 'src/applications/components/*/*.cpp load, src/applications/modules/*/*.cpp load'), ('exported records', 'src/export/data_blocks/*.hpp')],
 technique='path-wise definite-value analysis of lookup targets over the clang AST, with correlation of the result of a lookup and its target',
 note='Parameters that identify a component (bus number, from and to bus, number of parallel elements, area number, system base) are taken as present. Targets that are elements of arrays or reached through pointers are followed only inside a function. Which default is right is not decided.')

prop('P10', 'Matrix and vector blocks are supplied exactly as they were announced',
 'In every mode and state of a network component, the matrix or vector block it announces is the block it supplies: all elements of the announced size are written and none beyond, and an announced vector block is always supplied; the same holds for the elements and slabs a component numbers itself. Values handed back to a component are read only within the block it announced, and the off-diagonal block of a branch has the rows and columns of the diagonal blocks of its two buses, and is announced only if both have one.',
 ['inputs', 'configurations'],
 'For every component class of the applications, every mode, every combination of state flags (reference, isolated, PV, active, number of generators, ...) that decides sizes, and every path through the announcing and supplying methods.',
 'The mappers trust the components: a mismatch writes past a packed buffer, leaves stale memory in the system matrix or shifts blocks, but only for bus types or modes a test network happens not to combine.',
 ['src/applications/components', 'src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp', 'src/applications/modules/dynamic_simulation_dae', 'src/mapper', 'src/component/base_component.hpp'],
 [('packed vector blocks', 'src/mapper/bus_vector_map.hpp loadBusData'), ('matrix blocks', 'src/mapper/full_map.hpp loadBusData'), ('power flow blocks', 'src/applications/components/pf_matrix/pf_components.cpp'), ('admittance blocks', 'src/applications/components/y_matrix/ymatrix_components.cpp')],
 technique='path enumeration with inlining over the clang AST: decision trees of announced sizes and of written element sets, compared pairwise for compatible states',
 note='Sizes and element sets are decided where they are constants, numbers fixed by a constructor or a count used as a loop bound; blocks whose size is a sum over attached devices (DSimBus) are explored but not decided. Element order within a block is not judged here.')

prop('P26', 'The matrix of each Newton step is the derivative of its residual',
 'In the power flow, in the implicit (DAE) dynamic simulation with its machine, exciter and governor models, and in state estimation, every entry a component or device model puts into the matrix of the iteration is the derivative of the residual or measured quantity of its row with respect to the variable of its column, under the same limits, modes and bus types, and entries whose derivative is not zero are there. The solution of the linear system is subtracted from the unknowns in the order of the matrix columns.',
 ['inputs', 'configurations'],
 'For every device model and network component, every pair of a control path of the residual and of the matrix that can occur in the same state, every row and column, and all values of the variables and parameters.',
 'A wrong or missing derivative only slows or occasionally loses convergence, or biases an estimate, at operating points where the entry matters; a test that converges anyway does not see it.',
 ['src/applications/components/pf_matrix', 'src/applications/components/se_matrix', 'src/applications/modules/dynamic_simulation_dae'],
 [('power flow mismatch and Jacobian', 'src/applications/components/pf_matrix/pf_components.cpp'), ('device residuals and Jacobians', 'src/applications/modules/dynamic_simulation_dae/model_classes/*.cpp vectorValues, setJacobian'), ('network equations', 'src/applications/modules/dynamic_simulation_dae/dsimnetwork.cpp'), ('measurements', 'src/applications/components/se_matrix/se_components.cpp')],
 technique='symbolic differentiation of residual terms extracted path by path from the clang AST, compared with the stored matrix entries as exact rational functions',
 note='Through min and max any alternative is accepted; a model attached to a machine enters by the derivatives it declares; the field current of a machine is taken as constant in its exciter, and limiter states as given. Networks of two buses and one branch with one line element (two for the dynamic simulation) and one measurement stand for all. Whether a residual is the right model is not decided here.')

prop('P90', 'Power flow converges to a solution of the network equations',
 'When the power flow reports convergence, the reported voltages satisfy the power balance of every bus to the requested tolerance.',
 ['inputs'], 'For every network and every tolerance.', 'Tests compare a few solved cases.',
 ['src/applications/modules/powerflow'], [('Newton iteration', 'src/applications/modules/powerflow/pf_app_module.cpp solve')],
 na='Quantifies over floating-point iterates of a Newton solve; no structural clause of it is both checkable from the source and necessary beyond what P10 and P13 (mapper agreement) already decide.')
prop('P91', 'Linear solvers return solutions within the requested tolerance',
 'A linear or nonlinear solver that returns without raising an error has produced a vector whose residual is within the configured tolerance.',
 ['inputs', 'configurations'], 'For every system, solver and tolerance.', 'Tests solve a few small systems.',
 ['src/math'], [('solver wrappers', 'src/math/petsc')],
 na='Convergence is a run-time numeric fact decided inside PETSc; static analysis of this repository cannot bound it.')
prop('P92', 'Partitioning balances the network over processes',
 'After partitioning, every process owns a similar number of buses and the number of cut branches is small.',
 ['inputs', 'configurations'], 'For every network and process count.', 'Tests partition small grids.',
 ['src/partition'], [('graph partitioner', 'src/partition/graph_partitioner.cpp')],
 na='Balance and cut size are properties of ParMETIS output on run-time data; nothing in the source decides them.')
prop('P93', 'State estimation recovers the state from consistent measurements',
 'Given a complete set of exact measurements of a solved case, state estimation returns the voltages of that case.',
 ['inputs'], 'For every network and measurement set.', 'Tests estimate one or two cases.',
 ['src/applications/modules/state_estimation'], [('gain matrix iteration', 'src/applications/modules/state_estimation/se_app_module.cpp solve')],
 na='A numeric round trip through an iterative least squares solve over run-time data; not decidable from the shape of the code.')
