import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
add('C01','A netlist becomes a core that obeys Kirchhoff and the component laws',
"For every netlist of two-terminal components, transformers and gyrators, in any topology, orientation and line order, the core built from it has a power-conserving (skew-symmetric) interconnection and exactly the input-output and stored-energy behaviour that Kirchhoff's laws and the components' constitutive laws give. A netlist with a unique solution and independent storages is built (when it has transformers or gyrators, provided that they separate the circuit in two sides). Otherwise the construction may end with an error, but it never returns a wrong core and never hangs.",
['programs','inputs'],'every netlist (multigraph of components with orientations, line orders, control types), every parameter value',
'The tests build about ten example circuits and mostly only check that nothing raises; the realizability analysis depends on topology, edge order and orientation, which a handful of circuits cannot cover.',
['pyphs/graphs/graph.py','pyphs/graphs/analysis.py','pyphs/graphs/build.py','pyphs/graphs/tools.py','pyphs/dictionary/edges','pyphs/dictionary/electronics','pyphs/dictionary/connectors'],
[('realizability analysis chooses the control of each edge','pyphs/graphs/analysis.py GraphAnalysis'),('incidence matrix inversion and symbol sorting','pyphs/graphs/build.py buildCore'),('netlist lines to graph edges','pyphs/graphs/graph.py Graph._build_from_netlist')],
['Netlist.to_core()','Graph.to_core()'])
add('C02','Merging serial and parallel components keeps the circuit behaviour',
"When components that cannot be realised separately (same-type storages, dissipatives in series or in parallel, of any orientation and number) are merged automatically, the resulting core has the same input-output behaviour, the same stored energy and the same dissipated power as the original circuit; asking for the merge of everything that can be merged changes neither.",
['programs','inputs'],'every group of mergeable components, orientations, nesting and parameter values, merge_all on or off',
'One test circuit exercises each kind of merge with one orientation; sign errors and wrong equivalent laws appear only for other orientations, mixed groups or nestings.',
['pyphs/graphs/subgraph.py','pyphs/graphs/graph.py','pyphs/graphs/tools.py'],
[('equivalent law of a merged group','pyphs/graphs/subgraph.py'),('detection of serial and parallel groups','pyphs/graphs/tools.py, Graph.sp_split'),('replacement of a sub-graph by the merged edge','pyphs/graphs/graph.py Graph.sp_merge_arc')],
['Graph.to_core(merge_all=...)'])
add('C03','Reorganising a core never changes the system it describes',
"Moving storages, dissipations, ports or connectors, splitting into linear/nonlinear or mono/multivariate parts and absorbing the linear dissipation in the structure, in any order and any number of times, keep the represented system: each symbol keeps its equation, its energy or dissipation law and its paired input/output, and the total power balance is unchanged. After a split the declared linear part is linear, with coefficient matrices that give its laws.",
['histories','programs'],'every sequence of reorganisations on every core',
'Tests apply single reorganisations to one or two cores and compare few attributes; wrong permutations show only for particular index pairs, asymmetric matrices and repeated operations.',
['pyphs/core/structure/moves.py','pyphs/core/structure/splits.py','pyphs/core/structure/R.py','pyphs/core/structure/indices.py','pyphs/core/structure/dimensions.py','pyphs/core/core.py'],
[('simultaneous permutation of symbols, laws, rows and columns','pyphs/core/structure/moves.py'),('classification of linear and single-variable parts','pyphs/core/structure/splits.py'),('algebraic elimination of linear dissipation','pyphs/core/structure/R.py')],
['Core.x, w, z, u, y, cu, cy, M, H, Q, Zl, bl, dims'])
add('C04','Interconnection blocks: reads return writes and nothing else changes',
"After any sequence of block assignments, through any of the named blocks of the full, conservative or resistive structure matrix, reading a block returns what was last written to those entries, the mirrored block follows with the proper sign, the other part (resistive when writing conservative, and conversely) and all unrelated entries are unchanged. The full matrix always equals the conservative part minus the resistive part, the former skew-symmetric and the latter symmetric.",
['histories','inputs'],'every sequence of assignments to every block, every dimension and linear/nonlinear partition',
'There are 192 accessors generated in loops; tests touch a few of them, once each, on non-partitioned systems.',
['pyphs/core/core.py','pyphs/core/structure/indices.py','pyphs/core/structure/dimensions.py'],
[('generated getters and setters','pyphs/core/core.py _build_get_mat/_build_set_mat'),('block index ranges','pyphs/core/structure/indices.py')],
['Core.set_Jxw(...) etc., Core.Jxw() etc., Core.M, Core.J(), Core.R()'])
add('C05','Copies, saved files and sums of cores are faithful and independent',
"A copy of a core, a core reloaded from disk, and the sum of two cores describe exactly the same system(s) as the originals at the time of the operation, in every attribute a user can read. Later changes to one object are never visible in the other, whatever the order of copies, saves, loads, sums and modifications.",
['histories'],'every interleaving of copy, save, load, sum and modification operations on every core',
'Tests copy or reload once and compare a few attributes; aliasing needs a later modification of the right attribute to show.',
['pyphs/core/core.py'],
[('attribute list copied, saved, loaded','pyphs/core/core.py __copy__, save, load'),('block-diagonal composition','pyphs/core/core.py __add__')],
['copy.copy(core)','Core.save','Core.load','core1 + core2'])
add('C06','Connecting ports yields exactly the stated power-conserving connection',
"Declaring connectors between ports of a core and applying the connection, for any choice and order of port pairs, any gains (numbers or symbols) and any system, gives the core whose remaining equations are those of the original with each connected pair constrained by u_a = -alpha*y_b and u_b = alpha*y_a. The connected ports disappear, other ports keep their order, no power is created or lost in the connection, and a connection that is algebraically impossible is refused with an error.",
['histories','inputs'],'every system, set of port pairs, gain and order of declaration',
'The tests connect one pair in two systems; index shifting when several connectors are declared and the algebraic-loop term matter only with several pairs or direct feed-through.',
['pyphs/core/core.py','pyphs/core/structure/connectors.py','pyphs/core/structure/moves.py','pyphs/dictionary/connectors'],
[('port to connector conversion','pyphs/core/structure/connectors.py port2connector'),('elimination of the connector variables','pyphs/core/core.py connect')],
['Core.add_connector','Core.connect'])
add('C07','Substitution and simplification keep the value of every expression',
"Applying substitutions (given or stored, nested, partial, in any order), simplification or the replacement of inverse parameters to a core keeps the value of its energy, dissipation laws, structure matrix, observers and connector gains under the same parameter values, and keeps all its symbols in order. Arguments given by the caller are not modified.",
['histories','inputs'],'every dictionary of substitutions, every core, every order of application',
'Tests run each routine on one core and check that it does not raise; value preservation needs nested definitions, partial dictionaries and evaluation of all expressions.',
['pyphs/core/tools/_substitutions.py','pyphs/core/tools/_simplify.py','pyphs/core/tools/_subsinverse.py','pyphs/core/core.py'],
[('recursive substitution in all expressions','pyphs/core/tools/_substitutions.py'),('inverse parameter replacement','pyphs/core/tools/_subsinverse.py'),('simplification of expressions','pyphs/core/tools/_simplify.py')],
['Core.substitute','Core.simplify','Core.subsinverse','Core.freesymbols'])
add('C08','The numerical scheme conserves power at every time step',
"With the discrete-gradient option, at every time step of every simulation the variation of stored energy plus the dissipated energy equals the energy supplied through the ports up to the solver tolerance, for linear and nonlinear, separable and coupled storage functions, whatever the state ordering and whether or not the explicit part is split. Hence with zero input and passive components the stored energy never increases.",
['histories','inputs','configurations'],'every core, input and parameter sequence, step, splitting option, sample rate',
'Tests run long simulations of few systems and do not check the balance; the identity fails only for particular couplings, zero increments or orderings.',
['pyphs/numerics/numerical_method/_discrete_calculus.py','pyphs/numerics/numerical_method/_method.py','pyphs/numerics/numerical_core/_numerical_core.py'],
[('discrete gradient','pyphs/numerics/numerical_method/_discrete_calculus.py'),('update of the state','pyphs/numerics/numerical_core/_numerical_core.py')],
['Simulation.data.x/dx/dxH/w/z/u/y/E/dtE/pd/ps'])
add('C09','Each simulated step solves the selected scheme, split or not',
"For every core, gradient option, theta value, sample rate, input, parameter and initial-value sequence, each simulated step satisfies the equations of the selected scheme within the solver tolerance: state increment, dissipation variables and outputs are those given by the structure, the gradient and the laws evaluated as the scheme prescribes. Splitting into explicit and implicit parts gives the same trajectory as not splitting whenever the discrete gradient does not depend on the partition.",
['histories','inputs','configurations'],'every core, configuration and input history',
'Tests check that simulations run to the end; no independent integrator is compared, and options are not combined.',
['pyphs/numerics/numerical_method/_method.py','pyphs/numerics/numerical_method/_discrete_calculus.py','pyphs/numerics/numerical_core/_numerical_core.py','pyphs/numerics/tools/_lambdify.py','pyphs/numerics/tools/_operation.py'],
[('symbolic construction of the scheme','pyphs/numerics/numerical_method/_method.py'),('Newton iterations and update actions','pyphs/numerics/numerical_core/_numerical_core.py')],
['Numeric.update','Simulation.process'])
add('C10','Simulation data read back exactly what was simulated, for any window',
"Whatever inputs are given (arrays, lists, generators, default) and for any simulation length, data read from a simulation are exactly the sequences fed in and computed, aligned on the same time index; any combination of start, stop, decimation and component selection returns the corresponding slice of the full sequences, and derived signals are consistent with them. Reading never alters the stored data, and reopening the file gives the same values.",
['histories','inputs'],'every length, input kind, chunk boundary, window, selection and order of reads',
'Tests read default windows of one simulation; off-by-one errors depend on lengths relative to chunk size, step and window.',
['pyphs/numerics/simulations/h5data/h5data.py','pyphs/numerics/simulations/h5data/tools.py','pyphs/numerics/simulations/simulation.py'],
[('chunked dump of sequences','pyphs/numerics/simulations/h5data/h5data.py, tools.py'),('time-window slices','pyphs/numerics/simulations/h5data/h5data.py _tslice, _tuple2slice')],
['Simulation.data accessors'])
add('C11','Simulations are deterministic, repeatable and independent of each other',
"The result of a simulation depends only on its core, configuration, initial values and inputs: running it again after re-initialisation, after other simulations were created, run or re-configured in between, or in a fresh object gives the same data. Running or configuring one simulation or building a method never changes the core it came from nor another simulation's results.",
['histories','configurations'],'every interleaving of creation, initialisation, re-configuration, run and read of several simulations',
'Tests run one simulation per process-wide configuration; shared mutable defaults need two live objects and a particular order.',
['pyphs/numerics/simulations/simulation.py','pyphs/numerics/numerical_core/_numerical_core.py','pyphs/numerics/numerical_method/_method.py','pyphs/config.py'],
[('copies of core and configuration at construction','pyphs/numerics/numerical_method/_method.py, simulation.py'),('re-initialisation','pyphs/numerics/simulations/simulation.py init')],
['Core.to_simulation','Simulation.init','Simulation.process'])
add('C12','The generated C++ simulation computes what the Python one computes',
"For every core, method configuration, initial values, input and parameter sequences, the C++ program generated, compiled and run by the library produces the same states, increments, dissipation variables, outputs and gradients as the Python simulation, sample by sample, within numerical tolerance.",
['programs','configurations','inputs'],'every core and configuration, every input sequence',
'One linear example is compiled in the tests and its numbers are not compared.',
['pyphs/numerics/cpp','pyphs/numerics/simulations/simulation.py','pyphs/templates/cpp'],
[('translation of expressions, operations and updates','pyphs/numerics/cpp/method2cpp.py, functions.py, operations.py'),('simulation main and data exchange','pyphs/numerics/cpp/simu2cpp.py, h5data/asciidata.py')],
['Simulation(lang=c++).process'])
add('C13','Netlists survive any edit history and file round trip',
"After any sequence of adding, replacing, deleting, reading and concatenating lines, a netlist contains exactly the lines a plain list of (dictionary, component, label, nodes, arguments) would contain (labels and names without the separators of the format: colon, semicolon, equal sign), and writing it to a file then reading it gives the same lines with the same node names and argument names and values. The core built from the re-read netlist is the same as from the original.",
['histories','inputs'],'every edit sequence, argument value and file round trip',
'Tests write and read the example netlists; multi-step edits and unusual argument forms are not combined.',
['pyphs/graphs/netlists.py'],
[('parallel lists of fields','pyphs/graphs/netlists.py Netlist'),('line parsing and printing','pyphs/graphs/netlists.py')],
['Netlist'])
add('C14','Dictionary components are passive and independent of parameter form',
"For every component of the dictionary and admissible parameter values, the stored energy is non-negative with zero minimum at rest, the dissipated power is never negative, and effort-controlled and flow-controlled forms of a law describe the same characteristic. Giving a parameter as a number, as a (name, value) pair or as a free name assigned later yields the same component.",
['programs','inputs'],'every component, parameter form, parameter value and operating point',
'Tests build most components once with default values and never evaluate their laws.',
['pyphs/dictionary'],
[('laws of components','pyphs/dictionary/*/_*.py'),('edge classes','pyphs/dictionary/edges'),('parameter mapping','pyphs/dictionary/tools.py')],
['Netlist lines of each component'])
add('C15','Numerical functions return the values of the symbolic expressions',
"For every core and every name of a vector, function, matrix or block, the numerical function obtained from it returns, for scalar or vectorised arguments and any admissible argument values, the value of the symbolic expression under the core's substitutions, with the corresponding shape and component selection. Building or calling it does not change the core, and chained operations give the value of their composed expression.",
['programs','inputs'],'every core, name, argument values, vectorisation and selection option',
'Tests evaluate few names at one point.',
['pyphs/numerics/tools/_evaluation.py','pyphs/numerics/tools/_lambdify.py','pyphs/numerics/tools/_operation.py','pyphs/numerics/numerical_core/_numerical_core.py'],
[('lambdification with substitution and argument selection','pyphs/numerics/tools/_lambdify.py'),('vectorised evaluation','pyphs/numerics/tools/_evaluation.py')],
['Core.to_evaluation','Evaluation','Numeric'])
add('C16','Synthesised signals, sound files and signal tools give the prescribed samples',
"For every kind of synthesised signal and every setting, the samples have the length that the duration, the sample rate, the repetitions and the silent parts prescribe, and each sample is the value of the signal at its time under the duty cycle, the envelope, the ramp and the offset. Writing samples, or the data of a simulation, to a sound file then reading them returns them within the quantisation of the file, with the sample rate preserved. The low-pass filter and the transfer-function tools compute their definition, with the length and the alignment of their input.",
['inputs','configurations'],'every signal kind, setting and sample sequence',
'Tests generate one signal with default settings.',
['pyphs/misc/signals/synthesis/synthesis_array.py','pyphs/misc/signals/waves.py','pyphs/misc/signals/processing.py','pyphs/misc/signals/analysis.py','pyphs/numerics/simulations/h5data/h5data.py'],
[('array synthesis','pyphs/misc/signals/synthesis/synthesis_array.py'),('filter and transfer functions','pyphs/misc/signals/processing.py, analysis.py'),('file exchange','pyphs/misc/signals/waves.py')],
['pyphs.signalgenerator','pyphs.misc.signals.waves'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
