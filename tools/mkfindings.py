import subprocess
H={}
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1); H[s]=h
P=[('C04','writing a block of M'),('C03','Core.output() includes'),('C03','a component coupled with'),('C03','reduce_z keeps'),
('C06','sign of the connection'),('C06','inverse() returned nan'),('C05','copies and sums of cores'),('C05','Core.load() restores'),
('C07','Core.substitute does not change'),('C07','nested definitions'),('C07','Core.substitute applies to the gains'),('C07','Core.freesymbols()'),
('C01','the realizability analysis skipped'),('C01','unlock the realizability'),('C01','gain of transformers'),('C01','endless loop for graphs'),('C01','endless realizability'),
('C02','merge of all the components'),('C02','merge in a serial'),('C03','coefficients of the linear part follow'),
('C09','the scheme of a split method is built once'),('C09','evaluation of the gradient symbols in the structure'),
('C10','number of values of the constant signals'),('C10','close the data file after the evaluation'),('C10','reset of the window of the simulation data'),('C10','index associated with a time on the grid'),('C10','selection of components in the simulation data'),('C10','decimation of the variation of the energy'),('C10','same forms for the sequences of inputs'),
('C15','vectorized evaluations return arrays'),('C15','evaluation of vectors with no selection'),('C15','values of the parameters in the evaluation of observers'),('C15','vectors a and b of a core with connectors'),
('C11','do not share the options for reading'),('C11','does not change the method given as argument'),('C11','applies the changes of configuration'),('C11','applies the changes of parameters'),('C11','restores the initial state'),
('C13','the sum of netlists'),('C13','the sum of graphs'),('C13','netlist files keep the values'),('C13','netlist lines with no arguments'),('C13','nodes labelled by numbers'),
('C13','arguments given with their quotes'),('C14','default values of the parameters of the components'),
('C14','parameter named as another key'),('C14','documented type mfv'),('C14','coil of the pickup'),
('C14','shared by several components appear once'),('C14','plate current of the triode'),
('C14','arguments of the piecewise linear'),
('C12','depend on the sample rate only'),('C12','order of the substitutions'),('C12','several sets of parameters'),('C12','initial values of the C++'),
('C16','returns all the cycles'),('C16','low-pass filter of short')]
WHAT={
'writing a block of M':'set_M<i><j> on a block overlapping its mirror (e.g. xl/x) overwrote the written values',
'Core.output() includes':'output() of a core with connectors lacked the Mycy.cu term',
'a component coupled with':'linear_nonlinear() declared linear a component coupled with a nonlinear one (wrong Q, Zl)',
'reduce_z keeps':'reduce_z() absorbed or mixed dissipations listed in force_wnl',
'sign of the connection':'documentation of add_connector gave the opposite sign to the effective connection',
'inverse() returned nan':'inverse() returned nan instead of the inverse or an error',
'copies and sums of cores':'connect() or add_connector() on a copy/sum changed the connectors of the original',
'Core.load() restores':'attributes defined with setexpr/setsymb were lost by load()',
'Core.substitute does not change':'substitute(subs=d) modified d',
'nested definitions':'substitute with nested definitions left symbols or depended on the order of the dictionary',
'Core.substitute applies to the gains':'gains of connectors kept the substituted symbols, later undefined',
'Core.freesymbols()':'freesymbols() returned an empty set',
'the realizability analysis skipped':'realizable netlists refused: nodes skipped while the list changed',
'unlock the realizability':'realizable netlists refused: unlock chose an edge the others needed',
'gain of transformers':'wrong transformer/gyrator ratio according to the control of its edges; second to_core() differed',
'endless loop for graphs':'endless loop for a graph with a loop attached to a single node',
'endless realizability':'endless analysis of some graphs that can not be realised',
'merge of all the components':'error when all components of a serial connection merge',
'merge in a serial':'error/wrong node when a serial connection containing a parallel one is merged',
'coefficients of the linear part follow':'Q, bl stale after a move inside the linear storages; Zl erased by a move inside the nonlinear dissipations',
'the scheme of a split method is built once':'a method with split=True applied the scheme twice: wrong trajectories',
'evaluation of the gradient symbols in the structure':'a structure matrix that depends on the gradient could not be simulated',
'number of values of the constant signals':'constant signals (no input, no parameter) had the wrong number of values with a decimation',
'close the data file after the evaluation':'the data file stayed open after the evaluation of derived signals',
'reset of the window of the simulation data':'tstart=None did not restore the whole window',
'index associated with a time on the grid':'off-by-one index of a time that lies on the grid',
'selection of components in the simulation data':'wrong or refused selection of components',
'decimation of the variation of the energy':'the variation of energy was computed over the decimated step with the wrong step',
'same forms for the sequences of inputs':'forms accepted for inputs were refused for parameters and conversely',
'vectorized evaluations return arrays':'vectorised evaluation of a constant returned a scalar; scalars refused',
'evaluation of vectors with no selection':'evaluation of a vector with no selection or a single component failed',
'values of the parameters in the evaluation of observers':'observers evaluated with the symbols of the parameters',
'vectors a and b of a core with connectors':'vectors a and b of a core with connectors had the wrong dimension or lacked terms',
'do not share the options for reading':'the reading options set in one simulation appeared in the others',
'does not change the method given as argument':'a simulation changed the method it was built from',
'applies the changes of configuration':'a change of configuration was ignored by init',
'applies the changes of parameters':'a change of parameters was ignored by init',
'restores the initial state':'a second process() after init did not start from the initial state',
}
WHAT.update({'the sum of netlists':'net1+net2 changed net1; net+net did not end','the sum of graphs':'g1+g2 changed g1','netlist files keep the values':'strings, tuples and node names with spaces, slashes, commas... were lost or refused by a file round trip','netlist lines with no arguments':'a line with arguments None could not be built','nodes labelled by numbers':'TypeError when merging components on nodes that are numbers'})
WHAT.update({
'arguments given with their quotes':'arguments given as repr(string) were quoted twice in the file',
'default values of the parameters of the components':'documented default values refused (resistor, inductor, sources, stiffness, thermal transfer) or given as strings (capacitor, inductor)',
'parameter named as another key':'a component whose parameter is named as another of its keys had a wrong law',
'documented type mfv':'magnetic source refused the documented type mfv',
'coil of the pickup':'pickup refused (name, value) and names for Ccoil and Ncoil',
'shared by several components appear once':'a free parameter used by two components appeared twice: simulations failed',
'plate current of the triode':'undefined plate current for negative plate voltages',
'depend on the sample rate only':'matrix elements depending on F_S but on no argument were frozen at construction in the generated C++',
'order of the substitutions':'parameter values exchanged in the generated C++ according to the order or extra keys of subs',
'several sets of parameters':'the parameter file with several sets of values did not compile',
'initial values of the C++':'initial values were rounded to single precision',
'returns all the cycles':'signalgenerator(ncycles>1) returned the last cycle only',
'low-pass filter of short':'lowpass output longer than short inputs, generators refused',
'arguments of the piecewise linear':'integrate, start, stop, step of the piecewise linear components failed'})
extra=[]
try:
    from kf_extra import P as P2, WHAT as W2
    P+=P2; WHAT.update(W2)
except ImportError: pass
out=['# One line per genuine defect of pyphs met by the checks.','# known: property=<id> key=<violation key> <what fails>     (suppressed, reported as KNOWN-FINDING)','# fixed: property=<id> <commit> <what failed>               (suppresses nothing)']
try: out+=open('/tmp/w/known.txt').read().splitlines()
except OSError: pass
for p,k in P:
    m=[h for s,h in H.items() if k in s]; assert len(m)==1,(k,m)
    out.append('fixed: property=%s %s %s'%(p,m[0],WHAT[k]))
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(out)+'\n')
left=[s for s in H if s.startswith('fix:') and not any(k in s for _,k in P)]
print('not listed:',left)
