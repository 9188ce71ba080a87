#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

CI = "src/pyRFtk/rfCircuit.py"
prop("C01", "A circuit's S-matrix is the solution of the network that was assembled",
 "For every circuit assembled from blocks, connections and terminations, the S-matrix returned at any frequency and for any reference impedance is the one obtained from Kirchhoff's laws at every junction, each block's own scattering relation and each termination's voltage-current law. It does not depend on the names chosen, on the order in which blocks, connections and terminations were made (beyond the order of the resulting ports), or on whether part of the network is built flat or as nested circuits with their own reference impedance.",
 ["programs", "inputs"], "all assembly programs (topology, junction degree, new-port connections, Z/Y/RC terminations, nesting, reference impedances), all frequencies",
 "The tests build about ten fixed circuits and mostly only check that nothing raises; a wrong junction, load or wave equation passes them.",
 [CI, "src/pyRFtk/ConvertGeneral.py"], [("system matrix assembly", f"{CI}: addblock, connect, terminate"), ("solution", f"{CI}: extS, getS")],
 [("M, waves, eqns", "linear system over the forward/backward waves", CI), ("C, T, E", "junction, termination, excitation equations", CI)], ["rfCircuit.getS"])

prop("C02", "A circuit's answer depends only on its present definition, not on past queries",
 "At any point of any sequence of building steps, element changes, block replacements, terminations, and queries (S-matrix, node solution, maximum voltage) at any frequencies, reference impedances and flags, a query returns what a circuit freshly built in the present state returns. In particular no result computed for an earlier frequency, excitation, flag, parameter or element value is ever returned for a later one, including inside nested circuits and elements; and a circuit that has been solved can be built further like one that has not.",
 ["histories"], "all interleavings of mutations and queries on a circuit and on the objects inside it, made through the circuit's interface",
 "The tests run each circuit through one short fixed history; cached matrices and cached line solutions only go stale for particular orders of operations.",
 [CI, "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfBase.py"], [("cache and invalidation", f"{CI}: getS/get1S, set, terminate, addblock, connect"), ("line cache", "src/pyRFtk/rfTRL.py: solved, set")],
 [("f, S, flags, invM", "last solution and its key", CI), ("solved", "per-frequency line solution", "src/pyRFtk/rfTRL.py")], ["rfCircuit.getS", "rfCircuit.Solution", "rfCircuit.maxV"])

prop("C03", "External ports: exactly the unused ones, in the announced order, with positions",
 "After any assembly steps the circuit's external ports are exactly the block ports and new junction ports that no connection or termination has consumed, in order of creation, or in the order announced with Portnames when that is given, and the rows and columns of every result follow that order. Each external port keeps the position of the block port (block position plus the port's offset) or junction it belongs to.",
 ["programs", "histories"], "all assembly programs with every way of naming ports (dict renames, lists, format strings, defaults) and every Portnames permutation",
 "One port-order test with one permutation exists; port lists, positions and rows are otherwise unchecked.",
 [CI], [("port bookkeeping", f"{CI}: addblock, connect, terminate, getpos"), ("port ordering", f"{CI}: extS")],
 [("ports, xpos, Portnames", "external ports, positions, requested order", CI)], ["rfCircuit.ports", "rfCircuit.xpos", "len(rfCircuit)"])

prop("C04", "Node voltages and currents solve the excited network",
 "For any excitation of the external ports the voltages, currents and waves reported at every node, at every nesting level, satisfy Kirchhoff's laws at the junctions, each block's scattering relation and each termination's law, and reproduce the excitation at the external ports. They are linear in the excitation, and voltage and current are the same whichever reference impedance the equivalent excitation is expressed in.",
 ["inputs", "programs"], "all assembly programs, nesting depths, complex excitations, frequencies, reference impedances and node selections",
 "The tests never examine the node solution of a circuit.",
 [CI], [("back substitution", f"{CI}: solve, Solution")], [("sol, tSol", "waves and node quantities", CI)], ["rfCircuit.Solution", "rfCircuit.solve"])

prop("C05", "Changing reference impedance or wave type never changes the physics",
 "Converting S-matrices between reference impedances (scalar, per-port, per-frequency and per-port; complex where the wave definition allows it) and between voltage, power and generalized wave definitions leaves the set of port voltages and currents described unchanged. Converting back returns the original, converting in two steps equals converting in one, and the result has the shape of the input (scalar, list of frequencies, matrix, array of matrices).",
 ["inputs"], "all S-matrices, port counts, frequency counts, impedance forms and wave-type pairs",
 "No test examines a converted value; only particular combinations of shape, type and impedance form exercise each coefficient.",
 ["src/pyRFtk/ConvertGeneral.py", "src/pyRFtk/_check_3D_shape_.py"], [("wave/VI coefficients", "src/pyRFtk/ConvertGeneral.py: coeffs")], [], ["ConvertGeneral"])

prop("C06", "S, Z, Y and V-I representations of one network agree",
 "For any network the conversions between scattering, impedance, admittance and two-port voltage-current matrices all describe the same port voltages and currents at the given reference impedance, whatever the input shape (scalar, list of frequencies, matrix, array of matrices). Conversions that are each other's inverse return the original.",
 ["inputs"], "all matrices for which the representation exists, all shapes and reference impedances",
 "No test calls these conversions on known data.",
 ["src/pyRFtk/S_from_Z.py", "src/pyRFtk/S_from_Y.py", "src/pyRFtk/Z_from_S.py", "src/pyRFtk/Y_from_S.py", "src/pyRFtk/S_from_VI.py"],
 [("representation formulas", "src/pyRFtk/*_from_*.py")], [], ["S_from_Z", "S_from_Y", "Z_from_S", "Y_from_S", "S_from_VI", "rfObject.S_from_Z", "rfObject.S_from_Y"])

prop("C07", "Passive stays passive, lossless stays lossless, reciprocal stays reciprocal",
 "Every element with non-negative losses and every circuit assembled from passive blocks and loads, at every frequency, reflects and transmits no more power than it receives; without any loss it conserves power exactly; and with reciprocal blocks its S-matrix is symmetric. At the nodes, the power entering a circuit equals the power dissipated in its blocks and loads.",
 ["inputs", "programs"], "all passive element parameters, frequencies, reference impedances and assemblies",
 "Tests check no power balance; a wrong sign or factor changes no test outcome.",
 [CI, "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfCoupler.py"], [("element laws", "src/pyRFtk/rf*.py: getS, get1S"), ("assembly", f"{CI}: connect, terminate, extS")], [], ["getS of every element and circuit", "rfCircuit.Solution"])

prop("C08", "A copy is equivalent to its original and fully independent of it",
 "Copying any RF object or circuit, at any point of its history, yields an object that answers every query as the original does at that moment and accepts the same further operations; a copied table compares equal to its original until one of them is changed. No later operation on either one, or on the objects nested in it, changes what the other answers.",
 ["histories"], "all object kinds (table, line, ladder, coupler, arc, circuit, model circuit), copy()/copy.copy/copy.deepcopy, all operation sequences before and after the copy",
 "The tests copy one or two objects once and never examine both sides afterwards.",
 ["src/pyRFtk/rfBase.py", CI, "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfObject.py", "src/pyRFtk/rfGTL.py"],
 [("deep copies", "copy/__copy__/__deepcopy__ in each class")], [], ["copy", "copy.copy", "copy.deepcopy", "getS of both"])

prop("C09", "Replacing a block by its path changes exactly that occurrence",
 "Replacing a block, at the top level or through a dotted path into nested circuits, makes the enclosing circuit behave as if it had been built with the new block at exactly that place. Other occurrences of a nested circuit that is used several times, and the objects the caller still holds, are unaffected, parameters set earlier for the replaced block do not carry over, and a replacement with another number of ports is refused.",
 ["histories", "programs"], "all nestings, shared sub-circuits, path depths and replacement objects, before or after queries",
 "One test replaces nothing through a path; aliasing only shows with shared sub-circuits.",
 [CI], [("path replacement", f"{CI}: addblock"), ("path lookup", f"{CI}: findObj, object, listBlocks")], [("blocks", "name to block record", CI)], ["rfCircuit.getS", "rfCircuit.object", "rfCircuit.findObj", "rfCircuit.listBlocks"])

prop("C10", "set() takes effect identically through every way of addressing a parameter",
 "Setting element parameters through a circuit by keyword with a dict, by a (path, value) pair, by tuple, or by nested dicts, at any depth, gives exactly the circuit that would have been built with those values, several requests in one call taking effect one after the other. set() reports whether anything changed, changes only the addressed parameters, and the effect is visible at the next query at every level.",
 ["histories", "inputs"], "all addressing forms, nesting depths, parameters and value changes, with queries in between",
 "The tests use one form on one level and never compare with a rebuilt circuit.",
 [CI, "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfBase.py"], [("recursive set", f"{CI}: set"), ("element set", "rfRLC.set, rfTRL.set, rfBase.set")], [], ["rfCircuit.set", "rfCircuit.getS"])

prop("C11", "Invalid requests are refused and leave the object as it was",
 "Connecting or terminating an unknown or already consumed port, creating two new ports at once, a new port name containing a dot, addblock with unknown or too few port names, replacing a block with another port count or below an unknown path, contradictory terminations, unknown parameters, undefined frequencies and wrongly shaped matrices are refused with an exception. After a refusal every port list, position and query answers exactly as before the call.",
 ["histories", "inputs"], "all invalid requests at all points of all histories",
 "The tests issue almost no invalid request and never continue after one.",
 [CI, "src/pyRFtk/rfObject.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfBase.py"], [("argument validation", f"{CI}: addblock, connect, terminate, set")], [], ["exceptions", "ports", "xpos", "getS"])

prop("C12", "Calls never modify the caller's arguments nor keep them as shared state",
 "No public call modifies the lists, dicts, arrays or objects passed to it, unless modifying that object is the call's purpose. Later modifications by the caller of the lists, dicts and arrays passed or of arrays returned do not change what an object answers.",
 ["inputs", "histories"], "all calls taking or returning mutable values",
 "The tests never look at an argument after the call.",
 [CI, "src/pyRFtk/rfObject.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfBase.py", "src/pyRFtk/rfTRL.py"], [("argument copying", "constructors, addblock, getS, setS, deembed, maxV")], [], ["arguments after the call", "later queries"])

prop("C13", "A table object returns what is stored exactly and interpolates its present data",
 "A table object returns every stored S-matrix exactly, whatever the order of insertion, and between stored frequencies interpolates the present contents in the selected mode (magnitude-angle, dB, real-imaginary; polynomial order limited by the number of points). Any sequence of insertions, overwriting, port reordering, impedance conversion, de-embedding, copying and pickling keeps frequencies, matrices, port names and positions consistent with one another and with later queries.",
 ["histories", "inputs"], "all histories of table operations and queries, all modes and numbers of points",
 "The test stores a few matrices in order and reads them back.",
 ["src/pyRFtk/rfObject.py"], [("table and interpolation", "src/pyRFtk/rfObject.py: setS, getS, _interp_, _sort_fs_, sortports, convert2newZbase, deembed")],
 [("fs, Ss, interpOK", "table and validity of interpolants", "src/pyRFtk/rfObject.py")], ["rfObject.getS", "rfObject.fs", "rfObject.ports"])

prop("C14", "Writing a touchstone and reading it back reproduces the object",
 "For every object, every writer, every supported format (RI, MA, DB), unit, reference impedance and number of ports, reading the written touchstone gives the same ports, frequencies and S-matrices, within the printed precision, at any reference impedance asked for.",
 ["inputs", "configurations"], "all port counts (including 2-port non-reciprocal and more than 4), frequency grids, formats, units, impedances and writers",
 "The tests write at most one file and do not compare it after reading.",
 ["src/pyRFtk/rfBase.py", "src/pyRFtk/WriteTSF.py", "src/pyRFtk/ReadTSF.py", "src/pyRFtk/rfObject.py"], [("writers", "rfBase.tsf2str/write_tsf, WriteTSF"), ("reader", "ReadTSF")], [], ["rfBase.tsf2str", "rfBase.write_tsf", "WriteTSF", "ReadTSF", "rfObject(touchstone=)"])

prop("C15", "Equivalent touchstone texts are read as the same network",
 "The network read from a touchstone does not depend on how it is written down: frequency unit, number format, order and case of the format items, line wrapping, comments, blank lines, and where the text comes from (path, open file, string). S, Z and Y data, a reference impedance in the header, and per-frequency port impedances in comments are converted to the requested impedance, and special comments are returned as given.",
 ["inputs"], "all touchstone version 1 texts describing a network in any of the equivalent ways",
 "The tests read one file in one format.",
 ["src/pyRFtk/ReadTSF.py", "src/pyRFtk/getlines.py"], [("parsing", "ReadTSF"), ("source selection", "getlines")], [], ["ReadTSF", "rfObject(touchstone=)"])

prop("C16", "Transmission-line sections obey the telegraphist's equations",
 "For any line parameters and length the S-matrix, the voltage and current along the line and their values at both ports satisfy the telegraphist's equations: cutting a line in two and cascading the parts gives the same result, a zero-length line is a direct connection, and a line described by equal values at several positions equals the constant one. The voltage standing wave starts and ends at the port voltages implied by the S-matrix, also for tapered lines, every reference impedance and every spatial step.",
 ["inputs"], "all line parameters (constant, arrays, position tables), lengths, frequencies, impedances, excitations, step settings",
 "The tests evaluate a few lines at one frequency and compare nothing.",
 ["src/pyRFtk/rfTRL.py", "src/pyRFtk/S_from_VI.py"], [("line solution", "src/pyRFtk/rfTRL.py: solveVI, getS, VISWs, maxV")], [], ["rfTRL.getS", "rfTRL.solveVI", "rfTRL.VISWs", "rfTRL.maxV"])

prop("C17", "Equivalent ways of specifying a line give the same line",
 "The same physical line specified through any sufficient combination of its parameters (characteristic impedance, velocity, inductance, capacitance, diameters, permittivity, permeability, resistances, resistivities, loss tangent, conductivity, attenuation) in any keyword order has the same series impedance and shunt admittance per length, and every derived parameter satisfies the defining relations with the others. Given parameters are kept as given.",
 ["inputs", "configurations"], "all sufficient parameter subsets, keyword orders and values, frequencies",
 "The tests use two or three parameter combinations.",
 ["src/pyRFtk/resolveTLparams.py", "src/pyRFtk/rfTRL.py"], [("resolver", "src/pyRFtk/resolveTLparams.py: EQNS, solveit")], [], ["TLresolver", "rfTRL.getS"])

prop("C18", "The RLC ladder follows its circuit diagram at every frequency",
 "For any element values including absent ones, any frequency including zero, and any reference impedance, the ladder's S-matrix is that of series Rs, Ls, Cs followed by the parallel Rp, Lp, Cp to ground. Its voltages, its answers for lists of frequencies and its behaviour after set() agree with this.",
 ["inputs", "histories"], "all element values, frequencies, impedances, and set/getS/copy orders",
 "The tests evaluate a handful of ladders away from zero frequency.",
 ["src/pyRFtk/rfRLC.py"], [("ladder law", "src/pyRFtk/rfRLC.py: getS, set, maxV")], [], ["rfRLC.getS", "rfRLC.maxV"])

prop("C19", "De-embedding undoes embedding",
 "Removing known line sections from the ports of a table object, or a known network from a circuit, returns what was there before they were added: embedding followed by de-embedding is the identity at every frequency, for any subset of ports and any accepted form of the description. The remaining ports keep their names and meaning.",
 ["inputs", "programs"], "all networks, port subsets, lengths (positive and negative), impedances and description forms",
 "One test de-embeds one network.",
 ["src/pyRFtk/rfObject.py", CI], [("table de-embedding", "src/pyRFtk/rfObject.py: deembed"), ("circuit de-embedding", f"{CI}: deembed")], [], ["rfObject.deembed", "rfCircuit.deembed"])

prop("C20", "A model file means the circuit it describes",
 "A generalized transmission-line model read from a file behaves exactly as the circuit built by hand from its blocks, units, variables (global overriding local, caller overriding both, in any order of definition), terminations and connections. Its ports are the declared ones in the declared order, port positions are consistent along the network, and with an attached touchstone the table or the model is used as the flag asks.",
 ["inputs", "programs"], "all models: topologies, variables and expressions, terminations, positions, units, flags",
 "The model test does not run at this commit.",
 ["src/pyRFtk/rfGTL.py"], [("model construction", "src/pyRFtk/rfGTL.py: __init__"), ("table or model", "src/pyRFtk/rfGTL.py: getS, getSgtl")], [], ["rfGTL.getS", "rfGTL.getSgtl", "rfGTL.ports", "rfGTL.maxV"])

prop("C21", "The reported maximum voltage and standing waves are those of the excited network",
 "For any circuit and excitation, maxV reports the largest voltage magnitude over all nodes and lines at every level together with a locator of it, and the returned tree holds for every node and line the voltage magnitude that the node solution implies at that place. Positions are the block positions plus offsets at every level; scaling the tree scales every voltage and nothing else.",
 ["inputs", "programs"], "all assemblies, nestings, excitations, impedances, block positions",
 "The tests only draw the tree.",
 [CI, "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfObject.py", "src/pyRFtk/rfBase.py", "src/pyRFtk/plotVSWs.py", "src/pyRFtk/maxfun.py"],
 [("recursive maximum", f"{CI}: maxV"), ("element maxima", "maxV of each class"), ("scaling", "src/pyRFtk/plotVSWs.py: scaleVSW")], [], ["maxV", "scaleVSW", "strVSW"])

prop("C22", "Files, text and data sources are found and read by their documented precedence",
 "A file name is resolved to the first existing candidate in the documented order of environment, user and application directories, and a missing file is reported as documented. Text is delivered as the same lines whether given as a path, an open file or a multi-line string, and a data file yields the dictionary it contains.",
 ["configurations", "inputs"], "all combinations of existing candidates, directory lists, environment settings and text sources",
 "No test calls these functions directly.",
 ["src/pyRFtk/findpath.py", "src/pyRFtk/getlines.py", "src/pyRFtk/ReadDictData.py"], [("search order", "src/pyRFtk/findpath.py"), ("line source", "src/pyRFtk/getlines.py")], [], ["findpath", "getlines", "ReadDictData"])

prop("C23", "Logging never changes results",
 "For every sequence of operations, results and refusals are identical at every log level, and changing the level at any time has no other effect. Nested entry and exit records stay balanced after every operation that returns.",
 ["histories", "configurations"], "all operation sequences at all log levels and level changes",
 "The tests run at one level.",
 ["src/pyRFtk/config.py", CI], [("guarded logging", "logit / logident / ident in every module")], [("ident.N", "nesting depth of the log", "src/pyRFtk/config.py")], ["results at each level", "log nesting"])

prop("C24", "The S-matrix seen from internal nodes is consistent with the node solutions",
 "For any choice of as many internal nodes as there are external ports, the S-matrix returned for them relates, for every excitation of the external ports, the outgoing to the incoming waves found at those nodes by the node solution, with a node reversed when so marked and at the requested reference impedance. For fewer nodes than external ports it is the matrix that fits that relation best in the least-squares sense; more nodes than external ports are refused.",
 ["programs", "inputs"], "all circuits, node choices, reversals, impedances",
 "No test compares it with anything.",
 [CI], [("internal S-matrix", f"{CI}: Get_internalSmatrix")], [], ["rfCircuit.Get_internalSmatrix", "rfCircuit.Solution"])

prop("C25", "Evaluating many frequencies equals evaluating each one",
 "For every object and circuit, the S-matrices for a list or array of frequencies, in any order and with repetitions, are the array of the single-frequency results in the same order and have one matrix per frequency of the documented shape. Evaluating them leaves no trace in later answers.",
 ["inputs", "histories"], "all objects and frequency lists (unordered, repeated, one element, array or list)",
 "The tests evaluate ordered lists and compare nothing.",
 [CI, "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfObject.py", "src/pyRFtk/rfBase.py"], [("frequency loops", "getS of each class")], [], ["getS"])

prop("C26", "Arc and coupler elements obey their defining laws",
 "The arc element is the one-port inductance to ground it was given (an absent arc is an open), and the coupler is the matched, lossless, reciprocal four-port with the given coupling at its centre frequency and the ideal coupled-line frequency dependence, with facing ports coupled and diagonal ports isolated. Both hold at every frequency and reference impedance, inside circuits, and after changing a parameter.",
 ["inputs", "histories"], "all arc inductances, coupling values in both notations, lengths or centre frequencies, frequencies, impedances",
 "The tests build one of each and compare nothing.",
 ["src/pyRFtk/rfArcObj.py", "src/pyRFtk/rfCoupler.py", "src/pyRFtk/rfBase.py"], [("arc law", "src/pyRFtk/rfArcObj.py: get1S"), ("coupler law", "src/pyRFtk/rfCoupler.py: __init__, get1S")], [], ["rfArcObj.getS", "rfCoupler.getS"])

prop("C27", "Blocks and nodes are found under their paths",
 "listBlocks gives the dotted paths of exactly the blocks present at every level, each circuit's own blocks in order of creation and each followed by what it contains. findObj and object return for each of these paths the very object that is used there, shared with the caller or with other occurrences exactly where the caller's own steps made them shared, with the S-matrix it has in its present state; and an unknown path is reported as such (None, or an exception) without changing anything. getpos gives the position of every node at every level, the block positions plus offsets, also for nodes that are no longer external ports; len is the number of external ports.",
 ["histories", "inputs"], "all nested circuits, model files and paths, before and after queries, copies, replacements, de-embedding and set",
 "No test navigates a nested circuit; what is found depends on the history of copies and replacements.",
 [CI, "src/pyRFtk/rfGTL.py"], [("listing", f"{CI}: listBlocks"), ("finding", f"{CI}: findObj, object"), ("positions", f"{CI}: getpos")], [], ["rfCircuit.listBlocks", "rfCircuit.findObj", "rfCircuit.object", "rfCircuit.getpos"])

prop("C28", "What is printed and plotted is what was computed",
 "strVSW and str_dict list every entry of a voltage tree once, in order and at its level, with its own positions (with their sign) and voltage magnitudes; calling them again gives the present tree only. plotVSWs draws every line of the tree with its positions and voltage magnitudes (and every node when asked), labelled down to the requested level, and its pointer names the entry nearest to the pointer by its full path, with the voltage there. The matrix printers print every element of the matrix at its place in the requested notation (real/imaginary, magnitude/angle, dB, real) to the printed precision, and compareSs shows magnitude and phase of every element of every set against its own frequencies, refusing incompatible sets. maxfun finds the largest value of a sampled curve. Printing a circuit, model, element or table at any moment of its life shows its present ports, blocks (an object used several times once, with the names of the others), positions, parameters, number of frequencies and the frequency (in Hz) at which it was last evaluated. None of them changes what it shows, also after scaling the tree.",
 ["inputs", "histories"], "all circuits, elements and tables at any point of their history; all voltage trees (nested, any mix of lines, nodes with and without position, port voltages), scalings and orders of calls; all matrices, sets of S-matrices and sampled curves",
 "No test looks at printed or plotted output.",
 ["src/pyRFtk/plotVSWs.py", "src/pyRFtk/str_dict.py", "src/pyRFtk/printMatrices.py", "src/pyRFtk/compareSs.py", "src/pyRFtk/maxfun.py", CI, "src/pyRFtk/rfObject.py", "src/pyRFtk/rfTRL.py", "src/pyRFtk/rfRLC.py", "src/pyRFtk/rfBase.py"],
 [("voltage trees", "src/pyRFtk/plotVSWs.py: plotVSWs, scaleVSW, strVSW"), ("outline", "src/pyRFtk/str_dict.py: str_dict"), ("matrices", "src/pyRFtk/printMatrices.py: strM"), ("comparison", "src/pyRFtk/compareSs.py: compareSs"), ("maximum", "src/pyRFtk/maxfun.py: maxfun")],
 [], ["plotVSWs", "strVSW", "str_dict", "printM", "compareSs", "maxfun", "str", "asstr"])

open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(
    ''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
