#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/meta.py` rewrites both.
A property is claimed as soon as checks/<id>.py exists."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None),
                  _technique=technique, _note=note))


IO = "matersdk/io/pwmat/"
PL = "matersdk/io/publicLayer/"
NB = "source/nblist/include/"
DP = "source/descriptor/deepmd/"
MTP = "source/descriptor/mtp/"
MTPR = "source/descriptor/mtpr/"

prop("C01", "atom.config write/read round trip keeps the crystal",
     "Writing a structure to an atom.config file and reading it back yields the same number of sites, the same elements in the same order, the same lattice vectors and the same fractional coordinates, up to the printed precision. The written text itself states the right atom count and the right atomic number on every site line, and rewriting what was read is a fixed point.",
     ["inputs", "histories"], "every structure of 1..4 sites over a small alphabet of elements, lattices and fractional coordinates (negative, zero, >1, tiny), and every write/read chain up to depth 3",
     "The tests read two sample files and print; none compares what was written with what is read back.",
     [PL + "structure.py", IO + "utils/acextractor.py"],
     [("DStructure.to(output_format='pwmat')", PL + "structure.py"), ("DStructure.from_file(file_format='pwmat')", PL + "structure.py")],
     ["file text", "sites of the structure read back"])

prop("C02", "atom.config fields are parsed correctly for every section layout",
     "For every atom.config text, whatever sections it has, in whatever letter case and order after the lattice and positions, the reader returns the atom count, lattice, per-atom types, fractional coordinates, total energy, per-atom energies, forces, virial and magnetic moments exactly as written, row by row in file order. A missing force section reads as zero forces, and reading from a file and reading from a string agree.",
     ["inputs", "configurations"], "all subsets and orders of the optional sections, letter cases, 1..4 atoms, values with sign/exponent/large/small magnitude",
     "The tests print the fields of two fixed sample files.",
     [IO + "utils/acextractor.py", IO + "utils/lineLocator.py"],
     [("ACExtractor", IO + "utils/acextractor.py"), ("ACstrExtractor", IO + "utils/acextractor.py"), ("LineLocator/ListLocator", IO + "utils/lineLocator.py")])

prop("C03", "Readers see the file's current content, and never another file's",
     "A reader created for a file reports what that file contains at the moment it is opened, whatever files were read before in the same process and however often the same path was rewritten in between. This holds for structure, Fermi-level, band-report and k-point readers alike.",
     ["histories"], "every sequence up to depth 4 of {write content A/B to path p/q, read p, read q} per reader",
     "Each test process reads each file once.",
     [IO + "utils/acextractor.py", IO + "utils/lineLocator.py", IO + "output/outfermi.py", IO + "output/report.py", IO + "input/inkpt.py"],
     [("linecache.getline / open()", IO + "utils/acextractor.py")])

prop("C04", "Every MD frame is extracted once, in order, with its own data",
     "From a MOVEMENT trajectory of any number of frames the extractor yields exactly the frames in file order, and each frame's lattice, types, coordinates, energy, forces, virial, per-atom energies and magnetic moments are those written in that frame and no other. Optional quantities are returned exactly when the trajectory carries them.",
     ["inputs", "histories"], "1..4 frames x 1..3 atoms x all subsets of optional sections x all access orders up to depth 3",
     "The one stable test runs the extractor on one sample file and asserts nothing.",
     [IO + "utils/mvextractor.py", IO + "utils/acextractor.py", IO + "output/movement.py"],
     [("MVExtractor.get_frames_info / get_frame_info / get_chunks_*", IO + "utils/mvextractor.py")])

prop("C05", "Dataset export loses, duplicates or reorders no frame",
     "Exporting a trajectory to a data set directory and concatenating its parts in order returns every frame exactly once, in order, with box, coordinates, energy, force and the other stored arrays belonging to the same frame, for every frame count and part size. Merging several data sets keeps every frame under the right composition, and the type map and per-atom type indices always decode to the original elements.",
     ["inputs", "configurations"], "frame counts 1..7 x part sizes 1..8 x 1..3 atoms/elements x merges of up to 3 sets",
     "The stable test exports one sample set once and asserts nothing.",
     ["matersdk/data/infoset.py", "matersdk/data/infosets.py"],
     [("InfoSet.to_dir", "matersdk/data/infoset.py"), ("InfoSets.from_dir/to_dir", "matersdk/data/infosets.py")])

prop("C06", "Structure collections keep each structure with its own id and data",
     "A collection loaded from a trajectory and narrowed by any sequence of integer, slice and index-list selections holds exactly the selected frames, in the selected order, each with its own lattice, species, coordinates, energy, forces and virial. Every export of it (structure images, data-set directory with its parts and type map) contains each of these structures once with its own data, whatever the number of worker processes and however they are scheduled, and the order of operations does not matter.",
     ["inputs", "histories", "schedules"], "collections of 1..4 structures (some of up to 120), all index selections, all operation sequences up to depth 2; exports under every schedule of 2..3 worker processes up to 2 preemptions",
     "No stable test runs this code.",
     ["matersdk/data/struct_collection.py"], [("DeepmdDataSystem / StructCollection constructors", "matersdk/data/struct_collection.py")])

prop("C07", "Supercells contain every periodic image exactly once, home cell known",
     "A supercell built with any odd scaling contains every lattice translation of every primitive site exactly once with the primitive cell's element, its lattice is the primitive lattice scaled, and its atomic density is unchanged. The indices reported as belonging to the home cell are exactly the sites that coincide with the primitive cell's sites, in the primitive cell's order after sorting by element.",
     ["inputs"], "1..3 sites x cubic/orthorhombic/triclinic/sheared lattices x all scalings in {1,3,5}^3",
     "The tests print one supercell of one sample.",
     [PL + "structure.py"], [("DStructure.make_supercell_ / get_key_idxs", PL + "structure.py")])

prop("C08", "Site operations are permutations that keep physics unchanged",
     "Reordering sites by element, looking up a site's index, filling or removing vacancies, detecting vacuum and computing centroids only rearrange or select sites: the multiset of (element, position) pairs is unchanged except for the sites named, sorting is by atomic number and stable, and reported indices refer to the sites asked for.",
     ["inputs", "histories"], "all element sequences of length 1..4 over 3 elements plus vacancies, all operation sequences up to depth 2",
     "The tests print results for one sample.",
     [PL + "structure.py"], [("reformat_elements_, remove_vacanies, get_site_index, get_centroid, judge_vacuum_exist", PL + "structure.py")])

prop("C09", "Python neighbour lists equal the brute-force periodic neighbour set",
     "For every periodic structure and cutoff, the neighbour tables list for every atom exactly the periodic images within the cutoff (those exactly at it included), each once, ordered by distance, with matching element, distance and relative position, and zero padding after them. The reported maximum neighbour counts (overall and per element) and the neighbour indices agree with that set.",
     ["inputs", "configurations"], "1..3 sites x 5 lattices x cutoffs chosen between neighbour shells x supercell scalings",
     "The tests build one table for one sample and print it.",
     [PL + "neigh.py"], [("StructureNeighborsV1", PL + "neigh.py"), ("StructureNeighborsUtils", PL + "neigh.py")])

prop("C10", "DeePMD pair features (Python) equal their definition and derivatives",
     "The smooth-edition features computed for a centre/neighbour species pair are exactly the switched reciprocal distance and its products with the unit direction for each neighbour of that species in distance order, zero beyond the cutoff and zero-padded; the returned derivatives equal the derivatives of those features. Stacking over species keeps each species' block separate and complete.",
     ["inputs", "configurations"], "1..3 sites x species pairs x cutoffs x smoothing radii x lattices",
     "The stable tests run one sample and assert nothing.",
     ["matersdk/feature/deepmd/premise.py", "matersdk/feature/deepmd/se_pair.py", "matersdk/feature/deepmd/se.py"],
     [("DpFeaturePairPremise", "matersdk/feature/deepmd/premise.py"), ("DpseTildeRPair", "matersdk/feature/deepmd/se_pair.py"), ("DpseTildeR", "matersdk/feature/deepmd/se.py")])

prop("C11", "Crystal graph edges are exactly the bonds within the cutoff",
     "The adjacency matrix built from a periodic structure counts, for every ordered pair of primitive atoms, exactly the periodic images of the second within the cutoff of the first, those exactly at it included (an atom is not its own neighbour), whatever sufficiently large odd supercell is used, and asking again gives the same matrix.",
     ["inputs"], "1..3 sites x lattices x cutoffs x scalings", "The stable test builds one graph and asserts nothing.",
     ["matersdk/feature/graph/edge.py"], [("AdjacentMatrix", "matersdk/feature/graph/edge.py")])

prop("C12", "Bond, angle and displacement statistics equal their definitions",
     "Averages of bond lengths and angles over a structure equal the arithmetic mean over exactly the selected pairs and triples of neighbours within the cutoff under periodic images. Along a trajectory, the bond between two atoms is the plain distance in each frame and the mean-square displacement is the mean over the atoms of the squared displacement from the first frame, for every frame count, lattice and schedule of the worker processes.",
     ["inputs", "histories", "schedules"], "2..4 frames x 2..3 atoms x element selections x cutoffs; every schedule of 2..3 worker processes", "No stable test covers them.",
     ["matersdk/feature/avg/avgbond.py", "matersdk/feature/avg/avgangle.py", "matersdk/feature/avg/msd.py"],
     [("PairBond/AvgBond", "matersdk/feature/avg/avgbond.py"), ("AvgAngle", "matersdk/feature/avg/avgangle.py"), ("Msd", "matersdk/feature/avg/msd.py")])

prop("C13", "k-paths and k-point lists are complete, ordered and consistent",
     "Sampling a k-path at any density visits every listed segment from its start to its end at uniform spacing, with the high-symmetry labels on the right points and distances that accumulate the reciprocal-space length, in 2 and 3 dimensions. k-point files are read with their points, weights, labels and distances as written, and a generated mesh has the requested density and contains each symmetry orbit once with its weight.",
     ["inputs"], "lattices x segments x densities; k-point files of 1..6 points with every label placement", "One stable test prints the k-points of one sample.",
     ["matersdk/calculation/kpath/kpathSampler.py", "matersdk/calculation/kpoints/kpointsSampler.py", "matersdk/calculation/kpoints/kmesh.py", IO + "input/inkpt.py"],
     [("KpathSampler", "matersdk/calculation/kpath/kpathSampler.py"), ("Inkpt", IO + "input/inkpt.py")])

prop("C14", "Band edges, gap and metallicity from a band report are correct",
     "From a band-structure report the reader returns every eigenvalue with its k-point, band and spin. The valence-band maximum, conduction-band minimum, band gap, directness and metal flag are exactly those implied by the eigenvalues and the Fermi energy (a state exactly at the Fermi energy counts for both edges); a metal has gap zero, and an extremum reached at several k-points is reported at one of them.",
     ["inputs"], "all eigenvalue tables of 1..3 k-points x 1..4 bands over a 3..4 value energy alphabet, 1..2 spins", "No stable test covers it.",
     [IO + "output/report.py", IO + "output/outfermi.py"], [("Report", IO + "output/report.py"), ("OutFermi", IO + "output/outfermi.py")])

prop("C15", "Projected DOS and fat-band sums select exactly the requested orbitals",
     "Every partial density of states or fat-band weight returned for a set of elements, orbitals or atoms is the sum of exactly the columns that belong to them, on the original energy or k axis, so that the parts add up to the total.",
     ["inputs"], "tables over element sets with prefix-overlapping symbols, all selections", "No stable test covers it.",
     [IO + "output/dostotalspin.py", IO + "output/fatabandstructureTxt.py"],
     [("Dostotalspin", IO + "output/dostotalspin.py"), ("FatbandStructure", IO + "output/fatabandstructureTxt.py")])

prop("C16", "Perturbation keeps composition and stays inside its stated amplitude",
     "A perturbed structure has the same elements in the same order, its lattice is the original under a symmetric strain whose diagonal is bounded by the stated fraction and off-diagonal by half of it, every atom moves by the stated amplitude times a vector drawn for that atom and nothing else, every requested copy is produced with a strain and displacements of its own, and the input structure is left unmodified.",
     ["inputs", "configurations"], "structures x amplitudes x every corner/midpoint answer of the random source", "No stable test covers it.",
     ["matersdk/adalearn/generator/perturbation.py"], [("PerturbStructure", "matersdk/adalearn/generator/perturbation.py")])

prop("C17", "Element tables are mutually inverse and physically right",
     "The element-symbol and atomic-number tables used by every reader and writer are inverse bijections over all supported elements and agree with the periodic table.",
     ["inputs"], "all 119 entries", "Tests look at a handful of elements.",
     [IO + "utils/parameters.py"], [("atomic number tables", IO + "utils/parameters.py")])

prop("C18", "Generated input files and job scripts say exactly what was asked",
     "Every generated job script, external-potential file and density-of-states input contains each requested setting exactly once, in its own line and in a form the consuming program parses back to the same values, for every combination of options; an option that was not given (None) is left out. Writing one file never changes another.",
     ["configurations"], "all combinations of the optional settings", "One stable test writes one external-potential file and asserts nothing.",
     ["matersdk/hpc/slurm/job.py", IO + "input/gen_vext.py", IO + "input/dos_input.py"],
     [("Job", "matersdk/hpc/slurm/job.py"), ("GenVext", IO + "input/gen_vext.py"), ("DosInput", IO + "input/dos_input.py")])

prop("C19", "C++ crystal structures are values: copies are deep, independent, leak nothing",
     "After any sequence of constructing, copying, assigning (including to itself), scaling and destroying crystal structures, every live structure holds exactly the lattice, species and coordinates its history implies, changing or destroying one never affects another, and no memory is used after release. Fractional and Cartesian construction of the same crystal agree.",
     ["histories", "inputs"], "all operation sequences up to depth 4 over 3 structure slots, float and double",
     "The tests exercise each constructor once on one crystal.",
     [NB + "structure.h"], [("Structure<T>", NB + "structure.h")])

prop("C20", "C++ supercells and bin lists cover space: every image once, none missed",
     "For atoms with fractional coordinates in [0,1), a supercell of any scaling contains each periodic image of each atom once, identifies the home cell and the owner of each image correctly, and the bin list places every atom in exactly one bin such that the candidate set around any atom contains all atoms within the cutoff and lists none twice. Copies and assignments (also to itself) describe the same cell.",
     ["inputs", "configurations"], "1..3 atoms x 6 lattices x scalings {1..4}^3 x cutoffs x bin sizes x periodicity patterns, float and double",
     "The tests check one crystal (MoS2) with all-odd scalings.",
     [NB + "binLinkedList.h", NB + "structure.h"], [("Supercell<T>", NB + "binLinkedList.h"), ("BinLinkedList<T>", NB + "binLinkedList.h")])

prop("C21", "C++ neighbour lists equal the brute-force neighbour set",
     "For every crystal, cutoff, bin size and periodicity pattern, the neighbour list of each atom contains exactly the atoms and periodic images closer than the cutoff, each once, in increasing distance when sorting is requested; the flattened arrays handed to force fields (centres, counts, neighbour indices, relative coordinates, types) describe the same set, with padding only beyond the count. Copies and assignments of a list describe the same set.",
     ["inputs", "configurations", "histories"], "1..3 atoms x 6 lattices x cutoffs between shells x bin sizes x all 8 periodicity patterns x sort flag, float and double",
     "The tests check one crystal.",
     [NB + "neighborList.h", NB + "binLinkedList.h"], [("NeighborList<T>", NB + "neighborList.h"), ("find_info4mlff", NB + "neighborList.h")])

prop("C22", "The Python neighbour-list binding returns what the C++ library computes",
     "Calling the neighbour-list extension from Python (find_info4mlff) with any lattice, coordinates, species, cutoff, periodicity and flags, in any array layout or number type, returns the same neighbour set as brute force, in arrays of the advertised shapes with padding after the count, repeatably and without disturbing previously returned arrays or inputs. A padding width too small for the neighbours is refused with an exception.",
     ["inputs", "histories"], "crystals as in C21, all call sequences up to depth 3 in one process",
     "No stable test imports the extension.",
     ["source/nblist/bind/nblist_bind.cc", "source/nblist/bind/nblist.i"], [("find_neigh binding", "source/nblist/bind/nblist_bind.cc")])

prop("C23", "C++ smooth-edition descriptor equals its definition and derivative",
     "The switching function is one inside the smoothing radius, zero beyond the cutoff, continuous and monotone in between with the stated derivative; for every crystal the descriptor block of each (centre, neighbour-species) pair holds exactly the neighbours of that species in the stated order and form, zero-padded, and its derivative equals the gradient of the value with respect to the centre. All construction, copying and calling routes give the same numbers and release what they allocate.",
     ["inputs", "configurations"], "crystals as in C21 x species pairs x cutoffs x all public routes", "The tests print or check one crystal.",
     [DP + "include/se.h"], [("SwitchFunc, PairTildeR, TildeR", DP + "include/se.h")])

prop("C24", "Environment matrices: right slots, values, derivatives, per frame",
     "For every neighbour list the environment matrix puts each neighbour within the cutoff into a slot of its own type block with the defined value and derivative (with respect to the relative position; Se4pw: with respect to the centre), leaves unused slots zero, and keeps the relative coordinates and neighbour indices of the same neighbour in the same slot. Processing a batch of frames gives each frame exactly what processing it alone gives, in either precision and any tensor layout.",
     ["inputs", "configurations"], "all neighbour tables of 1..3 centres x 0..4 neighbours over 2 types and a distance alphabet; batches of 1..3 frames", "The tests check one crystal.",
     [DP + "include/envMatrix.h", DP + "include/se4pw.h", DP + "src/envMatrixOp.cc", DP + "src/se4pw_op.cc"],
     [("EnvMatrix", DP + "include/envMatrix.h"), ("Se4pw", DP + "include/se4pw.h"), ("EnvMatrixOp", DP + "src/envMatrixOp.cc"), ("Se4pwOp", DP + "src/se4pw_op.cc")])

prop("C25", "Radial bases equal their formula for every reuse, copy and move history",
     "Each radial basis object returns the Chebyshev polynomials of the scaled distance times the cutoff switch, and their exact derivative, for every radius, size and cutoff pair, however often it was rebuilt, copied, assigned (also to itself) or moved before; values vanish outside [smoothing radius, cutoff). No history leaks, double-frees or reads released memory.",
     ["inputs", "histories"], "sizes 1..6 x radii grid incl. both ends x all build/copy/move/assign sequences up to depth 4", "Tests evaluate single points.",
     [MTP + "include/mtpMRadial.h", MTP + "include/mtpMRadial_de.h", MTPR + "include/basis.h"],
     [("ChebyshevPoly, MtpQ", MTP + "include/mtpMRadial.h"), ("RadialBasisChebyshev", MTP + "include/mtpMRadial_de.h"), ("RB_Chebyshev, RQ_Chebyshev", MTPR + "include/basis.h")])

prop("C26", "Moment-tensor contraction schemes: every one, once, within the level",
     "For every maximum level the enumerated moment combinations are exactly the scalar contractions whose total level does not exceed it, each once, with ranks in decreasing order, and the levels and counts reported for them are right. A combination contracts to a scalar when it is one moment of rank 0, when its largest rank equals the sum of the others, or when every non-zero rank occurs an even number of times. The older enumeration (MTPLevel, Combinations) lists every ordered tuple of moments within the level once; its reduction keeps each multiset once, and of those the ones whose non-zero ranks occur an even number of times; sorting is by total level.",
     ["inputs"], "all maximum levels 0..22 (30 thorough)", "Tests print a few levels.",
     [MTP + "src/mtpLevel.cc", MTP + "include/mtpLevel.h", MTP + "include/level.h"], [("MtpMCoeffPairCombs", MTP + "src/mtpLevel.cc"), ("MTPLevel, Combinations", MTP + "include/level.h")])

prop("C27", "Moment tensors equal their sum over neighbours, with right gradients",
     "Radial values, angular tensors, moments and basis functions equal their definitions as sums over exactly the listed neighbours with the coefficients of the right species pair, padding (index -1) contributing nothing, for every frame of a batch with that frame's types, in either precision and any tensor layout. Automatic differentiation returns the true gradient with respect to positions and coefficients.",
     ["inputs"], "0..3 neighbours x species x moments mu<=2, nu<=3 x position alphabet", "Tests print values.",
     [MTP + "src/mtpMModule.cc", MTP + "src/mtpMAngularOp.cc", MTP + "src/mtpMRadialOp.cc", MTP + "src/mtpBModule.cc"],
     [("MtpMModule", MTP + "src/mtpMModule.cc"), ("MtpQOp", MTP + "src/mtpMRadialOp.cc"), ("MtpMAngularOp", MTP + "src/mtpMAngularOp.cc")])

prop("C28", "Moment-tensor potential files load completely and copy as values",
     "Loading a potential file returns every parameter and index table it states, for every shipped potential file and every variation of table sizes, and a file that is missing, cut off or damaged is refused with an exception. Copying, assigning (also to itself), moving or reloading a potential gives an independent object with the same tables, with no leak and no double release.",
     ["inputs", "histories"], "all 14 shipped files, synthetic files over table sizes, all copy/move/assign sequences up to depth 4", "Tests print one file.",
     [MTPR + "src/mtpParam.cc"], [("MtpParam", MTPR + "src/mtpParam.cc")])

prop("C29", "Core array and vector utilities are memory safe and exact",
     "Multi-dimensional arrays allocated by the core helpers have the requested extents, are initialised to zero when requested, are disjoint and can be freed completely. Aligned arrays are aligned and keep their contents when copied, assigned, kept in collections or resized to the same size. Vector operations equal their algebraic definitions and leave their arguments unchanged.",
     ["inputs", "histories"], "extents 1..3 in up to 5 dimensions; resize/copy sequences up to depth 4; component alphabet", "Tests use one size each.",
     ["source/core/include/arrayUtils.h", "source/core/include/AlignedArray.h", "source/core/include/vec3Operation.h", "source/core/include/vecx.h"],
     [("arrayUtils", "source/core/include/arrayUtils.h"), ("AlignedArray", "source/core/include/AlignedArray.h"), ("vec3Operation", "source/core/include/vec3Operation.h")])

prop("C30", "Exported force-field files hold every network parameter of the checkpoint",
     "Exporting a trained checkpoint writes, for every embedding and fitting network and every layer the caller declared, exactly the checkpoint's weight, bias and (where present) residual block under the same name, with the same values and number type, plus the descriptor sizes M1, M2 and the layer widths; reading the exported file returns all of it. An export replaces whatever the file held before; declaring layers the checkpoint does not have is refused; the checkpoint stays unchanged.",
     ["inputs", "histories"], "network and layer counts up to 12, several width tables, residual-block patterns, 2 number types, pairs of exports", "The one test needs a checkpoint from the author's machine and uses equal layer counts.",
     ["matersdk/infer/pwmatmlff/deepmd/extractor.py"], [("FFExtractor", "matersdk/infer/pwmatmlff/deepmd/extractor.py")])

prop("C31", "DeePMD feature normalisation uses the right statistics for every slot",
     "The statistics of a set of frames are, per centre species, the mean of the radial feature (angular means are zero) and the population standard deviations of the radial and of all angular features over every slot of every centre of every selected frame, never below 0.01 and never NaN. Normalising a structure yields, for every centre of each listed species in order and every neighbour-species block in order, (feature - mean) / deviation with the statistics of that centre's species, and derivative / deviation; padding slots are treated as zero features. Saving a normaliser and loading it back gives the same normaliser; inputs are not modified and statistics that do not fit the species are refused.",
     ["inputs", "histories"], "8 lattices x 11 motifs x cutoffs x species lists x paddings; frame index sequences; small feature arrays; save/load histories", "The tests need data from the author's machine; none passes here.",
     ["matersdk/feature/deepmd/preprocess.py"], [("TildeRNormalizer", "matersdk/feature/deepmd/preprocess.py"), ("TildeRPairNormalizer", "matersdk/feature/deepmd/preprocess.py"), ("NormalizerPremise", "matersdk/feature/deepmd/preprocess.py")])

prop("C32", "Inference hands the model consistent inputs and returns its own outputs",
     "For every structure, the arrays given to a DeePMD model (relative positions, normalised features, their derivatives, 1-based neighbour indices) describe the same neighbour in the same slot: centres grouped by the model's species in order, neighbours in their species' block, nearest first, zero padding after. The atom counts list the total and then one count per model species in order, zero for a species the structure lacks. Inference returns exactly the energy, atomic energies, forces and virial that the model in the given file computes for that structure, for every history of calls.",
     ["inputs", "histories"], "8 lattices x 11 motifs x cutoffs x species lists (also absent species) x paddings; inference histories up to depth 3 over two models and two structures", "The tests need a model from the author's machine; none passes here.",
     ["matersdk/infer/pwmatmlff/deepmd/preprocess.py", "matersdk/infer/pwmatmlff/deepmd/inference.py", "matersdk/infer/pwmatmlff/deepmd/inference_depre.py"],
     [("InferPreprocessor", "matersdk/infer/pwmatmlff/deepmd/preprocess.py"), ("DpInfer", "matersdk/infer/pwmatmlff/deepmd/inference.py"), ("FFInfer", "matersdk/infer/pwmatmlff/deepmd/inference_depre.py")])

NA = {}


def check_attr(pid, name, default):
    f = os.path.join(V, "checks", pid.lower() + ".py")
    m = re.search(r'^%s = "(.*)"$' % name, open(f).read(), re.M)
    return m.group(1) if m else default


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")) and p["id"] not in NA:
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                               thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                               technique=check_attr(p["id"], "TECHNIQUE", "explicit bounded exhaustive exploration of the real code against a reference model"),
                               level="model_checking",
                               level_note=check_attr(p["id"], "NOTE", "Holds for every case inside the stated bounds; says nothing outside them. Trusts the reference model in the check and the compiler/interpreter.")))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
    json.dump(dict(version=1, setup_cmd="/usr/bin/python3 -c 'import sys; sys.exit(0)'", checks=checks, not_applicable=na,
                   notes="No hooks: every check drives the unmodified code through its public interface and rebuilds what it needs from /repo's working tree in a scratch directory."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))


main()
