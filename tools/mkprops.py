"""Regenerates /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()), "anchors": a})

S = "ramannoodle/structure/"; PM = "ramannoodle/pmodel/"; IO = "ramannoodle/io/"; SP = "ramannoodle/spectrum/"; DY = "ramannoodle/dynamics/"; DT = "ramannoodle/dataset/torch/"

prop("C01", "Periodic wrapping of positions and displacements",
 """Wrapping fractional positions moves every coordinate by a whole number of cells into [0,1), and wrapping a
 displacement moves every component by a whole number of cells into (-0.5,0.5].
 The minimum displacement between two sets of positions leads from the first set to the second up to whole cells, applying it to
 the first set gives the wrapped second set, and adding whole cells to any argument of displacing positions, wrapping or
 displacement calculation changes nothing.
 Transforming in-cell positions applies the rotation and then the translation, modulo whole cells, and returns in-cell positions.""",
 ["inputs"], "All real coordinates (any sign and magnitude), any number of atoms, any leading batch dimensions that broadcast, all translations; all integer rotations.",
 "The tests wrap a few hand-written coordinates; the guarantee is over all reals including cell boundaries, halves and negative values, where the branch choices differ.",
 [S+"utils.py"], [("apply_pbc", S+"utils.py"), ("apply_pbc_displacement", S+"utils.py"), ("displace_positions", S+"utils.py"), ("transform_positions", S+"utils.py"), ("calc_displacement", S+"utils.py")])

prop("C02", "Fractional/Cartesian conversions are faithful and mutually inverse",
 """For every invertible lattice, including non-orthogonal ones, converting a fractional displacement to Cartesian coordinates
 gives the lattice-vector combination of its minimum image, and converting a Cartesian displacement to fractional coordinates gives
 the minimum image of its lattice coordinates, so the two conversions undo each other modulo whole cells.
 Converting a direction is purely linear, so a direction of any length keeps its orientation and length, and the two direction conversions are
 exact inverses of each other.""",
 ["inputs"], "All invertible 3x3 lattices, all displacements (any number of atoms and, for fractional to Cartesian, any batch dimensions) and all directions of any length.",
 "Tests use two fixed lattices and short vectors; transposition or wrapping errors vanish for orthogonal lattices and small vectors.",
 [S+"_reference.py"], [("ReferenceStructure.get_cart_displacement/get_frac_displacement", S+"_reference.py"), ("ReferenceStructure.get_cart_direction/get_frac_direction", S+"_reference.py")])

prop("C03", "Displaced structures move along the requested direction by the amplitudes",
 """Generating displaced structures returns, for each amplitude in order, the reference positions shifted (modulo whole cells) by exactly that amplitude
 in angstroms times the unit vector of the requested Cartesian displacement, whatever the length of the displacement given; the single-atom variant moves only
 the chosen atom. The written variants write to each file, in the order given, exactly the structure of the corresponding amplitude with the lattice and
 atomic numbers of the reference structure, and refuse file lists whose length does not match.""",
 ["inputs"], "All reference structures (any lattice and number of atoms), all nonzero displacements and directions, all amplitude lists of any length, all atom indexes.",
 "Tests check one TiO2 cell with a couple of amplitudes; normalisation, ordering and non-orthogonal lattices are not quantified over.",
 [S+"_displace.py", S+"_reference.py", S+"utils.py"], [("get_displaced_positions, get_ast_displaced_positions", S+"_displace.py"), ("write_displaced_structures, write_ast_displaced_structures", S+"_displace.py")])

prop("C04", "Symmetry-equivalent degrees of freedom follow the crystal's symmetry",
 """Every displacement reported as symmetrically equivalent to a given one is its image under an operation of the crystal's space group, displacements
 grouped together are collinear, distinct groups are mutually orthogonal and every displacement comes with the operation that
 produces it.
 A model built from polarizabilities along one displacement predicts, for each symmetry image of that displacement, the polarizability
 rotated by the same operation.""",
 ["inputs"], "All crystals whose symmetry can be determined (any lattice system, number of atoms), all single-atom and collective displacements.",
 "Tests compare a handful of orthogonal-lattice cells (TiO2, SrTiO3) with stored numbers; errors in the treatment of rotations are invisible for those.",
 [S+"_reference.py", S+"_symmetry_utils.py", PM+"_interpolation.py"], [("ReferenceStructure.get_equivalent_displacements", S+"_reference.py"), ("InterpolationModel._get_dof", PM+"_interpolation.py"), ("is_orthogonal_to_all, is_non_collinear_with_all, are_collinear", S+"_symmetry_utils.py")])

prop("C05", "Model polarizabilities are reference plus independent interpolations",
 """The polarizability an interpolation or atomic-Raman-tensor model predicts for a configuration equals the reference polarizability plus, for each unmasked degree of freedom, that degree of
 freedom's interpolation evaluated at the projection of the configuration's minimum-image Cartesian displacement onto its basis vector.
 Hence each configuration in a batch is predicted independently of the others and of batch order, and predictions do not change when any atom is moved by whole cells;
 a dummy model that has degrees of freedom refuses to predict.""",
 ["inputs"], "All numbers of samples, atoms and degrees of freedom, all lattices, basis vectors, interpolating functions, masks and configurations.",
 "Tests evaluate stored models on stored files; the number of degrees of freedom, batches and periodic images is unbounded.",
 [PM+"_interpolation.py", S+"_reference.py", S+"utils.py"], [("InterpolationModel.calc_polarizabilities", PM+"_interpolation.py")],
 [("mask", "True means the degree of freedom is excluded", PM+"_interpolation.py"), ("cartesian basis vectors / interpolations", "parallel lists, one entry per degree of freedom", PM+"_interpolation.py")])

prop("C06", "Masking excludes exactly the selected degrees of freedom",
 """A masked copy of a model excludes exactly the requested degrees of freedom, whatever mask the original had, leaves the original model untouched and shares no
 mutable state with it; unmasking clears every mask entry of that model only and restores the full prediction.
 Setting a mask accepts only masks with one entry per degree of freedom, rejecting others without changing the model, and never lets later changes to the caller's array
 or to the model affect each other.
 The degrees of freedom reported for given atoms (by index, symbol or a mixture) are exactly those that displace any of those atoms.""",
 ["inputs", "histories"], "All models (any number of atoms and degrees of freedom), all index selections, all previous masks and sequences of masking and unmasking.",
 "Tests mask one stored model once; independence of copies and the effect of earlier masks are history properties.",
 [PM+"_interpolation.py", PM+"_art.py", S+"_reference.py"], [("InterpolationModel.get_masked_model, unmask, mask setter", PM+"_interpolation.py"), ("ARTModel.get_masked_model, get_dof_indexes", PM+"_art.py"), ("ReferenceStructure.get_atom_indexes", S+"_reference.py")])

prop("C07", "Adding a degree of freedom is all-or-nothing and interpolates the given data",
 """Adding degrees of freedom either fails and leaves the model exactly as it was, or appends, after the existing ones and without changing them, one normalised basis vector, one interpolation (none for dummy models) and one
 unmasked mask entry per new degree of freedom.
 Each added interpolation uses all and only the supplied and symmetry-generated amplitudes with their polarizabilities relative to the reference
 (plus zero at zero amplitude when requested), at the requested order.
 A displacement that is not orthogonal to an existing degree of freedom, duplicate amplitudes, or too few points are rejected.""",
 ["inputs", "histories"], "All sequences of additions, all displacements, amplitude lists, polarizabilities and orders; atomic-Raman-tensor models with one or two amplitudes.",
 "Tests add a few fixed degrees of freedom; atomicity under rejection and alignment of the parallel lists are properties of every history.",
 [PM+"_interpolation.py", PM+"_art.py"], [("InterpolationModel.add_dof, _construct_and_add_interpolations, _get_dof", PM+"_interpolation.py"), ("ARTModel.add_art", PM+"_art.py")])

prop("C08", "Returned data are copies and arguments are never modified",
 """Arrays and lists handed out by structures, phonons, trajectories (their full time series), spectra, models and datasets through
 their documented copy accessors, and the arrays returned by spectrum measurement and convolution when no output grid is supplied, can be modified freely without changing later results of the object.
 No computation modifies the arrays or lists passed to it, and repeating a computation with the same arguments gives the same result.""",
 ["inputs", "histories"], "All objects and argument values; all sequences of accessor calls, mutations of the returned values and repeated calls.",
 "Tests compare values of a single call and never mutate what is returned, so aliasing is invisible to them.",
 [S+"_reference.py", DY+"_phonon.py", DY+"_trajectory.py", SP+"_raman.py", SP+"utils.py", PM+"_interpolation.py", DT+"_dataset.py"],
 [("copy accessors", "properties of ReferenceStructure, Phonons, Trajectory, PhononRamanSpectrum, MDRamanSpectrum, InterpolationModel, PolarizabilityDataset"), ("measure", SP+"_raman.py"), ("convolve_spectrum", SP+"utils.py")])

prop("C09", "Phonon Raman tensors are central differences along each phonon",
 """The phonon Raman spectrum obtained from a polarizability model has one Raman tensor per phonon, in phonon order and with the phonon wavenumbers unchanged, each equal to the difference of the model's
 polarizabilities at the reference positions plus and minus a fixed small multiple of the phonon displacement, divided by that multiple.
 Therefore a polarizability shift that is the same for all configurations changes nothing, reversing a phonon displacement reverses its tensor, and a phonon
 set that the model rejects is reported as incompatible with a ValueError.""",
 ["inputs"], "All numbers of phonons and atoms, all displacements, all polarizability models (arbitrary functions of positions).",
 "Tests compare two stored spectra; sign, ordering and step constants are only sampled there.",
 [DY+"_phonon.py"], [("Phonons.get_raman_spectrum", DY+"_phonon.py")])

prop("C10", "Polycrystalline intensity is the rotation-invariant 45a^2+7g^2",
 """Without corrections, the polycrystalline intensity of each phonon is 45a^2+7g^2, where a is one third of the trace and g^2 the anisotropy of the symmetric Raman tensor, so it is never negative, is
 unchanged by rotating the crystal, scales with the square of the tensor and depends on no other phonon.
 The reported wavenumbers are those of the phonons in the same order, and any other orientation is refused.""",
 ["inputs"], "All numbers of phonons and all symmetric Raman tensors; all orthogonal rotations.",
 "Tests compare stored spectra from two materials whose tensors have few independent components.",
 [SP+"_raman.py"], [("PhononRamanSpectrum.measure", SP+"_raman.py")])

prop("C11", "Laser and Bose-Einstein corrections multiply intensities by the stated factors",
 """Requesting the laser correction multiplies each intensity by ((w-w_laser)/10^4)^4/w with w_laser equal to 10^7 over the wavelength in nm, and requesting the Bose-Einstein correction multiplies it by 1/(1-exp(-hcw/kT)); each
 is applied only when requested, at the wavenumber of the same entry, for phonon and molecular-dynamics spectra alike, and both compose multiplicatively.
 Non-positive laser wavenumbers or temperatures are rejected with a ValueError.""",
 ["inputs"], "All nonzero wavenumbers, positive temperatures and laser wavelengths, and all combinations of the two switches.",
 "Tests sample a few flag combinations against stored numbers.",
 [SP+"_raman.py"], [("get_laser_correction, get_bose_einstein_correction", SP+"_raman.py"), ("PhononRamanSpectrum.measure, MDRamanSpectrum.measure", SP+"_raman.py")])

prop("C12", "Molecular-dynamics spectra come from polarizability-derivative autocorrelations",
 """The raw molecular-dynamics spectrum is 45a+7g built from the positive-frequency Fourier transforms of the autocorrelations of finite differences of the polarizability time series, with the zero-frequency
 entry removed and wavenumbers given by the Fourier frequencies of the timestep converted to inverse centimetres.
 It is unchanged by adding a constant tensor to the series, by reversing its sign and by transposing symmetric tensors, scales with the square of the series, and doubling
 the timestep halves every wavenumber without changing intensities.
 A trajectory's spectrum uses its configurations in time order with its own timestep, and reports an incompatible model as a ValueError.""",
 ["inputs"], "All series lengths of at least three configurations, all polarizability series, all positive timesteps.",
 "Tests compare one stored trajectory; lengths (even/odd) and offsets are not varied.",
 [SP+"_raman.py", SP+"utils.py", DY+"_trajectory.py"], [("MDRamanSpectrum.measure", SP+"_raman.py"), ("calc_signal_spectrum", SP+"utils.py"), ("Trajectory.get_raman_spectrum", DY+"_trajectory.py")])

prop("C13", "Convolution is the sum of normalised line shapes",
 """A convolved spectrum is, at each output wavenumber, the sum over all input lines of intensity times a unit-area Gaussian (standard deviation = width) or Lorentzian (full width at half maximum = width) centred on the line, so it is linear
 in the intensities, independent of line order, and non-negative for non-negative intensities.
 Supplied output wavenumbers are used as given; otherwise the grid spans from 100 below the lowest to 100 above the highest line.
 Non-positive widths, unknown line shapes (when there are lines) and mismatched lengths are rejected with a ValueError.""",
 ["inputs"], "All numbers of lines and output points, all wavenumbers, intensities and positive widths, both line shapes.",
 "Tests convolve a few stored spectra.",
 [SP+"utils.py"], [("convolve_spectrum", SP+"utils.py")])

prop("C14", "Written structures and trajectories read back unchanged",
 """Writing any valid structure to POSCAR and reading it back gives the same lattice, positions (each coordinate to 16 decimals) and atomic numbers in the
 same order, whatever the label text; the same holds for every configuration of a trajectory written to XDATCAR, in order and with none added or lost.
 Structures whose equal atoms are not contiguous cannot be represented and are rejected.""",
 ["inputs"], "All lattices and in-cell positions, all atom lists grouped by element, all numbers of configurations, all label strings.",
 "Tests round-trip a few stored files; element grouping, labels, wide numbers and lengths are unbounded.",
 [IO+"vasp/poscar.py", IO+"vasp/xdatcar.py", IO+"generic.py"], [("write_structure/read_structure", IO+"vasp/poscar.py"), ("write_trajectory/read_positions_ts", IO+"vasp/xdatcar.py")])

prop("C15", "Writers never clobber files and rejected writes leave no trace",
 """Unless overwriting is requested, every writer refuses an existing path with FileExistsError and leaves that file's contents as they were.
 A write rejected because its arguments are invalid (shapes, positions outside the cell, unknown or ungrouped atomic numbers, unsupported format)
 neither creates, truncates nor changes any file, even when overwriting was requested; with overwriting, the new content replaces the old content entirely.""",
 ["inputs", "fault_sequences"], "All writers (specific and generic), all argument values valid or not, existing and missing targets, both overwrite settings.",
 "Tests try one existing file; the order of validation and file opening matters only for argument/state combinations they do not visit.",
 [IO+"vasp/poscar.py", IO+"vasp/xdatcar.py", IO+"generic.py", IO+"_utils.py", S+"_displace.py"], [("write_structure", IO+"vasp/poscar.py"), ("write_trajectory", IO+"vasp/xdatcar.py"), ("write_structure/write_trajectory dispatch", IO+"generic.py")])

prop("C16", "Readers return complete data or refuse the file",
 """Reading a VASP file either yields complete data, with exactly one finite three-component entry per atom, 3x3 tensors and lattices, and mutually consistent counts, or raises InvalidFileException; a truncated or malformed POSCAR,
 XDATCAR, OUTCAR or vasprun.xml never yields partial arrays or any other exception type.
 What is read from a well-formed file is what the file records, with imaginary phonon modes given negative wavenumbers in every format.
 Generic readers give the same result or error as the format-specific reader, and raise a ValueError only for unsupported formats.""",
 ["inputs", "fault_sequences"], "All truncations of valid files and all corruptions of numeric fields, counts and labels; all formats.",
 "Tests feed a few hand-made invalid files; truncation points and corrupted fields are unbounded.",
 [IO+"vasp/poscar.py", IO+"vasp/xdatcar.py", IO+"vasp/outcar.py", IO+"vasp/vasprun.py", IO+"generic.py"], [("readers", IO+"vasp/*.py"), ("dispatch tables", IO+"generic.py")])

prop("C17", "Polarizability vectors, tensors and dataset scaling agree",
 """Converting a symmetric polarizability tensor to a 6-vector (xx,yy,zz,xy,xz,yz) and back gives the same tensor, and converting a vector to a tensor gives a symmetric tensor whose vector is the original.
 A dataset's scaled polarizabilities are, sample by sample and in the same order and component convention, (polarizability - mean)/stddev with the dataset's own mean and population standard
 deviation, or the supplied ones after rescaling, which never touches the stored polarizabilities; items and length match the constructor arguments.""",
 ["inputs", "histories"], "All numbers of samples and atoms, all tensors, all sequences of rescaling.",
 "Tests check one dataset; component order and repeated rescaling are not quantified over.",
 [DT+"_dataset.py", DT+"utils.py"], [("polarizability_vectors_to_tensors, polarizability_tensors_to_vectors", DT+"utils.py"), ("PolarizabilityDataset", DT+"_dataset.py")])

prop("C18", "Batched graph construction depends only on the batch size requested",
 """Graph triplets returned for a batch size are the single-structure triplets repeated once per structure, with node and edge indexes shifted so that different structures are never connected, whatever batch sizes were requested before and without corrupting
 earlier or cached results.
 Splitting positions into batches yields every configuration exactly once, in order, in chunks of the requested size except possibly the last.
 The edges found in periodic structures are exactly the ordered pairs of distinct atoms whose minimum-image distance is within the cutoff.""",
 ["inputs", "histories"], "All sequences of requested batch sizes, all reference graphs, all numbers of configurations and batch sizes, all lattices and positions.",
 "Caching makes results depend on call history, which single-call tests do not exercise.",
 [PM+"torch/_utils.py"], [("BatchTriplets.get_triplets", PM+"torch/_utils.py"), ("batch_positions", PM+"torch/_utils.py"), ("_radius_graph_pbc, get_graph_info", PM+"torch/_utils.py")],
 [("cached triplets", "result for the last requested batch size", PM+"torch/_utils.py")])

prop("C19", "GNN predictions are per-configuration and rescaled to physical units",
 """The graph-network model's polarizability for a configuration equals its raw network output, as a symmetric tensor, times the standard deviation plus the mean,
 and does not depend on which other configurations are in the batch, on batch order or size, on earlier predictions, or on moving atoms by whole cells.
 Each raw output is the average over that structure's edges of their contributions, and configurations with the wrong number of atoms are rejected.""",
 ["inputs", "histories"], "All batches (any number of configurations, across internal chunk boundaries), all permutations, lattices and network parameters.",
 "Tests run a fixed model on one batch size; chunk boundaries and call order are not varied.",
 [PM+"torch/_gnn.py", PM+"torch/_utils.py"], [("PotGNN.calc_polarizabilities, forward, _batch_graph", PM+"torch/_gnn.py")])

prop("C20", "Edge rotations map the reference axis onto every target direction",
 """For every nonzero target vector of any length, the rotation constructed for it is orthogonal with determinant one and maps the
 direction (1,0,0) onto the target's direction, including targets parallel and antiparallel to the axis; rotations in one batch are computed independently.
 Edge polarizabilities are therefore well defined for every edge direction.""",
 ["inputs"], "All nonzero target vectors, all batch sizes.",
 "Tests sample random directions, which never hit the parallel and antiparallel cases.",
 [PM+"torch/_utils.py", PM+"torch/_gnn.py"], [("get_rotations", PM+"torch/_utils.py")])

prop("C21", "Datasets assembled from several sources keep every sample aligned",
 """A dataset assembled from files or pymatgen structures contains exactly one sample per source, in order, each with that source's positions and polarizability, and the common lattice and atomic numbers;
 a source whose lattice, atomic numbers or number of atoms differs from the others is rejected rather than mixed in, at whatever place in the list it occurs.""",
 ["inputs"], "All numbers and orders of sources, all positions of an incompatible source.",
 "Tests use one compatible and one incompatible pair.",
 [IO+"_utils.py", IO+"pymatgen.py"], [("_read_polarizability_dataset", IO+"_utils.py"), ("construct_polarizability_dataset", IO+"pymatgen.py")])

prop("C22", "Trajectories are faithful wrapped time series",
 """A trajectory has as many entries as configurations supplied, each entry being the supplied configuration of the same index with its positions wrapped into the cell; indexing (including negative indexes), slicing and iteration agree with the full time series, and out-of-range
 indexes raise IndexError. The timestep is kept as given and non-positive timesteps or wrongly shaped series are rejected; phonons likewise keep their reference positions, wavenumbers and displacements exactly and reject inconsistent shapes.""",
 ["inputs"], "All numbers of configurations and atoms, all positions, indexes, slices and timesteps.",
 "Tests read a couple of stored trajectories.",
 [DY+"_trajectory.py", DY+"_phonon.py", "ramannoodle/exceptions.py"], [("Trajectory", DY+"_trajectory.py"), ("Phonons", DY+"_phonon.py"), ("verify_ndarray_shape", "ramannoodle/exceptions.py")])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
