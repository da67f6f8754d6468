NOT_CLAIMED = {}
TECH = "contract-based deductive verification of the real code (symbolic execution to obligations; tensor normal form + z3)"
TECHB = TECH + "; labelled bounded contract checks where out of reach"
PROPS = [
 dict(id="P01", title="Wave-function representation changes preserve the state",
  statement="Re-expressing a correlated wave function (MP2, CISD, CCSD, CCSDTQ or FCI; restricted or unrestricted) in another ansatz "
   "yields exactly the amplitudes of the same state under intermediate normalisation: the singles, doubles, triples and quadruples follow "
   "the exponential relation between CI and cluster amplitudes, the reference coefficient is restored on request, and amplitudes read from "
   "an FCI vector carry the phase and the determinant they belong to. Converting there and back returns the original amplitudes.",
  forall="all numbers of occupied and virtual orbitals of either spin, all amplitude values, all nonzero reference coefficients, restricted and unrestricted, 3- and 4-block doubles",
  why="Tests convert one or two solver solutions of a few small molecules, whose amplitudes have extra structure (c0 close to 1, closed-shell symmetry), and look at energies; blocks that vanish or coincide there are never distinguished.",
  files=["vayesta/core/types/wf/t_to_c.py", "vayesta/core/types/wf/mp2.py", "vayesta/core/types/wf/cisd.py", "vayesta/core/types/wf/ccsd.py", "vayesta/core/types/wf/ccsdtq.py", "vayesta/core/types/wf/fci.py"],
  mech=[("amplitude maps", "vayesta/core/types/wf/t_to_c.py"), ("as_* conversions", "vayesta/core/types/wf/*.py"), ("FCI string addressing", "vayesta/core/types/wf/fci.py")],
  technique=TECHB, level="proof",
  note="All MP2/CISD/CCSD(TQ) amplitude maps proved for all dimensions and entries (exact arithmetic). FCI-vector extraction is bounded: checked against an independent determinant-level oracle up to 8 orbitals."),
 dict(id="P02", title="Projection and restoration of amplitudes are exact and consistent",
  statement="Projecting a wave function onto a fragment applies the fragment projector to the first occupied (or virtual) index of every amplitude block of every spin and to nothing else, and the symmetrised or restored result is the exchange-symmetric average in which projections over a complete set of fragments sum to the unprojected amplitudes. "
   "Rotating the orbitals of a wave function rotates every amplitude index in its own spin space, and neither operation modifies the input unless asked to work in place.",
  forall="all numbers of orbitals and fragments, all projectors, all amplitude values, restricted and unrestricted, 3- and 4-block doubles, in place or not",
  why="Tests use symmetric fragments of one molecule where projector, spin channel and index order can be confused without changing the energy.",
  files=["vayesta/core/types/wf/project.py", "vayesta/core/types/wf/wf.py", "vayesta/core/types/wf/ccsd.py", "vayesta/core/types/wf/mp2.py", "vayesta/core/types/wf/cisd.py"],
  mech=[("projection kernels", "vayesta/core/types/wf/project.py"), ("project/restore/rotate methods", "vayesta/core/types/wf/*.py")],
  technique=TECHB, level="proof", note="Proved for all dimensions and entries with exact arithmetic; einsum/transpose axioms trusted (cross-checked numerically each run)."),
 dict(id="P03", title="Restricted and spin-resolved descriptions agree",
  statement="Any restricted object (orbitals, amplitudes, wave function, reduced density matrices) viewed as spin-resolved, or expressed in generalised spin orbitals, describes the same closed-shell state: alpha and beta blocks coincide, the alpha-beta doubles are the restricted doubles, the same-spin doubles are their antisymmetrisation, and spin-summed densities are unchanged. "
   "Going to generalised orbitals and back is the identity.",
  forall="all orbital counts and amplitude values",
  why="Tests compare restricted with unrestricted energies of a few molecules; whole-object agreement for arbitrary amplitudes is never checked.",
  files=["vayesta/core/spinalg.py", "vayesta/core/types/orbitals.py", "vayesta/core/types/wf/*.py", "vayesta/core/vpyscf/*.py"],
  mech=[("as_unrestricted", "vayesta/core/types/wf"), ("to_generalized/to_spatial", "vayesta/core/types/orbitals.py"), ("elementwise spin algebra", "vayesta/core/spinalg.py")],
  technique=TECHB, level="proof", note="Maps proved for all dimensions; CCSD two-body density agreement between the restricted and unrestricted code paths and FCI are bounded (random amplitudes, up to 4 orbitals per space)."),
 dict(id="P04", title="Reduced density matrices are consistent with the wave function",
  statement="For every wave-function type the one- and two-particle reduced density matrices returned have the fermionic permutation symmetry, reduce to the mean-field density for vanishing amplitudes, combine the mean-field, one-body and cumulant parts exactly as requested by the with-mean-field / with-one-body options, and transform covariantly into the AO basis. "
   "For FCI they are the expectation values of the actual CI vector; for coupled cluster they equal the independent reference implementation.",
  forall="all orbital counts, all amplitude values, all combinations of the flags, restricted and unrestricted",
  why="Tests compare traces/energies for solved amplitudes of a few molecules; flag combinations, non-symmetric amplitudes and AO back-transformation are only sampled.",
  files=["vayesta/core/vpyscf/ccsd_rdm.py", "vayesta/core/vpyscf/uccsd_rdm.py", "vayesta/core/types/wf/mp2.py", "vayesta/core/types/wf/ccsd.py", "vayesta/core/types/wf/rdm.py", "vayesta/core/types/wf/fci.py"],
  mech=[("CCSD density intermediates", "vayesta/core/vpyscf"), ("make_rdm1/make_rdm2", "vayesta/core/types/wf")],
  technique=TECHB, level="proof", note="Assembly of the density matrices proved for all dimensions; the gamma intermediates versus PySCF and FCI versus brute force are bounded."),
 dict(id="P06", title="Fragment amplitudes assemble into the global wave function and its densities",
  statement="The global cluster amplitudes and Lagrange multipliers assembled from the fragments are the sum over fragments of the cluster amplitudes with the first occupied index projected on the fragment (doubles averaged over exchange), embedded in the full orbital space. "
   "Every density matrix built from them, by the fast fragment-pair algorithms or the reference route, with any combination of the symmetry, screening-off, mean-field, cumulant and AO options, is the density matrix of those global amplitudes. With complete bath spaces, fragments of any partition return exactly the amplitudes and density matrices of the unpartitioned wave function.",
  forall="all fragment partitions, cluster spaces, amplitude values, reference determinants, option combinations, restricted and unrestricted",
  why="Tests compare with stored numbers for converged solutions of a few molecules, in which terms linear in singles or in non-symmetric amplitudes vanish and errors up to the tolerance are hidden.",
  files=["vayesta/ewf/amplitudes.py", "vayesta/ewf/rdm.py", "vayesta/ewf/urdm.py", "vayesta/ewf/ewf.py", "vayesta/ewf/uewf.py", "vayesta/ewf/fragment.py", "vayesta/ewf/ufragment.py"],
  mech=[("amplitude assembly", "vayesta/ewf/amplitudes.py"), ("fragment-pair density matrices", "vayesta/ewf/rdm.py"), ("unrestricted density matrices", "vayesta/ewf/urdm.py")],
  technique=TECHB, level="proof", note="Amplitude assembly and the 1-RDM algorithms proved for two fragments of arbitrary (independent) sizes and arbitrary amplitudes (the sums are over single fragments and fragment pairs); 2-RDMs, screening and end-to-end runs with injected random amplitudes are bounded."),
 dict(id="P05", title="Democratically partitioned densities and DMET energies",
  statement="The democratically partitioned one- and two-particle density matrices are the sum over fragments of the cluster density matrices with the first index (of each spin pair) projected on the fragment, hermitised on request, with the documented mean-field, cumulant and AO options, and the DMET energy (total and per fragment) is the contraction of exactly those density matrices with the Hamiltonian. "
   "With complete bath spaces they equal the density matrices and energy of the unpartitioned calculation for any partition into fragments, and a converged chemical-potential optimisation leaves the fragments with the mean-field electron number.",
  forall="all partitions, clusters, cluster density matrices, option combinations, restricted and unrestricted",
  why="Tests compare stored energies for a few symmetric molecules, where the projected index, the spin pair or the hermitisation can be wrong without consequences.",
  files=["vayesta/core/qemb/rdm.py", "vayesta/core/qemb/fragment.py", "vayesta/core/qemb/ufragment.py", "vayesta/core/qemb/qemb.py", "vayesta/dmet/dmet.py", "vayesta/dmet/fragment.py", "vayesta/dmet/ufragment.py"],
  mech=[("partitioned density matrices", "vayesta/core/qemb/rdm.py"), ("fragment DMET energies", "vayesta/core/qemb/fragment.py"), ("DMET driver", "vayesta/dmet/dmet.py")],
  technique=TECHB, level="proof", note="Density-matrix assembly (cumulant route) and fragment energies proved for two fragments of arbitrary independent size and any cluster densities; the options mixing mean-field terms and the end-to-end DMET runs are bounded."),
 dict(id="P07", title="Energy functionals evaluate the correlated energy of the embedded amplitudes",
  statement="The correlation energy from projected amplitudes is, fragment by fragment, the contraction of the first-index-projected cluster amplitudes with the Fock and two-electron integrals of that cluster, weighted by the symmetry factor, so that complete fragment sets with complete baths give the exact energy functional of the unpartitioned amplitudes. "
   "The energies from one- and two-body density matrices or cumulants, in all their option combinations, equal the contraction of the corresponding density matrices with the Hamiltonian, and the corrections (finite bath, MP2 between clusters, perturbative triples) equal their defining sums.",
  forall="all cluster sizes, amplitudes, integrals, projectors, reference orbitals (including non-Hartree-Fock, where singles contribute) and options, restricted and unrestricted",
  why="Tests compare totals for converged amplitudes with stored numbers; contributions of singles, of the beta-alpha block and of options vanish or cancel there.",
  files=["vayesta/ewf/ewf.py", "vayesta/ewf/uewf.py", "vayesta/ewf/fragment.py", "vayesta/ewf/ufragment.py", "vayesta/ewf/icmp2.py"],
  mech=[("fragment energy", "vayesta/ewf/fragment.py"), ("global energies", "vayesta/ewf/ewf.py"), ("intercluster MP2", "vayesta/ewf/icmp2.py")],
  technique=TECHB, level="proof", note="Fragment energy kernels proved for all dimensions; global energies with injected random amplitudes, (T) and intercluster MP2 are bounded."),
 dict(id="P08", title="Cluster Hamiltonian represents the system Hamiltonian in the cluster",
  statement="The Hamiltonian handed to a cluster solver consists of the system's two-electron integrals transformed to the cluster orbitals (of each spin pair, in every block, cached, compressed or density-fitted) and a one-body part which, added to the mean field of the cluster's own occupied orbitals, gives the system's Fock matrix in the cluster plus any external potential. "
   "Screened interactions, polaritonic shifts of bosons and the mean-field object built for external solvers preserve this: they describe the same Hamiltonian, with padding orbitals decoupled, empty and frozen.",
  forall="all cluster sizes (different for alpha and beta), orbitals, integrals, external potentials, options, restricted and unrestricted, with and without bosons",
  why="Tests compare solver energies of a few clusters with stored numbers; unequal spin dimensions, external potentials, screening and padding are not exercised together.",
  files=["vayesta/solver/hamiltonian.py"],
  mech=[("one-body part", "vayesta/solver/hamiltonian.py get_heff/get_fock"), ("integral blocks", "vayesta/solver/hamiltonian.py get_eris_bare/_get_eris_block"), ("PySCF mean field", "vayesta/solver/hamiltonian.py to_pyscf_mf")],
  technique=TECHB, level="proof", note="One-body part, screening and integral blocks proved for all dimensions; boson shift, real-integral access and to_pyscf_mf are bounded."),
 dict(id="P09", title="Fragments partition the orbital space and match their description",
  statement="A fragmentation (IAO, IAO+PAO, SAO, site, CAS) provides orthonormal orbitals which together span the space it promises (for IAOs the occupied space), labelled with the atom, element and shell they belong to, and fragments requested by atom, orbital or label consist of exactly the orbitals requested. "
   "The diagnostics on a set of fragments (orthogonality, completeness of the occupied, virtual and full space, electron number, secondary and CAS fragments) report the true status of the set.",
  forall="all molecules incl. ghost atoms, reference orbitals, basis sets, atom and label selections, restricted and unrestricted",
  why="Tests use one fragment per atom of a few molecules; orderings, labels, ghosts, empty or overlapping selections and the diagnostics themselves are hardly sampled.",
  files=["vayesta/core/fragmentation/*.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/uqemb.py", "vayesta/core/qemb/fragment.py"],
  mech=[("fragment constructors", "vayesta/core/fragmentation/fragmentation.py"), ("IAO/SAO/PAO orbitals", "vayesta/core/fragmentation/*.py"), ("completeness tests", "vayesta/core/qemb/qemb.py")],
  technique=TECHB, level="proof", note="Selection, projection and search functions under contract are proved for all dimensions; orbital constructions on real integrals (IAO, PAO, SAO) and the completeness diagnostics are bounded."),
 dict(id="P10", title="Bath and cluster spaces are orthonormal, complete and as requested",
  statement="For every fragment the DMET bath, the truncated bath (natural-orbital, R2, EwDMET, full or none) and the frozen remainder are orthonormal, occupied and virtual parts lie in the occupied and virtual mean-field space, and fragment, bath and remainder together span the whole space, so that the active cluster contains the fragment and an integer, even-sided electron count. "
   "Natural-orbital baths diagonalise the MP2 density they are defined by, are ordered by decreasing occupation and are truncated exactly as the threshold option (occupation, number, fraction, electron percentage, per spin and per occupied/virtual) says.",
  forall="all fragments, orbital bases, integrals or density-fitted integrals, truncations, options, restricted and unrestricted",
  why="Tests fix one threshold per molecule and compare energies; orthogonality, ordering, block-wise evaluation, option combinations and degenerate or empty spaces are not asserted.",
  files=["vayesta/core/bath/*.py", "vayesta/core/types/cluster.py", "vayesta/core/qemb/fragment.py"],
  mech=[("DMET bath", "vayesta/core/bath/dmet.py"), ("MP2 natural orbitals", "vayesta/core/bath/bno.py"), ("cluster assembly", "vayesta/core/qemb/fragment.py make_cluster")],
  technique=TECHB, level="proof", note="MP2 density, environment projection and truncation rules proved for all dimensions; T2 evaluation in blocks and the complete bath constructions on real mean fields are bounded."),
 dict(id="P14", title="Results do not depend on packing or on the distribution over processes",
  statement="Packing a wave function for transport and unpacking it returns the same wave function (orbitals, every amplitude or coefficient block, projector and element type). Running an embedding calculation on any number of MPI processes, including more processes than fragments, gives on every process that is meant to hold them the same energies, amplitudes and density matrices as a serial run, without deadlock or mismatched communication.",
  forall="all wave-function types, dimensions, element types; all numbers of ranks and all assignments of fragments to ranks, restricted and unrestricted",
  why="The repository's tests never run with more than one process, and mpi4py is optional.",
  files=["vayesta/mpi/*.py", "vayesta/core/types/wf/*.py", "vayesta/core/qemb/*.py", "vayesta/ewf/*.py"],
  mech=[("pack/unpack", "vayesta/core/types/wf, vayesta/core/helper.py"), ("scatter, RMA and reductions", "vayesta/mpi, vayesta/core/qemb/rdm.py, vayesta/ewf/amplitudes.py")],
  technique=TECHB, level="other", note="Bounded: real code run on 1-5 ranks (processes) over a stand-in for mpi4py with exact deadlock and mismatch detection; packing round trips for sampled shapes and element types."),
 dict(id="P13", title="Integrals in orbital bases are the transformed integrals",
  statement="Two-electron and density-fitted integrals expressed in any molecular-orbital or cluster basis (for real molecules, unrestricted systems, and k-point sampled integrals folded to the supercell, including negative-definite density-fitting parts) are the basis transformation of the underlying AO integrals, whichever route, block size, memory limit, compression or compiled kernel is used. "
   "The integral objects handed to post-SCF methods contain exactly these integrals with the Fock matrix of the mean field, in every block.",
  forall="all orbital coefficients (also non-canonical, non-square), all auxiliary-block sizes, k-meshes, cell dimensions, restricted and unrestricted",
  why="Tests use whole-basis transformations with a single auxiliary block and one k-mesh; block boundaries, low-dimensional cells and mixed spin blocks do not occur.",
  files=["vayesta/core/ao2mo/*.py", "vayesta/core/eris.py", "vayesta/libs/core/src/*.c", "vayesta/core/qemb/qemb.py"],
  mech=[("k-point to supercell transformation", "vayesta/core/ao2mo/kao2gmo.py, libs/core"), ("post-SCF integral objects", "vayesta/core/ao2mo/postscf_ao2mo.py"), ("ERI helpers", "vayesta/core/ao2mo/helper.py, core/eris.py")],
  technique=TECHB, level="proof", note="Spin bookkeeping, packing and subspace selection of integral objects proved for all dimensions; k-point folding, compiled kernels and block-wise routes on real integrals are bounded."),
 dict(id="P15", title="Lattice models represent their Hamiltonian in every interface",
  statement="A Hubbard lattice of any shape, filling, site order, tiling and boundary condition has exactly the hopping matrix of its bonds (a bond across the boundary carries the boundary phase), and coordinates, indices, labels, orders and translations refer to the same sites. "
   "Its two-electron integrals, their transformation to any orbitals, their density-fitted form and the Coulomb and exchange matrices of its mean field all represent the same interaction. "
   "Embedding a lattice with complete bath spaces gives the exact solver result for any partition of the sites.",
  forall="all lattice sizes, boundary conditions, site orders, tilings, fillings, interaction strengths (non-negative for the density-fitted form), orbitals, density matrices, restricted and unrestricted",
  why="Tests use square, uniformly filled lattices in default order, where transposed sites, wrong images and misordered phases cannot be seen.",
  files=["vayesta/lattmod/latt.py", "vayesta/lattmod/bethe.py"],
  mech=[("hopping, coordinates, orders", "vayesta/lattmod/latt.py"), ("mean field and integrals", "vayesta/lattmod/latt.py"), ("Bethe ansatz", "vayesta/lattmod/bethe.py")],
  technique=TECHB, level="proof", note="Integral transformation and Coulomb/exchange matrices proved for all sizes, orbitals and densities; hopping, coordinates, orders, translations, SCF and embedding are bounded (independent construction from coordinates, up to 30 sites)."),
 dict(id="P20", title="Cluster solvers solve the Hamiltonian of their cluster",
  statement="A converged cluster solver returns the solution of exactly its cluster's Hamiltonian, external potential included: FCI the ground state, CISD an eigenvector and CCSD the roots of the amplitude and multiplier equations in their excitation spaces, MP2 the first-order amplitudes; convergence is reported only when it was reached. "
   "A chemical-potential optimisation returns the solution with the requested number of fragment electrons and leaves the Hamiltonian unchanged; tailored and user-supplied solvers receive the cluster's Hamiltonian and their amplitudes are used unchanged.",
  forall="all clusters, spins (including unequal numbers of orbitals or electrons), integral formats, potentials, initial guesses and solver options",
  why="Tests compare energies of a few clusters with stored numbers, mostly closed-shell, without potentials and with default guesses.",
  files=["vayesta/solver/solver.py", "vayesta/solver/mp2.py", "vayesta/solver/cisd.py", "vayesta/solver/ccsd.py", "vayesta/solver/fci.py", "vayesta/solver/tccsd.py", "vayesta/solver/callback.py", "vayesta/solver/_uccsd_eris.py", "vayesta/solver/hamiltonian.py"],
  mech=[("MP2 amplitudes", "vayesta/solver/mp2.py"), ("chemical potential", "vayesta/solver/solver.py"), ("solvers", "vayesta/solver/ccsd.py")],
  technique=TECHB, level="proof", note="MP2 amplitudes and potentials proved for all dimensions; the iterative solvers run inside PySCF, so their solutions are bounded: residuals against an independent determinant-space Hamiltonian for clusters of up to 4 orbitals per spin."),
 dict(id="P21", title="Tailored and externally corrected CCSD use the correcting fragments exactly",
  statement="CCSD tailored or externally corrected from other fragments adds in every iteration exactly the contribution the method defines: the T3 and T4 terms of the coupled-cluster equations, or amplitude differences, of each correcting fragment, projected onto its fragment, transformed to the cluster and divided by energy denominators where they are residuals. "
   "With correcting fragments that are exact and cover the space the exact amplitudes are a solution, and corrections that are invalid are refused.",
  forall="all cluster sizes, overlaps between clusters, amplitudes, integrals, numbers of projectors and fragments, restricted and unrestricted, both choices of integrals",
  why="Tests compare total energies of one or two molecules, restricted for the most part, with exact reference energies or stored numbers.",
  files=["vayesta/solver/coupling.py", "vayesta/solver/ccsdtq.py", "vayesta/solver/ext_ccsd.py", "vayesta/ewf/fragment.py"],
  mech=[("T3 and T4 residuals", "vayesta/solver/ccsdtq.py"), ("corrections", "vayesta/solver/coupling.py"), ("interface", "vayesta/ewf/fragment.py")],
  technique=TECHB, level="proof", note="Residuals and their combination proved for all sizes; the specification itself is validated against determinant-space residuals, and fixed points are bounded (4 orbitals)."),
 dict(id="P16", title="Random phase approximation solves the RPA equations in every formulation",
  statement="For a mean field, interaction scaling and exchange-correlation kernel, the matrices A and B of every RPA class, conventional or from three-index decompositions, are the mean-field excitation energies plus exactly that interaction in the occupied-virtual spin-orbital space. "
   "Excitation energies, vectors and density-density moments of any order solve the RPA equations of these matrices; moments in a rotated or spin-summed target space are those of the full space, rotated. "
   "Energies are the coupling-strength integral of the interaction with the correlation part of the zeroth moment, or the documented approximation to it when a kernel is present.",
  forall="all numbers of occupied and virtual orbitals, orbitals and orbital energies with a gap, integrals (including negative parts), kernels in full or decomposed form, scalings, target rotations, moment orders and compression levels, restricted and unrestricted",
  why="Tests compare energies and low moments of a few molecules with stored numbers, without kernels, scalings, compression or unsymmetric decompositions.",
  files=["vayesta/rpa/rpa.py", "vayesta/rpa/ssrpa.py", "vayesta/rpa/ssurpa.py", "vayesta/rpa/rirpa/RIRPA.py", "vayesta/rpa/rirpa/RIURPA.py", "vayesta/rpa/rirpa/RIdRRPA.py", "vayesta/rpa/rirpa/momzero_NI.py", "vayesta/rpa/rirpa/energy_NI.py", "vayesta/rpa/rirpa/NI_eval.py"],
  mech=[("RPA matrices", "vayesta/rpa/ssrpa.py"), ("decomposed matrices and moment recursion", "vayesta/rpa/rirpa/RIRPA.py"), ("numerical integration", "vayesta/rpa/rirpa/NI_eval.py")],
  technique=TECHB, level="proof", note="Matrices, decompositions and moment recursions (up to fourth order) proved for all dimensions, orbitals, integrals and kernels; eigenvalue solution, zeroth moment by quadrature and energies are bounded: compared with dense linear algebra for four hydrogen atoms with random kernels and rotations."),
 dict(id="P17", title="Correlation functions and populations are the operators' expectation values",
  statement="Charge and spin correlation functions between atoms are the expectation values of the atomic number and spin operators of the given density matrices, with or without the product of the one-body averages subtracted. "
   "Assembled from fragments, they equal the same expectation value of the democratically partitioned density matrices, and of the reference determinant when no correlated density matrix is used. "
   "Populations, charges and spins of atoms and orbitals, of the system or of one cluster, are the traces of the total density matrix over the chosen local orbitals, and add up to the number of electrons.",
  forall="all density matrices, atomic projectors, fragmentations, clusters, restricted and unrestricted references, local orbital sets and output routes",
  why="Tests compare a few numbers for whole molecules whose fragments are equivalent by symmetry.",
  files=["vayesta/misc/corrfunc.py", "vayesta/core/qemb/corrfunc.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py"],
  mech=[("expectation values", "vayesta/misc/corrfunc.py"), ("assembly from fragments", "vayesta/core/qemb/corrfunc.py"), ("populations", "vayesta/core/qemb/qemb.py")],
  technique=TECHB, level="proof", note="Correlation functions and their assembly from fragments proved for all dimensions and density matrices (two fragments, additive over fragment pairs); whole calculations and populations are bounded (four hydrogen atoms)."),
 dict(id="P18", title="Helper routines compute what they promise",
  statement="The tensor and orbital-space helpers all methods are built on compute their documented function for every input: spin algebra acts on alpha and beta separately, orbital-space stacking, splitting, deflation, overlap and canonicalisation preserve the span and orthonormality, energies and matrix brackets equal their defining contractions, and option objects, caches, timers and logging wrappers neither change results nor leak between callers.",
  forall="all array shapes (including empty and single-row), spin structures, option values and call histories",
  why="The helpers are tested only through the energies of whole calculations, with square, non-empty, restricted inputs.",
  files=["vayesta/core/util.py", "vayesta/core/spinalg.py", "vayesta/core/linalg.py", "vayesta/core/helper.py", "vayesta/core/types/orbitals.py", "vayesta/core/types/cluster.py"],
  mech=[("tensor helpers", "vayesta/core/util.py"), ("spin algebra", "vayesta/core/spinalg.py"), ("orbital containers", "vayesta/core/types/orbitals.py")],
  technique=TECHB, level="proof", note="Algebraic helpers proved for all dimensions; caching, logging, timing and eigen-decomposition helpers are bounded."),
 dict(id="P11", title="Symmetry-derived fragments equal explicitly calculated fragments",
  statement="Symmetry operations (translations, rotations, reflections, inversions) map atoms, basis functions, orbitals and integrals onto each other exactly as the spatial operation does, and a system that does not have the claimed symmetry is refused. "
   "Results obtained by solving only symmetry parents, that is energies, assembled amplitudes and density matrices, equal those of solving every fragment explicitly.",
  forall="all symmetry groups and nestings, basis sets including Cartesian functions and high angular momenta, cells, boundary conditions, restricted and unrestricted, all solvers and density routes",
  why="Tests use high-symmetry atoms with s and p functions and compare energies, for which wrong phases, permutations or images cancel.",
  files=["vayesta/core/symmetry/*.py", "vayesta/core/qemb/fragment.py", "vayesta/core/qemb/qemb.py", "vayesta/ewf/amplitudes.py", "vayesta/ewf/rdm.py", "vayesta/ewf/urdm.py"],
  mech=[("operations on basis functions", "vayesta/core/symmetry/operation.py"), ("derived fragments", "vayesta/core/qemb/qemb.py"), ("loops over symmetry children", "vayesta/core/qemb/fragment.py")],
  technique=TECHB, level="proof", note="Amplitude assembly and the 1-RDM route proved for fragments related by arbitrary symmetry operations, all dimensions and amplitudes; operations on real basis sets, derived fragments of real systems and refusal of broken symmetries are bounded."),
 dict(id="P12", title="Folding k-point calculations gives the supercell calculation",
  statement="A k-point sampled mean field folded to its Born-von Karman supercell is the mean field of that supercell: overlap, core Hamiltonian and potential of any density are the unitary (Bloch) transformation of the k-point matrices and equal those of an independent supercell calculation, and unfolding inverts folding. "
   "The folded orbitals are real, orthonormal, ordered by energy and span the same occupied and one-particle spaces, energies scale with the number of cells, and the caller's k-point object is left unchanged.",
  forall="all k-meshes, cells, dimensions, numbers of orbitals per k-point, densities, restricted and unrestricted",
  why="Tests compare the total energies of converged calculations on one or two meshes; phases, orderings and unfolding of other densities can be wrong consistently.",
  files=["vayesta/core/foldscf.py"],
  mech=[("k-point/supercell transformation", "vayesta/core/foldscf.py k2bvk_2d/bvk2k_2d/get_phase"), ("folded mean field", "vayesta/core/foldscf.py FoldedSCF"), ("folded orbitals", "vayesta/core/foldscf.py fold_mos/make_mo_coeff_real")],
  technique=TECHB, level="proof", note="Transformations and folded matrices proved for all dimensions with any unitary phases; phases of real meshes, orbitals and agreement with an independent supercell mean field are bounded."),
 dict(id="P19", title="Options and selections reach exactly what they are meant for",
  statement="Options given to an embedding, a fragment or a later change apply to exactly the objects named: fragments take the embedding's options unless they have their own, dictionaries are merged key by key, the solver and its PySCF object receive every option they know, and nothing is shared with the caller or other objects. "
   "Unknown options, keys, flags and solvers are refused. "
   "Selecting fragments by attributes, options and flags returns exactly those that meet all conditions, in order.",
  forall="all option values, nestings, sequences of changes, fragments and selection conditions, restricted and unrestricted, all embedding classes and solvers",
  why="Tests set one or two options per calculation and look at the energy; an option that is dropped, leaks to another fragment or a misspelt name shows only for particular combinations.",
  files=["vayesta/core/util.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py", "vayesta/core/qemb/register.py", "vayesta/ewf/fragment.py", "vayesta/dmet/fragment.py", "vayesta/solver/__init__.py", "vayesta/solver/*.py"],
  mech=[("option objects", "vayesta/core/util.py OptionsBase"), ("inheritance by fragments", "vayesta/core/qemb/fragment.py __init__"), ("selection", "vayesta/core/qemb/qemb.py get_fragments"), ("solver options", "vayesta/ewf/fragment.py get_solver_options")],
  technique=TECHB, level="proof", note="Selection is proved for arbitrary conditions (per fragment, up to two fragments; the loop treats fragments independently); option inheritance and solver settings are bounded (random values of all options)."),
 dict(id="P22", title="Self-consistency loops stop at the fixed point they report",
  statement="Updating the mean field makes orbitals, potential, orbital energies and total energy those of the new density, and orbitals that are not orthonormal are refused. "
   "Self-consistent Brueckner, p-DMET, chemical-potential and correlation-potential loops apply exactly their defining update in every iteration, with orthonormal orbitals and results of earlier iterations discarded. "
   "They report convergence if and only if their criteria are met, and the results they return belong to the final orbitals and potential.",
  forall="all orbitals, overlaps, densities, amplitudes, sequences of energies, tolerances, dampings, extrapolation settings and monotonic electron-number functions",
  why="Tests compare the converged energies of a few molecules; a wrong update, a stale cache or a wrong convergence flag can leave those unchanged.",
  files=["vayesta/core/scmf/scmf.py", "vayesta/core/scmf/brueckner.py", "vayesta/core/scmf/pdmet.py", "vayesta/misc/cptbisect.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/uqemb.py", "vayesta/dmet/updates.py", "vayesta/dmet/sdp_sc.py"],
  mech=[("mean-field update", "vayesta/core/qemb/qemb.py update_mf"), ("iteration", "vayesta/core/scmf/scmf.py"), ("orbital updates", "vayesta/core/scmf/brueckner.py, pdmet.py"), ("root search", "vayesta/misc/cptbisect.py")],
  technique=TECHB, level="proof", note="The mean-field update is proved for all dimensions and orbitals; orbital updates, the loop protocol, root search and fixed points of real calculations are bounded (random instances, four hydrogen atoms)."),
 dict(id="P24", title="Results do not depend on what was calculated before",
  statement="Any sequence of queries, option changes and repeated calculations on an embedding gives the results a fresh object with the final settings gives; nothing of an earlier calculation survives in caches or stored wave functions. "
   "Asking for a quantity never changes the answer to a later question, inputs (mean field, orbitals, amplitudes) are left as they were, copies are independent, and modifying a returned array does not change the object it came from.",
  forall="all histories of calculations and queries, wave function types, restricted and unrestricted references, options and orbitals",
  why="Tests build a fresh object and query it once; the number of histories is unbounded.",
  files=["vayesta/core/types/wf/*.py", "vayesta/core/qemb/*.py", "vayesta/ewf/*.py", "vayesta/dmet/*.py"],
  mech=[("wave function containers", "vayesta/core/types/wf"), ("result caches", "vayesta/core/util.py cache; vayesta/ewf/ewf.py"), ("reset and repeated kernel", "vayesta/core/qemb/qemb.py, vayesta/ewf/ewf.py")],
  technique=TECHB, level="proof", note="Queries and copies of wave functions proved for all dimensions and amplitudes (frame conditions); histories of whole calculations are bounded."),
]
