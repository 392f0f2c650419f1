"""Writes properties.jsonl and MANIFEST.json from the one list below (run after editing it)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique="", note="",
         level="model_checking"):
    P.append(dict(
        rec=dict(id=id, title=title, statement=" ".join(statement.split()),
                 quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              observe_at=list(observe), hook_needed=None)),
        technique=technique, note=" ".join(note.split()), level=level))


prop("P01", "Only one parameter varies at a time, and by the configured amount",
     """Asking a parameter set to vary one free parameter at a displacement step sets that parameter to
     fiducial + displacement x its step factor x fiducial (fiducial replaced by 1 when it is 0), leaves every other
     parameter's current value untouched - except that in a flat universe varying the matter or the dark-energy density
     sets the other, non-free one to 1 minus it - and never alters a fiducial; the steps are -n..-1,1..n over the sorted
     displacements and their mirror images.
     Resetting, or asking for the central model, restores every parameter to its fiducial value from any state.
     Varying a parameter that is not free is refused, and so is, in a flat universe, varying a density when both densities
     are free or when their fiducials do not sum to 1.""",
     ["histories", "configurations"], "all sequences of vary/reset/central requests over all flat/free configurations",
     "unit tests vary one parameter once from fresh state; leftovers of an earlier variation only show in histories",
     ["seyfert/cosmology/parameter.py"],
     [("displacement rule", "seyfert/cosmology/parameter.py: PhysicalParameter.computeValueForDisplacement"),
      ("variation and reset", "seyfert/cosmology/parameter.py: PhysicalParametersCollection.updatePhysicalParametersForDvarStep")],
     [("current values", "value of each parameter in the model being evaluated", "PhysicalParameter.current_value")],
     ["current_value and fiducial of every parameter after every request"],
     "exhaustive exploration of request histories on the real objects against a reference state machine",
     """All histories to depth 3 (thorough 4) over 10 configurations, all pairs of variations of the shipped sets.
     Trusts the reference state machine written in the check.""")

prop("P02", "Parameter sets survive being written and read back, and queries select exactly",
     """Writing a parameter set to JSON and reading it back, by either reading entry point, reproduces every parameter in order
     (also in a set configured otherwise or read before) with all its attributes (name, fiducial, current value, kind, probe, free flag, step factor, derivative method, units),
     the displacements with their step numbering, and the flatness flag, whatever variation was active when it was written;
     reading only cosmological parameters drops exactly the nuisance ones.
     Queries for cosmological, nuisance, free, free-cosmological parameters and for the nuisance or free parameters of a
     probe return exactly the matching parameters and do not change the set.
     Parameters with missing or wrongly typed name, fiducial, free flag or kind, or nuisance parameters without a probe, are
     refused.""",
     ["inputs", "configurations"], "all parameter attribute combinations of a grid and all ordered sets of up to 3 (4) parameters",
     "tests round-trip a single shipped set with no variation applied",
     ["seyfert/cosmology/parameter.py", "seyfert/utils/encoders.py"],
     [("serialisation", "PhysicalParametersCollection.writeJSON/readJSON/fromJSON"),
      ("selection", "PhysicalParametersCollection.getFreePhysicalParametersForProbe and siblings")],
     (), ["attributes of every parameter read back"],
     "exhaustive enumeration of bounded parameter sets through write/read/query sequences on the real code",
     "Bounded alphabet of 6 parameters plus an attribute grid; reference selection is a list comprehension.")

prop("P03", "Job directory names identify exactly one variation",
     """The directory name made for a (parameter, step) variation, for a parameter's derivative, or for a pair of parameters is a
     legal single path component, distinct from that of every other variation of the same kind, and decoding it gives back
     exactly the parameter name(s) and the signed step.
     A name that does not have that form is refused.""",
     ["inputs"], "all parameter names of the shipped and synthetic lists and all steps in a bounded range",
     "tests decode one or two single-digit names",
     ["seyfert/utils/filesystem_utils.py"],
     [("encoding/decoding", "filesystem_utils.get_cosmology_jobdir_name / get_dvar_step_from_cosmology_jobdir_name and siblings")],
     (), ["decoded (parameter, step)"],
     "exhaustive enumeration of (name, step) states through encode/decode transitions on the real code",
     "78 names x steps -120..120 (thorough 1500). Names containing the separator of pair names are outside the claim.")

prop("P04", "Probe-pair names and data vectors translate without loss",
     """Any chain of translations between the long, short and alias notations, reversals, copies and string round trips of a probe
     or probe pair denotes the pair that the operations imply, in the notation last asked for, and never changes the object it
     started from; reversing twice is the identity and translation never swaps the two probes.
     Two pairs compare equal, and hash alike, exactly when they denote the same ordered pair whatever their notation, and two
     data vectors are equal exactly when they have the same pairs in the same order. A vector made from another one can be
     translated without changing the other.
     A data vector's name, brief string and string each rebuild the same vector; unknown probe names are refused.""",
     ["inputs", "histories"], "all operation chains of length 5 (6) from all pairs; all vectors up to length 3 (4)",
     "tests check a handful of keys and single conversions",
     ["seyfert/utils/shortcuts.py", "seyfert/fisher/datavector.py", "seyfert/utils/general_utils.py"],
     [("translation", "shortcuts.ClKey / ProbeName"), ("data vector codec", "datavector.ClDataVector")],
     (), ["raw key, kind, parts, equality, hash, vector entries"],
     "explicit-state exploration of operation chains on the real objects against a reference pair",
     """Breadth-first over (pair, notation, last two operations). Strings that merely start with a valid pair name are outside
     the claim.""")

prop("P05", "A pair asked for in swapped order gives the stored block, bins exchanged",
     """In every pair-keyed container, after any history of storing, overwriting, bulk-updating and deleting, looking up a stored
     pair returns the latest stored value, looking up its reverse when only the other order is stored returns the stored
     value - with its two bin axes exchanged in the containers of spectra - and looking up a pair stored in neither order
     raises KeyError; membership agrees with lookup.
     Containers whose keys accept several notations give the same answer in all of them, length and keys are exactly
     those stored, and no lookup alters what is stored.""",
     ["histories", "inputs"], "all store/delete/update histories of depth 3 (4) on each container kind, all lookups after each step",
     "tests look up one reversed key of a freshly filled container",
     ["seyfert/base_structs/cl_dict.py", "seyfert/base_structs/generic_dict.py", "seyfert/utils/shortcuts.py"],
     [("swapped lookup", "cl_dict.FlexDict/ClDict/TupleSmartDict/ClSmartDict, shortcuts.SmartKeyDict/ClSmartKeyDict")],
     [("content", "stored key -> block", "the container's base dictionary")], ["every lookup after every step"],
     "exhaustive exploration of container histories on the real objects against a dictionary model",
     "Three probes with 2, 3 and 2 bins; two ell values.")

prop("P06", "Fisher matrix algebra is exact after any history of operations",
     """Sum and difference of two Fisher matrices have the union of parameters, entry = sum/difference with missing entries
     counted 0, the union of cosmological and of nuisance sets, and leave the operands unchanged; fixing removes rows and
     columns, marginalising gives the Schur complement over the kept parameters, a prior adds 1/(fraction x value)^2 to one
     diagonal entry, and each keeps the parameter sets consistent with the labels; requests naming absent parameters are
     refused.
     At any point of any history of these operations, copies, selections, inversions and loads of another matrix, marginalised errors are the square
     roots of the diagonal of the inverse of the current matrix, unmarginalised errors are 1/sqrt of its diagonal, the
     figure of merit is the one of the (w0, wa) block of that inverse, and correlations are those of that inverse, each
     under the right parameter label.
     The result does not depend on the row order of the input, nor on the order in which parameters are marginalised or
     matrices are added.""",
     ["histories", "inputs"], "all histories of 18 operations up to depth 3 (4) with and without intermediate observation",
     "tests apply one operation to one stored matrix; cached inverses go stale only in sequences",
     ["seyfert/fisher/fisher_matrix.py", "seyfert/fisher/linalg_tools.py", "seyfert/fisher/fisher_utils.py"],
     [("algebra", "fisher_matrix.FisherMatrix operators, fixParameters, marginalizeParameters, addPriorToParameters"),
      ("cached inverse", "FisherMatrix.evaluateInverse and its users")],
     [("matrix, inverse, parameter sets", "labelled matrix, cached inverse and label sets", "FisherMatrix attributes")],
     ["entries, labels, sets, errors, sigmas, figure of merit, correlation"],
     "exhaustive exploration of operation histories on the real objects against a labelled-entries reference",
     """Two starting matrices (5 and 4 parameters), tolerance 1e-6 relative; numerically singular states (condition > 1e7) are
     pruned, entries only are compared for non-positive-definite ones.""")

prop("P07", "Results on disk are faithful and never clobbered unasked",
     """Writing a Fisher matrix to a path and reading it back gives the same name, labels in order, entries to the last bit and
     parameter sets; if the path exists, the write replaces it only when overwriting is requested, leaves it byte-for-byte
     alone when skipping is requested, and is otherwise refused with the file intact, at any point of any history of writes and deletions;
     table files in csv and xlsx follow the same rule except that not overwriting is silent, and unknown table formats are
     refused without creating a file.
     Saving the matrices of an analysis into a directory and loading that directory gives the same matrices.
     Matrices of distinct data-vector names never share a file name.""",
     ["histories", "inputs"], "all write/delete histories of depth 4 (5) on one path; all data vector names up to 3 entries",
     "tests write once to a fresh path",
     ["seyfert/fisher/fisher_matrix.py", "seyfert/fisher/fisher_analysis.py", "seyfert/utils/table_utils.py"],
     [("write policy", "FisherMatrix.writeToFile, table_utils.write_dataframe_table"),
      ("file names", "FisherMatrix.getFilename"), ("reading", "FisherMatrix.loadFromFile/fromHDF5/fromCSV")],
     [("files", "content of the destination path", "file system")], ["bytes of the file, matrix read back"],
     "exhaustive exploration of write/delete histories on real files against a path-content model",
     "Two matrices and two tables; real files in a scratch directory.")

prop("P08", "The Fisher matrix of a data vector is the Gaussian one",
     """The Fisher matrix evaluated from spectra ΔC and derivatives for a data vector is the sum, over the multipoles common to
     every spectrum the covariance needs, of d^T Cov^-1 d with Cov = [ΔC_AC ΔC_BD + ΔC_AD ΔC_BC]/(2l+1), where the
     observables are the unordered bin pairs of each auto-correlation and all bin pairs of each cross-correlation in the vector.
     A data vector of several entries adds, for each auto-correlation it contains, that auto-correlation's own contribution
     at the multipoles not already in that sum, and is refused if the per-multipole results of the auto-correlations are not
     supplied.
     Rows and columns are exactly the free cosmological parameters and the free nuisance parameters of the probes involved.
     The result is independent of the order of entries, of the orientation in which a cross-correlation is written and of
     the orientation in which its spectra are stored; derivatives on other multipoles than the spectra are refused; the
     inputs are not altered.""",
     ["inputs", "configurations"], "every data vector of up to 3 (5) pairs in every order/orientation x storage x multipole layouts",
     "tests compare a few data vectors with stored matrices in one storage order",
     ["seyfert/fisher/fisher_evaluator.py", "seyfert/fisher/delta_cl.py", "seyfert/fisher/datavector.py"],
     [("evaluation", "fisher_evaluator.FisherEvaluator.computeFisherMatrix"), ("covariance", "FisherEvaluator / DeltaClCollection"),
      ("derivative vector", "FisherEvaluator")], (), ["matrix entries and labels, per-multipole entries, input arrays"],
     "exhaustive enumeration of data vectors and layouts on the real code against a scalar-loop Gaussian reference",
     "5 multipoles, up to 2 bins per probe, at least two common multipoles; positive-definite synthetic spectra.")

prop("P09", "Noisy spectra follow the survey noise model through any history",
     """Evaluating the noisy spectra gives, for every pair of probes, ΔC = sqrt(1/(Δℓ f_sky)) (C + N), with the sky fraction
     given in that evaluation or else the configured one. N is zero for cross-correlations; for auto-correlations it is diagonal in
     the bins, with entries factor/n_i, where the factor is 0.3² for lensing and 1 for galaxies and n_i is the number of galaxies
     per steradian of bin i, as given with the input distributions or else the integral of dN/dz/dΩ over the bin; with the option of
     reduced spectroscopic noise (for densities given as dN/dz/dΩ) the spectroscopic entries are multiplied by the ratio of total
     spectroscopic to total photometric galaxies. An external shot-noise file replaces N entirely, for autos and crosses, from the next evaluation on.
     Shot noise written to a file and read back, and a collection saved and reloaded, are unchanged, and can be evaluated again.
     The matrix of a set of probes (all probes, and each pair when there are more than two) holds, at the multipoles common to
     those probes, the block of each ordered pair in probe order, transposed where the spectrum is stored the other way round; it and each
     auto-correlation come with their inverses. The fiducial spectra passed in are never altered, whatever is done in whatever order.""",
     ["histories", "configurations"], "all histories of evaluations, noise files, saves over 8 choices of probes and densities",
     "tests evaluate once for one stored forecast; noise precedence and re-evaluation only show in histories",
     ["seyfert/fisher/delta_cl.py", "seyfert/cosmology/redshift_density.py"],
     [("noisy spectra", "delta_cl.DeltaClCollection.evaluateSingleBlocks, DeltaCl.evaluateDeltaCl"),
      ("noise", "DeltaCl shot noise evaluation, DeltaClCollection.loadShotNoiseFromFile"),
      ("block matrices", "DeltaClCollection.buildXCBlocks")],
     [("noise and noisy spectrum", "noise_lij, delta_c_lij of each block", "DeltaCl attributes")],
     ["noise_lij, delta_c_lij, inv_delta_c_lij and multipoles of every block, files written"],
     "exhaustive exploration of operation histories on the real objects against a noise-in-force reference",
     """All histories of 8 operations to depth 3 (4), one less for convolved densities; reference integrals by spline, tolerance
     1e-9, 1e-4 where integrals of densities are involved.""")

prop("P10", "Numerical derivatives are the slope on the widest linear stencil",
     """The derivative of a spectrum with respect to a free parameter is, element by element, the least-squares slope over the
     widest centred set of stencil points on which the fitted line reproduces every point to better than 1%, removing the outermost point on each side
     until that holds or three points are left; this is so for spectra of any sign, for any number of steps, whether elements are processed
     together or one at a time, and does not depend on the other elements or on their order, and the spectra passed in
     are not altered.
     Spectra of the steps read from job directories are assigned to their step, whatever the number of steps or order of creation;
     the derivative with respect to a nuisance parameter of a probe outside the pair is exactly zero; derivative files read back
     unchanged. The analytic derivative with respect to the constant bias b_k of a galaxy probe is C_ij/b_k for each of
     the two indices that is bin k of that probe, for any number of bins.""",
     ["inputs"], "every pattern of deviating points on 3, 5, 7-point stencils (sparse patterns on longer) x lines x parameters",
     "tests compare one stored derivative; sign, stencil length and the refinement path matter",
     ["seyfert/derivatives/differentiator.py", "seyfert/derivatives/cl_derivative.py"],
     [("refinement", "differentiator.SteMClDifferentiator.doComputeDerivative"),
      ("loading of steps", "differentiator.ClDifferentiator.loadClData"), ("analytic", "differentiator.AnalyticClDifferentiator")],
     (), ["derivative arrays, derivative files"],
     "exhaustive enumeration of deviation patterns on the real code against a scalar definition; files through real directories",
     """3 deviation values per point on up to 7 points (5 values on 5, 3 on 9 thorough), up to 2 (3) deviating points on 15 and
     one (two) on 23; patterns within 1e-7 of the 1% threshold or with zero values are not judged.""")

prop("P11", "Spectra are varied one parameter at a time and everything is put back",
     """Computing the variations of the spectra with respect to a free parameter yields the fiducial spectra at step 0 and, for
     each configured SteM step of either sign, the spectra of the model in which only that parameter is displaced by its step
     (in a flat universe together with the other density): the power spectra, distances and growth of that step for a cosmological
     parameter, those of the fiducial cosmology for a nuisance parameter.
     Afterwards all parameters are at their fiducials and densities and fiducial spectra are unchanged, so results do not depend on
     which parameters were processed before, or in which order. The derivatives computed from them are, for every pair of
     probes, element by element, the SteM slope of those spectra over the displaced values of the parameter.""",
     ["histories", "configurations"], "all sequences of 2 (3) parameters over 5 choices of probes, free parameters, steps and flatness",
     "tests compute one stored variation; leftovers of the previous parameter and the matching of steps need sequences",
     ["seyfert/main/cl_core.py", "seyfert/main/cl_derivative_core.py", "seyfert/cosmology/parameter.py"],
     [("variations", "cl_core.compute_cls_variations, cl_core.load_cosmology"),
      ("derivatives", "cl_derivative_core.compute_cls_derivatives_wrt")],
     [("current values", "displaced parameters", "PhysicalParameter.current_value")],
     ["spectra of every step, derivative arrays, current values, densities"],
     "exhaustive exploration of parameter sequences on the real pipeline against an independent Limber and SteM reference",
     "Reference by scalar quadrature; tolerance 3e-6 on spectra; derivatives within 1e-4 of the linearity threshold not judged.")

prop("P12", "Angular power spectra are the Limber integrals of the configured model",
     """For every choice and order of probes, the spectrum of each unordered pair in that order at the multipoles common to both (with
     the bin widths of the first) is
     C_ij(l) = ∫ dz c W_i W_j P((l+1/2)/r, z) / (H r²) over the redshift grid, by the configured rule (Simpson,
     composite Newton-Cotes of order 1 to 6, Romberg, adaptive quadrature of the interpolant), P being the spline of log10 of the
     non-linear power spectrum in (z, log10 k), of the configured orders and smoothing. Galaxy weights are H n_i b / c with the piecewise or constant bias at the current nuisance values;
     lensing weights are 1.5 Ωm (1+z) (H0/c)² r times the lensing efficiency, minus, if intrinsic alignment is included,
     A C F Ωm H n_i / (D c), F=(1+z)^eta L(z)^beta. Auto-spectra are symmetric; the off-diagonal spectroscopic auto-spectra are
     exactly zero unless asked for. H and r are those of the current cosmology, flat, curved or with evolving dark energy.
     A result depends only on the model evaluated, not on evaluations made before with the same densities, parameters and
     configuration, which are left as they were.""",
     ["configurations", "histories"], "15 probe orders x options x universes x rules x grid sizes; all sequences of 3 (4) of 6 models",
     "tests compare a few stored spectra of one configuration and evaluate once",
     ["seyfert/cosmology/c_ells.py", "seyfert/cosmology/weight_functions.py", "seyfert/cosmology/kernel_functions.py",
      "seyfert/cosmology/cosmology.py", "seyfert/numeric/integration.py"],
     [("spectra", "c_ells.AngularCoefficient.evaluateAngularCorrelation"), ("weights", "weight_functions"),
      ("background", "cosmology.Cosmology.evaluateOverRedshiftGrid"), ("bias", "bias.PiecewiseBias, ConstantBias")],
     [("cached weights and kernels", "w_bin_z, k_ijz kept once evaluated", "WeightFunction, KernelFunction")],
     ["c_lij, l_bin_centers, l_bin_widths of every spectrum"],
     "exhaustive enumeration of configurations and evaluation histories on the real code against an independent scalar reference",
     "Tolerance 2e-6; Void probe not covered; smooth synthetic power spectrum; 33 to 40 redshifts.")

prop("P13", "Computed objects stored in HDF5 groups come back exactly as they were stored",
     """Densities, biases, power spectra, cosmologies (with or without parameters' derived arrays and power spectrum), weight and kernel
     functions, angular spectra (single, with or without kernel; collections with their weights), and noisy-spectra blocks and collections,
     saved with saveToHDF5 under any groups of one file, in any order and mixture of kinds (several single spectra beside each other in one
     group belonging to one run), are read back by fromHDF5, and by loadFromHDF5 into a fresh object, with the same arrays, labels,
     parameters and parts, whatever is saved later under other groups. Saving never alters the object. A second save at an occupied group
     raises and leaves everything the file holds readable and unchanged. Opening: 'w', 'w-' and 'x' never touch an existing file (they
     raise), 'r' and 'r+' raise without a file, 'r' raises on a missing group and never changes the file; other modes create the group; an
     unknown mode raises ValueError. A file created at its
     top group carries CreationDate and CodeVersion, kept by later openings; those for writing, of the
     top group, update LastUpdate.""",
     ["histories"], "15 kinds x 2 variants x 3 groups: all histories of saves; all histories of openings in 7 modes x 3 groups",
     "tests save one object at the top group of a new file and read it back",
     ["seyfert/file_io/hdf5_io.py", "seyfert/cosmology/c_ells.py", "seyfert/cosmology/weight_functions.py",
      "seyfert/cosmology/kernel_functions.py", "seyfert/cosmology/cosmology.py", "seyfert/cosmology/power_spectrum.py",
      "seyfert/cosmology/redshift_density.py", "seyfert/cosmology/bias.py", "seyfert/fisher/delta_cl.py"],
     [("opening", "hdf5_io.AbstractH5FileIO.openFile"), ("spectra", "c_ells.H5Cl, H5ClCollection"), ("weights", "H5WeightFunction"),
      ("cosmology", "H5Cosmology, H5PowerSpectrum"), ("density and bias", "H5Density, H5Bias"), ("blocks", "H5DeltaCl, DeltaClCollection")],
     [("file contents", "what each group of the file holds", "the HDF5 file")],
     ["attributes of the loaded objects", "exceptions", "bytes of the file"],
     "exhaustive enumeration of save and open histories of one file on the real code against a model of its contents",
     "Different runs' single spectra mixed in one group, which share weights by design, are not covered.")

prop("P14", "A forecast stopped at any instant and started again ends like one never stopped",
     """A forecast (seyfert_core.do_forecast on one run directory) that is stopped at any instant - killed, leaving whatever is on disk,
     any file then being written cut short; or interrupted by an exception, clean-up running - and then started again with the same
     arguments in the same run directory completes without an error. However often it is stopped, what it stores in the end (normalised
     densities, fiducial spectra, derivatives, delta-cls, per-multipole and base Fisher matrices, final Fisher matrices and error tables)
     equals, to rounding, what a run never stopped stores. A complete stored product of the densities, spectra, derivatives, delta-cls or
     base Fisher matrices is kept untouched by the restart, and an incomplete one is never taken for complete.""",
     ["crash_points", "histories"], "every file-system event of a forecast as a kill and as an interrupt, torn files, second stops",
     "no test stops a forecast; the states between two writes are never seen by them",
     ["seyfert/main/seyfert_core.py", "seyfert/utils/workspace.py", "seyfert/utils/filesystem_utils.py", "seyfert/main/cl_core.py",
      "seyfert/fisher/fisher_core.py", "seyfert/fisher/final_results_core.py", "seyfert/file_io/hdf5_io.py"],
     [("stages", "seyfert_core.do_forecast, compute_densities, compute_fiducial_cls, compute_cl_derivatives, compute_fishers"),
      ("complete products", "filesystem_utils.complete_file"), ("final results", "final_results_core.create_final_results")],
     [("run directory", "the files of the run", "the run directory on disk")],
     ["files of the run directory", "exceptions"],
     "explicit-state exploration of the run directory on the real code: all kill, interrupt and torn-write states, restarted to closure",
     "pytables is absent here: pandas' HDFStore is replaced by an equivalent on h5py. Writes not yet on disk at a power loss are not modelled.")

prop("P15", "A run directory keeps its inputs and shows exactly the products it was linked to",
     """After createInputFilesDir, the run directory holds its own copies of its input files, whatever they are called - two inputs having
     the same file name, or that of the parameters file, are both kept - and however they were given (absolutely or relative to the
     working directory): looking up the input of a task or the forecast configuration gives the content of the file last given for it,
     also when the sources change or vanish, the run directory is moved, or the inputs are created again from the run's own copies or with
     other contents; the parameters are those given, and the input data directory is remembered absolutely. After symlinkToExternalDirs,
     each task named shows the external directory given for it, unless the run already had that task's directory, which stays; linking the
     spectra also links the source run's delta_cls.h5 unless told not to. Links hold however run and external directories were named
     (absolute, relative to the working directory, through a symbolic link), from any working directory, and after moving the tree that
     holds both; the external directories are never changed. An unknown task raises KeyError and a missing external directory
     FileNotFoundError, linking nothing. The look-ups of job directories and files list exactly what is there, ignore stray files, and
     raise unless one file matches.""",
     ["histories"], "243+ name assignments; all histories of 3 operations from 3 ways of naming the run directory; 64 sets of job directories",
     "tests do not create workspaces; a wrong link shows only from another working directory or after a move",
     ["seyfert/utils/workspace.py", "seyfert/utils/filesystem_utils.py", "seyfert/config/main_config.py"],
     [("inputs", "WorkSpace.createInputFilesDir, getTaskJSONPath, getForecastConfigFilePath, getParamsCollection, getInputDataDirPath"),
      ("links", "WorkSpace.symlinkToExternalDirs, createSymlink"), ("look-ups", "WorkSpace.collect*, get*File")],
     [("run directory", "tasks shown by the run", "the file system")],
     ["contents seen through the workspace", "exceptions"],
     "exhaustive exploration of operation histories on the real file system against a map task -> directory", "")

prop("P17", "A batch run waits for all its jobs, stops at the first that fails",
     """Waiting for batch jobs polls `bjobs` for them every check_time_resolution_secs (any positive number, whole or not). It returns at the
     first poll by which every one of the jobs has been shown as DONE, at this or at an earlier poll; a job bjobs does not list (not
     listed yet, no longer, bjobs answering nothing) counts for nothing and any other status means waiting. It raises
     ExitedBatchJobError at the first poll that shows one of them as EXIT, and gives up, returning, at the first poll after
     max_time_wait_h hours. Job ids may be integers or strings; user names, job names and hosts of the table are arbitrary. submitJob gives
     the number bsub printed, or raises if bsub refuses; bsub is given queue, cores and memory (-q, -n, -M and the resource string) as set by setOptions,
     distinct existing out and err locations named as asked, and the command; in test mode nothing is submitted. On top of these, the Fisher task submits the
     auto-correlations first, none of the other data vectors until that job is DONE and nothing more if it fails, then every other selected
     data vector exactly once; the auto job is skipped if its result is present, which overwrite_results removes. The other tasks submit
     one job per job directory, logging there, and wait for all.""",
     ["schedules", "histories"], "all histories of 1 to 3 jobs over up to 5 polls; 6 task-level families; 96 x 2 submissions",
     "no test has a batch system; the orders in which jobs appear, end, vanish and fail are only found by enumeration",
     ["seyfert/main/bsub_utils.py", "seyfert/main/task_runners.py"],
     [("waiting", "BsubInterface.waitForJobsToComplete, getBjobsTable, parseBjobsOutput, count_down"),
      ("submission", "BsubInterface.submitJob"), ("tasks", "TaskRunner.submitBatchJobs, FisherTaskRunner.submitBatchJobs")],
     [("jobs", "status of each job seen so far", "waiting loop"), ("polls", "number and time of polls", "log of the stand-in bjobs")],
     ["polls made", "outcome", "arguments bsub is given"],
     "exhaustive exploration of job-status histories: the real waiting loop against a scripted bjobs in virtual time, compared with an automaton",
     "LSF is replaced by scripts of the same names; time is virtual.")

prop("P18", "Job reports say of jobs, tasks and runs what their files say",
     """The report of a job directory reads the last submitted job's files, called either out_job_<date>.out and err_job_<date>.err, as the task
     runners name them, or job*.out and job*.err. A job is NOT_EXECUTED without either file; FAILURE if the error file has content
     (shown in the report; core dumped if it says so or if a core file is there); SUCCESS if the error file is empty and the product is
     there (name and size shown); UNDEFINED otherwise. Number, hosts (without the farmui hosts) and execution time come from the output file; the
     time is the whole time between start and end, also over days, months and years, and 0 if not stated. A task is FAILURE if a job failed,
     else SUCCESS or NOT_EXECUTED if all its jobs are, NOT_COMPLETED if each is one of these two, else UNDEFINED; its counts, mean time, total size
     of products and hosts agree with its jobs, listed by increasing number if all have one. A run counts the task directories that are
     there and are not links, with the same rules (no such tasks: SUCCESS), in the order PowerSpectrum, Angular, Derivative, Fisher; the report and summary files written (by do_jobs_report, which prints the summary, as well) agree with each other. The resource usage table has one row per .out file, of any year, with the
     label, start, end, whole duration, CPU time and memories it states.
     report_batch_jobs says that all found runs completed exactly when each output file matching has a line
     "Successfully completed.", and names those which have not.""",
     ["inputs"], "480 job directories, 42 spans of time, 155 tasks, 2401 runs, 24 usage tables, 399 batches of output files",
     "no test makes reports; unusual combinations of files are exactly those for which reports are read",
     ["seyfert/main/report_maker.py", "seyfert/main/bsub_utils.py", "bin/report_batch_jobs", "bin/do_jobs_report"],
     [("job", "report_maker.JobReport"), ("task", "report_maker.TaskReportMaker"), ("run", "report_maker.RunReportMaker"),
      ("usage", "BsubInterface.getResourceUsageTable")],
     [("job directory", "which files are there", "the file system"), ("statuses", "of jobs, tasks, run", "reports")],
     ["reports, summaries, tables"],
     "exhaustive enumeration of the abstract states of job directories, tasks and runs on disk, real reports compared with the status rules", "")

prop("P20", "A forecast run as jobs gives the results of one go, and a failed job stops it",
     """job_submitter computes spectra, derivatives and Fisher matrices as separate jobs, one after another (interactive) or through
     the batch system. With the same inputs and existing power spectra, its fiducial spectra, delta Cls, base Fisher matrices and
     final results are those of run_seyfert, whatever the order in which the jobs of a task run, and however the tasks are split over
     invocations: in the same run directory (--rundir) or in new ones linked to the earlier (--angular_dir, --derivative_dir; links between runs hold when their common parent is moved), each
     interactive or batch (keeping the varied spectra if derivatives come later). Jobs of one task write no file (logs apart) that another of them reads
     or writes. If a program of the run ends with a non-zero status, at its start or after its work, silently or with output on stderr, the submitter fails and starts no program of a later stage
     (interactive: none at all); submitting again in that run directory with --overwrite_results then ends with the same results. Tasks
     can be repeated in a run directory: with --overwrite_results the base Fisher matrices are computed again, without it (final results being absent) existing ones are kept; compute_delta_cls
     writes the delta Cls of a run again, over any file. Execution "no" runs nothing and leaves scripts that give the same results when run by hand.
     run_seyfert on several forecast files, interactive or batch, and evaluate_final_results on several runs, give each forecast its own
     results, in any order of its jobs, with the input data they are given.""",
     ["schedules", "fault_sequences", "histories"], "128 job orders, 50 splits, every program failing in 2-3 ways per mode",
     "the tests run no pipeline: orders, splits and failures of jobs are met on the cluster only",
     ["bin/job_submitter", "seyfert/main/task_runners.py", "bin/compute_cls", "bin/compute_derivatives", "bin/compute_fisher_matrix",
      "bin/evaluate_final_results", "bin/run_seyfert", "seyfert/main/seyfert_core.py", "seyfert/utils/workspace.py"],
     [("tasks", "task_runners.ForecastRunner.run"), ("jobs", "task_runners.TaskRunner.run"),
      ("links", "WorkSpace.symlinkToExternalDirs"), ("programs", "bin/*")],
     [("pipeline", "which jobs have run", "the run directory"), ("outcome", "exit status of the submitter", "the shell")],
     ["files of the run directory, programs started, exit statuses"],
     "exhaustive exploration of job orders, task splits and single failures of the real pipeline under a controlled batch system, against the in-process forecast",
     "PowerSpectrum jobs (Boltzmann codes) are not run")

prop("P16", "Final results are those matrices, combinations and errors the base matrices give",
     """create_final_results writes, for w0_wa_CDM and LCDM and for each treatment of nuisance parameters (marg_before, marg_after,
     nuis_fixed), one Fisher matrix file for each base matrix and each listed combination `A + B - C` whose operands are all present (others are left
     out), and tables (csv and xlsx) of the marginalised errors and relative errors with one row per matrix. In each, the cosmological
     parameters the cosmology lacks (w0, wa in LCDM; gamma in both) are fixed in every base matrix first; nuisance parameters are then
     marginalised over or fixed in the base matrices before combining, or kept (marg_after); a combination adds or subtracts matching parameters, treating absent ones as zero.
     Errors are sqrt of the inverse's diagonal for cosmological parameters, FoM is 1/sqrt(det) of the (w0, wa) covariance if both
     are there; relative errors divide by |fiducial| (1 if zero; FoM unchanged). Base files are not changed. Existing results are
     refused with FileExistsError and left as they are unless overwriting, which gives the results of the present base matrices and list; any
     history of evaluations obeys this. Results read back (FisherAnalysis.fromRundir), collected over runs (collect_results,
     ResultsCollector tables and selections by option and matrix, 4-bin replacement of hybrid "Pk" matrices) and analyses built from a dict or a list of matrices, their
     subsets, marginalisations, sums, ranges and confidence ellipses agree with the same algebra.""",
     ["inputs", "histories", "configurations"],
     "all 31 sets of base matrices x 4 sets of varied parameters x all combinations of 2 (3) operands, histories of 3 (4) operations",
     "the tests combine two or three given matrices once; treatments, absent operands and repeated evaluation are never crossed",
     ["seyfert/fisher/final_results_core.py", "seyfert/fisher/fisher_analysis.py", "seyfert/fisher/results_collector.py", "seyfert/utils/table_utils.py",
      "bin/collect_results"],
     [("results", "final_results_core.create_final_results"), ("combinations", "final_results_core.evaluate_a_posteriori_fisher_combinations"),
      ("analysis", "fisher_analysis.FisherAnalysis"), ("collection", "results_collector.ResultsCollector")],
     [("results", "base matrices, combinations listed, results present", "a run directory")],
     ["files of the results directory", "tables and matrices returned"],
     "explicit-state enumeration of configurations and evaluation histories of the real code against an independent matrix algebra",
     "random but fixed positive definite matrices")

prop("P19", "A campaign submits every combination of configurations once, with its own inputs",
     """orchestrate_run -ccfg makes the configuration directory with the given files; a campaign with task flags then calls job_submitter exactly
     once for every combination of forecast configuration (all in config/fcfg, or those of -fcfgs given as paths or in txt lists), Fisher
     configuration, angular configuration and, computing Cls, power spectra directory (one, or a txt list), passing those files, the
     other configurations, external directories (external_dirs.json), tasks, execution, batch options, ini file, additional flags and
     input data directory (-i, else the default) given. Run ids are distinct: forecast name, Fisher and angular names if there are several, name of
     the power spectra (of the run directory they are in) if any. Forecasts named N_sp_bins run in order of N, else lists in
     their order. A failing run does not prevent the others. With execution "no" nothing runs. The list of run directories written at the end has those of the
     campaign's runs which exist and no directory of others, whatever its name. With -rds (paths, a txt or a json list) each existing run directory is
     submitted once, in order, with its own input files. Options of a job_submitter ini file (task flags True/true/False/false, test and
     overwrite flags, batch numbers) have the effect of the same options on the command line; unknown ones are refused.""",
     ["configurations", "inputs", "fault_sequences"], "all products of 1-3 forecasts, 1-2 Fisher, 1-2 angular, 0-2 spectra x tasks x executions x forms",
     "no test runs the orchestration; the product and the collection of directories by name are met with on the cluster only",
     ["seyfert/main/orchestration.py", "bin/orchestrate_run", "seyfert/config/cmd_line.py", "bin/job_submitter", "seyfert/utils/general_utils.py"],
     [("product", "orchestration.do_multiple_new_seyfert_runs"), ("command", "orchestration.build_seyfert_cmd"),
      ("collection", "orchestration.collect_rundirs"), ("ini", "bin/job_submitter")],
     [("campaign", "configurations given", "configuration directory and command line"), ("runs", "runs submitted", "calls of job_submitter")],
     ["command lines job_submitter is given, read by its own parser", "list of run directories", "jobs and files of the real job_submitter"],
     "exhaustive enumeration of campaign configurations and single failures on the real programs, job_submitter being recorded; differential check of ini files")

prop("P21", "Numerical building blocks obey their definitions",
     """The composite Newton-Cotes integrator of order 1 to 6, on an equally spaced grid of two or more points, gives for every
     integrand the spacing times the sum of the exact closed Newton-Cotes weights of consecutive blocks of `order` intervals - the
     last, shorter block with the rule of its own number of intervals - whatever the number of dimensions and the integration
     axis, and leaves the integrand unchanged; other orders, and integrands whose length along the axis differs from the grid's,
     are refused. The smoothstep of order N is the polynomial of degree 2N+1 with N vanishing derivatives at both ends, clipped
     to 0 and 1 outside, for scalars and arrays; the top-hat filter of R falls from 1 at 0.9 R to 0 at 1.1 R as the one of order
     3. The stencil derivative is exact for polynomials up to degree 4. The percentage absolute difference is
     200 |x-y|/|x+y| element by element for numbers, arrays and tables (aligned by label, refused for different labels), 0
     for array elements of zero sum; weighted, it is multiplied by |x+y| over its mean or maximum; the percentage difference is
     100 (x-ref)/ref. The unit converters multiply by the stated factors.""",
     ["inputs", "configurations"], """all orders, numbers of points, dimensions, axes and spacings within bounds on a basis of the integrands; all
     pairs of values of a small alphabet""",
     """tests integrate one function of one dimension; leftovers of a block rule depend on the number of points modulo the order and on the
     axis""",
     ["seyfert/numeric/integration.py", "seyfert/numeric/general.py", "seyfert/utils/converters.py"],
     [("composite rule", "CompositeNewtonCotesIntegrator.doIntegrate"), ("filters, derivatives, differences", "seyfert/numeric/general.py")],
     (), ["integrals, values"],
     "exhaustive enumeration of the rule's configurations on the real code over a basis of the integrands, against exact rational weights",
     "A linear rule is decided by its values on a basis; linearity is checked on dense integrands.")

prop("P22", "Redshift densities are the convolution of their inputs, whatever happened before",
     """The normalised density of bin i at redshift z is the cubic interpolation of the input dN/dz/dOmega (0 outside its redshifts)
     times the integral over the bin of the instrument response - the two Gaussians (1-f_out, z_b, sigma_b, c_b) and (f_out, z_o,
     sigma_o, c_o) in z - c z_p - z0 of width sigma (1+z) - divided by the integral of that product over the input redshifts; or,
     for densities given as n_i(z), their cubic interpolation, 0 outside. Surface densities are the integral of the input over each
     bin, or the given ones; shot noise is their inverse; the total number of galaxies is the integral over all redshifts, by
     Simpson's rule or quadrature, times 4 pi f_sky; the photometric-spectroscopic shot noise of bins i and j is the
     spectroscopic density integrated over their overlap, over the product of their surface densities. Evaluating is refused
     before setting up, and gives the same on whatever grids it was evaluated before, written and read back, or when the object had held another density before (loaded, or set up with other inputs). create_h5density writes the density of its arguments.""",
     ["inputs", "histories", "configurations"], """all combinations of shapes, samplings, responses and binnings of a grid; all histories of setting up,
     evaluating, writing, reading and loading up to depth 3 (4)""",
     "tests compare the quadrature with itself on the shipped densities, once per object",
     ["seyfert/cosmology/redshift_density.py", "bin/create_h5density"],
     [("convolution", "RedshiftDensity.convolvedNdzdOmegaWithInstrumentResponse, computeBinNormFactor"),
      ("surface densities", "RedshiftDensity.computeSurfaceDensityAtBin, computeTotalGalaxyNumber"),
      ("cross shot noise", "compute_photoXspectro_shotnoise_ij"), ("file", "H5Density")],
     [("density", "inputs, splines, normalisations, evaluated grid", "RedshiftDensity")],
     ["norm_density_iz, dN_dOmega_bins, shot_noise, totals"],
     "exhaustive enumeration of inputs and operation histories on the real code against the closed form of the convolution",
     """Tolerance 1e-6 of the peak of a bin. Bins starting below the input redshifts of a density that does not vanish there are not covered
     (quadrature over a jump). Known finding: responses much narrower than the bin.""")

prop("P23", "Bias models give each bin its own value, in whatever order parameters come",
     """The piecewise bias is, for every bin, the value of the last redshift bin whose lower edge is not above z - the first bin's
     below the bins, the last one's above them; the constant bias is in each bin its own value; bins take the parameters in the
     order of the first number in their names, in whatever order they were given or come from a file. The flagship bias is
     A + B / (1 + exp(-C (z - D))). The fiducial-growth void bias is voidbias0 over the growth factor of the fiducial cosmology,
     the Vdn one the size-function weighted mean over radii of its definition, each interpolated (cubic) at the bin centres.
     A number of values other than the number of bins, a missing cosmology, an unknown model, or for voids a grid other than the
     cosmology's are refused. A bias gives the same whatever values, grids or files it held before, once initialised again.""",
     ["inputs", "histories", "configurations"], """all models, bin counts up to 12 (16), parameter orders and namings, grids; all histories of
     changing, initialising, evaluating, writing, reading and loading up to depth 4 (5)""",
     """tests evaluate shipped files, whose parameters come in order, with the code's own intermediate results""",
     ["seyfert/cosmology/bias.py", "seyfert/cosmology/cosmology.py", "seyfert/numeric/general.py"],
     [("models", "seyfert/cosmology/bias.py: PiecewiseBias, ConstantBias, EuclidFlagshipGCphBias, FiducialGrowthVoidBias, VdnVoidBias"),
      ("sigma(R)", "Cosmology.computeSigmaR"), ("file", "H5Bias")],
     [("bias", "model, values, result", "Bias")], ["b_i_z"],
     "exhaustive enumeration of configurations and operation histories on the real code against scalar definitions",
     "Parameter names without a number are not covered.")

prop("P24", "The background cosmology is the CPL one, and evaluating never mixes universes",
     """E(z)^2 = Omm (1+z)^3 + OmDE (1+z)^(3(1+w0+wa)) exp(-3 wa z/(1+z)) + OmK (1+z)^2 with OmK = 1-Omm-OmDE, from the current values of
     the parameters, for one redshift or an array; H = 100 h E, the comoving distance is c/H0 times the integral of 1/E from 0 to z, the
     growth factor exp(-integral of Omega_m(z)^gamma/(1+z)). The growth of a power spectrum is the square root of its ratio to the first
     redshift at the smallest wavenumber; rescaling multiplies both spectra by the square of the growth factor held over that
     growth, at every redshift. Evaluating over the redshift grid fills the arrays (E, dimensionless distance, growth of the linear
     spectrum) not yet there and leaves the others; H_z and r_z follow the current h. Values w0 >= 1 or |wa| >= 2, fiducial or current, curvature
     other than rounding in a flat universe, parameters without flatness or the reverse are refused. A cosmology written and
     read back, at any place of a file, with or without its spectra, continues exactly as the one written.""",
     ["inputs", "histories"], """all universes of a grid of dark energy, matter, curvature, h and growth index, all limits from either
     side; all histories of evaluating, changing, rescaling, discarding, writing and reading up to depth 4 (5)""",
     "tests compare the evaluated arrays with the same functions called once more, at the fiducial universe only",
     ["seyfert/cosmology/cosmology.py", "seyfert/cosmology/power_spectrum.py", "seyfert/file_io/hdf5_io.py"],
     [("background", "Cosmology.compute...; evaluateOverRedshiftGrid"), ("limits", "Cosmology.checkParameters"),
      ("growth", "getGrowthFromLinearPowerSpectrum, rescalePowerSpectrumByComputedGrowth"), ("file", "H5Cosmology, H5PowerSpectrum")],
     [("cosmology", "parameters, evaluated arrays, spectra", "Cosmology")], ["E_z, H_z, r_z, growth_factor_z, spectra"],
     "exhaustive enumeration of universes and operation histories on the real code against Gauss-Legendre integration of the definitions",
     """Distances and growth to 1e-7. Reading a file into an object that already has parameters keeps them by design and is not covered.""")

prop("P25", "Objects compare equal exactly when their content is the same",
     """Comparing two objects of the same class with == answers, in either order and whatever parts are missing or differ in size; the
     answer is yes exactly when the content is the same: name, fiducial, current value and kind of a parameter; the parameters of a set,
     in any order; grids, spectra and transfer function of a power spectrum; parameters, flatness, model name and power spectrum of a cosmology;
     probe, sky fraction, response, redshift grids, inputs and results of a density; probe, model name, parameters, grid, edges and result of
     a bias; grid and values of a weight function or kernel, with the kernel's probes, weights and cosmology; values, multipoles and widths of
     angular coefficients; the pairs, in any order, of a collection of them, with their coefficients; the pairs,
     in order, of a data vector; values, noise, multipoles and widths of their covariances; labels, values (rows and columns in any
     order), name and parameter names of a Fisher matrix; name, multipoles, widths, names of density and bias files wherever they are, bias
     marginalisation, nuisance parameters and specific settings of a probe's configuration; parameters, flatness, sky fraction, probes
     and their pairs of a forecast's.""",
     ["inputs"], "all single changes of the parts of an object compared all against all, and all pairs of changes",
     "tests compare an object with its copy, and with few different ones of the same shape",
     ["seyfert/utils/general_utils.py", "seyfert/cosmology", "seyfert/fisher/fisher_matrix.py", "seyfert/fisher/delta_cl.py", "seyfert/config"],
     [("comparison", "the __eq__ methods; general_utils.compare_objects")], [("content", "attributes of the objects", "__eq__")], ["=="],
     "exhaustive enumeration of pairs of object contents on the real code", "Objects of different classes are not compared.")

prop("P26", "A power-spectrum job computes the spectra of the universe it is named after",
     """compute_pmm, run in a job directory, reads the parameters of the run, varies the parameter by the step in the directory's name, and
     writes p_mm.h5 with: those parameters (fiducial and current values) and the flatness; the configured redshift grid, and on it E, distances, and
     the growth of the linear spectrum; the wavenumbers, linear and nonlinear spectra at each redshift that the Boltzmann code gives for that universe.
     CLASS is asked for h, Omega_b, Omega_cdm = Omm - Omb - mnu/(93.14 h^2), Omega_k = 1-Omm-OmDE to 6 digits, Omega_fld, w0, wa, ns, sigma8,
     mnu, and sampled at n_k logarithmic wavenumbers. CAMB is run from a copy of the configured ini file in which
     hubble, w, wa, scalar_spectral_index, ombh2, omnuh2 = mnu/93.14, omch2 and omk are those of the universe, scalar_amp gives its sigma8, and every other
     entry is as it was, the configured file untouched; its transfer function is stored; redshifts go in groups of at most 150, and come out in order.
     When the code fails at any call, or the parameter is not one that varies, the job fails and p_mm.h5 is absent, or as it was.""",
     ["inputs", "configurations", "fault_sequences"], """every parameter and step of four universes through the program, with a stand-in for CLASS, and a fault at each
     of its calls; 1 universe grid through the CAMB ini writer; real CAMB runs for 8 (16) varied universes and more than 150 redshifts""",
     "tests mock the solver's steps and never run the program",
     ["bin/compute_pmm", "seyfert/cosmology/boltzmann_solver.py", "seyfert/cosmology/power_spectrum.py", "seyfert/cosmology/cosmology.py", "seyfert/config/main_config.py"],
     [("program", "bin/compute_pmm"), ("CAMB", "CAMBBoltzmannSolver"), ("CLASS", "CLASSBoltzmannSolver")],
     [("job", "job directory name, parameters, p_mm.h5", "bin/compute_pmm")], ["p_mm.h5, the ini file, exit status"],
     "exhaustive enumeration of variations and solver faults through the real program, against independent CAMB runs and a stand-in CLASS",
     """CLASS is not installed: a stand-in of its Python interface that depends on every parameter takes its place. CAMB at low accuracy settings. The shipped default ini
     file has entries this CAMB no longer reads.""")

prop("P27", "Selecting and collecting runs takes exactly those asked for, with their results",
     """DirectoryExplorer.selectDirectories(root, ...) gives exactly the directories directly under root (at any depth if recursive) whose name begins
     by a run-naming convention - run_<scenario>, <scenario>_<n>_sp_bins_ or scenario_<scenario>__n_sp_bins_<n>, scenario being optimistic or
     pessimistic - is matched anywhere by every additional pattern, passes every filter, contains all the texts required and none of those
     excluded. Each is mapped to the named groups of its matches, later patterns overriding; nothing stays from a previous question. selectWorkspaces gives
     workspaces with the run's metadata ({} if there is none). ResultsCollector.loadWorkSpaces replaces what was loaded before; its error tables
     have one row per selected run and Fisher matrix, with the values of that run's results and the options of that run; no CSV
     candidate, or more than one, is an error; analyses are those of the selected runs. load_workspaces_for_scenario gives the runs of that
     scenario only, by number of bins, those with gcph_minus_gcsp in the name if asked and else the others.""",
     ["inputs", "histories"], """every directory name of an alphabet of conventions and near misses, in three places of the tree, x recursion, patterns, filters, texts; every
     sequence of loads of a collector; every combination of run options""",
     "tests select among two or three well-formed names, once",
     ["seyfert/utils/dir_explorer.py", "seyfert/fisher/results_collector.py", "seyfert/notebook_helpers/load_helpers.py", "seyfert/utils/workspace.py"],
     [("explorer", "DirectoryExplorer"), ("collector", "ResultsCollector"), ("scenario", "load_workspaces_for_scenario")],
     [("selection", "directories and groups", "seyfert/utils/dir_explorer.py"), ("collected", "workspaces of the collector", "seyfert/fisher/results_collector.py")],
     ["maps, tables, exceptions"],
     "exhaustive enumeration of trees, questions and load histories against a character-by-character reading of the names",
     "symbolic links among the candidates are not claimed")

prop("P28", "A configuration gives exactly the probes, multipoles and files it names",
     """Multipole grids are the configured ones: edges evenly spaced in their logarithms with as many bins
     as asked, or at the integers for a linear grid, or those of a named file (an error if missing); centres are mid-points of the edges, widths their differences; l_min >= l_max or no number of bins is an error. For a pair of probes the multipoles are those of the first that the second also
     has up to rounding (1e-10 relative), with the widths of the first; none in common is an error, checkProbesMultipoles raises ValueError if and only if a pair has none;
     the Fisher matrices do not depend on the rounding of the grids. Loading a ForecastConfig, fresh or over another, gives exactly the probes flagged
     present, in file order, their pairs, sky fractions, flatness, shot noise file (FileNotFoundError if named and missing), density and bias files
     each the first existing one in data/<short name>, data/<long name>, data; written and read back it is equal. ForecastConfigEditor accepts
     the listed options only, changes nothing but what they name, gives the number of spectroscopic bins its files, refuses both gcph flags together, and gives distinct options
     distinct file names and config IDs. config_for_task gives each task its configuration. getXCDerivativeFlag finds a pair by either order of its names, the exact one first, KeyError otherwise.""",
     ["configurations", "histories", "inputs"], """all grids of small bounds and kinds; all ordered pairs of grids and rounding perturbations; all sets of flags, probe orders and file places; loads over
     every other configuration; all combinations of editor options; whole Fisher evaluations under each rounding""",
     "tests read the shipped configurations only, where the grids agree bit by bit",
     ["seyfert/config/forecast_config.py", "seyfert/config/probe_config.py", "seyfert/config/main_config.py", "seyfert/utils/array_utils.py"],
     [("multipoles", "ProbeConfig.l_bin_*"), ("pairs", "ForecastConfig multipoles of pairs"), ("editor", "ForecastConfigEditor"), ("tasks", "config_for_task")],
     [("configuration", "flags, grids, files", "seyfert/config/forecast_config.py")], ["attributes, grids, files, exceptions, Fisher matrices"],
     "exhaustive enumeration of configurations, of load histories and of roundings of the grids, against a reading of the JSON done here",
     "linear grids with a non-integer number of bins, grids with equal centres and different widths, and unsorted multipole files are not claimed")

prop("P29", "Contour plots show the confidence regions of the matrices they name",
     """In a triangular plot of a Fisher analysis the panel in row i and column j<i has, for every plotted matrix and configured probability p, a filled and an outlined ellipse centred on the fiducial
     values of parameters j (horizontal) and i (vertical), with the shape of q(p)^2 times their 2x2 block of the inverse of the (marginalised) matrix, q(p) being the half width in sigmas of the
     central interval of probability p of a Gaussian; the diagonal has the Gaussian curve of each matrix over the plot range, filled over fiducial +- q(p) sigma within the range; nothing else is
     drawn and the upper triangle is off. Limits and the configured number of evenly spaced ticks follow the plot ranges: those of the file given or, for each parameter, the mean over
     the matrices of fiducial -+ q(0.99) sigma. Axis labels are the TeX names. A matrix has the colour evenly spaced in the colour map by its place in the analysis's order,
     and the legend lists the plotted matrices in plotting order with their colours and TeX names. This holds for any number of parameters and whatever was set or drawn before: settings (default, file,
     dictionary over either), parameters, ranges, order, other matrices. Correlation plots show the correlation matrix with TeX labels, one file per matrix. Ranges files read back,
     and are overwritten only on request. TeX names of distinct parameters (bins up to any number) and matrices differ.""",
     ["inputs", "histories", "configurations"], """all ordered choices of parameters x sets of matrices; all orders and plotted subsets; settings x ranges; all sequences of
     eleven operations on one plotter to depth 2 (3)""",
     "no test draws a plot",
     ["seyfert/fisher/fisher_plot.py", "seyfert/fisher/fisher_analysis.py", "seyfert/utils/tex_utils.py", "seyfert/plot_utils/misc.py"],
     [("contours", "FisherPlotter"), ("settings", "FisherPlotConfig"), ("names", "TeXTranslator")],
     [("plotter", "parameters, settings, ranges, order", "seyfert/fisher/fisher_plot.py")], ["artists of the figures, files"],
     "exhaustive enumeration of plots and of operation sequences on a plotter, reading the artists back from the axes",
     "do_tri_plot, which writes to the author's home directory, is not claimed")

prop("P30", "Tables and charts of results show the numbers they select",
     """On a table of results with a row per Fisher matrix, number of bins and options: select_from_query_dict gives exactly the rows with all the values asked for (KeyError for an unknown column), dropping the
     constant columns if asked and more than one row is left; get_subdf_for_fishers exactly the rows of the matrices named, as an ordered category in that order, sorted if asked, KeyError if one is missing;
     replace_hybrid_fishers_with_4_bins_equivalents gives rows of matrices with GCsp(Pk) the values of the row with 4 bins and the same other options, and leaves the others; load_and_setup_table the same from
     a file; difference tables hold minuend - reference, or 100 (minuend - reference)/reference, for every minuend (by default all in the table) at the same options; get_fom_table_for_fishers those of
     the FoM, NaN for matrices without reference, also without a column of bins; set_results_indices indexes by the option columns there are. None changes the table given, except those documented to do so. LaTeX tables and rows have every
     value at its place, rounded to 2 decimals for FoM and differences (with explicit sign), 4 for errors, gains marked positive and losses negative; Excel tables read back,
     and an existing file is replaced only on request. Bar charts show for each parameter and matrix, in order, its relative error and FoM over the largest FoM plotted; gain plots the percentage against bins; grid and triangle plots
     of spectra show curve i,j in panel i,j, for any number of bins including one.""",
     ["inputs"], """every query over all columns; all sets of option columns x bins x row orders; all ordered choices of matrices x references; every number of the LaTeX and Excel output,
     every bar and line of the charts""",
     "no test covers tables and charts",
     ["seyfert/notebook_helpers/table_helpers.py", "seyfert/notebook_helpers/barplots.py", "seyfert/notebook_helpers/fom_gain_plots.py", "seyfert/plot_utils/cl_plot.py", "seyfert/utils/tex_utils.py"],
     [("tables", "table_helpers"), ("bars", "ErrorBarPlotter"), ("gains", "fom_gain_plots"), ("grids", "cl_plot")],
     [("table", "rows and columns", "seyfert/notebook_helpers/table_helpers.py")], ["tables, LaTeX text, spreadsheets, artists"],
     "exhaustive enumeration of questions to tables of results, answered row by row from a dictionary", "")

prop("P31", "Files of other codes and of older versions are read as what they say",
     """IST power-spectrum files, rows in any order, become one cosmology per file in dvar_X_step_N, X and N (sign included) being the parameter and displacement of the file name, or dvar_central_step_0 for a name with none; parameters
     are those of the variation (OmDE = 1 - Omm when Omm varies in a flat universe), z is the positive redshifts, k is multiplied and P divided by h and h^3 of that variation; afterwards the
     parameters given are at fiducials and source files are unchanged. SCamera tables of C_ij, or of their derivatives, give c[l,i,j] the column headed i,j (numbered from 0 or 1; any
     order of columns; symmetric tables mirrored; others transposed when they have more columns than rows), converted directories read back as written, pair by pair or all together; a file missing
     for a probe, bins of another number or different multipoles are an error. IST Fisher files give each pair of (renamed) parameters its element, rows having the order of the columns, and the matrix the name in the file
     name. Tables of several codes hold each code's marginalised and unmarginalised errors, and 100 (e - r)/r for r the mean and median over codes. Changing b_i to b_i sigma8, dropping sigma8, and then expressing the b_i
     sigma8 by sigma8 transforms the matrix by the Jacobians, whatever the order and number of parameters. checkISTParams removes the parameters which are not of the IST; a missing one is an error.
     Stored cosmologies and spectra before 1.1.0, of 1.1.0 and later are read by the layout of their version, numerically compared, with grids, functions, spectra, kernels, weights and parameters as stored.""",
     ["inputs", "configurations"], """all parameters x displacements x signs; all row orders x flatness x grids; all shapes, numberings, column orders and separators; all orders of up to 5 (6)
     parameters; all versions of a list x stored parts""",
     "no test reads any of these files",
     ["seyfert/file_io/ext_input.py", "seyfert/utils/ist_comparison.py", "seyfert/file_io/retro_comp.py"],
     [("converters", "ISTInputReader"), ("change of variables", "ist_comparison"), ("versions", "retro_comp")],
     [("files", "rows, headers, names, versions", "seyfert/file_io/ext_input.py")], ["arrays, tables, files, exceptions"],
     "exhaustive enumeration of files written by the check, each value being a known function of its place", "")

prop("P32", "The configuration window writes the configuration it shows",
     """Whatever was edited before and in any order, the configuration made by the window states what its widgets show at that moment: sky fraction and flatness; of every row of the table the name, fiducial (and current value),
     free flag (true or false in any case), units, SteM factor and derivative method; the displacements; of each of WL, GCph, GCsp and V whether it is present, its density and bias files, bias marginalisation,
     bias derivative method (SteM on the page which has no choice), include_IA, the cut of voids and its width, the off-diagonal flag; the named file of multipoles if its box is ticked and a name is given, and otherwise minimum, maximum,
     logarithmic flag and, when logarithmic, the number; aIA, cIA, etaIA, betaIA as parameters of Lensing, free if alignments are included, cIA never. Contents which are no number or boolean there (a displacement excepted)
     are a ValueError. A forecast loaded from it has exactly the present probes with these multipoles, files and settings and the parameters of the table, of the biases and of
     alignments, free as stated, under the probe they belong to, for every set of present probes. Taking a configuration changes nothing in the window and writes nothing. bin/gui_config writes it, once confirmed, as one file of the working directory
     (older contents replaced) with the last part of the entered name, version and time appended unless --no_datetime, ending in .json, and ends with success; wrong contents, or no confirmation, write nothing.""",
     ["inputs", "histories"], """all widgets x an alphabet of values; the product of multipole widgets of each page; all sets of present probes x flags; all sets of free parameters; all sequences of 2 (3) edits out of 20;
     saves x names x contents""",
     "no test opens the window",
     ["seyfert/gui/interface_window.py", "seyfert/gui/gui_core.py", "bin/gui_config"],
     [("window", "ConfigGUIWindow"), ("reader of the widgets", "GUIFileInterface")],
     [("widgets", "contents of the window", "seyfert/gui/gui_core.py")], ["configuration files, loaded forecasts, exit status"],
     "exhaustive enumeration of edits of the real window (offscreen), each configuration being compared with what the labelled widgets show and loaded as a forecast", "")

prop("P33", "kill_job_submitter ends the submitters and orchestrators and nothing else",
     """Run while any set of processes is listed by ps -ef, in any order and of any users, kill_job_submitter ends (so that they cannot refuse) all processes whose command runs job_submitter or orchestrate_run - by name, by a relative or
     absolute path, or through an interpreter, with any arguments - whatever the user name (digits, signs, numeric ids, shortened names ending in +) and however wide the columns; it ends none of
     the processes whose command contains neither name, nor their parents, nor another kill_job_submitter; it says that no matching process was found exactly when there is none, and exits with 0.""",
     ["inputs", "schedules"], """all process tables of up to 2 (3) processes out of 17 commands, with 8 users and the other columns taken in turn, and tables of all of them""",
     "no test runs the program, which ends processes",
     ["bin/kill_job_submitter"],
     [("process table", "kill_job_submitter")],
     [("processes", "which are alive", "bin/kill_job_submitter")], ["ended processes, exit status, output"],
     "exhaustive enumeration of process tables printed by a stand-in of ps, whose processes are idle children of the check run as an unprivileged user; judged by which of them are ended", "")

prop("P34", "The vectorizations of the covariance algebra are consistent with each other",
     """For every size: vec stacks the columns of a matrix of any shape and vecp the upper triangle of a square one column by column, whatever the memory layout and without altering it, and vecp of a matrix that is not square is refused; unvec and
     unvecp are their inverses (on the matrices that are symmetric for unvecp) and refuse numbers of entries that no such matrix has; get_enumeration_map gives every entry its position in vec, or in vecp when symmetric, which is refused for shapes that are not square; the index lists name each
     entry of the upper triangle, lower triangle or diagonal once, by columns or, on request, by rows; vecClArray and vecpClArray do this multipole by multipole. duplication_matrix D, elimination_matrix L, commutation_matrix K and transition_matrix T are the ones
     with D vecp(A) = vec(A) for symmetric A, L vec(A) = vecp(A) for every square A, K vec(A) = vec(A transposed) for every A of p x q, and T = D (D transposed D)^-1.""",
     ["inputs"], """all shapes up to 6x6 (9x9) and square sizes up to 9 (22), in four memory layouts""",
     "the tests sample sizes of square random matrices in one layout",
     ["seyfert/fisher/linalg_tools.py", "seyfert/fisher/fisher_utils.py"],
     [("matrix", "numpy array")],
     [("vectorization", "position of an entry", "seyfert/fisher/linalg_tools.py")], ["vectors", "matrices", "refusals"],
     "exhaustive enumeration of shapes and, in each, of the basis of the space of matrices, which decides a linear map; every connecting matrix is compared entry by entry", "")

# @@NEXT


def main():
    (ROOT / "properties.jsonl").write_text("".join(json.dumps(p["rec"]) + "\n" for p in P))
    checks = [dict(property=p["rec"]["id"], quick_cmd=f"./run {p['rec']['id']}",
                   thorough_cmd=f"VERIF_TIER=thorough ./run {p['rec']['id']}",
                   evidence_file=f"evidence/{p['rec']['id']}.json", technique=p["technique"], level=p["level"],
                   level_note=p["note"]) for p in P if p["technique"]]
    na = [dict(property=p["rec"]["id"], reason=p["note"]) for p in P if not p["technique"]]
    man = dict(version=1, setup_cmd="./run --selfcheck", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives the code through its own interfaces.")
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    for p in P:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["id"]


main()
