#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
C='src/pwtools/crys.py'; N='src/pwtools/num.py'; F='src/_ext_src/flib.f90'

prop('C01', 'Cell vectors, crystallographic constants, volume and reciprocal cell agree',
 """For every non-degenerate 3x3 cell the crystallographic constants computed from it are the
 lengths of its rows and the angles between them in degrees, the volume computed from the cell equals
 |det| and equals the volume computed from those constants, and the reciprocal cell satisfies a_i.b_j = 2 pi delta_ij for right- and left-handed cells alike. For every geometrically valid set of constants the cell built from them is in
 standard orientation (a along +x, b in the xy plane with positive y, positive z component of c) and has exactly those
 constants. The time-dependent (3d) variants give, step by step, the result of the single-step function.""",
 ['inputs'], """All 3x3 real cells with non-zero determinant; all (a,b,c,alpha,beta,gamma) with positive lengths and
 angles in (0,180) forming a valid cell; any number of time steps.""",
 """Tests check a few fixed cells; an error in one off-diagonal component, angle order or a sign only shows for
 cells that excite it, and the statement is an algebraic identity over all cells.""",
 [C], [('cell2cc/cc2cell', 'crys.py: cell2cc, cc2cell, cell2cc3d, cc2cell3d'),
       ('volume/recip', 'crys.py: volume_cell, volume_cell3d, volume_cc, volume_cc3d, recip_cell, angle')],
 ['return values of pwtools.crys.cell2cc, cc2cell, volume_cell, volume_cc, recip_cell, angle and the 3d variants'])

prop('C02', 'Coordinate transforms between bases preserve the Cartesian point and invert',
 """Transforming row-vector coordinates from an old to a new basis (rows = basis vectors, coordinates of any rank, xyz
 on any axis, with per-timestep bases for trajectories) yields the coordinates x_new with x_new.NEW = x_old.OLD for every
 single point, so transforming back restores the input and old=new is the identity; with copy=True inputs are not
 modified. The compiled fractional/Cartesian routines for single structures and for
 trajectories satisfy the same defining equation.""",
 ['inputs'], """All real coordinates of 1 to 4 dimensions with arbitrary extents, xyz on any axis, all pairs of invertible bases.""",
 """Tests use one small array per rank; transposition or axis mistakes can cancel for symmetric or orthogonal bases.""",
 [C, F], [('coord_trans', 'crys.py: coord_trans, coord_trans3d, _trans'), ('frac2cart', 'flib.f90: frac2cart, cart2frac, *_traj')],
 ['pwtools.crys.coord_trans, coord_trans3d', 'pwtools._flib.frac2cart/cart2frac(_traj)'])

prop('C03', 'Periodic wrapping moves atoms only by whole lattice vectors',
 """Wrapping fractional coordinates into the cell changes every coordinate selected by the direction mask by an integer so
 that it lies in [0,1), leaves unselected directions untouched, and for a Structure or Trajectory keeps fractional and Cartesian coordinates
 consistent with the cell. The minimum-image convention changes each fractional difference by an integer so that it lies in [-0.5, 0.5). Neither operation touches its input when a copy is requested.""",
 ['inputs'], """All real fractional coordinates (any magnitude and sign), all direction masks, arrays of rank 2 and 3 with any extents, xyz on any axis.""",
 """Tests try coordinates close to the cell; values several cells away, exactly on a boundary, or masked axes are a continuum.""",
 [C], [('pbc_wrap', 'crys.py: pbc_wrap_coords, pbc_wrap'), ('min_image_convention', 'crys.py: min_image_convention')],
 ['pwtools.crys.pbc_wrap_coords, pbc_wrap, min_image_convention, center_on_atom'])

prop('C04', 'Interatomic distances, angles and neighbour lists follow from geometry',
 """For every structure the distance matrix (optionally squared, with distance vectors) holds |r_i - r_j|, where
 with periodic boundaries each fractional difference is first brought into [-0.5, 0.5) by an integer, and the per-step
 trajectory version equals the single-structure version at every step. The angle at atom i between j and k is the arccos of the normalized scalar
 product of the corresponding distance vectors for pairwise distinct i, j, k and the mask value elsewhere.
 Neighbour lists contain exactly the non-skipped atoms other than the centre within the cutoff (or the
 num closest ones), ordered by increasing distance.""",
 ['inputs'], "All structures (any number of atoms at distinct positions, any coordinates and cells), all cutoffs, num, skip sets, pbc on or off.",
 "Tests compare small random structures; wrong handling of far-out atoms, skipped species or index permutations needs specific inputs.",
 [C, F], [('distances', 'crys.py: distances, distances_traj, angles, nearest_neighbors*'), ('kernels', 'flib.f90: distsq_frac, distances_traj, angles')],
 ['pwtools.crys.distances, distances_traj, angles, nearest_neighbors, nearest_neighbors_from_dists, nearest_neighbors_struct'])

prop('C05', 'A supercell is exactly the periodic replication of the unit cell',
 """For positive integer dims (nx,ny,nz) the supercell of a Structure has cell rows scaled by dims and exactly
 natoms*nx*ny*nz atoms whose Cartesian positions are r_i + k1 a + k2 b + k3 c, one for each atom i and each integer
 offset with 0<=k<n, each carrying the symbol of its source atom, in the order documented for the
 chosen method. Both methods produce the same set of atoms, and the trajectory version
 does this independently at every time step.""",
 ['inputs'], "All structures with any number of atoms, all cells, all dims in {1,2,...}^3, both methods; trajectories of any length.",
 "Tests check fixed dims for fixed structures; an off-by-one in one direction or mislabelled symbols needs anisotropic dims and mixed species.",
 [C], [('scell', 'crys.py: scell_mask, scell, scell3d')], ['pwtools.crys.scell, scell3d, scell_mask'])

prop('C06', 'Structure and Trajectory derive consistent quantities, units applied once',
 """Every quantity a Structure or Trajectory derives is the documented function of what was supplied: cell from constants
 and back, Cartesian from fractional coordinates and back, volume from the cell, pressure as mean stress trace, kinetic energy,
 temperature and velocities from their formulas, symbol statistics from the symbols; whatever was supplied explicitly is
 kept and scaled exactly once by the declared unit factor (the default
 factor is 1), independent of the order in which getters are called once units were applied, and never scaled again by further getter, set_all or unit calls (with the default set_all_auto; quantities derived from scaled ones carry no second factor). A copy shares no array with its original.""",
 ['inputs', 'histories'], "All real-valued inputs of any extents, any subset of supplied attributes that determines the rest, any unit dictionary, any order and repetition of getter calls.",
 "Tests construct a handful of objects with one call order; double application of a unit factor or aliasing appears only for particular histories.",
 [C, 'src/pwtools/base.py'], [('lazy getters', 'base.py: FlexibleGetters'), ('units', 'crys.py: UnitsHandler'), ('getters', 'crys.py: Structure, Trajectory')],
 ['attributes and get_*() of pwtools.crys.Structure and Trajectory'])

prop('C07', 'Trajectory indexing, iteration, concatenation and mean commute with data',
 """Indexing or iterating a Trajectory yields at step i a Structure whose every per-step attribute is row i of
 the trajectory attribute and whose constant attributes are equal; slicing yields a Trajectory of exactly the selected steps whose time step is multiplied by the stride. Concatenating
 any sequence of Structures and Trajectories yields all their steps in order (keeping only attributes all of them have; time and time step are dropped); the mean is the per-attribute arithmetic mean over time; converting a Structure to a Trajectory
 repeats it unchanged; compress drops exactly the named attributes. Every complete iteration
 visits all steps once from the start, also after an earlier iteration was abandoned.""",
 ['inputs', 'histories'], "All trajectories (any number of steps and atoms), all slices and indices, all lists to concatenate, all interleavings of iterations.",
 "Tests use short trajectories, positive steps and full loops only.",
 [C], [('Trajectory', 'crys.py: Trajectory.__getitem__, __iter__, __next__'), ('algebra', 'crys.py: concatenate, mean, compress, Structure.get_traj, struct2traj')],
 ['pwtools.crys.Trajectory[...], iteration, concatenate, mean, compress, struct2traj'])

prop('C08', 'Voigt and tensor forms of symmetric tensors convert losslessly',
 """Converting a symmetric 3x3 tensor to Voigt form gives (xx,yy,zz,yz,xz,xy), converting back restores the tensor, and
 Voigt -> tensor -> Voigt is the identity, for single tensors and for time series of any length alike. The
 result of converting from Voigt form is always symmetric.""",
 ['inputs'], "All real 6-vectors and symmetric 3x3 tensors and all series of them.",
 "One fixed example cannot distinguish the 720 component orders on all inputs.",
 [C], [('voigt', 'crys.py: tensor2voigt, voigt2tensor, voigt2tensor3d, tensor2voigt3d')],
 ['pwtools.crys.tensor2voigt(3d), voigt2tensor(3d)'])

prop('C09', 'Rotations and re-alignment are rigid and keep fractional coordinates',
 """The Euler rotation matrix is orthogonal with determinant +1 for all angles (in radians or degrees) and equals the documented
 zxz composition. Aligning a Structure or Trajectory to new Cartesian axes leaves fractional coordinates
 unchanged and preserves all cell lengths, angles, volume and interatomic distances, with the chosen vectors landing on the requested
 axes; centring on an atom moves all atoms, at each step, by one common translation (no wrapping) which puts that atom at fractional (0.5, 0.5, 0.5); Euler angles outside their documented ranges are rejected.""",
 ['inputs'], "All angles, all non-collinear axis choices, all structures and trajectories.",
 "A sign or transposition error is invisible for the special axes tests use.",
 [C, N], [('euler', 'num.py: euler_matrix'), ('align', 'crys.py: align_cart, center_on_atom')],
 ['pwtools.num.euler_matrix, pwtools.crys.align_cart, center_on_atom'])

prop('C10', 'All autocorrelation and VACF implementations equal the defining sum',
 """For every real series and every lag t, each autocorrelation method (Python loops, vectorized, FFT, Fortran) returns
 c(t) = sum_j v(j) v(j+t), divided by c(0) if normalized. The velocity autocorrelation, in Python and Fortran, with any method and any thread count, returns the same
 sum additionally over atoms and directions, weighted with the masses if given, normalized to c(0)=1. Inputs are not modified.""",
 ['inputs', 'schedules', 'configurations'], "All series lengths and values, all natoms, masses, all implementation methods and thread counts.",
 "Tests compare methods on a few random arrays; boundary lags, mass weights and special lengths are sampled only.",
 ['src/pwtools/signal.py', 'src/pwtools/pydos.py', F], [('acorr', 'signal.py: acorr'), ('vacf', 'pydos.py: pyvacf, fvacf'), ('kernels', 'flib.f90: vacf, vect_loops, acorr')],
 ['pwtools.signal.acorr, pwtools.pydos.pyvacf, fvacf'])

prop('C11', 'Phonon DOS and Fourier helpers use the right frequencies and normalization',
 """The explicit Fourier transform equals sum_t a_t exp(-2 pi i f t) for every series; the phonon DOS returns non-negative frequencies
 that are exactly k/(N dt) for the transformed (mirrored or padded) length, ascending from zero and one for each DOS value, with a DOS
 whose integral over those frequencies is the requested area. With padding by the default factor and mirroring the direct and the VACF method give the same curve; sampling helpers for frequency resolution and maximum frequency
 are mutually inverse.""",
 ['inputs', 'configurations'], "All velocity arrays, time steps, areas, with and without masses, windows, mirroring, padding.",
 "Tests compare peaks for a single signal.",
 ['src/pwtools/pydos.py', 'src/pwtools/signal.py'], [('pdos', 'pydos.py: pdos, vacf_pdos, direct_pdos'), ('fft helpers', 'signal.py: dft, ezfft, fftsample, fft_1d_loop')],
 ['pwtools.pydos.pdos and wrappers, pwtools.signal.dft, ezfft, fftsample'])

prop('C12', 'Signal preparation (padding, mirroring, windows, smoothing) obeys its laws',
 """Zero padding keeps the original samples in place at the requested end and adds exactly the requested number of zeros along the chosen
 axis. Mirroring an N-point axis gives 2N-1 points, symmetric about the middle sample, the second half being the original.
 Windows have M points, are symmetric, bounded by 1 and peak at the centre; smoothing keeps the shape, equals the documented convolution of the edge-extended data with the normalized kernel and so keeps constant data constant (edge='m', kernel shorter than the data).""",
 ['inputs'], "All array shapes, axes, lengths, kernels (odd lengths) and edge modes.",
 "Tests check length 3-ish arrays along axis 0.",
 ['src/pwtools/signal.py'], [('pad/mirror/window/smooth', 'signal.py: pad_zeros, mirror, welch, lorentz, gauss, smooth, odd, scale')],
 ['pwtools.signal.pad_zeros, mirror, welch, lorentz, gauss, smooth, odd, scale'])

prop('C13', 'Axis-generic array helpers agree with plain indexing on every axis',
 """For every array and axis: taking a slice along one axis (or a list of slices) returns the same elements as the equivalent index
 expression, putting values writes exactly those positions and nothing else; extending repeats the array along the new axis
 unchanged; the generalized sum over any set of axes with or without keepdims equals the iterated sum;
 RMS helpers equal sqrt(mean of squares) over the requested elements; vlinspace returns evenly spaced points with exact end points; round_up_next_multiple returns the smallest multiple not
 below its argument.""",
 ['inputs'], "All shapes, ranks, axes (also negative), slices.",
 "Tests cover selected shapes and axes.",
 [N], [('slicing', 'num.py: slicetake, sliceput, extend_array'), ('reductions', 'num.py: sum, rms, rms3d'), ('misc', 'num.py: vlinspace, round_up_next_multiple, normalize, norm, norm_int')],
 ['pwtools.num functions named'])

prop('C14', 'Value matching, ordering and de-duplication never lose or invent entries',
 """Matching an array against values marks exactly the elements equal to one of the values (within eps if given) and nothing else; ordering arrays by similarity picks at every step, for each output column, the input entry of that step closest to the extrapolation (of the requested order) of that column, so well-separated shuffled curves are recovered; unique2d keeps exactly the distinct rows or columns;
 nested loops enumerate the full Cartesian product, rightmost fastest, tuples staying
 grouped or flattened as requested; findmin and findroot return the minimum and the zero of the interpolating spline.""",
 ['inputs'], "All arrays, value sets, loop lists, orders.",
 "Duplicates, ties and missing values are combinatorial; tests contain few.",
 [N, 'src/pwtools/comb.py'], [('match_mask/order_similar', 'num.py'), ('unique2d/nested_loops', 'comb.py')],
 ['pwtools.num.match_mask, order_similar, inner_points_mask; pwtools.comb.unique2d, nested_loops'])

prop('C15', 'N-dimensional polynomial fits reproduce polynomials and their derivatives',
 """The list of monomial powers for (ndim, deg) contains every exponent tuple of {0..deg}^ndim exactly once; the Vandermonde matrix holds for every point and power tuple the product of coordinate
 powers; evaluation is the coefficient-weighted sum of monomials and evaluation with der=1 (and 2 in one dimension) is its exact analytic derivative, with and without the internal rescaling of data. Hence fitting values of a polynomial of that degree reproduces it, and the (N+1)-column table of N-D grid data converts to the axes and the grid array without loss.""",
 ['inputs'], "All ndim, deg, points, coefficients, scale settings.",
 "Tests evaluate 1D-3D fits at sampled points with tolerance.",
 [N], [('poly', 'num.py: poly_powers, vander, polyfit, polyval, PolyFit, PolyFit1D'), ('DataND', 'num.py: DataND')],
 ['pwtools.num.poly_powers, vander, polyfit, polyval, PolyFit, DataND'])

prop('C16', 'RBF interpolation predicts the kernel sum and its exact gradient',
 """Pairwise squared distances equal sum_k (a_ik - b_jk)^2 in every implementation; the prediction is sum_j w_j phi(|x - x_j|^2; p) with the selected
 kernel, and the analytic derivative of a prediction is exactly the gradient of that sum. The weights solve (G + r I) w = values (or least squares when r is None), so with r=0 data points are interpolated.""",
 ['inputs', 'configurations'], "All point sets, dimensions, kernels, p, r.",
 "Tests compare with finite differences at random points.",
 ['src/pwtools/rbf/core.py', N, F], [('kernels', 'rbf/core.py'), ('distsq', 'num.py: distsq; flib.f90: distsq')],
 ['pwtools.rbf.Rbf(...), .deriv(), .predict(), pwtools.num.distsq'])

prop('C17', 'Harmonic thermodynamics is internally consistent for every DOS',
 """For every positive temperature grid and phonon DOS, the vibrational energy, heat capacity, free energy and entropy are the DOS-weighted integrals of the exact
 harmonic-oscillator functions, so F = U - T S and C = dU/dT hold mode by mode, and the classical limits hold. The Gibbs free
 energy on every (T,P) is the minimum over the structural grid of F(V,T) + P V with F = E + Fvib, evaluated at matching
 grid points.""",
 ['inputs'], "All frequency grids, DOS values, positive temperatures.",
 "Tests compare against stored reference curves for one DOS.",
 ['src/pwtools/thermo.py'], [('HarmonicThermo', 'thermo.py'), ('Gibbs', 'thermo.py')],
 ['pwtools.thermo.HarmonicThermo, coth, einstein_func, debye_func, expansion, Gibbs'])

prop('C18', 'Equation of state derivatives, pressure and bulk modulus are exact derivatives',
 """The Vinet energy function satisfies E(V0)=E0, its first and second analytic derivatives are the derivatives of the energy for
 all volumes and parameters, and dE/dV(V0)=0, V0 d2E/dV2(V0)=B0. For a fitted EOS, pressure is -dE/dV and the bulk modulus V d2E/dV2 at every volume, and parameter list and dict forms convert losslessly.""",
 ['inputs'], "All positive volumes (in any order) and parameters (B1 != 1 for Vinet).", "Tests compare with an external program for one data set.",
 ['src/pwtools/eos.py'], [('Vinet', 'eos.py: _vinet, _vinet_deriv1, _vinet_deriv2, Vinet, EosFit')],
 ['pwtools.eos.Vinet, EosFit'])

prop('C19', 'Writing an array to text and reading it back restores shape and values',
 """For every array of up to three dimensions and every storage axis, writing it to a text file with header and reading the file
 back without further arguments restores its shape and all values to full double precision; converting the stored 2d form back to 3d is the
 inverse of the flattening along that axis.""",
 ['inputs'], "All non-empty real arrays (including length-1 axes), all axes, values.", "Tests round-trip a few fixed shapes.",
 ['src/pwtools/arrayio.py'], [('writetxt/readtxt', 'arrayio.py: writetxt, readtxt, arr2d_to_3d, header functions')],
 ['pwtools.arrayio.writetxt, readtxt, arr2d_to_3d'])

prop('C20', 'Structure writers emit every atom, cell and unit conversion faithfully',
 """Every structure file or input block written (XYZ, AXSF, LAMMPS data, WIEN2k sgroup, CIF, pwscf atomic positions, species and k-point blocks, generic array strings) contains one record for each atom in order, with its own symbol and its coordinates to the advertised precision in the format's unit (values below eps as 0), and the cell or crystal constants of that structure; for trajectories one block for each step in order. Numbers read back
 from such text equal those written.""",
 ['inputs'], "All structures and trajectories, any number of atoms and steps, any values.", "Tests compare few fixed outputs.",
 ['src/pwtools/io.py', 'src/pwtools/pwscf.py', 'src/pwtools/lammps.py', 'src/pwtools/common.py'],
 [('writers', 'io.py: write_xyz, write_axsf, write_lammps, wien_sgroup_input'), ('strings', 'pwscf.py: atpos_str*, kpoints_str*; common.py: str_arr, seq2str; lammps.py: struct_str')],
 ['text returned / written by those functions'])

prop('C21', 'Bravais index, celldm and crystallographic constants describe one lattice',
 """Converting crystallographic constants to celldm and back is the identity for all valid values and length factors. For every supported Bravais index
 and celldm, the generated cell vectors are the documented vectors of that lattice type: their lengths, angles and volume are those implied by the
 celldm entries.""",
 ['inputs'], "All positive celldm lengths and ratios, all valid cosines, every ibrav.", "Tests check each ibrav with one set of numbers.",
 [C, 'src/pwtools/pwscf.py'], [('celldm', 'crys.py: cc2celldm, celldm2cc'), ('ibrav', 'pwscf.py: ibrav2cell')],
 ['pwtools.crys.cc2celldm, celldm2cc, pwtools.pwscf.ibrav2cell'])

prop('C22', 'Parsers convert units once and independently of earlier parsing',
 """What a parser returns for a file depends only on that file and its own arguments: default unit factors are those of the code that wrote the file,
 user-supplied units override them, and no parser object created earlier, of the same or any other class, changes the result. Parsing the same file again gives the same object; quantities a file does not contain are None.""",
 ['histories', 'inputs'], "All orders and combinations of parser constructions and calls.", "Tests parse each file in isolation, in one order.",
 ['src/pwtools/parse.py', C], [('units', 'parse.py: default_units, StructureFileParser'), ('UnitsHandler', 'crys.py')],
 ['get_struct(), get_traj(), units of parser classes'])

prop('C23', 'DCD trajectories are decoded exactly and identically by all readers',
 """For every well-formed DCD file (any number of steps and atoms) the Python readers and the compiled reader return the same cell constants and coordinates, which are exactly the
 stored numbers with the cell record reordered from (a,gamma,b,beta,alpha,c) to (a,b,c,alpha,beta,gamma) and, on request, cosines converted to degrees. A file ending within a time step is refused by the Python block reader.""",
 ['inputs'], "All step counts, atom counts and stored values.", "Tests use two sample files.",
 ['src/pwtools/dcd.py', 'src/_ext_src/dcd.f90'], [('readers', 'dcd.py: read_dcd_header, read_dcd_data, read_dcd_data_ref, read_dcd_data_f; dcd.f90')],
 ['pwtools.dcd.read_dcd_data, read_dcd_data_ref, read_dcd_data_f, read_dcd_header'])

prop('C24', 'The SQLite layer stores and returns exactly the values given',
 """Attaching or filling a column writes value k to row start+k and alters no other cell, creating exactly the rows needed when extension is on;
 dictionaries, arrays and lists read back hold the stored values in row order for each column; adding columns never changes existing ones. Building a table from named
 lists stores one row for each combination, with matching column types.""",
 ['inputs', 'histories'], "All tables, values (None, int, float, str, bytes), start rows, sequences of operations.", "Tests run one sequence on small tables.",
 ['src/pwtools/sql.py'], [('SQLiteDB', 'sql.py'), ('sql_matrix/makedb', 'sql.py')],
 ['pwtools.sql.SQLiteDB methods, sql_column, sql_matrix, makedb'])

prop('C25', 'Parameter studies number calculations uniquely and never overwrite earlier ones',
 """Writing a parameter study creates exactly one calculation directory for each parameter combination with its own index, and one database row with the same index, the parameters of
 that combination and the study revision; appending continues the numbering and increments the revision without touching earlier rows or directories. Each calculation's input contains its own parameter values only, however many machines, studies or calculations
 were created before.""",
 ['histories', 'inputs'], "All sequences of write/append/rewrite (rows other than the last may be deleted in between, the database stays), non-empty parameter lists with one type per name, numbers of machines and templates.", "Tests run one append.",
 ['src/pwtools/batch.py'], [('ParameterStudy', 'batch.py: ParameterStudy.write_input'), ('Calculation/FileTemplate', 'batch.py')],
 ['files and database rows written by pwtools.batch.ParameterStudy, Calculation'])

prop('C26', 'Template replacement substitutes every placeholder and nothing else',
 """Replacing placeholders in a text substitutes every occurrence of every given key by the text of its value, leaves all other text byte-identical, works in both dictionary mode (%(key)s) and text mode (plain keys), and reports keys that were not found. Files and backups: an existing file is never overwritten by a backup, which gets
 the first free number.""",
 ['inputs', 'histories'], "All texts and values; text mode: keys which occur neither in each other nor in inserted values.", "Tests use a handful of templates.",
 ['src/pwtools/common.py', 'src/pwtools/batch.py'], [('template_replace', 'common.py: template_replace, file_template_replace'), ('backup', 'common.py: backup')],
 ['pwtools.common.template_replace, backup'])

prop('C27', 'Scalar/sequence conversion helpers are total and lossless on their domain',
 """Sequence to string and back, number formatting and string to bool/float/slice conversions are inverse on their documented domains; flattening keeps every leaf
 element in order and never splits strings; zeroing tiny values changes only entries below eps.""",
 ['inputs'], "All nested sequences, numbers, documented strings (flatten: str leaves).", "Open-ended input domain.",
 ['src/pwtools/common.py'], [('helpers', 'common.py: seq2str, str2seq, str2tup, frepr, tobool, ffloat, toslice, flatten, fix_eps')],
 ['return values of these functions'])

prop('C28', 'Thermostat and barostat masses follow the MTTK formulas',
 """For all frequencies, temperatures and sizes, particle and barostat thermostat chain masses and barostat masses equal the published MTK expressions in the documented units,
 with all chain elements after the first independent of the number of degrees of freedom.""",
 ['inputs'], "All positive frequencies, temperatures, dimensions, chain lengths.", "Fixed-number tests.",
 ['src/pwtools/mttk.py'], [('masses', 'mttk.py')], ['pwtools.mttk functions'])

prop('C29', 'The radial pair distribution function counts each pair in range once',
 """For a structure or trajectory with fixed cell and bins of width dr starting at 0, the number integral of rpdf at the end of bin k is the mean over
 all steps and atoms of the first selection of the number of atoms of the second selection at distance between dr and that bin edge (the first bin,
 which holds the atoms themselves, is left out; rmax bounds the range), g is the same count divided by the ideal gas count V_shell n1 n2 / V (with norm_vmd n1 n2 less the coincident pairs of that step) of the bin,
 with the distances of the minimum image convention (every fractional difference reduced to [-1/2, 1/2]) if pbc is set and with the pairs excluded by dmask left out. rmax='auto' is half the smallest distance between opposite
 cell faces. Structures, trajectories, selections and masks passed in are left unchanged.""",
 ['inputs'], "All fixed cells, coordinates, selections (index, mask, symbol), bin widths; rmax given or automatic.", "Tests compare a few stored reference curves.",
 ['src/pwtools/crys.py'], [('rpdf', 'crys.py: rpdf, rmax_smith')], ['pwtools.crys.rpdf, rmax_smith'])

prop('C30', 'K-point grids and paths follow the requested spacing and vertices',
 """A k path through given vertices with N points per segment contains N equally spaced points from each vertex (included) to the next (excluded) and the last vertex;
 its path length is the running sum of distances of neighbouring points. A grid for a requested spacing h has, per axis, the number of points nearest to
 axis length / h, raised to the next even number on request and to minpoints if smaller; the spacing of a given grid is length / count; kgrid applies this to the
 reciprocal cell. Arguments are unchanged.""",
 ['inputs'], "All vertices, numbers of points, regular cells, spacings; counts away from exact half points.", "Tests sample a few cells and paths.",
 ['src/pwtools/kpath.py', 'src/pwtools/crys.py', 'src/pwtools/num.py'], [('kpath', 'kpath.py: kpath, get_path_norm, SpecialPointsPath; num.py: vlinspace'), ('grids', 'crys.py: grid_in_cell, kgrid')],
 ['pwtools.kpath.kpath, get_path_norm', 'pwtools.crys.grid_in_cell, kgrid'])

prop('C31', 'Trajectory-level transformations act step by step and component by component',
 """The RMSD of a trajectory against one of its steps is, for every step, the root of the mean over atoms of the squared displacement; mixing two structures with weights
 alpha gives at step t alpha[t] times the second plus (1-alpha[t]) times the first in coordinates, cell and (if both have them) forces; smoothing a trajectory
 replaces every time dependent array by its mirrored-edge weighted moving average along the step axis, each component separately, with the same result for every method,
 and takes over everything else. The input objects, weights and kernels are unchanged.""",
 ['inputs'], "All trajectories, reference steps, weights, kernels shorter than the trajectory.", "Tests compare a few random arrays.",
 ['src/pwtools/crys.py', 'src/pwtools/signal.py', 'src/pwtools/num.py'], [('rmsd', 'crys.py: rmsd; num.py: rms3d'), ('mix', 'crys.py: mix'), ('smooth', 'crys.py: smooth')],
 ['pwtools.crys.rmsd, mix, smooth'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
