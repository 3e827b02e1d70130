T = ' Assumes real arithmetic and the numpy/scipy models listed in the evidence.'
LEVEL = {
 'C11': ('other', 'fftsample and trapezoidal norm_int proved; DFT, vacf/direct PDOS and Simpson normalization bounded (FFT in compiled code).' + T),
 'C24': ('exploration', 'Database contents after every operation against a plain list model, bounded random histories in scratch databases.'),
 'C26': ('exploration', 'Template replacement, file templates and backups against the contract on bounded random texts and files in scratch directories.'),
 'C27': ('other', 'fix_eps proved for arrays of any size; string, flatten and slice helpers bounded.' + T),
 'C15': ('other', 'Powers, Vandermonde matrix, evaluation, derivatives and the least-squares system proved for any number of points (1-3 dimensions, listed degrees); LAPACK solution, root finders and DataND bounded.' + T),
 'C21': ('proof', 'All obligations discharged for all celldm, every Bravais index.' + T),
 'C01': ('proof', 'All obligations of every listed function discharged for all inputs and any number of steps.' + T),
 'C02': ('proof', 'Python and translated Fortran routines: all obligations discharged for all extents.' + T),
 'C03': ('proof', 'All obligations discharged for all extents and values; loops by invariants.' + T),
 'C04': ('other', 'distances, distances_traj, angles and the Fortran kernels proved for all extents; neighbour lists (argsort) and collinear rounding bounded.' + T),
 'C05': ('other', 'scell of a structure (both methods, both directions) and of a trajectory proved for all structures for eight listed grids; other grids and symbol lists bounded.' + T),
 'C06': ('other', 'Attributes, units, single-application invariant over histories (inductive step) and copies proved; arbitrary symbol lists and subsets bounded.' + T),
 'C07': ('other', 'Indexing, slicing, get_traj, mean, concatenate, compress proved for any number of steps; iteration histories bounded.' + T),
 'C09': ('other', 'Rotation matrix, alignment and centring proved; numerical orthogonality check bounded.' + T),
 'C10': ('other', 'pyvacf (3 methods), fvacf (2), acorr methods 1,2,3,5,6 proved for all lengths; FFT and np.correlate methods and thread counts bounded.' + T),
 'C16': ('other', 'Distances, prediction, gradient (1-3 dimensions) and fit system proved for any number of points; LAPACK solution bounded.' + T),
 'C17': ('other', 'DOS integrals, mode relations, area, G/F/H grids proved for all extents; masks, NaN handling and optimum search bounded.' + T),
 'C18': ('other', 'Vinet energy, derivatives, pressure, bulk modulus, parameter forms proved; least-squares fit bounded.' + T),
 'C28': ('proof', 'All mass formulas proved for all arguments.' + T),
 'C08': ('proof', 'All obligations discharged for all tensors and series.' + T),
 'C12': ('other', 'pad_zeros, mirror, welch, lorentz, smooth (kernel shorter than the data) proved; tonext and long kernels bounded.' + T),
 'C13': ('proof', 'All obligations discharged for all extents.' + T),
 'C14': ('other', 'match_mask proved; order_similar, unique2d, nested_loops, findmin/findroot bounded.' + T),
}
LEVEL.update({
 'C19': ('other', 'arr2d_to_3d proved for every shape and axis; text round trip, header and gzip handling bounded in scratch files.' + T),
 'C22': ('other', 'Constructors, unit tables and frame condition of the parser classes, get_cont/get_struct/get_traj and the PW, CP2K and LAMMPS getters proved; parsing of generated output files bounded.' + T),
 'C25': ('exploration', 'Calculation directories, database rows and revisions after every step of bounded random histories in scratch directories.'),
})
LEVEL.update({
 'C20': ('other', 'Text of the PWscf blocks and of the xyz, axsf, sgroup and LAMMPS writers proved for any number of atoms and steps over the text model; CIF, PDB and the files on disk bounded (read back by an independent parser).' + T),
 'C23': ('other', 'read_dcd_header/read_dcd_data proved for any number of steps and atoms against a contract of the stored elements; Fortran and reference readers and truncated files bounded.' + T),
})
LEVEL.update({
 'C10': ('other', 'All seven acorr methods, pyvacf and fvacf proved for all lengths (the FFT methods over the correlation theorem for zero padded sequences); thread counts and rounding bounded.' + T),
 'C11': ('proof', 'fftsample, norm_int (trapezoidal and Simpson rule, any number of points), dft, ezfft, pdos by the direct route (padding factors up to 2, padding to powers of two) and from the VACF proved over the defining sum of the FFT and the composite quadrature rules; floating point of long series and extreme units bounded.' + T),
 'C12': ('other', 'pad_zeros (with tonext), mirror, welch, lorentz, smooth (kernel shorter than the data) proved; long kernels bounded.' + T),
 'C29': ('other', 'rmax_smith proved for all cells; rpdf (nested concatenation and histograms over data dependent selections) bounded against an explicit pair count.' + T),
 'C30': ('other', 'kpath for 1-4 vertices and any number of points, grid_in_cell, kgrid and the path length proved for all cells; even grids bounded.' + T),
 'C31': ('other', 'rmsd, mix and smooth (odd kernels shorter than the trajectory, over the contract of signal.smooth) proved for any number of steps, all coordinates (two or three atoms); other numbers of atoms and kernels bounded.' + T),
})
LEVEL.update({
 'C24': ('other', 'fill_column (overwriting, extending, empty table) proved for any number of rows and values over a ghost model of the SQLite statements it issues; all other operations and histories bounded against a plain list model in scratch databases.' + T),
})
NA = {}
