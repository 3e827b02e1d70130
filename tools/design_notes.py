NOTE = {
'C01': """Oracle: the defining formulas written in the contract (lengths, scalar products, determinant). The cell built from
constants is characterised by its Gram matrix and orientation, so any equivalent way of computing it passes. Tests sample cells;
the proof is an identity over all of them.""",
'C02': """Oracle: x_new . NEW = x_old . OLD per point, elementwise for any extents; the Fortran routines are translated and
proved against the same equation, LAPACK's dgesv by its contract (regular matrix, both array arguments overwritten, so they
must be variables).""",
'C03': """Wrapping is characterised by 'integer difference and in range', floor/modulo are axiomatised.""",
'C04': """The Fortran kernels are proved with their callers' preconditions; collinear atoms and rounding of acos arguments are bounded.""",
'C05': """The postcondition is a bijection (source atom, offset) -> row, given for the documented order of each method. Grids are
concrete in the proof because itertools.product of symbolic extents has no linear index arithmetic.""",
'C06': """Three contracts: derived values (all ways of giving positions and cell), units (explicit attributes times factor once),
history (inductive step: on a complete object any call of any getter, set_all or apply_units changes nothing), plus copies. The history
proof makes the statement hold for every finite call sequence, not for sampled ones.""",
'C07': """Per-step attributes are compared by index maps for any number of steps; iteration is bounded over random interleavings.""",
'C10': """The oracle is the sum over a symbolic range; loops become sums through inferred invariants. OpenMP: the translator turns
'parallel iterations write disjoint elements' into an obligation.""",
'C11': """FFTs are compiled code: bounded against the explicit sum in double precision.""",
'C13': """Axis arguments are enumerated (all axes of ranks 1-4, positive and negative), extents symbolic.""",
'C15': """Derivative contracts compare with the symbolic derivative of the specification (g.deriv), so the analytic gradient is
proved, not compared with finite differences.""",
'C16': """As C15: gradient of every kernel against the symbolic derivative of the kernel sum.""",
'C17': """Mode functions and their relations F = U - TS, C = dU/dT are proved by symbolic differentiation; integrals through the contract of the quadrature rule.""",
'C18': """Derivatives of the Vinet energy proved by symbolic differentiation; fitted objects through the contract of the fit
(parameters returned by the optimiser are arbitrary).""",
'C22': """The frame condition of constructors ('no class attribute and no argument changes') is what makes results independent of
history. Parsers proper are text processing: bounded on generated output files of each code, with an independent writer as oracle.""",
'C23': """np.fromfile/np.dtype are a ghost file: reading n bytes returns the stored elements at that offset; the contract says which
element arrives where, for any number of steps and atoms.""",
'C24': """SQL text runs in sqlite: bounded histories against a list-of-rows model after every operation.""",
'C25': """Files and database: bounded histories in scratch directories; every directory and row is compared after every step.""",
'C26': """Regular expressions: bounded; the oracle is a scanner written in the contract.""",
'C27': """Text conversions: bounded over the documented domains.""",
'C29': """The oracle counts pairs one by one over 27 images; distances within 1e-9 of a bin edge are rejected.""",
'C30': """Segments and counts are characterised ('nearest integer', 'equal parts'), so any construction of them passes.""",
'C31': """Elementwise equations for any number of steps; the smoothing oracle is an explicit weighted sum over mirrored data.""",
}
