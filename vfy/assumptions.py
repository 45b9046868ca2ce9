"""What the proofs rest on without being checked by the verifier (reported in every evidence file)"""

TRUSTED = [
    "vfy/engine.py: symbolic execution of the real source (Python semantics of the statements used, path enumeration "
    "complete per unit, loops by contract); AST rewriting of if/assert/loops/comparisons/comprehensions only",
    "vfy/terms.py + vfy/solver.py: normal forms and quantifier/summation rules written here; z3 4.x, cvc5 for the rest",
    "vfy/symnp.py: contracts assumed for the numpy functions used (elementwise ops, views, broadcasting, reductions, "
    "fancy indexing, pad, roll, clip, ...)",
    "vfy/stubs.py: contracts assumed for scipy.interpolate.interp1d, scipy.signal, scipy.ndimage, spharm.Spharmt "
    "(uninterpreted linear transforms with the spectral wind/vorticity relations), numpy.fft, xarray, pywt, falwa, "
    "matplotlib as far as they are called",
]

COMMON = [
    "floating point is treated as real arithmetic (no rounding, overflow, NaN; float32 of spectral data ignored); "
    "infinities only where a contract names them (C17)",
    "integers of 64 bits are treated as mathematical; in the units called 'small integers' the inputs are arrays of a narrow "
    "or unsigned integer type, and arithmetic done in such a type gives an arbitrary (uninterpreted) value",
    "grids: resolution 180/N for integer N >= 2, radius > 0, 0 <= truncation <= N",
    "termination is not proved, except where a unit states it",
]

PER = {}


def trusted_base():
    return TRUSTED


def assumptions(cid):
    return COMMON + PER.get(cid, [])
