"""STUB of the `spu` package (not installable here): additive sharing over a
byte ring, kernels evaluated by JAX on values reconstructed through the real
link/channel code of mplang.  Functionally equivalent, not secure."""
from . import libspu
