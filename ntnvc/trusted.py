BASE = [
    "ntnvc/symtf.py: symbolic semantics of the TensorFlow operations used by OpenNTN",
    "ntnvc/loader.py: stand-ins for numpy, math and the sionna.phy helpers (constants, Object, config, log10, "
    "expand_to_rank, insert_dims, deg_2_rad, rad_2_deg, wrap_angle_0_360), matplotlib not executed",
    "ntnvc/terms.py, prover.py: ring normal form with sqrt/exp/ln/trigonometric identities, case split",
    "z3 and cvc5 for the arithmetic obligations; axioms about exp, ln, sqrt, sin, cos, atan, atan2, pow, floor, mod",
    "tf.random / config.tf_rng: draws are arbitrary values of their range (distribution not modelled)",
    "tf.linalg.cholesky: assumed to return a factor of its argument",
]
ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real arithmetic; literals denote the simplest rational that rounds to them",
    "random draws of the library are replaced by unconstrained symbols in their documented range",
    "eager execution; TensorFlow kernels compute their documented function",
]
