"""names available to contract files"""
from terms import *
import terms as T
from values import *
from contract import contract, REG, HEAP, W, raw, wrap, INVARIANTS
from calls import matmul, cross, skew, affine, aff_mul, aff_inv, named_vec, unit_orthogonal, named, rodrigues, quat_rotation, squared_norm, mat_key, slerp, exp3, log3, jlog3, matrix_sqrt, action_matrix
from terms import tmax, tmin, tabs
from loops import spec_rec, powterm
