"""Strain increment alphabet shared by the constitutive checks."""
import numpy as np
import torch

GEN = np.array([[1.0, 0.3, -0.2], [0.3, -0.6, 0.4], [-0.2, 0.4, 0.25]])
SH = np.array([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 0.0]])
SQ = np.array([[0.1, 0.0, 0.7], [0.0, 0.2, -0.5], [0.7, -0.5, -0.4]])

LETTERS = {
    'U': 0.003*np.diag([1.0, 0.0, 0.0]),    # uniaxial, elastic then plastic
    'u': -0.006*np.diag([1.0, 0.0, 0.0]),   # uniaxial reversal
    'S': 0.004*SH,                          # in-plane shear
    'Q': 0.004*SQ,                          # generic with large shear
    'H': 0.006*np.eye(3),                   # volumetric expansion
    'C': -0.004*np.eye(3),                  # volumetric compression
    'G': 0.005*GEN,                         # generic
    'g': -0.008*GEN,                        # generic reversal
    'B': 0.05*GEN,                          # large generic
    'X': -2.0*GEN,                          # very large
    's': -0.0005*GEN,                       # small unloading
    'Z': 0.0*GEN,                           # nothing
}


def inc_tensor(c, problem_type):
    n = 2 if problem_type == 1 else 3
    return torch.tensor(LETTERS[c][:n, :n])
