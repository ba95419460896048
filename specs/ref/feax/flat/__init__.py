"""FEAX Flat - Periodic structures and homogenization utilities.

This subpackage provides tools for working with periodic lattice structures,
unit cell analysis, and computational homogenization.
"""

from . import pbc
from . import solver
from . import unitcell
from . import graph
from . import utils

__all__ = [
    'pbc',
    'solver',
    'unitcell',
    'graph',
    'utils',
]
