"""Public direct sparse solver API."""

from .cholmod import cholmod_solve
from .spsolve import spsolve
from .umfpack import umfpack_solve

__all__ = [
    "cholmod_solve",
    "spsolve",
    "umfpack_solve",
]
