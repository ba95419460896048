"""Mechanics building blocks for feax.

This package provides reusable mechanics components (cohesive zones,
contact, etc.) that can be composed with feax's matrix-free solver.
"""

from .cohesive import (
    CohesiveInterface,
    exponential_potential,
    bilinear_potential,
    compute_trapezoidal_weights,
    compute_lumped_area_weights,
)
from .tmc import (
    ThirdMediumContact,
    classify_medium_cells,
)
from .shell import (
    isotropic_in_plane_stiffness,
    orthotropic_in_plane_stiffness,
    plate_stiffness,
    z_layer_coordinates,
    rotate_in_plane_stiffness,
    rotate_shear_stiffness,
    laminate_stiffness,
    thermal_expansion_from_orientation,
    rotate_thermal_expansion,
    laminate_thermal_loads,
    mindlin_strains,
    mindlin_resultants,
    mindlin_weak_form,
    MindlinPlate,
    make_mindlin_plate,
)
from .layered_solid_element import (
    voigt_to_tensor,
    tensor_to_voigt,
    isotropic_stiffness_3d,
    orthotropic_stiffness_3d,
    transverse_isotropic_stiffness_3d,
    isotropic_cte_3d,
    transverse_isotropic_cte_3d,
    rotation_matrix_axis,
    rotate_stiffness_3d,
    rotate_cte_3d,
    layered_reference_quadrature,
    LayeredSolid,
    create_layered_solid,
    OrientedLayeredSolid,
    create_oriented_layered_solid,
    expand_cte_to_quad,
    interpolate_nodal_to_layered_quad,
    GeometricStiffnessSolid,
    create_layered_solid_geometric_stiffness,
    layered_quad_stress,
)
from .orientation import (
    box_to_triangle,
    box_to_tetrahedron,
    smooth_sgn,
    orientation_tensor_2d,
    orientation_tensor_3d,
    principal_direction,
    quadratic_closure,
    linear_closure,
    hybrid_closure,
    orientation_averaged_stiffness,
    orientation_averaged_stiffness_3d,
)
from .copv import (
    ZONE_INNER_SHELL,
    ZONE_FILL,
    ZONE_OUTER_SHELL,
    DoubleWallCopvGeometry,
    DoubleWallCopvMesh,
    build_meridian,
    create_double_wall_copv_mesh,
    create_winding_ply_stiffness,
    create_winding_cte,
    cell_fiber_directions,
    cell_winding_angle_deg,
    cell_triads,
    save_orientation_vtk,
)

__all__ = [
    "CohesiveInterface",
    "exponential_potential",
    "bilinear_potential",
    "compute_trapezoidal_weights",
    "compute_lumped_area_weights",
    "ThirdMediumContact",
    "classify_medium_cells",
    "isotropic_in_plane_stiffness",
    "orthotropic_in_plane_stiffness",
    "plate_stiffness",
    "z_layer_coordinates",
    "rotate_in_plane_stiffness",
    "rotate_shear_stiffness",
    "laminate_stiffness",
    "thermal_expansion_from_orientation",
    "rotate_thermal_expansion",
    "laminate_thermal_loads",
    "mindlin_strains",
    "mindlin_resultants",
    "mindlin_weak_form",
    "MindlinPlate",
    "make_mindlin_plate",
    "voigt_to_tensor",
    "tensor_to_voigt",
    "isotropic_stiffness_3d",
    "orthotropic_stiffness_3d",
    "transverse_isotropic_stiffness_3d",
    "isotropic_cte_3d",
    "transverse_isotropic_cte_3d",
    "rotation_matrix_axis",
    "rotate_stiffness_3d",
    "rotate_cte_3d",
    "layered_reference_quadrature",
    "LayeredSolid",
    "create_layered_solid",
    "OrientedLayeredSolid",
    "create_oriented_layered_solid",
    "expand_cte_to_quad",
    "interpolate_nodal_to_layered_quad",
    "GeometricStiffnessSolid",
    "create_layered_solid_geometric_stiffness",
    "layered_quad_stress",
    "box_to_triangle",
    "box_to_tetrahedron",
    "smooth_sgn",
    "orientation_tensor_2d",
    "orientation_tensor_3d",
    "principal_direction",
    "quadratic_closure",
    "linear_closure",
    "hybrid_closure",
    "orientation_averaged_stiffness",
    "orientation_averaged_stiffness_3d",
    "ZONE_INNER_SHELL",
    "ZONE_FILL",
    "ZONE_OUTER_SHELL",
    "DoubleWallCopvGeometry",
    "DoubleWallCopvMesh",
    "build_meridian",
    "create_double_wall_copv_mesh",
    "create_winding_ply_stiffness",
    "create_winding_cte",
    "cell_fiber_directions",
    "cell_winding_angle_deg",
    "cell_triads",
    "save_orientation_vtk",
]
