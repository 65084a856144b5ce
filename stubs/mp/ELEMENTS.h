// Declarations of the part of ELEMENTS the multiphysics application uses, for the analysis only.
#pragma once
#include "matar.h"
typedef double real_t;
#ifndef PI
#define PI 3.14159265358979323846
#endif
namespace swage {
  struct Mesh {
    size_t num_dims, num_nodes, num_elems, num_corners, num_zones, num_leg_gauss_in_elem, num_lob_gauss_in_elem, num_nodes_in_elem, num_zones_in_elem,
        num_gauss_in_elem, num_surfs, num_patches, num_bdy_patches, num_bdy_nodes, num_bdy_sets, num_nodes_in_patch, num_patches_in_elem, num_surfs_in_elem, Pn;
    DCArrayKokkos<size_t> nodes_in_elem, bdy_patches, bdy_nodes, nodes_in_patch, elems_in_patch, patches_in_elem, bdy_patches_in_set, bdy_nodes_in_set, num_bdy_nodes_in_set;
    RaggedRightArrayKokkos<size_t> corners_in_node, elems_in_node, elems_in_elem, nodes_in_node, patches_in_node;
    DCArrayKokkos<size_t> corners_in_elem, num_corners_in_node, num_elems_in_elem, num_nodes_in_node;
    void initialize_nodes(size_t); void initialize_elems(size_t, size_t); void initialize_elems(size_t, size_t, const std::string &);
    void initialize_corners(size_t); void build_connectivity(); void init_bdy_sets(size_t);
  };
}
