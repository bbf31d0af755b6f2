/* the C interfaces of the vector helpers and class tables */
#include <t8.h>
#include <t8_types/t8_vec.h>
#include <t8_eclass/t8_eclass.h>
#include <t8_element/t8_element_shape.h>
#include <string.h>
double cc_norm (const double *a) { return t8_norm (a); }
void cc_normalize (double *a) { t8_normalize (a); }
void cc_copy (const double *a, double *b) { t8_copy (a, b); }
double cc_dist (const double *a, const double *b) { return t8_dist (a, b); }
void cc_ax (double *a, double s) { t8_ax (a, s); }
void cc_axy (const double *a, double *b, double s) { t8_axy (a, b, s); }
void cc_axb (const double *a, double *b, double s, double t) { t8_axb (a, b, s, t); }
void cc_axpy (const double *a, double *b, double s) { t8_axpy (a, b, s); }
void cc_axpyz (const double *a, const double *b, double *c, double s) { t8_axpyz (a, b, c, s); }
double cc_dot (const double *a, const double *b) { return t8_dot (a, b); }
void cc_cross3 (const double *a, const double *b, double *c) { t8_cross_3D (a, b, c); }
double cc_cross2 (const double *a, const double *b) { return t8_cross_2D (a, b); }
void cc_diff (const double *a, const double *b, double *c) { t8_diff (a, b, c); }
int cc_eq (const double *a, const double *b, double t) { return t8_eq (a, b, t); }
void cc_rescale (double *a, double l) { t8_rescale (a, l); }
void cc_normal (const double *a, const double *b, const double *c, double *n) { t8_normal_of_tri (a, b, c, n); }
void cc_tripod (const double *a, double *b, double *c) { t8_orthogonal_tripod (a, b, c); }
void cc_swap (double *a, double *b) { t8_swap (a, b); }
const int *cc_table (int which, int *n)
{
#define T(k, x) case k: *n = (int) (sizeof (x) / sizeof (int)); return (const int *) (x)
  switch (which) {
  T (0, t8_eclass_to_dimension); T (1, t8_eclass_num_faces); T (2, t8_eclass_max_num_faces); T (3, t8_eclass_max_num_children);
  T (4, t8_face_vertex_to_tree_vertex); T (5, t8_face_edge_to_tree_edge); T (6, t8_face_to_edge_neighbor); T (7, t8_edge_vertex_to_tree_vertex);
  T (8, t8_edge_to_face); T (9, t8_eclass_face_orientation); T (10, t8_reference_face_normal_tet); T (11, t8_eclass_num_vertices);
  T (12, t8_eclass_num_edges); T (13, t8_eclass_vtk_type); T (14, t8_eclass_vtk_to_t8_corner_number); T (15, t8_eclass_t8_to_vtk_corner_number);
  T (16, t8_eclass_face_types); T (17, t8_eclass_boundary_count);
  }
  *n = 0;
  return 0;
}
const char *cc_name (int c) { return t8_eclass_to_string[c]; }
