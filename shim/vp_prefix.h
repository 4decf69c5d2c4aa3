// force-included before every translation unit of the harness build
#ifdef __cplusplus
#include <span>
#define EIGEN_MATRIX_PLUGIN "vp_eigen_matrix_plugin.h"
#endif
