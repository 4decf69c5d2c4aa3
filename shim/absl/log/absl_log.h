#include "absl/log/vp_log_shim.h"
