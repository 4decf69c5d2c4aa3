// The scripted forward model inside the Python extension module: the Python loops of the repository then
// drive the real VmecModel object with scripted forward-model answers.
#include "ctl_mock.h"
#define VPX extern "C" __attribute__((visibility("default")))
static std::FILE* g_bin = nullptr;
static std::string g_last;
VPX void vp_mock_open(const char* path) { g_bin = std::fopen(path, "wb"); }
VPX void vp_mock_load(const char* text) { load_script(json::parse(text)); }
VPX int vp_mock_evals() { return (int)G.obs.size(); }
VPX const char* vp_mock_report() { json o; report(o, g_bin); g_last = o.dump(); return g_last.c_str(); }
