#ifndef VP_SHIM_ELEMENTS_PHYS_H
#define VP_SHIM_ELEMENTS_PHYS_H
namespace Elements { namespace Units { constexpr double c_light = 299792458.0; } }
#endif
