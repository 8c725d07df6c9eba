#ifndef VP_SHIM_ELEMENTS_UNUSED_H
#define VP_SHIM_ELEMENTS_UNUSED_H
#ifndef ELEMENTS_UNUSED
#define ELEMENTS_UNUSED __attribute__((unused))
#endif
#endif
