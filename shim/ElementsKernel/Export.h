#ifndef VP_SHIM_ELEMENTS_EXPORT_H
#define VP_SHIM_ELEMENTS_EXPORT_H
#define ELEMENTS_API
#define ELEMENTS_EXPORT
#define ELEMENTS_LOCAL
#endif
