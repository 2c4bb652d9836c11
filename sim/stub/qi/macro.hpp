// Stand-in for libqi's <qi/macro.hpp>: only the export macro is needed.
#pragma once
#define QI_LIB_API(name) __attribute__((visibility("default")))
