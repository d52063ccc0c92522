/* Force-included when compiling the generator: names older protobuf versions provided. */
#ifdef __cplusplus
#include <string>
#include <google/protobuf/stubs/common.h>
#include <google/protobuf/stubs/port.h>
#ifndef LIBPROTOBUF_EXPORT
#define LIBPROTOBUF_EXPORT
#endif
namespace google { namespace protobuf { using std::string; } }
#endif
