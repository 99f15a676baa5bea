#ifndef VERIF_ABSL_PARSE_H_
#define VERIF_ABSL_PARSE_H_
#include <vector>
#include "absl/flags/flag.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char* argv[]) { return std::vector<char*>(argv, argv + argc); }  // the harness has set the flags
}
#endif
