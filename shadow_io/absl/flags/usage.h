#ifndef VERIF_ABSL_USAGE_H_
#define VERIF_ABSL_USAGE_H_
#include <string>
namespace absl { inline void SetProgramUsageMessage(const std::string&) {} }
#endif
