// Analysis overlay, see substitute.h.
#ifndef VERIF_OVERLAY_ABSL_STR_FORMAT_H_
#define VERIF_OVERLAY_ABSL_STR_FORMAT_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A>
std::string StrFormat(string_view fmt, const A&...) { return std::string(fmt); }
template <typename... A>
std::string& StrAppendFormat(std::string* out, string_view fmt, const A&...) { return out->append(std::string(fmt)); }
}  // namespace absl
#endif
