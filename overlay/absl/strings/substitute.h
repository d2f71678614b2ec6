// Analysis overlay: the installed Abseil predates the string-formatting API the
// repository uses (AbslStringify / %v).  Message text is not modelled, so the
// formatting entry points are permissive stubs; everything else is the real
// Abseil.
#ifndef VERIF_OVERLAY_ABSL_SUBSTITUTE_H_
#define VERIF_OVERLAY_ABSL_SUBSTITUTE_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <typename... A>
std::string Substitute(string_view fmt, const A&...) { return std::string(fmt); }
template <typename... A>
void SubstituteAndAppend(std::string* out, string_view fmt, const A&...) { out->append(std::string(fmt)); }
}  // namespace absl
#endif
