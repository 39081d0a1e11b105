#pragma once
// The cereal release soro is developed against writes string views; the
// installed one does not.
#include <string_view>
#include "cereal/archives/json.hpp"
#include "cereal/cereal.hpp"
#include "cereal/types/string.hpp"
namespace cereal {
inline void prologue(JSONOutputArchive& ar, std::string_view const&) { ar.writeName(); }
inline void epilogue(JSONOutputArchive&, std::string_view const&) {}
inline void save(JSONOutputArchive& ar, std::string_view const& s) { ar.saveValue(std::string(s)); }
}  // namespace cereal
