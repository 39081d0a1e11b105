#pragma once
// Stand-in for guess: the candidates that contain the query, in their order.
#include <algorithm>
#include <cctype>
#include <string>
#include <utility>
#include <vector>

namespace guess {
struct guesser {
  struct match {
    std::size_t index;
    float cos_sim;
  };
  explicit guesser(std::vector<std::pair<std::string, float>> const& c) : candidates_{c} {
    for (auto& p : candidates_) p.first = lower(p.first);
  }
  std::vector<match> guess_match(std::string q) const {
    q = lower(q);
    std::vector<match> r;
    for (std::size_t i = 0; i < candidates_.size(); ++i) {
      if (candidates_[i].first.find(q) != std::string::npos) r.push_back({i, candidates_[i].second});
    }
    return r;
  }
  static std::string lower(std::string s) {
    std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return static_cast<char>(std::tolower(c)); });
    return s;
  }
  std::vector<std::pair<std::string, float>> candidates_;
};
}  // namespace guess
