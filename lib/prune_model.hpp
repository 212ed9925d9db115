// The pruning rule of include/svs/index/vamana/prune.h written out.
#pragma once
#include "svs/index/vamana/prune.h"
#include <cmath>
#include <limits>
#include <vector>

namespace vg {
namespace iv = svs::index::vamana;
enum class Strategy { Progressive, Iterative, Legacy };

struct Pick {
    uint32_t id;
    float dist;
    size_t tag;
};

// The rule.  `d(i, j)`: distance of dataset vectors.  Sets `ambiguous` when rounding decides.
template <typename Cmp, typename D>
std::vector<size_t> rule(
    Strategy s, size_t max, float alpha, bool exact, const std::vector<Pick>& pool, uint32_t self, D d, bool& ambiguous
) {
    Cmp cmp;
    std::vector<size_t> out;
    size_t n = pool.size();
    // a beyond b ("worse than" by the comparison); a and b are both products or ratios.
    auto before = [&](double a, double b) {
        if (!exact && std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-5 * (std::fabs(a) + std::fabs(b)) + 1e-30) {
            ambiguous = true;
        }
        return cmp(a, b);
    };
    if (s == Strategy::Legacy) {
        std::vector<bool> gone(n, false);
        for (size_t i = 0; i < n && out.size() < max; ++i) {
            if (gone[i] || pool[i].id == self) {
                continue;
            }
            out.push_back(i);
            for (size_t t = i + 1; t < n; ++t) {
                if (!gone[t] && before(double(alpha) * d(pool[i].id, pool[t].id), pool[t].dist)) {
                    gone[t] = true;
                }
            }
        }
        return out;
    }
    std::vector<bool> added(n, false);
    constexpr double inf = std::numeric_limits<double>::infinity();
    std::vector<double> factor(n, cmp(0.0, 1.0) ? -inf : inf); // nothing covers it yet
    double a = 1.0;
    for (;;) {
        if (out.size() >= max || cmp(double(alpha), a)) {
            break;
        }
        std::vector<bool> gone(n, false);
        if (s == Strategy::Progressive) {
            // A candidate remembers the largest relaxation at which something selected so far covers it;
            // what it is covered by is recorded until it is covered at the present relaxation.
            for (size_t i = 0; i < n && out.size() < max; ++i) {
                if (added[i] || pool[i].id == self || before(a, factor[i])) {
                    continue;
                }
                added[i] = true;
                out.push_back(i);
                for (size_t t = i + 1; t < n; ++t) {
                    if (added[t] || before(a, factor[t])) {
                        continue;
                    }
                    double ratio = double(pool[t].dist) / d(pool[i].id, pool[t].id);
                    if (!std::isnan(ratio) && cmp(factor[t], ratio)) {
                        factor[t] = ratio;
                    }
                }
            }
        } else {
            // Only what is selected in this round covers a later candidate.
            for (size_t i = 0; i < n && out.size() < max; ++i) {
                if (added[i] || gone[i] || pool[i].id == self) {
                    continue;
                }
                added[i] = true;
                out.push_back(i);
                for (size_t t = i + 1; t < n; ++t) {
                    if (!added[t] && !gone[t] && before(a * d(pool[i].id, pool[t].id), pool[t].dist)) {
                        gone[t] = true;
                    }
                }
            }
        }
        if (alpha == 1.0f) {
            break;
        }
        a *= alpha;
    }
    return out;
}

template <typename S> constexpr Strategy strategy_of() {
    if constexpr (std::is_same_v<S, iv::ProgressivePruneStrategy>) {
        return Strategy::Progressive;
    } else if constexpr (std::is_same_v<S, iv::IterativePruneStrategy>) {
        return Strategy::Iterative;
    } else {
        return Strategy::Legacy;
    }
}

} // namespace vg
