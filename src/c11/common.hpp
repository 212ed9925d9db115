// C11: saved objects load equal.
#pragma once
#include "vh.hpp"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/lib/saveload.h"

#include <csignal>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>
#include <sys/resource.h>
#include <unistd.h>

namespace c11 {
namespace fs = std::filesystem;
namespace lib = svs::lib;
using svs::Float16;

inline void text_utf8(std::string& s, uint32_t c) {
    if (c < 0x80) {
        s += char(c);
    } else if (c < 0x800) {
        s += char(0xC0 | c >> 6);
        s += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += char(0xE0 | c >> 12);
        s += char(0x80 | (c >> 6 & 63));
        s += char(0x80 | (c & 63));
    } else {
        s += char(0xF0 | c >> 18);
        s += char(0x80 | (c >> 12 & 63));
        s += char(0x80 | (c >> 6 & 63));
        s += char(0x80 | (c & 63));
    }
}
// Valid UTF-8 with everything that needs care in a text file.
inline std::string gen_text(vh::Gen& g, bool path = false) {
    std::string s;
    size_t n = g.skew(path ? 1 : 0, 12);
    for (size_t i = 0; i < n; ++i) {
        uint32_t c;
        switch (g.raw(5)) {
            case 0: c = uint32_t('a' + g.raw(25)); break;
            case 1: c = uint32_t("\"'\\\n\r\t#=[]{},. "[g.raw(15)]); break;
            case 2: c = uint32_t(g.raw(0x1f)); break;
            case 3: c = 0x7f + uint32_t(g.raw(0x120)); break;
            case 4: c = uint32_t(g.raw(0xd7ff)); break;
            default: c = 0x10000 + uint32_t(g.raw(0xfffff)); break;
        }
        if (path && c == 0) {
            c = '/';
        }
        text_utf8(s, c);
    }
    return s;
}
template <typename I> I gen_int(vh::Gen& g) {
    switch (g.raw(3)) {
        case 0: return I(g.raw(100));
        case 1: return std::numeric_limits<I>::max() - I(g.raw(3));
        case 2: return I(std::numeric_limits<I>::min() + I(g.raw(3)));
        default: {
            uint64_t x = g.raw(UINT64_MAX) >> g.raw(63);
            return I(g.flip() ? x : ~x);
        }
    }
}
template <typename F> F gen_float(vh::Gen& g) {
    switch (g.raw(5)) {
        case 0: return F(double(g.raw(200)) - 100);
        case 1: return F((double(g.raw(2000)) - 1000) / 8);
        case 2: return F((double(g.raw(2000)) - 1000) / 10);
        case 3: return F(g.pick<double>({0.0, -0.0, std::numeric_limits<F>::max(), std::numeric_limits<F>::min(), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::lowest(), 1e15, 1e16, 1e17, 123456789012345680.0}));
        case 4: return F(g.pick<double>({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}));
        default: {
            uint64_t x = g.raw(UINT64_MAX);
            F f;
            std::memcpy(&f, &x, sizeof f);
            // Saving a float that is not a number is refused, a double is saved as nan.
            return !std::isnan(f) ? f : sizeof(F) == 4 ? F(0) : std::numeric_limits<F>::quiet_NaN();
        }
    }
}
template <typename F> bool same_float(F a, F b) { return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof a) == 0; }

// While alive no file written by this process can grow beyond the limit.
struct FileLimit {
    rlimit old{};
    explicit FileLimit(size_t bytes) {
        std::signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit now{bytes, old.rlim_max};
        setrlimit(RLIMIT_FSIZE, &now);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};

// All files below a directory.
inline std::set<std::string> files(const fs::path& dir) {
    std::set<std::string> out;
    for (auto& e : fs::recursive_directory_iterator(dir)) {
        out.insert(fs::relative(e.path(), dir).string());
    }
    return out;
}
} // namespace c11
