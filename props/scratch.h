// A scratch directory per worker, inside the directory the check made for this run.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <string>
#include <unistd.h>
namespace scratch {
inline std::string dir() {
    static std::string d;
    static pid_t owner = 0;
    if (owner != getpid()) {
        const char* base = std::getenv("PBT_SCRATCH");
        d = std::string(base && *base ? base : "/tmp") + "/pbt-scratch-" + std::to_string(getpid());
        std::filesystem::create_directories(d);
        owner = getpid();
    }
    return d;
}
inline void clean() {
    std::error_code ec;
    std::filesystem::remove_all(dir(), ec);
}
}  // namespace scratch
