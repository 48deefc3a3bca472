// Stops another thread of this process at an arbitrary instruction, for a bounded time.
#pragma once

#include <dirent.h>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdlib>
#include <thread>

namespace {

struct Pause {
    // 0 nothing, 1 asked, 2 stopped, 3 to go on soon
    static std::atomic<int>& state() {
        static std::atomic<int> s{0};
        return s;
    }

    static std::uint64_t ns() {
        struct timespec ts;
        ::clock_gettime(CLOCK_MONOTONIC, &ts);
        return static_cast<std::uint64_t>(ts.tv_sec) * 1000000000u + ts.tv_nsec;
    }

    static void handler(int) {
        const int saved = errno;
        auto& s = state();
        int expected = 1;
        if (s.compare_exchange_strong(expected, 2)) {
            // Never for long: whoever wakes it up may need what this thread holds.
            const auto deadline = ns() + 30000000u;
            while (s == 2 && ns() < deadline) {}
            const auto more = ns() + 30000u;
            while (ns() < more) {}
        }
        errno = saved;
    }

    // The only thread of this process besides the calling one, or 0.
    static pid_t other_thread() {
        const pid_t self = static_cast<pid_t>(::syscall(SYS_gettid));
        pid_t found = 0;
        for (int i = 0; i < 50 && found == 0; ++i) {
            DIR* dir = ::opendir("/proc/self/task");
            while (auto entry = ::readdir(dir)) {
                const pid_t tid = std::atoi(entry->d_name);
                if (tid > 0 && tid != self) {
                    found = tid;
                }
            }
            ::closedir(dir);
        }
        return found;
    }

    static bool stop(pid_t tid) {
        if (tid == 0) {
            return false;
        }
        struct sigaction action = {};
        action.sa_handler = &Pause::handler;
        action.sa_flags = SA_RESTART;
        ::sigaction(SIGUSR1, &action, nullptr);
        state() = 1;
        if (::syscall(SYS_tgkill, ::getpid(), tid, SIGUSR1) != 0) {
            return false;
        }
        const auto deadline = ns() + 20000000u;
        while (state() == 1) {
            if (ns() > deadline) {
                state() = 0;
                return false;
            }
        }
        return true;
    }

    static void go_on_soon() { state() = 3; }
    static void reset() { state() = 0; }
};

}  // namespace
