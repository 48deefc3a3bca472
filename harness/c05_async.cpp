// C05: asynchronous sinks deliver everything, in order and intact.
#include <dirent.h>
#include <signal.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cstdlib>
#include <sstream>

#include "async.hpp"

#include "pause.hpp"

namespace {
// Lets idle loops of the library spin rather than sleep, so that a pause hits any of their
// instructions with a fair chance.
std::atomic<bool> g_sleepless{false};
std::atomic<unsigned> g_naps{0};
}  // namespace

extern "C" int nanosleep(const struct timespec* request, struct timespec* left) {
    if (g_sleepless) {
        g_naps.store(g_naps.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
        return 0;
    }
    return static_cast<int>(::syscall(SYS_nanosleep, request, left));
}

extern "C" int clock_nanosleep(clockid_t clock, int flags, const struct timespec* request, struct timespec* left) {
    if (g_sleepless) {
        g_naps.store(g_naps.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
        return 0;
    }
    return ::syscall(SYS_clock_nanosleep, clock, flags, request, left) == 0 ? 0 : errno;
}

PROPERTY(record_fidelity, o.quick = 12000; o.thorough = 100000;
    o.rule = "up to 41 random records emitted by one thread through queues of 4..64 cells built in three ways; everything a record refers "
             "to is freed right after emit; the delivered records must equal the emitted ones in order; non-trivial: more events than cells")
{
    const int factor = static_cast<int>(c.range(2, 6));
    const auto policy = c.chance(50) ? Policy::wait : Policy::unset;
    const int how = static_cast<int>(c.draw(2));
    std::vector<Input> inputs;
    const auto n = 1 + (c.chance(50) ? c.size(23) : c.range(4, 40));
    for (std::size_t i = 0; i < n; ++i) {
        inputs.push_back(gen_input(c, c.chance(50) ? "" : std::to_string(i)));
    }
    c.note("factor " + std::to_string(factor) + " events " + std::to_string(n) + " how " + std::to_string(how));
    auto target = std::make_shared<Target>();
    {
        auto sink = make_async(target, factor, policy, how);
        for (auto& in : inputs) {
            emit(*sink, in);
        }
    }
    FakeClock::real();
    CHECK_THAT(target->got.size() == n, target->got.size() << " events were delivered out of " << n);
    for (std::size_t i = 0; i < n; ++i) {
        compare(target->got[i], inputs[i]);
    }
    if (n > (1u << factor)) {
        c.nontrivial();
    }
}

PROPERTY(blocking_history, o.quick = 4800; o.thorough = 40000; o.schedule = true;
    o.rule = "1-4 producers, queue of 4..16 cells, the wrapped sink held for a while by the schedule; a producer must not return from a "
             "full queue, every event arrives exactly once and per-producer order is kept; non-trivial: the queue was full at some point")
{
    const int producers = static_cast<int>(c.range(1, 4));
    const int factor = static_cast<int>(c.range(2, 4));
    const int each = static_cast<int>(c.range(1, 60));
    const bool held = c.chance(70);
    const int how = static_cast<int>(c.draw(2));
    const auto policy = c.chance(50) ? Policy::wait : Policy::unset;
    // How long the consumer stays held after the queue must have filled up.
    const int linger = static_cast<int>(c.range(0, 4));
    c.note("producers " + std::to_string(producers) + " x " + std::to_string(each) + " factor " + std::to_string(factor) + (held ? " held" : ""));
    auto target = std::make_shared<Target>();
    if (held) {
        target->hold();
    }
    const int capacity = 1 << factor;
    bool overflow = false;
    {
        auto sink = make_async(target, factor, policy, how);
        std::atomic<int> returned{0};
        std::atomic<int> finished{0};
        std::vector<std::thread> threads;
        for (int p = 0; p < producers; ++p) {
            threads.emplace_back([&, p] {
                for (int i = 0; i < each; ++i) {
                    const std::string text = std::to_string(p) + ":" + std::to_string(i);
                    std::unique_ptr<std::string> line(new std::string(text));
                    blackhole::attribute_list list{{"producer", {p}}, {"text", {*line}}};
                    blackhole::attribute_pack pack{list};
                    const string_view message(*line);
                    record_t record(i, message, pack);
                    sink->emit(record, message);
                    ++returned;
                }
                ++finished;
            });
        }
        if (held) {
            const int total = producers * each;
            const int bound = capacity + 1;  // One more may be in the hands of the consumer.
            const int expected = std::min(total, bound);
            // Up to the capacity nothing blocks.
            while (returned < expected - 1) {
                std::this_thread::yield();
            }
            if (total > bound) {
                overflow = true;
                std::this_thread::sleep_for(std::chrono::milliseconds(linger));
                CHECK_THAT(returned <= bound, "more events were accepted (" << returned << ") than fit in the full queue (" << bound << ")");
                CHECK_THAT(finished < producers, "all producers returned while the queue is full");
            }
            target->release();
        }
        for (auto& t : threads) {
            t.join();
        }
    }
    const std::size_t total = static_cast<std::size_t>(producers * each);
    CHECK_THAT(target->got.size() == total, target->got.size() << " events were delivered out of " << total);
    std::map<int, int> last;
    for (auto& d : target->got) {
        const int p = std::stoi(d.line), i = std::stoi(d.line.substr(d.line.find(':') + 1));
        CHECK_THAT(last[p] == i, "event " << d.line << " arrived in place of number " << last[p] << " of its producer");
        ++last[p];
        CHECK_THAT(d.severity == i && d.attrs.size() == 2 && d.attrs[0].val.i == p && d.attrs[1].val.s == d.line && d.message == d.line,
            "the record of event " << d.line << " is mixed up: " << repr(d.attrs) << " " << d.message);
    }
    if (overflow) {
        c.nontrivial();
    }
}

PROPERTY(drain_on_destruction, o.quick = 56000; o.thorough = 150000; o.schedule = true; o.workers = 16;
    o.rule = "a few events emitted after a random short delay and the sink destroyed at once; all of them must have been delivered when "
             "the destructor returns; non-trivial: always")
{
    const int factor = static_cast<int>(c.range(2, 4));
    const auto spin = c.draw(3) == 0 ? 0 : c.draw(60000);
    const int events = static_cast<int>(c.range(1, 3));
    const auto pause = c.draw(300);
    c.note("factor " + std::to_string(factor) + " spin " + std::to_string(spin) + " events " + std::to_string(events));
    auto target = std::make_shared<Target>();
    {
        auto sink = make_async(target, factor, Policy::wait, 0);
        for (volatile std::uint64_t i = 0; i < spin; i = i + 1) {}
        for (int e = 0; e < events; ++e) {
            blackhole::attribute_pack pack;
            const string_view message("0123456789abcdefghij");
            record_t record(e, message, pack);
            sink->emit(record, message);
            for (volatile std::uint64_t i = 0; i < pause; i = i + 1) {}
        }
    }
    CHECK_THAT(target->count() == static_cast<std::size_t>(events), "only " << target->count() << " of " << events << " events were delivered");
    c.nontrivial();
}

#ifndef __SANITIZE_THREAD__
PROPERTY(drain_with_paused_consumer, o.quick = 12000; o.thorough = 200000; o.schedule = true;
    o.rule = "the idle consumer thread is stopped by a signal at an arbitrary instruction, events are emitted (before and while it is "
             "stopped), the destruction begins, and only then the consumer goes on; all events must have been delivered when the "
             "destructor returns; non-trivial: the consumer was really stopped")
{
    const int factor = static_cast<int>(c.range(2, 4));
    const int events = static_cast<int>(c.range(1, 4));
    const int before = static_cast<int>(c.draw(3) == 0 ? c.draw(3) : 0);
    const auto spin = c.draw(4000);
    c.note("factor " + std::to_string(factor) + " events " + std::to_string(before) + "+" + std::to_string(events) + " spin " + std::to_string(spin));
    auto target = std::make_shared<Target>();
    g_sleepless = true;
    bool paused = false;
    {
        auto sink = make_async(target, factor, c.chance(50) ? Policy::wait : Policy::unset, static_cast<int>(c.draw(2)));
        auto send = [&](int id) {
            blackhole::attribute_pack pack;
            const string_view message("0123456789abcdefghij");
            record_t record(id, message, pack);
            sink->emit(record, message);
        };
        const auto other = Pause::other_thread();
        for (int e = 0; e < before; ++e) {
            send(e);
        }
        // Let it start up and become idle, in whatever way it does that.
        const auto naps = g_naps.load();
        const auto deadline = Pause::ns() + 1000000u;
        while (g_naps == naps && Pause::ns() < deadline) {}
        for (volatile std::uint64_t i = 0; i < spin; i = i + 1) {}
        paused = Pause::stop(other);
        for (int e = 0; e < events; ++e) {
            send(before + e);
        }
        // The consumer goes on a bit later, the destructor is already waiting for it then.
        Pause::go_on_soon();
    }
    g_sleepless = false;
    Pause::reset();
    const std::size_t total = static_cast<std::size_t>(before + events);
    CHECK_THAT(target->count() == total, "only " << target->count() << " of " << total << " events were delivered");
    for (std::size_t i = 0; i < total; ++i) {
        CHECK_THAT(target->got[i].severity == static_cast<int>(i), "event " << target->got[i].severity << " in place of " << i);
    }
    if (paused) {
        c.nontrivial();
    }
}
#endif
