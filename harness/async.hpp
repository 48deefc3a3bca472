// Shared by the asynchronous sink checks.
#pragma once

#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

#include <sys/syscall.h>
#include <unistd.h>

#include <blackhole/builder.hpp>
#include <blackhole/config/json.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
#include <blackhole/factory.hpp>
#include <blackhole/registry.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/asynchronous.hpp>

#include "bh.hpp"

namespace {

using namespace bh;
using blackhole::record_t;
using blackhole::sink_t;
using blackhole::string_view;

struct Delivered {
    std::string line;
    std::string message;
    std::string formatted;
    int severity;
    std::int64_t stamp;
    pthread_t tid;
    std::uint64_t lwp;
    Attrs attrs;
};

// The far end: outlives the sinks, may hold the consumer thread and may fail on demand.
struct Target {
    std::mutex mutex;
    std::condition_variable cv;
    std::vector<Delivered> got;
    bool held = false;
    bool inside = false;
    std::function<int(const std::string&)> failing;  // 0 fine, 1 std::exception, 2 something else

    void hold() {
        std::lock_guard<std::mutex> lock(mutex);
        held = true;
    }
    void release() {
        std::lock_guard<std::mutex> lock(mutex);
        held = false;
        cv.notify_all();
    }
    void wait_inside() {
        std::unique_lock<std::mutex> lock(mutex);
        cv.wait(lock, [&] { return inside; });
    }
    std::size_t count() {
        std::lock_guard<std::mutex> lock(mutex);
        return got.size();
    }
};

class target_sink : public sink_t {
    std::shared_ptr<Target> target;

public:
    explicit target_sink(std::shared_ptr<Target> target) : target(std::move(target)) {}

    auto emit(const record_t& record, const string_view& formatted) -> void override {
        int fail = 0;
        {
            std::unique_lock<std::mutex> lock(target->mutex);
            target->inside = true;
            target->cv.notify_all();
            target->cv.wait(lock, [&] { return !target->held; });
            target->inside = false;
            Delivered d;
            d.line = str(formatted);
            d.message = str(record.message());
            d.formatted = str(record.formatted());
            d.severity = record.severity();
            d.stamp = std::chrono::duration_cast<std::chrono::nanoseconds>(record.timestamp().time_since_epoch()).count();
            d.tid = record.tid();
            d.lwp = record.lwp();
            d.attrs = flatten(record.attributes());
            if (target->failing) {
                fail = target->failing(d.line);
            }
            target->got.push_back(std::move(d));
        }
        if (fail == 1) {
            throw std::runtime_error("sink failure");
        } else if (fail == 2) {
            throw 42;
        }
    }
};

// Lets the sink be built through the configuration.
std::shared_ptr<Target> g_target;

class target_factory : public blackhole::factory<sink_t> {
public:
    auto type() const noexcept -> const char* override { return "target"; }
    auto from(const blackhole::config::node_t&) const -> std::unique_ptr<sink_t> override {
        return std::unique_ptr<sink_t>(new target_sink(g_target));
    }
};

enum class Policy { unset, wait, drop };

// how: 0 builder lvalue calls, 1 builder chained calls, 2 configuration.
inline std::unique_ptr<sink_t> make_async(std::shared_ptr<Target> target, int factor, Policy policy, int how) {
    typedef blackhole::builder<blackhole::sink::asynchronous_t> builder_type;
    if (how == 2) {
        g_target = target;
        auto registry = blackhole::registry::empty();
        registry->add(std::make_shared<target_factory>());
        const blackhole::factory<blackhole::sink::asynchronous_t> factory(*registry);
        // The factory hands its own node to the nested sink's one.
        std::istringstream stream("{\"type\": \"asynchronous\", \"factor\": " + std::to_string(factor) + ", \"overflow\": \"" +
            (policy == Policy::drop ? "drop" : "wait") + "\", \"sink\": {\"type\": \"target\"}}");
        auto config = blackhole::config::factory_traits<blackhole::config::json_t>::construct(stream);
        return factory.from(config->config());
    }
    std::unique_ptr<sink_t> wrapped(new target_sink(target));
    if (how == 0) {
        builder_type b(std::move(wrapped));
        b.factor(factor);
        if (policy == Policy::wait) {
            b.wait();
        } else if (policy == Policy::drop) {
            b.drop();
        }
        return std::move(b).build();
    }
    if (policy == Policy::drop) {
        return builder_type(std::move(wrapped)).drop().factor(factor).build();
    } else if (policy == Policy::wait) {
        return builder_type(std::move(wrapped)).wait().factor(factor).build();
    }
    return builder_type(std::move(wrapped)).factor(factor).build();
}

struct Input {
    std::string line, message, text;
    bool lazy = false;
    int severity = 0;
    std::int64_t stamp = 0;
    std::vector<Attrs> lists;

    Attrs flat() const {
        Attrs r;
        for (auto& l : lists) {
            for (auto a : l) {
                // Functions are turned into the text they print.
                if (a.val.kind == Kind::function) {
                    a.val.kind = Kind::string;
                }
                r.push_back(a);
            }
        }
        return r;
    }
};

inline Input gen_input(pbt::Case& c, const std::string& id) {
    Input in;
    in.line = id + c.utf8(c.chance(10) ? 600 : 30);
    in.message = c.utf8(c.chance(10) ? 200 : 30);
    in.lazy = c.chance(50);
    in.text = c.utf8(40);
    in.severity = static_cast<int>(c.range(-2, 6));
    in.stamp = c.range(1, 4000000000000ll);
    const auto n = c.weighted({3, 4, 2, 1});
    GenOptions o;
    o.max = 24;
    for (std::size_t i = 0; i < n; ++i) {
        in.lists.push_back(gen_attrs(c, o));
    }
    return in;
}

// Emits and then destroys and scribbles over everything the record referred to.
inline void emit(sink_t& sink, const Input& in) {
    std::unique_ptr<Arena> arena(new Arena);
    std::vector<blackhole::attribute_list> lists;
    for (auto& l : in.lists) {
        lists.push_back(list_of(l, *arena));
    }
    blackhole::attribute_pack pack;
    for (auto& l : lists) {
        pack.push_back(l);
    }
    const auto message = arena->view(in.message);
    const auto text = arena->view(in.text, false);
    const auto line = arena->view(in.line);
    record_t record(in.severity, message, pack);
    FakeClock::set_us(in.stamp);
    const auto formatted = in.lazy ? text : string_view();
    record.activate(formatted);
    sink.emit(record, line);
}

// The event was emitted by the current thread.
inline void compare(const Delivered& d, const Input& in) {
    CHECK_EQ_STR(d.line, in.line, "delivered line");
    CHECK_EQ_STR(d.message, in.message, "message of the delivered record");
    CHECK_EQ_STR(d.formatted, in.lazy ? in.text : in.message, "formatted message of the delivered record");
    CHECK_THAT(d.severity == in.severity, "severity " << d.severity << " in place of " << in.severity);
    CHECK_THAT(d.stamp == in.stamp * 1000, "timestamp " << d.stamp << " in place of " << in.stamp * 1000);
    CHECK_THAT(::pthread_equal(d.tid, ::pthread_self()), "thread of the delivered record");
    CHECK_THAT(d.lwp == static_cast<std::uint64_t>(::syscall(SYS_gettid)), "kernel thread id of the delivered record");
    CHECK_THAT(d.attrs == in.flat(), "attributes " << repr(d.attrs) << " in place of " << repr(in.flat()));
}

}  // namespace
