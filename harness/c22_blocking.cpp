// C22: the blocking handler and severity filters.
#include <condition_variable>
#include <mutex>
#include <stdexcept>
#include <thread>

#include <boost/optional/optional.hpp>

#include <blackhole/filter/severity.hpp>
#include <blackhole/handler/blocking.hpp>

#include "config.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
using blackhole::record_t;

struct Got {
    int sink;
    std::string text;
    int severity;
    std::string message, formatted;
    Attrs attrs;
    std::int64_t us;
    const void* chars;
};

Attrs plain(Attrs attrs) {
    for (auto& a : attrs) {
        if (a.val.kind == Kind::function) {
            a.val.kind = Kind::string;
        }
    }
    return attrs;
}

struct World {
    std::mutex mutex;
    std::vector<Got> got;
    int formatted = 0;
    int alive = 0;
    std::string format_text;
    int format_fails = 0;
    // Which sink fails at the current event.
    int failing = -1;
};

struct failure : std::runtime_error {
    failure() : std::runtime_error("on purpose") {}
};

class Formatter : public blackhole::formatter_t {
    World& world;

public:
    explicit Formatter(World& world) : world(world) { ++world.alive; }
    ~Formatter() { --world.alive; }
    auto format(const record_t& record, blackhole::writer_t& writer) -> void override {
        ++world.formatted;
        writer.inner << blackhole::fmt::StringRef(world.format_text.data(), world.format_text.size());
        if (world.format_fails) {
            throw failure();
        }
        (void)record;
    }
};

class Sink : public blackhole::sink_t {
    World& world;
    int id;

public:
    Sink(World& world, int id) : world(world), id(id) {
        std::lock_guard<std::mutex> lock(world.mutex);
        ++world.alive;
    }
    ~Sink() { --world.alive; }
    auto emit(const record_t& r, const blackhole::string_view& text) -> void override {
        std::lock_guard<std::mutex> lock(world.mutex);
        const auto us = std::chrono::duration_cast<std::chrono::microseconds>(r.timestamp().time_since_epoch()).count();
        world.got.push_back({id, str(text), static_cast<int>(r.severity()), str(r.message()), str(r.formatted()),
                             plain(flatten(r.attributes())), us, text.data()});
        if (world.failing == id) {
            throw failure();
        }
    }
};

void check_event(const Got& g, const Event& e, const std::string& text) {
    CHECK_EQ_STR(g.text, text, "text got by sink " << g.sink);
    CHECK_THAT(g.severity == e.severity, "severity");
    CHECK_EQ_STR(g.message, e.message, "message");
    CHECK_EQ_STR(g.formatted, e.formatted(), "formatted message");
    CHECK_THAT(g.attrs == plain(e.flat()), "attributes " << bh::repr(g.attrs));
    CHECK_THAT(g.us == e.us, "timestamp");
}

PROPERTY(blocking_history, o.quick = 60000; o.thorough = 600000;
         o.rule = "at least two sinks and two events, or an event with a failure") {
    const Foreign foreign(c);
    World world;
    const int sinks = static_cast<int>(c.draw(5));
    std::unique_ptr<blackhole::handler_t> handler;
    {
        blackhole::builder<blackhole::handler::blocking_t> builder;
        const auto at = c.draw(static_cast<std::uint64_t>(sinks));
        for (int i = 0; i <= sinks; ++i) {
            if (static_cast<std::uint64_t>(i) == at) {
                if (c.chance(10)) {
                    // The last one set is the one used.
                    BUILD_STEP(c, builder, set(std::unique_ptr<blackhole::formatter_t>(new Formatter(world))));
                }
                BUILD_STEP(c, builder, set(std::unique_ptr<blackhole::formatter_t>(new Formatter(world))));
            }
            if (i < sinks) {
                BUILD_STEP(c, builder, add(std::unique_ptr<blackhole::sink_t>(new Sink(world, i))));
            }
        }
        handler = std::move(builder).build();
    }
    CHECK_THAT(world.alive == sinks + 1, "parts alive: " << world.alive);
    c.note(std::to_string(sinks) + " sinks");
    const auto n = c.range(1, 6);
    bool failures = false;
    for (std::int64_t i = 0; i < n; ++i) {
        const auto e = gen_event(c);
        world.format_text = c.chance(15) ? c.bytes(1500) : c.utf8(40);
        world.format_fails = c.chance(7);
        world.failing = c.chance(12) && sinks ? static_cast<int>(c.draw(static_cast<std::uint64_t>(sinks - 1))) : -1;
        world.formatted = 0;
        world.got.clear();
        c.note("event " + e.repr() + " formatted as " + pbt::show(world.format_text) +
               (world.format_fails ? " with a failure" : world.failing >= 0 ? " failing sink " + std::to_string(world.failing) : ""));
        Emitted emitted(e);
        bool thrown = false;
        try {
            handler->handle(emitted.record);
        } catch (const failure&) {
            thrown = true;
        }
        CHECK_THAT(world.formatted == 1, "formatted " << world.formatted << " times");
        if (world.format_fails) {
            // Nothing to write then.
            CHECK_THAT(thrown && world.got.empty(), "a failed formatting went unnoticed");
            failures = true;
            continue;
        }
        // What the remaining sinks get after one failed isn't specified.
        const std::size_t least = static_cast<std::size_t>(world.failing >= 0 ? world.failing + 1 : sinks);
        CHECK_THAT(world.got.size() >= least && world.got.size() <= static_cast<std::size_t>(sinks), world.got.size() << " emits");
        CHECK_THAT(thrown == (world.failing >= 0), (thrown ? "an exception from nowhere" : "an exception was lost"));
        failures = failures || thrown;
        for (std::size_t k = 0; k < world.got.size(); ++k) {
            CHECK_THAT(world.got[k].sink == static_cast<int>(k), "sink " << world.got[k].sink << " at " << k);
            check_event(world.got[k], e, world.format_text);
        }
    }
    if ((sinks > 1 && n > 1) || failures) {
        c.nontrivial();
    }
    c.label(failures ? "failures" : "smooth");
    handler.reset();
    CHECK_THAT(world.alive == 0, "parts alive after destruction: " << world.alive);
}

std::string gen_formatter(pbt::Case& c) {
    switch (c.draw(3)) {
    case 0:
        return "{\"type\": \"string\", \"pattern\": " +
            quote(c.pick({std::string("{message}"), std::string("{severity:>8} {timestamp} {process:s} {thread} {message} {...}"),
                          std::string("{timestamp:{%Y-%m-%d %H:%M:%S.%f}s} [{...:{{name}={value}:p}{, :s}>60s}]"),
                          std::string("{timestamp:{%s %f}s} {message}"),
                          std::string("{severity:*^12}{a:{-:default}>3} {message:.10s}")})) +
            ", \"sevmap\": [\"D\", \"I\", \"W\", \"E\"]}";
    case 1: return "{\"type\": \"json\", \"newline\": true, \"unique\": true}";
    case 2:
        return "{\"type\": \"json\", \"routing\": {\"\": [\"message\"], \"/fields\": \"*\"}, \"mapping\": {\"message\": \"@message\"}, "
               "\"mutate\": {\"timestamp\": \"%Y-%m-%dT%H:%M:%S.%fZ\", \"severity\": [\"D\", \"I\"]}}";
    default: return "{\"type\": \"tskv\", \"create\": {\"tskv_format\": \"x\"}, \"mutate\": {\"timestamp\": {\"strftime\": \"%H:%M:%S.%f\"}}}";
    }
}

// Real formatters used by many threads at once.
PROPERTY(blocking_threads, o.quick = 1200; o.thorough = 12000; o.workers = 4; o.hang_s = 60; o.schedule = true;
         o.rule = "at least two threads with three events each") {
    World world;
    const auto sinks = c.range(1, 3);
    const auto json = gen_formatter(c);
    const auto registry = blackhole::registry::configured();
    auto make = [&]() -> std::unique_ptr<blackhole::formatter_t> {
        auto config = parse_config(json);
        const auto type = config->config()["type"].to_string();
        return registry->formatter(*type)(config->config());
    };
    std::unique_ptr<blackhole::handler_t> handler;
    {
        blackhole::builder<blackhole::handler::blocking_t> builder;
        std::unique_ptr<blackhole::formatter_t> formatter;
        try {
            formatter = make();
        } catch (const std::exception& err) {
            pbt::fail(std::string("the formatter was refused: ") + err.what() + " " + json);
        }
        builder.set(std::move(formatter));
        for (int i = 0; i < sinks; ++i) {
            BUILD_STEP(c, builder, add(std::unique_ptr<blackhole::sink_t>(new Sink(world, i))));
        }
        handler = std::move(builder).build();
    }
    const auto threads = c.range(1, 5);
    const auto each = c.range(1, 30);
    c.note("formatter " + json);
    c.note(std::to_string(threads) + " threads with " + std::to_string(each) + " events each");
    std::vector<std::vector<Event>> events(static_cast<std::size_t>(threads));
    std::vector<std::vector<std::unique_ptr<Emitted>>> emitted(events.size());
    std::vector<std::vector<std::string>> texts(events.size());
    std::int64_t id = 0;
    std::map<std::int64_t, std::pair<std::size_t, std::size_t>> whose;
    EventOptions options;
    options.attrs.max = 3;
    for (std::size_t t = 0; t < events.size(); ++t) {
        for (std::int64_t i = 0; i < each; ++i) {
            auto e = gen_event(c, options);
            // Tells the events apart.
            e.us = e.us / 1000 * 1000 + 1 + id % 999;
            e.us += 1000000000ll * (id++);
            whose[e.us] = {t, events[t].size()};
            events[t].push_back(e);
        }
    }
    if (whose.size() != static_cast<std::size_t>(id)) {
        throw pbt::Discard();
    }
    std::mutex mutex;
    std::condition_variable cv;
    std::size_t ready = 0;
    std::vector<std::string> errors(events.size());
    std::vector<std::thread> pool;
    for (std::size_t t = 0; t < events.size(); ++t) {
        pool.emplace_back([&, t] {
            try {
                {
                    // One after another: what each event looks like when nobody interferes.
                    std::unique_lock<std::mutex> lock(mutex);
                    const auto reference = make();
                    for (auto& e : events[t]) {
                        emitted[t].emplace_back(new Emitted(e));
                        blackhole::writer_t writer;
                        reference->format(emitted[t].back()->record, writer);
                        texts[t].push_back(str(writer.result()));
                    }
                    ++ready;
                    cv.notify_all();
                    cv.wait(lock, [&] { return ready >= events.size(); });
                }
                for (auto& e : emitted[t]) {
                    handler->handle(e->record);
                }
            } catch (const std::exception& err) {
                errors[t] = err.what();
                std::lock_guard<std::mutex> lock(mutex);
                ready = events.size();
                cv.notify_all();
            }
        });
    }
    for (auto& t : pool) {
        t.join();
    }
    for (auto& e : errors) {
        CHECK_THAT(e.empty(), "exception " << e);
    }
    CHECK_THAT(world.got.size() == static_cast<std::size_t>(id * sinks), world.got.size() << " emits instead of " << id * sinks);
    std::vector<std::vector<std::size_t>> next(events.size(), std::vector<std::size_t>(static_cast<std::size_t>(sinks), 0));
    for (auto& g : world.got) {
        const auto it = whose.find(g.us);
        CHECK_THAT(it != whose.end(), "an event from nowhere");
        const auto t = it->second.first, i = it->second.second;
        CHECK_THAT(next[t][static_cast<std::size_t>(g.sink)]++ == i, "sink " << g.sink << " got events out of order");
        check_event(g, events[t][i], texts[t][i]);
    }
    if (threads > 1 && each > 2) {
        c.nontrivial();
    }
}

PROPERTY(severity_filter, o.quick = 160000; o.thorough = 800000; o.rule = "a severity within one of the threshold or an extreme one") {
    const Foreign foreign(c);
    const blackhole::factory<blackhole::filter::severity_t> factory;
    if (c.chance(10)) {
        const std::string json = c.pick({std::string("{}"), std::string("{\"threshold\": \"1\"}"), std::string("{\"threshold\": null}"),
            std::string("{\"threshold\": true}"), std::string("{\"threshold\": 1.5}"), std::string("{\"Threshold\": 1}"),
            std::string("{\"threshold\": [1]}"), std::string("{\"threshold\": {}}"), std::string("{\"type\": \"severity\"}"),
            std::string("[]"), std::string("{\"threshold\": 18446744073709551615}")});
        c.note("refused " + json);
        auto config = parse_config(json);
        bool refused = false;
        try {
            factory.from(config->config());
        } catch (const std::exception&) {
            refused = true;
        }
        CHECK_THAT(refused, "accepted " << json);
        c.label("refused");
        return;
    }
    const std::int64_t threshold = c.chance(60) ? c.range(-5, 5)
        : c.pick<std::int64_t>({INT32_MIN, INT32_MAX, INT64_MIN, INT64_MAX, 4294967296ll, -4294967296ll, 4294967297ll, 2147483648ll,
                                -2147483649ll});
    c.note("threshold " + std::to_string(threshold));
    const std::string json = "{\"type\": \"severity\", \"threshold\": " + std::to_string(threshold) + "}";
    auto config = parse_config(json);
    const auto filter = factory.from(config->config());
    CHECK_THAT(filter, "no filter");
    for (int i = 0; i < 4; ++i) {
        const std::int64_t near = threshold + c.range(-1, 1) * (threshold != INT64_MAX && threshold != INT64_MIN);
        auto e = gen_event(c);
        if (c.chance(70) && near >= INT32_MIN && near <= INT32_MAX) {
            e.severity = static_cast<int>(near);
        }
        Emitted emitted(e);
        const auto action = filter->filter(emitted.record);
        const bool accepts = action != blackhole::filter_t::action_t::deny;
        CHECK_THAT(accepts == (e.severity >= threshold), "severity " << e.severity << " is " << (accepts ? "accepted" : "denied"));
        if (std::abs(static_cast<double>(e.severity) - static_cast<double>(threshold)) <= 1 || threshold > INT32_MAX || threshold < INT32_MIN) {
            c.nontrivial();
        }
    }
}

}  // namespace
