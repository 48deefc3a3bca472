// C06: overflow policies, failures of the wrapped sink and options of asynchronous sinks.
#include <sstream>

#include "async.hpp"

PROPERTY(drop_overflow, o.quick = 4000; o.thorough = 60000;
    o.rule = "the consumer is held inside the wrapped sink, then more events are emitted under the drop policy (set through builder or "
             "configuration): exactly the ones which fit are delivered, nothing blocks, and the sink works again afterwards; non-trivial: some were dropped")
{
    const int factor = static_cast<int>(c.range(2, 8));
    const std::size_t capacity = 1u << factor;
    const int how = static_cast<int>(c.draw(2));
    const std::size_t burst = c.draw(capacity + 20);
    const std::size_t after = c.draw(10);
    c.note("factor " + std::to_string(factor) + " burst " + std::to_string(burst) + " how " + std::to_string(how) + " after " + std::to_string(after));
    auto target = std::make_shared<Target>();
    target->hold();
    std::vector<std::string> expected;
    {
        auto sink = make_async(target, factor, Policy::drop, how);
        auto send = [&](const std::string& text) {
            blackhole::attribute_pack pack;
            const string_view message(text);
            record_t record(0, message, pack);
            sink->emit(record, message);
        };
        send("first");
        expected.push_back("first");
        target->wait_inside();
        for (std::size_t i = 0; i < burst; ++i) {
            send("burst " + std::to_string(i));
            if (i < capacity) {
                expected.push_back("burst " + std::to_string(i));
            }
        }
        const auto size = expected.size();
        target->release();
        while (target->count() < size) {
            std::this_thread::yield();
        }
        for (std::size_t i = 0; i < after; ++i) {
            send("after " + std::to_string(i));
            expected.push_back("after " + std::to_string(i));
            while (target->count() < expected.size()) {
                std::this_thread::yield();
            }
        }
    }
    CHECK_THAT(target->got.size() == expected.size(), target->got.size() << " events were delivered, expected " << expected.size());
    for (std::size_t i = 0; i < expected.size(); ++i) {
        CHECK_EQ_STR(target->got[i].line, expected[i], "delivered line");
    }
    if (burst > capacity) {
        c.nontrivial();
    }
}

PROPERTY(failing_sink, o.quick = 48000; o.thorough = 60000;
    o.rule = "the wrapped sink fails with various exceptions on a generated subset of events under either policy: the application "
             "goes on and the other events are delivered; non-trivial: a failure followed by a delivery")
{
    const int factor = static_cast<int>(c.range(2, 6));
    const int how = static_cast<int>(c.draw(2));
    std::vector<int> failures;
    const auto n = 1 + c.size(20);
    bool nontrivial = false;
    for (std::size_t i = 0; i < n; ++i) {
        failures.push_back(static_cast<int>(c.weighted({3, 1, 1})));
        nontrivial |= i > 0 && failures[i - 1] != 0;
    }
    std::string text;
    for (auto f : failures) {
        text += std::to_string(f);
    }
    c.note("factor " + std::to_string(factor) + " failures " + text);
    auto target = std::make_shared<Target>();
    target->failing = [failures](const std::string& line) { return failures[std::stoul(line)]; };
    {
        auto sink = make_async(target, factor, Policy::wait, how);
        for (std::size_t i = 0; i < n; ++i) {
            const auto line = std::to_string(i);
            blackhole::attribute_pack pack;
            const string_view message(line);
            record_t record(0, message, pack);
            sink->emit(record, message);
        }
    }
    CHECK_THAT(target->got.size() == n, target->got.size() << " events were attempted out of " << n);
    for (std::size_t i = 0; i < n; ++i) {
        CHECK_EQ_STR(target->got[i].line, std::to_string(i), "delivered line");
    }
    if (nontrivial) {
        c.nontrivial();
    }
}

PROPERTY(factor_range, o.quick = 12000; o.thorough = 10000;
    o.rule = "queue factor from the whole range through builder or configuration: outside of [2; 20] it is refused with "
             "std::invalid_argument, otherwise the sink works; non-trivial: near or outside of the range")
{
    const int how = static_cast<int>(c.draw(2));
    // The large ones take hundreds of megabytes.
    const auto factor = c.draw(999) == 0 ? c.pick<std::int64_t>({13, 16, 17, 19, 20, 20}) : c.weighted({4, 1, 3}) == 0 ? c.range(0, 12) : c.chance(50) ? c.range(21, 64) : c.pick<std::int64_t>({0, 1, 2, 21, 22, 63, 64, 65, 1000, 1 << 20});
    const auto policy = c.chance(50) ? Policy::wait : Policy::drop;
    c.note("factor " + std::to_string(factor) + " how " + std::to_string(how));
    auto target = std::make_shared<Target>();
    const bool valid = factor >= 2 && factor <= 20;
    // The documentation allows these, the implementation refuses them: either is fine.
    const bool unclear = factor == 0 || factor == 1;
    bool refused = false;
    try {
        auto sink = make_async(target, static_cast<int>(factor), policy, how);
        blackhole::attribute_pack pack;
        const string_view message("-");
        record_t record(0, message, pack);
        sink->emit(record, message);
    } catch (const std::invalid_argument&) {
        refused = true;
    }
    CHECK_THAT(unclear || refused == !valid, "factor " << factor << (refused ? " was refused" : " was accepted"));
    CHECK_THAT(target->got.size() == (refused ? 0 : 1), "events delivered: " << target->got.size());
    if (factor < 3 || factor > 19) {
        c.nontrivial();
    }
}

PROPERTY(policy_names, o.quick = 24000; o.thorough = 20000;
    o.rule = "overflow policy names in the configuration: only \"drop\" and \"wait\" are accepted, any other is refused with "
             "std::invalid_argument; non-trivial: an invalid name")
{
    std::string name = c.pick<std::string>({"drop", "wait", "", "DROP", "drop ", "waits", "wai", "block"});
    if (c.chance(30)) {
        name = c.ident(8);
    }
    c.note(name);
    g_target = std::make_shared<Target>();
    auto registry = blackhole::registry::empty();
    registry->add(std::make_shared<target_factory>());
    const blackhole::factory<blackhole::sink::asynchronous_t> factory(*registry);
    std::istringstream stream("{\"factor\": 3, \"overflow\": \"" + name + "\", \"sink\": {\"type\": \"target\"}}");
    auto config = blackhole::config::factory_traits<blackhole::config::json_t>::construct(stream);
    bool refused = false;
    try {
        factory.from(config->config());
    } catch (const std::invalid_argument&) {
        refused = true;
    }
    const bool valid = name == "drop" || name == "wait";
    CHECK_THAT(refused == !valid, "policy \"" << name << (refused ? "\" was refused" : "\" was accepted"));
    if (!valid) {
        c.nontrivial();
    }
}

PROPERTY(config_defaults, o.quick = 3600; o.thorough = 6000;
    o.rule = "a configuration which leaves out the factor and/or the policy, and a builder told any of them never, once or several times, "
             "behave as with factor 10 and the wait policy unless told otherwise and as told last: events accepted while the "
             "consumer is held are counted; non-trivial: always")
{
    g_target = std::make_shared<Target>();
    auto target = g_target;
    std::size_t factor = 10;
    bool drop = false;
    std::function<std::unique_ptr<sink_t>()> make;
    typedef blackhole::builder<blackhole::sink::asynchronous_t> builder_type;
    auto registry = blackhole::registry::empty();
    registry->add(std::make_shared<target_factory>());
    registry->add<blackhole::sink::asynchronous_t>(*registry);
    std::unique_ptr<builder_type> b;
    if (c.chance(50)) {
        std::string options;
        if (c.chance(50)) {
            factor = 3;
            options += "\"factor\": 3, ";
        }
        if (c.chance(50)) {
            drop = c.chance(50);
            options += drop ? "\"overflow\": \"drop\", " : "\"overflow\": \"wait\", ";
        }
        c.note("configuration " + options);
        make = [&registry, options] {
            std::istringstream stream("{\"type\": \"asynchronous\", " + options + "\"sink\": {\"type\": \"target\"}}");
            auto config = blackhole::config::factory_traits<blackhole::config::json_t>::construct(stream);
            return registry->sink("asynchronous")(config->config());
        };
    } else {
        b.reset(new builder_type(std::unique_ptr<sink_t>(new target_sink(target))));
        std::string text;
        for (auto n = c.range(0, 4); n > 0; --n) {
            switch (c.draw(2)) {
            case 0:
                factor = static_cast<std::size_t>(c.range(2, 6));
                text += " factor " + std::to_string(factor);
                BUILD_STEP(c, *b, factor(factor));
                break;
            case 1:
                drop = true;
                text += " drop";
                BUILD_STEP(c, *b, drop());
                break;
            case 2:
                drop = false;
                text += " wait";
                BUILD_STEP(c, *b, wait());
                break;
            }
        }
        c.note("builder" + text);
        make = [&b] { return std::move(*b).build(); };
    }
    const std::size_t capacity = 1u << factor;
    const std::size_t extra = c.draw(30);
    c.note(std::to_string(extra) + " more events than fit");
    target->hold();
    std::size_t total = 0;
    {
        auto sink = make();
        auto send = [&] {
            blackhole::attribute_pack pack;
            const string_view message("-");
            record_t record(0, message, pack);
            sink->emit(record, message);
        };
        send();
        target->wait_inside();
        std::atomic<std::size_t> accepted{0};
        std::thread producer([&] {
            for (std::size_t i = 0; i < capacity + extra; ++i) {
                send();
                ++accepted;
            }
        });
        const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(20);
        while (accepted < (drop ? capacity + extra : capacity) && std::chrono::steady_clock::now() < deadline) {
            std::this_thread::yield();
        }
        if (!drop) {
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
        }
        const std::size_t fit = accepted;
        target->release();
        producer.join();
        CHECK_THAT(fit == (drop ? capacity + extra : capacity), fit << " events were accepted, expected " << (drop ? capacity + extra : capacity));
        total = 1 + capacity + (drop ? 0 : extra);
    }
    CHECK_THAT(target->got.size() == total, target->got.size() << " events were delivered, expected " << total);
    c.nontrivial();
}
