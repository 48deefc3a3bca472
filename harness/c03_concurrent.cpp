// C03: concurrent logging, filter replacement and reassignment.
#include <array>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <thread>

#include <blackhole/handler.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/message.hpp>
#include <blackhole/root.hpp>
#include <blackhole/scope/holder.hpp>

#include "bh.hpp"

using namespace bh;
using blackhole::record_t;
using blackhole::root_logger_t;

namespace {

// Cooperative scheduler: exactly one thread runs at a time, control is handed over at gates, which
// sit in the user callbacks the library calls (filter, handler, supplier) and between operations.
class Sched {
    pbt::Case& c;
    std::mutex mutex;
    std::condition_variable cv;
    std::vector<char> runnable;
    int turn = -1;
    static thread_local int self;

    void choose() {
        std::vector<int> ready;
        for (std::size_t i = 0; i < runnable.size(); ++i) {
            if (runnable[i]) {
                ready.push_back(static_cast<int>(i));
            }
        }
        turn = ready.empty() ? -1 : ready.size() == 1 ? ready[0] : ready[c.draw(ready.size() - 1)];
        cv.notify_all();
    }

public:
    unsigned switches = 0;

    Sched(pbt::Case& c, std::size_t threads) : c(c), runnable(threads, 1) {}

    void start() {
        std::lock_guard<std::mutex> lock(mutex);
        choose();
    }

    void enter(int id) {
        self = id;
        std::unique_lock<std::mutex> lock(mutex);
        cv.wait(lock, [&] { return turn == id; });
    }

    void gate() {
        const int id = self;
        if (id < 0) {
            return;
        }
        std::unique_lock<std::mutex> lock(mutex);
        choose();
        if (turn != id) {
            ++switches;
        }
        cv.wait(lock, [&] { return turn == id; });
    }

    void leave() {
        std::lock_guard<std::mutex> lock(mutex);
        runnable[self] = 0;
        self = -1;
        choose();
    }

    static int current() { return self; }
};

thread_local int Sched::self = -1;

struct Op {
    int kind = 0;      // 0 log, 1 lazy log, 2 filter, 3 assign, 4 scope push, 5 scope pop
    int threshold = 0;
    int handlers = 0;
    int severity = 0;
};

struct State {
    int filter;
    int threshold;
    int version;
};

struct Event {
    int thread = 0;
    std::set<int> filters;
    std::vector<std::pair<int, int>> handled;  // (version, index)
    bool verdict = false;
    bool wrong_attrs = false;
};

struct Versions {
    std::map<int, int> handlers;  // version -> number of handlers
    std::map<int, int> alive;     // version -> alive handlers
};

std::vector<Event*> g_current(8);
std::array<std::vector<int>, 8> g_scopes;

class handler : public blackhole::handler_t {
    Sched& sched;
    Versions& versions;
    std::unique_ptr<int> version;
    int index;

public:
    handler(Sched& sched, Versions& versions, int version, int index) :
        sched(sched), versions(versions), version(new int(version)), index(index)
    {
        ++versions.alive[version];
    }
    ~handler() { --versions.alive[*version]; }

    auto handle(const record_t& r) -> void override {
        auto e = g_current[Sched::current()];
        auto check = [&] {
            // The attributes are those of the logging thread's own scopes, newest first.
            const auto attrs = flatten(r.attributes());
            const auto& scopes = g_scopes[Sched::current()];
            if (attrs.size() != scopes.size()) {
                e->wrong_attrs = true;
            }
            for (std::size_t i = 0; i < attrs.size() && i < scopes.size(); ++i) {
                if (attrs[i].val.i != scopes[scopes.size() - 1 - i]) {
                    e->wrong_attrs = true;
                }
            }
        };
        check();
        e->handled.emplace_back(*version, index);
        sched.gate();
        // Anything freed meanwhile is reported by the sanitizer.
        if (*version != e->handled.back().first) {
            e->wrong_attrs = true;
        }
        check();
        if (index == 0 && *version % 3 == 1) {
            throw std::runtime_error("handler failure");
        }
    }
};

}  // namespace

PROPERTY(controlled_schedule, o.quick = 16000; o.thorough = 300000;
    o.rule = "2-4 threads with up to 8 operations each (log, lazy log, filter, assign, scope) under a generated schedule with control "
             "handed over inside filters, suppliers and handlers; non-trivial: an event overlapped a reassignment or filter change")
{
    const int n = static_cast<int>(c.range(2, 4));
    std::vector<std::vector<Op>> scripts(n);
    for (int t = 0; t < n; ++t) {
        const auto k = 1 + c.draw(7);
        for (std::size_t i = 0; i < k; ++i) {
            Op op;
            op.kind = static_cast<int>(c.weighted({6, 2, 2, 3, 2, 1}));
            op.threshold = static_cast<int>(c.range(0, 3));
            op.handlers = static_cast<int>(c.range(0, 3));
            op.severity = static_cast<int>(c.range(0, 4));
            scripts[t].push_back(op);
            c.note("thread " + std::to_string(t) + " op " + std::to_string(op.kind) + " threshold " + std::to_string(op.threshold) +
                " handlers " + std::to_string(op.handlers) + " severity " + std::to_string(op.severity));
        }
    }

    Sched sched(c, n);
    Versions versions;
    std::vector<State> states;
    int next_filter = 0, next_version = 0;
    std::vector<std::string> complaints;
    unsigned overlaps = 0;
    for (auto& s : g_scopes) {
        s.clear();
    }

    auto make_filter = [&](int id, int threshold) -> root_logger_t::filter_t {
        return [&sched, id, threshold](const record_t& r) -> bool {
            auto e = g_current[Sched::current()];
            e->filters.insert(id);
            sched.gate();
            return r.severity() >= threshold;
        };
    };
    auto make_handlers = [&](int version, int count) {
        std::vector<std::unique_ptr<blackhole::handler_t>> handlers;
        versions.handlers[version] = count;
        for (int i = 0; i < count; ++i) {
            handlers.emplace_back(new handler(sched, versions, version, i));
        }
        return handlers;
    };

    {
        root_logger_t log(make_filter(next_filter, 0), make_handlers(next_version, 2));
        states.push_back(State{next_filter++, 0, next_version++});

        std::vector<std::thread> threads;
        for (int t = 0; t < n; ++t) {
            threads.emplace_back([&, t] {
                sched.enter(t);
                std::vector<std::unique_ptr<blackhole::scope::holder_t>> scopes;
                for (auto& op : scripts[t]) {
                    sched.gate();
                    switch (op.kind) {
                    case 0:
                    case 1: {
                        Event e;
                        e.thread = t;
                        g_current[t] = &e;
                        const auto begin = states.size() - 1;
                        unsigned supplied = 0;
                        const std::string text = "text";
                        const blackhole::string_view pattern("pattern");
                        if (op.kind == 0) {
                            log.log(op.severity, pattern);
                        } else {
                            blackhole::attribute_pack pack;
                            blackhole::lazy_message_t lazy{pattern, [&]() -> blackhole::string_view {
                                ++supplied;
                                sched.gate();
                                return text;
                            }};
                            log.log(op.severity, lazy, pack);
                        }
                        const auto end = states.size() - 1;
                        if (end > begin) {
                            ++overlaps;
                        }
                        std::ostringstream what;
                        if (e.filters.size() != 1) {
                            what << "event judged by " << e.filters.size() << " filters";
                        } else if (e.wrong_attrs) {
                            what << "wrong scoped attributes or state seen by a handler";
                        } else {
                            bool explained = false;
                            for (auto i = begin; i <= end && !explained; ++i) {
                                const auto& s = states[i];
                                if (s.filter != *e.filters.begin()) {
                                    continue;
                                }
                                const bool pass = op.severity >= s.threshold;
                                std::vector<std::pair<int, int>> expected;
                                for (int h = 0; pass && h < versions.handlers[s.version]; ++h) {
                                    expected.emplace_back(s.version, h);
                                }
                                explained = e.handled == expected &&
                                    (op.kind == 0 || !(pass && expected.size() > 0) || supplied == 1) && (pass || supplied == 0);
                            }
                            if (!explained) {
                                what << "no single state explains the event: filter f" << *e.filters.begin() << ", handled by";
                                for (auto& h : e.handled) {
                                    what << " v" << h.first << "/" << h.second;
                                }
                                what << ", states";
                                for (auto i = begin; i <= end; ++i) {
                                    what << " (f" << states[i].filter << ", v" << states[i].version << "x" << versions.handlers[states[i].version] << ")";
                                }
                                what << ", supplied " << supplied;
                            }
                        }
                        if (!what.str().empty()) {
                            complaints.push_back(what.str());
                        }
                        g_current[t] = nullptr;
                        break;
                    }
                    case 2: {
                        log.filter(make_filter(next_filter, op.threshold));
                        states.push_back(State{next_filter++, op.threshold, states.back().version});
                        break;
                    }
                    case 3: {
                        log = root_logger_t(make_filter(next_filter, op.threshold), make_handlers(next_version, op.handlers));
                        states.push_back(State{next_filter++, op.threshold, next_version++});
                        break;
                    }
                    case 4: {
                        const int id = static_cast<int>(t * 1000 + scopes.size());
                        scopes.emplace_back(new blackhole::scope::holder_t(log, {{"scope", {id}}}));
                        g_scopes[t].push_back(id);
                        break;
                    }
                    default:
                        if (!scopes.empty()) {
                            scopes.pop_back();
                            g_scopes[t].pop_back();
                        }
                    }
                }
                while (!scopes.empty()) {
                    scopes.pop_back();
                    g_scopes[t].pop_back();
                }
                sched.leave();
            });
        }
        sched.start();
        for (auto& t : threads) {
            t.join();
        }
        CHECK_THAT(complaints.empty(), complaints.front());
        for (auto& v : versions.alive) {
            const int want = v.first == states.back().version ? versions.handlers[v.first] : 0;
            CHECK_THAT(v.second == want, "version " << v.first << " has " << v.second << " handlers alive, expected " << want);
        }
    }
    if (overlaps) {
        c.nontrivial();
        c.label("event overlapped a change");
    }
    if (sched.switches) c.label("switched threads");
}

namespace {

struct Rendezvous {
    std::mutex mutex;
    std::condition_variable cv;
    bool entered = false, done = false;

    // Called by the destructor of the replaced filter: lets the other thread work, but never insists.
    void pause() {
        std::unique_lock<std::mutex> lock(mutex);
        if (entered) {
            return;
        }
        entered = true;
        cv.notify_all();
        cv.wait_for(lock, std::chrono::milliseconds(100), [&] { return done; });
    }
};

struct SlowFilter {
    std::shared_ptr<int> token;
    Rendezvous* meet;
    int verdict;

    bool operator()(const record_t&) const { return verdict != 0; }

    SlowFilter(Rendezvous* meet, int verdict) : token(std::make_shared<int>(0)), meet(meet), verdict(verdict) {}
    SlowFilter(const SlowFilter&) = default;
    ~SlowFilter() {
        if (meet && token.use_count() == 1) {
            meet->pause();
        }
    }
};

struct Counter : public blackhole::handler_t {
    std::atomic<int>& n;
    Counter(std::atomic<int>& n) : n(n) {}
    auto handle(const record_t&) -> void override { ++n; }
};

}  // namespace

// A reassignment that completes while another thread is replacing the filter must not be undone.
PROPERTY(reassign_during_filter, o.quick = 24000; o.thorough = 20000;
    o.rule = "one thread replaces the filter while another one reassigns the logger in the middle of it (inside the destructor of the "
             "replaced filter), then events are logged; non-trivial: the reassignment completed within the replacement")
{
    const bool first = c.chance(50), second = c.chance(50), third = c.chance(50);
    const int handlers = static_cast<int>(c.range(1, 3));
    const int reassigns = static_cast<int>(c.range(1, 3));
    c.note("filters " + std::to_string(first) + std::to_string(second) + std::to_string(third) + " handlers " + std::to_string(handlers) +
        " reassigns " + std::to_string(reassigns));
    std::atomic<int> before{0}, after{0};
    Rendezvous meet;
    std::vector<std::unique_ptr<blackhole::handler_t>> old;
    old.emplace_back(new Counter(before));
    root_logger_t log(SlowFilter(&meet, first), std::move(old));
    bool overlapped = false;

    std::thread other([&] {
        {
            std::unique_lock<std::mutex> lock(meet.mutex);
            meet.cv.wait(lock, [&] { return meet.entered; });
        }
        for (int i = 0; i < reassigns; ++i) {
            std::vector<std::unique_ptr<blackhole::handler_t>> fresh;
            for (int h = 0; h < handlers; ++h) {
                fresh.emplace_back(new Counter(after));
            }
            log = root_logger_t([=](const record_t&) { return third; }, std::move(fresh));
        }
        std::lock_guard<std::mutex> lock(meet.mutex);
        meet.done = true;
        overlapped = true;
        meet.cv.notify_all();
    });
    {
        // The replaced filter must be destroyed for the rendezvous; no other copy is alive here.
        log.filter([=](const record_t&) { return second; });
    }
    {
        // If the destruction is deferred for whatever reason let the other thread go on.
        std::lock_guard<std::mutex> lock(meet.mutex);
        meet.entered = true;
        meet.cv.notify_all();
    }
    other.join();
    log.log(0, "-");
    CHECK_THAT(before == 0, "an event reached handlers replaced by a completed reassignment");
    // Either order of the two operations is fine.
    CHECK_THAT(after == (third ? handlers : 0) || after == (second ? handlers : 0),
        "the event was handled " << after << " times");
    if (overlapped) {
        c.nontrivial();
    }
}

// Free-running threads.
PROPERTY(free_running, o.quick = 4800; o.thorough = 40000; o.schedule = true;
    o.rule = "2-5 free-running threads logging under own scopes against reassigning and filter-changing threads; every event must be "
             "handled by all the handlers of exactly one version; non-trivial: at least two versions served events")
{
    const int loggers = static_cast<int>(c.range(2, 5));
    const int events = static_cast<int>(c.range(20, 300));
    const int reassigns = static_cast<int>(c.range(1, 120));
    const int filters = static_cast<int>(c.range(0, 120));
    const int width = static_cast<int>(c.range(1, 3));
    c.note("loggers " + std::to_string(loggers) + " events " + std::to_string(events) + " reassigns " + std::to_string(reassigns) +
        " filters " + std::to_string(filters) + " handlers " + std::to_string(width));

    struct Slot {
        std::atomic<int> handled{0};
        std::atomic<int> version{-1};
        std::atomic<int> mixed{0};
    };
    std::vector<Slot> slots(loggers * events);
    std::atomic<int> wrong{0};
    std::atomic<int> alive{0};

    struct H : public blackhole::handler_t {
        std::vector<Slot>& slots;
        std::atomic<int>& wrong;
        std::atomic<int>& alive;
        int events;
        int version;
        H(std::vector<Slot>& slots, std::atomic<int>& wrong, std::atomic<int>& alive, int events, int version) :
            slots(slots), wrong(wrong), alive(alive), events(events), version(version)
        {
            ++alive;
        }
        ~H() { --alive; }
        auto handle(const record_t& r) -> void override {
            // The severity carries the identity of the event.
            auto& s = slots[r.severity()];
            int expected = -1;
            if (!s.version.compare_exchange_strong(expected, version) && expected != version) {
                ++s.mixed;
            }
            ++s.handled;
            const auto attrs = flatten(r.attributes());
            if (attrs.size() != 1 || attrs[0].val.i != r.severity() / events) {
                ++wrong;
            }
        }
    };
    auto handlers = [&](int version) {
        std::vector<std::unique_ptr<blackhole::handler_t>> v;
        for (int i = 0; i < width; ++i) {
            v.emplace_back(new H(slots, wrong, alive, events, version));
        }
        return v;
    };
    {
        root_logger_t log(handlers(0));
        std::atomic<bool> go{false};
        std::vector<std::thread> threads;
        for (int t = 0; t < loggers; ++t) {
            threads.emplace_back([&, t] {
                while (!go) {
                    std::this_thread::yield();
                }
                const blackhole::scope::holder_t scope(log, {{"thread", {t}}});
                for (int i = 0; i < events; ++i) {
                    log.log(t * events + i, "-");
                }
            });
        }
        threads.emplace_back([&] {
            while (!go) {
                std::this_thread::yield();
            }
            for (int i = 0; i < reassigns; ++i) {
                log = root_logger_t(handlers(i + 1));
            }
        });
        threads.emplace_back([&] {
            while (!go) {
                std::this_thread::yield();
            }
            for (int i = 0; i < filters; ++i) {
                log.filter([i](const record_t& r) { return r.severity() >= 0 || i < 0; });
            }
        });
        go = true;
        for (auto& t : threads) {
            t.join();
        }
        CHECK_THAT(alive == width, "handlers alive at the end: " << alive << ", expected " << width);
        // After everything settled the last version serves.
        const int last = 0;
        slots[last].handled = 0;
        slots[last].version = -1;
        {
            const blackhole::scope::holder_t scope(log, {{"thread", {0}}});
            log.log(last, "-");
        }
        CHECK_THAT(slots[last].version == reassigns, "after the last reassignment an event went to version " << slots[last].version
            << " in place of " << reassigns);
    }
    std::set<int> used;
    for (std::size_t i = 0; i < slots.size(); ++i) {
        CHECK_THAT(slots[i].handled == width, "event " << i << " was handled " << slots[i].handled << " times, expected " << width);
        CHECK_THAT(slots[i].mixed == 0, "event " << i << " was handled by several versions");
        used.insert(slots[i].version);
    }
    CHECK_THAT(wrong == 0, "foreign or missing scoped attributes in " << wrong << " events");
    CHECK_THAT(alive == 0, "handlers leaked");
    if (used.size() > 1) {
        c.nontrivial();
    }
}

namespace {

// What the callbacks of a logger do to this very logger.
class Reentrant {
    pbt::Case& c;
    int clock = 0;
    int budget;
    int depth = 0;

    struct Install {
        bool assign;
        int begin, end;
    };

    struct Emit {
        int begin, end;
        std::vector<std::pair<int, bool>> filters;   // install and verdict
        std::vector<std::pair<int, int>> handled;    // install and index
    };

    std::vector<Install> installs;
    std::vector<int> handlers;  // of installs
    std::vector<Emit> events;

    struct Guts {
        Reentrant* world;
        const int install;
        bool alive = true;

        Guts(Reentrant* world, int install) : world(world), install(install) {}
        ~Guts() {
            alive = false;
            world->act("destructor of the filter");
        }
    };

    struct Filter {
        std::shared_ptr<Guts> guts;
        bool operator()(const record_t& record) const {
            const auto world = guts->world;
            const auto id = static_cast<std::size_t>(record.severity());
            const bool verdict = (id * 7 + static_cast<std::size_t>(guts->install)) % 4 != 0;
            if (!guts->alive) {
                world->problem = "a filter which is being destroyed is asked";
            }
            world->events[id].filters.emplace_back(guts->install, verdict);
            world->act("filter");
            return verdict;
        }
    };

    struct Handler : blackhole::handler_t {
        Reentrant* world;
        const int install, index;
        bool alive = true;

        Handler(Reentrant* world, int install, int index) : world(world), install(install), index(index) {}
        ~Handler() {
            alive = false;
            world->act("destructor of the handler");
        }
        auto handle(const record_t& record) -> void override {
            if (!alive) {
                world->problem = "a handler which is being destroyed gets an event";
            }
            world->events[static_cast<std::size_t>(record.severity())].handled.emplace_back(install, index);
            world->act("handler");
        }
    };

public:
    std::string problem;
    std::unique_ptr<root_logger_t> log;
    std::size_t nested = 0;

    explicit Reentrant(pbt::Case& c) : c(c), budget(static_cast<int>(c.range(1, 30))) {
        const auto begin = installed(true);
        log.reset(new root_logger_t(filter(begin), list(begin)));
        installs[static_cast<std::size_t>(begin)].end = ++clock;
    }

    ~Reentrant() { budget = 0; }

    void finish() { budget = 0; }

    void act(const char* where) {
        if (budget <= 0 || depth >= 4 || !log || (where && !c.chance(60))) {
            return;
        }
        --budget;
        ++depth;
        if (where) {
            ++nested;
            c.note(std::string(static_cast<std::size_t>(depth), ' ') + "from the " + where);
        }
        switch (c.weighted({4, 3, 2})) {
        case 0: emit(); break;
        case 1: {
            const auto id = installed(false);
            c.note(std::string(static_cast<std::size_t>(depth), ' ') + "filter " + std::to_string(id));
            log->filter(filter(id));
            installs[static_cast<std::size_t>(id)].end = ++clock;
            break;
        }
        case 2: {
            const auto id = installed(true);
            c.note(std::string(static_cast<std::size_t>(depth), ' ') + "logger " + std::to_string(id));
            *log = root_logger_t(filter(id), list(id));
            installs[static_cast<std::size_t>(id)].end = ++clock;
            break;
        }
        }
        --depth;
    }

    void check() const {
        for (std::size_t id = 0; id < events.size(); ++id) {
            auto& e = events[id];
            CHECK_THAT(e.filters.size() == 1, "event " << id << " was judged by " << e.filters.size() << " filters");
            CHECK_THAT(current(e.filters[0].first, e.begin, false), "event " << id << " was judged by the filter " << e.filters[0].first << " out of its time");
            if (!e.filters[0].second) {
                CHECK_THAT(e.handled.empty(), "event " << id << " was rejected but handled");
                continue;
            }
            CHECK_THAT(!e.handled.empty(), "event " << id << " was accepted but not handled");
            const auto config = e.handled[0].first;
            CHECK_THAT(current(config, e.begin, true), "event " << id << " went to the handlers " << config << " out of their time");
            CHECK_THAT(e.handled.size() == static_cast<std::size_t>(handlers[static_cast<std::size_t>(config)]), "event " << id << " was handled " << e.handled.size() << " times");
            for (std::size_t i = 0; i < e.handled.size(); ++i) {
                CHECK_THAT(e.handled[i].first == config && e.handled[i].second == static_cast<int>(i), "event " << id << " reached the handlers in a wrong order");
            }
        }
    }

private:
    int installed(bool assign) {
        installs.push_back({assign, ++clock, 1 << 30});
        handlers.push_back(0);
        return static_cast<int>(installs.size()) - 1;
    }

    root_logger_t::filter_t filter(int id) { return Filter{std::make_shared<Guts>(this, id)}; }

    std::vector<std::unique_ptr<blackhole::handler_t>> list(int id) {
        std::vector<std::unique_ptr<blackhole::handler_t>> r;
        const auto n = static_cast<int>(c.range(1, 3));
        handlers[static_cast<std::size_t>(id)] = n;
        for (int i = 0; i < n; ++i) {
            r.emplace_back(new Handler(this, id, i));
        }
        return r;
    }

    void emit() {
        const auto id = events.size();
        c.note(std::string(static_cast<std::size_t>(depth), ' ') + "event " + std::to_string(id));
        events.push_back({++clock, 0, {}, {}});
        if (c.chance(50)) {
            log->log(static_cast<int>(id), "-");
        } else {
            blackhole::attribute_pack pack;
            const std::string text("text");
            auto supplier = [&]() -> blackhole::string_view {
                act("supplier");
                return text;
            };
            log->log(static_cast<int>(id), blackhole::lazy_message_t{"-", supplier}, pack);
        }
        events[id].end = ++clock;
    }

    // Whether an installation has not been superseded by one which was completed before the moment.
    bool current(int install, int moment, bool assigns) const {
        const auto& self = installs[static_cast<std::size_t>(install)];
        for (auto& other : installs) {
            if ((other.assign || !assigns) && other.begin > self.end && other.end < moment) {
                return false;
            }
        }
        return true;
    }
};

}  // namespace

PROPERTY(reentrant, o.hang_s = 10; o.quick = 60000; o.thorough = 400000;
    o.rule = "filters, handlers, suppliers of messages and destructors of replaced filters and handlers log to, replace the filter of and assign over "
             "the very logger they belong to, up to 30 times and 4 deep: every event is judged and handled by configurations in force, nothing being destroyed is "
             "used and nothing hangs; non-trivial: at least two of these were made from callbacks")
{
    Reentrant world(c);
    const auto n = c.range(1, 10);
    for (int i = 0; i < n; ++i) {
        world.act(nullptr);
    }
    world.finish();
    CHECK_THAT(world.problem.empty(), world.problem);
    world.check();
    if (world.nested >= 2) {
        c.nontrivial();
    }
}
