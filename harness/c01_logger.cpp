// C01/C02: model-based histories over root loggers, wrappers, scopes and threads.
#include <algorithm>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <thread>

#include <pthread.h>
#include <unistd.h>

#include <blackhole/handler.hpp>
#include <blackhole/logger.hpp>
#include <blackhole/message.hpp>
#include <blackhole/root.hpp>
#include <blackhole/builder.hpp>
#include <blackhole/scope/holder.hpp>
#include <blackhole/wrapper.hpp>

#include "bh.hpp"

using namespace bh;
using blackhole::attribute_list;
using blackhole::attribute_pack;
using blackhole::record_t;
using blackhole::root_logger_t;

namespace {

struct Seen {
    int handler;
    int severity;
    std::string message;
    std::string formatted;
    Attrs attrs;
    std::int64_t stamp;
    pthread_t tid;
};

struct World {
    std::vector<Seen> seen;
    std::set<int> alive;
    std::vector<std::string> complaints;
    blackhole::logger_t* current = nullptr;
};

// What is logged from the inside of a log call.
enum { NESTED = 77 };

enum class Mode { normal, throws, marginal, odd, nested };

class handler : public blackhole::handler_t {
    World& world;
    int id;
    Mode mode;

public:
    handler(World& world, int id, Mode mode) : world(world), id(id), mode(mode) { world.alive.insert(id); }
    ~handler() { world.alive.erase(id); }

    auto handle(const record_t& r) -> void override {
        Seen s;
        s.handler = id;
        s.severity = r.severity();
        s.message = str(r.message());
        s.formatted = str(r.formatted());
        s.attrs = flatten(r.attributes());
        s.stamp = std::chrono::duration_cast<std::chrono::nanoseconds>(r.timestamp().time_since_epoch()).count();
        s.tid = r.tid();
        if (!r.is_active()) {
            world.complaints.push_back("record is not active in a handler");
        }
        if (r.pid() != static_cast<std::uint64_t>(::getpid())) {
            world.complaints.push_back("wrong pid");
        }
        world.seen.push_back(s);
        if (mode == Mode::nested && s.severity != NESTED) {
            world.current->log(NESTED, blackhole::string_view("from a handler"));
        }
        if (mode == Mode::throws || (mode == Mode::odd && s.severity % 2 != 0)) {
            throw std::runtime_error("handler failure");
        }
        if (mode == Mode::marginal) {
            throw 42;
        }
    }
};

// A pure filter over everything that is visible at the filtering stage.
struct FilterSpec {
    int kind = 0;
    int threshold = 0;
    std::string key;

    bool operator()(int severity, const std::string& message, const Attrs& attrs) const {
        switch (kind) {
        case 0: return true;
        case 1: return false;
        case 2: return severity >= threshold;
        case 3: return severity % 2 == 0;
        case 4:
            for (auto& a : attrs) {
                if (a.key == key) {
                    return true;
                }
            }
            return false;
        default: return message.size() % 2 == 0;
        }
    }
    std::string repr() const {
        switch (kind) {
        case 0: return "accept";
        case 1: return "reject";
        case 2: return "severity>=" + std::to_string(threshold);
        case 3: return "even severity";
        case 4: return "has " + key;
        default: return "even length";
        }
    }
};

FilterSpec gen_filter(pbt::Case& c) {
    FilterSpec f;
    f.kind = static_cast<int>(c.weighted({4, 1, 3, 1, 2, 1}));
    if (f.kind == 2) {
        f.threshold = static_cast<int>(c.range(-2, 5));
    }
    if (f.kind == 4) {
        f.key = c.pick<std::string>({"a", "b", "id"});
    }
    return f;
}

root_logger_t::filter_t make_filter(const FilterSpec& spec, World& world) {
    return [spec, &world](const record_t& r) -> bool {
        if (r.is_active()) {
            world.complaints.push_back("record is active before filtering");
        }
        return spec(r.severity(), str(r.message()), flatten(r.attributes()));
    };
}

struct Inner {
    FilterSpec filter;
    std::vector<std::pair<int, Mode>> handlers;
};

// Runs closures one at a time on a dedicated thread.
class Agent {
    std::mutex mutex;
    std::condition_variable cv;
    std::function<void()> job;
    bool stop = false;
    std::exception_ptr error;
    std::thread thread;

public:
    Agent() : thread([this] { loop(); }) {}
    ~Agent() {
        {
            std::lock_guard<std::mutex> lock(mutex);
            stop = true;
        }
        cv.notify_all();
        thread.join();
    }
    void run(std::function<void()> fn) {
        std::unique_lock<std::mutex> lock(mutex);
        job = std::move(fn);
        error = nullptr;
        cv.notify_all();
        cv.wait(lock, [&] { return !job; });
        if (error) {
            std::rethrow_exception(error);
        }
    }

private:
    void loop() {
        std::unique_lock<std::mutex> lock(mutex);
        for (;;) {
            cv.wait(lock, [&] { return stop || job; });
            if (stop) {
                return;
            }
            try {
                job();
            } catch (...) {
                error = std::current_exception();
            }
            job = nullptr;
            cv.notify_all();
        }
    }
};

enum { THREADS = 3 };

struct Scope {
    std::uint64_t number = 0;
    Attrs attrs;
    std::unique_ptr<blackhole::wrapper_t> via;
    std::unique_ptr<blackhole::scope::holder_t> holder;
};

struct Slot {
    std::unique_ptr<root_logger_t> log;
    std::shared_ptr<Inner> inner;     // What it serves; null when moved from.
    std::shared_ptr<Inner> residue;   // What a moved-from object may still keep alive.
    std::vector<std::unique_ptr<Scope>> scopes[THREADS];

    std::size_t total() const { return scopes[0].size() + scopes[1].size() + scopes[2].size(); }
};

struct Machine {
    pbt::Case& c;
    World world;
    std::vector<std::unique_ptr<Slot>> slots;
    std::unique_ptr<Agent> agents[THREADS];
    int next = 0;
    std::int64_t now = 1000000000;
    unsigned scoped_logs = 0, accepted = 0, rejected = 0, moves = 0, throws = 0, foreign = 0, merges = 0, nested = 0;
    std::uint64_t scopes_made = 0;
    std::size_t deepest = 8;
    bool scopes_heavy;

    Machine(pbt::Case& c, bool scopes_heavy) : c(c), scopes_heavy(scopes_heavy) {}

    ~Machine() {
        // Scopes go first, newest first, each on its own thread.
        for (auto& s : slots) {
            for (int t = 0; t < THREADS; ++t) {
                while (!s->scopes[t].empty()) {
                    on(t, [&] { s->scopes[t].pop_back(); });
                }
            }
        }
        slots.clear();
        FakeClock::real();
    }

    void on(int t, std::function<void()> fn) {
        if (t == 0) {
            fn();
        } else {
            if (!agents[t]) {
                agents[t].reset(new Agent);
            }
            agents[t]->run(std::move(fn));
        }
    }

    int thread() { return static_cast<int>(c.weighted({6, 2, 1})); }

    Attrs attrs() {
        GenOptions o;
        o.max = 4;
        o.string = [](pbt::Case& c) { return c.utf8(12); };
        return gen_attrs(c, o);
    }

    Attrs storable() {
        GenOptions o;
        o.max = 4;
        o.functions = false;
        o.string = [](pbt::Case& c) { return c.utf8(40); };
        return gen_attrs(c, o);
    }

    Slot* live(bool moved = false) {
        std::vector<Slot*> v;
        for (auto& s : slots) {
            if (s->inner || moved) {
                v.push_back(s.get());
            }
        }
        return v.empty() ? nullptr : c.pick(v);
    }

    int index(const Slot* s) {
        for (std::size_t i = 0; i < slots.size(); ++i) {
            if (slots[i].get() == s) {
                return static_cast<int>(i);
            }
        }
        return -1;
    }

    std::unique_ptr<root_logger_t> construct(std::shared_ptr<Inner>& inner) {
        inner = std::make_shared<Inner>();
        std::vector<std::unique_ptr<blackhole::handler_t>> handlers;
        std::string text;
        const auto n = c.chance(2) ? c.draw(40) : c.draw(4);
        for (std::size_t i = 0; i < n; ++i) {
            const auto mode = static_cast<Mode>(c.weighted({8, 1, 1, 1, 1}));
            inner->handlers.emplace_back(next, mode);
            handlers.emplace_back(new handler(world, next, mode));
            text += " h" + std::to_string(next) + (mode == Mode::normal ? "" : "!");
            ++next;
        }
        const auto how = c.draw(2);
        if (how == 0) {
            inner->filter = gen_filter(c);
            c.note("  root(" + inner->filter.repr() + "," + text + ")");
            return std::unique_ptr<root_logger_t>(new root_logger_t(make_filter(inner->filter, world), std::move(handlers)));
        }
        c.note(std::string(how == 1 ? "  root(" : "  built(") + text + ")");
        if (how == 1) {
            return std::unique_ptr<root_logger_t>(new root_logger_t(std::move(handlers)));
        }
        blackhole::builder<root_logger_t> b;
        for (auto& h : handlers) {
            if (c.chance(50)) {
                b.add(std::move(h));
            } else {
                b = std::move(b).add(std::move(h));
            }
        }
        return std::move(b).build();
    }

    void create() {
        std::unique_ptr<Slot> s(new Slot);
        s->log = construct(s->inner);
        c.note("create #" + std::to_string(slots.size()));
        slots.push_back(std::move(s));
    }

    void log(Slot& s) {
        const int t = thread();
        const int severity = static_cast<int>(c.weighted({8, 1}) == 0 ? c.range(-1, 5) : c.pick<int>({INT32_MIN, INT32_MAX, -100, 1000}));
        const auto message = c.utf8(30);
        const auto overload = c.draw(2);
        const auto depth = c.chance(2) ? c.draw(12) : c.weighted({5, 3, 2, 1});
        std::vector<Attrs> wrappers;
        for (std::size_t i = 0; i < depth; ++i) {
            wrappers.push_back(storable());
        }
        std::vector<Attrs> own;
        if (overload != 0) {
            const auto n = c.chance(2) ? c.draw(20) : c.weighted({3, 4, 2, 1});
            for (std::size_t i = 0; i < n; ++i) {
                own.push_back(attrs());
            }
        }
        std::string text = c.utf8(20);
        const auto kind = overload == 2 ? c.weighted({6, 1, 1}) : 0;
        now += c.range(1, 1000000);
        FakeClock::set_ns(now * 1000);

        Attrs scoped;
        for (auto it = s.scopes[t].rbegin(); it != s.scopes[t].rend(); ++it) {
            scoped.insert(scoped.end(), (*it)->attrs.begin(), (*it)->attrs.end());
        }
        Attrs expected;
        for (auto& o : own) {
            expected.insert(expected.end(), o.begin(), o.end());
        }
        // The outermost wrapper is the one the user calls.
        for (auto it = wrappers.rbegin(); it != wrappers.rend(); ++it) {
            expected.insert(expected.end(), it->begin(), it->end());
        }
        expected.insert(expected.end(), scoped.begin(), scoped.end());

        c.note("log #" + std::to_string(index(&s)) + " thread " + std::to_string(t) + " severity " + std::to_string(severity) +
            " message " + pbt::show(message) + " overload " + std::to_string(overload) + " wrappers " + std::to_string(depth) + " expects " +
            bh::repr(expected));

        unsigned supplied = 0;
        pthread_t tid{};
        world.seen.clear();
        world.current = s.log.get();
        Arena arena;
        std::vector<attribute_list> lists;
        for (auto& o : own) {
            lists.push_back(list_of(o, arena));
        }
        std::string leaked;
        on(t, [&] {
            tid = ::pthread_self();
            std::vector<std::unique_ptr<blackhole::wrapper_t>> chain;
            blackhole::logger_t* target = s.log.get();
            for (auto& w : wrappers) {
                chain.emplace_back(new blackhole::wrapper_t(*target, owned_of(w)));
                target = chain.back().get();
            }
            attribute_pack pack;
            for (auto& l : lists) {
                pack.push_back(l);
            }
            const auto view = arena.view(message);
            try {
                if (overload == 0) {
                    target->log(severity, view);
                } else if (overload == 1) {
                    target->log(severity, view, pack);
                } else {
                    blackhole::lazy_message_t lazy{view, [&]() -> blackhole::string_view {
                        ++supplied;
                        if (kind == 2) {
                            s.log->log(NESTED, blackhole::string_view("from a supplier"));
                        }
                        // A view without data means that there is no formatted message.
                        return kind == 1 ? blackhole::string_view("", 0) : arena.view(text, false);
                    }};
                    target->log(severity, lazy, pack);
                }
            } catch (...) {
                leaked = "an exception escaped from log()";
            }
        });
        CHECK_THAT(leaked.empty(), leaked);

        const bool pass = s.inner->filter(severity, message, expected);
        const auto formatted = overload == 2 ? (kind == 1 ? std::string() : text) : message;
        CHECK_THAT(world.complaints.empty(), world.complaints.front());
        struct Want {
            int handler;
            const char* nested;
        };
        std::vector<Want> want;
        auto& handlers = s.inner->handlers;
        auto nest = [&](const char* text) {
            if (s.inner->filter(NESTED, text, scoped)) {
                for (auto& h : handlers) {
                    want.push_back(Want{h.first, text});
                }
                ++nested;
            }
        };
        if (pass) {
            if (overload == 2 && kind == 2) {
                nest("from a supplier");
            }
            for (auto& h : handlers) {
                want.push_back(Want{h.first, nullptr});
                if (h.second == Mode::nested) {
                    nest("from a handler");
                }
            }
        }
        CHECK_THAT(world.seen.size() == want.size(), "events reached handlers " << world.seen.size() << " times, expected " << want.size());
        for (std::size_t i = 0; i < world.seen.size(); ++i) {
            auto& e = world.seen[i];
            auto& w = want[i];
            CHECK_THAT(e.handler == w.handler, "handler h" << e.handler << " was called in place of h" << w.handler);
            const int severity_wanted = w.nested ? NESTED : severity;
            const auto& attrs_wanted = w.nested ? scoped : expected;
            CHECK_THAT(e.severity == severity_wanted, "severity " << e.severity << " in place of " << severity_wanted);
            CHECK_EQ_STR(e.message, w.nested ? std::string(w.nested) : message, "message pattern");
            CHECK_EQ_STR(e.formatted, w.nested ? std::string(w.nested) : formatted, "formatted message");
            CHECK_THAT(e.attrs == attrs_wanted, "attributes " << bh::repr(e.attrs) << " in place of " << bh::repr(attrs_wanted));
            CHECK_THAT(e.stamp == now * 1000, "timestamp " << e.stamp << " in place of " << now * 1000);
            CHECK_THAT(::pthread_equal(e.tid, tid), "the thread of the event is not the calling one");
        }
        if (overload == 2) {
            if (pass && !want.empty()) {
                CHECK_THAT(supplied == 1, "the lazy supplier was invoked " << supplied << " times for an accepted event");
            } else if (!pass) {
                CHECK_THAT(supplied == 0, "the lazy supplier was invoked for a rejected event");
            }
        }
        ++(pass ? accepted : rejected);
        for (auto& h : s.inner->handlers) {
            if (pass && h.second != Mode::normal) {
                ++throws;
            }
        }
        if (!s.scopes[t].empty()) {
            ++scoped_logs;
        }
        if (t != 0) {
            ++foreign;
        }
    }

    void push(Slot& s) {
        if (s.total() > deepest) {
            return;
        }
        const int t = thread();
        std::unique_ptr<Scope> scope(new Scope);
        scope->attrs = storable();
        scope->number = scopes_made++;
        const bool via = c.chance(25);
        c.note("scope on #" + std::to_string(index(&s)) + " thread " + std::to_string(t) + (via ? " via wrapper " : " ") + bh::repr(scope->attrs));
        on(t, [&] {
            if (via) {
                blackhole::wrapper_t wrapper(*s.log, {});
                scope->holder.reset(new blackhole::scope::holder_t(wrapper, owned_of(scope->attrs)));
            } else {
                scope->holder.reset(new blackhole::scope::holder_t(*s.log, owned_of(scope->attrs)));
            }
        });
        s.scopes[t].push_back(std::move(scope));
    }

    void pop(Slot& s) {
        const int t = thread();
        if (s.scopes[t].empty()) {
            return;
        }
        c.note("unscope #" + std::to_string(index(&s)) + " thread " + std::to_string(t));
        on(t, [&] { s.scopes[t].pop_back(); });
    }

    void filter(Slot& s) {
        const auto f = gen_filter(c);
        c.note("filter #" + std::to_string(index(&s)) + " := " + f.repr());
        s.log->filter(make_filter(f, world));
        s.inner->filter = f;
    }

    // Moves can carry over the scopes of the moving thread only.
    static bool movable(const Slot& s, int t) {
        for (int i = 0; i < THREADS; ++i) {
            if (i != t && !s.scopes[i].empty()) {
                return false;
            }
        }
        return true;
    }

    void assign(Slot& to) {
        const int t = thread();
        if (c.chance(40)) {
            // The usual way of reloading: a freshly constructed logger.
            c.note("assign #" + std::to_string(index(&to)) + " from a temporary, thread " + std::to_string(t));
            std::shared_ptr<Inner> inner;
            auto fresh = construct(inner);
            on(t, [&] {
                *to.log = std::move(*fresh);
                fresh.reset();
            });
            to.inner = inner;
            to.residue.reset();
            ++moves;
            return;
        }
        auto from = live();
        if (!from || !movable(*from, t)) {
            return;
        }
        if (from == &to) {
            c.note("assign #" + std::to_string(index(&to)) + " to itself, thread " + std::to_string(t));
            on(t, [&] { *to.log = std::move(*from->log); });
            return;
        }
        if (!from->scopes[t].empty() && !to.scopes[t].empty()) {
            ++merges;
        }
        c.note("assign #" + std::to_string(index(&to)) + " from #" + std::to_string(index(from)) + ", thread " + std::to_string(t));
        on(t, [&] { *to.log = std::move(*from->log); });
        to.inner = from->inner;
        to.residue.reset();
        from->residue = from->inner;
        from->inner.reset();
        for (auto& s : from->scopes[t]) {
            to.scopes[t].push_back(std::move(s));
        }
        from->scopes[t].clear();
        // The later a scope was made the more inner it is.
        std::sort(to.scopes[t].begin(), to.scopes[t].end(),
            [](const std::unique_ptr<Scope>& a, const std::unique_ptr<Scope>& b) { return a->number < b->number; });
        ++moves;
    }

    void move(Slot& from) {
        const int t = thread();
        if (!movable(from, t)) {
            return;
        }
        c.note("move #" + std::to_string(index(&from)) + " into #" + std::to_string(slots.size()) + ", thread " + std::to_string(t));
        std::unique_ptr<Slot> s(new Slot);
        on(t, [&] { s->log.reset(new root_logger_t(std::move(*from.log))); });
        s->inner = from.inner;
        from.residue = from.inner;
        from.inner.reset();
        s->scopes[t] = std::move(from.scopes[t]);
        from.scopes[t].clear();
        slots.push_back(std::move(s));
        ++moves;
    }

    void destroy(Slot& s) {
        if (s.total() != 0) {
            return;
        }
        c.note("destroy #" + std::to_string(index(&s)));
        for (auto it = slots.begin(); it != slots.end(); ++it) {
            if (it->get() == &s) {
                slots.erase(it);
                break;
            }
        }
    }

    void check() {
        // Handlers live exactly as long as some logger serves them.
        std::set<int> must, may;
        for (auto& s : slots) {
            for (auto inner : {s->inner, s->residue}) {
                if (inner) {
                    for (auto& h : inner->handlers) {
                        may.insert(h.first);
                        if (inner == s->inner) {
                            must.insert(h.first);
                        }
                    }
                }
            }
        }
        for (auto h : must) {
            CHECK_THAT(world.alive.count(h) == 1, "handler h" << h << " was destroyed while its logger is in use");
        }
        for (auto h : world.alive) {
            CHECK_THAT(may.count(h) == 1, "handler h" << h << " is still alive though no logger refers to it");
        }
    }

    void run() {
        create();
        deepest = c.chance(5) ? 40 : 8;
        const auto n = c.chance(30) ? 3 + c.size(20) : static_cast<std::size_t>(c.range(12, 50));
        for (std::size_t i = 0; i < n; ++i) {
            auto s = live();
            if (!s) {
                create();
                continue;
            }
            const auto op = scopes_heavy ? c.weighted({8, 1, 5, 4, 1, 3, 2, 1}) : c.weighted({10, 3, 1, 1, 1, 2, 1, 1});
            switch (op) {
            case 0: log(*s); break;
            case 1: filter(*s); break;
            case 2: push(*s); break;
            case 3: pop(*s); break;
            case 4: if (slots.size() < 5) { create(); } break;
            case 5: {
                auto to = live(true);
                if (to) {
                    assign(*to);
                }
                break;
            }
            case 6: if (slots.size() < 6) { move(*s); } break;
            default: {
                auto d = live(true);
                if (d && slots.size() > 1) {
                    destroy(*d);
                }
            }
            }
            check();
        }
    }
};

}  // namespace

PROPERTY(dispatch_history, o.quick = 70000; o.thorough = 600000;
    o.rule = "history of up to 50 operations (log through 3 overloads and 0-3 wrappers, filter, move, assign, scope) on up to 6 loggers "
             "and 3 threads against a model; non-trivial: at least one accepted and one rejected event and either a throwing handler or a move")
{
    Machine m(c, false);
    m.run();
    if (m.accepted && m.rejected && (m.throws || m.moves)) {
        c.nontrivial();
    }
    if (m.throws) c.label("throwing handler");
    if (m.moves) c.label("moved logger");
    if (m.rejected) c.label("rejected event");
    if (m.nested) c.label("event logged from a handler or supplier");
    if (m.foreign) c.label("foreign thread");
    if (m.merges) c.label("assigned with scopes on both sides");
}

PROPERTY(scope_history, o.quick = 70000; o.thorough = 600000;
    o.rule = "the same machine weighted towards scoped attributes; non-trivial: at least two events logged under an active scope and a move or foreign thread")
{
    Machine m(c, true);
    m.run();
    if (m.scoped_logs >= 2 && (m.moves || m.foreign)) {
        c.nontrivial();
    }
    if (m.scoped_logs) c.label("logged under scope");
    if (m.moves) c.label("moved logger");
    if (m.foreign) c.label("foreign thread");
    if (m.merges) c.label("assigned with scopes on both sides");
}
