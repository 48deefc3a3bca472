// C18: console sink and developer handler.
#include <array>
#include <atomic>
#include <stdexcept>
#include <iostream>
#include <thread>

#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <termios.h>
#include <unistd.h>

#include <blackhole/filter.hpp>
#include <blackhole/handler/dev.hpp>
#include <blackhole/severity.hpp>
#include <blackhole/sink/console.hpp>
#include <blackhole/termcolor.hpp>

#include "config.hpp"
#include "recordgen.hpp"

#undef stdout
#undef stderr

struct Failing {};

namespace blackhole {
inline namespace v1 {

template<>
struct display_traits<Failing> {
    static auto apply(const Failing&, writer_t& wr) -> void {
        wr.write("unfinished");
        throw std::runtime_error("can not be displayed");
    }
};

}  // namespace v1
}  // namespace blackhole

namespace {

using namespace bh;
using blackhole::sink_t;
using blackhole::termcolor_t;

// A pseudo terminal without any translation.
struct Terminal {
    int master = -1, slave = -1;

    Terminal() {
        master = ::posix_openpt(O_RDWR | O_NOCTTY);
        if (master < 0 || ::grantpt(master) != 0 || ::unlockpt(master) != 0) {
            return;
        }
        char name[128];
        if (::ptsname_r(master, name, sizeof name) != 0) {
            return;
        }
        slave = ::open(name, O_RDWR | O_NOCTTY);
        if (slave < 0) {
            return;
        }
        termios t;
        ::tcgetattr(slave, &t);
        ::cfmakeraw(&t);
        ::tcsetattr(slave, TCSANOW, &t);
    }
    bool valid() const { return slave >= 0 && ::isatty(slave); }
};

Terminal& terminal() {
    static Terminal t;
    return t;
}

std::string drain(int fd, int ms) {
    std::string r;
    char buffer[4096];
    pollfd p = {fd, POLLIN, 0};
    while (::poll(&p, 1, ms) > 0 && (p.revents & POLLIN)) {
        const auto n = ::read(fd, buffer, sizeof buffer);
        if (n <= 0) {
            break;
        }
        r.append(buffer, static_cast<std::size_t>(n));
        ms = 0;
    }
    return r;
}

// Puts something else in place of a standard stream.
class Capture {
    int number;
    int saved;
    int pipe_[2];
    bool tty;

public:
    Capture(int number, bool tty) : number(number), saved(::dup(number)), tty(tty) {
        std::cout.flush();
        if (tty) {
            drain(terminal().master, 0);
            ::dup2(terminal().slave, number);
        } else {
            if (::pipe2(pipe_, O_CLOEXEC | O_NONBLOCK) != 0) {
                std::abort();
            }
            ::fcntl(pipe_[1], F_SETFL, 0);
            ::dup2(pipe_[1], number);
        }
    }
    ~Capture() {
        std::cout.flush();
        ::dup2(saved, number);
        ::close(saved);
        if (!tty) {
            ::close(pipe_[0]);
            ::close(pipe_[1]);
        }
    }
    // What was written so far.
    std::string take(std::size_t expected) {
        const int fd = tty ? terminal().master : pipe_[0];
        std::string r = drain(fd, 0);
        // Terminals deliver asynchronously.
        for (int i = 0; tty && r.size() < expected && i < 200; ++i) {
            r += drain(fd, 5);
        }
        return r;
    }
    int reader() const { return pipe_[0]; }
};

struct Color {
    std::string name;
    termcolor_t color;
    std::string code;  // empty: not coloured
};

const std::vector<Color>& colors() {
    static const std::vector<Color> v = {
        {"default", termcolor_t(), ""},
        {"red", termcolor_t::red(), "31"},
        {"green", termcolor_t::green(), "32"},
        {"yellow", termcolor_t::yellow(), "33"},
        {"blue", termcolor_t::blue(), "34"},
        {"gray", termcolor_t::gray(), "2"},
    };
    return v;
}

// Accepts, denies or does not care.
class modulo_filter : public blackhole::filter_t {
public:
    auto filter(const blackhole::record_t& record) -> action_t override {
        switch ((static_cast<int>(record.severity()) % 3 + 3) % 3) {
        case 0: return action_t::accept;
        case 1: return action_t::deny;
        default: return action_t::neutral;
        }
    }
};

class modulo_factory : public blackhole::factory<blackhole::filter_t> {
public:
    auto type() const noexcept -> const char* override { return "modulo"; }
    auto from(const blackhole::config::node_t&) const -> std::unique_ptr<blackhole::filter_t> override {
        return std::unique_ptr<blackhole::filter_t>(new modulo_filter);
    }
};

typedef blackhole::builder<blackhole::sink::console_t> builder_type;

struct Sink {
    std::unique_ptr<sink_t> sink;
    int stream = 1;
    bool filtered = false;
    std::function<std::size_t(int)> color = [](int) { return 0; };
    std::string what;
};

Sink make(pbt::Case& c) {
    Sink s;
    if (c.chance(30)) {
        s.filtered = c.chance(60);
        auto registry = blackhole::registry::configured();
        registry->add(std::make_shared<modulo_factory>());
        auto config = parse_config(s.filtered ? "{\"type\": \"console\", \"filter\": {\"type\": \"modulo\"}}" : "{\"type\": \"console\"}");
        s.sink = registry->sink("console")(config->config());
        s.what = s.filtered ? "configured with a filter" : "configured";
        return s;
    }
    builder_type b;
    const auto n = c.size(6);
    s.what = "built";
    for (std::size_t i = 0; i < n; ++i) {
        switch (c.weighted({4, 1, 1, 1})) {
        case 0: {
            const int severity = static_cast<int>(c.range(-1, 5));
            const auto k = c.draw(colors().size() - 1);
            if (c.chance(50)) {
                b.colorize(severity, colors()[k].color);
            } else {
                b = std::move(b).colorize(severity, colors()[k].color);
            }
            const auto previous = s.color;
            s.color = [=](int v) { return v == severity ? k : previous(v); };
            s.what += " " + std::to_string(severity) + " in " + colors()[k].name;
            break;
        }
        case 1: {
            const auto shift = c.draw(5);
            auto fn = [=](int v) { return static_cast<std::size_t>(static_cast<unsigned>(v) + shift) % colors().size(); };
            auto wrapped = [=](const blackhole::record_t& record) -> termcolor_t { return colors()[fn(record.severity())].color; };
            if (c.chance(50)) {
                b.colorize(wrapped);
            } else {
                b = std::move(b).colorize(wrapped);
            }
            s.color = fn;
            s.what += " by function +" + std::to_string(shift);
            break;
        }
        case 2:
            if (c.chance(50)) {
                b.stderr();
            } else {
                b = std::move(b).stderr();
            }
            s.stream = 2;
            break;
        default:
            if (c.chance(50)) {
                b.stdout();
            } else {
                b = std::move(b).stdout();
            }
            s.stream = 1;
        }
    }
    s.what += s.stream == 1 ? " to stdout" : " to stderr";
    s.sink = std::move(b).build();
    return s;
}

void send(sink_t& sink, int severity, const std::string& text) {
    Arena arena;
    const auto view = arena.view(text);
    const blackhole::attribute_pack pack;
    const blackhole::string_view message("");
    const blackhole::record_t record(severity, message, pack);
    sink.emit(record, view);
}

// Flags the application may have left in the streams.
struct Flags {
    explicit Flags(pbt::Case& c) {
        if (c.chance(20)) {
            for (auto s : {&std::cout, &std::cerr}) {
                switch (c.draw(2)) {
                case 0: *s << std::hex << std::showbase; break;
                case 1: *s << std::showpos << std::uppercase; break;
                default: *s << std::oct; break;
                }
            }
        }
    }
    ~Flags() {
        for (auto s : {&std::cout, &std::cerr}) {
            std::ios fresh(nullptr);
            s->copyfmt(fresh);
            if (s == &std::cerr) {
                *s << std::unitbuf;
            }
        }
    }
};

}  // namespace

PROPERTY(console_events, o.quick = 240000; o.thorough = 600000;
    o.rule = "up to 12 events of any severity and text through 1-3 console sinks made by the builder (colours by severity, function, both streams) or a "
             "configuration with or without a filter; the streams are pipes or terminals, carrying formatting flags of the application: bytes on either stream; "
             "non-trivial: a coloured line on a terminal or a filtered event")
{
    const Foreign foreign(c);
    const bool tty_out = terminal().valid() && c.chance(40);
    const bool tty_err = terminal().valid() && !tty_out && c.chance(40);
    std::vector<Sink> sinks;
    const auto count = c.range(1, 3);
    for (int i = 0; i < count; ++i) {
        sinks.push_back(make(c));
        c.note(sinks.back().what);
    }
    std::string problem;
    const auto n = c.range(1, 12);
    for (int i = 0; i < n && problem.empty(); ++i) {
        auto& s = sinks[c.draw(sinks.size() - 1)];
        const int severity = static_cast<int>(c.weighted({8, 1}) == 0 ? c.range(-2, 6) : c.pick<int>({INT32_MIN, INT32_MAX}));
        std::string text;
        switch (c.weighted({6, 1, 1})) {
        case 0: text = c.utf8(60); break;
        case 1: text = c.bytes(60); break;
        default: text = std::string(static_cast<std::size_t>(c.range(0, 1500)), 'x');
        }
        const bool tty = s.stream == 1 ? tty_out : tty_err;
        c.note("severity " + std::to_string(severity) + " text " + pbt::show(text.substr(0, 80)) + (tty ? " to a terminal" : ""));
        std::string expected;
        const bool accepted = !s.filtered || (severity % 3 + 3) % 3 != 1;
        if (accepted) {
            const auto& color = colors()[s.color(severity)];
            if (tty && !color.code.empty()) {
                expected = "\033[" + color.code + "m" + text + "\033[0m\n";
                c.label("coloured");
                c.nontrivial();
            } else {
                expected = text + "\n";
            }
        } else {
            c.nontrivial();
            c.label("filtered");
        }
        std::string out, err;
        {
            Flags flags(c);
            Capture stdout_(1, tty_out), stderr_(2, tty_err);
            send(*s.sink, severity, text);
            out = stdout_.take(s.stream == 1 ? expected.size() : 0);
            err = stderr_.take(s.stream == 2 ? expected.size() : 0);
        }
        CHECK_EQ_STR(out, s.stream == 1 ? expected : "", "standard output");
        CHECK_EQ_STR(err, s.stream == 2 ? expected : "", "standard error");
    }
}

PROPERTY(console_threads, o.quick = 4000; o.thorough = 12000; o.schedule = true; o.workers = 4;
    o.rule = "2-4 threads emit through their own or a shared console sink into one stream: lines come out whole, those of a thread in order; non-trivial: always")
{
    const auto threads = static_cast<std::size_t>(c.range(2, 4));
    const auto per = static_cast<std::size_t>(c.range(1, 60));
    const bool shared = c.chance(50);
    const bool err = c.chance(40);
    c.note(std::to_string(threads) + " threads, " + std::to_string(per) + " events" + (shared ? " through one sink" : "") + (err ? " to stderr" : ""));
    std::vector<std::unique_ptr<sink_t>> sinks;
    for (std::size_t t = 0; t < (shared ? 1 : threads); ++t) {
        builder_type b;
        if (err) {
            b.stderr();
        }
        sinks.push_back(std::move(b).build());
    }
    std::string got;
    {
        Capture capture(err ? 2 : 1, false);
        std::atomic<bool> done(false), go(false);
        std::thread reader([&] {
            for (;;) {
                const bool last = done;
                const auto piece = drain(capture.reader(), last ? 0 : 1);
                got += piece;
                if (last && piece.empty()) {
                    break;
                }
            }
        });
        std::vector<std::thread> pool;
        for (std::size_t t = 0; t < threads; ++t) {
            pool.emplace_back([&, t] {
                while (!go) {}
                for (std::size_t i = 0; i < per; ++i) {
                    send(*sinks[shared ? 0 : t], 0, std::to_string(t) + ":" + std::to_string(i) + ":" + std::string((i * 37) % 300, static_cast<char>('a' + t)));
                }
            });
        }
        go = true;
        for (auto& t : pool) {
            t.join();
        }
        done = true;
        reader.join();
    }
    std::vector<std::size_t> next(threads, 0);
    std::istringstream lines(got);
    std::string line;
    while (std::getline(lines, line)) {
        unsigned long t = 0, i = 0;
        int pos = 0;
        CHECK_THAT(std::sscanf(line.c_str(), "%lu:%lu:%n", &t, &i, &pos) == 2 && pos > 0 && t < threads && i < per, "mangled line " << pbt::show(line));
        CHECK_EQ_STR(line.substr(static_cast<std::size_t>(pos)), std::string((i * 37) % 300, static_cast<char>('a' + t)), "line");
        CHECK_THAT(i == next[t], "line " << t << ":" << i << " in place of " << next[t]);
        ++next[t];
    }
    for (auto k : next) {
        CHECK_THAT(k == per, "lines are missing");
    }
    c.nontrivial();
}

namespace {

std::string shown(const Val& v) {
    std::ostringstream s;
    s.imbue(std::locale::classic());
    switch (v.kind) {
    case Kind::null: s << "none"; break;
    case Kind::boolean: s << v.b; break;
    case Kind::sint: s << v.i; break;
    case Kind::uint: s << v.u; break;
    case Kind::real: s << v.d; break;
    case Kind::string:
    case Kind::function: s << v.s; break;
    }
    return s.str();
}

// Removes colour sequences; false if the colour is not reset in the end.
bool plain(const std::string& in, std::string& out) {
    bool reset = true;
    out.clear();
    for (std::size_t i = 0; i < in.size(); ++i) {
        if (in[i] == '\033' && i + 1 < in.size() && in[i + 1] == '[') {
            const auto end = in.find('m', i);
            if (end == std::string::npos) {
                return false;
            }
            reset = in.substr(i, end - i + 1) == "\033[0m";
            i = end;
        } else {
            out += in[i];
        }
    }
    return reset;
}

// What a terminal makes of it: the colour of each character, 0 being the default one.
std::vector<int> colours(const std::string& in) {
    std::vector<int> result;
    int now = 0;
    for (std::size_t i = 0; i < in.size(); ++i) {
        if (in[i] == '\033' && i + 1 < in.size() && in[i + 1] == '[') {
            int code = 0;
            for (i += 2; i < in.size(); ++i) {
                if (in[i] >= '0' && in[i] <= '9') {
                    code = code * 10 + (in[i] - '0');
                    continue;
                }
                if (code == 0 || code == 39) {
                    now = 0;
                } else if (code >= 30 && code <= 37) {
                    now = code;
                }
                code = 0;
                if (in[i] == 'm') {
                    break;
                }
            }
        } else {
            result.push_back(now);
        }
    }
    return result;
}

std::string clean(std::string s) {
    for (auto& ch : s) {
        if (ch == '\033') {
            ch = '^';
        }
    }
    return s;
}

}  // namespace

PROPERTY(dev_events, o.quick = 120000; o.thorough = 600000;
    o.rule = "events with several attribute lists through the developer handler (builder or configuration) into a pipe or a terminal: timestamp, letter of the severity, thread, "
             "process, message and each attribute on its line, colours only on the terminal, right for the severity, off the message and reset at the end; non-trivial: at least two attributes")
{
    const Foreign foreign(c);
    std::unique_ptr<blackhole::handler_t> handler;
    if (c.chance(50)) {
        handler = blackhole::builder<blackhole::experimental::handler::dev_t>().build();
    } else {
        auto registry = blackhole::registry::configured();
        registry->add<blackhole::experimental::handler::dev_t>(*registry);
        auto config = parse_config("{\"type\": \"dev\"}");
        handler = registry->handler("dev")(config->config());
    }
    const bool tty = terminal().valid() && c.chance(40);
    EventOptions o;
    o.message = [](pbt::Case& c) { return clean(c.utf8(40)); };
    o.attrs.string = [](pbt::Case& c) { return clean(c.utf8(20)); };
    o.attrs.key = [](pbt::Case& c) { return c.chance(80) ? c.ident(22) : clean(c.over("abc {}:-.<>", 20)); };
    const auto n = c.range(1, 4);
    for (int i = 0; i < n; ++i) {
        auto e = gen_event(c, o);
        for (auto& l : e.lists) {
            for (auto& a : l) {
                a.val.s = clean(a.val.s);
            }
        }
        c.note(e.repr());
        std::string expected = ref_time("%Y-%m-%d %H:%M:%S.%f", e.us) + " ";
        expected += e.severity >= 0 && e.severity <= 3 ? "DIWE"[e.severity] : 'T';
        std::ostringstream ids;
        ids.imbue(std::locale::classic());
        ids << " " << ::pthread_self() << "/" << ::getpid();
        expected += ids.str() + " - " + e.formatted();
        const auto flat = e.flat();
        for (auto& a : flat) {
            auto name = a.key.substr(0, 16);
            name.resize(16, ' ');
            expected += "\n    " + name + ": " + shown(a.val);
        }
        expected += "\n";
        const bool failing = !tty && c.chance(10);
        if (failing) {
            c.note("after one with an attribute which throws");
        }
        std::string out, stripped;
        {
            const Emitted emitted(e);
            Capture capture(1, tty);
            if (failing) {
                const Failing value;
                blackhole::attribute_list list;
                if (c.chance(50)) {
                    list.emplace_back("before", 42);
                }
                list.emplace_back("failing", value);
                const blackhole::attribute_pack pack{list};
                const blackhole::string_view text("this one fails");
                blackhole::record_t record(1, text, pack);
                record.activate(text);
                try {
                    handler->handle(record);
                } catch (const std::exception&) {
                }
            }
            handler->handle(emitted.record);
            out = capture.take(expected.size());
            if (failing && !tty) {
                // Whatever is left of that event, this one is on lines of its own.
                const auto pos = out.size() < expected.size() ? 0 : out.size() - expected.size();
                CHECK_THAT(pos == 0 || out[pos - 1] == '\n', "an event does not start a line after one which can not be displayed: " << pbt::show(out));
                out.erase(0, pos);
            }
            if (tty) {
                // The colours come on top of that.
                for (int k = 0; k < 200 && (!plain(out, stripped) || stripped.size() < expected.size()); ++k) {
                    out += capture.take(out.size() + 1);
                }
            }
        }
        if (tty) {
            CHECK_THAT(plain(out, stripped), "the colour is not reset after " << pbt::show(out));
            CHECK_THAT(out != stripped, "no colours on a terminal");
            CHECK_EQ_STR(stripped, expected, "standard output without colours");
            const auto seen = colours(out);
            const auto letter = ref_time("%Y-%m-%d %H:%M:%S.%f", e.us).size() + 1;
            CHECK_THAT(seen.size() == expected.size(), "cells");
            for (std::size_t k = 0; k < seen.size(); ++k) {
                if (expected[k] == ' ' || expected[k] == '\n') {
                    continue;
                }
                if (k == letter) {
                    const int wanted = e.severity >= 1 && e.severity <= 3 ? std::array<int, 3>{{32, 33, 31}}[static_cast<std::size_t>(e.severity - 1)] : 0;
                    CHECK_THAT(seen[k] == wanted, "the letter of severity " << e.severity << " has colour " << seen[k] << " in " << pbt::show(out));
                } else if (k < letter || k >= letter + 1 + ids.str().size() + 3) {
                    CHECK_THAT(seen[k] == 0, "text at " << k << " has colour " << seen[k] << " in " << pbt::show(out));
                }
            }
        } else {
            CHECK_EQ_STR(out, expected, "standard output");
        }
        if (flat.size() >= 2) {
            c.nontrivial();
        }
    }
}

PROPERTY(dev_threads, o.quick = 3000; o.thorough = 12000; o.schedule = true; o.workers = 4;
    o.rule = "2-4 threads emit events with up to three attributes through their own or a shared developer handler, some through console sinks: each event comes out whole, those of a thread in order; non-trivial: always")
{
    const auto threads = static_cast<std::size_t>(c.range(2, 4));
    const auto per = static_cast<std::size_t>(c.range(1, 40));
    const bool shared = c.chance(50);
    // The last ones of the threads may use console sinks.
    const auto devs = c.chance(50) ? threads : static_cast<std::size_t>(c.range(1, static_cast<int>(threads) - 1));
    c.note(std::to_string(devs) + " of " + std::to_string(threads) + " threads, " + std::to_string(per) + " events" + (shared ? " through one handler" : ""));
    std::vector<std::unique_ptr<blackhole::handler_t>> handlers;
    for (std::size_t t = 0; t < (shared ? 1 : devs); ++t) {
        handlers.push_back(blackhole::builder<blackhole::experimental::handler::dev_t>().build());
    }
    std::vector<std::unique_ptr<sink_t>> sinks;
    for (std::size_t t = devs; t < threads; ++t) {
        sinks.push_back(builder_type().build());
    }
    const auto message = [](std::size_t t, std::size_t i) {
        return std::to_string(t) + ":" + std::to_string(i) + ":" + std::string((i * 37) % 90, static_cast<char>('a' + t)) + "!";
    };
    const auto value = [](std::size_t t, std::size_t i, std::size_t k) {
        return std::to_string(t) + ":" + std::to_string(i) + ":" + std::to_string(k);
    };
    std::string got;
    {
        Capture capture(1, false);
        std::atomic<bool> done(false), go(false);
        std::thread reader([&] {
            for (;;) {
                const bool last = done;
                const auto piece = drain(capture.reader(), last ? 0 : 1);
                got += piece;
                if (last && piece.empty()) {
                    break;
                }
            }
        });
        std::vector<std::thread> pool;
        for (std::size_t t = 0; t < threads; ++t) {
            pool.emplace_back([&, t] {
                while (!go) {}
                for (std::size_t i = 0; i < per; ++i) {
                    const auto text = message(t, i);
                    if (t >= devs) {
                        send(*sinks[t - devs], 0, text);
                        continue;
                    }
                    std::vector<std::string> values;
                    for (std::size_t k = 0; k < i % 4; ++k) {
                        values.push_back(value(t, i, k));
                    }
                    blackhole::attribute_list list;
                    for (std::size_t k = 0; k < values.size(); ++k) {
                        list.emplace_back("key", blackhole::attribute::view_t(values[k]));
                    }
                    blackhole::attribute_pack pack;
                    pack.emplace_back(list);
                    const blackhole::string_view view(text.data(), text.size());
                    blackhole::record_t record(static_cast<int>(i % 4), view, pack);
                    record.activate(view);
                    handlers[shared ? 0 : t]->handle(record);
                }
            });
        }
        go = true;
        for (auto& t : pool) {
            t.join();
        }
        done = true;
        reader.join();
    }
    std::vector<std::size_t> next(threads, 0);
    std::istringstream lines(got);
    std::string line;
    while (std::getline(lines, line)) {
        const auto at = line.find(" - ");
        unsigned long t = 0, i = 0;
        if (at == std::string::npos) {
            CHECK_THAT(std::sscanf(line.c_str(), "%lu:%lu:", &t, &i) == 2 && t >= devs && t < threads && i < per, "mangled line " << pbt::show(line));
            CHECK_EQ_STR(line, message(t, i), "line");
            CHECK_THAT(i == next[t], "event " << t << ":" << i << " in place of " << next[t]);
            ++next[t];
            continue;
        }
        CHECK_THAT(at != std::string::npos && std::sscanf(line.c_str() + at + 3, "%lu:%lu:", &t, &i) == 2 && t < devs && i < per, "mangled line " << pbt::show(line));
        CHECK_EQ_STR(line.substr(at + 3), message(t, i), "line");
        CHECK_THAT(at > 29 && line[27] == "DIWE"[i % 4] && line.find_first_of(":!", 28) > at, "mangled line " << pbt::show(line));
        CHECK_THAT(i == next[t], "event " << t << ":" << i << " in place of " << next[t]);
        ++next[t];
        for (std::size_t k = 0; k < i % 4; ++k) {
            CHECK_THAT(std::getline(lines, line), "no attribute " << k << " of " << t << ":" << i);
            CHECK_EQ_STR(line, "    key             : " + value(t, i, k), "attribute");
        }
    }
    for (auto k : next) {
        CHECK_THAT(k == per, "events are missing");
    }
    c.nontrivial();
}
