// C17: the syslog sink passes each event once, as data, with the priority its severity maps to.
#include <cstdarg>

#include <errno.h>
#include <syslog.h>

#include <blackhole/sink/syslog.hpp>

#include "config.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
using blackhole::sink_t;

// The process-wide log as the C library keeps it.
struct Log {
    struct Line {
        int priority;
        std::string text;
        bool tagged;
        std::string tag;
        int option, facility;
    };
    const char* tag = nullptr;
    int option = 0;
    int facility = LOG_USER;
    std::size_t opened = 0, closed = 0;
    std::vector<Line> lines;
} journal;

void record_line(int priority, const char* format, va_list args) {
    char small[256];
    va_list copy;
    va_copy(copy, args);
    const int n = std::vsnprintf(small, sizeof small, format, copy);
    va_end(copy);
    std::string text;
    if (n >= 0) {
        std::vector<char> buffer(static_cast<std::size_t>(n) + 1);
        std::vsnprintf(buffer.data(), buffer.size(), format, args);
        text.assign(buffer.data(), static_cast<std::size_t>(n));
    }
    // The tag is read here: it must be alive.
    journal.lines.push_back({priority, text, journal.tag != nullptr, journal.tag ? journal.tag : "", journal.option, journal.facility});
}

}  // namespace

extern "C" void openlog(const char* tag, int option, int facility) noexcept {
    journal.tag = tag;
    journal.option = option;
    journal.facility = facility;
    ++journal.opened;
}

extern "C" void closelog() noexcept {
    journal.tag = nullptr;
    ++journal.closed;
}

extern "C" void syslog(int priority, const char* format, ...) noexcept {
    va_list args;
    va_start(args, format);
    record_line(priority, format, args);
    va_end(args);
}

extern "C" void vsyslog(int priority, const char* format, va_list args) noexcept {
    record_line(priority, format, args);
}

extern "C" void __syslog_chk(int priority, int, const char* format, ...) noexcept {
    va_list args;
    va_start(args, format);
    record_line(priority, format, args);
    va_end(args);
}

extern "C" void __vsyslog_chk(int priority, int, const char* format, va_list args) noexcept {
    record_line(priority, format, args);
}

namespace {

std::string gen_text(pbt::Case& c) {
    switch (c.weighted({4, 3, 2, 1})) {
    case 0: return c.utf8(60);
    // Like formats.
    case 1: {
        std::string r;
        const auto n = c.range(1, 8);
        for (int i = 0; i < n; ++i) {
            r += c.pick<std::string>({"%s", "%n", "%d", "%%", "%m", "%*d", "%.*s", "%", "100%", "text ", "\n", "%1$s", "{}"});
        }
        return r;
    }
    case 2: return c.bytes(60);
    default: return std::string(static_cast<std::size_t>(c.range(1000, 70000)), 'x') + c.utf8(10);
    }
}

}  // namespace

PROPERTY(syslog_events, o.quick = 240000; o.thorough = 1000000;
    o.rule = "sinks configured with generated mappings (or none) come and go, up to 15 events of any severity and text (formats, any bytes, long ones) in between: "
             "what openlog, syslog and closelog are called with, the identity being read at every syslog call; non-trivial: a text with a percent sign or "
             "a severity outside of the mapping")
{
    const Foreign foreign(c);
    journal = Log();
    struct One {
        std::unique_ptr<sink_t> sink;
        std::vector<int> mapping;
        bool tagged = false;
    };
    std::vector<One> sinks;
    const auto name = std::string(program_invocation_short_name);
    std::size_t made = 0, destroyed = 0;
    const auto n = c.range(1, 15);
    for (int i = 0; i < n; ++i) {
        const auto op = sinks.empty() ? 0 : c.weighted({1, 8, 1});
        if (op == 0) {
            if (sinks.size() == 3) {
                continue;
            }
            One one;
            std::string config = "{\"type\": \"syslog\"";
            const bool mapped = c.chance(85);
            if (mapped) {
                const auto k = c.size(9);
                config += ", \"priorities\": [";
                for (std::size_t p = 0; p < k; ++p) {
                    one.mapping.push_back(static_cast<int>(c.range(0, 7)) | (c.chance(20) ? c.pick<int>({LOG_LOCAL0, LOG_DAEMON, LOG_AUTH}) : 0));
                    config += (p ? ", " : "") + std::to_string(one.mapping.back());
                }
                config += "]";
            }
            config += "}";
            c.note("sink " + config);
            one.sink = sink_from("syslog", config);
            ++made;
            CHECK_THAT(journal.opened == made, "the log is opened " << journal.opened << " times for " << made << " sinks");
            CHECK_THAT(journal.closed == destroyed, "the log is closed as a sink is made");
            one.tagged = true;
            sinks.push_back(std::move(one));
        } else if (op == 1) {
            auto& s = sinks[c.draw(sinks.size() - 1)];
            Event e;
            e.severity = static_cast<int>(c.weighted({6, 1}) == 0 ? c.range(-3, 10) : c.pick<int>({INT32_MIN, INT32_MAX, 255, 256, 65536}));
            e.message = "message";
            const Emitted emitted(e);
            const auto text = gen_text(c);
            c.note("severity " + std::to_string(e.severity) + " text " + pbt::show(text.substr(0, 60)));
            Arena arena;
            journal.lines.clear();
            s.sink->emit(emitted.record, arena.view(text));
            CHECK_THAT(journal.lines.size() == 1, journal.lines.size() << " lines for one event");
            const auto& line = journal.lines[0];
            // The interface of the C library ends texts at the first zero.
            CHECK_EQ_STR(line.text, text.substr(0, text.find('\0')), "text passed to syslog");
            const bool inside = e.severity >= 0 && static_cast<std::size_t>(e.severity) < s.mapping.size();
            const int expected = inside ? s.mapping[static_cast<std::size_t>(e.severity)] : LOG_ERR;
            CHECK_THAT(line.priority == expected, "priority " << line.priority << " in place of " << expected);
            CHECK_THAT((line.option & LOG_PID) && line.facility == LOG_USER, "option " << line.option << " facility " << line.facility);
            // Another sink may have closed the log: the library falls back to the name of the process then.
            if (s.tagged) {
                CHECK_THAT(line.tagged, "the log has no identity");
            }
            if (line.tagged) {
                CHECK_EQ_STR(line.tag, name, "identity");
            }
            if (!inside || text.find('%') != std::string::npos) {
                c.nontrivial();
            }
        } else {
            const auto k = c.draw(sinks.size() - 1);
            c.note("destroy");
            sinks.erase(sinks.begin() + static_cast<long>(k));
            ++destroyed;
            CHECK_THAT(journal.closed == destroyed, "the log is closed " << journal.closed << " times for " << destroyed << " destroyed sinks");
            for (auto& s : sinks) {
                s.tagged = false;
            }
        }
    }
    sinks.clear();
    CHECK_THAT(journal.closed == made && journal.opened == made, "the log is opened " << journal.opened << " and closed " << journal.closed << " times for " << made << " sinks");
}

PROPERTY(syslog_options, o.quick = 160000; o.thorough = 200000;
    o.rule = "configurations whose priorities are not a list of integers are refused and leave the log closed; non-trivial: always")
{
    const Foreign foreign(c);
    journal = Log();
    const auto bad = c.pick<std::string>({"\"text\"", "1.5", "null", "true", "{}", "[1]"});
    std::string list = "[";
    const auto n = c.range(1, 5);
    const auto at = c.range(0, n - 1);
    for (int i = 0; i < n; ++i) {
        list += (i ? ", " : "") + (i == at ? bad : std::to_string(c.range(0, 7)));
    }
    list += "]";
    c.note(list);
    bool thrown = false;
    try {
        sink_from("syslog", "{\"type\": \"syslog\", \"priorities\": " + list + "}");
    } catch (const std::exception&) {
        thrown = true;
    }
    CHECK_THAT(thrown, "the priorities are accepted");
    CHECK_THAT(journal.opened == journal.closed, "the log stays open");
    c.nontrivial();
}
