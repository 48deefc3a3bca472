// C20: loggers built from configurations.
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>

#include <fcntl.h>
#include <unistd.h>

#include <boost/optional/optional.hpp>

#include <blackhole/builder.hpp>
#include <blackhole/formatter/json.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/formatter/tskv.hpp>
#include <blackhole/handler/blocking.hpp>
#include <blackhole/root.hpp>
#include <blackhole/severity.hpp>
#include <blackhole/sink/asynchronous.hpp>
#include <blackhole/sink/console.hpp>
#include <blackhole/sink/file.hpp>

#include "config.hpp"
#include "recordgen.hpp"

#undef stdout
#undef stderr

namespace {

using namespace bh;
using blackhole::filter_t;
using blackhole::formatter_t;
using blackhole::handler_t;
using blackhole::record_t;
using blackhole::root_logger_t;
using blackhole::sink_t;
using blackhole::string_view;

// Where the sinks of the harness put what they get.
struct Journal {
    std::mutex mutex;
    std::vector<std::string> order;                             // of everything from sinks called by the logging thread
    std::map<std::string, std::vector<std::string>> by_tag;     // of the others
};

struct memory_t : public sink_t {
    Journal& journal;
    std::string tag;
    bool ordered;
    memory_t(Journal& journal, std::string tag, bool ordered) : journal(journal), tag(std::move(tag)), ordered(ordered) {}

    void emit(const record_t& record, const string_view& formatted) override {
        const auto text = std::to_string(static_cast<int>(record.severity())) + " " + str(record.message()) + " | " + str(formatted);
        std::lock_guard<std::mutex> lock(journal.mutex);
        if (ordered) {
            journal.order.push_back(tag + ": " + text);
        } else {
            journal.by_tag[tag].push_back(text);
        }
    }
};

struct memory_factory : public blackhole::factory<sink_t> {
    Journal& journal;
    explicit memory_factory(Journal& journal) : journal(journal) {}
    const char* type() const noexcept override { return "memory"; }
    std::unique_ptr<sink_t> from(const blackhole::config::node_t& config) const override {
        return std::unique_ptr<sink_t>(new memory_t(journal, config["tag"].to_string().get(), config["ordered"].to_bool().get()));
    }
};

// What the console sink does with a configured filter.
struct filtered_t : public sink_t {
    std::unique_ptr<sink_t> wrapped;
    std::int64_t threshold;
    filtered_t(std::unique_ptr<sink_t> wrapped, std::int64_t threshold) : wrapped(std::move(wrapped)), threshold(threshold) {}
    void emit(const record_t& record, const string_view& formatted) override {
        if (record.severity() >= threshold) {
            wrapped->emit(record, formatted);
        }
    }
};

struct null_t : public sink_t {
    void emit(const record_t&, const string_view&) override {}
};

typedef std::vector<std::pair<std::string, std::string>> Members;

std::string object(pbt::Case& c, Members members) {
    // Their order means nothing.
    for (std::size_t i = members.size(); i > 1; --i) {
        std::swap(members[i - 1], members[c.draw(i - 1)]);
    }
    std::string r = "{";
    for (auto& m : members) {
        r += (r.size() > 1 ? ", " : "") + quote(m.first) + ": " + m.second;
    }
    return r + "}";
}

std::string array(const std::vector<std::string>& items) {
    std::string r = "[";
    for (auto& i : items) {
        r += (r.size() > 1 ? ", " : "") + i;
    }
    return r + "]";
}

std::vector<std::string> words(pbt::Case& c, std::size_t min, std::size_t max) {
    std::vector<std::string> r;
    for (std::size_t i = min + c.draw(max - min); i > 0; --i) {
        r.push_back(c.chance(80) ? c.ident(6) : c.utf8(6));
    }
    return r;
}

std::vector<std::string> quoted(const std::vector<std::string>& v) {
    std::vector<std::string> r;
    for (auto& s : v) {
        r.push_back(quote(s));
    }
    return r;
}

const std::vector<std::string> KEYS = {"id", "source", "message", "x", "severity", "long_name"};

struct Formatter {
    std::string json;
    std::function<std::unique_ptr<formatter_t>()> make;
};

std::unique_ptr<formatter_t> make_string(const std::string& pattern, bool mapped, const std::vector<std::string>& sevmap) {
    blackhole::builder<blackhole::formatter::string_t> builder(pattern);
    if (mapped) {
        builder.mapping([=](int severity, const std::string& spec, blackhole::writer_t& writer) {
            if (severity >= 0 && static_cast<std::size_t>(severity) < sevmap.size()) {
                writer.write(spec, sevmap[static_cast<std::size_t>(severity)]);
            } else {
                writer.write(spec, severity);
            }
        });
    }
    return std::move(builder).build();
}

Formatter gen_formatter(pbt::Case& c) {
    Formatter f;
    Members m;
    switch (c.weighted({4, 3, 3})) {
    case 0: {
        static const std::vector<std::string> PIECES = {
            "{message}", "{severity}", "{severity:s}", "{severity:d}", "{severity:>7s}", "{timestamp}", "{timestamp:d}", "{timestamp:{%H:%M:%S.%f}s}", "{process:d}",
            "{process:s}", "{thread}", "{id}", "{id:>8}", "{x:{nope:default}s}", "{source:{:default}>5s}", "{id:{42:default}d}", "{...}", "{...:{{name}={value}:p}{, :s}s}",
            "{...:{{value}:p}{;:s}>30s}", "{{", "}}", ": ", "text ", "\xd0\xb6", "\t", "\"", "{message:.3s}", "{message:*^20s}"};
        std::string pattern;
        for (std::size_t i = c.size(6); i > 0; --i) {
            pattern += c.pick(PIECES);
        }
        const bool mapped = c.chance(50);
        const auto sevmap = mapped ? words(c, 0, 5) : std::vector<std::string>();
        m.emplace_back("type", "\"string\"");
        m.emplace_back("pattern", quote(pattern));
        if (mapped) {
            m.emplace_back("sevmap", array(quoted(sevmap)));
        }
        f.make = [=] { return make_string(pattern, mapped, sevmap); };
        c.label("string formatter");
        break;
    }
    case 1: {
        m.emplace_back("type", "\"json\"");
        std::vector<std::function<void(blackhole::builder<blackhole::formatter::json_t>&)>> steps;
        for (auto flag : {0, 1}) {
            if (c.chance(50)) {
                const bool on = c.chance(70);
                m.emplace_back(flag ? "unique" : "newline", on ? "true" : "false");
                if (on) {
                    steps.push_back([=](blackhole::builder<blackhole::formatter::json_t>& b) { flag ? b.unique() : b.newline(); });
                }
            }
        }
        if (c.chance(40)) {
            Members names;
            std::set<std::string> seen;
            for (std::size_t i = c.size(3); i > 0; --i) {
                const auto from = c.pick(KEYS);
                const auto to = c.ident(6);
                if (seen.insert(from).second) {
                    names.emplace_back(from, quote(to));
                    steps.push_back([=](blackhole::builder<blackhole::formatter::json_t>& b) { b.rename(from, to); });
                }
            }
            m.emplace_back("mapping", object(c, names));
        }
        if (c.chance(30)) {
            Members names;
            const auto name = c.pick(KEYS);
            const auto spec = c.pick({std::string("{}"), std::string("{:>8}"), std::string("<{}>")});
            names.emplace_back(name, quote(spec));
            steps.push_back([=](blackhole::builder<blackhole::formatter::json_t>& b) { b.format(name, spec); });
            m.emplace_back("formatting", object(c, names));
        }
        if (c.chance(40)) {
            // In the order of the names, since the routes are created in the order they are given.
            Members routes;
            std::set<std::string> seen;
            for (const auto& route : {std::string("/a"), std::string("/b/c"), std::string("/d")}) {
                if (!c.chance(60)) {
                    continue;
                }
                std::vector<std::string> names;
                for (std::size_t i = 1 + c.draw(2); i > 0; --i) {
                    const auto name = c.chance(30) ? std::string("timestamp") : c.pick(KEYS);
                    if (seen.insert(name).second) {
                        names.push_back(name);
                    }
                }
                if (names.empty()) {
                    continue;
                }
                routes.emplace_back(route, array(quoted(names)));
                steps.push_back([=](blackhole::builder<blackhole::formatter::json_t>& b) { b.route(route, names); });
            }
            if (c.chance(40)) {
                routes.emplace_back("/rest", "\"*\"");
                steps.push_back([=](blackhole::builder<blackhole::formatter::json_t>& b) { b.route("/rest"); });
            }
            std::string text = "{";
            for (auto& r : routes) {
                text += (text.size() > 1 ? ", " : "") + quote(r.first) + ": " + r.second;
            }
            m.emplace_back("routing", text + "}");
        }
        if (c.chance(50)) {
            Members mutate;
            if (c.chance(70)) {
                const auto pattern = c.pick({std::string("%Y-%m-%d %H:%M:%S.%f"), std::string("%s"), std::string("")});
                mutate.emplace_back("timestamp", quote(pattern));
                steps.push_back([=](blackhole::builder<blackhole::formatter::json_t>& b) { b.timestamp(pattern); });
            }
            if (c.chance(70)) {
                const auto sevmap = words(c, 0, 4);
                mutate.emplace_back("severity", array(quoted(sevmap)));
                steps.push_back([=](blackhole::builder<blackhole::formatter::json_t>& b) { b.severity(sevmap); });
            }
            m.emplace_back("mutate", object(c, mutate));
        }
        f.make = [=] {
            blackhole::builder<blackhole::formatter::json_t> b;
            for (auto& s : steps) {
                s(b);
            }
            return std::move(b).build();
        };
        c.label("json formatter");
        break;
    }
    default: {
        m.emplace_back("type", "\"tskv\"");
        std::vector<std::function<void(blackhole::builder<blackhole::formatter::tskv_t>&)>> steps;
        if (c.chance(60)) {
            Members create;
            std::set<std::string> seen;
            for (std::size_t i = c.size(3); i > 0; --i) {
                const auto key = c.ident(5);
                const auto value = c.utf8(6);
                if (seen.insert(key).second) {
                    create.emplace_back(key, quote(value));
                    steps.push_back([=](blackhole::builder<blackhole::formatter::tskv_t>& b) { b.create(key, value); });
                }
            }
            m.emplace_back("create", object(c, create));
        }
        if (c.chance(50)) {
            Members rename;
            const auto from = c.pick(KEYS);
            const auto to = c.ident(5);
            rename.emplace_back(from, quote(to));
            steps.push_back([=](blackhole::builder<blackhole::formatter::tskv_t>& b) { b.rename(from, to); });
            m.emplace_back("rename", object(c, rename));
        }
        if (c.chance(50)) {
            std::vector<std::string> names;
            for (std::size_t i = c.size(3); i > 0; --i) {
                const auto name = c.chance(20) ? std::string("timezone") : c.pick(KEYS);
                names.push_back(name);
                steps.push_back([=](blackhole::builder<blackhole::formatter::tskv_t>& b) { b.remove(name); });
            }
            m.emplace_back("remove", array(quoted(names)));
        }
        if (c.chance(60)) {
            const auto pattern = c.pick({std::string("%Y-%m-%d %H:%M:%S"), std::string("%H.%f"), std::string("%s")});
            const auto key = c.pick({std::string("timestamp"), std::string("stamp"), std::string("unixtime")});
            Members how;
            how.emplace_back("strftime", quote(pattern));
            const bool given = c.chance(50), gmt = !given || c.chance(50);
            if (given) {
                how.emplace_back("gmtime", gmt ? "true" : "false");
            }
            steps.push_back([=](blackhole::builder<blackhole::formatter::tskv_t>& b) { b.timestamp(key, pattern, gmt); });
            m.emplace_back("mutate", "{" + quote(key) + ": " + object(c, how) + "}");
        }
        f.make = [=] {
            blackhole::builder<blackhole::formatter::tskv_t> b;
            for (auto& s : steps) {
                s(b);
            }
            return std::move(b).build();
        };
        c.label("tskv formatter");
    }
    }
    f.json = object(c, m);
    return f;
}

struct Sink {
    std::string json;
    std::function<std::unique_ptr<sink_t>(Journal&)> make;
};

struct Files {
    std::size_t next = 0;
    std::vector<std::size_t> direct;    // written by the logging thread itself
    std::string configured(std::size_t i) const { return pbt::scratch() + "/c" + std::to_string(i); }
    std::string manual(std::size_t i) const { return pbt::scratch() + "/m" + std::to_string(i); }
};

Sink gen_sink(pbt::Case& c, Files& files, unsigned depth, bool inner = false) {
    Sink s;
    Members m;
    switch (c.weighted({4, 4, 1, inner ? 0u : 3u, depth > 0 ? 3u : 0u})) {
    case 0: {
        const auto tag = "t" + std::to_string(files.next++);
        m.emplace_back("type", "\"memory\"");
        m.emplace_back("tag", quote(tag));
        m.emplace_back("ordered", inner ? "false" : "true");
        s.make = [=](Journal& j) { return std::unique_ptr<sink_t>(new memory_t(j, tag, !inner)); };
        break;
    }
    case 1: {
        const auto n = files.next++;
        const auto path = files.manual(n);
        if (!inner) {
            files.direct.push_back(n);
        }
        m.emplace_back("type", "\"file\"");
        m.emplace_back("path", quote(files.configured(n)));
        const auto flush = c.weighted({2, 2, 2});
        const std::size_t count = 1 + c.draw(4), bytes = 1 + c.draw(200);
        if (flush == 1) {
            m.emplace_back("flush", std::to_string(count));
        } else if (flush == 2) {
            m.emplace_back("flush", quote(std::to_string(bytes) + "B"));
        }
        const bool rotate = c.chance(40);
        if (rotate) {
            m.emplace_back("rotate", "{\"type\": \"stat\"}");
        }
        s.make = [=](Journal&) {
            blackhole::builder<blackhole::sink::file_t> b(path);
            if (flush == 1) {
                b.flush_every(count);
            } else if (flush == 2) {
                b.flush_every(blackhole::bytes_t(bytes));
            }
            if (rotate) {
                b.rotate_checking_stat();
            }
            return std::move(b).build();
        };
        c.label("file sink");
        break;
    }
    case 2:
        m.emplace_back("type", "\"null\"");
        s.make = [=](Journal&) { return std::unique_ptr<sink_t>(new null_t); };
        break;
    case 3: {
        m.emplace_back("type", "\"console\"");
        const bool filter = c.chance(60);
        const auto threshold = filter ? (c.chance(80) ? c.range(-2, 6) : c.pick<std::int64_t>({INT32_MIN, INT32_MAX, INT64_MIN, INT64_MAX, -(1ll << 32), 1ll << 32})) : 0;
        if (filter) {
            Members f;
            f.emplace_back("type", "\"severity\"");
            f.emplace_back("threshold", std::to_string(threshold));
            m.emplace_back("filter", object(c, f));
        }
        s.make = [=](Journal&) -> std::unique_ptr<sink_t> {
            auto console = blackhole::builder<blackhole::sink::console_t>().stdout().build();
            if (filter) {
                return std::unique_ptr<sink_t>(new filtered_t(std::move(console), threshold));
            }
            return console;
        };
        c.label("console sink");
        break;
    }
    default: {
        const auto wrapped = gen_sink(c, files, depth - 1, true);
        m.emplace_back("type", "\"asynchronous\"");
        m.emplace_back("sink", wrapped.json);
        const bool factor = c.chance(50);
        const std::size_t n = 2 + c.draw(8);
        const bool wait = c.chance(50);
        if (factor) {
            m.emplace_back("factor", std::to_string(n));
        }
        if (wait) {
            m.emplace_back("overflow", "\"wait\"");
        }
        s.make = [=](Journal& j) {
            blackhole::builder<blackhole::sink::asynchronous_t> b(wrapped.make(j));
            if (factor) {
                b.factor(n);
            }
            if (wait) {
                b.wait();
            }
            return std::move(b).build();
        };
        c.label("asynchronous sink");
    }
    }
    s.json = object(c, m);
    return s;
}

struct Handler {
    std::string json;
    std::function<std::unique_ptr<handler_t>(Journal&)> make;
};

Handler gen_handler(pbt::Case& c, Files& files) {
    const auto formatter = gen_formatter(c);
    std::vector<Sink> sinks;
    std::vector<std::string> texts;
    for (std::size_t i = c.size(4); i > 0; --i) {
        sinks.push_back(gen_sink(c, files, 2));
        texts.push_back(sinks.back().json);
    }
    Members m;
    if (c.chance(60)) {
        m.emplace_back("type", "\"blocking\"");
    }
    m.emplace_back("formatter", formatter.json);
    m.emplace_back("sinks", array(texts));
    Handler h;
    h.json = object(c, m);
    h.make = [=](Journal& j) {
        blackhole::builder<blackhole::handler::blocking_t> b;
        b.set(formatter.make());
        for (auto& s : sinks) {
            b.add(s.make(j));
        }
        return std::move(b).build();
    };
    return h;
}

class Stdout {
    int saved;
    std::string path;

public:
    explicit Stdout(std::string path) : saved(::dup(1)), path(std::move(path)) {
        std::cout.flush();
        const int fd = ::open(this->path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        ::dup2(fd, 1);
        ::close(fd);
    }
    ~Stdout() {
        std::cout.flush();
        ::dup2(saved, 1);
        ::close(saved);
        ::unlink(path.c_str());
    }
    std::string content() const {
        std::cout.flush();
        std::ifstream f(path, std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    }
};

std::string content(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    if (!f) {
        return "(no file)";
    }
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

void feed(root_logger_t& logger, const std::vector<Event>& events) {
    for (auto& e : events) {
        Arena arena;
        std::vector<blackhole::attribute_list> lists;
        for (auto& l : e.lists) {
            lists.push_back(list_of(l, arena));
        }
        blackhole::attribute_pack pack;
        for (auto& l : lists) {
            pack.push_back(l);
        }
        FakeClock::set_us(e.us);
        if (e.lazy) {
            const auto text = arena.view(e.text, false);
            logger.log(blackhole::severity_t(e.severity), {arena.view(e.message), [&] { return text; }}, pack);
        } else {
            logger.log(blackhole::severity_t(e.severity), arena.view(e.message), pack);
        }
    }
    FakeClock::real();
}

std::string joined(const std::vector<std::string>& v) {
    std::string r;
    for (auto& s : v) {
        r += s + "\n";
    }
    return r;
}

Journal& journal() {
    static Journal j;
    return j;
}

}  // namespace

PROPERTY(configured_loggers, o.quick = 8000; o.thorough = 80000; o.rule = "at least two sinks and two events") {
    const Foreign foreign(c);
    Files files;
    std::map<std::string, std::vector<Handler>> loggers;
    for (std::size_t i = 1 + c.size(2); i > 0; --i) {
        auto& handlers = loggers[c.chance(70) ? c.ident(5) : c.utf8(5)];
        handlers.clear();
        for (std::size_t k = c.size(3); k > 0; --k) {
            handlers.push_back(gen_handler(c, files));
        }
    }
    std::string text = "{";
    for (auto& l : loggers) {
        std::vector<std::string> items;
        for (auto& h : l.second) {
            items.push_back(h.json);
        }
        text += (text.size() > 1 ? ", " : "") + quote(l.first) + ": " + array(items);
    }
    text += "}";
    c.note(text);

    std::vector<Event> events;
    EventOptions o;
    o.attrs.key = [](pbt::Case& c) { return c.chance(70) ? c.pick(KEYS) : c.ident(4); };
    o.attrs.max = 3;
    for (std::size_t i = c.size(6); i > 0; --i) {
        events.push_back(gen_event(c, o));
        c.note(events.back().repr());
    }

    auto registry = blackhole::registry::configured();
    Journal configured, manual;
    registry->add(std::make_shared<memory_factory>(configured));
    std::istringstream stream(text);
    auto builder = registry->builder<blackhole::config::json_t>(stream);
    std::string a, b;
    for (auto& l : loggers) {
        auto logger = builder.build(l.first);
        if (c.chance(20)) {
            // The same once more, dropped right away.
            builder.build(l.first);
        }
        std::vector<std::unique_ptr<handler_t>> handlers;
        for (auto& h : l.second) {
            handlers.push_back(h.make(manual));
        }
        root_logger_t reference(std::move(handlers));
        const auto half = events.begin() + static_cast<long>(c.draw(events.size()));
        for (const auto& part : {std::vector<Event>(events.begin(), half), std::vector<Event>(half, events.end())}) {
            {
                Stdout out(pbt::scratch() + "/stdout");
                feed(logger, part);
                a += out.content();
            }
            {
                Stdout out(pbt::scratch() + "/stdout");
                feed(reference, part);
                b += out.content();
            }
            for (auto i : files.direct) {
                CHECK_EQ_STR(content(files.configured(i)), content(files.manual(i)), "file " << i << " while the loggers are in use");
            }
            if (c.chance(30)) {
                // As rotation would.
                c.label("files removed");
                for (auto i : files.direct) {
                    ::unlink(files.configured(i).c_str());
                    ::unlink(files.manual(i).c_str());
                }
            }
        }
    }
    CHECK_EQ_STR(a, b, "standard output");
    CHECK_EQ_STR(joined(configured.order), joined(manual.order), "what the sinks got");
    CHECK_THAT(configured.by_tag.size() == manual.by_tag.size(), "asynchronous sinks reached: " << configured.by_tag.size() << " and " << manual.by_tag.size());
    for (auto& t : manual.by_tag) {
        CHECK_EQ_STR(joined(configured.by_tag[t.first]), joined(t.second), "what the asynchronous sink " << t.first << " got");
    }
    for (std::size_t i = 0; i < files.next; ++i) {
        const auto x = content(files.configured(i)), y = content(files.manual(i));
        ::unlink(files.configured(i).c_str());
        ::unlink(files.manual(i).c_str());
        CHECK_EQ_STR(x, y, "file " << i);
    }
    if (files.next >= 2 && events.size() >= 2) {
        c.nontrivial();
    }
}

// Configurations with one thing wrong.
PROPERTY(refused_configurations, o.quick = 120000; o.thorough = 100000; o.rule = "the configuration is broken inside of a handler") {
    const Foreign foreign(c);
    Files files;
    const std::string good_formatter = "{\"type\": \"string\", \"pattern\": \"{message}\"}";
    const std::string good_sink = "{\"type\": \"memory\", \"tag\": \"x\", \"ordered\": true}";
    const auto handler = [&](const std::string& formatter, const std::string& sinks) {
        return "{\"type\": \"blocking\", \"formatter\": " + formatter + ", \"sinks\": " + sinks + "}";
    };
    auto not_string = [&] { return c.pick({std::string("null"), std::string("true"), std::string("5"), std::string("1.5"), std::string("[]"), std::string("{}"), std::string("[\"a\"]")}); };
    auto not_array = [&] { return c.pick({std::string("null"), std::string("true"), std::string("5"), std::string("\"x\""), std::string("{}"), std::string("{\"0\": {}}")}); };
    auto not_object = [&] { return c.pick({std::string("null"), std::string("true"), std::string("5"), std::string("\"string\""), std::string("[]")}); };
    auto not_number = [&] { return c.pick({std::string("null"), std::string("true"), std::string("\"5\""), std::string("[]"), std::string("1.5"), std::string("{}")}); };
    std::string unknown = c.chance(50) ? c.pick({std::string("String"), std::string("files"), std::string("blockin"), std::string(""), std::string("fil"), std::string("syslog2"), std::string("{}"), std::string("{0}"),
                                                 std::string("console "), std::string("severity1"), std::string("json\0", 5), std::string("tcp\0x", 5), std::string("udp6")})
                                       : "u" + c.ident(8) + "_";
    std::string sink, formatter = good_formatter, broken, expected;
    bool inside = true;
    switch (c.draw(24)) {
    case 0: broken = handler(good_formatter, "[{\"type\": " + quote(unknown) + "}]"); expected = unknown; break;
    case 1: broken = handler("{\"type\": " + quote(unknown) + ", \"pattern\": \"\"}", "[" + good_sink + "]"); expected = unknown; break;
    case 2: broken = "{\"type\": " + quote(unknown) + ", \"formatter\": " + good_formatter + ", \"sinks\": []}"; expected = unknown; break;
    case 3: sink = "{\"type\": \"console\", \"filter\": {\"type\": " + quote(unknown) + ", \"threshold\": 1}}"; expected = unknown; break;
    case 4: sink = "{\"type\": \"asynchronous\", \"sink\": {\"type\": " + quote(unknown) + "}}"; expected = unknown; break;
    case 5: formatter = c.pick({std::string("{}"), std::string("{\"pattern\": \"{message}\"}"), std::string("{\"type\": ") + not_string() + "}", not_object()}); break;
    case 6: broken = c.pick({std::string("{}"), std::string("{\"sinks\": []}"), std::string("{\"type\": \"blocking\"}"), not_object()}); break;
    case 7: broken = "{\"type\": " + not_string() + ", \"formatter\": " + good_formatter + ", \"sinks\": []}"; break;
    case 8: formatter = c.pick({std::string("{\"type\": \"string\"}"), std::string("{\"type\": \"string\", \"sevmap\": [\"D\"]}"), std::string("{\"type\": \"string\", \"patern\": \"\"}")}); break;
    case 9: formatter = "{\"type\": \"string\", \"pattern\": " + not_string() + "}"; break;
    case 10: formatter = "{\"type\": \"string\", \"pattern\": " + quote(c.pick({std::string("{"), std::string("}"), std::string("{message"), std::string("{-}")})) + "}"; break;
    case 11: formatter = "{\"type\": \"string\", \"pattern\": \"\", \"sevmap\": " + (c.chance(50) ? not_array() : "[\"D\", 5]") + "}"; break;
    case 12: formatter = "{\"type\": \"json\", " + c.pick({std::string("\"routing\": 5"), std::string("\"routing\": {\"/a\": 5}"), std::string("\"mapping\": []"), std::string("\"mapping\": {\"a\": 1}"),
                                                            std::string("\"mutate\": {\"x\": \"y\"}"), std::string("\"mutate\": {\"severity\": \"D\"}"), std::string("\"unique\": \"yes\""),
                                                            std::string("\"newline\": 1"), std::string("\"routing\": {\"/a\": [1]}"), std::string("\"formatting\": {\"a\": 1}")}) + "}"; break;
    case 13: formatter = "{\"type\": \"tskv\", " + c.pick({std::string("\"create\": []"), std::string("\"create\": {\"a\": 1}"), std::string("\"rename\": {\"a\": null}"), std::string("\"remove\": {}"),
                                                            std::string("\"remove\": [1]"), std::string("\"mutate\": {\"timestamp\": {\"strftime\": 5}}"),
                                                            std::string("\"mutate\": {\"timestamp\": {\"strftime\": \"%Y\", \"gmtime\": 1}}"), std::string("\"mutate\": [1]")}) + "}"; break;
    case 14: broken = handler(good_formatter, not_array()); break;
    case 15: sink = c.pick({std::string("{}"), std::string("{\"path\": \"/dev/null\"}"), std::string("{\"type\": ") + not_string() + "}", not_object()}); break;
    case 16: sink = c.pick({std::string("{\"type\": \"file\"}"), std::string("{\"type\": \"file\", \"flush\": 1}"), std::string("{\"type\": \"file\", \"path\": ") + not_string() + "}"}); break;
    case 17: sink = "{\"type\": \"file\", \"path\": \"/dev/null\", " + c.pick({std::string("\"rotate\": {\"type\": \"size\"}"), std::string("\"rotate\": {\"type\": 5}"), std::string("\"flush\": \"many\""),
                                                                               std::string("\"flush\": \"10 PB\"")}) + "}"; break;
    case 18: sink = c.pick({std::string("{\"type\": \"asynchronous\"}"), std::string("{\"type\": \"asynchronous\", \"sink\": {}}"), std::string("{\"type\": \"asynchronous\", \"sink\": ") + not_object() + "}",
                            std::string("{\"type\": \"asynchronous\", \"sink\": {\"type\": ") + not_string() + "}}"}); break;
    case 19: sink = "{\"type\": \"asynchronous\", \"sink\": " + good_sink + ", " + c.pick({std::string("\"factor\": 21"), std::string("\"factor\": -1"), std::string("\"factor\": \"5\""), std::string("\"factor\": 64"),
                                                                                          std::string("\"factor\": 18446744073709551615"), std::string("\"overflow\": \"Drop\""), std::string("\"overflow\": \"\""), std::string("\"overflow\": 1")}) + "}"; break;
    case 20: sink = "{\"type\": \"console\", \"filter\": " + c.pick({std::string("{\"type\": \"severity\"}"), std::string("{\"type\": \"severity\", \"treshold\": 1}"),
                                                                    "{\"type\": \"severity\", \"threshold\": " + not_number() + "}", std::string("{\"type\": \"severity\", \"threshold\": 18446744073709551615}"),
                                                                    std::string("{\"type\": 5}")}) + "}"; break;
    case 21: sink = "{\"type\": " + c.pick({std::string("\"tcp\""), std::string("\"udp\"")}) + c.pick({std::string(""), std::string(", \"host\": \"localhost\""), std::string(", \"port\": 50000"),
                    std::string(", \"host\": 5, \"port\": 50000"), std::string(", \"host\": \"localhost\", \"port\": \"50000\""), std::string(", \"host\": \"localhost\", \"port\": -1"),
                    std::string(", \"host\": \"localhost\", \"port\": 70000")}) + "}"; break;
    case 22: sink = "{\"type\": \"syslog\", \"priorities\": " + (c.chance(50) ? not_array() : "[" + not_number() + "]") + "}"; break;
    default: inside = false;
    }
    const auto depth = c.draw(2);
    std::vector<std::string> items;
    std::string list;
    std::string name = c.chance(80) ? c.ident(5) : c.utf8(5);
    if (inside) {
        if (broken.empty()) {
            for (std::size_t i = sink.empty() ? 0 : depth; i > 0; --i) {
                sink = c.chance(30) ? "{\"type\": \"asynchronous\", \"factor\": 1, \"sink\": " + sink + "}" : sink;
            }
            std::vector<std::string> sinks(c.draw(2), good_sink);
            if (!sink.empty()) {
                sinks.insert(sinks.begin() + static_cast<long>(c.draw(sinks.size())), sink);
            }
            broken = handler(formatter, array(sinks));
        }
        items.assign(c.draw(2), handler(good_formatter, "[" + good_sink + "]"));
        items.insert(items.begin() + static_cast<long>(c.draw(items.size())), broken);
        list = array(items);
        c.nontrivial();
    } else {
        list = c.chance(50) ? not_array() : "";
        c.label(list.empty() ? "unknown logger" : "logger is no list");
    }
    const std::string other = name + "2";
    std::string text = "{" + quote(other) + ": [" + handler(good_formatter, "[" + good_sink + "]") + "]";
    if (!list.empty()) {
        text += ", " + quote(name) + ": " + list;
    }
    text += "}";
    c.note("build " + pbt::show(name) + " of " + text);

    auto registry = blackhole::registry::configured();
    registry->add(std::make_shared<memory_factory>(journal()));
    std::istringstream stream(text);
    auto builder = registry->builder<blackhole::config::json_t>(stream);
    bool refused = false;
    try {
        builder.build(name);
    } catch (const std::exception& err) {
        refused = true;
        const auto shown = expected.substr(0, expected.find('\0'));
        CHECK_THAT(std::string(err.what()).find(shown) != std::string::npos, "refused with " << err.what());
    }
    CHECK_THAT(refused, "wrong configuration accepted");
    // The other one is fine.
    journal().order.clear();
    auto logger = builder.build(other);
    logger.log(0, "text");
    CHECK_EQ_STR(joined(journal().order), "x: 0 text | text\n", "the other logger");
}

// Registrations.
namespace {

struct Made {
    std::string what;
};
Made* last;

struct tagged_sink : public sink_t {
    void emit(const record_t&, const string_view&) override {}
};
struct tagged_filter : public filter_t {
    action_t filter(const record_t&) override { return action_t::neutral; }
};
struct tagged_handler : public handler_t {
    void handle(const record_t&) override {}
};
struct tagged_formatter : public formatter_t {
    void format(const record_t&, blackhole::writer_t&) override {}
};

template<typename T, typename R>
struct tagged_factory : public blackhole::factory<T> {
    std::string name, tag;
    tagged_factory(std::string name, std::string tag) : name(std::move(name)), tag(std::move(tag)) {}
    const char* type() const noexcept override { return name.c_str(); }
    std::unique_ptr<T> from(const blackhole::config::node_t& config) const override {
        last->what = tag + "/" + config["mark"].to_string().get();
        return std::unique_ptr<T>(new R);
    }
};

}  // namespace

PROPERTY(registrations, o.quick = 80000; o.thorough = 200000; o.rule = "some type is registered twice in a category") {
    const Foreign foreign(c);
    static const std::vector<std::string> NAMES = {"file", "string", "blocking", "severity", "mine", "", "json", "tcp", "Mine", "mine ", "console"};
    static const std::map<std::string, std::vector<std::string>> BUILT_IN = {
        {"sink", {"asynchronous", "console", "file", "null", "tcp", "udp", "syslog"}}, {"filter", {"severity"}}, {"formatter", {"json", "string", "tskv"}}, {"handler", {"blocking"}}};
    static const std::vector<std::string> CATEGORIES = {"sink", "filter", "formatter", "handler"};
    const bool empty = c.chance(50);
    auto registry = empty ? blackhole::registry::empty() : blackhole::registry::configured();
    std::map<std::pair<std::string, std::string>, std::string> model;
    if (!empty) {
        for (auto& b : BUILT_IN) {
            for (auto& t : b.second) {
                model[{b.first, t}] = "";
            }
        }
    }
    Made made;
    last = &made;
    const auto config = parse_config("{\"mark\": \"m1\"}");
    std::vector<std::function<void()>> kept;
    for (std::size_t i = 1 + c.size(15); i > 0; --i) {
        const auto category = c.pick(CATEGORIES);
        const auto name = c.pick(NAMES);
        if (c.chance(50)) {
            const auto tag = "r" + std::to_string(i);
            if (category == "sink") {
                registry->add(std::make_shared<tagged_factory<sink_t, tagged_sink>>(name, tag));
            } else if (category == "filter") {
                registry->add(std::make_shared<tagged_factory<filter_t, tagged_filter>>(name, tag));
            } else if (category == "formatter") {
                registry->add(std::make_shared<tagged_factory<formatter_t, tagged_formatter>>(name, tag));
            } else {
                registry->add(std::make_shared<tagged_factory<handler_t, tagged_handler>>(name, tag));
            }
            c.note("register " + category + " " + pbt::show(name) + " as " + tag);
            auto& m = model[{category, name}];
            if (!m.empty()) {
                c.nontrivial();
            }
            m = tag;
        } else {
            const auto it = model.find({category, name});
            c.note("look up " + category + " " + pbt::show(name));
            made.what.clear();
            bool found = true;
            try {
                std::function<void()> use;
                // A built-in one is not run: its configuration would not do.
                const auto& node = config->config();
                if (category == "sink") {
                    auto f = registry->sink(name);
                    use = [f, &node] { f(node); };
                } else if (category == "filter") {
                    auto f = registry->filter(name);
                    use = [f, &node] { f(node); };
                } else if (category == "formatter") {
                    auto f = registry->formatter(name);
                    use = [f, &node] { f(node); };
                } else {
                    auto f = registry->handler(name);
                    use = [f, &node] { f(node); };
                }
                if (it != model.end() && !it->second.empty()) {
                    use();
                    const auto tag = it->second;
                    // What was got earlier stays as it is.
                    kept.push_back([use, tag, &made] {
                        made.what.clear();
                        use();
                        CHECK_EQ_STR(made.what, tag + "/m1", "factory used later");
                    });
                }
            } catch (const std::out_of_range& err) {
                found = false;
                CHECK_THAT(std::string(err.what()).find(name) != std::string::npos, "unhelpful error " << err.what());
            }
            CHECK_THAT(found == (it != model.end()), (found ? "found " : "did not find ") << category << " " << pbt::show(name));
            if (found && !it->second.empty()) {
                CHECK_EQ_STR(made.what, it->second + "/m1", "factory of " << category << " " << name);
            }
        }
    }
    for (auto& k : kept) {
        k();
    }
    // Everything which comes with the library is there, or nothing.
    for (auto& b : BUILT_IN) {
        for (auto& t : b.second) {
            bool found = true;
            try {
                b.first == "sink" ? (void)registry->sink(t) : b.first == "filter" ? (void)registry->filter(t) : b.first == "formatter" ? (void)registry->formatter(t) : (void)registry->handler(t);
            } catch (const std::out_of_range&) {
                found = false;
            }
            CHECK_THAT(found == (model.count({b.first, t}) == 1), (found ? "unexpected " : "missing ") << b.first << " " << t);
        }
    }
}

PROPERTY(partial_builders, o.quick = 16000; o.thorough = 100000;
         o.rule = "loggers of 1-4 handlers (developer ones, blocking ones with a string formatter, with or without a mapping of severities, and up to three "
                  "console sinks, set and added in any order) chained together with partial builders write the same as put together with builders; non-trivial: at least two handlers") {
    const Foreign foreign(c);
    typedef blackhole::experimental::partial_builder<root_logger_t> partial_type;
    typedef blackhole::handler::blocking_t blocking_t;
    typedef blackhole::experimental::handler::dev_t dev_t;
    typedef blackhole::formatter::string_t string_t;
    typedef blackhole::sink::console_t console_t;

    partial_type partial;
    std::vector<std::unique_ptr<handler_t>> handlers;
    const auto n = 1 + c.size(3);
    for (std::size_t i = 0; i < n; ++i) {
        if (c.chance(25)) {
            c.note("dev");
            partial = std::move(partial).handler<dev_t>().build();
            handlers.push_back(blackhole::builder<dev_t>().build());
            continue;
        }
        const auto pattern = c.pick({std::string("{message}"), std::string("{severity:s} {message}"), std::string("{severity:d} {message} {...}"), std::string("{timestamp} {{{message:>8}}}")});
        const bool mapped = c.chance(50);
        const auto before = c.draw(2), after = c.draw(1);
        c.note("blocking " + pattern + (mapped ? " mapped" : "") + " with " + std::to_string(before + after) + " sinks");
        const auto mapping = [](int severity, const std::string& spec, blackhole::writer_t& writer) {
            writer.write(spec, "S" + std::to_string(severity));
        };
        auto handler = std::move(partial).handler<blocking_t>();
        for (std::size_t k = 0; k < before; ++k) {
            handler = std::move(handler).add<console_t>().build();
        }
        if (mapped) {
            handler = std::move(handler).set<string_t>(pattern).mapping(mapping).build();
        } else {
            handler = std::move(handler).set<string_t>(pattern).build();
        }
        for (std::size_t k = 0; k < after; ++k) {
            handler = std::move(handler).add<console_t>().build();
        }
        partial = std::move(handler).build();

        blackhole::builder<blocking_t> b;
        if (mapped) {
            b.set(blackhole::builder<string_t>(pattern).mapping(mapping).build());
        } else {
            b.set(blackhole::builder<string_t>(pattern).build());
        }
        for (std::size_t k = 0; k < before + after; ++k) {
            b.add(blackhole::builder<console_t>().build());
        }
        handlers.push_back(std::move(b).build());
    }
    std::vector<Event> events;
    EventOptions o;
    for (std::size_t i = 1 + c.size(3); i > 0; --i) {
        events.push_back(gen_event(c, o));
        c.note("event " + events.back().repr());
    }
    auto one = std::move(partial).build();
    root_logger_t two(std::move(handlers));
    std::string got, want;
    {
        Stdout capture(pbt::scratch() + "/partial");
        feed(one, events);
        got = capture.content();
    }
    {
        Stdout capture(pbt::scratch() + "/full");
        feed(two, events);
        want = capture.content();
    }
    CHECK_EQ_STR(got, want, "output");
    if (n > 1) {
        c.nontrivial();
    }
}
