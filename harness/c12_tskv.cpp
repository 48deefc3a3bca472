// C12: TSKV lines.
#include <sstream>
#include <stdexcept>

#include <unistd.h>

#include <boost/optional/optional.hpp>

#include <blackhole/builder.hpp>
#include <blackhole/config/factory.hpp>
#include <blackhole/config/json.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/tskv.hpp>

#include "fmtref.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
typedef blackhole::formatter::tskv_t tskv_t;
typedef std::vector<std::pair<std::string, std::string>> Fields;

std::string unescape(const std::string& s) {
    static const std::string from = "abtnvfre0\\=", to = std::string("\a\b\t\n\v\f\r\x1b\0\\=", 11);
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\') {
            r += s[i];
            continue;
        }
        CHECK_THAT(i + 1 < s.size(), "dangling escape in " << pbt::show(s));
        const auto at = from.find(s[++i]);
        CHECK_THAT(at != std::string::npos, "unknown escape in " << pbt::show(s));
        r += to[at];
    }
    return r;
}

// What a consumer of TSKV does.
Fields parse(const std::string& line) {
    CHECK_THAT(line.find_first_of(std::string("\n\r\0", 3)) == std::string::npos, "not a single line: " << pbt::show(line));
    std::vector<std::string> pieces(1);
    for (char ch : line) {
        if (ch == '\t') {
            pieces.emplace_back();
        } else {
            pieces.back() += ch;
        }
    }
    CHECK_EQ_STR(pieces[0], "tskv", "header");
    Fields r;
    for (std::size_t i = 1; i < pieces.size(); ++i) {
        auto& p = pieces[i];
        std::size_t at = 0;
        while (at < p.size() && p[at] != '=') {
            at += p[at] == '\\' ? 2 : 1;
        }
        CHECK_THAT(at < p.size(), "a field without a value: " << pbt::show(p) << " in " << pbt::show(line));
        r.emplace_back(unescape(p.substr(0, at)), unescape(p.substr(at + 1)));
    }
    return r;
}

struct Options {
    std::map<std::string, std::string> constants, renames;
    struct Time { std::string format; bool utc; };
    std::map<std::string, Time> times;
    std::vector<std::string> removed;
};

Fields expected(const Options& o, const Event& e) {
    Fields r;
    auto add = [&](const std::string& name, const std::string& value) {
        if (std::find(o.removed.begin(), o.removed.end(), name) != o.removed.end()) {
            return;
        }
        const auto it = o.renames.find(name);
        r.emplace_back(it == o.renames.end() ? name : it->second, value);
    };
    for (auto& p : o.constants) {
        add(p.first, p.second);
    }
    auto times = o.times;
    times.insert({"timestamp", {"%Y-%m-%d %H:%M:%S %z", true}});
    for (auto& p : times) {
        add(p.first, ref_time(p.second.format, e.us, !p.second.utc));
    }
    add("severity", std::to_string(e.severity));
    add("pid", std::to_string(::getpid()));
    Spec hex;
    hex.alt = true;
    hex.type = 'x';
    add("tid", hex.integer(false, static_cast<std::uint64_t>(::pthread_self())));
    add("message", e.formatted());
    for (auto& a : e.flat()) {
        add(a.key, Spec()(a.val));
    }
    return r;
}

std::string gen_name(pbt::Case& c) {
    switch (c.weighted({6, 2, 1})) {
    case 0: return c.pick<std::string>({"a", "b", "id", "message", "severity", "timestamp", "pid", "tid", "host", "unixtime", "x=y", "t\tt", "n\nn", "\\", ""});
    case 1: return c.ident(6);
    default: return c.bytes(6);
    }
}

std::string gen_text(pbt::Case& c) {
    switch (c.draw(3)) {
    case 0: return c.over(std::string("ab=\\\t\n\r\0\a\b\v\f\x1bt", 15), 12);
    case 1: return c.bytes(20);
    default: return c.utf8(20);
    }
}

}  // namespace

PROPERTY(tskv_round_trip, o.quick = 250000; o.thorough = 2500000;
    o.rule = "events with arbitrary bytes in messages, names and values and random constants, renames, removals and timestamps through "
             "the builder or a configuration; the line is split and unescaped as a TSKV consumer does and compared field by field; "
             "non-trivial: something has to be escaped and an option acts")
{
    const Foreign foreign(c);
    EventOptions eo;
    eo.attrs.key = gen_name;
    eo.attrs.string = gen_text;
    eo.message = gen_text;
    const auto e = gen_event(c, eo);
    const bool config = c.chance(50);
    // Configurations are text, so that names there are valid UTF-8.
    auto name = [&] { return config ? (c.chance(60) ? c.pick<std::string>({"a", "b", "id", "message", "severity", "timestamp", "pid", "tid", "host", "x=y", "t\tt"}) : c.utf8(5)) : gen_name(c); };
    auto text = [&] { return config ? c.utf8(10) : gen_text(c); };
    Options o;
    for (auto n = c.size(3); n > 0; --n) o.constants[name()] = text();
    for (auto n = c.size(3); n > 0; --n) o.renames[name()] = name();
    for (auto n = c.size(2); n > 0; --n) o.removed.push_back(name());
    for (auto n = c.size(2); n > 0; --n) {
        o.times[c.chance(50) ? "timestamp" : name()] = {c.pick<std::string>({"%s", "%Y-%m-%d", "%H:%M:%S.%f", "%s.%f", "%d\t%m"}), c.chance(50)};
    }
    c.note("event " + e.repr());
    std::string what;
    std::unique_ptr<blackhole::formatter_t> formatter;
    auto list = [&](const std::map<std::string, std::string>& m) {
        std::string r;
        for (auto& p : m) r += (r.empty() ? "" : ",") + quote(p.first) + ":" + quote(p.second);
        return "{" + r + "}";
    };
    std::string json = "{\"create\":" + list(o.constants) + ",\"rename\":" + list(o.renames) + ",\"remove\":[";
    for (std::size_t i = 0; i < o.removed.size(); ++i) json += (i ? "," : "") + quote(o.removed[i]);
    json += "],\"mutate\":{";
    bool first = true;
    for (auto& p : o.times) {
        json += (first ? "" : ",") + quote(p.first) + ":{\"strftime\":" + quote(p.second.format);
        if (!p.second.utc || c.chance(50)) json += std::string(",\"gmtime\":") + (p.second.utc ? "true" : "false");
        json += "}";
        first = false;
    }
    json += "}}";
    c.note((config ? "configuration " : "builder ") + pbt::show(json));
    if (config) {
        std::istringstream stream(json);
        auto cfg = blackhole::config::factory_traits<blackhole::config::json_t>::construct(stream);
        formatter = blackhole::factory<tskv_t>().from(cfg->config());
    } else {
        blackhole::builder<tskv_t> b;
        std::vector<std::vector<std::function<void()>>> steps(4);
        for (auto& p : o.constants) steps[0].push_back([&] { BUILD_STEP(c, b, create(p.first, p.second)); });
        for (auto& p : o.renames) steps[1].push_back([&] { BUILD_STEP(c, b, rename(p.first, p.second)); });
        for (auto& p : o.removed) steps[2].push_back([&] { BUILD_STEP(c, b, remove(p)); });
        for (auto& p : o.times) {
            steps[3].push_back([&] {
                if (p.second.utc && c.chance(50)) {
                    BUILD_STEP(c, b, timestamp(p.first, p.second.format));
                } else {
                    BUILD_STEP(c, b, timestamp(p.first, p.second.format, p.second.utc));
                }
            });
        }
        interleave(c, steps);
        formatter = std::move(b).build();
    }
    ::setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1);
    ::tzset();
    Emitted rec(e);
    blackhole::writer_t wr;
    call(c.chance(4), [&] { formatter->format(rec.record, wr); });
    const auto line = str(wr.result());
    const auto want = expected(o, e);
    ::setenv("TZ", "UTC", 1);
    ::tzset();
    const auto got = parse(line);
    for (std::size_t i = 0; i < got.size() && i < want.size(); ++i) {
        CHECK_EQ_STR(got[i].first, want[i].first, "name of field " << i);
        CHECK_EQ_STR(got[i].second, want[i].second, "value of " << pbt::show(want[i].first));
    }
    CHECK_THAT(got.size() == want.size(), got.size() << " fields instead of " << want.size());
    const bool acts = !o.constants.empty() || !o.renames.empty() || !o.removed.empty() || !o.times.empty();
    if (acts && line.find('\\') != std::string::npos) {
        c.nontrivial();
    }
}
