// C10, C11: JSON trees.
#include <sys/syscall.h>
#include <unistd.h>

#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>

#include <boost/optional/optional.hpp>

#include <blackhole/builder.hpp>
#include <blackhole/config/factory.hpp>
#include <blackhole/config/json.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/json.hpp>

#include "fmtref.hpp"
#include "jsonref.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
typedef blackhole::formatter::json_t json_t;

// Expected leaf: either any text, or a double which has to round-trip.
struct Leaf {
    Json json;
    bool real = false;
    double d = 0;
};

struct Tree {
    std::vector<std::pair<std::string, Tree>> members;
    bool object = true;
    Leaf leaf;
};

void compare(const Json& got, const Tree& want, const std::string& path) {
    if (want.object) {
        CHECK_THAT(got.type == Json::object, path << " is not an object");
        for (std::size_t i = 0; i < got.members.size() && i < want.members.size(); ++i) {
            CHECK_THAT(got.members[i].first == want.members[i].first,
                "member " << i << " of " << path << " is " << pbt::show(got.members[i].first) << " instead of " << pbt::show(want.members[i].first));
            compare(got.members[i].second, want.members[i].second, path + "/" + want.members[i].first);
        }
        CHECK_THAT(got.members.size() == want.members.size(), path << " has " << got.members.size() << " members instead of " << want.members.size());
        return;
    }
    const auto& j = want.leaf.json;
    if (want.leaf.real) {
        CHECK_THAT(got.type == Json::number, path << " is not a number");
        const double d = std::strtod(got.s.c_str(), nullptr);
        CHECK_THAT(std::memcmp(&d, &want.leaf.d, sizeof d) == 0, path << " is " << got.s << " instead of " << pbt::str(want.leaf.d));
        return;
    }
    CHECK_THAT(got.type == j.type, path << " has type " << got.type << " instead of " << j.type);
    CHECK_EQ_STR(got.s, j.s, pbt::show(path));
    CHECK_THAT(got.b == j.b, path << " has the opposite value");
}

Leaf leaf_of(const Val& v) {
    Leaf l;
    switch (v.kind) {
    case Kind::null: break;
    case Kind::boolean: l.json.type = Json::boolean; l.json.b = v.b; break;
    case Kind::sint: l.json = Json::num(std::to_string(v.i)); break;
    case Kind::uint: l.json = Json::num(std::to_string(v.u)); break;
    case Kind::real:
        // There are no such numbers in JSON.
        if (std::isfinite(v.d)) {
            l.real = true;
            l.d = v.d;
        }
        break;
    case Kind::string:
    case Kind::function: l.json = Json::text(v.s); break;
    }
    return l;
}

struct Options {
    bool newline = false, unique = false;
    std::vector<std::string> severities;
    bool timestamp = false;
    std::string time_format;
    std::vector<std::pair<std::string, std::string>> renames;                      // original, new
    std::vector<std::pair<std::string, std::vector<std::string>>> routes;         // pointer, names
    bool rest = false;
    std::string rest_route;
    std::vector<std::pair<std::string, Spec>> formats;

    template<typename T>
    static const T* find(const std::vector<std::pair<std::string, T>>& v, const std::string& key) {
        for (auto& p : v) {
            if (p.first == key) {
                return &p.second;
            }
        }
        return nullptr;
    }
};

std::vector<std::string> tokens_of(const std::string& pointer) {
    std::vector<std::string> r;
    for (std::size_t i = 0; i < pointer.size(); ++i) {
        if (pointer[i] == '/') {
            r.emplace_back();
        } else if (pointer[i] == '~') {
            r.back() += pointer[++i] == '0' ? '~' : '/';
        } else {
            r.back() += pointer[i];
        }
    }
    return r;
}

struct Model {
    const Options& o;
    Tree root;
    std::size_t collisions = 0;

    explicit Model(const Options& o) : o(o) {}

    void add(const std::string& name, const Val& v) {
        std::string route = o.rest ? o.rest_route : "";
        for (auto& r : o.routes) {
            for (auto& n : r.second) {
                if (n == name) {
                    route = r.first;
                }
            }
        }
        const auto renamed_to = Options::find(o.renames, name);
        const auto& key = renamed_to ? *renamed_to : name;
        Tree* node = &root;
        for (auto& token : tokens_of(route)) {
            Tree* next = nullptr;
            bool taken = false;
            for (auto& m : node->members) {
                if (m.first == token) {
                    taken = taken || !m.second.object;
                    if (m.second.object && !next) {
                        next = &m.second;
                    }
                }
            }
            collisions += taken;
            if (!next && taken && o.unique) {
                return;
            }
            if (!next) {
                node->members.emplace_back(token, Tree());
                next = &node->members.back().second;
            }
            node = next;
        }
        if (o.unique) {
            for (auto& m : node->members) {
                if (m.first == key) {
                    ++collisions;
                    return;
                }
            }
        }
        Tree leaf;
        leaf.object = false;
        if (const auto spec = Options::find(o.formats, name)) {
            leaf.leaf.json = Json::text((*spec)(v));
        } else {
            leaf.leaf = leaf_of(v);
        }
        node->members.emplace_back(key, leaf);
    }

    void build(const Event& e) {
        auto text = [](const std::string& s) { Val v; v.kind = Kind::string; v.s = s; return v; };
        auto num = [](std::int64_t i) { Val v; v.kind = Kind::sint; v.i = i; return v; };
        auto unum = [](std::uint64_t i) { Val v; v.kind = Kind::uint; v.u = i; return v; };
        add("message", text(e.formatted()));
        add("lwp", unum(static_cast<std::uint64_t>(::syscall(SYS_gettid))));
        Spec hex;
        hex.alt = true;
        hex.type = 'x';
        add("thread", text(hex.integer(false, static_cast<std::uint64_t>(::pthread_self()))));
        add("process", unum(static_cast<std::uint64_t>(::getpid())));
        if (e.severity >= 0 && static_cast<std::size_t>(e.severity) < o.severities.size()) {
            add("severity", text(o.severities[static_cast<std::size_t>(e.severity)]));
        } else {
            add("severity", num(e.severity));
        }
        if (o.timestamp) {
            add("timestamp", text(ref_time(o.time_format, e.us)));
        } else {
            add("timestamp", num(e.us));
        }
        for (auto& a : e.flat()) {
            add(a.key, a.val);
        }
    }
};

void check(blackhole::formatter_t& formatter, const Options& o, const Event& e, const Tree& want) {
    Emitted rec(e);
    blackhole::writer_t wr;
    formatter.format(rec.record, wr);
    auto text = str(wr.result());
    if (o.newline) {
        CHECK_THAT(!text.empty() && text.back() == '\n', "no newline at the end");
        text.pop_back();
    }
    CHECK_THAT(text.find('\n') == std::string::npos, "the tree takes several lines: " << pbt::show(text));
    compare(JsonReader::read(text), want, "");
}

std::string gen_name(pbt::Case& c) {
    return c.weighted({6, 2, 1}) == 0 ? c.pick<std::string>({"a", "b", "id", "fields", "x", "message", "severity", "timestamp", "thread", "process", "lwp", "meta", "a/b", "~"})
        : c.chance(70) ? c.ident(6) : c.utf8(8);
}

Event gen(pbt::Case& c, bool any) {
    EventOptions o;
    o.attrs.max = any ? 14 : 8;
    if (any) {
        o.attrs.key = [](pbt::Case& c) { return c.chance(30) ? gen_name(c) : c.utf8(c.chance(5) ? 200 : 10); };
        o.attrs.string = [](pbt::Case& c) { return c.chance(10) ? c.bytes(60) : c.chance(4) ? std::string(c.range(500, 9000), c.pick<char>({'x', '"', '\n'})) : c.utf8(30); };
        o.message = o.attrs.string;
    } else {
        o.attrs.key = gen_name;
    }
    auto e = gen_event(c, o);
    for (auto& l : e.lists) {
        for (auto& a : l) {
            if (any && a.val.kind == Kind::real && c.chance(25)) {
                a.val.d = c.pick<double>({INFINITY, -INFINITY, std::nan(""), -0.0, 5e-324, 1.7976931348623157e308, 0.1, 1e21, 1e-7, 123456789012345680.0});
            }
        }
    }
    return e;
}

Options gen_options(pbt::Case& c) {
    Options o;
    o.newline = c.chance(30);
    o.unique = c.chance(40);
    if (c.chance(40)) {
        const auto n = c.range(1, 6);
        for (int i = 0; i < n; ++i) {
            o.severities.push_back(c.chance(60) ? c.over("DEBUGINFOwarn \"\n", 6) : c.utf8(c.chance(10) ? 60 : 10));
        }
    }
    o.timestamp = c.chance(30);
    o.time_format = c.pick<std::string>({"%Y-%m-%d %H:%M:%S.%f", "%H:%M", "%Y", "%s.%f", "\"%d\"", "\\%H\t%f\n", "%%%Y%%", "\xd0\xb6 %f"});
    auto add = [&](std::size_t max, std::function<void(const std::string&)> fn) {
        std::vector<std::string> used;
        const auto n = c.size(max);
        for (std::size_t i = 0; i < n; ++i) {
            const auto name = gen_name(c);
            if (std::find(used.begin(), used.end(), name) == used.end()) {
                used.push_back(name);
                fn(name);
            }
        }
    };
    add(4, [&](const std::string& name) { o.renames.emplace_back(name, gen_name(c)); });
    std::vector<std::string> pointers;
    auto pointer = [&] {
        if (c.chance(50)) {
            return c.pick<std::string>({"/fields", "/fields/x", "/a", "/meta", "/message", "/id/b", "/a~1b", "/~0", "/"});
        }
        std::string r;
        const auto depth = c.range(0, 3);
        for (int i = 0; i < depth; ++i) {
            r += "/";
            if (c.chance(70)) {
                r += c.over("abxyz", 2);
                continue;
            }
            auto token = gen_name(c);
            if (token == "-" || (!token.empty() && token.find_first_not_of("0123456789") == std::string::npos)) {
                // Elements of arrays.
                token += "x";
            }
            for (auto ch : token) {
                r += ch == '~' ? std::string("~0") : ch == '/' ? std::string("~1") : std::string(1, ch);
            }
        }
        return r;
    };
    add(6, [&](const std::string& name) {
        const auto p = !o.routes.empty() && c.chance(40) ? o.routes.back().first : pointer();
        for (auto& r : o.routes) {
            if (r.first == p) {
                r.second.push_back(name);
                return;
            }
        }
        o.routes.push_back({p, {name}});
    });
    if (c.chance(40)) {
        o.rest_route = pointer();
        o.rest = true;
        for (auto& r : o.routes) {
            // Names of members in configurations.
            if (r.first == o.rest_route) {
                o.rest = false;
            }
        }
        if (!o.rest) {
            o.rest_route.clear();
        }
    }
    return o;
}

// Specs need values of known types, so they are taken from the event.
void gen_formats(pbt::Case& c, Options& o, const Event& e) {
    auto value_of_name = [&](const std::string& name, Kind& kind) {
        bool found = false, mixed = false;
        auto see = [&](Kind k) {
            mixed = mixed || (found && k != kind);
            kind = k;
            found = true;
        };
        if (name == "message" || name == "thread" || (name == "timestamp" && o.timestamp)) {
            see(Kind::string);
        } else if (name == "timestamp") {
            see(Kind::sint);
        } else if (name == "severity") {
            see(e.severity >= 0 && static_cast<std::size_t>(e.severity) < o.severities.size() ? Kind::string : Kind::sint);
        } else if (name == "process" || name == "lwp") {
            see(Kind::uint);
        }
        for (auto& a : e.flat()) {
            if (a.key == name) {
                see(a.val.kind);
            }
        }
        return found && !mixed && kind != Kind::function;
    };
    std::vector<std::string> names = {"message", "severity", "timestamp", "process", "lwp", "thread"};
    for (auto& a : e.flat()) {
        names.push_back(a.key);
    }
    const auto n = c.size(3);
    for (std::size_t i = 0; i < n; ++i) {
        const auto name = c.pick(names);
        Kind kind = Kind::null;
        if (Options::find(o.formats, name) || !value_of_name(name, kind)) {
            continue;
        }
        Val probe;
        probe.kind = kind;
        o.formats.emplace_back(name, gen_spec(c, probe));
    }
}

std::unique_ptr<blackhole::formatter_t> build(pbt::Case& c, const Options& o) {
    if (c.chance(50)) {
        c.label("builder");
        blackhole::builder<json_t> b;
        std::vector<std::vector<std::function<void()>>> steps(7);
        if (o.newline) steps[0].push_back([&] { BUILD_STEP(c, b, newline()); });
        if (o.unique) steps[1].push_back([&] { BUILD_STEP(c, b, unique()); });
        if (!o.severities.empty() || c.chance(10)) steps[2].push_back([&] { BUILD_STEP(c, b, severity(o.severities)); });
        if (o.timestamp) steps[3].push_back([&] { BUILD_STEP(c, b, timestamp(o.time_format)); });
        for (auto& r : o.renames) steps[4].push_back([&] { BUILD_STEP(c, b, rename(r.first, r.second)); });
        for (auto& r : o.routes) steps[5].push_back([&] { BUILD_STEP(c, b, route(r.first, r.second)); });
        if (o.rest) steps[5].push_back([&] { BUILD_STEP(c, b, route(o.rest_route)); });
        for (auto& f : o.formats) steps[6].push_back([&] { BUILD_STEP(c, b, format(f.first, "{:" + f.second.text() + "}")); });
        interleave(c, steps);
        return std::move(b).build();
    }
    c.label("configuration");
    std::string json = "{\"type\": \"json\"";
    if (o.newline || c.chance(20)) json += std::string(", \"newline\": ") + (o.newline ? "true" : "false");
    if (o.unique || c.chance(20)) json += std::string(", \"unique\": ") + (o.unique ? "true" : "false");
    if (!o.renames.empty()) {
        json += ", \"mapping\": {";
        for (std::size_t i = 0; i < o.renames.size(); ++i) json += (i ? "," : "") + quote(o.renames[i].first) + ":" + quote(o.renames[i].second);
        json += "}";
    }
    if (!o.routes.empty() || o.rest) {
        json += ", \"routing\": {";
        bool first = true;
        for (auto& r : o.routes) {
            json += (first ? "" : ",") + quote(r.first) + ":[";
            first = false;
            for (std::size_t i = 0; i < r.second.size(); ++i) json += (i ? "," : "") + quote(r.second[i]);
            json += "]";
        }
        if (o.rest) json += (first ? "" : ",") + quote(o.rest_route) + ":\"*\"";
        json += "}";
    }
    if (o.timestamp || !o.severities.empty()) {
        json += ", \"mutate\": {";
        if (o.timestamp) json += "\"timestamp\":" + quote(o.time_format) + (o.severities.empty() ? "" : ",");
        if (!o.severities.empty()) {
            json += "\"severity\":[";
            for (std::size_t i = 0; i < o.severities.size(); ++i) json += (i ? "," : "") + quote(o.severities[i]);
            json += "]";
        }
        json += "}";
    }
    if (!o.formats.empty()) {
        json += ", \"formatting\": {";
        for (std::size_t i = 0; i < o.formats.size(); ++i) json += (i ? "," : "") + quote(o.formats[i].first) + ":" + quote("{:" + o.formats[i].second.text() + "}");
        json += "}";
    }
    json += "}";
    c.note("configuration " + json);
    std::istringstream stream(json);
    auto config = blackhole::config::factory_traits<blackhole::config::json_t>::construct(stream);
    return blackhole::factory<json_t>().from(config->config());
}

std::string describe(const Options& o) {
    std::string r = std::string(o.newline ? "newline " : "") + (o.unique ? "unique " : "");
    for (auto& p : o.renames) r += "rename " + pbt::show(p.first) + "->" + pbt::show(p.second) + " ";
    for (auto& p : o.routes) {
        r += "route " + p.first + " [";
        for (auto& n : p.second) r += pbt::show(n) + " ";
        r += "] ";
    }
    if (o.rest) r += "rest " + pbt::show(o.rest_route) + " ";
    for (auto& f : o.formats) r += "format " + pbt::show(f.first) + " " + f.second.text() + " ";
    r += std::to_string(o.severities.size()) + " severities " + (o.timestamp ? o.time_format : "");
    return r;
}

}  // namespace

PROPERTY(json_validity, o.quick = 300000; o.thorough = 2000000;
    o.rule = "events with arbitrary bytes in messages, names and values, strings of kilobytes, non-finite and extreme numbers, rendered "
             "without options and read back by a strict parser keeping order, duplicates and numbers' text; non-trivial: an attribute "
             "string, name or message needs escaping or a number is extreme")
{
    const Foreign foreign(c);
    const auto e = gen(c, true);
    c.note("event " + e.repr());
    Options o;
    o.newline = c.chance(30);
    blackhole::builder<json_t> b;
    if (o.newline) {
        BUILD_STEP(c, b, newline());
    }
    auto formatter = std::move(b).build();
    Model m(o);
    m.build(e);
    check(*formatter, o, e, m.root);
    bool hard = false;
    auto needs = [](const std::string& s) {
        for (char ch : s) {
            if (static_cast<unsigned char>(ch) < 0x20 || ch == '"' || ch == '\\' || static_cast<unsigned char>(ch) >= 0x7f) {
                return true;
            }
        }
        return false;
    };
    for (auto& a : e.flat()) {
        hard = hard || needs(a.key) || needs(a.val.s) || (a.val.kind == Kind::real && !(std::fabs(a.val.d) < 1e15));
    }
    if (hard || needs(e.formatted())) {
        c.nontrivial();
    }
}

PROPERTY(json_options, o.quick = 200000; o.thorough = 2000000;
    o.rule = "random combinations of routes (nested, escaped, colliding with names), renames, uniqueness, severity names, timestamp "
             "format, per-attribute specs and newline, through the builder or a configuration, against a model tree; non-trivial: at "
             "least two options act")
{
    const Foreign foreign(c);
    auto o = gen_options(c);
    const auto e = gen(c, false);
    gen_formats(c, o, e);
    c.note("options " + describe(o));
    c.note("event " + e.repr());
    const auto formatter = build(c, o);
    Model m(o);
    m.build(e);
    check(*formatter, o, e, m.root);
    const int acting = o.newline + o.unique + !o.severities.empty() + o.timestamp + !o.renames.empty() + !o.routes.empty() + o.rest + !o.formats.empty();
    if (acting >= 2) {
        c.nontrivial();
    }
    if (m.collisions) {
        c.label("collisions");
    }
    if (o.unique) {
        c.label("unique");
    }
}

PROPERTY(json_routes, o.quick = 40000; o.thorough = 100000;
    o.rule = "routes which are not JSON pointers are refused on construction, others are accepted; non-trivial: invalid")
{
    const Foreign foreign(c);
    const auto route = c.over("/~01a%#", 6);
    bool valid = route.empty() || route[0] == '/';
    for (std::size_t i = 0; i < route.size(); ++i) {
        if (route[i] == '~') {
            valid = valid && i + 1 < route.size() && (route[i + 1] == '0' || route[i + 1] == '1');
        }
    }
    if (!route.empty() && route[0] == '#') {
        // URI fragments are an extension.
        throw pbt::Discard{};
    }
    c.note("route " + pbt::show(route));
    blackhole::builder<json_t> b;
    if (c.chance(50)) {
        BUILD_STEP(c, b, route(route));
    } else {
        BUILD_STEP(c, b, route(route, {"message"}));
    }
    bool thrown = false;
    std::unique_ptr<blackhole::formatter_t> formatter;
    try {
        formatter = std::move(b).build();
    } catch (const std::exception&) {
        thrown = true;
    }
    CHECK_THAT(thrown == !valid, "a route which is " << (valid ? "valid" : "not valid") << " was " << (thrown ? "refused" : "accepted"));
    if (formatter) {
        Event e;
        e.us = 1;
        Emitted rec(e);
        blackhole::writer_t wr;
        formatter->format(rec.record, wr);
        JsonReader::read(str(wr.result()));
    } else {
        c.nontrivial();
    }
}

namespace {

// Calls with every member which is not a container.
void leaves(const Json& tree, const std::function<void(const std::string&, const Json&)>& fn) {
    for (auto& item : tree.items) {
        leaves(item, fn);
    }
    for (auto& m : tree.members) {
        if (m.second.type == Json::object || m.second.type == Json::array) {
            leaves(m.second, fn);
        } else {
            fn(m.first, m.second);
        }
    }
}

}  // namespace

PROPERTY(json_indices, o.quick = 60000; o.thorough = 400000;
    o.rule = "routes through members with numbers for names and through elements of arrays: the tree is valid, no field of the event is lost, repeated or made "
             "up, and a field of a route without numbers is an immediate member of an object; non-trivial: at least two routes with numbers")
{
    const Foreign foreign(c);
    std::vector<std::pair<std::string, std::vector<std::string>>> routes;
    const std::vector<std::string> fields = {"message", "severity", "timestamp", "process", "lwp", "thread", "p", "q", "r"};
    auto pointer = [&] {
        std::string r;
        const auto depth = c.range(0, 4);
        for (int i = 0; i < depth; ++i) {
            r += "/" + c.pick<std::string>({"a", "b", "0", "1", "2", "00", "01", "-", "", "7"});
        }
        return r;
    };
    auto numeric = [](const std::string& r) { return r.find_first_of("0127-") != std::string::npos; };
    std::size_t numbers = 0;
    blackhole::builder<json_t> b;
    std::vector<std::vector<std::function<void()>>> steps(3);
    for (auto& field : fields) {
        if (c.chance(50)) {
            const auto p = pointer();
            bool known = false;
            for (auto& r : routes) {
                if (r.first == p) {
                    r.second.push_back(field);
                    known = true;
                }
            }
            if (!known) {
                routes.push_back({p, {field}});
            }
            numbers += numeric(p);
        }
    }
    for (auto& r : routes) {
        std::string names;
        for (auto& n : r.second) {
            names += " " + n;
        }
        c.note("route " + pbt::show(r.first) + ":" + names);
        steps[0].push_back([&] { BUILD_STEP(c, b, route(r.first, r.second)); });
    }
    if (c.chance(50)) {
        const auto p = pointer();
        c.note("the rest " + pbt::show(p));
        numbers += numeric(p);
        steps[1].push_back([&c, &b, p] { BUILD_STEP(c, b, route(p)); });
    }
    const bool unique = c.chance(30);
    if (unique) {
        c.note("unique");
        steps[2].push_back([&] { BUILD_STEP(c, b, unique()); });
    }
    interleave(c, steps);
    const auto formatter = std::move(b).build();
    Event e;
    e.us = 1234567;
    e.message = "text";
    e.lists.emplace_back();
    for (auto name : {"p", "q", "r"}) {
        Attr a;
        a.key = name;
        a.val.kind = Kind::string;
        a.val.s = name;
        e.lists.back().push_back(a);
    }
    if (numbers >= 2) {
        c.nontrivial();
    }
    // Twice: nothing is kept from an event for the next one.
    for (int i = 0; i < 2; ++i) {
        Emitted rec(e);
        blackhole::writer_t wr;
        formatter->format(rec.record, wr);
        const auto text = str(wr.result());
        const auto tree = JsonReader::read(text);
        CHECK_THAT(tree.type == Json::object, "not an object: " << pbt::show(text));
        std::map<std::string, int> seen;
        leaves(tree, [&](const std::string& name, const Json& value) {
            if (value.type == Json::null) {
                return;
            }
            ++seen[name];
            CHECK_THAT(std::find(fields.begin(), fields.end(), name) != fields.end(), "a member " << pbt::show(name) << " in " << pbt::show(text));
            if (name.size() == 1) {
                CHECK_EQ_STR(value.s, name, "value");
            } else if (name == "message") {
                CHECK_EQ_STR(value.s, "text", "value");
            } else if (name == "timestamp") {
                CHECK_EQ_STR(value.s, "1234567", "value");
            }
        });
        // A field may lose to an object of a route of its name, if names have to be unique.
        for (auto& field : fields) {
            CHECK_THAT(seen[field] == 1 || (unique && seen[field] == 0), seen[field] << " fields " << field << " in " << pbt::show(text));
        }
        if (unique) {
            const std::function<void(const Json&)> distinct = [&](const Json& node) {
                std::set<std::string> names;
                for (auto& m : node.members) {
                    CHECK_THAT(names.insert(m.first).second, "two members " << pbt::show(m.first) << " in " << pbt::show(text));
                    distinct(m.second);
                }
                for (auto& i : node.items) {
                    distinct(i);
                }
            };
            distinct(tree);
        }
    }
}
