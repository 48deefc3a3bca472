// C19: JSON configurations.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <sstream>
#include <stdexcept>

#include <boost/optional/optional.hpp>

#include "bh.hpp"
#include "config.hpp"

namespace {

using blackhole::config::node_t;
typedef blackhole::config::option<node_t> option_t;

enum Kind { NUL, BOOL, INT, DOUBLE, STRING, ARRAY, OBJECT };
const char* NAMES[] = {"null", "bool", "number", "number", "string", "array", "object"};

struct Tree {
    Kind kind;
    bool b;
    bool negative;          // of INT
    std::uint64_t u;        // INT: the value itself or two's complement of the negative one
    double d;
    std::string s;
    std::string text;       // notation of the number
    std::vector<Tree> items;
    std::vector<std::string> keys;
};

std::string text_of(pbt::Case& c) {
    return c.weighted({4, 3, 2}) == 0 ? c.ident(8) : c.chance(50) ? c.utf8(12) : c.over(std::string("a/\\\"\0\n{}[],:#*", 14), 8);
}

Tree number(pbt::Case& c) {
    Tree t{};
    char buf[512];
    switch (c.weighted({4, 3, 4, 2, 1})) {
    case 0: {
        t.kind = INT;
        const auto v = c.i64();
        t.negative = v < 0;
        t.u = static_cast<std::uint64_t>(v);
        t.text = std::to_string(v);
        break;
    }
    case 1:
        t.kind = INT;
        t.u = c.u64();
        t.text = std::to_string(t.u);
        break;
    case 2:
        t.kind = DOUBLE;
        t.d = c.finite();
        std::snprintf(buf, sizeof buf, c.pick({"%.17g", "%.17e", "%.16g", "%.1f", "%.20e", "%.40e"}), t.d);
        t.text = buf;
        if (t.text.find_first_of(".e") == std::string::npos) {
            t.text += c.pick({".0", "e0", "E+0", "e-0", ".000"});
        }
        break;
    case 3: {
        // Digits, as they come.
        t.kind = DOUBLE;
        t.text = c.chance(30) ? "-" : "";
        t.text += c.chance(30) ? "0" : std::string(1, static_cast<char>('1' + c.draw(8))) + c.over("0123456789", c.chance(20) ? 40 : 20);
        t.text += "." + std::string(1, static_cast<char>('0' + c.draw(9))) + c.over("0123456789", c.chance(20) ? 40 : 18);
        if (c.chance(50)) {
            t.text += c.pick({"e", "E"});
            t.text += c.pick({"", "-", "+"});
            t.text += std::to_string(c.draw(c.chance(20) ? 240 : 30));
        }
        break;
    }
    default:
        // An integer which fits no type becomes a number with a point.
        t.kind = DOUBLE;
        t.text = c.pick({"18446744073709551616", "-9223372036854775809", "100000000000000000000000", "-18446744073709551615", "18446744073709551620",
                         "36893488147419103232", "184467440737095516150"});
    }
    if (t.kind == DOUBLE) {
        t.d = std::strtod(t.text.c_str(), nullptr);
        if (std::isinf(t.d)) {
            throw pbt::Discard();
        }
    }
    return t;
}

Tree tree(pbt::Case& c, unsigned depth, bool root = false) {
    Tree t{};
    switch (root ? c.weighted({0, 0, 0, 0, 1, 6}) : depth == 0 ? c.weighted({1, 2, 4, 4}) : c.weighted({1, 2, 4, 4, 4, 5})) {
    case 0:
        t.kind = NUL;
        return t;
    case 1:
        t.kind = BOOL;
        t.b = c.chance(50);
        return t;
    case 2:
        return number(c);
    case 3:
        t.kind = STRING;
        t.s = text_of(c);
        return t;
    case 4:
        t.kind = ARRAY;
        for (std::size_t i = c.size(c.chance(5) ? 30 : 5); i > 0; --i) {
            t.items.push_back(tree(c, depth - 1));
        }
        return t;
    default:
        t.kind = OBJECT;
        for (std::size_t i = c.size(c.chance(5) ? 30 : 5); i > 0; --i) {
            auto key = text_of(c);
            if (std::find(t.keys.begin(), t.keys.end(), key) != t.keys.end()) {
                continue;
            }
            t.keys.push_back(key);
            t.items.push_back(tree(c, depth - 1));
        }
        return t;
    }
}

struct Style {
    unsigned space;     // percent of gaps with white space
    bool comments;
    bool trailing;
    bool escapes;
};

void gap(pbt::Case& c, const Style& s, std::string& out) {
    if (s.space == 0 || !c.chance(s.space)) {
        return;
    }
    for (std::size_t i = 1 + c.size(2); i > 0; --i) {
        switch (s.comments ? c.weighted({3, 1, 1}) : 0) {
        case 0: out += c.pick({" ", "\n", "\t", "\r\n", "  "}); break;
        case 1: out += "/*" + c.pick({std::string(), std::string(" x "), std::string("\"{["), std::string("*"), std::string("//\n"), std::string("/ *")}) + "*/"; break;
        default: out += "//" + c.pick({std::string(), std::string(" x"), std::string("\"}],"), std::string("/* "), std::string("*/")}) + "\n";
        }
    }
}

void quote(pbt::Case& c, const Style& s, const std::string& v, std::string& out) {
    out += '"';
    for (std::size_t i = 0; i < v.size(); ++i) {
        const auto ch = static_cast<unsigned char>(v[i]);
        char buf[16];
        const char* shorts = "\b\f\n\r\t\"\\/";
        const char* p = ch ? std::strchr(shorts, ch) : nullptr;
        const bool must = ch < 0x20 || ch == '"' || ch == '\\';
        if (must || (s.escapes && ch < 0x80 && c.chance(10))) {
            if (p && c.chance(70)) {
                out += '\\';
                out += "bfnrt\"\\/"[p - shorts];
            } else {
                std::snprintf(buf, sizeof buf, c.chance(50) ? "\\u%04x" : "\\u%04X", ch);
                out += buf;
            }
        } else if (ch >= 0xc2 && s.escapes && c.chance(30)) {
            // A whole code point.
            const unsigned n = ch >= 0xf0 ? 4 : ch >= 0xe0 ? 3 : 2;
            unsigned cp = ch & (0xff >> (n + 1));
            for (unsigned k = 1; k < n; ++k) {
                cp = cp << 6 | (static_cast<unsigned char>(v.at(i + k)) & 0x3f);
            }
            i += n - 1;
            if (cp >= 0x10000) {
                std::snprintf(buf, sizeof buf, "\\u%04X\\u%04x", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
            } else {
                std::snprintf(buf, sizeof buf, "\\u%04x", cp);
            }
            out += buf;
        } else {
            out += v[i];
        }
    }
    out += '"';
}

void write(pbt::Case& c, const Style& s, const Tree& t, std::string& out) {
    switch (t.kind) {
    case NUL: out += "null"; break;
    case BOOL: out += t.b ? "true" : "false"; break;
    case INT:
    case DOUBLE: out += t.text; break;
    case STRING: quote(c, s, t.s, out); break;
    case ARRAY:
    case OBJECT:
        out += t.kind == ARRAY ? '[' : '{';
        gap(c, s, out);
        for (std::size_t i = 0; i < t.items.size(); ++i) {
            if (t.kind == OBJECT) {
                quote(c, s, t.keys[i], out);
                gap(c, s, out);
                out += ':';
                gap(c, s, out);
            }
            write(c, s, t.items[i], out);
            gap(c, s, out);
            if (i + 1 < t.items.size() || (s.trailing && c.chance(50))) {
                out += ',';
                gap(c, s, out);
            }
        }
        out += t.kind == ARRAY ? ']' : '}';
    }
}

std::string document(pbt::Case& c, const Tree& t, bool plain = false) {
    Style s{plain ? 0 : c.pick({0u, 30u, 80u}), !plain && c.chance(50), !plain && c.chance(50), !plain && c.chance(50)};
    std::string out;
    gap(c, s, out);
    write(c, s, t, out);
    gap(c, s, out);
    return out;
}

// Gives out few bytes at a time.
struct Trickle : std::streambuf {
    std::string data;
    std::size_t step, at;
    Trickle(std::string d, std::size_t step) : data(std::move(d)), step(step), at(0) {}
    int_type underflow() override {
        if (at == data.size()) {
            return traits_type::eof();
        }
        const auto n = std::min(step, data.size() - at);
        setg(&data[at], &data[at], &data[at] + n);
        at += n;
        return traits_type::to_int_type(*gptr());
    }
};

std::unique_ptr<blackhole::config::factory_t> read(pbt::Case& c, const std::string& text) {
    typedef blackhole::config::factory_traits<blackhole::config::json_t> traits;
    switch (c.weighted({3, 1, 1})) {
    case 0: {
        std::istringstream stream(text);
        return traits::construct(stream);
    }
    case 1:
        return traits::construct(std::istringstream(text));
    default: {
        Trickle buf(text, 1 + c.draw(4));
        std::istream stream(&buf);
        return traits::construct(stream);
    }
    }
}

// How the values are got to: a node, or an option which stands for it.
template<typename F>
void refused(F fn, const std::string& what, const std::string& path, const char* kind) {
    try {
        fn();
    } catch (const std::exception& err) {
        const std::string text = err.what();
        // As far as a C string goes.
        const auto place = ("\"" + (path.empty() ? "/" : path) + "\"").substr(0, path.find('\0') == std::string::npos ? std::string::npos : path.find('\0') + 1);
        CHECK_THAT(text.find(place) != std::string::npos, what << " at " << pbt::show(place) << " refused with " << pbt::show(text));
        CHECK_THAT(path.find('\0') != std::string::npos || text.find(std::string("\"") + kind + "\"") != std::string::npos, what << " of " << kind << " refused with " << pbt::show(text));
        return;
    }
    pbt::fail(what + " at \"" + pbt::show(path) + "\" (" + kind + ") not refused");
}

template<typename T>
T value(T v) {
    return v;
}

template<typename T>
T value(const boost::optional<T>& v) {
    CHECK_THAT(v.is_initialized(), "value of an existing node missing");
    return v.get();
}

std::uint64_t bits(double d) {
    std::uint64_t u;
    std::memcpy(&u, &d, sizeof u);
    return u;
}

bool close(double a, double b) {
    return std::signbit(a) == std::signbit(b) && (std::fabs(a - b) <= std::fabs(b) * 1e-13 || std::fabs(a - b) <= 1e-322);
}

// The parser rounds notations of more digits, or of large powers of ten, to a number close to the closest one: a known finding,
// looked at by json_double_rounding. All the other notations have to be exact.
bool simple(const std::string& text) {
    const auto e = text.find_first_of("eE");
    const auto mantissa = text.substr(0, e);
    const auto point = mantissa.find('.');
    int power = (e == std::string::npos ? 0 : std::atoi(text.c_str() + e + 1));
    std::size_t digits = 0;
    for (char ch : mantissa) {
        if (ch >= '0' && ch <= '9' && (digits > 0 || ch != '0')) {
            ++digits;
        }
    }
    if (point != std::string::npos) {
        power -= static_cast<int>(mantissa.size() - point - 1);
    }
    return digits <= 15 && power >= -22 && power <= 22;
}

void check(pbt::Case& c, const node_t& n, const Tree& t, const std::string& path);

template<typename N>
void check_values(pbt::Case& c, const N& n, const Tree& t, const std::string& path) {
    const char* kind = NAMES[t.kind];
    if (t.kind == BOOL) {
        CHECK_THAT(value(n.to_bool()) == t.b, "wrong bool at " << path);
    } else {
        refused([&] { n.to_bool(); }, "bool", path, kind);
    }
    if (t.kind == INT && (t.negative || t.u <= static_cast<std::uint64_t>(INT64_MAX))) {
        CHECK_THAT(value(n.to_sint64()) == static_cast<std::int64_t>(t.u), "wrong integer at " << path << " instead of " << t.text);
    } else {
        refused([&] { n.to_sint64(); }, "int64", path, kind);
    }
    if (t.kind == INT && !t.negative) {
        CHECK_THAT(value(n.to_uint64()) == t.u, "wrong unsigned integer at " << path << " instead of " << t.text);
    } else {
        refused([&] { n.to_uint64(); }, "uint64", path, kind);
    }
    if (t.kind == DOUBLE) {
        const double d = value(n.to_double());
        if (simple(t.text)) {
            c.label("number exact by rule");
        }
        CHECK_THAT(bits(d) == bits(t.d) || (!simple(t.text) && close(d, t.d)), "wrong number at " << path << ": " << pbt::str(d) << " instead of " << t.text);
    } else {
        refused([&] { n.to_double(); }, "double", path, kind);
    }
    if (t.kind == STRING) {
        CHECK_EQ_STR(value(n.to_string()), t.s, "string at " << path);
    } else {
        refused([&] { n.to_string(); }, "string", path, kind);
    }

    std::size_t i = 0;
    auto each = [&] {
        n.each([&](const node_t& item) {
            CHECK_THAT(t.kind == ARRAY && i < t.items.size(), "too many elements at " << path);
            check(c, item, t.items[i], path + "/" + std::to_string(i));
            ++i;
        });
    };
    if (t.kind == ARRAY) {
        each();
        CHECK_THAT(i == t.items.size(), "only " << i << " of " << t.items.size() << " elements at " << path);
    } else {
        refused(each, "array", path, kind);
    }
    i = 0;
    auto each_map = [&] {
        n.each_map([&](const std::string& key, const node_t& item) {
            CHECK_THAT(t.kind == OBJECT && i < t.items.size(), "too many members at " << path);
            CHECK_EQ_STR(key, t.keys[i], "member name at " << path);
            check(c, item, t.items[i], path + "/" + key);
            ++i;
        });
    };
    if (t.kind == OBJECT) {
        each_map();
        CHECK_THAT(i == t.items.size(), "only " << i << " of " << t.items.size() << " members at " << path);
    } else {
        refused(each_map, "object", path, kind);
    }
}

void check(pbt::Case& c, const node_t& n, const Tree& t, const std::string& path) {
    const bool got[] = {n.is_bool(), n.is_sint64(), n.is_uint64(), n.is_double(), n.is_string(), n.is_vector(), n.is_object()};
    const bool expected[] = {t.kind == BOOL, t.kind == INT && (t.negative || t.u <= static_cast<std::uint64_t>(INT64_MAX)),
                             t.kind == INT && !t.negative, t.kind == DOUBLE, t.kind == STRING, t.kind == ARRAY, t.kind == OBJECT};
    static const char* names[] = {"bool", "sint64", "uint64", "double", "string", "vector", "object"};
    for (int i = 0; i < 7; ++i) {
        CHECK_THAT(got[i] == expected[i], "is_" << names[i] << " at " << pbt::show(path) << " is " << got[i] << " for " << NAMES[t.kind] << " " << t.text);
    }
    check_values(c, n, t, path);
}

void check_absent(pbt::Case& c, const option_t& o, unsigned depth) {
    CHECK_THAT(!static_cast<bool>(o), "something where nothing is");
    CHECK_THAT(!o.unwrap().is_initialized(), "unwrapped nothing");
    CHECK_THAT(!o.to_bool().is_initialized() && !o.to_sint64().is_initialized() && !o.to_uint64().is_initialized() &&
               !o.to_double().is_initialized() && !o.to_string().is_initialized(), "value of an absent node");
    o.each([](const node_t&) { pbt::fail("element of an absent node"); });
    o.each_map([](const std::string&, const node_t&) { pbt::fail("member of an absent node"); });
    if (depth > 0) {
        check_absent(c, o[c.size(3)], depth - 1);
        check_absent(c, o[c.ident(3)], depth - 1);
    }
}

// Follows random subscripts, mostly existing ones.
void walk(pbt::Case& c, const option_t& o, const Tree& t, const std::string& path) {
    CHECK_THAT(static_cast<bool>(o), "nothing at " << pbt::show(path));
    const auto node = o.unwrap();
    CHECK_THAT(node.is_initialized(), "nothing to unwrap at " << pbt::show(path));
    check_values(c, o, t, path);
    check(c, *node, t, path);
    const bool via_node = c.chance(50);
    auto at = [&](std::size_t i) { return via_node ? (*node)[i] : o[i]; };
    auto of = [&](const std::string& k) { return via_node ? (*node)[k] : o[k]; };
    if (t.kind == ARRAY && !t.items.empty() && c.chance(85)) {
        const auto i = c.draw(t.items.size() - 1);
        c.label("step into an array");
        walk(c, at(i), t.items[i], path + "/" + std::to_string(i));
    } else if (t.kind == OBJECT && !t.items.empty() && c.chance(85)) {
        const auto i = c.draw(t.items.size() - 1);
        c.label("step into an object");
        walk(c, of(t.keys[i]), t.items[i], path + "/" + t.keys[i]);
    } else {
        // Beyond the end, of the wrong kind or under a similar name.
        c.label("absent");
        const std::size_t size = t.items.size();
        check_absent(c, at(t.kind == ARRAY ? c.pick({size, size + 1, std::size_t(1) << 32, ~std::size_t(0), (std::size_t(1) << 32) + 0}) : c.size(3)), 2);
        std::string key = t.keys.empty() || c.chance(30) ? text_of(c) : c.pick(t.keys);
        switch (c.draw(4)) {
        case 0: key += c.pick({std::string("a"), std::string(1, '\0'), std::string(" ")}); break;
        case 1: key = key.substr(0, key.size() / 2); break;
        case 2: key = key.empty() ? key : key.substr(0, key.size() - 1); break;
        case 3: key = std::to_string(c.size(2)); break;
        default: break;
        }
        if (std::find(t.keys.begin(), t.keys.end(), key) == t.keys.end()) {
            check_absent(c, of(key), 2);
        }
    }
}

std::size_t weight(const Tree& t) {
    std::size_t n = 1;
    for (auto& i : t.items) {
        n += weight(i);
    }
    return n;
}

}  // namespace

PROPERTY(json_tree, o.quick = 7000; o.thorough = 400000;
         o.rule = "the document has at least 5 nodes and a nested container or number with a point") {
    const Foreign foreign(c);
    const auto t = tree(c, 4, !c.chance(10));
    const auto text = document(c, t);
    c.note(text);
    std::unique_ptr<blackhole::config::factory_t> factory;
    try {
        factory = read(c, text);
    } catch (const std::exception& err) {
        pbt::fail("well-formed document refused: " + std::string(err.what()));
    }
    check(c, factory->config(), t, "");
    if (t.kind == OBJECT || t.kind == ARRAY) {
        // Several walks over the same tree.
        for (std::size_t i = 1 + c.size(3); i > 0; --i) {
            if (!t.items.empty()) {
                const auto k = c.draw(t.items.size() - 1);
                if (t.kind == OBJECT) {
                    walk(c, factory->config()[t.keys[k]], t.items[k], "/" + t.keys[k]);
                } else {
                    walk(c, factory->config()[k], t.items[k], "/" + std::to_string(k));
                }
            }
            check_absent(c, factory->config()[t.items.size() + c.size(2)], 1);
        }
    }
    if (weight(t) >= 5) {
        c.nontrivial();
    }
}

// The closest double to a notation (known finding: the parser is not run with its full precision, which has worse bugs of its own).
PROPERTY(json_double_rounding, o.quick = 1; o.thorough = 1; o.workers = 1; o.rule = "always") {
    c.nontrivial();
    c.note("1.4552054311466709e-53");
    const auto factory = bh::parse_config("[1.4552054311466709e-53]");
    CHECK_THAT(factory->config()[0].to_double().get() == 1.4552054311466709e-53, "not the closest number");
}

// Zero with a huge exponent is a number as well (known finding: the parser takes it for an overflow).
PROPERTY(json_zero_exponent, o.quick = 1; o.thorough = 1; o.workers = 1; o.rule = "always") {
    c.nontrivial();
    c.note("0.0e400");
    try {
        CHECK_THAT(bh::parse_config("[0.0e400]")->config()[0].to_double().get() == 0.0, "not zero");
    } catch (const std::invalid_argument& err) {
        pbt::fail(err.what());
    }
}

// Documents which are not JSON.
PROPERTY(json_malformed, o.quick = 96000; o.thorough = 400000; o.rule = "the broken document is longer than 6 bytes") {
    const Foreign foreign(c);
    const auto t = tree(c, 3, true);
    auto text = document(c, t, c.chance(70));
    switch (c.weighted({4, 4, 4, 4})) {
    case 0: {
        // The root is closed by the last bracket only.
        const auto last = text.find_last_of("]}");
        // Comments may contain brackets, hence the plain ones only.
        if (text.find("/*") != std::string::npos || text.find("//") != std::string::npos) {
            throw pbt::Discard();
        }
        text = text.substr(0, c.draw(last));
        c.label("truncated");
        break;
    }
    case 1:
        text += c.pick({std::string("x"), std::string("{}"), std::string("]"), std::string("}"), std::string(","), std::string("1"), std::string("\"\""),
                        std::string("null"), std::string("\0", 1) + "x", std::string("\0{", 2), std::string("\xff"), std::string("/"), std::string("/*"),
                        std::string("\0\0\0", 3), std::string("/* *")});
        if (text.find("//") != std::string::npos) {
            throw pbt::Discard();
        }
        c.label("garbage after the end");
        break;
    case 2: {
        // An element which is no JSON.
        const auto bad = c.pick({std::string("nul"), std::string("True"), std::string("01"), std::string("1."), std::string(".5"), std::string("+1"),
                                 std::string("1e"), std::string("1e+"), std::string("-"), std::string("--1"), std::string("0x10"), std::string("NaN"), std::string("Infinity"),
                                 std::string("-Infinity"), std::string("'a'"), std::string("\"a"), std::string("\"\\x41\""), std::string("\"\\u12\""),
                                 std::string("\"\\ud800\""), std::string("\"\\ud800x\""), std::string("\"\\ud800\\u0041\""), std::string("\"a\nb\""),
                                 std::string("\"\x01\""), std::string("\"a\0b\"", 5), std::string("[1 2]"), std::string("[,]"), std::string("[,1]"), std::string("[1,,2]"),
                                 std::string("{,}"), std::string("{1:2}"), std::string("{\"a\"}"), std::string("{\"a\":}"), std::string("{\"a\" 1}"),
                                 std::string("{\"a\":1 \"b\":2}"), std::string("{a:1}"), std::string("[1}"), std::string("{\"a\":1]"), std::string("1e400"),
                                 std::string("-1e400"), std::string("1e99999999999"), std::string("tru e"), std::string("\xef\xbb\xbf"), std::string("undefined"), std::string()});
        std::string inner;
        write(c, Style{0, false, false, false}, t, inner);
        const auto good = c.chance(50) ? inner : std::string("0");
        switch (c.draw(3)) {
        case 0: text = "{\"k\":" + bad + "}"; break;
        case 1: text = "[" + good + "," + (bad.empty() ? "," : bad) + "]"; break;
        case 2: text = "{\"a\":" + good + ",\"b\":" + bad + ",\"c\":1}"; break;
        default: text = "{\"a\":[" + (bad.empty() ? "," : bad) + "]}";
        }
        c.label("bad element");
        break;
    }
    default: {
        // One bracket, quote, colon or comma gone, from a text without any in its strings.
        Tree s = t;
        struct Plain {
            static void of(Tree& t) {
                for (auto& ch : t.s) { ch = 'a'; }
                std::size_t i = 0;
                for (auto& k : t.keys) { k = "k" + std::to_string(i++); }
                for (auto& i : t.items) { of(i); }
            }
        };
        Plain::of(s);
        text.clear();
        write(c, Style{0, false, false, false}, s, text);
        std::vector<std::size_t> at;
        for (std::size_t i = 0; i < text.size(); ++i) {
            if (std::strchr("{}[]\":", text[i])) {
                at.push_back(i);
            }
        }
        const auto i = c.pick(at);
        text.erase(i, 1);
        c.label("bracket, quote or colon gone");
    }
    }
    c.note(text);
    if (text.size() > 6) {
        c.nontrivial();
    }
    bool refused = false;
    try {
        read(c, text);
    } catch (const std::exception& err) {
        refused = std::strlen(err.what()) > 0;
    }
    CHECK_THAT(refused, "malformed document accepted");
}

// Whatever the bytes are, nothing worse than an exception happens.
PROPERTY(json_any, o.quick = 96000; o.thorough = 400000; o.rule = "the text is longer than 4 bytes") {
    const Foreign foreign(c);
    std::string text;
    switch (c.weighted({3, 3, 4})) {
    case 0: text = c.bytes(60); break;
    case 1: {
        for (std::size_t i = c.size(30); i > 0; --i) {
            text += c.pick({"{", "}", "[", "]", "\"", ":", ",", "null", "true", "1", "-", "1.5", "e", "\\", "\\u", "12", "/*", "*/", "//", "\n", " ", "\"a\""});
        }
        break;
    }
    default:
        text = document(c, tree(c, 3, true));
        for (std::size_t i = 1 + c.size(4); i > 0; --i) {
            const auto at = c.draw(text.size());
            switch (c.draw(2)) {
            case 0: text.insert(at, 1, static_cast<char>(c.draw(255))); break;
            case 1: text.erase(at, 1 + c.draw(3)); break;
            default: if (at < text.size()) { text[at] = c.pick(std::vector<char>{'{', '}', '"', ':', ',', '[', ']', '\\', '0', '\0', '\xff'}); }
            }
        }
    }
    c.note(text);
    if (text.size() > 4) {
        c.nontrivial();
    }
    std::unique_ptr<blackhole::config::factory_t> factory;
    try {
        factory = read(c, text);
    } catch (const std::exception&) {
        c.label("refused");
        return;
    }
    c.label("accepted");
    // Every part can be visited.
    std::function<void(const node_t&)> visit = [&](const node_t& n) {
        const int kinds = n.is_bool() + (n.is_sint64() || n.is_uint64()) + n.is_double() + n.is_string() + n.is_vector() + n.is_object();
        CHECK_THAT(kinds <= 1, "node of several kinds");
        if (n.is_vector()) {
            n.each(visit);
        } else if (n.is_object()) {
            n.each_map([&](const std::string& key, const node_t& v) {
                CHECK_THAT(static_cast<bool>(n[key]), "member not found by its name");
                visit(v);
            });
        }
    };
    visit(factory->config());
}

// Depth.
PROPERTY(json_deep, o.quick = 150; o.thorough = 2000; o.rule = "at least 1000 levels") {
    const bool arrays = c.chance(50);
    const std::size_t depth = c.pick({100u, 1000u, 20000u, 300000u}) + c.draw(1000);
    const bool closed = c.chance(80);
    std::string text;
    for (std::size_t i = 0; i < depth; ++i) {
        text += arrays ? "[" : "{\"a\":";
    }
    text += "7";
    for (std::size_t i = 0; closed && i < depth; ++i) {
        text += arrays ? "]" : "}";
    }
    c.note((arrays ? "arrays " : "objects ") + std::to_string(depth) + (closed ? "" : " unclosed"));
    if (depth >= 1000) {
        c.nontrivial();
    }
    std::unique_ptr<blackhole::config::factory_t> factory;
    try {
        factory = read(c, text);
    } catch (const std::exception&) {
        CHECK_THAT(!closed, "deep document refused");
        return;
    }
    CHECK_THAT(closed, "unclosed document accepted");
    // The path of each node takes its depth, so only look at the top.
    std::size_t level = 1;
    option_t at = arrays ? factory->config()[0] : factory->config()["a"];
    for (; level < std::min<std::size_t>(depth, 300); ++level) {
        CHECK_THAT(static_cast<bool>(at), "nothing at level " << level);
        at = arrays ? at[0] : at["a"];
    }
    if (depth <= 300) {
        CHECK_THAT(at.to_uint64().get() == 7, "wrong value at the bottom");
    }
}
