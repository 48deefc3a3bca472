// C24: format specs against printf.
#include <cmath>
#include <limits>
#include <stdexcept>

#include <blackhole/formatter.hpp>
#include <blackhole/formatter/string.hpp>

#include "fmtref.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
typedef blackhole::builder<blackhole::formatter::string_t> builder_type;

std::string render(const std::string& pattern, const Event& e) {
    const auto formatter = builder_type(pattern).build();
    Emitted emitted(e);
    blackhole::writer_t writer;
    formatter->format(emitted.record, writer);
    return str(writer.result());
}

double any_double(pbt::Case& c) {
    switch (c.weighted({8, 1, 1, 2})) {
    case 1: return c.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
    case 2: return c.pick({std::numeric_limits<double>::quiet_NaN(), std::copysign(std::numeric_limits<double>::quiet_NaN(), -1.0)});
    // Halves: rounding matters.
    case 3: return static_cast<double>(c.range(-4000, 4000)) / c.pick({2.0, 4.0, 8.0, 1000.0});
    default: return c.finite();
    }
}

std::string reference(const Spec& s, const Val& v) {
    if (v.kind == Kind::real && !std::isfinite(v.d)) {
        const bool upper = s.type && std::isupper(static_cast<unsigned char>(s.type));
        std::string text = std::isnan(v.d) ? upper ? "NAN" : "nan" : upper ? "INF" : "inf";
        if (std::signbit(v.d)) {
            text = "-" + text;
        } else if (s.sign == '+' || s.sign == ' ') {
            text = s.sign + text;
        }
        // As printf does: no zeros.
        Spec t = s;
        if (t.zero) {
            t.zero = false;
            t.align = '>';
            t.fill = ' ';
        }
        return t.pad("", text, '>');
    }
    return s(v);
}

// printf itself, where its syntax has the same meaning.
bool by_printf(const Spec& s, const Val& v, std::string& result) {
    if ((s.align && s.align != '<' && s.align != '>') || (s.align && s.fill && s.fill != ' ') || s.type == 'b' || s.type == 'B') {
        return false;
    }
    const bool integer = v.kind == Kind::sint || v.kind == Kind::uint;
    if (integer && ((s.type && s.type != 'd') || s.alt)) {
        // Negative numbers in other bases, and prefixes of zero, differ from printf on purpose.
        return false;
    }
    if (v.kind == Kind::real && s.zero && !std::isfinite(v.d)) {
        return false;
    }
    if (v.kind != Kind::real && !integer && v.kind != Kind::string) {
        return false;
    }
    // The zero flag overrides the alignment, contrary to printf.
    const bool left = s.align ? s.align == '<' : v.kind == Kind::string;
    std::string f = "%";
    if (left && !s.zero) {
        f += '-';
    }
    if (s.sign == '+' || s.sign == ' ') {
        f += s.sign;
    }
    if (s.alt) {
        f += '#';
    }
    if (s.zero) {
        f += '0';
    }
    if (s.width >= 0) {
        f += std::to_string(s.width);
    }
    if (s.precision >= 0) {
        f += "." + std::to_string(s.precision);
    }
    char buffer[2400];
    switch (v.kind) {
    case Kind::sint: std::snprintf(buffer, sizeof buffer, (f + "lld").c_str(), static_cast<long long>(v.i)); break;
    case Kind::uint: std::snprintf(buffer, sizeof buffer, (f + "llu").c_str(), static_cast<unsigned long long>(v.u)); break;
    case Kind::real: std::snprintf(buffer, sizeof buffer, (f + (s.type ? s.type : 'g')).c_str(), v.d); break;
    default:
        if (v.s.find('\0') != std::string::npos) {
            return false;
        }
        std::snprintf(buffer, sizeof buffer, (f + "s").c_str(), v.s.c_str());
    }
    result = buffer;
    return true;
}

Val gen_val(pbt::Case& c) {
    GenOptions o;
    o.functions = false;
    auto v = gen_value(c, o);
    if (v.kind == Kind::real || c.chance(15)) {
        v.kind = Kind::real;
        v.d = any_double(c);
    } else if (v.kind == Kind::string && c.chance(30)) {
        v.s = c.bytes(60);
    }
    return v;
}

Spec gen_val_spec(pbt::Case& c, const Val& v) {
    auto s = gen_spec(c, v);
    if (c.chance(6)) {
        s.width = static_cast<int>(c.range(80, 900));
    }
    if (c.chance(4) && v.kind == Kind::real) {
        s.precision = static_cast<int>(c.range(60, 300));
    }
    if ((s.type == 'a' || s.type == 'A') && (s.zero || s.align == '=')) {
        // Where the padding of hexadecimal numbers goes isn't specified.
        s.zero = false;
        s.align = 0;
    }
    if (v.kind == Kind::real && !std::isfinite(v.d)) {
        if (s.align == '=') {
            s.align = '>';
        }
        s.precision = -1;
        // Taken as zero padding by printf as well as here.
        if (s.align && s.fill == '0') {
            s.fill = '*';
        }
    }
    return s;
}

template<typename T>
std::string direct(const std::string& text, const T& value) {
    blackhole::writer_t writer;
    writer.write(text, value);
    return str(writer.result());
}

PROPERTY(spec_rendering, o.quick = 120000; o.thorough = 8000000;
         o.rule = "a spec with at least two elements, of which one changes the text of the value") {
    const Foreign foreign(c);
    const auto v = gen_val(c);
    const auto s = gen_val_spec(c, v);
    const auto spec = s.text();
    const auto pattern = spec.empty() ? "" : ":" + spec;
    c.note(v.repr() + " under " + pbt::show(spec));
    const auto expected = reference(s, v);
    std::string printed;
    if (by_printf(s, v, printed)) {
        // The reference is what printf gives.
        CHECK_EQ_STR(expected, printed, "the reference isn't printf's");
        c.label("printf");
    }

    auto e = gen_event(c);
    e.lists.clear();
    const auto name = c.ident(6);
    e.lists.push_back({{"_" + name, v}});
    const bool outside = c.chance(30);
    const std::string before = outside ? c.over("xy ", 600) : "", after = outside ? "<" : "";
    // What is already in the buffer doesn't matter.
    CHECK_EQ_STR(render(before + "{_" + name + pattern + "}" + after, e), before + expected + after, "attribute under " << pbt::show(spec));
    if (v.kind == Kind::string) {
        e.message = v.s;
        e.lazy = false;
        CHECK_EQ_STR(render(before + "{message" + pattern + "}" + after, e), before + expected + after, "message under " << pbt::show(spec));
    }

    // The writer which user types print themselves with.
    const auto text = "{" + pattern + "}";
    switch (v.kind) {
    case Kind::boolean: CHECK_EQ_STR(direct(text, v.b), expected, "bool"); break;
    case Kind::sint:
        CHECK_EQ_STR(direct(text, v.i), expected, "signed");
        if (v.i >= INT32_MIN && v.i <= INT32_MAX) {
            CHECK_EQ_STR(direct(text, static_cast<int>(v.i)), expected, "int");
        }
        if (v.i >= INT16_MIN && v.i <= INT16_MAX) {
            CHECK_EQ_STR(direct(text, static_cast<short>(v.i)), expected, "short");
        }
        break;
    case Kind::uint:
        CHECK_EQ_STR(direct(text, v.u), expected, "unsigned");
        if (v.u <= UINT32_MAX) {
            CHECK_EQ_STR(direct(text, static_cast<unsigned>(v.u)), expected, "unsigned int");
        }
        break;
    case Kind::real:
        CHECK_EQ_STR(direct(text, v.d), expected, "double");
        if (s.type != 'a' && s.type != 'A') {
            CHECK_EQ_STR(direct(text, static_cast<long double>(v.d)), expected, "long double");
        }
        break;
    case Kind::string: CHECK_EQ_STR(direct(text, v.s), expected, "string"); break;
    default: break;
    }
    if (spec.size() > 1 && expected != Spec()(v)) {
        c.nontrivial();
    }
}

// Width and precision taken from arguments.
PROPERTY(spec_dynamic, o.quick = 160000; o.thorough = 1000000; o.rule = "a width greater than the text or a precision") {
    const Foreign foreign(c);
    auto v = gen_val(c);
    if (v.kind == Kind::null) {
        throw pbt::Discard();
    }
    auto s = gen_val_spec(c, v);
    if (s.width < 0) {
        s.width = static_cast<int>(c.range(1, 30));
    }
    const int width = s.width, precision = s.precision;
    auto t = s;
    t.width = t.precision = -1;
    t.type = 0;
    const bool indexed = c.chance(50);
    std::string text = std::string(indexed ? "{0:" : "{:") + t.text() + (indexed ? "{1}" : "{}");
    if (precision >= 0) {
        text += indexed ? ".{2}" : ".{}";
    }
    if (s.type) {
        text += s.type;
    }
    text += "}";
    c.note(v.repr() + " under " + pbt::show(text) + " with " + std::to_string(width) + " and " + std::to_string(precision));
    blackhole::writer_t writer;
    auto run = [&](const auto& value) { precision >= 0 ? writer.write(text, value, width, precision) : writer.write(text, value, width); };
    switch (v.kind) {
    case Kind::boolean: run(v.b); break;
    case Kind::sint: run(v.i); break;
    case Kind::uint: run(v.u); break;
    case Kind::real: run(v.d); break;
    default: run(v.s);
    }
    CHECK_EQ_STR(str(writer.result()), reference(s, v), "under " << pbt::show(text));
    if (precision >= 0 || reference(s, v) != Spec()(v)) {
        c.nontrivial();
    }
}

// Values without specs: what the formatters write numbers with.
PROPERTY(plain_numbers, o.quick = 240000; o.thorough = 2000000; o.rule = "more than one digit") {
    const Foreign foreign(c);
    const auto i = c.i64();
    const auto u = c.u64();
    const auto d = c.finite();
    c.note(std::to_string(i) + " " + std::to_string(u) + " " + pbt::str(d));
    auto out = [&](const auto& value) {
        blackhole::writer_t writer;
        writer.inner << value;
        return str(writer.result());
    };
    CHECK_EQ_STR(out(i), std::to_string(i), "signed");
    CHECK_EQ_STR(out(u), std::to_string(u), "unsigned");
    CHECK_EQ_STR(out(static_cast<int>(i)), std::to_string(static_cast<int>(i)), "int");
    CHECK_EQ_STR(out(static_cast<unsigned>(u)), std::to_string(static_cast<unsigned>(u)), "unsigned int");
    char buffer[64];
    std::snprintf(buffer, sizeof buffer, "%g", d);
    CHECK_EQ_STR(out(d), buffer, "double");
    if (std::abs(static_cast<double>(i)) > 9) {
        c.nontrivial();
    }
}

// What doesn't fit is refused.
PROPERTY(spec_refused, o.quick = 150000; o.thorough = 1000000; o.rule = "always") {
    const Foreign foreign(c);
    auto v = gen_val(c);
    Spec s;
    std::string spec;
    gen_align(c, s, false);
    const bool number = v.kind == Kind::sint || v.kind == Kind::uint || v.kind == Kind::real;
    const auto prefix = s.text();
    auto letter = [&](const std::string& fine) {
        static const std::string letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ%!";
        const char ch = letters[c.draw(letters.size() - 1)];
        if (fine.find(ch) != std::string::npos) {
            throw pbt::Discard();
        }
        return std::string(1, ch);
    };
    switch (c.draw(5)) {
    case 0:
        // A type of other values.
        switch (v.kind) {
        case Kind::sint:
        case Kind::uint: spec = prefix + letter("dxXobB"); break;
        case Kind::real: spec = prefix + letter("eEfFgGaA"); break;
        case Kind::boolean: spec = prefix + letter("dxXobB"); break;
        default: spec = prefix + letter("s");
        }
        break;
    case 1:
        // The sign of what has none.
        if (v.kind == Kind::sint || v.kind == Kind::real || v.kind == Kind::boolean) {
            throw pbt::Discard();
        }
        spec = (s.align ? std::string(s.fill ? 1 : 0, s.fill) + s.align : "") + c.pick({"+", "-", " "}) + std::to_string(c.range(1, 9));
        break;
    case 2:
        // The precision of an integer.
        if (!number || v.kind == Kind::real) {
            throw pbt::Discard();
        }
        spec = prefix + "." + std::to_string(c.draw(20)) + c.pick({"", "d", "x"});
        break;
    case 3:
        // Numeric options of strings.
        if (number || v.kind == Kind::boolean) {
            throw pbt::Discard();
        }
        spec = c.pick<std::string>({"=10", "*=10s", "#", "#s", "010", "05s", "=", "0"});
        break;
    case 4:
        // Numbers out of range.
        spec = c.pick<std::string>({"", "<", ".", "*^."}) +
            c.pick<std::string>({"2147483648", "4294967296", "4294967297", "10000000000", "99999999999", "18446744073709551616", "5000000000",
                                 "3000000000000000000001"});
        break;
    default:
        // More than a spec.
        spec = prefix + (v.kind == Kind::real ? "f" : v.kind == Kind::sint || v.kind == Kind::uint || v.kind == Kind::boolean ? "d" : "s") +
            c.pick<std::string>({"d", "s", "1", ".1", " ", ":", "f"});
        break;
    }
    c.note(v.repr() + " under " + pbt::show(spec));
    Event e;
    e.us = 1;
    e.lists.push_back({{"a", v}});
    std::string result;
    bool refused = false;
    try {
        result = render("{a:" + spec + "}", e);
    } catch (const std::exception&) {
        refused = true;
    }
    CHECK_THAT(refused, "accepted, with " << pbt::show(result.substr(0, 100)));
    c.nontrivial();
}

}  // namespace
