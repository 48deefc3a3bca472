// C08: pattern compilation is total: any pattern is either compiled or refused with an exception, and
// a compiled one never does worse than throwing an exception per event.
#include <stdexcept>

#include <blackhole/builder.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/string.hpp>

#include "fmtref.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
typedef blackhole::formatter::string_t string_t;

// Structure of patterns as documented: literals with doubled braces, placeholders of an optional name
// and an optional spec with balanced braces.
enum class Structure { ok, unterminated, stray, name };

Structure structure(const std::string& p) {
    std::size_t i = 0;
    while (i < p.size()) {
        const char ch = p[i];
        const char next = i + 1 < p.size() ? p[i + 1] : 0;
        if (ch == '{' && next == '{') {
            i += 2;
        } else if (ch == '}') {
            if (next != '}') {
                return Structure::stray;
            }
            i += 2;
        } else if (ch != '{') {
            ++i;
        } else {
            ++i;
            while (i < p.size() && (std::isalnum(static_cast<unsigned char>(p[i])) || p[i] == '_' || p[i] == '.')) {
                ++i;
            }
            if (i == p.size()) {
                return Structure::unterminated;
            }
            if (p[i] == '}') {
                ++i;
                continue;
            }
            if (p[i] != ':') {
                return Structure::name;
            }
            ++i;
            int open = 1;
            while (i < p.size() && open > 0) {
                open += p[i] == '{' ? 1 : p[i] == '}' ? -1 : 0;
                ++i;
            }
            if (open > 0) {
                return Structure::unterminated;
            }
        }
    }
    return Structure::ok;
}

// Legal widths of gigabytes are not interesting.
bool huge(const std::string& p) {
    std::size_t digits = 0;
    for (char ch : p) {
        digits = ch >= '0' && ch <= '9' ? digits + 1 : 0;
        if (digits > 4) {
            return true;
        }
    }
    return false;
}

std::string gen_piece(pbt::Case& c) {
    switch (c.draw(9)) {
    case 0: return c.over("abc %{}", 5);
    case 1: return c.pick<std::string>({"{{", "}}", "{", "}", "{}", "{:}", "{:s}", ":", "{...", "{...:", ":p}", ":s}", "s}", ":default}", "{...:{"});
    case 2: return "{" + c.pick<std::string>({"message", "severity", "timestamp", "process", "thread", "...", "a", "key", "a.b", ""}) + "}";
    case 3: return "{" + c.pick<std::string>({"message", "severity", "timestamp", "process", "thread", "...", "a", "key", "a.b", ""}) + ":" + gen_string_spec(c).text() + "}";
    case 4: return "{" + c.pick<std::string>({"severity", "timestamp", "process", "thread", "a", "key"}) + ":" + gen_int_spec(c, true).text() + "}";
    case 5: return "{a:" + gen_real_spec(c).text() + "}";
    case 6: return "{timestamp:{" + c.over("%YmdHMSfjsEOaAbBcxXZz -:", 12) + "}" + c.over("<>^s l d5", 4) + "}";
    case 7: return "{a:{" + c.over("x1.-{} :default", 6) + ":default}" + c.over("<>^=#0s d5.fx", 5) + "}";
    case 8: {
        std::string r = "{...:";
        const auto n = c.draw(3);
        for (std::uint64_t i = 0; i < n; ++i) {
            r += c.pick<std::string>({"{{name}={value}:p}", "{, :s}", "{[:p}", "{{name:>5s}: {value:d}:p}", "{{value:x}:p}", "{{{{name}}}}:p}", "{}}:s}", "{{name}:p}"});
        }
        return r + c.over("<>^s3 2}", 4) + (c.chance(80) ? "}" : "");
    }
    default: return c.bytes(6);
    }
}

std::string gen_pattern(pbt::Case& c) {
    std::string p;
    const auto n = c.range(0, 6);
    const bool tame = c.chance(50);
    for (int i = 0; i < n; ++i) {
        const auto piece = gen_piece(c);
        if (!tame || structure(piece) == Structure::ok) {
            p += piece;
        }
    }
    if (tame && c.chance(80)) {
        return p;
    }
    const auto edits = c.weighted({5, 2, 1, 1});
    for (std::size_t i = 0; i < edits && !p.empty(); ++i) {
        const auto at = c.draw(p.size() - 1);
        switch (c.draw(3)) {
        case 0: p.erase(at, 1); break;
        case 1: p.insert(at, 1, c.pick<char>({'{', '}', ':', '.', 's', 'd', '%', '>', '0', '\0', '\x80', ' '})); break;
        case 2: p.resize(at); break;
        case 3: p.insert(at, p.substr(at, c.draw(8))); break;
        }
    }
    return p;
}

struct Outcome {
    bool ok = false;
    std::string text;
};

Outcome render(blackhole::formatter_t& formatter, const Event& e) {
    Emitted rec(e);
    blackhole::writer_t wr;
    Outcome o;
    try {
        formatter.format(rec.record, wr);
        o.ok = true;
        o.text = str(wr.result());
    } catch (const std::exception& err) {
        o.text = err.what();
    }
    return o;
}

std::unique_ptr<blackhole::formatter_t> compile(const std::string& pattern, bool mapped) {
    try {
        blackhole::builder<string_t> builder(pattern);
        if (mapped) {
            builder.mapping([](int severity, const std::string& spec, blackhole::writer_t& wr) {
                wr.write(spec, "level" + std::to_string(severity));
            });
        }
        return std::move(builder).build();
    } catch (const std::exception&) {
        return nullptr;
    }
}

EventOptions small_events() {
    EventOptions o;
    return o;
}

}  // namespace

PROPERTY(any_pattern, o.quick = 120000; o.thorough = 3000000;
    o.rule = "patterns of up to 6 legal, malformed and arbitrary pieces, then edited, compiled and rendered twice over a random "
             "event; refused whenever an independent scanner finds an unterminated placeholder, a stray brace or an illegal name; "
             "non-trivial: at least one placeholder was opened")
{
    const auto p = gen_pattern(c);
    if (huge(p)) {
        throw pbt::Discard{};
    }
    c.note("pattern " + pbt::show(p));
    const bool mapped = c.chance(30);
    const auto formatter = compile(p, mapped);
    const auto s = structure(p);
    c.label(!formatter ? "refused" : "compiled");
    CHECK_THAT(!formatter || s == Structure::ok, "a pattern which is "
        << (s == Structure::unterminated ? "unterminated" : s == Structure::stray ? "closing nothing" : "naming a placeholder illegally") << " was compiled");
    if (formatter) {
        const auto e = gen_event(c, small_events());
        const auto first = render(*formatter, e);
        const auto second = render(*formatter, e);
        CHECK_THAT(first.ok == second.ok, "the second rendering differs");
        CHECK_EQ_STR(second.text, first.text, "the second rendering");
        // A second compilation means the same.
        const auto again = compile(p, mapped);
        CHECK_THAT(again, "compiled once, then refused");
        const auto third = render(*again, e);
        CHECK_EQ_STR(third.text, first.text, "the rendering of another formatter");
        c.label(first.ok ? "rendered" : "thrown");
    }
    if (p.find('{') != std::string::npos) {
        c.nontrivial();
    }
}

PROPERTY(literals, o.quick = 240000; o.thorough = 600000;
    o.rule = "arbitrary text with its braces doubled is a pattern which renders as that text; non-trivial: contains a brace")
{
    std::string p = gen_pattern(c), escaped;
    for (char ch : p) {
        escaped += ch;
        if (ch == '{' || ch == '}') {
            escaped += ch;
        }
    }
    c.note("text " + pbt::show(p));
    const auto formatter = compile(escaped, false);
    CHECK_THAT(formatter, "an escaped text was refused");
    const auto e = gen_event(c);
    const auto o = render(*formatter, e);
    CHECK_THAT(o.ok, "rendering failed: " << o.text);
    CHECK_EQ_STR(o.text, p, "literal text");
    if (escaped.size() != p.size()) {
        c.nontrivial();
    }
}

PROPERTY(concatenation, o.quick = 40000; o.thorough = 1000000;
    o.rule = "the concatenation of two accepted patterns is accepted and renders as the concatenation of their renderings, failing "
             "only when one of them does; non-trivial: both have a placeholder")
{
    const auto a = gen_pattern(c), b = gen_pattern(c);
    if (huge(a + b)) {
        throw pbt::Discard{};
    }
    c.note("patterns " + pbt::show(a) + " and " + pbt::show(b));
    const auto fa = compile(a, true), fb = compile(b, true);
    const auto fab = compile(a + b, true);
    if (fa && fb) {
        CHECK_THAT(fab, "both halves were accepted, not the whole");
        const auto e = gen_event(c);
        const auto ra = render(*fa, e), rb = render(*fb, e), rab = render(*fab, e);
        CHECK_THAT(rab.ok == (ra.ok && rb.ok), "the whole and the halves fail differently: " << ra.text << " | " << rb.text << " | " << rab.text);
        if (rab.ok) {
            CHECK_EQ_STR(rab.text, ra.text + rb.text, "concatenation");
            c.label("rendered");
        }
        if (a.find('{') != std::string::npos && b.find('{') != std::string::npos) {
            c.nontrivial();
        }
    }
}
