// C21: the variadic facade.
#include <ostream>
#include <stdexcept>

#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/facade.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/message.hpp>
#include <blackhole/root.hpp>
#include <blackhole/wrapper.hpp>

#include "fmtref.hpp"
#include "recordgen.hpp"

namespace {

// User type printed by its stream operator, which counts.
struct Streamed {
    std::string text;
    int* count;
};

std::ostream& operator<<(std::ostream& stream, const Streamed& v) {
    ++*v.count;
    return stream << v.text;
}

// User type convertible to integer by being an enumeration.
enum Level { low = 3, high = 70000 };

using namespace bh;

// Functions are observed as the text they print.
Attrs plain(Attrs attrs) {
    for (auto& a : attrs) {
        if (a.val.kind == Kind::function) {
            a.val.kind = Kind::string;
        }
    }
    return attrs;
}

struct Seen {
    int severity;
    std::string pattern, formatted;
    Attrs attrs;
};

class Handler : public blackhole::handler_t {
public:
    std::vector<Seen>& seen;
    explicit Handler(std::vector<Seen>& seen) : seen(seen) {}
    auto handle(const blackhole::record_t& r) -> void override {
        seen.push_back({static_cast<int>(r.severity()), str(r.message()), str(r.formatted()), plain(flatten(r.attributes()))});
    }
};

enum ArgKind { k_int, k_string, k_real, k_streamed, k_short, k_long, k_llong, k_ushort, k_uint, k_ulong, k_ullong, k_bool, k_char,
               k_float, k_cstring, k_enum, k_function, k_pointer, k_array, k_count };

// An argument: the real thing and what it is for the reference.
struct Arg {
    int kind = 0;
    Val model;
    bool character = false;
    std::string text;
    int* count = nullptr;
    std::string repr() const {
        static const char* names[] = {"int", "string", "double", "streamed", "short", "long", "long long", "ushort", "unsigned", "ulong",
            "ullong", "bool", "char", "float", "char*", "enum", "function", "pointer", "char[6]"};
        return std::string(names[kind]) + " " + model.repr();
    }
};

template<typename F>
void few(const Arg& a, F f) {
    switch (a.kind) {
    case k_int: return f(static_cast<int>(a.model.i));
    case k_string: return f(a.text);
    case k_real: return f(a.model.d);
    default: return f(Streamed{a.text, a.count});
    }
}

template<typename F>
void all(const Arg& a, F f) {
    switch (a.kind) {
    case k_short: return f(static_cast<short>(a.model.i));
    case k_long: return f(static_cast<long>(a.model.i));
    case k_llong: return f(static_cast<long long>(a.model.i));
    case k_ushort: return f(static_cast<unsigned short>(a.model.u));
    case k_uint: return f(static_cast<unsigned>(a.model.u));
    case k_ulong: return f(static_cast<unsigned long>(a.model.u));
    case k_ullong: return f(static_cast<unsigned long long>(a.model.u));
    case k_bool: return f(a.model.b);
    case k_char: return f(a.text[0]);
    case k_float: return f(static_cast<float>(a.model.d));
    case k_cstring: return f(a.text.c_str());
    case k_enum: return f(static_cast<Level>(a.model.i));
    case k_function: {
        auto text = a.text;
        auto count = a.count;
        return f([text, count](std::ostream& stream) -> std::ostream& {
            ++*count;
            return stream << text;
        });
    }
    case k_pointer: return f(reinterpret_cast<const void*>(static_cast<std::uintptr_t>(a.model.u)));
    case k_array: {
        char array[6] = {};
        std::copy(a.text.begin(), a.text.end(), array);
        const char(&ref)[6] = array;
        return f(ref);
    }
    default: return few(a, f);
    }
}

std::string no_nul(std::string s) {
    for (auto& ch : s) {
        if (ch == 0) {
            ch = '.';
        }
    }
    return s;
}

Arg gen_arg(pbt::Case& c, int kinds, int* count) {
    Arg a;
    a.kind = static_cast<int>(c.draw(static_cast<std::uint64_t>(kinds - 1)));
    a.count = count;
    auto sint = [&](std::int64_t lo, std::int64_t hi) {
        a.model.kind = Kind::sint;
        a.model.i = c.chance(30) ? c.pick<std::int64_t>({lo, hi}) : c.chance(50) ? c.range(-20 < lo ? lo : -20, 120) : c.range(lo, hi);
    };
    auto uint = [&](std::uint64_t hi) {
        a.model.kind = Kind::uint;
        a.model.u = c.chance(30) ? hi : c.chance(50) ? c.draw(120) : c.draw(hi);
    };
    auto text = [&](std::string s) {
        a.model.kind = Kind::string;
        a.model.s = a.text = s;
    };
    switch (a.kind) {
    case k_int: sint(INT32_MIN, INT32_MAX); break;
    case k_short: sint(INT16_MIN, INT16_MAX); break;
    case k_long:
    case k_llong: sint(INT64_MIN + 1, INT64_MAX - 1); break;
    case k_ushort: uint(UINT16_MAX); break;
    case k_uint: uint(UINT32_MAX); break;
    case k_ulong:
    case k_ullong: uint(UINT64_MAX - 1); break;
    case k_bool:
        a.model.kind = Kind::boolean;
        a.model.b = c.chance(50);
        break;
    case k_char:
        text(std::string(1, static_cast<char>(c.range(1, 126))));
        a.character = true;
        break;
    case k_real:
        a.model.kind = Kind::real;
        a.model.d = c.finite();
        break;
    case k_float:
        a.model.kind = Kind::real;
        a.model.d = static_cast<float>(c.range(-1000000, 1000000)) / static_cast<float>(c.pick({1, 3, 7, 16, 1000}));
        break;
    case k_string: text(c.utf8(c.chance(8) ? 900 : 20)); break;
    case k_cstring: text(no_nul(c.utf8(20))); break;
    case k_array: text(c.over("abcxyz {}%", 5)); break;
    case k_enum:
        a.model.kind = Kind::sint;
        a.model.i = c.pick({3, 70000});
        break;
    case k_pointer:
        // Printed in hexadecimal with a prefix.
        a.model.kind = Kind::uint;
        a.model.u = c.u64();
        break;
    default: text(c.utf8(20)); break;
    }
    return a;
}

Spec gen_arg_spec(pbt::Case& c, const Arg& a) {
    if (c.chance(50)) {
        return Spec();
    }
    if (a.kind == k_pointer) {
        Spec s;
        gen_align(c, s, false);
        return s;
    }
    if (a.character) {
        Spec s;
        gen_align(c, s, false);
        if (c.chance(30)) {
            s.type = 'c';
        }
        return s;
    }
    return gen_spec(c, a.model);
}

std::string render(const Arg& a, Spec s) {
    if (a.kind == k_pointer) {
        s.alt = true;
        s.type = 'x';
        return s.integer(false, a.model.u);
    }
    return s(a.model);
}

// A pattern and what it must come out as.
struct Pattern {
    std::string text, expected;
    std::vector<int> uses;
};

void literal(pbt::Case& c, Pattern& p) {
    const std::string s = c.chance(30) ? c.over("{}", 3) : no_nul(c.utf8(c.chance(4) ? 700 : 12));
    for (char ch : s) {
        p.text += ch;
        if (ch == '{' || ch == '}') {
            p.text += ch;
        }
        p.expected += ch;
    }
}

Pattern gen_pattern(pbt::Case& c, const std::vector<Arg>& args) {
    Pattern p;
    p.uses.assign(args.size(), 0);
    const bool indexed = c.chance(40);
    const auto n = indexed ? c.draw(6) : c.range(0, static_cast<std::int64_t>(args.size()));
    for (std::int64_t i = 0; i < static_cast<std::int64_t>(n); ++i) {
        if (c.chance(70)) {
            literal(c, p);
        }
        const std::size_t at = indexed ? c.draw(args.size() - 1) : static_cast<std::size_t>(i);
        const auto spec = gen_arg_spec(c, args[at]);
        p.text += "{";
        if (indexed) {
            p.text += std::to_string(at);
        }
        const auto text = spec.text();
        if (!text.empty() || c.chance(10)) {
            p.text += ":" + text;
        }
        p.text += "}";
        p.expected += render(args[at], spec);
        if (p.text[p.text.size() - 2] == ':') {
            // The library takes the brace for a fill character if an alignment comes next.
            p.text += ",";
            p.expected += ",";
        }
        ++p.uses[at];
    }
    if (c.chance(70)) {
        literal(c, p);
    }
    return p;
}

struct Setup {
    std::vector<Seen> seen;
    int threshold;
    bool wrapped;
    Attrs inner;
    std::unique_ptr<blackhole::root_logger_t> root;
    std::unique_ptr<blackhole::wrapper_t> wrapper;

    explicit Setup(pbt::Case& c) : threshold(static_cast<int>(c.range(-1, 2))), wrapped(c.chance(40)) {
        std::vector<std::unique_ptr<blackhole::handler_t>> handlers;
        handlers.emplace_back(new Handler(seen));
        const int t = threshold;
        root.reset(new blackhole::root_logger_t([t](const blackhole::record_t& r) { return r.severity() >= t; }, std::move(handlers)));
        if (wrapped) {
            GenOptions o;
            o.max = 2;
            const auto attrs = gen_attrs(c, o);
            wrapper.reset(new blackhole::wrapper_t(*root, owned_of(attrs)));
            inner = plain(attrs);
        }
    }

    template<typename F>
    void log(F f) {
        blackhole::logger_t& logger = wrapped ? static_cast<blackhole::logger_t&>(*wrapper) : *root;
        blackhole::logger_facade<blackhole::logger_t> facade(logger);
        f(facade);
    }

    void check(int severity, const std::string& pattern, const std::string& formatted, Attrs attrs) {
        const bool accepted = severity >= threshold;
        CHECK_THAT(seen.size() == (accepted ? 1u : 0u), "an " << (accepted ? "accepted" : "rejected") << " event was handled "
                                                              << seen.size() << " times");
        if (accepted) {
            attrs = plain(attrs);
            attrs.insert(attrs.end(), inner.begin(), inner.end());
            CHECK_THAT(seen[0].severity == severity, "severity " << seen[0].severity << " instead of " << severity);
            CHECK_EQ_STR(seen[0].pattern, pattern, "message pattern");
            CHECK_EQ_STR(seen[0].formatted, formatted, "formatted message");
            CHECK_THAT(seen[0].attrs == attrs, "attributes " << bh::repr(seen[0].attrs) << " instead of " << bh::repr(attrs));
        }
        seen.clear();
    }
};

template<typename Facade, typename... Args>
void call(Facade& facade, int severity, const blackhole::string_view& pattern, const blackhole::attribute_list* attrs,
          const Args&... args) {
    if (attrs) {
        facade.log(severity, pattern, args..., *attrs);
    } else {
        facade.log(severity, pattern, args...);
    }
}

void dispatch(Setup& setup, int severity, const blackhole::string_view& pattern, const blackhole::attribute_list* attrs,
              const std::vector<Arg>& args) {
    setup.log([&](auto& facade) {
        switch (args.size()) {
        case 0: return call(facade, severity, pattern, attrs);
        case 1: return all(args[0], [&](const auto& a) { call(facade, severity, pattern, attrs, a); });
        case 2:
            return all(args[0], [&](const auto& a) {
                few(args[1], [&](const auto& b) { call(facade, severity, pattern, attrs, a, b); });
            });
        case 3:
            return few(args[0], [&](const auto& a) {
                few(args[1], [&](const auto& b) {
                    few(args[2], [&](const auto& d) { call(facade, severity, pattern, attrs, a, b, d); });
                });
            });
        default:
            // Many arguments take another path of the formatting library.
            return few(args[0], [&](const auto& a) {
                call(facade, severity, pattern, attrs, a, args[1].text, args[2].model.i, args[3].model.d, args[4].text.c_str(),
                     args[5].model.u, args[6].text, args[7].model.i, args[8].model.b, args[9].model.d, args[10].text,
                     args[11].model.u, args[12].text, args[13].model.i, args[14].text, args[15].model.u, args[16].text);
            });
        }
    });
}

Arg fixed(pbt::Case& c, int kind, int* count) {
    Arg a;
    a.count = count;
    a.kind = kind;
    switch (kind) {
    case k_long:
        a.model.kind = Kind::sint;
        a.model.i = c.i64();
        break;
    case k_ulong:
        a.model.kind = Kind::uint;
        a.model.u = c.u64();
        break;
    case k_real:
        a.model.kind = Kind::real;
        a.model.d = c.finite();
        break;
    case k_bool:
        a.model.kind = Kind::boolean;
        a.model.b = c.chance(50);
        break;
    default:
        a.model.kind = Kind::string;
        a.model.s = a.text = no_nul(c.utf8(12));
    }
    return a;
}

std::vector<Arg> gen_args(pbt::Case& c, int* count) {
    std::vector<Arg> args;
    switch (c.weighted({5, 5, 4, 2, 2})) {
    case 0: args.push_back(gen_arg(c, k_count, count)); break;
    case 1:
        args.push_back(gen_arg(c, k_count, count));
        args.push_back(gen_arg(c, 4, count));
        break;
    case 2:
        for (int i = 0; i < 3; ++i) {
            args.push_back(gen_arg(c, 4, count));
        }
        break;
    case 3: break;
    default:
        args.push_back(gen_arg(c, 4, count));
        for (int kind : {k_string, k_long, k_real, k_cstring, k_ulong, k_string, k_long, k_bool, k_real, k_string, k_ulong, k_string,
                         k_long, k_string, k_ulong, k_string}) {
            args.push_back(fixed(c, kind, count));
        }
    }
    return args;
}

PROPERTY(facade_calls, o.quick = 360000; o.thorough = 3000000;
         o.rule = "an accepted event with at least two pieces of pattern, or with a rejected or attributed variant of them") {
    const Foreign foreign(c);
    int count = 0;
    Setup setup(c);
    const int severity = static_cast<int>(c.range(-2, 3));
    auto args = gen_args(c, &count);
    Pattern p;
    if (args.empty()) {
        // Without arguments nothing is formatted.
        p.text = p.expected = c.chance(50) ? c.over("{}0:ab", 8) : c.utf8(c.chance(5) ? 700 : 30);
    } else {
        p = gen_pattern(c, args);
    }
    const bool attributed = c.chance(50);
    const Attrs attrs = attributed ? gen_attrs(c) : Attrs();
    c.note("severity " + std::to_string(severity) + " threshold " + std::to_string(setup.threshold) + " pattern " + pbt::show(p.text));
    for (auto& a : args) {
        c.note("argument " + a.repr());
    }
    if (attributed) {
        c.note("attributes " + bh::repr(attrs));
    }

    Arena arena;
    const auto pattern = arena.view(p.text, c.chance(50));
    const auto list = list_of(attrs, arena);
    dispatch(setup, severity, pattern, attributed ? &list : nullptr, args);

    int expected = 0;
    for (std::size_t i = 0; i < args.size(); ++i) {
        if (args[i].kind == k_streamed || args[i].kind == k_function) {
            expected += p.uses[i];
        }
    }
    const bool accepted = severity >= setup.threshold;
    CHECK_THAT(count == (accepted ? expected : 0), "user types were printed " << count << " times instead of " << (accepted ? expected : 0));
    setup.check(severity, p.text, p.expected, attrs);
    c.label(accepted ? "accepted" : "rejected");
    c.label(args.empty() ? "plain" : args.size() > 3 ? "many" : "some");
    if (!args.empty() && (p.uses.size() > 1 || attributed || !accepted)) {
        c.nontrivial();
    }
    // The facade keeps nothing: the next call is as good.
    dispatch(setup, severity, pattern, attributed ? &list : nullptr, args);
    setup.check(severity, p.text, p.expected, attrs);
}

// Any text as a pattern: what the formatting library makes of it, or an exception, and later calls work.
PROPERTY(facade_any_pattern, o.quick = 320000; o.thorough = 2000000; o.rule = "a pattern with at least one brace") {
    const Foreign foreign(c);
    Setup setup(c);
    setup.threshold = INT32_MIN;
    setup.root->filter([](const blackhole::record_t&) { return true; });
    const std::string text = c.chance(70) ? c.over("{}{}01:<>=^+-# .dsxef%", 14) : no_nul(c.bytes(20));
    const int a = static_cast<int>(c.range(-20, 20));
    const std::string b = c.utf8(10);
    c.note("pattern " + pbt::show(text) + " arguments " + std::to_string(a) + " " + pbt::show(b));

    std::string reference;
    bool fine = true;
    try {
        reference = blackhole::fmt::format(text, a, b);
    } catch (const blackhole::fmt::FormatError&) {
        fine = false;
    }
    Arena arena;
    const auto pattern = arena.view(text);
    const auto attrs = gen_attrs(c);
    const auto list = list_of(attrs, arena);
    bool thrown = false;
    try {
        setup.log([&](auto& facade) { facade.log(1, pattern, a, b, list); });
    } catch (const std::exception&) {
        thrown = true;
    }
    if (fine) {
        CHECK_THAT(!thrown, "an exception for a correct pattern");
        setup.check(1, text, reference, attrs);
        c.label("correct");
    } else {
        c.label("malformed");
    }
    if (text.find_first_of("{}") != std::string::npos) {
        c.nontrivial();
    }
    setup.seen.clear();
    setup.log([&](auto& facade) { facade.log(2, "{}-{}", a, b); });
    setup.check(2, "{}-{}", std::to_string(a) + "-" + b, Attrs());
}

// Patterns split beforehand.
struct Plain {
    template<typename F>
    static void visit(const Arg& a, F f) {
        switch (a.kind) {
        case k_int: return f(static_cast<int>(a.model.i));
        case k_string: return f(a.text);
        default: return f(static_cast<unsigned long>(a.model.u));
        }
    }
};

template<std::size_t N>
struct Compiled {
    static void run(Setup& setup, int severity, std::size_t n, const blackhole::string_view& text, const std::vector<Arg>& args) {
        if (n != N) {
            return Compiled<N - 1>::run(setup, severity, n, text, args);
        }
        const blackhole::detail::formatter<N> formatter(text);
        setup.log([&](auto& facade) {
            Plain::visit(args[0], [&](const auto& a) {
                Plain::visit(args[1], [&](const auto& b) {
                    facade.log(severity, formatter, a, b, args[2].text, args[3].model.i, args[4].text, args[5].model.u, args[6].text, args[7].text);
                });
            });
        });
    }
};

template<>
struct Compiled<0> {
    static void run(Setup&, int, std::size_t, const blackhole::string_view&, const std::vector<Arg>&) {
        throw pbt::Discard();
    }
};

PROPERTY(facade_compiled_pattern, o.quick = 160000; o.thorough = 800000; o.rule = "a pattern with at least two placeholders or braces") {
    const Foreign foreign(c);
    Setup setup(c);
    int count = 0;
    const int severity = static_cast<int>(c.range(-2, 3));
    std::vector<Arg> args;
    for (int i = 0; i < 2; ++i) {
        Arg a = gen_arg(c, 2, &count);
        args.push_back(a);
    }
    for (int kind : {k_string, k_long, k_string, k_ulong, k_string, k_string}) {
        args.push_back(fixed(c, kind, &count));
    }
    std::string text, expected;
    std::size_t next = 0, pieces = 0;
    const auto n = c.draw(7);
    for (std::uint64_t i = 0; i < n; ++i) {
        switch (c.weighted({3, 3, 1, 1})) {
        case 0: {
            const auto s = c.over("ab %\n\xc3\xa9", 8);
            text += s;
            expected += s;
            break;
        }
        case 1:
            text += "{}";
            expected += render(args[next], Spec());
            ++next;
            ++pieces;
            break;
        case 2:
            text += "{{";
            expected += "{";
            ++pieces;
            break;
        default:
            text += "}}";
            expected += "}";
            ++pieces;
        }
    }
    c.note("pattern " + pbt::show(text) + " expected " + pbt::show(expected));
    const auto literals = blackhole::detail::literal_count(blackhole::string_view(text.data(), text.size()));
    CHECK_THAT(literals == pieces + 1, "literals: " << literals << " instead of " << pieces + 1);
    Arena arena;
    const auto view = arena.view(text);
    Compiled<8>::run(setup, severity, literals, view, args);
    if (severity >= setup.threshold) {
        CHECK_THAT(setup.seen.size() == 1, "handled " << setup.seen.size() << " times");
        CHECK_EQ_STR(setup.seen[0].formatted, expected, "formatted message");
        CHECK_THAT(setup.seen[0].severity == severity, "severity");
        CHECK_THAT(setup.seen[0].attrs == setup.inner, "attributes");
    } else {
        CHECK_THAT(setup.seen.empty(), "a rejected event was handled");
    }
    if (pieces > 1) {
        c.nontrivial();
    }
}

}  // namespace
