// C07: the string formatter renders events as its pattern says.
#include <errno.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cmath>
#include <sstream>
#include <stdexcept>

#include <boost/optional/optional.hpp>

#include <blackhole/builder.hpp>
#include <blackhole/config/factory.hpp>
#include <blackhole/config/json.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/registry.hpp>

#include "fmtref.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
using blackhole::record_t;
using blackhole::string_view;

typedef blackhole::formatter::string_t string_t;

std::string escape(const std::string& s) {
    std::string r;
    for (char ch : s) {
        r += ch;
        if (ch == '{' || ch == '}') {
            r += ch;
        }
    }
    return r;
}

std::string name_of_thread() {
    char buffer[16] = {};
    ::pthread_getname_np(::pthread_self(), buffer, sizeof buffer);
    return buffer;
}

// Gives the thread another name for a while.
class Named {
    const std::string old;

public:
    explicit Named(const std::string& name) : old(name_of_thread()) { ::pthread_setname_np(::pthread_self(), name.c_str()); }
    ~Named() { ::pthread_setname_np(::pthread_self(), old.c_str()); }
};

struct Machine {
    pbt::Case& c;
    Event e;
    std::string pattern, expected;
    bool missing = false;
    bool lwp = false;
    int placeholders = 0;
    bool specs = false, leftover = false, optional = false;

    // 0 none, 1 mapping function, 2 configured names
    int mapping;
    std::vector<std::string> names;

    explicit Machine(pbt::Case& c) : c(c), e(gen_event(c)) {
        mapping = static_cast<int>(c.draw(2));
        if (mapping == 2) {
            const auto n = c.range(1, 6);
            for (int i = 0; i < n; ++i) {
                names.push_back(c.chance(60) ? c.over("DEBUGINFOWARNerror{}%", 8) : c.utf8(c.chance(10) ? 60 : 10));
            }
        }
    }

    void literal() {
        const auto text = c.chance(50) ? c.utf8(20) : c.over("{}[]: %a", 8);
        pattern += escape(text);
        expected += text;
    }

    // ":" + spec, or nothing at all.
    std::string colon(const Spec& s) {
        const auto text = s.text();
        if (text.empty() && c.chance(80)) {
            return "";
        }
        specs = true;
        return ":" + text;
    }

    void message() {
        const auto s = c.chance(60) ? Spec() : gen_string_spec(c);
        pattern += "{message" + colon(s) + "}";
        expected += s.string(e.formatted());
    }

    void severity() {
        const bool negative = e.severity < 0;
        const std::uint64_t abs = negative ? 0ull - static_cast<std::uint64_t>(static_cast<std::int64_t>(e.severity)) : static_cast<std::uint64_t>(e.severity);
        if (c.chance(40)) {
            auto s = gen_int_spec(c, true, 'd');
            pattern += "{severity" + colon(s) + "}";
            expected += s.integer(negative, abs);
            return;
        }
        if (mapping == 1) {
            auto s = c.chance(50) ? Spec() : gen_string_spec(c);
            pattern += "{severity" + colon(s) + "}";
            expected += s.string("<" + std::to_string(e.severity) + ">");
        } else if (mapping == 2 && e.severity >= 0 && static_cast<std::size_t>(e.severity) < names.size()) {
            auto s = c.chance(50) ? Spec() : gen_string_spec(c);
            pattern += "{severity" + colon(s) + "}";
            expected += s.string(names[static_cast<std::size_t>(e.severity)]);
        } else {
            // Numbers, the type must not be the one of strings then.
            Spec s;
            gen_align(c, s, false);
            pattern += "{severity" + colon(s) + "}";
            expected += s.integer(negative, abs);
        }
    }

    void timestamp() {
        if (c.chance(30)) {
            auto s = gen_int_spec(c, true, 'd');
            pattern += "{timestamp" + colon(s) + "}";
            expected += s.integer(false, static_cast<std::uint64_t>(e.us));
            return;
        }
        std::string format = "%Y-%m-%d %H:%M:%S.%f";
        std::string inner;
        if (c.chance(60)) {
            format.clear();
            const auto n = c.range(1, 6);
            for (int i = 0; i < n; ++i) {
                format += c.pick<std::string>({"%Y", "%m", "%d", "%H", "%M", "%S", "%f", "%j", " ", "-", ":", "T", "at "});
            }
            inner = "{" + format + "}";
        }
        Spec s;
        if (c.chance(50)) {
            s = gen_string_spec(c);
        }
        if (inner.empty()) {
            // The last character tells the type.
            if (!s.type && (s.width < 0 && s.precision < 0 && s.align)) {
                s.type = 's';
            }
            pattern += "{timestamp" + colon(s) + "}";
        } else {
            if (!s.type && c.chance(50)) {
                s.type = 's';
            }
            pattern += "{timestamp:" + inner + s.text() + "}";
        }
        expected += s.string(ref_time(format, e.us));
    }

    void process() {
        if (c.chance(50)) {
            auto s = gen_int_spec(c, false, 'd');
            if (c.chance(50)) {
                s = Spec();
            }
            pattern += "{process" + colon(s) + "}";
            expected += s.integer(false, static_cast<std::uint64_t>(::getpid()));
        } else {
            auto s = gen_string_spec(c, true);
            pattern += "{process" + colon(s) + "}";
            expected += s.string(program_invocation_short_name);
        }
    }

    void thread() {
        switch (c.draw(3)) {
        case 0: {
            pattern += "{thread}";
            Spec s;
            s.alt = true;
            s.type = 'x';
            expected += s.integer(false, static_cast<std::uint64_t>(::pthread_self()));
            break;
        }
        case 1: {
            auto s = gen_int_spec(c, false, 'x');
            pattern += "{thread" + colon(s) + "}";
            expected += s.integer(false, static_cast<std::uint64_t>(::pthread_self()));
            break;
        }
        case 2: {
            auto s = gen_int_spec(c, false, 'd');
            pattern += "{thread" + colon(s) + "}";
            expected += s.integer(false, static_cast<std::uint64_t>(::syscall(SYS_gettid)));
            lwp = true;
            break;
        }
        default: {
            auto s = gen_string_spec(c, true);
            pattern += "{thread" + colon(s) + "}";
            expected += s.string(name_of_thread());
        }
        }
    }

    const Attr* find(const std::string& name) const {
        for (auto& list : e.lists) {
            for (auto& a : list) {
                if (a.key == name) {
                    return &a;
                }
            }
        }
        return nullptr;
    }

    static bool usable(const std::string& name) {
        if (name.empty() || name == "message" || name == "severity" || name == "timestamp" || name == "process" || name == "thread" || name == "...") {
            return false;
        }
        for (char ch : name) {
            if (!std::isalnum(static_cast<unsigned char>(ch)) && ch != '_' && ch != '.') {
                return false;
            }
        }
        return true;
    }

    std::string some_name(bool& present) {
        std::vector<std::string> all;
        for (auto& list : e.lists) {
            for (auto& a : list) {
                if (usable(a.key)) {
                    all.push_back(a.key);
                }
            }
        }
        present = !all.empty();
        return all.empty() ? "absent" : c.pick(all);
    }

    void required() {
        bool present;
        auto name = some_name(present);
        if (!present || c.chance(3)) {
            if (c.chance(60)) {
                return;
            }
            name = "absent" + std::to_string(c.draw(99));
        }
        const auto a = find(name);
        if (!a) {
            missing = true;
            pattern += "{" + name + (c.chance(50) ? ":>5" : "") + "}";
            return;
        }
        const auto s = c.chance(50) ? Spec() : gen_spec(c, a->val);
        pattern += "{" + name + colon(s) + "}";
        expected += s(a->val);
    }

    void with_default() {
        bool present;
        auto name = some_name(present);
        if (!present || c.chance(50)) {
            name = "absent" + std::to_string(c.draw(99));
        }
        optional = true;
        const auto a = find(name);
        // The grammar of specs is narrower here: [[fill]align][#][0][width][.precision]type.
        auto narrow = [&](Spec s) {
            s.sign = 0;
            if (s.align == '=') {
                s.align = 0;
            }
            if (s.type != 0 && std::string("sdfx").find(s.type) == std::string::npos) {
                s.type = 'd';
            }
            return s;
        };
        Val other;
        std::string text;
        Spec s;
        if (a && a->val.kind == Kind::function) {
            return;
        }
        const int kind = a ? (a->val.kind == Kind::sint || a->val.kind == Kind::uint ? 0 : a->val.kind == Kind::real ? 1 : 2) : static_cast<int>(c.draw(2));
        if (kind == 0) {
            other.kind = Kind::sint;
            other.i = a && a->val.kind == Kind::uint ? static_cast<std::int64_t>(c.draw(1000000)) : c.i64();
            text = std::to_string(other.i);
            s = narrow(gen_int_spec(c, false));
        } else if (kind == 1) {
            other.kind = Kind::real;
            other.d = static_cast<double>(c.range(-100000, 100000)) / 8;
            std::ostringstream stream;
            stream.imbue(std::locale::classic());
            stream << std::fixed << other.d;
            text = stream.str();
            if (c.chance(20)) {
                other.d = c.pick<double>({1.0 / 0.0, -1.0 / 0.0, std::nan("")});
                text = std::isnan(other.d) ? "nan" : other.d > 0 ? "inf" : "-inf";
            } else if (c.chance(40)) {
                other.d = c.finite();
                if (std::isfinite(other.d)) {
                    char buffer[64];
                    std::snprintf(buffer, sizeof(buffer), "%.17g", other.d);
                    text = buffer;
                    if (text.find_first_of(".e") == std::string::npos) {
                        text += c.pick<std::string>({".0", "e0", "."});
                    }
                } else {
                    other.d = 0.5;
                    text = c.pick<std::string>({".5", "5e-1", "0.5", "+.5", "00.50"});
                }
            }
            s = narrow(gen_real_spec(c));
            s.type = c.chance(50) ? 'f' : 0;
            if (!std::isfinite(other.d)) {
                s.zero = false;
            }
        } else {
            other.kind = Kind::string;
            text = c.pick<std::string>({"none", "-", "", "no value", "{}", "a{b}c", "n/a", ":", "default", "<absent>", "1,000", "1,5", "1.234,5", "12,345.5"});
            if (c.chance(50)) {
                text = part("0123456789.-e");
                char* end = nullptr;
                std::strtod(text.c_str(), &end);
                if (text.find(":default}") != std::string::npos || (end != text.c_str() && std::strlen(end) == 0)) {
                    // The end of it or a number.
                    text = "-";
                }
            }
            other.s = text;
            Val probe;
            probe.kind = Kind::string;
            s = narrow(gen_spec(c, probe));
            if (a && a->val.kind == Kind::boolean) {
                s.precision = -1;
                s.type = 0;
                s.alt = s.zero = false;
            }
        }
        if (s.text().empty()) {
            // A spec is required by the grammar.
            s.align = '<';
        }
        if (s.text()[0] == '}') {
            return;
        }
        pattern += "{" + name + ":{" + text + ":default}" + s.text() + "}";
        expected += s(a ? a->val : other);
        specs = true;
    }

    // Any text inside of a placeholder, braces have to be balanced there.
    std::string part(const std::string& usual) {
        auto text = [&] {
            auto r = c.chance(50) ? c.over(usual, 4) : c.chance(30) ? c.over(":spd ", 6) : c.utf8(8);
            r.erase(std::remove_if(r.begin(), r.end(), [](char ch) { return ch == '{' || ch == '}'; }), r.end());
            return r;
        };
        auto r = text();
        if (c.chance(20)) {
            r += "{" + (c.chance(50) ? text() : "") + "}";
            if (c.chance(50)) {
                r += text();
            }
        }
        return r;
    }

    void rest() {
        leftover = true;
        std::string pat, sep = ", ", ext_pat, ext_sep;
        bool own = c.chance(60);
        struct Piece {
            int kind;
            std::string text;
            Spec spec;
        };
        std::vector<Piece> pieces;
        if (own) {
            const auto n = c.range(0, 5);
            for (int i = 0; i < n; ++i) {
                Piece p;
                p.kind = static_cast<int>(c.draw(2));
                if (p.kind == 0) {
                    p.text = part("=: ;ab[]|");
                    if (pieces.size() && pieces.back().kind == 0) {
                        continue;
                    }
                    pat += escape(p.text);
                } else {
                    if (p.kind == 1 && c.chance(40)) {
                        if (c.chance(50)) {
                            p.spec.align = c.pick<char>({'<', '>', '^'});
                        }
                        if (c.chance(60)) {
                            p.spec.width = static_cast<int>(c.range(1, 20));
                        }
                        p.spec.type = 's';
                    }
                    const auto t = p.spec.text();
                    pat += std::string(p.kind == 1 ? "{name" : "{value") + (t.empty() ? "" : ":" + t) + "}";
                }
                pieces.push_back(p);
            }
            ext_pat = "{" + pat + ":p}";
            // It ends the extension, must not be a part of the pattern.
            if (pat.find(":p}") != std::string::npos || pat.find(":s}") != std::string::npos) {
                // ":s}" is legal inside of a pattern; ":p}" cannot be produced by the pieces.
            }
        }
        if (c.chance(50)) {
            sep = part(", |;\t=");
            if (sep.find(":s}") != std::string::npos || sep.find(":p}") != std::string::npos) {
                // The end of it or of a pattern.
                sep = ":s";
            }
            ext_sep = "{" + sep + ":s}";
        }
        Spec s;
        if (c.chance(40)) {
            if (c.chance(50)) {
                s.align = c.pick<char>({'<', '>', '^'});
            }
            if (c.chance(70)) {
                s.width = static_cast<int>(c.range(1, 80));
            }
        }
        std::string text;
        bool any = false;
        for (auto& list : e.lists) {
            for (auto& a : list) {
                if (any) {
                    text += sep;
                }
                any = true;
                if (!own) {
                    text += a.key + ": " + Spec()(a.val);
                } else {
                    for (auto& p : pieces) {
                        if (p.kind == 0) {
                            text += p.text;
                        } else if (p.kind == 1) {
                            text += p.spec.string(a.key);
                        } else {
                            text += p.spec(a.val);
                        }
                    }
                }
            }
        }
        const auto spec = s.text();
        if (ext_pat.empty() && ext_sep.empty() && spec.empty() && c.chance(80)) {
            pattern += "{...}";
        } else {
            pattern += "{...:" + (sep.find('{') != std::string::npos || c.chance(80) ? ext_pat + ext_sep : ext_sep + ext_pat) + spec + "s}";
        }
        // Nothing at all is printed when there is nothing to print.
        expected += text.empty() ? "" : s.string(text);
    }

    void piece() {
        ++placeholders;
        switch (c.weighted({4, 2, 2, 2, 1, 1, 5, 2, 2})) {
        case 0: --placeholders; literal(); break;
        case 1: message(); break;
        case 2: severity(); break;
        case 3: timestamp(); break;
        case 4: process(); break;
        case 5: thread(); break;
        case 6: required(); break;
        case 7: with_default(); break;
        case 8: rest(); break;
        }
    }

    std::unique_ptr<blackhole::formatter_t> build() {
        if (mapping == 2) {
            std::string json = "{\"formatter\": {\"type\": \"string\", \"pattern\": " + quote(pattern) + ", \"sevmap\": [";
            for (std::size_t i = 0; i < names.size(); ++i) {
                json += (i ? "," : "") + quote(names[i]);
            }
            json += "]}}";
            std::istringstream stream(json);
            auto config = blackhole::config::factory_traits<blackhole::config::json_t>::construct(stream);
            return blackhole::factory<string_t>().from(*config->config()["formatter"].unwrap());
        }
        blackhole::builder<string_t> builder(pattern);
        if (mapping == 1) {
            auto fn = [](int severity, const std::string& spec, blackhole::writer_t& wr) {
                wr.write(spec, "<" + std::to_string(severity) + ">");
            };
            if (c.chance(50)) {
                return std::move(builder).mapping(fn).build();
            }
            builder.mapping(fn);
        }
        return std::move(builder).build();
    }
};

void check(pbt::Case& c, Machine& m) {
    c.note("pattern " + pbt::show(m.pattern));
    c.note("event " + m.e.repr());
    const auto formatter = m.build();
    Emitted rec(m.e);
    // The formatter is used more than once and appends to what is there.
    const int times = c.chance(20) ? 2 : 1;
    for (int i = 0; i < times; ++i) {
        blackhole::writer_t wr;
        std::string before;
        if (c.chance(20)) {
            before = "before {} ";
            wr.inner << before;
        }
        bool thrown = false;
        try {
            call(!m.lwp && c.chance(4), [&] { formatter->format(rec.record, wr); });
        } catch (const std::exception& err) {
            thrown = true;
            CHECK_THAT(m.missing, "formatting failed: " << err.what() << " (expected " << pbt::show(m.expected) << ")");
        }
        CHECK_THAT(thrown == m.missing, "a missing required attribute was not reported");
        if (!thrown) {
            CHECK_EQ_STR(str(wr.result()), before + m.expected, "rendered line");
        }
    }
}

}  // namespace

PROPERTY(rendering, o.quick = 300000; o.thorough = 3000000;
    o.rule = "patterns of up to 8 pieces generated together with their reference rendering (all placeholder kinds, specs, defaults, "
             "leftovers with own pattern and separator, severity maps by function and configuration) over random events held in "
             "exactly-sized unterminated buffers; non-trivial: at least two placeholders and a spec, a default or a leftover")
{
    const Foreign foreign(c);
    std::unique_ptr<Named> named;
    if (c.chance(10)) {
        const auto name = c.over("wrk:{} -%\xd0\xb6", 15);
        c.note("thread " + pbt::show(name));
        named.reset(new Named(name));
    }
    Machine m(c);
    const auto n = c.range(1, 8);
    for (int i = 0; i < n; ++i) {
        m.piece();
    }
    check(c, m);
    if (m.placeholders >= 2 && (m.specs || m.optional || m.leftover)) {
        c.nontrivial();
    }
    if (m.missing) c.label("missing attribute");
    if (m.specs) c.label("spec");
    if (m.optional) c.label("default");
    if (m.leftover) c.label("leftover");
}
