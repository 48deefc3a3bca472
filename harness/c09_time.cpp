// C09: timestamps are rendered as strftime renders the same instant.
#include <ctime>
#include <stdexcept>

#include <blackhole/builder.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/formatter/json.hpp>
#include <blackhole/formatter/string.hpp>
#include <blackhole/formatter/tskv.hpp>

#include "fmtref.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;

const std::vector<std::string>& zones() {
    static const std::vector<std::string> v = {
        "UTC", "MSK-3", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "AEST-10AEDT,M10.1.0,M4.1.0/3",
        "NST3:30NDT,M3.2.0,M11.1.0", "HST10", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "IST-1GMT0,M10.5.0,M3.5.0/1",
    };
    return v;
}

std::int64_t days_from_civil(std::int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    const std::int64_t era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = static_cast<unsigned>(y - era * 400);
    const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<std::int64_t>(doe) - 719468;
}

// Instants around what calendars are bad at.
std::int64_t gen_instant(pbt::Case& c) {
    std::int64_t seconds;
    switch (c.draw(5)) {
    case 0: seconds = c.range(0, 200000); break;
    case 1: seconds = c.range(0, 4102444800ll); break;
    case 2: {
        // Edges of months, leap days, edges of years.
        const auto y = c.range(1970, 2500);
        const auto m = static_cast<unsigned>(c.range(1, 12));
        const auto d = c.pick<unsigned>({1, 28, 29, 30, 31});
        seconds = days_from_civil(y, m, d) * 86400 + c.pick<std::int64_t>({-1, 0, 1, 43200, 86399, 86400});
        break;
    }
    case 3: {
        const auto y = c.pick<std::int64_t>({1972, 1999, 2000, 2001, 2004, 2038, 2100, 2101, 2200, 2300, 2400});
        seconds = days_from_civil(y, static_cast<unsigned>(c.range(1, 3)), static_cast<unsigned>(c.range(1, 31))) * 86400 + c.range(-2, 86401);
        break;
    }
    case 4:
        // Around the changes of clocks.
        seconds = days_from_civil(c.range(1990, 2080), c.pick<unsigned>({3, 4, 9, 10, 11}), static_cast<unsigned>(c.range(1, 31))) * 86400 + c.range(0, 86400);
        break;
    default:
        seconds = c.pick<std::int64_t>({0, 1, 86399, 86400, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 253402300799ll});
    }
    if (seconds < 0) {
        seconds = 0;
    }
    std::int64_t fraction = 0;
    switch (c.draw(3)) {
    case 0: fraction = c.pick<std::int64_t>({0, 1, 9, 10, 99999, 100000, 999999, 500000}); break;
    default: fraction = c.range(0, 999999);
    }
    // The clock of the system counts nanoseconds in 64 bits.
    const std::int64_t limit = 9000000000ll;
    if (seconds > limit) {
        seconds = limit;
    }
    return seconds * 1000000 + fraction;
}

std::string gen_format(pbt::Case& c) {
    std::string r;
    if (c.chance(2)) {
        // Long texts.
        const auto n = c.chance(10) ? c.range(400, 4000) : c.range(80, 400);
        const int fractions = c.pick({0, 1, 20});
        for (int i = 0; i < n; ++i) {
            r += c.chance(fractions) ? "%f" : c.pick<std::string>({"%Y", "%A ", "abcdefgh", "%c"});
        }
        return r;
    }
    const auto n = c.range(1, 8);
    for (int i = 0; i < n; ++i) {
        switch (c.draw(4)) {
        case 0:
        case 1: r += c.pick<std::string>({"%Y", "%m", "%d", "%H", "%M", "%S", "%f", "%j", "%s"}); break;
        case 2: r += c.pick<std::string>({"%a", "%A", "%b", "%B", "%c", "%C", "%D", "%e", "%F", "%g", "%G", "%h", "%I", "%k", "%l", "%n", "%p", "%P", "%r", "%R",
                                          "%t", "%T", "%u", "%U", "%V", "%w", "%W", "%x", "%X", "%y", "%z", "%Z", "%%", "%Ey", "%Od", "%_d", "%-m", "%^a", "%5Y"}); break;
        case 3: r += c.pick<std::string>({"-", ":", "T", " ", ".", "at ", "%%", "f", "s", "%%f", "%%s", "%%%f", "%%%s", "\xd0\xb3", "[", "'"}); break;
        default: r += c.over("abcfsYmd :-/", 4);
        }
    }
    // The empty one means the default.
    return r.empty() ? "%H" : r;
}

struct Zone {
    explicit Zone(const std::string& zone) {
        ::setenv("TZ", zone.c_str(), 1);
        ::tzset();
    }
    ~Zone() {
        ::setenv("TZ", "UTC", 1);
        ::tzset();
    }
};

}  // namespace

PROPERTY(strftime_equivalence, o.quick = 320000; o.thorough = 2500000;
    o.rule = "strftime formats of up to 8 conversions, including %f, %s, %%, glibc flags and texts of kilobytes, over instants around "
             "month, year, leap-day and daylight-saving edges up to 2255 in 10 time zones, rendered by the string, JSON and TSKV "
             "formatters in UTC and local time, against strftime; non-trivial: at least two conversions outside of the first day")
{
    const Foreign foreign(c);
    const auto us = gen_instant(c);
    const auto zone = c.pick(zones());
    const auto format = gen_format(c);
    const bool local = c.chance(50);
    const auto how = c.draw(2);
    c.note("at " + std::to_string(us) + " us in " + zone + (local ? " local" : " utc") + " format " + pbt::show(format));
    Zone guard(zone);
    Event e;
    e.us = us;
    e.message = "m";
    Emitted rec(e);
    blackhole::writer_t wr;
    const auto expected = ref_time(format, us, local);
    if (how == 0) {
        // Local time takes its type at the end, whether or not there is a format, and an alignment.
        const bool standard = c.chance(10);
        const std::string align = c.pick<std::string>({"", "", "<", ">", "^"});
        const std::size_t width = align.empty() ? 0 : 1 + c.draw(59);
        const std::string type = local ? "l" : c.chance(50) || (standard && align.empty()) ? "s" : "";
        const auto pattern = "<{timestamp:" + (standard ? c.pick<std::string>({"", "{}"}) : "{" + format + "}") + align + (align.empty() ? "" : std::to_string(width)) + type + "}>";
        c.note("pattern " + pbt::show(pattern));
        auto f = blackhole::builder<blackhole::formatter::string_t>(pattern).build();
        f->format(rec.record, wr);
        const auto plain = standard ? ref_time("%Y-%m-%d %H:%M:%S.%f", us, local) : expected;
        const auto padding = plain.size() < width ? width - plain.size() : 0;
        const auto left = align == "<" ? 0 : align == ">" ? padding : padding / 2;
        CHECK_EQ_STR(str(wr.result()), "<" + std::string(left, ' ') + plain + std::string(padding - left, ' ') + ">", "string formatter");
        c.label(local ? "string local" : "string utc");
    } else if (how == 1) {
        blackhole::builder<blackhole::formatter::tskv_t> b;
        auto f = std::move(std::move(b).timestamp("when", format, !local)).build();
        f->format(rec.record, wr);
        std::string escaped;
        for (char ch : expected) {
            if (ch == '\t') {
                escaped += "\\t";
            } else if (ch == '\n') {
                escaped += "\\n";
            } else {
                escaped += ch;
            }
        }
        const auto text = str(wr.result());
        const std::string piece = "\twhen=" + escaped + "\t";
        CHECK_THAT(text.find(piece) != std::string::npos, "TSKV formatter: " << pbt::show(text) << " lacks " << pbt::show(piece));
        c.label(local ? "tskv local" : "tskv utc");
    } else {
        blackhole::builder<blackhole::formatter::json_t> b;
        b.timestamp(format);
        auto f = std::move(b).build();
        f->format(rec.record, wr);
        const auto text = str(wr.result());
        std::string quoted = quote(ref_time(format, us, false));
        // The writer prefers the short escapes.
        for (auto& p : std::vector<std::pair<std::string, std::string>>{{"\\u000a", "\\n"}, {"\\u0009", "\\t"}}) {
            for (auto at = quoted.find(p.first); at != std::string::npos; at = quoted.find(p.first)) {
                quoted.replace(at, 6, p.second);
            }
        }
        const std::string piece = "\"timestamp\":" + quoted;
        CHECK_THAT(text.find(piece) != std::string::npos, "JSON formatter: " << pbt::show(text) << " lacks " << pbt::show(piece));
        c.label("json utc");
    }
    std::size_t conversions = 0;
    for (char ch : format) {
        conversions += ch == '%';
    }
    if (conversions >= 2 && us >= 86400000000ll) {
        c.nontrivial();
    }
}

PROPERTY(defaults, o.quick = 240000; o.thorough = 500000;
    o.rule = "the documented default format in UTC and the number of microseconds, against an independent calendar; non-trivial: after the first day")
{
    const Foreign foreign(c);
    const auto us = gen_instant(c);
    Zone guard(c.pick(zones()));
    c.note("at " + std::to_string(us) + " us");
    Event e;
    e.us = us;
    Emitted rec(e);
    // Proleptic Gregorian calendar by walking.
    const std::int64_t seconds = us / 1000000;
    std::int64_t days = seconds / 86400;
    std::int64_t year = 1970 + days / 366;
    while (days_from_civil(year + 1, 1, 1) <= days) {
        ++year;
    }
    days -= days_from_civil(year, 1, 1);
    const bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
    const int lengths[] = {31, leap ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int month = 0;
    while (days >= lengths[month]) {
        days -= lengths[month++];
    }
    char text[64];
    const auto day = seconds % 86400;
    std::snprintf(text, sizeof text, "%04d-%02d-%02d %02d:%02d:%02d.%06d", static_cast<int>(year), month + 1, static_cast<int>(days) + 1,
                  static_cast<int>(day / 3600), static_cast<int>(day / 60 % 60), static_cast<int>(day % 60), static_cast<int>(us % 1000000));
    auto f = blackhole::builder<blackhole::formatter::string_t>("{timestamp} {timestamp:s} {timestamp:{}s} {timestamp:d}").build();
    blackhole::writer_t wr;
    f->format(rec.record, wr);
    CHECK_EQ_STR(str(wr.result()), std::string(text) + " " + text + " " + text + " " + std::to_string(us), "default format");
    if (us >= 86400000000ll) {
        c.nontrivial();
    }
}
