// Random events and records made of them.
#pragma once

#include <ctime>
#include <exception>
#include <thread>

#include <pthread.h>

#include "bh.hpp"

namespace bh {

struct Event {
    int severity = 0;
    std::string message;
    bool lazy = false;
    std::string text;
    std::int64_t us = 0;
    std::vector<Attrs> lists;

    const std::string& formatted() const { return lazy ? text : message; }

    Attrs flat() const {
        Attrs r;
        for (auto& l : lists) {
            r.insert(r.end(), l.begin(), l.end());
        }
        return r;
    }

    std::string repr() const {
        std::string r = "severity " + std::to_string(severity) + " message " + pbt::show(message);
        if (lazy) {
            r += " formatted " + pbt::show(text);
        }
        r += " at " + std::to_string(us) + " us";
        for (auto& l : lists) {
            r += " " + bh::repr(l);
        }
        return r;
    }
};

struct EventOptions {
    GenOptions attrs;
    std::function<std::string(pbt::Case&)> message;
    std::int64_t min_us = 1, max_us = 4102444800000000ll;  // up to the year 2100
};

inline Event gen_event(pbt::Case& c, const EventOptions& o = EventOptions()) {
    Event e;
    auto text = [&] { return o.message ? o.message(c) : c.utf8(c.chance(5) ? (c.chance(10) ? 20000 : 900) : 40); };
    e.severity = static_cast<int>(c.weighted({8, 1}) == 0 ? c.range(-2, 6) : c.pick<int>({INT32_MIN, INT32_MAX, -100, 1000}));
    e.message = text();
    e.lazy = c.chance(50);
    e.text = e.lazy ? text() : "";
    e.us = c.chance(20) ? c.range(1, 3000000) : c.range(o.min_us, o.max_us);
    const auto n = c.chance(1) ? c.draw(20) : c.weighted({2, 5, 3, 1});
    for (std::size_t i = 0; i < n; ++i) {
        e.lists.push_back(gen_attrs(c, o.attrs));
    }
    return e;
}

// Owns everything the record refers to. All strings are exactly-sized and not terminated.
class Emitted {
    Arena arena;
    blackhole::string_view message, formatted;
    std::vector<blackhole::attribute_list> lists;
    blackhole::attribute_pack pack;

    static blackhole::record_t make(Emitted& self, const Event& e) {
        self.message = self.arena.view(e.message);
        for (auto& l : e.lists) {
            self.lists.push_back(list_of(l, self.arena));
        }
        for (auto& l : self.lists) {
            self.pack.push_back(l);
        }
        blackhole::record_t record(e.severity, self.message, self.pack);
        FakeClock::set_us(e.us);
        if (e.lazy) {
            // A null one means that there is none.
            self.formatted = self.arena.view(e.text, false);
        }
        record.activate(self.formatted);
        FakeClock::real();
        return record;
    }

public:
    blackhole::record_t record;

    explicit Emitted(const Event& e) : record(make(*this, e)) {}
    Emitted(const Emitted&) = delete;
};

inline std::string ref_time(const std::string& format, std::int64_t us, bool local = false) {
    std::int64_t seconds = us / 1000000, fraction = us % 1000000;
    if (fraction < 0) {
        fraction += 1000000;
        --seconds;
    }
    std::time_t t = static_cast<std::time_t>(seconds);
    std::tm tm;
    if (local) {
        ::localtime_r(&t, &tm);
    } else {
        ::gmtime_r(&t, &tm);
    }
    char digits[16];
    std::snprintf(digits, sizeof digits, "%06d", static_cast<int>(fraction));
    std::string r;
    auto flush = [&](const std::string& piece) {
        if (piece.empty()) {
            return;
        }
        std::vector<char> buffer(piece.size() * 64 + 256);
        const auto n = std::strftime(buffer.data(), buffer.size(), piece.c_str(), &tm);
        r.append(buffer.data(), n);
    };
    std::string piece;
    for (std::size_t i = 0; i < format.size(); ++i) {
        if (format[i] == '%' && i + 1 < format.size()) {
            if (format[i + 1] == 'f') {
                flush(piece);
                piece.clear();
                r += digits;
            } else if (format[i + 1] == 's') {
                flush(piece);
                piece.clear();
                r += std::to_string(seconds);
            } else {
                piece += format.substr(i, 2);
            }
            ++i;
        } else {
            piece += format[i];
        }
    }
    flush(piece);
    return r;
}

// JSON text of a string.
inline std::string quote(const std::string& s) {
    std::string r = "\"";
    for (char ch : s) {
        const auto u = static_cast<unsigned char>(ch);
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        } else if (u < 0x20) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", u);
            r += b;
        } else {
            r += ch;
        }
    }
    return r + "\"";
}

/// Calls it, optionally from a thread of another name, which has to make no difference to an event.
template<typename F>
inline void call(bool elsewhere, F fn) {
    if (!elsewhere) {
        fn();
        return;
    }
    std::exception_ptr error;
    std::thread([&] {
        ::pthread_setname_np(::pthread_self(), "elsewhere");
        try {
            fn();
        } catch (...) {
            error = std::current_exception();
        }
    }).join();
    if (error) {
        std::rethrow_exception(error);
    }
}

}  // namespace bh
