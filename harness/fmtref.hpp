// Reference for format specs: an independent rendering over snprintf.
#pragma once

#include <algorithm>
#include <cstdio>

#include "bh.hpp"

namespace bh {

struct Spec {
    char fill = 0;      // only with align
    char align = 0;     // < > ^ =
    char sign = 0;      // + - space
    bool alt = false;
    bool zero = false;
    int width = -1;
    int precision = -1;
    char type = 0;

    std::string text() const {
        std::string r;
        if (align) {
            if (fill) {
                r += fill;
            }
            r += align;
        }
        if (sign) {
            r += sign;
        }
        if (alt) {
            r += '#';
        }
        if (zero) {
            r += '0';
        }
        if (width >= 0) {
            r += std::to_string(width);
        }
        if (precision >= 0) {
            r += "." + std::to_string(precision);
        }
        if (type) {
            r += type;
        }
        return r;
    }

    // Content with a prefix (sign, base) which numeric alignment keeps in front of the padding.
    std::string pad(const std::string& prefix, const std::string& body, char standard) const {
        const char how = zero ? '=' : align ? align : standard;
        const char with = zero ? '0' : (align && fill) ? fill : ' ';
        const std::size_t size = prefix.size() + body.size();
        if (width < 0 || static_cast<std::size_t>(width) <= size) {
            return prefix + body;
        }
        const std::size_t n = static_cast<std::size_t>(width) - size;
        switch (how) {
        case '<': return prefix + body + std::string(n, with);
        case '>': return std::string(n, with) + prefix + body;
        case '^': return std::string(n / 2, with) + prefix + body + std::string(n - n / 2, with);
        default: return prefix + std::string(n, with) + body;
        }
    }

    std::string string(const std::string& s) const {
        return pad("", precision >= 0 ? s.substr(0, static_cast<std::size_t>(precision)) : s, '<');
    }

    std::string integer(bool negative, std::uint64_t abs) const {
        std::string digits, prefix;
        if (negative) {
            prefix = "-";
        } else if (sign == '+' || sign == ' ') {
            prefix = std::string(1, sign);
        }
        const unsigned base = type == 'x' || type == 'X' ? 16 : type == 'b' || type == 'B' ? 2 : type == 'o' ? 8 : 10;
        const char* alphabet = type == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        do {
            digits.insert(digits.begin(), alphabet[abs % base]);
            abs /= base;
        } while (abs);
        if (alt) {
            if (base == 16 || base == 2) {
                prefix += std::string("0") + type;
            } else if (base == 8) {
                prefix += "0";
            }
        }
        return pad(prefix, digits, '>');
    }

    std::string real(double v) const {
        std::string prefix;
        if (std::signbit(v)) {
            prefix = "-";
            v = -v;
        } else if (sign == '+' || sign == ' ') {
            prefix = std::string(1, sign);
        }
        std::string f = std::string("%") + (alt ? "#" : "");
        char buffer[2400];
        if (precision >= 0) {
            f += ".*";
            f += type ? type : 'g';
            std::snprintf(buffer, sizeof buffer, f.c_str(), precision, v);
        } else {
            f += type ? type : 'g';
            std::snprintf(buffer, sizeof buffer, f.c_str(), v);
        }
        return pad(prefix, buffer, '>');
    }

    std::string operator()(const Val& v) const {
        switch (v.kind) {
        case Kind::null: return string("none");
        case Kind::boolean:
            return type ? integer(false, v.b) : string(v.b ? "true" : "false");
        case Kind::sint: return integer(v.i < 0, v.i < 0 ? 0 - static_cast<std::uint64_t>(v.i) : static_cast<std::uint64_t>(v.i));
        case Kind::uint: return integer(false, v.u);
        case Kind::real: return real(v.d);
        case Kind::string: return string(v.s);
        case Kind::function: return v.s;
        }
        return "";
    }
};

inline char gen_fill(pbt::Case& c) {
    static const std::string fills = "*-_ .0#=+:;,/|xsdlpf<>^~@'\"";
    return fills[c.draw(fills.size() - 1)];
}

inline void gen_align(pbt::Case& c, Spec& s, bool numeric) {
    if (c.chance(60)) {
        s.align = numeric && c.chance(20) ? '=' : c.pick<char>({'<', '>', '^'});
        if (c.chance(60)) {
            s.fill = gen_fill(c);
        }
    }
    if (c.chance(70)) {
        s.width = static_cast<int>(c.chance(20) ? c.draw(80) : c.range(1, 24));
    }
    // A leading zero would be the zero flag.
    if (s.width == 0) {
        s.width = -1;
    }
}

inline Spec gen_string_spec(pbt::Case& c, bool typed = false) {
    Spec s;
    gen_align(c, s, false);
    if (c.chance(25)) {
        s.precision = static_cast<int>(c.draw(20));
    }
    if (typed || c.chance(60)) {
        s.type = 's';
    }
    return s;
}

inline Spec gen_int_spec(pbt::Case& c, bool is_signed, char type = 0) {
    Spec s;
    gen_align(c, s, true);
    if (is_signed && c.chance(25)) {
        s.sign = c.pick<char>({'+', '-', ' '});
    }
    s.alt = c.chance(20);
    s.zero = c.chance(20);
    s.type = type ? type : c.pick<char>({0, 'd', 'x', 'X', 'o', 'b', 'B', 'd'});
    return s;
}

inline Spec gen_real_spec(pbt::Case& c) {
    Spec s;
    gen_align(c, s, true);
    if (c.chance(25)) {
        s.sign = c.pick<char>({'+', '-', ' '});
    }
    s.alt = c.chance(15);
    s.zero = c.chance(20);
    if (c.chance(60)) {
        s.precision = static_cast<int>(c.chance(10) ? c.draw(60) : c.draw(17));
    }
    s.type = c.pick<char>({0, 'f', 'e', 'g', 'f', 'F', 'E', 'G', 'a', 'A'});
    return s;
}

// A spec which fits the value.
inline Spec gen_spec(pbt::Case& c, const Val& v) {
    switch (v.kind) {
    case Kind::null: return gen_string_spec(c);
    case Kind::boolean:
        if (c.chance(50)) {
            Spec s;
            gen_align(c, s, false);
            return s;
        } else {
            Spec s = gen_int_spec(c, false);
            if (!s.type) {
                s.type = 'd';
            }
            return s;
        }
    case Kind::sint: return gen_int_spec(c, true);
    case Kind::uint: return gen_int_spec(c, false);
    case Kind::real: return gen_real_spec(c);
    case Kind::string: return gen_string_spec(c);
    default: return Spec();
    }
}

}  // namespace bh
