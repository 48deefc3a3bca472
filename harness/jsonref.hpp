// A strict RFC 8259 reader which keeps the order and duplicates of members and the text of numbers.
// Bytes above 0x7f are passed through.
#pragma once

#include <cstdlib>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "pbt.hpp"

namespace bh {

struct Json {
    enum Type { null, boolean, number, string, array, object };
    Type type = null;
    bool b = false;
    std::string s;  // text of a number or content of a string
    std::vector<Json> items;
    std::vector<std::pair<std::string, Json>> members;

    const Json* find(const std::string& name) const {
        for (auto& m : members) {
            if (m.first == name) {
                return &m.second;
            }
        }
        return nullptr;
    }

    static Json text(const std::string& s) {
        Json j;
        j.type = string;
        j.s = s;
        return j;
    }
    static Json num(const std::string& s) {
        Json j;
        j.type = number;
        j.s = s;
        return j;
    }
};

class JsonReader {
    const std::string& t;
    std::size_t i = 0;

    [[noreturn]] void bad(const std::string& why) {
        pbt::fail("invalid JSON at " + std::to_string(i) + " (" + why + "): " + pbt::show(t));
    }

    void space() {
        while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) {
            ++i;
        }
    }

    bool eat(const char* word) {
        const std::string w(word);
        if (t.compare(i, w.size(), w) == 0) {
            i += w.size();
            return true;
        }
        return false;
    }

    unsigned hex4() {
        unsigned v = 0;
        for (int k = 0; k < 4; ++k, ++i) {
            if (i >= t.size() || !std::isxdigit(static_cast<unsigned char>(t[i]))) {
                bad("escape");
            }
            const char ch = t[i];
            v = v * 16 + static_cast<unsigned>(ch <= '9' ? ch - '0' : (ch | 0x20) - 'a' + 10);
        }
        return v;
    }

    static void utf8(std::string& r, unsigned cp) {
        if (cp < 0x80) {
            r += static_cast<char>(cp);
        } else if (cp < 0x800) {
            r += static_cast<char>(0xc0 | cp >> 6);
            r += static_cast<char>(0x80 | (cp & 0x3f));
        } else if (cp < 0x10000) {
            r += static_cast<char>(0xe0 | cp >> 12);
            r += static_cast<char>(0x80 | (cp >> 6 & 0x3f));
            r += static_cast<char>(0x80 | (cp & 0x3f));
        } else {
            r += static_cast<char>(0xf0 | cp >> 18);
            r += static_cast<char>(0x80 | (cp >> 12 & 0x3f));
            r += static_cast<char>(0x80 | (cp >> 6 & 0x3f));
            r += static_cast<char>(0x80 | (cp & 0x3f));
        }
    }

    std::string read_string() {
        if (i >= t.size() || t[i] != '"') {
            bad("string expected");
        }
        ++i;
        std::string r;
        for (;;) {
            if (i >= t.size()) {
                bad("unterminated string");
            }
            const char ch = t[i];
            if (ch == '"') {
                ++i;
                return r;
            }
            if (static_cast<unsigned char>(ch) < 0x20) {
                bad("control character");
            }
            ++i;
            if (ch != '\\') {
                r += ch;
                continue;
            }
            if (i >= t.size()) {
                bad("escape");
            }
            switch (t[i++]) {
            case '"': r += '"'; break;
            case '\\': r += '\\'; break;
            case '/': r += '/'; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'n': r += '\n'; break;
            case 'r': r += '\r'; break;
            case 't': r += '\t'; break;
            case 'u': {
                unsigned v = hex4();
                if (v >= 0xd800 && v < 0xdc00) {
                    if (!eat("\\u")) {
                        bad("surrogate");
                    }
                    const unsigned low = hex4();
                    if (low < 0xdc00 || low > 0xdfff) {
                        bad("surrogate");
                    }
                    v = 0x10000 + ((v - 0xd800) << 10) + (low - 0xdc00);
                }
                utf8(r, v);
                break;
            }
            default: bad("escape");
            }
        }
    }

    void digits() {
        if (i >= t.size() || !std::isdigit(static_cast<unsigned char>(t[i]))) {
            bad("number");
        }
        while (i < t.size() && std::isdigit(static_cast<unsigned char>(t[i]))) {
            ++i;
        }
    }

    Json value(int depth) {
        if (depth > 200) {
            bad("depth");
        }
        Json j;
        if (i >= t.size()) {
            bad("value expected");
        }
        if (eat("null")) {
            return j;
        }
        if (eat("true")) {
            j.type = Json::boolean;
            j.b = true;
            return j;
        }
        if (eat("false")) {
            j.type = Json::boolean;
            return j;
        }
        if (t[i] == '"') {
            j.type = Json::string;
            j.s = read_string();
            return j;
        }
        if (t[i] == '[') {
            j.type = Json::array;
            ++i;
            space();
            if (eat("]")) {
                return j;
            }
            for (;;) {
                space();
                j.items.push_back(value(depth + 1));
                space();
                if (eat("]")) {
                    return j;
                }
                if (!eat(",")) {
                    bad("array");
                }
            }
        }
        if (t[i] == '{') {
            j.type = Json::object;
            ++i;
            space();
            if (eat("}")) {
                return j;
            }
            for (;;) {
                space();
                auto name = read_string();
                space();
                if (!eat(":")) {
                    bad("colon");
                }
                space();
                j.members.emplace_back(std::move(name), value(depth + 1));
                space();
                if (eat("}")) {
                    return j;
                }
                if (!eat(",")) {
                    bad("object");
                }
            }
        }
        j.type = Json::number;
        const auto begin = i;
        eat("-");
        if (i < t.size() && t[i] == '0') {
            ++i;
        } else {
            digits();
        }
        if (eat(".")) {
            digits();
        }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
            ++i;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) {
                ++i;
            }
            digits();
        }
        j.s = t.substr(begin, i - begin);
        return j;
    }

    explicit JsonReader(const std::string& t) : t(t) {}

public:
    // The whole text must be one document.
    static Json read(const std::string& t) {
        JsonReader r(t);
        auto j = r.value(0);
        if (r.i != t.size()) {
            r.bad("trailing bytes");
        }
        return j;
    }
};

}  // namespace bh
