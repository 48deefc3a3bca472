// C23: string views against std::string on the same bytes.
#include <iomanip>
#include <map>
#include <sstream>
#include <stdexcept>
#include <unordered_set>

#include "bh.hpp"

namespace {

using namespace bh;
using blackhole::string_view;
typedef std::string::size_type size_type;

std::string gen_text(pbt::Case& c) {
    switch (c.weighted({4, 3, 2, 1})) {
    case 0: return c.over(std::string("ab\0\x7f\x80\xff", 6), 5);
    case 1: return c.bytes(12);
    case 2: return c.utf8(30);
    default: return c.bytes(400);
    }
}

template<typename F>
int outcome(F f, std::string& result) {
    try {
        result = f();
        return 0;
    } catch (const std::out_of_range&) {
        return 1;
    } catch (...) {
        return 2;
    }
}

size_type gen_position(pbt::Case& c, size_type size) {
    switch (c.weighted({5, 2, 1})) {
    case 0: return c.draw(size);
    case 1: return size + c.draw(3);
    default: return c.pick<size_type>({std::string::npos, std::string::npos - 1, SIZE_MAX / 2, 1u << 31});
    }
}

// Every operation on one view and on the string of the same bytes.
void check_same(pbt::Case& c, const string_view& view, const std::string& s) {
    CHECK_THAT(view.size() == s.size(), "size " << view.size() << " instead of " << s.size());
    CHECK_THAT(s.empty() || std::memcmp(view.data(), s.data(), s.size()) == 0, "other bytes");
    CHECK_EQ_STR(view.to_string(), s, "to_string");
    for (int i = 0; i < 3; ++i) {
        const auto at = gen_position(c, s.size());
        std::string a, b;
        // The only difference to std::string: elements are checked.
        const int how = outcome([&] { return std::string(1, view[at]); }, a);
        const int std_how = outcome([&] { return std::string(1, s.at(at)); }, b);
        CHECK_THAT(how == std_how, "element " << at << " of " << s.size() << ": outcome " << how << " instead of " << std_how);
        CHECK_EQ_STR(a, b, "element " << at);
    }
    const int width = static_cast<int>(c.draw(2) ? c.draw(40) : 0);
    const bool left = c.chance(40);
    const char fill = c.pick({' ', '*', '0'});
    auto print = [&](auto value) {
        std::ostringstream stream;
        stream << '[' << std::setw(width) << std::setfill(fill) << (left ? std::left : std::right) << value << ']' << stream.width();
        stream << value;
        return stream.str();
    };
    CHECK_EQ_STR(print(view), print(s), "output with width " << width);
    CHECK_THAT(std::hash<string_view>()(view) == std::hash<string_view>()(string_view(s)), "hash depends on more than the bytes");
}

void check_pair(const string_view& v, const std::string& s, const string_view& w, const std::string& t) {
    CHECK_THAT((v == w) == (s == t), pbt::show(s) << " == " << pbt::show(t) << " is " << (v == w));
    CHECK_THAT((v == t) == (s == t), "comparison with a string on the right is " << (v == t));
    CHECK_THAT((s == w) == (s == t), "comparison with a string on the left is " << (s == w));
    CHECK_THAT((v < w) == (s < t), pbt::show(s) << " < " << pbt::show(t) << " is " << (v < w));
    CHECK_THAT((w < v) == (t < s), pbt::show(t) << " < " << pbt::show(s) << " is " << (w < v));
    if (s == t) {
        CHECK_THAT(std::hash<string_view>()(v) == std::hash<string_view>()(w), "equal views with different hashes");
    }
}

PROPERTY(view_operations, o.quick = 40000; o.thorough = 3000000;
         o.rule = "texts which differ and are not both empty, or a chain of substrings") {
    Arena arena;
    const std::string s = gen_text(c);
    std::string t = s;
    switch (c.weighted({2, 2, 2, 1, 1})) {
    case 0: t = gen_text(c); break;
    case 1:
        if (!t.empty()) {
            t[c.draw(t.size() - 1)] = static_cast<char>(c.draw(255));
        }
        break;
    case 2: t = s.substr(0, c.draw(s.size())); break;
    case 3: t += static_cast<char>(c.draw(255)); break;
    default: break;
    }
    c.note(pbt::show(s) + " and " + pbt::show(t));
    const string_view v = arena.view(s, c.chance(50)), w = arena.view(t, c.chance(50));
    check_same(c, v, s);
    check_same(c, string_view(s), s);
    check_pair(v, s, w, t);
    check_pair(v, s, string_view(t), t);

    // Copies and assignments.
    string_view copy(v), assigned;
    CHECK_THAT(assigned.size() == 0 && assigned == string_view() && assigned.to_string().empty(), "a default view isn't empty");
    assigned = w;
    check_same(c, copy, s);
    check_same(c, assigned, t);
    copy = assigned;
    check_same(c, copy, t);
    check_same(c, v, s);

    // Chains of substrings.
    string_view x = v;
    std::string y = s;
    const auto n = c.draw(3);
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto pos = gen_position(c, y.size()), count = gen_position(c, y.size());
        const int form = static_cast<int>(c.draw(2));
        string_view sub;
        std::string r, expected;
        const int how = outcome([&] {
            sub = form == 0 ? x.substr(pos, count) : form == 1 ? x.substr(pos) : x.substr();
            return sub.to_string();
        }, r);
        const int std_how = outcome([&] { return form == 0 ? y.substr(pos, count) : form == 1 ? y.substr(pos) : y; }, expected);
        c.note("substr " + std::to_string(pos) + " " + std::to_string(count) + " form " + std::to_string(form));
        CHECK_THAT(how == std_how, "substring from " << pos << " of " << y.size() << ": outcome " << how << " instead of " << std_how);
        CHECK_EQ_STR(r, expected, "substring");
        if (how) {
            c.label("out of range");
            break;
        }
        CHECK_THAT(sub.size() == 0 || (sub.data() >= v.data() && sub.data() + sub.size() <= v.data() + v.size()), "a view of other memory");
        x = sub;
        y = expected;
        check_same(c, x, y);
        check_pair(x, y, w, t);
    }
    if (s != t || n > 1) {
        c.nontrivial();
    }
    c.label(s == t ? "equal" : "different");
}

// Views as keys of containers.
PROPERTY(view_containers, o.quick = 48000; o.thorough = 300000; o.rule = "at least four distinct texts") {
    Arena arena;
    std::map<std::string, int> reference;
    std::map<string_view, int> ordered;
    std::unordered_set<string_view> hashed;
    const auto n = c.draw(24);
    for (std::uint64_t i = 0; i < n; ++i) {
        const auto s = c.chance(50) ? c.over(std::string("a\0\xff", 3), 3) : c.bytes(6);
        const auto view = arena.view(s, c.chance(50));
        ++reference[s];
        ++ordered[view];
        hashed.insert(view);
        c.note(pbt::show(s));
    }
    CHECK_THAT(ordered.size() == reference.size(), ordered.size() << " keys instead of " << reference.size());
    CHECK_THAT(hashed.size() == reference.size(), hashed.size() << " members instead of " << reference.size());
    auto it = ordered.begin();
    for (auto& kv : reference) {
        CHECK_EQ_STR(str(it->first), kv.first, "order of keys");
        CHECK_THAT(it->second == kv.second, "occurrences");
        CHECK_THAT(hashed.count(string_view(kv.first)) == 1, "a lost member");
        ++it;
    }
    if (reference.size() > 3) {
        c.nontrivial();
    }
}

// Literals keep their embedded zeros and lose the terminating one only.
PROPERTY(view_literals, o.quick = 64; o.thorough = 64; o.rule = "any literal") {
    const string_view views[] = {"", "a", "a\0b", "\0", "value", "{}", "\xff\x80", "twelve bytes"};
    const std::string strings[] = {"", "a", std::string("a\0b", 3), std::string("\0", 1), "value", "{}", "\xff\x80", "twelve bytes"};
    const auto i = c.draw(7);
    c.note(pbt::show(strings[i]));
    check_same(c, views[i], strings[i]);
    for (int k = 0; k < 8; ++k) {
        check_pair(views[i], strings[i], views[k], strings[k]);
    }
    constexpr string_view at_compile_time("constant");
    static_assert(at_compile_time.size() == 8, "size");
    static_assert(at_compile_time.substr(3, 2).size() == 2, "substr");
    static_assert(at_compile_time[1] == 'o', "element");
    c.nontrivial();
}

}  // namespace
