#include "bh.hpp"

#include <cmath>
#include <cstdio>
#include <ctime>

#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {

std::atomic<std::int64_t> g_now_ns{INT64_MIN};

}  // namespace

// The library reads the time through std::chrono::system_clock; this definition takes precedence
// over the one in libstdc++.
namespace std {
namespace chrono {
inline namespace _V2 {

system_clock::time_point system_clock::now() noexcept {
    const auto fixed = g_now_ns.load();
    if (fixed != INT64_MIN) {
        return time_point(duration_cast<duration>(nanoseconds(fixed)));
    }
    timespec ts;
    ::syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    return time_point(duration_cast<duration>(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec)));
}

}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace bh {

void FakeClock::set_us(std::int64_t us) {
    g_now_ns = us * 1000;
}

void FakeClock::set_ns(std::int64_t ns) {
    g_now_ns = ns;
}

void FakeClock::real() {
    g_now_ns = INT64_MIN;
}

bool Val::operator==(const Val& o) const {
    if (kind != o.kind) {
        return false;
    }
    switch (kind) {
    case Kind::null: return true;
    case Kind::boolean: return b == o.b;
    case Kind::sint: return i == o.i;
    case Kind::uint: return u == o.u;
    case Kind::real: return std::memcmp(&d, &o.d, sizeof d) == 0;
    case Kind::string:
    case Kind::function: return s == o.s;
    }
    return false;
}

std::string Val::repr() const {
    switch (kind) {
    case Kind::null: return "null";
    case Kind::boolean: return b ? "true" : "false";
    case Kind::sint: return std::to_string(i) + "i";
    case Kind::uint: return std::to_string(u) + "u";
    case Kind::real: return pbt::str(d) + "d";
    case Kind::string: return pbt::show(s);
    case Kind::function: return "fn(" + pbt::show(s) + ")";
    }
    return "?";
}

std::string repr(const Attrs& attrs) {
    std::string r = "[";
    for (auto& a : attrs) {
        if (r.size() > 1) {
            r += ", ";
        }
        r += pbt::show(a.key) + ": " + a.val.repr();
    }
    return r + "]";
}

Val gen_value(pbt::Case& c, const GenOptions& o) {
    Val v;
    auto text = [&] { return o.string ? o.string(c) : c.utf8(c.chance(2) ? (c.chance(20) ? 6000 : 600) : 40); };
    switch (c.weighted({3, 1, 1, 1, o.doubles ? 1u : 0u, 1, o.functions ? 1u : 0u})) {
    case 0: v.kind = Kind::string; v.s = text(); break;
    case 1: v.kind = Kind::null; break;
    case 2: v.kind = Kind::boolean; v.b = c.chance(50); break;
    case 3: v.kind = Kind::sint; v.i = c.i64(); break;
    case 4: v.kind = Kind::real; v.d = c.finite(); break;
    case 5: v.kind = Kind::uint; v.u = c.u64(); break;
    case 6: v.kind = Kind::function; v.s = text(); break;
    }
    return v;
}

Attrs gen_attrs(pbt::Case& c, const GenOptions& o) {
    Attrs r;
    const auto n = c.chance(1) ? c.draw(60) : c.size(o.max);
    for (std::size_t i = 0; i < n; ++i) {
        Attr a;
        a.key = o.key ? o.key(c) : (c.chance(30) ? c.pick<std::string>({"a", "b", "id", "source", "key"}) : c.ident(c.chance(2) ? 300 : 12));
        a.val = gen_value(c, o);
        r.push_back(a);
    }
    return r;
}

blackhole::string_view Arena::view(const std::string& s, bool null) {
    if (null && s.empty() && buffers.size() % 2 == 0) {
        // A default constructed one.
        buffers.emplace_back();
        return blackhole::string_view();
    }
    std::unique_ptr<char[]> b(new char[s.size() ? s.size() : 1]);
    std::memcpy(b.get(), s.data(), s.size());
    // An empty view points one past its buffer.
    blackhole::string_view r(s.empty() ? b.get() + 1 : b.get(), s.size());
    buffers.push_back(std::move(b));
    return r;
}

const Display& Arena::display(const std::string& s) {
    displays.emplace_back(new Display{s});
    return *displays.back();
}

blackhole::attribute::view_t view_of(const Val& v, Arena& arena) {
    switch (v.kind) {
    case Kind::null: return blackhole::attribute::view_t(nullptr);
    case Kind::boolean: return blackhole::attribute::view_t(v.b);
    case Kind::sint: return blackhole::attribute::view_t(static_cast<long long>(v.i));
    case Kind::uint: return blackhole::attribute::view_t(static_cast<unsigned long long>(v.u));
    case Kind::real: return blackhole::attribute::view_t(v.d);
    case Kind::string: return blackhole::attribute::view_t(arena.view(v.s));
    case Kind::function: return blackhole::attribute::view_t(arena.display(v.s));
    }
    return blackhole::attribute::view_t();
}

blackhole::attribute_list list_of(const Attrs& attrs, Arena& arena) {
    blackhole::attribute_list r;
    for (auto& a : attrs) {
        r.emplace_back(arena.view(a.key), view_of(a.val, arena));
    }
    return r;
}

blackhole::attribute::value_t value_of(const Val& v) {
    switch (v.kind) {
    case Kind::null: return blackhole::attribute::value_t(nullptr);
    case Kind::boolean: return blackhole::attribute::value_t(v.b);
    case Kind::sint: return blackhole::attribute::value_t(static_cast<long long>(v.i));
    case Kind::uint: return blackhole::attribute::value_t(static_cast<unsigned long long>(v.u));
    case Kind::real: return blackhole::attribute::value_t(v.d);
    default: return blackhole::attribute::value_t(v.s);
    }
}

blackhole::attributes_t owned_of(const Attrs& attrs) {
    blackhole::attributes_t r;
    for (auto& a : attrs) {
        r.emplace_back(a.key, value_of(a.val));
    }
    return r;
}

namespace {

template<typename V>
struct Reader : public V::visitor_t {
    Val v;
    auto operator()(const typename V::null_type&) -> void override { v.kind = Kind::null; }
    auto operator()(const typename V::bool_type& x) -> void override { v.kind = Kind::boolean; v.b = x; }
    auto operator()(const typename V::sint64_type& x) -> void override { v.kind = Kind::sint; v.i = x; }
    auto operator()(const typename V::uint64_type& x) -> void override { v.kind = Kind::uint; v.u = x; }
    auto operator()(const typename V::double_type& x) -> void override { v.kind = Kind::real; v.d = x; }
    auto operator()(const typename V::string_type& x) -> void override { v.kind = Kind::string; v.s = std::string(x.data() ? x.data() : "", x.size()); }
    auto operator()(const typename V::function_type& x) -> void override {
        v.kind = Kind::function;
        blackhole::writer_t wr;
        x(wr);
        v.s = str(wr.result());
    }
};

}  // namespace

Val read(const blackhole::attribute::view_t& v) {
    Reader<blackhole::attribute::view_t> r;
    v.apply(r);
    return r.v;
}

Val read(const blackhole::attribute::value_t& v) {
    Reader<blackhole::attribute::value_t> r;
    v.apply(r);
    return r.v;
}

Attrs flatten(const blackhole::attribute_pack& pack) {
    Attrs r;
    for (const auto& list : pack) {
        for (const auto& kv : list.get()) {
            r.push_back(Attr{str(kv.first), read(kv.second)});
        }
    }
    return r;
}

}  // namespace bh
