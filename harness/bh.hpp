// Generators and observers shared by the harnesses. Only public headers of the library are used.
#pragma once

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <blackhole/attribute.hpp>
#include <blackhole/attributes.hpp>
#include <blackhole/extensions/writer.hpp>
#include <blackhole/record.hpp>
#include <blackhole/stdext/string_view.hpp>

#include "pbt.hpp"

namespace bh {

// The wall clock as seen by the library: real unless a fixed point is set.
struct FakeClock {
    // Microseconds since the epoch; INT64_MIN means the real clock.
    static void set_us(std::int64_t us);
    static void set_ns(std::int64_t ns);
    static void real();
};

enum class Kind { null, boolean, sint, uint, real, string, function };

// A model attribute value, independent of the library's representation.
struct Val {
    Kind kind = Kind::null;
    bool b = false;
    std::int64_t i = 0;
    std::uint64_t u = 0;
    double d = 0;
    std::string s;  // string content, or the text printed by the function

    bool operator==(const Val& o) const;
    std::string repr() const;
};

struct Attr {
    std::string key;
    Val val;
    bool operator==(const Attr& o) const { return key == o.key && val == o.val; }
};

typedef std::vector<Attr> Attrs;

// User type displayed through display_traits.
struct Display {
    std::string text;
};

struct GenOptions {
    bool functions = true;
    bool doubles = true;
    std::function<std::string(pbt::Case&)> key;     // defaults to a mixture of identifiers
    std::function<std::string(pbt::Case&)> string;  // defaults to utf8 without NUL
    std::size_t max = 6;
};

Val gen_value(pbt::Case& c, const GenOptions& o = GenOptions());
Attrs gen_attrs(pbt::Case& c, const GenOptions& o = GenOptions());
std::string repr(const Attrs& attrs);

// Owns exactly-sized buffers so that any read beyond a view's end is a sanitizer error.
class Arena {
    std::vector<std::unique_ptr<char[]>> buffers;
    std::vector<std::unique_ptr<Display>> displays;

public:
    blackhole::string_view view(const std::string& s, bool null = true);
    const Display& display(const std::string& s);
};

// Views whose strings are exactly-sized heap buffers without a terminating zero.
blackhole::attribute::view_t view_of(const Val& v, Arena& arena);
blackhole::attribute_list list_of(const Attrs& attrs, Arena& arena);
// Owned values.
blackhole::attribute::value_t value_of(const Val& v);
blackhole::attributes_t owned_of(const Attrs& attrs);

// Reads an attribute back through the public visitors.
Val read(const blackhole::attribute::view_t& v);
Val read(const blackhole::attribute::value_t& v);
Attrs flatten(const blackhole::attribute_pack& pack);

// Functions are observed as the text they print.
inline std::string str(const blackhole::string_view& v) {
    return std::string(v.data() ? v.data() : "", v.size());
}

}  // namespace bh

namespace blackhole {
inline namespace v1 {

template<>
struct display_traits<bh::Display> {
    static auto apply(const bh::Display& value, writer_t& wr) -> void {
        wr.inner << fmt::StringRef(value.text.data(), value.text.size());
    }
};

}  // namespace v1
}  // namespace blackhole
