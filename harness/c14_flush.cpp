// C14: flush policies of the file sink and their units.
#include <fstream>
#include <limits>

#include <sys/stat.h>
#include <unistd.h>

#include <blackhole/sink/file.hpp>

#include "config.hpp"
#include "recordgen.hpp"

#include "src/sink/file/flusher/bytecount.hpp"
#include "src/sink/file/flusher/repeat.hpp"

namespace {

using namespace bh;
using blackhole::sink_t;

std::string slurp(const std::string& path) {
    std::ifstream f(path.c_str(), std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

void send(sink_t& sink, const std::string& text) {
    Arena arena;
    const auto view = arena.view(text);
    const blackhole::attribute_pack pack;
    const blackhole::string_view message("");
    const blackhole::record_t record(0, message, pack);
    sink.emit(record, view);
}

struct Policy {
    enum { automatic, events, bytes } kind = automatic;
    std::uint64_t threshold = 0;

    std::string repr() const {
        return kind == automatic ? std::string("automatic") : std::to_string(threshold) + (kind == events ? " events" : " bytes");
    }
};

Policy gen_policy(pbt::Case& c) {
    Policy p;
    switch (c.draw(2)) {
    case 0: p.kind = Policy::events; p.threshold = static_cast<std::uint64_t>(c.weighted({6, 1}) == 0 ? c.range(0, 12) : c.range(13, 200)); break;
    case 1: p.kind = Policy::bytes; p.threshold = static_cast<std::uint64_t>(c.weighted({4, 3, 1}) == 0 ? c.range(0, 60) : c.range(61, 9000)); break;
    default: break;
    }
    return p;
}

typedef blackhole::builder<blackhole::sink::file_t> builder_type;

void apply(builder_type& b, const Policy& p) {
    if (p.kind == Policy::events) {
        b.flush_every(static_cast<std::size_t>(p.threshold));
    } else if (p.kind == Policy::bytes) {
        b.flush_every(blackhole::bytes_t(p.threshold));
    }
}

}  // namespace

PROPERTY(flush_policy, o.quick = 40000; o.thorough = 500000;
    o.rule = "a file sink made by the builder (policies set once or over each other, by reference or chained) or by a configuration (numbers "
             "of events, texts with units) with generated thresholds writes up to 60 events of generated sizes, around the threshold included: what is on "
             "disk after each event is a prefix which lacks less than the threshold; non-trivial: the threshold was reached twice")
{
    const Foreign foreign(c);
    const auto path = pbt::scratch() + "/flush.log";
    ::unlink(path.c_str());
    Policy policy = gen_policy(c);
    std::unique_ptr<sink_t> sink;
    switch (c.draw(3)) {
    case 0: {
        builder_type b(path);
        if (c.chance(40)) {
            const auto first = gen_policy(c);
            c.note("first " + first.repr());
            apply(b, first);
            if (policy.kind == Policy::automatic) {
                policy = first;
            }
        }
        apply(b, policy);
        if (c.chance(20)) {
            b.rotate_checking_stat();
        }
        sink = std::move(b).build();
        break;
    }
    case 1:
        if (policy.kind == Policy::events) {
            sink = builder_type(path).flush_every(static_cast<std::size_t>(policy.threshold)).build();
        } else if (policy.kind == Policy::bytes) {
            sink = builder_type(path).flush_every(blackhole::bytes_t(policy.threshold)).build();
        } else {
            sink = builder_type(path).build();
        }
        break;
    case 2:
        if (policy.kind != Policy::automatic) {
            std::uint64_t scale = 1;
            switch (c.draw(4)) {
            case 0: break;
            case 1: scale = 1000; break;
            case 2: scale = 1024; break;
            default: break;
            }
            if (scale != 1) {
                // Units of the builder.
                const auto n = static_cast<std::uint64_t>(c.range(1, 8));
                policy.kind = Policy::bytes;
                policy.threshold = n * scale;
                sink = scale == 1000 ? builder_type(path).flush_every(blackhole::kilobytes_t(n)).build() : builder_type(path).flush_every(blackhole::kibibytes_t(n)).build();
                break;
            }
        }
        // Falls through.
    default: {
        std::string value;
        if (policy.kind == Policy::events) {
            value = std::to_string(policy.threshold);
        } else if (policy.kind == Policy::bytes) {
            switch (c.draw(2)) {
            case 0: value = "\"" + std::to_string(policy.threshold) + "B\""; break;
            case 1:
                policy.threshold = static_cast<std::uint64_t>(c.range(1, 8));
                value = "\"" + std::to_string(policy.threshold) + "kB\"";
                policy.threshold *= 1000;
                break;
            default:
                policy.threshold = static_cast<std::uint64_t>(c.range(1, 8));
                value = "\"" + std::to_string(policy.threshold) + "KiB\"";
                policy.threshold *= 1024;
            }
        }
        sink = sink_from("file", "{\"type\": \"file\", \"path\": " + quote(path) + (value.empty() ? "" : ", \"flush\": " + value) +
            (c.chance(20) ? ", \"rotate\": {\"type\": \"stat\"}" : "") + "}");
        c.label("from configuration");
    }
    }
    c.note(policy.repr());
    // Zero resets the policy to the automatic one.
    const auto threshold = policy.kind == Policy::automatic || policy.threshold == 0 ? std::numeric_limits<std::uint64_t>::max() : policy.threshold;
    const auto n = c.range(1, 60);
    std::string total;
    std::uint64_t reached = 0, bytes = 0, events = 0;
    std::vector<std::size_t> ends;
    std::string sizes;
    for (int i = 0; i < n; ++i) {
        std::size_t size;
        switch (c.draw(3)) {
        case 0: size = 0; break;
        case 1: size = static_cast<std::size_t>(c.range(0, 40)); break;
        case 2: size = policy.kind == Policy::bytes && threshold < 10000 ? static_cast<std::size_t>(std::max<std::int64_t>(0, c.range(-2, 1) + static_cast<std::int64_t>(threshold) - 1)) : 5; break;
        default: size = static_cast<std::size_t>(c.range(0, 300));
        }
        std::string text(size, static_cast<char>('a' + i % 26));
        sizes += " " + std::to_string(size);
        send(*sink, text);
        total += text + "\n";
        ends.push_back(total.size());
        bytes += size + 1;
        ++events;
        if ((policy.kind == Policy::events && events >= threshold) || (policy.kind == Policy::bytes && bytes >= threshold)) {
            ++reached;
            bytes = 0;
            events = 0;
        }
        const auto disk = slurp(path);
        CHECK_THAT(disk.size() <= total.size() && total.compare(0, disk.size(), disk) == 0, "what is on disk is not what was emitted (sizes" << sizes << ")");
        if (policy.kind == Policy::events) {
            // Events not yet there as a whole.
            std::uint64_t missing = 0;
            for (auto e : ends) {
                missing += e > disk.size();
            }
            CHECK_THAT(missing < threshold, missing << " events are not flushed with the threshold of " << threshold << " after " << i + 1);
        } else if (policy.kind == Policy::bytes) {
            CHECK_THAT(total.size() - disk.size() < threshold, total.size() - disk.size() << " bytes are not flushed with the threshold of " << threshold << " (sizes" << sizes << ")");
        }
    }
    sink.reset();
    CHECK_EQ_STR(slurp(path), total, "file in the end");
    ::unlink(path.c_str());
    if (reached >= 2) {
        c.nontrivial();
    }
}

PROPERTY(flushers, o.quick = 480000; o.thorough = 2000000;
    o.rule = "flushers with thresholds of any magnitude are told sizes of any magnitude (as long as their sum is what can be written): what is "
             "not flushed is always less than the threshold; non-trivial: flushed twice and a threshold over the buffer of a stream")
{
    const Foreign foreign(c);
    using namespace blackhole::sink::file::flusher;
    namespace file = blackhole::sink::file;
    const bool by_bytes = c.chance(60);
    std::uint64_t threshold = c.u64() >> c.draw(40);
    if (!by_bytes) {
        threshold %= 40;
    }
    std::unique_ptr<file::flusher_t> flusher;
    if (by_bytes) {
        flusher = bytecount_factory_t(threshold).create();
    } else {
        flusher = repeat_factory_t(static_cast<std::size_t>(threshold)).create();
    }
    c.note((by_bytes ? "bytes " : "events ") + std::to_string(threshold));
    if (threshold == 0) {
        threshold = std::numeric_limits<std::uint64_t>::max();
    }
    const auto n = c.range(1, 60);
    std::uint64_t pending = 0, flushed = 0, sum = 0;
    for (int i = 0; i < n; ++i) {
        std::uint64_t size;
        switch (c.draw(2)) {
        case 0: size = static_cast<std::uint64_t>(c.range(1, 100)); break;
        case 1: size = 1 + std::min<std::uint64_t>(threshold / static_cast<std::uint64_t>(c.range(1, 4)), 1ull << 56) - c.draw(1); break;
        default: size = static_cast<std::uint64_t>(c.range(1, 1ll << 40));
        }
        if (size == 0) {
            size = 1;
        }
        sum += size;
        pending += by_bytes ? size : 1;
        if (flusher->update(static_cast<std::size_t>(size)) == file::flusher_t::flush) {
            pending = 0;
            ++flushed;
        }
        CHECK_THAT(pending < threshold, pending << " are not flushed with the threshold of " << threshold << " after " << i + 1 << " updates");
    }
    if (flushed >= 2 && (!by_bytes || threshold > 10000)) {
        c.nontrivial();
    }
}

PROPERTY(units, o.quick = 480000; o.thorough = 2000000;
    o.rule = "texts of sizes: numbers of any length with each unit, and mangled ones, mean exactly the documented number of bytes or are refused; "
             "non-trivial: a unit over one byte, an overflow or a mangled text")
{
    const Foreign foreign(c);
    using blackhole::sink::file::flusher::parse_dunit;
    static const std::vector<std::pair<std::string, std::uint64_t>> table = {
        {"", 1}, {"B", 1}, {"kB", 1000}, {"MB", 1000000}, {"GB", 1000000000}, {"KiB", 1024}, {"MiB", 1048576}, {"GiB", 1073741824},
    };
    const auto& unit = c.pick(table);
    std::string digits;
    switch (c.draw(4)) {
    case 0: digits = std::to_string(c.range(0, 10000)); break;
    case 1: digits = std::to_string(c.u64()); break;
    case 2: digits = std::to_string(std::numeric_limits<std::uint64_t>::max() / unit.second + static_cast<std::uint64_t>(c.range(-2, 2)) * (unit.second > 1)); break;
    case 3: digits = std::string(static_cast<std::size_t>(c.range(0, 3)), '0') + std::to_string(c.u64() >> c.draw(63)); break;
    default: digits = c.over("0123456789", 30);
    }
    std::string text = digits + unit.first;
    bool valid = !digits.empty();
    if (c.chance(30)) {
        // Mangle it.
        const auto original = text;
        switch (c.draw(3)) {
        case 0: text.insert(c.draw(text.size()), c.pick<std::string>({" ", "-", "+", ".", "i", "B", "k", "\t", "e3", "x", "\xff"})); break;
        case 1: if (!text.empty()) text.erase(c.draw(text.size() - 1), 1); break;
        case 2: text = c.pick<std::string>({"-", "+", " ", "0x", "."}) + text; break;
        default: text = digits + c.pick<std::string>({"b", "kb", "KB", "mB", "Mb", "TB", "kiB", "Kib", "bytes", "K", "M", "G", " kB", "kB ", "gb"});
        }
        // It may have become another legal one.
        valid = false;
        std::size_t pos = 0;
        while (pos < text.size() && text[pos] >= '0' && text[pos] <= '9') {
            ++pos;
        }
        digits = text.substr(0, pos);
        for (auto& u : table) {
            if (pos > 0 && text.substr(pos) == u.first) {
                valid = true;
            }
        }
        c.nontrivial();
    }
    c.note(text);
    unsigned __int128 expected = 0;
    bool overflow = false;
    if (valid) {
        const auto suffix = text.substr(digits.size());
        for (char ch : digits) {
            expected = expected * 10 + static_cast<unsigned>(ch - '0');
            overflow |= expected > std::numeric_limits<std::uint64_t>::max();
            if (overflow) {
                break;
            }
        }
        for (auto& u : table) {
            if (suffix == u.first) {
                expected *= u.second;
                if (u.second > 1) {
                    c.nontrivial();
                }
            }
        }
        overflow |= expected > std::numeric_limits<std::uint64_t>::max();
    }
    try {
        const auto actual = parse_dunit(text);
        CHECK_THAT(valid, pbt::show(text) << " is taken for " << actual << " bytes");
        CHECK_THAT(!overflow, pbt::show(text) << " does not fit but is taken for " << actual << " bytes");
        CHECK_THAT(actual == static_cast<std::uint64_t>(expected), pbt::show(text) << " is taken for " << actual << " bytes");
        c.label("understood");
    } catch (const std::exception&) {
        CHECK_THAT(!valid || overflow, pbt::show(text) << " is refused");
        c.label(valid ? "overflow refused" : "mangled refused");
    }
    if (overflow) {
        c.nontrivial();
    }
    // The configuration refuses the same.
    if (!valid && c.chance(20) && text.find('\xff') == std::string::npos) {
        bool thrown = false;
        try {
            sink_from("file", "{\"type\": \"file\", \"path\": \"/nonexistent/file\", \"flush\": " + quote(text) + "}");
        } catch (const std::exception&) {
            thrown = true;
        }
        CHECK_THAT(thrown, "the configuration accepts the size " << pbt::show(text));
    }
    // Units of the builder.
    if (c.chance(20)) {
        using namespace blackhole;
        const auto n = c.draw(4000000000ull);
        CHECK_THAT(bytes_t(n).count() == n, "bytes");
        CHECK_THAT(bytes_t(kilobytes_t(n)).count() == n * 1000, "kilobytes");
        CHECK_THAT(bytes_t(megabytes_t(n)).count() == n * 1000000, "megabytes");
        CHECK_THAT(bytes_t(gigabytes_t(n)).count() == n * 1000000000, "gigabytes");
        CHECK_THAT(bytes_t(kibibytes_t(n)).count() == n << 10, "kibibytes");
        CHECK_THAT(bytes_t(mibibytes_t(n)).count() == n << 20, "mebibytes");
        CHECK_THAT(bytes_t(gibibytes_t(n)).count() == n << 30, "gibibytes");
    }
}

PROPERTY(flush_rotated, o.quick = 18000; o.thorough = 60000;
    o.rule = "the policy applies to every file of a rotating sink: files are renamed away at generated points; what a renamed file lacks is "
             "written when the sink moves on; non-trivial: renamed at least once with events after it")
{
    const Foreign foreign(c);
    const auto path = pbt::scratch() + "/rotated.log";
    ::unlink(path.c_str());
    const auto threshold = static_cast<std::size_t>(c.range(1, 6));
    auto sink = builder_type(path).flush_every(threshold).rotate_checking_stat().build();
    const auto n = c.range(1, 40);
    std::vector<std::string> contents(1);
    std::size_t events = 0;
    std::string story;
    bool pending = false;
    for (int i = 0; i < n; ++i) {
        if (events > 0 && !pending && c.chance(15)) {
            CHECK_THAT(::rename(path.c_str(), (path + "." + std::to_string(contents.size() - 1)).c_str()) == 0, "rename");
            pending = true;
            story += "R";
        }
        if (pending) {
            contents.emplace_back();
            events = 0;
            pending = false;
            c.nontrivial();
        }
        const auto text = std::to_string(i);
        send(*sink, text);
        contents.back() += text + "\n";
        ++events;
        story += "e";
        const auto disk = slurp(path);
        CHECK_THAT(contents.back().compare(0, disk.size(), disk) == 0, "what is on disk is not what was emitted after " << story);
        const auto missing = static_cast<std::size_t>(std::count(contents.back().begin() + static_cast<long>(disk.size()), contents.back().end(), '\n'));
        CHECK_THAT(missing < threshold, missing << " events are not flushed with the threshold of " << threshold << " after " << story);
        for (std::size_t k = 0; k + 1 < contents.size(); ++k) {
            CHECK_EQ_STR(slurp(path + "." + std::to_string(k)), contents[k], "renamed file after " + story);
        }
    }
    c.note("threshold " + std::to_string(threshold) + " " + story);
    for (std::size_t k = 0; k < contents.size(); ++k) {
        ::unlink((path + "." + std::to_string(k)).c_str());
    }
}
