// C15: the TCP sink delivers every event completely, in order, and recovers from lost peers.
#include <atomic>
#include <system_error>

#include <dlfcn.h>

#include <blackhole/sink/socket/tcp.hpp>

#include "config.hpp"
#include "names.hpp"
#include "net.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
using blackhole::sink_t;

// What happens to the data the sink sends: pieces of at most `cap` bytes; after `budget` bytes the
// connection breaks once.
struct Wire {
    std::atomic<bool> active{false};
    std::atomic<long> cap{-1};
    std::atomic<long> budget{-1};
    std::atomic<std::size_t> calls{0};
} wire;

template<typename F>
ssize_t transmit(std::size_t size, F fn) {
    if (!wire.active) {
        return fn(size);
    }
    ++wire.calls;
    const long cap = wire.cap;
    const long budget = wire.budget;
    if (budget == 0) {
        wire.budget = -1;
        errno = ECONNRESET;
        return -1;
    }
    if (cap > 0 && static_cast<long>(size) > cap) {
        size = static_cast<std::size_t>(cap);
    }
    if (budget > 0 && static_cast<long>(size) > budget) {
        size = static_cast<std::size_t>(budget);
    }
    const auto r = fn(size);
    if (r > 0 && budget > 0) {
        wire.budget = budget - r;
    }
    return r;
}

}  // namespace

extern "C" ssize_t send(int fd, const void* data, size_t size, int flags) {
    typedef ssize_t (*fn)(int, const void*, size_t, int);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "send"));
    return transmit(size, [&](std::size_t n) { return real(fd, data, n, flags); });
}

extern "C" ssize_t sendmsg(int fd, const struct msghdr* message, int flags) {
    typedef ssize_t (*fn)(int, const struct msghdr*, int);
    typedef ssize_t (*sfn)(int, const void*, size_t, int);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "sendmsg"));
    static const sfn single = reinterpret_cast<sfn>(::dlsym(RTLD_NEXT, "send"));
    if (!wire.active) {
        return real(fd, message, flags);
    }
    std::string all;
    for (std::size_t i = 0; i < message->msg_iovlen; ++i) {
        all.append(static_cast<const char*>(message->msg_iov[i].iov_base), message->msg_iov[i].iov_len);
    }
    return transmit(all.size(), [&](std::size_t n) { return single(fd, all.data(), n, flags); });
}

namespace {

void send_event(sink_t& sink, const std::string& text) {
    Arena arena;
    const auto view = arena.view(text);
    const blackhole::attribute_pack pack;
    const blackhole::string_view message("");
    const blackhole::record_t record(0, message, pack);
    sink.emit(record, view);
}

std::unique_ptr<sink_t> make(pbt::Case& c, const std::string& host, std::uint16_t port) {
    // The class itself is internal: configurations are the only way.
    const std::string extra = c.chance(20) ? ", \"unrelated\": 1" : "";
    return sink_from("tcp", "{\"type\": \"tcp\", \"host\": " + quote(host) + ", \"port\": " + std::to_string(port) + extra + "}");
}

bool have_v6() {
    static const bool r = [] { return Port(true).valid(); }();
    return r;
}

// Reads until the given size is there, the end or no news for long.
bool read_until(int fd, std::string& data, std::size_t size, int ms = 5000) {
    char buffer[65536];
    while (data.size() < size) {
        if (!readable(fd, ms)) {
            return true;
        }
        const auto n = ::recv(fd, buffer, sizeof buffer, 0);
        if (n <= 0) {
            return false;
        }
        data.append(buffer, static_cast<std::size_t>(n));
    }
    return true;
}

std::string gen_text(pbt::Case& c) {
    switch (c.weighted({6, 2, 1, 1})) {
    case 0: return c.utf8(60) + (c.chance(50) ? "\n" : "");
    case 1: return c.bytes(100);
    case 2: return std::string();
    default: return std::string(static_cast<std::size_t>(c.range(1000, 20000)), static_cast<char>('a' + c.draw(25)));
    }
}

struct WireScope {
    WireScope() {
        wire.cap = -1;
        wire.budget = -1;
        wire.calls = 0;
        wire.active = true;
    }
    ~WireScope() { wire.active = false; }
};

}  // namespace

PROPERTY(tcp_history, o.quick = 36000; o.thorough = 120000;
    o.rule = "histories of up to 25 emissions (empty, binary, up to 20 kB; sent in pieces of generated sizes), server shutdowns and restarts, closed and reset "
             "connections and connections breaking in the middle of an event, over IPv4, IPv6 and a name: bytes of every connection and "
             "success of every emission against a model; non-trivial: delivered again after a loss of the connection")
{
    const Foreign foreign(c);
    const bool v6 = have_v6() && c.chance(30);
    Port port(v6);
    CHECK_THAT(port.valid(), "cannot bind");
    const auto host = !v6 && c.chance(20) ? std::string("localhost") : v6 ? std::string("::1") : std::string("127.0.0.1");
    auto sink = make(c, host, port.number);
    c.note("host " + host);
    WireScope scope;
    enum { none, live, stale } state = none;
    int stale_returns = 0;
    Fd peer;
    std::string expected, got;
    bool lost = false;

    auto check = [&] {
        got.clear();
        CHECK_THAT(read_until(peer.get(), got, expected.size()), "the sink closed the connection");
        // Nothing else is there.
        char extra;
        if (got.size() == expected.size() && readable(peer.get(), 0)) {
            const auto n = ::recv(peer.get(), &extra, 1, MSG_DONTWAIT);
            CHECK_THAT(n < 0, (n == 0 ? "the sink closed the connection" : "more was sent than emitted"));
        }
        CHECK_EQ_STR(got, expected, "what the peer received");
        expected.clear();
    };

    if (c.chance(70)) {
        CHECK_THAT(port.up(), "cannot listen");
        c.note("listen");
    }
    const auto n = c.range(1, 25);
    for (int i = 0; i < n; ++i) {
        switch (c.weighted({10, 1, 1, 1, 1, 1})) {
        case 0: {
            const auto text = gen_text(c);
            c.note("emit " + pbt::show(text.substr(0, 50)) + " of " + std::to_string(text.size()));
            std::string what;
            bool thrown = false;
            try {
                send_event(*sink, text);
            } catch (const std::exception& e) {
                what = e.what();
                thrown = true;
            }
            Fd fresh = port.accept(state == none && port.is_up() && !thrown ? 5000 : 0);
            switch (state) {
            case none:
                if (!port.is_up()) {
                    CHECK_THAT(thrown, "an event was lost without an exception as nobody listens");
                    c.label("refused while nobody listens");
                } else {
                    CHECK_THAT(!thrown, "the event is refused though the peer listens: " << what);
                    CHECK_THAT(static_cast<bool>(fresh), "the sink did not connect");
                    peer = std::move(fresh);
                    expected = text;
                    check();
                    state = live;
                    if (lost) {
                        c.nontrivial();
                        c.label("delivered after a loss");
                    }
                }
                break;
            case live:
                CHECK_THAT(!thrown, "the event is refused on a live connection: " << what);
                CHECK_THAT(!fresh, "the sink connected once more");
                expected = text;
                check();
                break;
            case stale:
                if (thrown) {
                    state = none;
                } else if (fresh) {
                    // It noticed by itself.
                    peer = std::move(fresh);
                    expected = text;
                    check();
                    state = live;
                } else {
                    // The system itself may take some into its buffers before it learns of the loss. Nothing is sent for an empty one.
                    if (!text.empty()) {
                        ++stale_returns;
                        std::this_thread::sleep_for(std::chrono::milliseconds(2 * stale_returns));
                    }
                    CHECK_THAT(stale_returns <= 12, "events are lost without exceptions on a closed connection");
                }
            }
            break;
        }
        case 1:
            if (!port.is_up()) {
                c.note("listen");
                CHECK_THAT(port.up(), "cannot listen");
            }
            break;
        case 2:
            if (port.is_up()) {
                c.note("stop listening");
                port.down();
            }
            break;
        case 3:
        case 4:
            if (state == live) {
                const bool reset = c.chance(50);
                c.note(reset ? "reset" : "close");
                if (reset) {
                    linger l = {1, 0};
                    ::setsockopt(peer.get(), SOL_SOCKET, SO_LINGER, &l, sizeof l);
                }
                peer.reset();
                state = stale;
                stale_returns = 0;
                lost = true;
            }
            break;
        default: {
            // The connection breaks in the middle of an event.
            if (state != live) {
                wire.cap = c.pick<long>({-1, 1, 3, 100});
                c.note("pieces of " + std::to_string(wire.cap));
                break;
            }
            const auto text = gen_text(c) + "x";
            const auto at = c.draw(text.size() - 1);
            c.note("break after " + std::to_string(at) + " of " + std::to_string(text.size()));
            wire.budget = static_cast<long>(at);
            bool thrown = false;
            try {
                send_event(*sink, text);
            } catch (const std::exception&) {
                thrown = true;
            }
            wire.budget = -1;
            CHECK_THAT(thrown, "an event was lost without an exception as its connection broke");
            got.clear();
            read_until(peer.get(), got, text.size(), 1000);
            CHECK_EQ_STR(got, text.substr(0, at), "what the peer received before the connection broke");
            peer.reset();
            state = none;
            lost = true;
        }
        }
    }
    if (state == live) {
        sink.reset();
        got.clear();
        CHECK_THAT(!read_until(peer.get(), got, 1) && got.empty(), "the connection is not closed cleanly by the destructor");
    }
}

namespace {

// Listens on one of the addresses of this host.
class Listener {
    Fd fd;

public:
    const std::string address;

    explicit Listener(std::string address) : address(std::move(address)) {}

    bool is_up() const { return static_cast<bool>(fd); }
    void down() { fd.reset(); }

    bool up(std::uint16_t port) {
        const bool v6 = address.find(':') != std::string::npos;
        Address a(v6, port);
        if (!v6) {
            ::inet_pton(AF_INET, address.c_str(), &reinterpret_cast<sockaddr_in&>(a.storage).sin_addr);
        }
        fd = Fd(::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
        int one = 1;
        ::setsockopt(fd.get(), SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        if (v6) {
            ::setsockopt(fd.get(), IPPROTO_IPV6, IPV6_V6ONLY, &one, sizeof one);
        }
        if (::bind(fd.get(), reinterpret_cast<sockaddr*>(&a.storage), a.size) != 0 || ::listen(fd.get(), 16) != 0) {
            fd.reset();
        }
        return is_up();
    }

    Fd accept(int ms) {
        if (!fd || !readable(fd.get(), ms)) {
            return Fd();
        }
        return Fd(::accept4(fd.get(), nullptr, nullptr, SOCK_CLOEXEC));
    }
};

}  // namespace

PROPERTY(tcp_names, o.quick = 12000; o.thorough = 60000;
    o.rule = "histories of up to 20 emissions to a name which resolves to generated lists of IPv4 and IPv6 addresses, some with nobody listening, or to none at "
             "all for a while, with breaking connections: an event is delivered once if any of the addresses listens, refused by an exception otherwise; "
             "non-trivial: delivered to another than the first address or after a failed resolution")
{
    const Foreign foreign(c);
    Port port(false);
    CHECK_THAT(port.valid(), "cannot bind");
    std::vector<std::unique_ptr<Listener>> all;
    for (auto a : {"127.0.0.1", "127.0.0.2", "127.0.0.3"}) {
        all.emplace_back(new Listener(a));
    }
    if (have_v6()) {
        all.emplace_back(new Listener("::1"));
    }
    auto& dns = names();
    auto resolve = [&] {
        dns.error = c.chance(20) ? c.pick<int>({EAI_AGAIN, EAI_NONAME, EAI_FAIL, EAI_MEMORY}) : 0;
        dns.addresses.clear();
        std::string text;
        const auto n = c.range(1, 4);
        for (int i = 0; i < n; ++i) {
            dns.addresses.push_back(c.pick(all)->address);
            text += " " + dns.addresses.back();
        }
        c.note(dns.error ? "the name cannot be resolved" : "the name resolves to" + text);
    };
    resolve();
    auto sink = make(c, "peer.test", port.number);
    WireScope scope;
    Fd peer;
    std::size_t failed = 0;
    const auto n = c.range(1, 20);
    for (int i = 0; i < n; ++i) {
        switch (c.weighted({6, 2, 2, 1})) {
        case 0: {
            const auto text = "event " + std::to_string(i) + c.utf8(10) + "\n";
            c.note("emit");
            const auto asked = dns.asked;
            bool thrown = false;
            std::string what;
            try {
                send_event(*sink, text);
            } catch (const std::exception& e) {
                thrown = true;
                what = e.what();
            }
            if (peer) {
                CHECK_THAT(!thrown, "the event is refused on a live connection: " << what);
            } else {
                CHECK_THAT(dns.asked != asked, "the name was not looked up");
                std::vector<std::size_t> ready;
                for (auto& a : dns.addresses) {
                    for (std::size_t k = 0; k < all.size(); ++k) {
                        if (all[k]->address == a && all[k]->is_up() && !dns.error) {
                            ready.push_back(k);
                        }
                    }
                }
                CHECK_THAT(thrown == ready.empty(), (thrown ? "the event is refused though an address of the host listens: " + what
                                                            : std::string("an event was lost without an exception as nobody listens")));
                if (thrown) {
                    ++failed;
                    break;
                }
                for (int round = 0; round < 2 && !peer; ++round) {
                    for (auto k : ready) {
                        if (!peer) {
                            peer = all[k]->accept(round ? 5000 : 20);
                            if (peer && (failed || all[k]->address != dns.addresses.front())) {
                                c.nontrivial();
                            }
                        }
                    }
                }
                CHECK_THAT(static_cast<bool>(peer), "the sink did not connect");
            }
            std::string got;
            read_until(peer.get(), got, text.size());
            CHECK_EQ_STR(got, text, "what the peer received");
            for (auto& l : all) {
                CHECK_THAT(!l->accept(0), "the sink connected once more");
            }
            break;
        }
        case 1: {
            auto& l = c.pick(all);
            if (l->is_up()) {
                c.note("down " + l->address);
                l->down();
            } else {
                c.note("up " + l->address);
                if (!l->up(port.number)) {
                    throw pbt::Discard();
                }
            }
            break;
        }
        case 2: resolve(); break;
        default:
            if (peer) {
                c.note("break");
                wire.budget = 0;
                bool thrown = false;
                try {
                    send_event(*sink, "lost");
                } catch (const std::exception&) {
                    thrown = true;
                }
                wire.budget = -1;
                CHECK_THAT(thrown, "an event was lost without an exception as its connection broke");
                peer.reset();
            }
        }
    }
}

PROPERTY(tcp_bulk, o.quick = 960; o.thorough = 5000; o.schedule = true;
    o.rule = "1-4 threads emit up to 200 events of up to 300 kB each while the peer reads slowly and the system takes generated pieces: the stream is made of "
             "whole events, each once, those of a thread in order; non-trivial: several threads or over a megabyte")
{
    Port port(false);
    CHECK_THAT(port.valid() && port.up(), "cannot listen");
    auto sink = make(c, "127.0.0.1", port.number);
    const auto threads = static_cast<std::size_t>(c.range(1, 4));
    const auto per = static_cast<std::size_t>(c.range(1, 50));
    const auto width = c.pick<std::size_t>({1, 100, 5000, 60000, 300000});
    const auto cap = c.pick<long>({-1, 1000, 7, 70000});
    const bool slow = c.chance(50);
    const auto pieces = cap == 7 && width > 5000 ? 500 : cap;
    c.note(std::to_string(threads) + " threads, " + std::to_string(per) + " events of up to " + std::to_string(width) + " in pieces of " + std::to_string(pieces) + (slow ? ", slow peer" : ""));
    auto length = [=](std::size_t t, std::size_t i) { return (i * 7919 + t * 104729) % width; };
    std::size_t total = 0;
    for (std::size_t t = 0; t < threads; ++t) {
        for (std::size_t i = 0; i < per; ++i) {
            total += length(t, i);
        }
    }
    WireScope scope;
    wire.cap = pieces;
    std::string got;
    std::atomic<bool> connected{false};
    std::thread reader([&] {
        auto peer = port.accept(10000);
        connected = static_cast<bool>(peer);
        char buffer[4096];
        while (peer) {
            if (slow && got.size() < 100000) {
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
            const auto n = ::recv(peer.get(), buffer, sizeof buffer, 0);
            if (n <= 0) {
                break;
            }
            got.append(buffer, static_cast<std::size_t>(n));
        }
    });
    std::atomic<std::size_t> errors(0);
    std::vector<std::thread> pool;
    for (std::size_t t = 0; t < threads; ++t) {
        pool.emplace_back([&, t] {
            for (std::size_t i = 0; i < per; ++i) {
                try {
                    send_event(*sink, std::to_string(t) + ":" + std::to_string(i) + ":" + std::string(length(t, i), static_cast<char>('a' + t)) + "\n");
                } catch (const std::exception&) {
                    ++errors;
                }
            }
        });
    }
    for (auto& t : pool) {
        t.join();
    }
    sink.reset();
    reader.join();
    CHECK_THAT(connected && errors == 0, errors << " events were refused");
    CHECK_THAT(!port.accept(0), "the sink made more than one connection");
    std::vector<std::size_t> next(threads, 0);
    std::istringstream lines(got);
    std::string line;
    while (std::getline(lines, line)) {
        unsigned long t = 0, i = 0;
        int pos = 0;
        CHECK_THAT(std::sscanf(line.c_str(), "%lu:%lu:%n", &t, &i, &pos) == 2 && pos > 0 && t < threads && i < per, "mangled event " << pbt::show(line.substr(0, 200)));
        CHECK_EQ_STR(line.substr(static_cast<std::size_t>(pos)), std::string(length(t, i), static_cast<char>('a' + t)), "event");
        CHECK_THAT(i == next[t], "event " << t << ":" << next[t] << " is missing, " << i << " came");
        ++next[t];
    }
    for (std::size_t t = 0; t < threads; ++t) {
        CHECK_THAT(next[t] == per, "events of thread " << t << " are missing from " << next[t]);
    }
    if (threads > 1 || total > 1000000) {
        c.nontrivial();
    }
}

PROPERTY(tcp_options, o.quick = 60000; o.thorough = 60000;
    o.rule = "configurations with ports in and out of range, of other types, with options missing: the connection goes to that very port or "
             "the configuration is refused; non-trivial: a port out of range or an option missing")
{
    const Foreign foreign(c);
    Port port(false);
    CHECK_THAT(port.valid() && port.up(), "cannot listen");
    const auto kind = c.draw(6);
    std::string config = "{\"type\": \"tcp\"";
    bool valid = false;
    switch (kind) {
    case 0: config += ", \"host\": \"127.0.0.1\", \"port\": " + std::to_string(port.number); valid = true; break;
    case 1: config += ", \"host\": \"127.0.0.1\""; break;
    case 2: config += ", \"port\": " + std::to_string(port.number); break;
    case 3: config += ", \"host\": \"127.0.0.1\", \"port\": " + std::to_string(port.number + 65536ull * static_cast<std::uint64_t>(c.range(1, 1000000))); break;
    case 4: config += ", \"host\": \"127.0.0.1\", \"port\": " + c.pick<std::string>({"-1", "\"80\"", "1.5", "null", "true", "[]", "{}", "65536", "18446744073709551615"}); break;
    case 5: config += ", \"host\": \"127.0.0.1\", \"port\": " + std::to_string(c.pick<int>({1, 255, 256, 32767, 32768, 65534, 65535, static_cast<int>(c.range(1, 65535))})); break;
    default: config += ", \"host\": " + c.pick<std::string>({"1", "null", "true", "[]", "{}"}) + ", \"port\": " + std::to_string(port.number);
    }
    config += "}";
    c.note(config);
    if (kind != 0) {
        c.nontrivial();
    }
    std::unique_ptr<sink_t> sink;
    try {
        sink = sink_from("tcp", config);
    } catch (const std::exception& e) {
        CHECK_THAT(!valid && kind != 5, "a valid configuration is refused: " << e.what());
        return;
    }
    if (kind == 5) {
        // Nobody needs to listen there.
        return;
    }
    CHECK_THAT(valid, "the configuration is accepted");
    send_event(*sink, "text");
    auto peer = port.accept(5000);
    CHECK_THAT(static_cast<bool>(peer), "the sink did not connect");
    std::string got;
    read_until(peer.get(), got, 4);
    CHECK_EQ_STR(got, "text", "what the peer received");
}
