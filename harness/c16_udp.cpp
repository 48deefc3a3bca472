// C16: the UDP sink sends each event as exactly one datagram.
#include <algorithm>
#include <atomic>

#include <blackhole/sink/socket/udp.hpp>

#include "config.hpp"
#include "names.hpp"
#include "net.hpp"
#include "recordgen.hpp"

namespace {

using namespace bh;
using blackhole::sink_t;

class Receiver {
    Fd fd;
    bool v6;

public:
    std::uint16_t port;

    explicit Receiver(bool v6, std::uint16_t number = 0) : v6(v6), port(0) {
        Address address(v6, number);
        fd = Fd(::socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0));
        if (!fd) {
            return;
        }
        int size = 4 << 20;
        ::setsockopt(fd.get(), SOL_SOCKET, SO_RCVBUF, &size, sizeof size);
        if (::bind(fd.get(), reinterpret_cast<sockaddr*>(&address.storage), address.size) != 0) {
            fd.reset();
            return;
        }
        sockaddr_storage s;
        socklen_t n = sizeof s;
        ::getsockname(fd.get(), reinterpret_cast<sockaddr*>(&s), &n);
        port = ntohs(v6 ? reinterpret_cast<sockaddr_in6&>(s).sin6_port : reinterpret_cast<sockaddr_in&>(s).sin_port);
    }

    bool valid() const { return static_cast<bool>(fd); }
    void close() { fd.reset(); }
    int native() const { return fd.get(); }

    bool receive(std::string& data, int ms) {
        if (!readable(fd.get(), ms)) {
            return false;
        }
        static thread_local char buffer[70000];
        const auto n = ::recv(fd.get(), buffer, sizeof buffer, MSG_TRUNC);
        if (n < 0) {
            return false;
        }
        data.assign(buffer, static_cast<std::size_t>(n));
        return true;
    }
};

void send_event(sink_t& sink, const std::string& text) {
    Arena arena;
    const auto view = arena.view(text);
    const blackhole::attribute_pack pack;
    const blackhole::string_view message("");
    const blackhole::record_t record(0, message, pack);
    sink.emit(record, view);
}

std::unique_ptr<sink_t> make(const std::string& host, std::uint64_t port) {
    return sink_from("udp", "{\"type\": \"udp\", \"host\": " + quote(host) + ", \"port\": " + std::to_string(port) + "}");
}

bool have_v6() {
    static const bool r = [] { return Receiver(true).valid(); }();
    return r;
}

std::string gen_text(pbt::Case& c) {
    switch (c.weighted({5, 2, 1, 2, 1})) {
    case 0: return c.utf8(60);
    case 1: return c.bytes(100);
    case 2: return std::string();
    case 3: return std::string(static_cast<std::size_t>(c.range(1400, 9000)), static_cast<char>('a' + c.draw(25))) + c.bytes(4);
    // At the limit of a datagram over IPv4.
    default: return std::string(static_cast<std::size_t>(c.range(65490, 65530)), static_cast<char>('a' + c.draw(25)));
    }
}

}  // namespace

PROPERTY(udp_history, o.quick = 64000; o.thorough = 200000;
    o.rule = "up to 20 events of any bytes, from empty to over the limit of a datagram, from one or several sinks to one or two receivers over IPv4 and IPv6, "
             "receivers going away and coming back: each datagram is one event, in order, none is extra, what does not fit is refused; non-trivial: "
             "several datagrams, an empty or a fragmented one")
{
    const Foreign foreign(c);
    const bool v6 = have_v6() && c.chance(30);
    std::vector<std::unique_ptr<Receiver>> receivers;
    const auto count = c.range(1, 2);
    for (int i = 0; i < count; ++i) {
        receivers.emplace_back(new Receiver(v6));
        CHECK_THAT(receivers.back()->valid(), "cannot bind");
    }
    struct One {
        std::unique_ptr<sink_t> sink;
        std::size_t to;
    };
    std::vector<One> sinks;
    const auto nsinks = c.range(1, 3);
    for (int i = 0; i < nsinks; ++i) {
        const auto to = c.draw(receivers.size() - 1);
        sinks.push_back({make(v6 ? "::1" : "127.0.0.1", receivers[to]->port), to});
    }
    const auto n = c.range(1, 20);
    std::size_t delivered = 0;
    for (int i = 0; i < n; ++i) {
        auto& s = sinks[c.draw(sinks.size() - 1)];
        if (c.chance(4)) {
            // The receiver is away for an event or two.
            c.note("receiver away");
            const auto port = receivers[s.to]->port;
            receivers[s.to]->close();
            const auto missed = c.range(1, 2);
            for (int k = 0; k < missed; ++k) {
                try {
                    send_event(*s.sink, "missed");
                } catch (const std::exception&) {
                }
            }
            receivers[s.to].reset(new Receiver(v6, port));
            if (!receivers[s.to]->valid()) {
                // Somebody else took it.
                throw pbt::Discard();
            }
        }
        const auto text = gen_text(c);
        const std::size_t limit = v6 ? 65527 : 65507;
        c.note("emit " + pbt::show(text.substr(0, 50)) + " of " + std::to_string(text.size()));
        bool thrown = false;
        std::string what;
        try {
            send_event(*s.sink, text);
        } catch (const std::exception& e) {
            thrown = true;
            what = e.what();
        }
        std::string got;
        if (text.size() > limit) {
            CHECK_THAT(thrown, "an event which does not fit is lost without an exception");
            c.label("too large");
        } else if (text.size() > 65000 && thrown) {
            // The system has got lower limits.
            c.label("refused by the system");
        } else {
            CHECK_THAT(!thrown, "the event is refused: " << what);
            CHECK_THAT(receivers[s.to]->receive(got, 5000), "no datagram came");
            CHECK_EQ_STR(got, text, "datagram");
            ++delivered;
            if (text.empty() || text.size() > 1400 || delivered > 2) {
                c.nontrivial();
            }
        }
        for (auto& r : receivers) {
            CHECK_THAT(!r->receive(got, 0), "an extra datagram " << pbt::show(got.substr(0, 100)));
        }
    }
}

PROPERTY(udp_threads, o.quick = 2400; o.thorough = 8000; o.schedule = true;
    o.rule = "2-4 threads emit into one sink: every datagram is one whole event, each once, those of a thread in order; non-trivial: always")
{
    Receiver receiver(false);
    CHECK_THAT(receiver.valid(), "cannot bind");
    auto sink = make("127.0.0.1", receiver.port);
    const auto threads = static_cast<std::size_t>(c.range(2, 4));
    const auto per = static_cast<std::size_t>(c.range(1, 40));
    c.note(std::to_string(threads) + " threads, " + std::to_string(per) + " events");
    std::atomic<std::size_t> credit(0), sent(0);
    std::vector<std::thread> pool;
    for (std::size_t t = 0; t < threads; ++t) {
        pool.emplace_back([&, t] {
            for (std::size_t i = 0; i < per; ++i) {
                // The receiver must keep up.
                while (sent > credit + 16) {
                    std::this_thread::yield();
                }
                ++sent;
                send_event(*sink, std::to_string(t) + ":" + std::to_string(i) + ":" + std::string((i * 37) % 500, static_cast<char>('a' + t)));
            }
        });
    }
    std::vector<std::size_t> next(threads, 0);
    std::string got, problem;
    for (std::size_t k = 0; k < threads * per; ++k) {
        if (!receiver.receive(got, 5000)) {
            problem = "a datagram is missing";
            credit += 1000000;
            break;
        }
        ++credit;
        unsigned long t = 0, i = 0;
        int pos = 0;
        if (std::sscanf(got.c_str(), "%lu:%lu:%n", &t, &i, &pos) != 2 || pos == 0 || t >= threads || i >= per ||
            got.substr(static_cast<std::size_t>(pos)) != std::string((i * 37) % 500, static_cast<char>('a' + t))) {
            problem = "mangled datagram " + pbt::show(got.substr(0, 100));
        } else if (i != next[t]) {
            problem = "event " + std::to_string(t) + ":" + std::to_string(i) + " in place of " + std::to_string(next[t]);
        } else {
            ++next[t];
        }
    }
    for (auto& t : pool) {
        t.join();
    }
    CHECK_THAT(problem.empty(), problem);
    CHECK_THAT(!receiver.receive(got, 0), "an extra datagram");
    c.nontrivial();
}

PROPERTY(udp_options, o.quick = 60000; o.thorough = 60000;
    o.rule = "configurations with ports in and out of range, of other types, with options missing: datagrams go to that very port or the configuration is "
             "refused; non-trivial: a port out of range or an option missing")
{
    const Foreign foreign(c);
    Receiver receiver(false);
    CHECK_THAT(receiver.valid(), "cannot bind");
    const auto kind = c.draw(6);
    std::string config = "{\"type\": \"udp\"";
    bool valid = false;
    const auto port = std::to_string(receiver.port);
    switch (kind) {
    case 0: config += ", \"host\": \"127.0.0.1\", \"port\": " + port; valid = true; break;
    case 1: config += ", \"host\": \"127.0.0.1\""; break;
    case 2: config += ", \"port\": " + port; break;
    case 3: config += ", \"host\": \"127.0.0.1\", \"port\": " + std::to_string(receiver.port + 65536ull * static_cast<std::uint64_t>(c.range(1, 1000000))); break;
    case 4: config += ", \"host\": \"127.0.0.1\", \"port\": " + c.pick<std::string>({"-1", "\"80\"", "1.5", "null", "true", "[]", "{}", "65536", "18446744073709551615"}); break;
    case 5: config += ", \"host\": \"127.0.0.1\", \"port\": " + std::to_string(c.pick<int>({1, 255, 256, 32767, 32768, 65534, 65535, static_cast<int>(c.range(1, 65535))})); break;
    default: config += ", \"host\": " + c.pick<std::string>({"1", "null", "true", "[]", "{}"}) + ", \"port\": " + port;
    }
    config += "}";
    c.note(config);
    if (kind != 0) {
        c.nontrivial();
    }
    std::unique_ptr<sink_t> sink;
    try {
        sink = sink_from("udp", config);
    } catch (const std::exception& e) {
        CHECK_THAT(!valid && kind != 5, "a valid configuration is refused: " << e.what());
        return;
    }
    if (kind == 5) {
        // Nobody needs to listen there.
        return;
    }
    CHECK_THAT(valid, "the configuration is accepted");
    send_event(*sink, "text");
    std::string got;
    CHECK_THAT(receiver.receive(got, 5000), "no datagram came");
    CHECK_EQ_STR(got, "text", "datagram");
}

PROPERTY(udp_names, o.quick = 12000; o.thorough = 60000;
    o.rule = "a name which resolves to generated lists of IPv4 and IPv6 addresses, or to none, and up to 10 events: all of them go to one of the addresses, "
             "each in one datagram, and a host which cannot be resolved is refused; non-trivial: several addresses or none")
{
    const Foreign foreign(c);
    std::unique_ptr<Receiver> receivers[2];
    receivers[0].reset(new Receiver(false));
    CHECK_THAT(receivers[0]->valid(), "cannot bind");
    const auto port = receivers[0]->port;
    if (have_v6()) {
        receivers[1].reset(new Receiver(true, port));
        if (!receivers[1]->valid()) {
            throw pbt::Discard();
        }
    }
    auto& dns = names();
    dns.error = c.chance(25) ? c.pick<int>({EAI_AGAIN, EAI_NONAME, EAI_FAIL}) : 0;
    dns.addresses.clear();
    const auto n = c.range(1, 3);
    std::string text;
    for (int i = 0; i < n; ++i) {
        dns.addresses.push_back(receivers[1] && c.chance(50) ? "::1" : "127.0.0.1");
        text += " " + dns.addresses.back();
    }
    c.note(dns.error ? "the name cannot be resolved" : "the name resolves to" + text);
    if (n > 1 || dns.error) {
        c.nontrivial();
    }
    std::unique_ptr<sink_t> sink;
    bool refused = false;
    try {
        sink = make("peer.test", port);
    } catch (const std::exception&) {
        refused = true;
    }
    CHECK_THAT(refused == (dns.error != 0), (refused ? "the host is refused though it can be resolved" : "a host which cannot be resolved is accepted"));
    if (refused) {
        return;
    }
    Receiver* to = nullptr;
    const auto count = c.range(1, 10);
    for (int i = 0; i < count; ++i) {
        const auto payload = std::to_string(i) + c.utf8(20);
        send_event(*sink, payload);
        std::string got;
        for (int round = 0; round < 2 && !to; ++round) {
            for (auto& r : receivers) {
                const std::string address = &r == &receivers[1] ? "::1" : "127.0.0.1";
                if (!to && r && std::count(dns.addresses.begin(), dns.addresses.end(), address) && readable(r->native(), round ? 5000 : 20)) {
                    to = r.get();
                }
            }
        }
        CHECK_THAT(to && to->receive(got, 5000), "no datagram came");
        CHECK_EQ_STR(got, payload, "datagram");
        for (auto& r : receivers) {
            CHECK_THAT(!r || !readable(r->native(), 0), "one datagram too many");
        }
    }
}
