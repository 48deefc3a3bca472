// Loopback sockets for the network sinks.
#pragma once

#include <cerrno>
#include <chrono>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>

#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

namespace bh {

struct Address {
    sockaddr_storage storage;
    socklen_t size;
    std::string host;
    std::uint16_t port;

    Address(bool v6, std::uint16_t port = 0) : storage(), size(0), host(v6 ? "::1" : "127.0.0.1"), port(port) {
        if (v6) {
            auto& a = reinterpret_cast<sockaddr_in6&>(storage);
            a.sin6_family = AF_INET6;
            a.sin6_addr = in6addr_loopback;
            a.sin6_port = htons(port);
            size = sizeof a;
        } else {
            auto& a = reinterpret_cast<sockaddr_in&>(storage);
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            a.sin_port = htons(port);
            size = sizeof a;
        }
    }
};

class Fd {
    int fd;

public:
    Fd() : fd(-1) {}
    explicit Fd(int fd) : fd(fd) {}
    Fd(Fd&& o) : fd(o.fd) { o.fd = -1; }
    Fd& operator=(Fd&& o) {
        if (this != &o) {
            reset();
            fd = o.fd;
            o.fd = -1;
        }
        return *this;
    }
    ~Fd() { reset(); }
    void reset() {
        if (fd >= 0) {
            ::close(fd);
        }
        fd = -1;
    }
    int get() const { return fd; }
    explicit operator bool() const { return fd >= 0; }
};

inline bool readable(int fd, int ms) {
    pollfd p = {fd, POLLIN, 0};
    return ::poll(&p, 1, ms) > 0;
}

// A port of the loopback interface which is reserved for as long as the object lives, listening or not.
class Port {
    bool v6;
    Fd holder;
    Fd listener;

    static Fd bound(bool v6, Address& address) {
        Fd fd(::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
        if (!fd) {
            return fd;
        }
        int one = 1;
        ::setsockopt(fd.get(), SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        if (v6) {
            ::setsockopt(fd.get(), IPPROTO_IPV6, IPV6_V6ONLY, &one, sizeof one);
        }
        if (::bind(fd.get(), reinterpret_cast<sockaddr*>(&address.storage), address.size) != 0) {
            return Fd();
        }
        sockaddr_storage s;
        socklen_t n = sizeof s;
        ::getsockname(fd.get(), reinterpret_cast<sockaddr*>(&s), &n);
        address.port = ntohs(v6 ? reinterpret_cast<sockaddr_in6&>(s).sin6_port : reinterpret_cast<sockaddr_in&>(s).sin_port);
        return fd;
    }

public:
    explicit Port(bool v6) : v6(v6), number(0) {
        Address address(v6);
        holder = bound(v6, address);
        number = address.port;
    }

    std::uint16_t number;

    bool valid() const { return static_cast<bool>(holder); }

    bool up() {
        Address address(v6, number);
        // The one which is not listening must not be in the way.
        for (int i = 0; i < 200; ++i) {
            listener = bound(v6, address);
            if (listener && ::listen(listener.get(), 16) == 0) {
                return true;
            }
            listener.reset();
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        return false;
    }

    void down() { listener.reset(); }

    bool is_up() const { return static_cast<bool>(listener); }

    Fd accept(int ms) {
        if (!listener || !readable(listener.get(), ms)) {
            return Fd();
        }
        return Fd(::accept4(listener.get(), nullptr, nullptr, SOCK_CLOEXEC));
    }
};

}  // namespace bh
