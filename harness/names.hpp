// Names of hosts which resolve to what a case wants.
#pragma once

#include <mutex>
#include <set>
#include <string>
#include <vector>

#include <arpa/inet.h>
#include <dlfcn.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>

namespace bh {

struct Names {
    // Names ending with this one are answered here.
    static const char* suffix() { return ".test"; }
    std::mutex mutex;
    int error = 0;
    // Numeric addresses in order.
    std::vector<std::string> addresses;
    std::size_t asked = 0;
    std::set<addrinfo*> given;
};

inline Names& names() {
    static Names* r = new Names;
    return *r;
}

}  // namespace bh

extern "C" int getaddrinfo(const char* host, const char* service, const struct addrinfo* hints, struct addrinfo** result) {
    typedef int (*fn)(const char*, const char*, const struct addrinfo*, struct addrinfo**);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "getaddrinfo"));
    const std::string name = host ? host : "";
    const std::string suffix = bh::Names::suffix();
    if (name.size() < suffix.size() || name.compare(name.size() - suffix.size(), suffix.size(), suffix) != 0) {
        return real(host, service, hints, result);
    }
    auto& n = bh::names();
    std::lock_guard<std::mutex> lock(n.mutex);
    ++n.asked;
    if (n.error) {
        return n.error;
    }
    addrinfo* first = nullptr;
    addrinfo** next = &first;
    for (auto& text : n.addresses) {
        const bool v6 = text.find(':') != std::string::npos;
        if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != (v6 ? AF_INET6 : AF_INET)) {
            continue;
        }
        auto info = new addrinfo();
        auto storage = new sockaddr_storage();
        const auto port = htons(static_cast<std::uint16_t>(service ? std::stoul(service) : 0));
        if (v6) {
            auto& a = reinterpret_cast<sockaddr_in6&>(*storage);
            a.sin6_family = AF_INET6;
            a.sin6_port = port;
            ::inet_pton(AF_INET6, text.c_str(), &a.sin6_addr);
            info->ai_addrlen = sizeof a;
        } else {
            auto& a = reinterpret_cast<sockaddr_in&>(*storage);
            a.sin_family = AF_INET;
            a.sin_port = port;
            ::inet_pton(AF_INET, text.c_str(), &a.sin_addr);
            info->ai_addrlen = sizeof a;
        }
        info->ai_family = v6 ? AF_INET6 : AF_INET;
        info->ai_socktype = hints ? hints->ai_socktype : 0;
        info->ai_protocol = hints ? hints->ai_protocol : 0;
        info->ai_addr = reinterpret_cast<sockaddr*>(storage);
        *next = info;
        next = &info->ai_next;
    }
    if (!first) {
        return EAI_NONAME;
    }
    n.given.insert(first);
    *result = first;
    return 0;
}

extern "C" void freeaddrinfo(struct addrinfo* info) {
    typedef void (*fn)(struct addrinfo*);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "freeaddrinfo"));
    auto& n = bh::names();
    {
        std::lock_guard<std::mutex> lock(n.mutex);
        if (n.given.erase(info) == 0) {
            return real(info);
        }
    }
    while (info) {
        const auto next = info->ai_next;
        delete reinterpret_cast<sockaddr_storage*>(info->ai_addr);
        delete info;
        info = next;
    }
}
