#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <thread>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

enum { MAX_CHOICES = 1 << 15, NOTE = 1 << 15, MSG = 1 << 13, LABELS = 64, SAMPLES = 4, SAMPLE = 3000 };
enum State { RUNNING = 0, PASSED = 1, FAILED = 2, DISCARDED = 3 };

struct Label {
    char name[56];
    std::uint64_t count;
};

struct Shm {
    std::atomic<std::uint64_t> index;    // Current case.
    std::atomic<std::uint64_t> started;  // Number of cases started (progress).
    std::uint64_t state;
    std::uint64_t nontrivial;            // Flag of the current case.
    std::uint64_t nchoices;
    std::uint64_t choices[MAX_CHOICES];
    std::uint64_t notelen;
    char note[NOTE];
    char msg[MSG];
    std::uint64_t evaluations;
    std::uint64_t discarded;
    std::uint64_t nontrivials;
    Label labels[LABELS];
    std::uint64_t nsamples;
    char samples[SAMPLES][SAMPLE];
    std::uint64_t nhashes;
    std::uint64_t hashes[1];
};

namespace {

std::uint64_t mix(std::uint64_t& state) {
    std::uint64_t z = (state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

std::uint64_t fnv(const std::string& s) {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) {
        h = (h ^ ch) * 1099511628211ull;
    }
    return h;
}

double now() {
    timespec ts;
    ::clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Prop {
    std::string name;
    Options options;
    Fn fn;
};

std::vector<Prop>& props() {
    static std::vector<Prop> v;
    return v;
}

std::string g_scratch_root;
std::string g_scratch;
bool g_thorough = false;

std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        } else if (ch < 0x20 || ch >= 0x7f) {
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        } else {
            r += ch;
        }
    }
    return r + "\"";
}

}  // namespace

bool thorough() {
    return g_thorough;
}

const std::string& scratch() {
    return g_scratch;
}

int registrate(const char* name, const Options& options, Fn fn) {
    props().push_back(Prop{name, options, std::move(fn)});
    return 0;
}

void fail(const std::string& what) {
    throw Failure{what};
}

std::string show(const std::string& bytes) {
    std::string r = "\"";
    for (unsigned char ch : bytes) {
        char b[8];
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        } else if (ch < 0x20 || ch >= 0x7f) {
            std::snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        } else {
            r += ch;
        }
        if (r.size() > 1500) {
            return r + "\"...(" + std::to_string(bytes.size()) + " bytes)";
        }
    }
    return r + "\"";
}

std::string difference(const std::string& actual, const std::string& expected) {
    if (actual.size() < 400 && expected.size() < 400) {
        return "got " + show(actual) + " expected " + show(expected);
    }
    std::size_t at = 0;
    while (at < actual.size() && at < expected.size() && actual[at] == expected[at]) {
        ++at;
    }
    const auto from = at < 40 ? 0 : at - 40;
    return "at byte " + std::to_string(at) + " got ..." + show(actual.substr(from, 300)) + " of " + std::to_string(actual.size()) + " expected ..." +
        show(expected.substr(from, 300)) + " of " + std::to_string(expected.size());
}

Case::Case(Shm* shm, std::uint64_t seed) : shm(shm), replay(false), state(seed), pos(0), hash_(14695981039346656037ull) {}

Case::Case(Shm* shm, const std::vector<std::uint64_t>& choices) :
    shm(shm), replay(true), state(0), source(choices), pos(0), hash_(14695981039346656037ull)
{}

std::uint64_t Case::draw(std::uint64_t max) {
    std::uint64_t v;
    if (replay) {
        v = pos < source.size() ? source[pos] : 0;
        if (v > max) {
#ifdef PBT_FUZZ
            v %= max + 1;
#else
            v = max;
#endif
        }
    } else if (pos >= MAX_CHOICES) {
        v = 0;
    } else if (max == ~0ull) {
        v = mix(state);
    } else {
        // Slight modulo bias is irrelevant here.
        v = mix(state) % (max + 1);
    }
    if (pos < MAX_CHOICES) {
        shm->choices[pos] = v;
        shm->nchoices = pos + 1;
    }
    ++pos;
    hash_ = (hash_ ^ v) * 1099511628211ull;
    hash_ ^= hash_ >> 29;
    return v;
}

std::int64_t Case::range(std::int64_t lo, std::int64_t hi) {
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(lo) +
        draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
}

bool Case::chance(unsigned percent) {
    return draw(99) >= 100 - std::min(percent, 100u);
}

std::size_t Case::weighted(std::initializer_list<unsigned> weights) {
    std::uint64_t total = 0;
    for (auto w : weights) {
        total += w;
    }
    auto v = draw(total - 1);
    std::size_t i = 0;
    for (auto w : weights) {
        if (v < w) {
            return i;
        }
        v -= w;
        ++i;
    }
    return 0;
}

std::size_t Case::size(std::size_t max) {
    std::size_t limit;
    switch (weighted({40, 30, 20, 10})) {
    case 0: limit = 3; break;
    case 1: limit = 8; break;
    case 2: limit = 24; break;
    default: limit = max; break;
    }
    return draw(std::min(limit, max));
}

std::uint64_t Case::u64() {
    switch (weighted({20, 20, 40, 20})) {
    case 0:
        return draw(20);
    case 1:
        return pick<std::uint64_t>({0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
            2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull,
            9223372036854775808ull, 18446744073709551614ull, 18446744073709551615ull, 999999999ull, 1000000000ull});
    case 2: {
        const auto bits = draw(63);
        return draw(bits == 63 ? ~0ull : (1ull << (bits + 1)) - 1);
    }
    default: {
        // Decimal boundaries.
        std::uint64_t p = 1;
        for (auto n = draw(19); n > 0; --n) {
            p *= 10;
        }
        return p - 1 + draw(2);
    }
    }
}

std::int64_t Case::i64() {
    const bool negative = chance(50);
    const auto v = u64();
    return static_cast<std::int64_t>(negative ? 0 - v : v);
}

double Case::finite() {
    double v;
    switch (weighted({25, 25, 20, 20, 10})) {
    case 0: v = static_cast<double>(range(0, 1000)); break;
    case 1: v = static_cast<double>(range(0, 1000000)) / static_cast<double>(pick<int>({2, 10, 100, 1000, 3, 7, 64})); break;
    case 2: v = std::ldexp(static_cast<double>(draw((1ull << 53) - 1)), static_cast<int>(range(0, 200)) - 120); break;
    case 3: {
        std::uint64_t bits = draw(~0ull);
        std::memcpy(&v, &bits, 8);
        if (!std::isfinite(v)) {
            v = 0.5;
        }
        break;
    }
    default:
        v = pick<double>({0.0, 1.0, 0.1, 1e15, 1e16, 1e17, 1e21, 1e22, 1e-5, 1e-6, 1e-7, 123456.0, 1234567.0, 5e-324,
            1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740992.0, 0.30000000000000004});
    }
    return chance(30) ? -v : v;
}

std::string Case::over(const std::string& alphabet, std::size_t max) {
    const auto n = size(max);
    std::string r;
    for (std::size_t i = 0; i < n; ++i) {
        r += alphabet[draw(alphabet.size() - 1)];
    }
    return r;
}

std::string Case::bytes(std::size_t max) {
    const auto n = size(max);
    std::string r;
    for (std::size_t i = 0; i < n; ++i) {
        r += static_cast<char>(draw(255));
    }
    return r;
}

std::string Case::utf8(std::size_t max) {
    const auto n = size(max);
    std::string r;
    while (r.size() < n) {
        std::uint32_t cp;
        switch (weighted({50, 12, 10, 8, 8, 8, 4})) {
        case 0: cp = 'a' + draw(25); break;
        case 1: cp = 0x20 + draw(0x5e); break;
        case 2: cp = pick<std::uint32_t>({'"', '\\', '/', '\n', '\t', '\r', '=', '{', '}', '%', '\'', ':', ' ', '\b', '\f'}); break;
        case 3: cp = draw(0x1f); break;
        case 4: cp = 0x80 + draw(0x7ff - 0x80); break;
        case 5: cp = pick<std::uint32_t>({0x7f, 0x800, 0x2028, 0xfffd, 0xffff, 0xd7ff, 0xe000, 0x20ac}); break;
        default: cp = 0x10000 + draw(0xfffff); break;
        }
        if (cp < 0x80) {
            r += static_cast<char>(cp);
        } else if (cp < 0x800) {
            r += static_cast<char>(0xc0 | (cp >> 6));
            r += static_cast<char>(0x80 | (cp & 0x3f));
        } else if (cp < 0x10000) {
            r += static_cast<char>(0xe0 | (cp >> 12));
            r += static_cast<char>(0x80 | ((cp >> 6) & 0x3f));
            r += static_cast<char>(0x80 | (cp & 0x3f));
        } else {
            r += static_cast<char>(0xf0 | (cp >> 18));
            r += static_cast<char>(0x80 | ((cp >> 12) & 0x3f));
            r += static_cast<char>(0x80 | ((cp >> 6) & 0x3f));
            r += static_cast<char>(0x80 | (cp & 0x3f));
        }
    }
    return r;
}

std::string Case::ident(std::size_t max) {
    static const std::string head = "abcdefghijklmnopqrstuvwxyz_";
    static const std::string tail = "abcdefghijklmnopqrstuvwxyz_0123456789";
    std::string r(1, head[draw(head.size() - 1)]);
    for (auto n = draw(max - 1); n > 0; --n) {
        r += tail[draw(tail.size() - 1)];
    }
    return r;
}

void Case::note(const std::string& line) {
    const auto n = std::min<std::size_t>(line.size(), NOTE - 2 - shm->notelen);
    if (shm->notelen + 2 >= NOTE) {
        return;
    }
    std::memcpy(shm->note + shm->notelen, line.data(), n);
    shm->notelen += n;
    shm->note[shm->notelen++] = '\n';
    shm->note[shm->notelen] = 0;
}

void Case::label(const char* name) {
    for (auto& l : shm->labels) {
        if (l.name[0] == 0) {
            std::snprintf(l.name, sizeof l.name, "%s", name);
        }
        if (std::strncmp(l.name, name, sizeof l.name - 1) == 0) {
            ++l.count;
            return;
        }
    }
}

void Case::nontrivial() {
    shm->nontrivial = 1;
}

namespace {

struct Outcome {
    bool failed = false;
    std::string kind;  // assertion | crash | hang
    std::string what;
    std::vector<std::uint64_t> choices;
    std::string note;
};

Shm* allocate(std::uint64_t hashes) {
    const auto size = sizeof(Shm) + sizeof(std::uint64_t) * hashes;
    void* p = ::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    auto shm = static_cast<Shm*>(p);
    return shm;
}

void release(Shm* shm, std::uint64_t hashes) {
    ::munmap(shm, sizeof(Shm) + sizeof(std::uint64_t) * hashes);
}

#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_handle_no_return();
#endif

// Runs one case inside a worker. Returns false when it failed.
bool evaluate(const Prop& prop, Shm* shm, Case& c) {
#ifdef __SANITIZE_ADDRESS__
    // Exceptions thrown from libraries without instrumentation leave their fake frames behind, and looking for a free one among
    // them becomes ever slower: have them collected.
    __asan_handle_no_return();
#endif
    shm->state = RUNNING;
    shm->nchoices = 0;
    shm->notelen = 0;
    shm->note[0] = 0;
    shm->msg[0] = 0;
    shm->nontrivial = 0;
    ++shm->started;
    try {
        prop.fn(c);
        shm->state = PASSED;
        return true;
    } catch (const Discard&) {
        shm->state = DISCARDED;
        return true;
    } catch (const Failure& f) {
        std::snprintf(shm->msg, sizeof shm->msg, "%s", f.what.c_str());
    } catch (const std::exception& e) {
        std::snprintf(shm->msg, sizeof shm->msg, "unexpected exception: %s", e.what());
    } catch (...) {
        std::snprintf(shm->msg, sizeof shm->msg, "unexpected exception of an unknown type");
    }
    shm->state = FAILED;
    return false;
}

void enter(const std::string& log) {
    // Own process group, so that everything a case starts can be ended with it.
    ::setpgid(0, 0);
    const int null = ::open("/dev/null", O_RDWR);
    const int err = ::open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    ::dup2(null, 0);
    ::dup2(null, 1);
    ::dup2(err, 2);
    g_scratch = log + ".d";
    ::mkdir(g_scratch.c_str(), 0755);
}

std::string tail(const std::string& path) {
    std::ifstream f(path);
    std::string line;
    std::string result;
    while (std::getline(f, line)) {
        if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("Assertion") != std::string::npos ||
            line.find("SUMMARY") != std::string::npos || line.find("terminate called") != std::string::npos ||
            line.find("what():") != std::string::npos)
        {
            result += (result.empty() ? "" : " | ") + line.substr(0, 300);
        }
        if (result.size() > 1500) {
            break;
        }
    }
    return result;
}

std::string describe(int status) {
    if (WIFSIGNALED(status)) {
        return std::string("killed by signal ") + strsignal(WTERMSIG(status));
    }
    return "exit status " + std::to_string(WEXITSTATUS(status));
}

std::uint64_t seed_of(const Prop& prop, std::uint64_t seed, std::uint64_t index) {
    std::uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ fnv(prop.name);
    mix(s);
    s ^= index * 0xd6e8feb86659fd93ull;
    mix(s);
    return s;
}

void finish(pid_t pid) {
    ::kill(-pid, SIGKILL);
    ::kill(pid, SIGKILL);
}

// Waits for a child running in its own group; on hang kills it. Returns false on hang.
bool await(pid_t pid, Shm* shm, unsigned hang_s, int& status) {
    double last = now();
    std::uint64_t progress = ~0ull;
    unsigned step = 100;
    for (;;) {
        const pid_t rc = ::waitpid(pid, &status, WNOHANG);
        if (rc == pid) {
            ::kill(-pid, SIGKILL);
            return true;
        }
        const auto started = shm->started.load();
        if (started != progress) {
            progress = started;
            last = now();
        } else if (now() - last > hang_s) {
            finish(pid);
            ::waitpid(pid, &status, 0);
            return false;
        }
        ::usleep(step);
        step = std::min(step * 2, 20000u);
    }
}

Outcome outcome(Shm* shm, const std::string& log, bool finished, int status, unsigned hang_s) {
    Outcome r;
    r.choices.assign(shm->choices, shm->choices + std::min<std::uint64_t>(shm->nchoices, MAX_CHOICES));
    r.note.assign(shm->note, shm->notelen);
    if (!finished) {
        r.failed = true;
        r.kind = "hang";
        r.what = "no progress within " + std::to_string(hang_s) + " s";
    } else if (shm->state == FAILED) {
        r.failed = true;
        r.kind = "assertion";
        r.what = shm->msg;
    } else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
        r.failed = true;
        r.kind = "crash";
        r.what = describe(status) + ": " + tail(log);
    }
    return r;
}

std::string logpath(const std::string& suffix) {
    return g_scratch_root + "/" + suffix;
}

Outcome attempt(const Prop& prop, const std::vector<std::uint64_t>& choices, unsigned hang_s) {
    static Shm* shm = allocate(0);
    std::memset(static_cast<void*>(shm), 0, sizeof(Shm));
    const auto log = logpath("attempt.log");
    const pid_t pid = ::fork();
    if (pid == 0) {
        enter(log);
        Case c(shm, choices);
        const bool ok = evaluate(prop, shm, c);
        std::_Exit(ok ? 0 : 10);
    }
    int status = 0;
    const bool finished = await(pid, shm, hang_s, status);
    return outcome(shm, log, finished, status, hang_s);
}

// Runs several candidates in parallel; returns the outcomes in order.
std::vector<Outcome> attempts(const Prop& prop, const std::vector<std::vector<std::uint64_t>>& batch, unsigned hang_s) {
    static std::vector<Shm*> shms;
    while (shms.size() < batch.size()) {
        shms.push_back(allocate(0));
    }
    std::vector<pid_t> pids;
    for (std::size_t i = 0; i < batch.size(); ++i) {
        auto shm = shms[i];
        shm->started = 0;
        shm->state = RUNNING;
        shm->nchoices = 0;
        shm->notelen = 0;
        shm->msg[0] = 0;
        const pid_t pid = ::fork();
        if (pid == 0) {
            enter(logpath("attempt" + std::to_string(i) + ".log"));
            Case c(shm, batch[i]);
            const bool ok = evaluate(prop, shm, c);
            std::_Exit(ok ? 0 : 10);
        }
        pids.push_back(pid);
    }
    std::vector<Outcome> result;
    for (std::size_t i = 0; i < batch.size(); ++i) {
        int status = 0;
        const bool finished = await(pids[i], shms[i], hang_s, status);
        result.push_back(outcome(shms[i], logpath("attempt" + std::to_string(i) + ".log"), finished, status, hang_s));
    }
    return result;
}

// Runs all cases of one worker up to and including the given index in one process.
Outcome attempt_prefix(const Prop& prop, std::uint64_t seed, std::uint64_t worker, std::uint64_t workers, std::uint64_t upto) {
    static Shm* shm = allocate(0);
    std::memset(static_cast<void*>(shm), 0, sizeof(Shm));
    const auto log = logpath("attempt.log");
    const pid_t pid = ::fork();
    if (pid == 0) {
        enter(log);
        bool ok = true;
        for (std::uint64_t i = worker; ok && i <= upto; i += workers) {
            shm->index = i;
            Case c(shm, seed_of(prop, seed, i));
            ok = evaluate(prop, shm, c);
        }
        std::_Exit(ok ? 0 : 10);
    }
    int status = 0;
    const bool finished = await(pid, shm, prop.options.hang_s, status);
    return outcome(shm, log, finished, status, prop.options.hang_s);
}

bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
    if (a.size() != b.size()) {
        return a.size() < b.size();
    }
    return a < b;
}

Outcome shrink(const Prop& prop, Outcome best) {
    const double deadline = now() + (best.kind == "hang" ? 1 : 40);
    const unsigned hang = std::min(prop.options.hang_s, 10u);
    const std::size_t width = 8;
    typedef std::vector<std::uint64_t> Choices;

    // Tries candidates produced one by one from the current best; restarts the producer's position
    // after a success. The producer gets the step number and returns false at its end.
    auto sweep = [&](std::function<bool(const Choices&, std::size_t, Choices&)> produce) -> bool {
        bool improved = false;
        std::size_t step = 0;
        for (;;) {
            std::vector<Choices> batch;
            std::vector<std::size_t> steps;
            bool end = false;
            while (batch.size() < width) {
                Choices candidate;
                if (!produce(best.choices, step, candidate)) {
                    end = true;
                    break;
                }
                ++step;
                if (!candidate.empty() && simpler(candidate, best.choices)) {
                    batch.push_back(candidate);
                    steps.push_back(step - 1);
                }
            }
            if (!batch.empty()) {
                const auto results = attempts(prop, batch, hang);
                for (std::size_t i = 0; i < results.size(); ++i) {
                    if (results[i].failed && results[i].kind == best.kind && simpler(results[i].choices, best.choices)) {
                        best = results[i];
                        improved = true;
                        end = false;
                        step = steps[i];
                        break;
                    }
                }
            }
            if (end || now() > deadline) {
                return improved;
            }
        }
    };

    bool improved = true;
    while (improved && now() < deadline) {
        improved = false;
        for (std::size_t chunk : {256, 64, 16, 8, 4, 2, 1}) {
            // Drop a chunk, from the end, optionally decrementing the choice before it (often a length).
            improved |= sweep([chunk](const Choices& b, std::size_t step, Choices& out) {
                const auto at = step / 2;
                if (b.size() < chunk + at) {
                    return false;
                }
                const auto i = b.size() - chunk - at;
                out = b;
                out.erase(out.begin() + i, out.begin() + i + chunk);
                if (step % 2 == 1) {
                    if (i == 0 || out[i - 1] == 0) {
                        out.clear();
                    } else {
                        --out[i - 1];
                    }
                }
                return true;
            });
            if (now() > deadline) {
                return best;
            }
        }
        // Zero a choice, halve it, decrement it.
        for (int how = 0; how < 3; ++how) {
            improved |= sweep([how](const Choices& b, std::size_t step, Choices& out) {
                if (step >= b.size()) {
                    return false;
                }
                out = b;
                auto& v = out[step];
                v = how == 0 ? 0 : how == 1 ? v / 2 : v ? v - 1 : 0;
                return true;
            });
            if (now() > deadline) {
                return best;
            }
        }
    }
    return best;
}

struct Replay {
    std::string prop;
    std::string mode;
    std::vector<std::uint64_t> choices;
    std::uint64_t seed = 0, worker = 0, workers = 1, upto = 0;
};

void save(const std::string& path, const Prop& prop, const Outcome& o, const Replay* prefix) {
    std::ofstream f(path);
    f << "prop " << prop.name << "\n";
    f << "tier " << (g_thorough ? "thorough" : "quick") << "\n";
    if (prefix) {
        f << "prefix " << prefix->seed << " " << prefix->worker << " " << prefix->workers << " " << prefix->upto << "\n";
    } else {
        f << "choices";
        for (auto v : o.choices) {
            f << " " << v;
        }
        f << "\n";
    }
    f << "kind " << o.kind << "\n";
    f << "what " << show(o.what) << "\n";
    std::istringstream lines(o.note);
    std::string line;
    while (std::getline(lines, line)) {
        f << "# " << line << "\n";
    }
}

Replay load(const std::string& path) {
    Replay r;
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string key;
        s >> key;
        if (key == "prop") {
            s >> r.prop;
        } else if (key == "tier") {
            std::string tier;
            s >> tier;
            g_thorough = tier == "thorough";
        } else if (key == "choices") {
            r.mode = "choices";
            std::uint64_t v;
            while (s >> v) {
                r.choices.push_back(v);
            }
        } else if (key == "prefix") {
            r.mode = "prefix";
            s >> r.seed >> r.worker >> r.workers >> r.upto;
        }
    }
    return r;
}

// A failure counts only if it comes back: three times in a row, or, where real thread interleaving
// takes part, at least once in many attempts.
bool confirm(const Prop& prop, Outcome& o) {
    if (prop.options.schedule) {
        const double deadline = now() + 60;
        const std::vector<std::vector<std::uint64_t>> batch(o.kind == "hang" ? 1 : 8, o.choices);
        for (int i = 0; i < 1000 && now() < deadline; ++i) {
            for (const auto& r : attempts(prop, batch, prop.options.hang_s)) {
                if (r.failed) {
                    o = r;
                    return true;
                }
            }
        }
        return false;
    }
    // A hang has already lasted for long, see it once more.
    for (int i = 0; i < (o.kind == "hang" ? 1 : 3); ++i) {
        auto r = attempt(prop, o.choices, prop.options.hang_s);
        if (!r.failed) {
            return false;
        }
        o = r;
    }
    return true;
}

}  // namespace

static int run(const std::string& out, const std::string& replays, std::uint64_t seed, const std::set<std::string>& only, double scale) {
    const unsigned cores = std::max(1u, std::min(8u, std::thread::hardware_concurrency()));
    std::ofstream report(out);
    report << "{\"props\": [";
    bool first = true;
    int violations = 0;
    const double started = now();
    for (const auto& prop : props()) {
        if (!only.empty() && only.count(prop.name) == 0) {
            continue;
        }
        const double begin = now();
        if (violations > 0 && begin - started > 240) {
            continue;
        }
        auto total = g_thorough ? prop.options.thorough : prop.options.quick;
        total = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(total * scale));
        const unsigned workers = static_cast<unsigned>(std::min<std::uint64_t>(prop.options.workers ? prop.options.workers : cores, total));
        const std::uint64_t slots = total / workers + 1;
        std::vector<Shm*> shms;
        std::vector<pid_t> pids;
        for (unsigned w = 0; w < workers; ++w) {
            auto shm = allocate(slots);
            shms.push_back(shm);
            const pid_t pid = ::fork();
            if (pid == 0) {
                enter(logpath(prop.name + "." + std::to_string(w) + ".log"));
                for (std::uint64_t i = w; i < total; i += workers) {
                    shm->index = i;
                    Case c(shm, seed_of(prop, seed, i));
                    const bool ok = evaluate(prop, shm, c);
                    if (shm->state == DISCARDED) {
                        ++shm->discarded;
                        continue;
                    }
                    ++shm->evaluations;
                    if (shm->nontrivial) {
                        ++shm->nontrivials;
                        shm->hashes[shm->nhashes++] = c.hash();
                        if (shm->nsamples < SAMPLES && (shm->nsamples == 0 || i % 97 == 0)) {
                            std::snprintf(shm->samples[shm->nsamples++], SAMPLE, "%s", shm->note);
                        }
                    }
                    if (!ok) {
                        std::_Exit(10);
                    }
                }
                std::_Exit(0);
            }
            pids.push_back(pid);
        }

        // Await all the workers, watching each one's progress.
        std::vector<std::uint64_t> progress(workers, ~0ull);
        std::vector<double> last(workers, now());
        std::vector<int> statuses(workers, 0);
        std::vector<char> done(workers, 0), hung(workers, 0);
        unsigned left = workers;
        bool failed_any = false;
        double failed_at = 0;
        while (left > 0) {
            for (unsigned w = 0; w < workers; ++w) {
                if (done[w]) {
                    continue;
                }
                if (::waitpid(pids[w], &statuses[w], WNOHANG) == pids[w]) {
                    ::kill(-pids[w], SIGKILL);
                    done[w] = 1;
                    --left;
                    if (statuses[w] != 0 && !failed_any) {
                        failed_any = true;
                        failed_at = now();
                    }
                    continue;
                }
                const auto started = shms[w]->started.load();
                if (started != progress[w]) {
                    progress[w] = started;
                    last[w] = now();
                }
                const bool overdue = now() - last[w] > prop.options.hang_s;
                // Once one failed there is no need to finish the others.
                if (overdue || (failed_any && now() - failed_at > 2)) {
                    finish(pids[w]);
                    ::waitpid(pids[w], &statuses[w], 0);
                    done[w] = 1;
                    hung[w] = overdue ? 1 : 2;
                    --left;
                    if (overdue && !failed_any) {
                        failed_any = true;
                        failed_at = now();
                    }
                }
            }
            ::usleep(2000);
        }

        std::uint64_t evaluations = 0, discarded = 0, nontrivials = 0;
        std::set<std::uint64_t> distinct;
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string> samples;
        struct Suspect {
            Outcome outcome;
            unsigned worker;
            std::uint64_t index;
        };
        std::vector<Suspect> suspects;
        for (unsigned w = 0; w < workers; ++w) {
            auto shm = shms[w];
            evaluations += shm->evaluations;
            discarded += shm->discarded;
            nontrivials += shm->nontrivials;
            distinct.insert(shm->hashes, shm->hashes + shm->nhashes);
            for (auto& l : shm->labels) {
                if (l.name[0]) {
                    labels[l.name] += l.count;
                }
            }
            for (unsigned i = 0; i < shm->nsamples && samples.size() < 3; ++i) {
                samples.push_back(shm->samples[i]);
            }
            if (hung[w] == 2) {
                continue;
            }
            auto o = outcome(shm, logpath(prop.name + "." + std::to_string(w) + ".log"), hung[w] == 0, statuses[w], prop.options.hang_s);
            if (o.failed) {
                suspects.push_back(Suspect{o, w, shm->index.load()});
            }
        }
        for (auto shm : shms) {
            release(shm, slots);
        }

        std::string verdict = "held";
        std::string what;
        std::string replay;
        std::sort(suspects.begin(), suspects.end(), [](const Suspect& a, const Suspect& b) { return a.index < b.index; });
        for (const auto& s : suspects) {
            std::fprintf(stderr, "[%s] suspect case %" PRIu64 " (%s): %s\n", prop.name.c_str(), s.index, s.outcome.kind.c_str(), s.outcome.what.c_str());
            auto o = s.outcome;
            replay = replays + "/" + prop.name + "-" + std::to_string(s.index) + ".txt";
            if (confirm(prop, o)) {
                auto small = prop.options.schedule ? o : shrink(prop, o);
                auto copy = small;
                if (!prop.options.schedule && confirm(prop, copy)) {
                    o = copy;
                }
                save(replay, prop, o, nullptr);
                verdict = "violated";
                what = o.kind + ": " + o.what;
                break;
            }
            Replay prefix;
            prefix.prop = prop.name;
            prefix.seed = seed;
            prefix.worker = s.worker;
            prefix.workers = workers;
            prefix.upto = s.index;
            bool again = true;
            Outcome r;
            for (int i = 0; again && i < (prop.options.schedule ? 1 : 3); ++i) {
                r = attempt_prefix(prop, seed, s.worker, workers, s.index);
                again = r.failed;
            }
            if (again) {
                save(replay, prop, r, &prefix);
                verdict = "violated";
                what = r.kind + " (after the preceding cases of the same process): " + r.what;
                break;
            }
            verdict = "inconclusive";
            what = "not reproduced: " + s.outcome.kind + ": " + s.outcome.what;
        }
        if (verdict == "violated") {
            ++violations;
            std::printf("FAILED prop=%s replay=%s\n", prop.name.c_str(), replay.c_str());
            std::printf("  %s\n", show(what).c_str());
            std::fflush(stdout);
        }
        std::fprintf(stderr, "[%s] %s: %" PRIu64 " cases, %" PRIu64 " non-trivial (%zu distinct), %" PRIu64 " discarded, %.1f s\n",
            prop.name.c_str(), verdict.c_str(), evaluations, nontrivials, distinct.size(), discarded, now() - begin);

        report << (first ? "\n" : ",\n") << " {\"name\": " << json(prop.name) << ", \"verdict\": " << json(verdict)
               << ", \"what\": " << json(what) << ", \"replay\": " << json(verdict == "violated" ? replay : "")
               << ", \"rule\": " << json(prop.options.rule)
               << ", \"evaluations\": " << evaluations << ", \"discarded\": " << discarded
               << ", \"nontrivial\": " << nontrivials << ", \"distinct_nontrivial\": " << distinct.size()
               << ", \"labels\": {";
        bool f = true;
        for (auto& l : labels) {
            report << (f ? "" : ", ") << json(l.first) << ": " << l.second;
            f = false;
        }
        report << "}, \"samples\": [";
        f = true;
        for (auto& s : samples) {
            report << (f ? "" : ", ") << json(s);
            f = false;
        }
        report << "], \"wall_s\": " << now() - begin << "}";
        report.flush();
        first = false;
    }
    report << "\n]}\n";
    return violations == 0 ? 0 : 1;
}

}  // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char** argv) {
    using namespace pbt;
    std::string out = "/dev/null", replays = ".", replay;
    std::uint64_t seed = 1;
    double scale = 1;
    std::set<std::string> only;
    for (int i = 1; i + 1 < argc; i += 2) {
        const std::string key = argv[i], value = argv[i + 1];
        if (key == "--out") {
            out = value;
        } else if (key == "--replays") {
            replays = value;
        } else if (key == "--seed") {
            seed = std::strtoull(value.c_str(), nullptr, 10);
        } else if (key == "--tier") {
            g_thorough = value == "thorough";
        } else if (key == "--prop") {
            only.insert(value);
        } else if (key == "--scale") {
            scale = std::atof(value.c_str());
        } else if (key == "--scratch") {
            g_scratch_root = value;
        } else if (key == "--replay") {
            replay = value;
        }
    }
    if (g_scratch_root.empty()) {
        std::fprintf(stderr, "--scratch is required\n");
        return 2;
    }
    ::signal(SIGPIPE, SIG_IGN);
    if (!replay.empty()) {
        const auto r = load(replay);
        for (const auto& prop : props()) {
            if (prop.name == r.prop) {
                Outcome o;
                for (int i = 0; i < (prop.options.schedule ? 200 : 1) && !o.failed; ++i) {
                    o = r.mode == "prefix" ? attempt_prefix(prop, r.seed, r.worker, r.workers, r.upto)
                                           : attempt(prop, r.choices, prop.options.hang_s);
                }
                std::printf("%s%s\n%s", o.note.c_str(), "", "");
                if (o.failed) {
                    std::printf("FAILED prop=%s replay=%s\n  %s: %s\n", prop.name.c_str(), replay.c_str(), o.kind.c_str(), show(o.what).c_str());
                    return 1;
                }
                std::printf("PASSED prop=%s\n", prop.name.c_str());
                return 0;
            }
        }
        std::fprintf(stderr, "no property named %s\n", r.prop.c_str());
        return 2;
    }
    return run(out, replays, seed, only, scale);
}
#else
// Coverage-guided mode: the fuzzer's bytes are decoded into the choice sequence of one property,
// named by PBT_FUZZ_PROP. A failure writes the choices as a replay file and traps.
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
    using namespace pbt;
    static Shm* shm = [] {
        const char* s = std::getenv("PBT_SCRATCH");
        g_scratch = s ? s : "/tmp";
        g_thorough = true;
        return allocate(0);
    }();
    static const Prop* prop = [] () -> const Prop* {
        const char* name = std::getenv("PBT_FUZZ_PROP");
        for (const auto& p : props()) {
            if (name && p.name == name) {
                return &p;
            }
        }
        std::abort();
    }();
    // Each choice is a varint: a byte below 0xf8 is itself, otherwise it announces 1..8 raw bytes.
    std::vector<std::uint64_t> choices;
    for (std::size_t i = 0; i < size;) {
        const auto b = data[i++];
        if (b < 0xf8) {
            choices.push_back(b);
        } else {
            std::uint64_t v = 0;
            for (unsigned n = b - 0xf8 + 1; n > 0 && i < size; --n) {
                v = v << 8 | data[i++];
            }
            choices.push_back(v);
        }
    }
    Case c(shm, choices);
    if (!evaluate(*prop, shm, c)) {
        const char* path = std::getenv("PBT_REPLAY");
        Outcome o;
        o.choices.assign(shm->choices, shm->choices + shm->nchoices);
        o.kind = "assertion";
        o.what = shm->msg;
        o.note.assign(shm->note, shm->notelen);
        if (path) {
            save(path, *prop, o, nullptr);
        }
        std::fprintf(stderr, "PBT failure: %s\n", shm->msg);
        __builtin_trap();
    }
    return 0;
}
#endif
