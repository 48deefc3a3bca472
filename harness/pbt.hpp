// A small property-based testing engine.
//
// Every random decision of a case is drawn through pbt::Case as one bounded integer ("choice").  A
// case is therefore a pure function of its choice sequence: the engine generates choices from a
// seeded generator, shrinks a failing case by editing the sequence, and replays a saved sequence.
// Workers are forked processes that publish their choices through shared memory before using them,
// so crashes, sanitizer reports and hangs are shrunk and replayed exactly like failed assertions.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <locale>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string what;
};

// Thrown when the rest of the choices cannot make a legal case. Counted, never a verdict.
struct Discard {};

struct Shm;

class Case {
public:
    Case(Shm* shm, std::uint64_t seed);                           // generate
    Case(Shm* shm, const std::vector<std::uint64_t>& choices);    // replay

    // Uniform in [0; max]; shrinks towards 0.
    std::uint64_t draw(std::uint64_t max);
    // Uniform in [lo; hi]; shrinks towards lo.
    std::int64_t range(std::int64_t lo, std::int64_t hi);
    // True with the given percentage; shrinks towards false.
    bool chance(unsigned percent);
    // Index by weight; shrinks towards the first.
    std::size_t weighted(std::initializer_list<unsigned> weights);
    // Mostly small sizes in [0; max].
    std::size_t size(std::size_t max);
    // Integer with a mixture of boundary values and random bit widths.
    std::uint64_t u64();
    std::int64_t i64();
    // Finite double of many magnitudes, including exact and boundary ones.
    double finite();

    template<typename T>
    const T& pick(const std::vector<T>& v) {
        return v[draw(v.size() - 1)];
    }

    template<typename T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + draw(v.size() - 1));
    }

    // String of up to max chars taken from the alphabet.
    std::string over(const std::string& alphabet, std::size_t max);
    // Arbitrary bytes.
    std::string bytes(std::size_t max);
    // Valid UTF-8, with control characters, quotes and multi-byte sequences.
    std::string utf8(std::size_t max);
    // [a-z_][a-z0-9_]*, 1..max chars.
    std::string ident(std::size_t max);

    // Description of the case, for samples and reports.
    void note(const std::string& line);
    // Classification counters.
    void label(const char* name);
    // Marks this case as non-trivial by the property's rule.
    void nontrivial();

    std::uint64_t hash() const { return hash_; }

private:
    Shm* shm;
    bool replay;
    std::uint64_t state;
    std::vector<std::uint64_t> source;
    std::size_t pos;
    std::uint64_t hash_;
};

struct Options {
    // Cases per tier (over all workers).
    std::uint64_t quick = 20000;
    std::uint64_t thorough = 400000;
    // Parallel workers; 0 means as many as there are cores.
    unsigned workers = 0;
    // A single case taking longer than this is a hang.
    unsigned hang_s = 25;
    // Depends on real thread interleaving: a failure is confirmed if it comes back at least once.
    bool schedule = false;
    const char* rule = "";
};

typedef std::function<void(Case&)> Fn;

int registrate(const char* name, const Options& options, Fn fn);

[[noreturn]] void fail(const std::string& what);

// Printable form of arbitrary bytes.
std::string show(const std::string& bytes);
std::string difference(const std::string& actual, const std::string& expected);
template<typename T>
std::string str(const T& v) {
    std::ostringstream s;
    s.precision(17);
    s << v;
    return s.str();
}

// Scratch directory of this worker (exists, emptied by the caller as needed).
const std::string& scratch();

bool thorough();

}  // namespace pbt

#define PBT_CONCAT_(a, b) a##b
#define PBT_CONCAT(a, b) PBT_CONCAT_(a, b)
#define PROPERTY(name, ...)                                                                      \
    static void PBT_CONCAT(prop_, name)(pbt::Case&);                                             \
    static const int PBT_CONCAT(reg_, name) = [] {                                               \
        pbt::Options o;                                                                          \
        __VA_ARGS__;                                                                             \
        return pbt::registrate(#name, o, PBT_CONCAT(prop_, name));                               \
    }();                                                                                         \
    static void PBT_CONCAT(prop_, name)(pbt::Case & c)

// Makes the steps of all groups in a random order which keeps those of a group in theirs.
inline void interleave(pbt::Case& c, const std::vector<std::vector<std::function<void()>>>& groups) {
    std::vector<std::size_t> at(groups.size(), 0);
    const bool shuffled = c.chance(70);
    for (;;) {
        std::vector<std::size_t> open;
        for (std::size_t i = 0; i < groups.size(); ++i) {
            if (at[i] < groups[i].size()) {
                open.push_back(i);
            }
        }
        if (open.empty()) {
            return;
        }
        const auto i = shuffled && open.size() > 1 ? open[static_cast<std::size_t>(c.draw(open.size() - 1))] : open.front();
        groups[i][at[i]++]();
    }
}

// Now and then the case runs in an application with a global C++ locale which groups digits, in the English or the German way.
class Foreign {
    std::locale saved;

    struct Punct : public std::numpunct<char> {
        const bool german;
        explicit Punct(bool german) : german(german) {}
        char do_decimal_point() const override { return german ? ',' : '.'; }
        char do_thousands_sep() const override { return german ? '.' : ','; }
        std::string do_grouping() const override { return "\3"; }
        std::string do_truename() const override { return german ? "wahr" : "yes"; }
        std::string do_falsename() const override { return german ? "falsch" : "no"; }
    };

public:
    const bool on;

    explicit Foreign(pbt::Case& c, int percent = 15) : on(c.chance(percent)) {
        if (on) {
            const bool german = c.chance(50);
            c.label("foreign locale");
            c.note(german ? "in a German locale" : "in an English locale");
            std::locale::global(std::locale(std::locale::classic(), new Punct(german)));
        }
    }

    ~Foreign() {
        if (on) {
            std::locale::global(saved);
        }
    }

    Foreign(const Foreign&) = delete;
    Foreign& operator=(const Foreign&) = delete;
};

// Calls one of both overloads of a builder's method: for a named builder and for a temporary one.
#define BUILD_STEP(c, b, ...)                                                                    \
    do {                                                                                         \
        if ((c).chance(50)) {                                                                    \
            (b).__VA_ARGS__;                                                                     \
        } else {                                                                                 \
            std::move(b).__VA_ARGS__;                                                            \
        }                                                                                        \
    } while (0)

#define CHECK_THAT(cond, msg)                                                                    \
    do {                                                                                         \
        if (!(cond)) {                                                                           \
            std::ostringstream pbt_s_;                                                           \
            pbt_s_ << msg << " [" #cond "]";                                                     \
            pbt::fail(pbt_s_.str());                                                             \
        }                                                                                        \
    } while (0)

#define CHECK_EQ_STR(actual, expected, msg)                                                      \
    do {                                                                                         \
        const std::string pbt_a_(actual);                                                        \
        const std::string pbt_e_(expected);                                                      \
        if (pbt_a_ != pbt_e_) {                                                                  \
            std::ostringstream pbt_s_;                                                           \
            pbt_s_ << msg << ": " << pbt::difference(pbt_a_, pbt_e_);                            \
            pbt::fail(pbt_s_.str());                                                             \
        }                                                                                        \
    } while (0)
