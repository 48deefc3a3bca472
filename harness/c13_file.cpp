// C13: the file sink appends whole lines to the right file, across rotation and failures.
#include <csignal>
#include <fstream>
#include <functional>
#include <map>
#include <system_error>
#include <thread>

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <blackhole/sink/file.hpp>

#include "config.hpp"
#include "recordgen.hpp"

namespace {

// What someone else does to the files in the middle of an emission: before or after its k-th look at
// the file system.
struct Intruder {
    std::function<void()> act;
    int countdown = 0;
    int seen = 0;

    void step() {
        if (act) {
            ++seen;
            if (--countdown == 0) {
                auto f = std::move(act);
                act = nullptr;
                f();
            }
        }
    }
};
Intruder g_intruder;

// Whether each file looks like the one with the same number on a file system of its own. A file is
// identified by both numbers, so this only renames the identities there are.
bool g_devices = false;

void identify(int rc, struct stat* buf) {
    if (g_devices && rc == 0 && S_ISREG(buf->st_mode)) {
        buf->st_dev = 100000 + buf->st_ino;
        buf->st_ino = 12;
    }
}

}  // namespace

extern "C" int stat(const char* path, struct stat* buf) {
    typedef int (*fn)(const char*, struct stat*);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "stat"));
    g_intruder.step();
    const int rc = real(path, buf);
    const int saved = errno;
    identify(rc, buf);
    g_intruder.step();
    errno = saved;
    return rc;
}

extern "C" int fstat(int fd, struct stat* buf) {
    typedef int (*fn)(int, struct stat*);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "fstat"));
    const int rc = real(fd, buf);
    identify(rc, buf);
    return rc;
}

extern "C" FILE* fopen(const char* path, const char* mode) {
    typedef FILE* (*fn)(const char*, const char*);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "fopen"));
    g_intruder.step();
    const auto file = real(path, mode);
    const int saved = errno;
    g_intruder.step();
    errno = saved;
    return file;
}

namespace {

using namespace bh;
using blackhole::sink_t;

std::string slurp(const std::string& path) {
    std::ifstream f(path.c_str(), std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

void spit(const std::string& path, const std::string& content) {
    std::ofstream f(path.c_str(), std::ios::binary | std::ios::trunc);
    f << content;
}

void wipe(const std::string& dir) {
    if (auto d = ::opendir(dir.c_str())) {
        while (auto e = ::readdir(d)) {
            const std::string name = e->d_name;
            if (name == "." || name == "..") {
                continue;
            }
            const auto path = dir + "/" + name;
            struct stat st;
            if (::lstat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                wipe(path);
                ::rmdir(path.c_str());
            } else {
                ::unlink(path.c_str());
            }
        }
        ::closedir(d);
    }
}

// A sandbox directory of the case.
struct Dir {
    std::string path;
    Dir() : path(pbt::scratch() + "/fs") {
        ::mkdir(path.c_str(), 0755);
        wipe(path);
    }
    ~Dir() { wipe(path); }
};

// Files of several file systems.
struct Devices {
    explicit Devices(bool on) { g_devices = on; }
    ~Devices() { g_devices = false; }
};

void send(sink_t& sink, const std::string& text) {
    Arena arena;
    const auto view = arena.view(text);
    const blackhole::attribute_pack pack;
    const blackhole::string_view message("");
    const blackhole::record_t record(0, message, pack);
    sink.emit(record, view);
}

std::string gen_line(pbt::Case& c) {
    switch (c.weighted({6, 1, 1, 1})) {
    case 0: return c.utf8(40);
    case 1: return c.bytes(60);
    case 2: return std::string(static_cast<std::size_t>(c.range(8000, 9000)), 'x') + c.utf8(10);
    default: return std::string(static_cast<std::size_t>(c.range(0, 30000)), 'y');
    }
}

// An inode: what is expected to have been written to it.
struct File {
    std::string content;
    bool dir = false;
};
typedef std::shared_ptr<File> FilePtr;

// The file system of the model: names in the sandbox, relative.
struct Tree {
    std::map<std::string, FilePtr> names;
    std::map<std::string, std::string> links;

    std::string resolve(const std::string& name) const {
        auto it = links.find(name);
        return it == links.end() ? name : it->second;
    }

    FilePtr find(const std::string& name) const {
        auto it = names.find(resolve(name));
        return it == names.end() ? nullptr : it->second;
    }

    static std::string parent(const std::string& name) {
        const auto pos = name.rfind('/');
        return pos == std::string::npos ? std::string() : name.substr(0, pos);
    }

    // What opening the name for appending gives: null if it cannot be opened.
    FilePtr open(const std::string& name) {
        const auto real = resolve(name);
        auto it = names.find(real);
        if (it != names.end()) {
            return it->second->dir ? nullptr : it->second;
        }
        const auto p = parent(real);
        if (!p.empty()) {
            auto d = names.find(p);
            if (d == names.end() || !d->second->dir) {
                return nullptr;
            }
        }
        return names[real] = std::make_shared<File>();
    }
};

struct Sink {
    std::unique_ptr<sink_t> sink;
    std::string name;
    bool rotating = false;
    bool immediate = false;
    FilePtr target;
};

std::unique_ptr<sink_t> make(pbt::Case& c, const std::string& path, bool rotating, std::size_t every) {
    typedef blackhole::builder<blackhole::sink::file_t> builder_type;
    switch (c.draw(2)) {
    case 0: {
        builder_type b(path);
        if (every) {
            b.flush_every(every);
        }
        if (rotating) {
            b.rotate_checking_stat();
        }
        return std::move(b).build();
    }
    case 1:
        if (rotating) {
            return every ? builder_type(path).rotate_checking_stat().flush_every(every).build() : builder_type(path).rotate_checking_stat().build();
        }
        return every ? builder_type(path).flush_every(every).build() : builder_type(path).build();
    default:
        return sink_from("file", "{\"type\": \"file\", \"path\": " + quote(path) + (every ? ", \"flush\": " + std::to_string(every) : "") +
            (rotating ? ", \"rotate\": {\"type\": \"stat\"}" : "") + "}");
    }
}

std::size_t count_entries(const std::string& dir) {
    std::size_t n = 0;
    if (auto d = ::opendir(dir.c_str())) {
        while (auto e = ::readdir(d)) {
            const std::string name = e->d_name;
            if (name != "." && name != "..") {
                ++n;
                struct stat st;
                if (::lstat((dir + "/" + name).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                    n += count_entries(dir + "/" + name);
                }
            }
        }
        ::closedir(d);
    }
    return n;
}

}  // namespace

PROPERTY(file_history, o.quick = 100000; o.thorough = 400000;
    o.rule = "histories of up to 30 emissions (texts of any bytes, around and over the stream buffer), sink creations and destructions (builder "
             "and configuration), renames, removals, replacements, truncations, symbolic link switches, directories in the way and failing "
             "writes over several sinks and files, against a model of inodes: contents of every file and success of every emission; "
             "non-trivial: an event after the sink's file was renamed, removed, replaced or failed")
{
    const Foreign foreign(c);
    Dir dir;
    const Devices devices(c.chance(30));
    if (g_devices) {
        c.note("each file on a file system of its own");
        c.label("several file systems");
    }
    Tree tree;
    std::vector<FilePtr> all;
    std::vector<Sink> sinks;
    // Several sinks may share a file only if each event is flushed: the order is defined then.
    const bool immediate = c.chance(60);
    const std::vector<std::string> paths = {"a.log", "b.log", "d/c.log", "with space {x}.log", "\xd0\xb6.log", "link.log"};
    auto full = [&](const std::string& name) { return dir.path + "/" + name; };
    std::size_t fresh = 0, moved = 0;

    // Files which already exist.
    if (c.chance(60)) {
        ::mkdir(full("d").c_str(), 0755);
        tree.names["d"] = std::make_shared<File>();
        tree.names["d"]->dir = true;
    }
    for (auto& p : paths) {
        if (p == "link.log" || !c.chance(25) || (p == "d/c.log" && !tree.find("d"))) {
            continue;
        }
        const auto content = c.utf8(20) + "\n";
        spit(full(p), content);
        tree.names[p] = std::make_shared<File>();
        tree.names[p]->content = content;
    }
    if (c.chance(40)) {
        const auto target = "target" + std::to_string(fresh++);
        CHECK_THAT(::symlink(full(target).c_str(), full("link.log").c_str()) == 0, "symlink");
        tree.links["link.log"] = target;
    }

    auto used = [&](const std::string& path) {
        for (auto& s : sinks) {
            if (s.name == path) {
                return true;
            }
        }
        return false;
    };
    auto content = [&](Sink& s) -> std::string {
        for (auto& n : tree.names) {
            if (n.second == s.target) {
                return slurp(full(n.first));
            }
        }
        return s.target->content;
    };

    const auto n = c.range(2, 30);
    for (int i = 0; i < n; ++i) {
        const auto op = sinks.empty() ? 0 : c.weighted({2, 16, 1, 3, 2, 2, 1, 1, 1, 1});
        switch (op) {
        case 0: {
            if (sinks.size() == 4) {
                break;
            }
            const auto path = c.pick(paths);
            if (!immediate && used(path)) {
                break;
            }
            Sink s;
            s.name = path;
            s.rotating = c.chance(60);
            s.immediate = immediate;
            const std::size_t every = immediate ? 1 : c.pick<std::size_t>({0, 2, 3, 100});
            s.sink = make(c, full(path), s.rotating, every);
            c.note("sink " + path + (s.rotating ? " rotating" : "") + " flushing every " + std::to_string(every));
            sinks.push_back(std::move(s));
            break;
        }
        case 1: {
            auto& s = sinks[c.draw(sinks.size() - 1)];
            const auto text = gen_line(c);
            c.note("emit to " + s.name + " " + pbt::show(text.substr(0, 60)) + " of " + std::to_string(text.size()));
            const bool stale = s.target && tree.find(s.name) != s.target;
            if (!s.target || (s.rotating && stale)) {
                s.target = tree.open(s.name);
                if (s.target) {
                    all.push_back(s.target);
                }
            }
            bool thrown = false;
            try {
                send(*s.sink, text);
            } catch (const std::system_error& e) {
                thrown = true;
                const auto real = tree.resolve(s.name);
                if (!s.target) {
                    const bool missing = !tree.find(s.name);
                    CHECK_THAT(e.code() == std::error_code(missing ? ENOENT : EISDIR, std::system_category()),
                        "reason of a failure to open: " << e.what());
                }
            }
            CHECK_THAT(thrown == !s.target, (thrown ? "the sink refused an event it should have written" : "an event was lost without an exception"));
            if (s.target) {
                s.target->content += text + "\n";
                if (moved) {
                    c.nontrivial();
                    c.label(s.rotating ? "emission of a rotating sink after a change of files" : "emission of a sink after a change of files");
                }
                if (s.immediate) {
                    const auto actual = content(s);
                    CHECK_EQ_STR(actual, s.target->content, "file " << s.name << " after a flushed event");
                }
            } else {
                c.label("emission refused");
            }
            break;
        }
        case 2: {
            const auto k = c.draw(sinks.size() - 1);
            c.note("destroy " + sinks[k].name);
            sinks.erase(sinks.begin() + static_cast<long>(k));
            break;
        }
        case 3: {
            // Rename away, as logrotate does.
            const auto path = tree.resolve(c.pick(paths));
            if (!tree.find(path)) {
                break;
            }
            const auto to = "moved" + std::to_string(fresh++);
            c.note("rename " + path + " to " + to);
            CHECK_THAT(::rename(full(path).c_str(), full(to).c_str()) == 0, "rename");
            tree.names[to] = tree.names[path];
            tree.names.erase(path);
            ++moved;
            break;
        }
        case 4: {
            // Remove; the inode is kept under another name to see what is written into it.
            const auto path = tree.resolve(c.pick(paths));
            auto f = tree.find(path);
            if (!f || f->dir) {
                break;
            }
            const auto to = "removed" + std::to_string(fresh++);
            c.note("remove " + path);
            CHECK_THAT(::link(full(path).c_str(), full(to).c_str()) == 0, "link");
            CHECK_THAT(::unlink(full(path).c_str()) == 0, "unlink");
            tree.names[to] = f;
            tree.names.erase(path);
            ++moved;
            break;
        }
        case 5: {
            // Replace by another file at once.
            const auto path = tree.resolve(c.pick(paths));
            auto f = tree.find(path);
            if (!f || f->dir) {
                break;
            }
            const auto keep = "replaced" + std::to_string(fresh++);
            const auto content = c.utf8(12);
            c.note("replace " + path);
            CHECK_THAT(::link(full(path).c_str(), full(keep).c_str()) == 0, "link");
            spit(full("new"), content);
            CHECK_THAT(::rename(full("new").c_str(), full(path).c_str()) == 0, "rename");
            tree.names[keep] = f;
            tree.names[path] = std::make_shared<File>();
            tree.names[path]->content = content;
            ++moved;
            break;
        }
        case 6: {
            // Copy and truncate.
            const auto path = tree.resolve(c.pick(paths));
            auto f = tree.find(path);
            if (!immediate || !f || f->dir) {
                break;
            }
            c.note("truncate " + path);
            CHECK_THAT(::truncate(full(path).c_str(), 0) == 0, "truncate");
            f->content.clear();
            break;
        }
        case 7: {
            if (!tree.links.count("link.log")) {
                break;
            }
            const auto target = "target" + std::to_string(fresh++);
            c.note("switch link.log to " + target);
            CHECK_THAT(::unlink(full("link.log").c_str()) == 0, "unlink");
            CHECK_THAT(::symlink(full(target).c_str(), full("link.log").c_str()) == 0, "symlink");
            tree.links["link.log"] = target;
            ++moved;
            break;
        }
        case 8: {
            // Directories: make missing ones, put one in the way of a file, take it away.
            const auto path = c.pick<std::string>({"d", "a.log"});
            auto f = tree.find(path);
            if (!f) {
                c.note("mkdir " + path);
                CHECK_THAT(::mkdir(full(path).c_str(), 0755) == 0, "mkdir");
                tree.names[path] = std::make_shared<File>();
                tree.names[path]->dir = true;
            } else if (f->dir) {
                const auto to = "olddir" + std::to_string(fresh++);
                c.note("rename directory " + path + " to " + to);
                CHECK_THAT(::rename(full(path).c_str(), full(to).c_str()) == 0, "rename");
                auto names = tree.names;
                for (auto& e : names) {
                    if (e.first == path || e.first.compare(0, path.size() + 1, path + "/") == 0) {
                        tree.names.erase(e.first);
                        tree.names[to + e.first.substr(path.size())] = e.second;
                    }
                }
                ++moved;
            }
            break;
        }
        default: {
            // No more space for a while.
            auto& s = sinks[c.draw(sinks.size() - 1)];
            if (!s.immediate || !s.target || tree.find(s.name) != s.target) {
                break;
            }
            const auto failed = static_cast<std::size_t>(c.range(1, 3));
            c.note("no space for " + std::to_string(failed) + " events to " + s.name);
            std::vector<std::string> lost;
            struct rlimit saved, limit;
            ::getrlimit(RLIMIT_FSIZE, &saved);
            limit = saved;
            limit.rlim_cur = s.target->content.size();
            std::size_t thrown = 0;
            for (std::size_t k = 0; k < failed; ++k) {
                lost.push_back("lost " + std::to_string(i) + "-" + std::to_string(k) + c.utf8(10));
                ::setrlimit(RLIMIT_FSIZE, &limit);
                try {
                    send(*s.sink, lost.back());
                } catch (const std::exception&) {
                    ++thrown;
                }
                ::setrlimit(RLIMIT_FSIZE, &saved);
            }
            CHECK_THAT(thrown == failed, "events which could not be written were lost without an exception");
            const auto text = "recovered" + c.utf8(20);
            try {
                send(*s.sink, text);
            } catch (const std::exception& e) {
                pbt::fail(std::string("events are refused after the file can be written again: ") + e.what());
            }
            // The failed ones may have been kept.
            const auto actual = content(s);
            std::string expected = s.target->content;
            for (auto& l : lost) {
                if (actual.compare(expected.size(), l.size() + 1, l + "\n") == 0) {
                    expected += l + "\n";
                }
            }
            expected += text + "\n";
            CHECK_EQ_STR(actual, expected, "file after its disk was full");
            s.target->content = expected;
            c.nontrivial();
            c.label("recovered from a full disk");
        }
        }
    }
    sinks.clear();
    std::size_t entries = tree.links.size();
    for (auto& e : tree.names) {
        ++entries;
        if (!e.second->dir) {
            const auto actual = slurp(full(e.first));
            CHECK_EQ_STR(actual, e.second->content, "file " << e.first << " in the end");
        }
    }
    CHECK_THAT(count_entries(dir.path) == entries, "files were made which nobody asked for");
}

PROPERTY(file_races, o.quick = 80000; o.thorough = 150000;
    o.rule = "histories of up to 12 emissions into a rotating, flushing sink during some of which the file is renamed or replaced right before or "
             "after one of the calls which look at or open it: no event is lost, doubled or refused, each goes to a file which had the name "
             "during its emission, and once the files rest to the one which has it then; non-trivial: a change within an emission")
{
    Dir dir;
    const auto path = dir.path + "/r.log";
    // Names of all the files there have been, the last one being current, and what they hold.
    std::vector<std::string> names{path};
    std::vector<std::string> contents{""};
    std::size_t moves = 0;
    if (c.chance(50)) {
        contents[0] = "old\n";
        spit(path, contents[0]);
    }
    auto change = [&](bool replace, const std::string& with) {
        const auto moved = path + "." + std::to_string(moves++);
        if (replace) {
            spit(path + ".new", with);
        }
        if (::rename(path.c_str(), moved.c_str()) == 0) {
            names.back() = moved;
            names.push_back(path);
            contents.push_back("");
        }
        if (replace) {
            ::rename((path + ".new").c_str(), path.c_str());
            contents.back() = with;
        }
    };
    const auto sink = make(c, path, true, 1);
    const auto n = c.range(2, 12);
    for (int i = 0; i < n; ++i) {
        const auto text = "event " + std::to_string(i) + " " + c.utf8(6);
        const auto first = names.size() - 1;
        int seen = 0;
        if (c.chance(60)) {
            const bool replace = c.chance(50);
            const bool twice = c.chance(20);
            const auto with = "replaced " + std::to_string(i) + "\n";
            const int at = static_cast<int>(c.range(1, 12));
            c.note("event " + std::to_string(i) + ", " + (replace ? "replacing" : "renaming") + " at step " + std::to_string(at));
            g_intruder.seen = 0;
            g_intruder.countdown = at;
            g_intruder.act = [&, replace, twice, with] {
                change(replace, with);
                if (twice) {
                    g_intruder.countdown = 2;
                    g_intruder.act = [&, replace, with] { change(!replace, with); };
                }
            };
        } else {
            c.note("event " + std::to_string(i));
            if (c.chance(30)) {
                change(c.chance(50), "between " + std::to_string(i) + "\n");
                c.note("after a change");
            }
        }
        const auto before = names.size();
        try {
            send(*sink, text);
        } catch (const std::exception& e) {
            g_intruder.act = nullptr;
            pbt::fail(std::string("an event was refused while its file was rotated: ") + e.what());
        }
        seen = g_intruder.seen;
        g_intruder.act = nullptr;
        if (names.size() != before) {
            c.nontrivial();
            c.label("changed within an emission");
        }
        // Which one has got it?
        std::size_t found = 0;
        const auto from = names.size() == before ? names.size() - 1 : first;
        for (std::size_t k = 0; k < names.size(); ++k) {
            const auto actual = slurp(names[k]);
            if (actual == contents[k]) {
                continue;
            }
            CHECK_EQ_STR(actual, contents[k] + text + "\n", "file " << names[k] << " after event " << i << " of " << seen << " steps");
            CHECK_THAT(k >= from, "event " << i << " went to " << names[k] << " which did not have the name any more");
            contents[k] = actual;
            ++found;
        }
        CHECK_THAT(found == 1, "event " << i << " is in " << found << " files");
    }
}

PROPERTY(file_threads, o.quick = 4800; o.thorough = 10000; o.schedule = true; o.workers = 4;
    o.rule = "2-4 threads emit lines of generated sizes into one sink while its file is renamed: in the files together every line is whole, "
             "there once, and the lines of a thread are in order; non-trivial: the file was renamed in between")
{
    Dir dir;
    const auto path = dir.path + "/t.log";
    const auto threads = static_cast<std::size_t>(c.range(2, 4));
    const auto per = static_cast<std::size_t>(c.range(1, 60));
    const auto renames = static_cast<std::size_t>(c.draw(4));
    const auto width = c.pick<std::size_t>({1, 30, 300, 5000});
    const std::size_t every = c.pick<std::size_t>({0, 1, 3});
    const bool rotating = c.chance(70);
    c.note(std::to_string(threads) + " threads, " + std::to_string(per) + " events of up to " + std::to_string(width) + ", " +
        std::to_string(renames) + " renames, flush every " + std::to_string(every) + (rotating ? ", rotating" : ""));
    std::atomic<std::size_t> errors(0), sent(0);
    {
        const auto sink = make(c, path, rotating, every);
        std::atomic<bool> go(false);
        std::vector<std::thread> pool;
        for (std::size_t t = 0; t < threads; ++t) {
            pool.emplace_back([&, t] {
                while (!go) {}
                for (std::size_t i = 0; i < per; ++i) {
                    const auto size = (i * 7919 + t * 104729) % width;
                    try {
                        send(*sink, std::to_string(t) + ":" + std::to_string(i) + ":" + std::string(size, static_cast<char>('a' + t)));
                    } catch (const std::exception&) {
                        ++errors;
                    }
                    ++sent;
                }
            });
        }
        go = true;
        for (std::size_t r = 0; r < renames; ++r) {
            const auto goal = threads * per * (r + 1) / (renames + 2);
            while (sent < goal) {
                std::this_thread::yield();
            }
            ::rename(path.c_str(), (path + "." + std::to_string(r)).c_str());
        }
        for (auto& t : pool) {
            t.join();
        }
        if (rotating) {
            send(*sink, "last");
        }
    }
    if (rotating) {
        auto last = slurp(path);
        const std::string tail = "last\n";
        CHECK_THAT(last.size() >= tail.size() && last.compare(last.size() - tail.size(), tail.size(), tail) == 0,
            "the last event is not in the file of the name but elsewhere");
        spit(path, last.substr(0, last.size() - tail.size()));
    }
    std::string everything;
    for (std::size_t r = 0; r < renames; ++r) {
        everything += slurp(path + "." + std::to_string(r));
    }
    everything += slurp(path);
    std::vector<std::size_t> next(threads, 0);
    std::istringstream lines(everything);
    std::string line;
    std::size_t got = 0;
    CHECK_THAT(everything.empty() || everything.back() == '\n', "incomplete last line");
    while (std::getline(lines, line)) {
        unsigned long t = 0, i = 0;
        int pos = 0;
        CHECK_THAT(std::sscanf(line.c_str(), "%lu:%lu:%n", &t, &i, &pos) == 2 && pos > 0 && t < threads && i < per, "mangled line " << pbt::show(line));
        CHECK_EQ_STR(line.substr(static_cast<std::size_t>(pos)), std::string((i * 7919 + t * 104729) % width, static_cast<char>('a' + t)), "line");
        CHECK_THAT(i >= next[t], "line " << t << ":" << i << " came again or out of order");
        CHECK_THAT(i == next[t], "line " << t << ":" << next[t] << " is lost");
        next[t] = i + 1;
        ++got;
    }
    CHECK_THAT(errors == 0, errors << " events were refused while the file was renamed");
    CHECK_THAT(got == threads * per, got << " lines for " << threads * per << " events");
    if (renames && rotating) {
        c.nontrivial();
    }
}

namespace {
const int setup = [] {
    std::signal(SIGXFSZ, SIG_IGN);
    return 0;
}();
}
