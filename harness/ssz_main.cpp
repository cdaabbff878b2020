// Runs scenario files (see tools/ssz.py) against the library and prints one JSON outcome per command.
// Sessions run in forked children so that a crash or hang is itself an outcome.
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

#include "ssz_box.hpp"

static thread_local std::uint64_t g_allocated;
static std::atomic<long> g_live{0};             // blocks not yet returned
static thread_local long g_fail_in = 0;         // armed: the allocation that fails, counted from now
static thread_local bool g_fail_on = false, g_failed = false;   // and all after it
#ifndef NO_COUNTING
static void *counted(std::size_t n, std::size_t al) {
    g_allocated += n;
    if (g_failed && g_fail_on) throw std::bad_alloc();
    if (g_fail_in && --g_fail_in == 0) {
        g_failed = true;
        throw std::bad_alloc();
    }
    if (void *p = al ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1)) {
        g_live.fetch_add(1, std::memory_order_relaxed);
        return p;
    }
    throw std::bad_alloc();
}
static void returned(void *p) {
    if (p) g_live.fetch_sub(1, std::memory_order_relaxed);
    std::free(p);
}
void *operator new(std::size_t n) { return counted(n, 0); }
void *operator new[](std::size_t n) { return counted(n, 0); }
void *operator new(std::size_t n, std::align_val_t a) { return counted(n, static_cast<std::size_t>(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return counted(n, static_cast<std::size_t>(a)); }
void operator delete(void *p) noexcept { returned(p); }
void operator delete[](void *p) noexcept { returned(p); }
void operator delete(void *p, std::size_t) noexcept { returned(p); }
void operator delete[](void *p, std::size_t) noexcept { returned(p); }
void operator delete(void *p, std::align_val_t) noexcept { returned(p); }
void operator delete[](void *p, std::align_val_t) noexcept { returned(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { returned(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { returned(p); }
#endif

std::map<std::string, Factory> &registry() {
    static std::map<std::string, Factory> r;
    return r;
}
void register_1(); void register_2(); void register_3(); void register_4(); void register_5();

static int hexval(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static bytes unhex(const std::string &s) {
    bytes r;
    if (s == "-") return r;
    r.reserve(s.size() / 2);
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(hexval(s[i]) * 16 + hexval(s[i + 1]));
    return r;
}
template <class R>
static std::string arr(const R &b) {
    std::string s = "[";
    bool first = true;
    for (unsigned x : b) {
        if (!first) s += ',';
        first = false;
        s += std::to_string(x);
    }
    return s + "]";
}
static std::string quote(const std::string &t) {
    std::string s = "\"";
    for (unsigned char c : t) {
        if (c == '"' || c == '\\') { s += '\\'; s += c; }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); s += b; }
        else s += c;
    }
    return s + "\"";
}
static std::string tree_json(const YAML::Node &n) {
    if (n.IsScalar()) return "{\"k\":\"s\",\"s\":" + quote(n.Scalar()) + "}";
    if (n.IsSequence()) {
        std::string s = "{\"k\":\"q\",\"q\":[";
        for (std::size_t i = 0; i < n.size(); ++i) { if (i) s += ','; s += tree_json(n[i]); }
        return s + "]}";
    }
    if (n.IsMap()) {
        std::string f, q;
        for (const auto &kv : n) {
            if (!f.empty()) { f += ','; q += ','; }
            f += quote(kv.first.IsScalar() ? kv.first.Scalar() : "?");
            q += tree_json(kv.second);
        }
        return "{\"k\":\"m\",\"f\":[" + f + "],\"q\":[" + q + "]}";
    }
    return "{\"k\":\"n\"}";
}
// s<hex text>; | q<n>; items | m<n>; (s<key>; value)* | n
static YAML::Node parse_tree(const std::string &s, std::size_t &i) {
    char k = s[i++];
    std::size_t e = s.find(';', i);
    std::string arg = s.substr(i, e - i);
    i = e + 1;
    if (k == 's') { auto b = unhex(arg.empty() ? "-" : arg); return YAML::Node(std::string(b.begin(), b.end())); }
    if (k == 'n') return YAML::Node();
    std::size_t n = std::stoul(arg);
    YAML::Node node(k == 'q' ? YAML::NodeType::Sequence : YAML::NodeType::Map);
    for (std::size_t j = 0; j < n; ++j) {
        if (k == 'q') node.push_back(parse_tree(s, i));
        else { std::string key = parse_tree(s, i).Scalar(); node[key] = parse_tree(s, i); }
    }
    return node;
}
// the same tree? keys in any order
static bool says(const YAML::Node &n, const YAML::Node &m) {
    if (n.Type() != m.Type()) return false;
    if (n.IsScalar()) return n.Scalar() == m.Scalar();
    if (n.size() != m.size()) return false;
    if (n.IsSequence()) return std::equal(n.begin(), n.end(), m.begin(), [](const auto &x, const auto &y) { return says(x, y); });
    for (const auto &kv : m)
        if (const auto x = n[kv.first.Scalar()]; !x.IsDefined() || !says(x, kv.second)) return false;
    return true;
}
static std::string text_of(const YAML::Node &n) {
    YAML::Emitter em;
    em << n;
    return em.c_str();
}

struct Session {
    std::string id, type;
    std::vector<std::string> lines;
};

struct Runner {
    Factory make;
    std::map<int, std::unique_ptr<Box>> objs;
    std::vector<bytes> bases;
    unsigned fills = 0;

    Box &o(int i) {
        if (!objs[i]) objs[i] = fresh();
        return *objs[i];
    }
    std::unique_ptr<Box> fresh() {
        static constexpr unsigned char fill[] = {0xff, 0x01, 0xa5, 0x00, 0x80};
        return make(fill[fills++ % 5]);
    }
    template <class F>
    static std::string attempt(F f) {
        try { return f() ? "t" : "f"; }
        catch (const std::exception &) { return "x"; }
        catch (...) { return "u"; }
    }
    template <class F>
    static void field(std::string &out, std::string &threw, char letter, const char *name, F f) {
        std::string v;
        try { v = f(); }
        catch (...) { threw += letter; return; }
        out += std::string("\"") + name + "\":" + v + ",";
    }
    std::string loaded(Box &b, const bytes &in) {
        auto before = g_allocated;
        auto r = attempt([&] { return b.load(in); });
        auto used = (g_allocated - before + 1023) / 1024;
        return "{\"r\":\"" + r + "\",\"al\":" + std::to_string(used > 1000000 ? 1000000 : used) + "}";
    }
    std::string observe(Box &b, const std::string &what) {
        std::string out, threw;
        for (char c : what) switch (c) {
            case 's': field(out, threw, c, "ser", [&] { return arr(b.ser()); }); break;
            case 'r': field(out, threw, c, "root", [&] { return arr(b.root()); }); break;
            case 'z': field(out, threw, c, "size", [&] { return std::to_string(b.size()); }); break;
            case 'y': field(out, threw, c, "yaml", [&] { return tree_json(b.yaml()); }); break;
            case 'p': field(out, threw, c, "rp", [&] { return tree_json(YAML::Load(text_of(b.yaml()))); }); break;
            case 't': field(out, threw, c, "tl", [&] {
                auto t = b.tree();
                return t ? (t->empty() ? "[]" : arr(t->back())) : arr(b.root()); }); break;
        }
        return "{" + out + "\"x\":\"" + threw + "\"}";
    }
    // f with its k-th allocation failing, for every k until none fails; each result is compared with the last
    template <class F, class G>
    std::string starve(bool on, F f, G after) {
        std::set<char> hows;
        std::vector<std::string> odd;
        std::string last;
        long n = 0;
        for (long k = 1;; k += k < 64 ? 1 : k / 8) {
            char how = 'k';
            std::string mine;
            g_failed = false;
            g_fail_on = on;
            g_fail_in = k;
            try { f([] { g_fail_in = 0; g_fail_on = false; }, mine); }
            catch (const std::bad_alloc &) { how = 'b'; }
            catch (const std::exception &) { how = 'x'; }
            catch (...) { how = 'u'; }
            g_fail_in = 0;
            g_fail_on = false;
            ++n;
            if (!g_failed) {
                if (how != 'k') mine = std::string("\"x\":\"") + how + "\"";
                last = mine;
                break;
            }
            hows.insert(how);
            if (how == 'k') odd.push_back(mine);
            try { after(); } catch (const std::exception &) {}
        }
        for (auto &x : odd) if (x != last) hows.insert('w');
        std::string h;
        for (char c : hows) h += std::string(h.empty() ? "\"" : ",\"") + c + "\"";
        return "{\"hows\":[" + h + "],\"n\":" + std::to_string(n) + "," + last + "}";
    }
    std::string starve(std::istringstream &in) {
        std::string what;
        int on, a;
        in >> on >> what >> a;
        auto flag = [](bool b) { return b ? "true" : "false"; };
        auto nothing = [] {};
        if (what == "new") return starve(on, [&](auto done, std::string &out) {
            auto x = fresh(); done(); objs[a] = std::move(x); out = "\"ok\":true"; }, nothing);
        Box &x = o(a);
        if (what == "load") {
            std::string h;
            in >> h;
            bytes b = unhex(h);
            return starve(on, [&](auto done, std::string &out) {
                bool r = x.load(b); done(); out = std::string("\"r\":\"") + (r ? "t" : "f") + "\",\"al\":0"; },
                [&] { x.ser(); x.eq(x); });
        }
        if (what == "yload") {
            std::string h;
            in >> h;
            return starve(on, [&](auto done, std::string &out) {
                long k = g_fail_in;
                g_fail_in = 0;
                g_fail_on = false;
                std::size_t i = 0;
                YAML::Node n = parse_tree(h, i);
                g_fail_in = k;
                g_fail_on = on;
                bool r = x.yload(n); done(); out = std::string("\"r\":\"") + (r ? "t" : "f") + "\""; },
                [&] { x.ser(); x.eq(x); });
        }
        if (what == "obs") {
            std::string w;
            in >> w;
            if (w == "y") return starve(on, [&](auto done, std::string &out) {
                auto n = x.yaml(); done(); out = "\"yaml\":" + tree_json(n) + ",\"x\":\"\""; }, nothing);
            return starve(on, [&](auto done, std::string &out) {
                bytes ser;
                chunk root{};
                std::optional<std::vector<chunk>> tree;
                if (w == "s") ser = x.ser();
                if (w == "r") root = x.root();
                if (w == "t") { tree = x.tree(); if (!tree || tree->empty()) root = x.root(); else root = tree->back(); }
                done();
                out = w == "s" ? "\"ser\":" + arr(ser) : "\"root\":" + arr(root);
                out += ",\"x\":\"\""; }, nothing);
        }
        int b;
        in >> b;
        Box &y = o(b);
        if (what == "eq") return starve(on, [&](auto done, std::string &out) {
            bool e = x.eq(y), n = x.ne(y); done();
            out = std::string("\"eq\":") + flag(e) + ",\"ne\":" + flag(n); }, nothing);
        if (what == "copy") return starve(on, [&](auto done, std::string &out) {
            auto z = y.copy(); done(); objs[a] = std::move(z); out = "\"ok\":true"; }, nothing);
        if (what == "asg") return starve(on, [&](auto done, std::string &out) {
            x.assign(y); done(); out = "\"ok\":true"; }, [&] { x.ser(); x.eq(x); });
        return "{}";
    }
    std::string run(const std::string &line) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "starve") return starve(in);
        if (op == "base") { std::string h; in >> h; bases.push_back(unhex(h)); return ""; }
        int a;
        in >> a;
        if (op == "new") { objs[a] = fresh(); return "{}"; }
        if (op == "load") { std::string h; in >> h; return loaded(o(a), unhex(h)); }
        if (op == "loadr" || op == "serr") {   // runs of repeated bytes, to load or to compare with
            bytes b;
            for (std::string w; in >> w;) {
                auto star = w.find('*');
                bytes unit = unhex(w.substr(0, star));
                std::size_t n = std::stoul(w.substr(star + 1));
                for (std::size_t k = 0; k < n; ++k) b.insert(b.end(), unit.begin(), unit.end());
            }
            Box &x = o(a);
            if (op == "serr") {
                bytes got;
                attempt([&] { got = x.ser(); return true; });
                return std::string("{\"same\":") + (got == b ? "true" : "false") + ",\"long\":" + (got.size() == b.size() ? "true" : "false") + "}";
            }
            auto r = attempt([&] { return x.load(b); });
            std::string out = "{\"r\":\"" + r + "\"";
            if (r == "t") out += std::string(",\"same\":") + (x.ser() == b ? "true" : "false");
            return out + "}";
        }
        if (op == "patch") {
            std::size_t k, n, p; unsigned v; char colon;
            in >> k >> n;
            bytes b = bases.at(k - 1);
            b.resize(n);
            while (in >> p >> colon >> v) b.at(p - 1) = v;
            return loaded(o(a), b);
        }
        if (op == "ynode" || op == "ytext") {
            std::string s; in >> s;
            YAML::Node n;
            if (op == "ynode") { std::size_t i = 0; n = parse_tree(s, i); }
            else { auto b = unhex(s); n = YAML::Load(std::string(b.begin(), b.end())); }
            return "{\"r\":\"" + attempt([&] { return o(a).yload(n); }) + "\"}";
        }
        if (op == "yserr") {   // does the object's YAML say the same?
            std::string s; in >> s;
            std::size_t i = 0;
            return std::string("{\"same\":") + (attempt([&] { return says(o(a).yaml(), parse_tree(s, i)); }) == "t" ? "true" : "false") + "}";
        }
        if (op == "obs") { std::string w; in >> w; return observe(o(a), w); }
        if (op == "pobs") {   // several threads observe one object at the same time
            std::string w; int k; in >> w >> k;
            Box &x = o(a);
            std::set<std::string> seen;
            std::mutex lock;
            std::vector<std::thread> ts;
            for (int t = 0; t < k; ++t)
                ts.emplace_back([&, t] {
                    for (int r = 0; r < 2; ++r) {
                        std::string mine = observe(x, w);
                        auto y = x.copy();
                        mine = mine.substr(0, mine.size() - 1) + ",\"same\":" + (x.eq(*y) && !x.ne(*y) ? "true" : "false") + "}";
                        std::lock_guard<std::mutex> g(lock);
                        seen.insert(mine);
                    }
                });
            for (auto &t : ts) t.join();
            std::string all;
            for (auto &x : seen) all += (all.empty() ? "" : ",") + x;
            return "{\"outs\":[" + all + "]}";
        }
        if (op == "eq") {
            int b; in >> b;
            bool e = o(a).eq(o(b)), n = o(a).ne(o(b));
            return std::string("{\"eq\":") + (e ? "true" : "false") + ",\"ne\":" + (n ? "true" : "false") + "}";
        }
        if (op == "copy") { int b; in >> b; objs[a] = o(b).copy(); return "{}"; }
        if (op == "asg") { int b; in >> b; Box &x = o(a); x.assign(o(b)); return "{}"; }
        if (op == "mcopy") { int b; in >> b; objs[a] = o(b).move_new(); return "{}"; }
        if (op == "masg") { int b; in >> b; Box &x = o(a); x.move_from(o(b)); return "{}"; }
        if (op == "rt" || op == "yrt") {
            int b, text = 0; in >> b >> text;
            auto y = fresh();
            std::string r;
            if (op == "rt") r = attempt([&] { return y->load(o(b).ser()); });
            else r = attempt([&] { auto n = o(b).yaml(); return y->yload(text ? YAML::Load(text_of(n)) : n); });
            std::string out = "{\"r\":\"" + r + "\"";
            if (r == "t") {
                out += std::string(",\"eq\":") + (y->eq(o(b)) && o(b).eq(*y) ? "true" : "false");
                out += std::string(",\"ne\":") + (y->ne(o(b)) || o(b).ne(*y) ? "true" : "false");
                out += std::string(",\"ss\":") + (y->ser() == o(b).ser() ? "true" : "false");
                auto rr = attempt([&] { return y->root() == o(b).root(); });
                out += std::string(",\"sr\":") + (rr == "t" ? "true" : "false");
            }
            objs[a] = std::move(y);
            return out + "}";
        }
        if (op == "lim") { std::uint64_t m; in >> m; o(a).limit(m); return "{}"; }
        if (op == "part") {   // part <object> <what> <path> [<bytes>]
            PartRequest q;
            std::string path, h;
            in >> q.what >> path >> h;
            for (std::size_t i = 0; path != "." && i <= path.size();) {
                auto e = std::min(path.find('/', i), path.size());
                q.path.push_back(path.substr(i, e - i));
                i = e + 1;
            }
            if (!h.empty()) q.in = unhex(h);
            PartReply r;
            auto how = attempt([&] { r = o(a).part(q); return true; });
            std::string out = "{\"r\":\"" + (how != "t" ? how : !r.there ? "n" : q.what == 's' || q.what == 'a' || q.what == 'w' ? (r.taken ? "t" : "f") : "t") + "\"";
            if (r.there && q.what == 'g') out += ",\"ser\":" + arr(r.ser);
            if (r.there && q.what == 'b') out += ",\"n\":" + std::to_string(r.size) + ",\"out\":" + quote(r.printed) + ",\"str\":" + quote(r.text) + ",\"made\":" + arr(r.made);
            if (r.there && q.what == 'n') out += ",\"num\":" + quote(r.text) + ",\"wide\":" + arr(r.wide) + ",\"made\":" + arr(r.made);
            if (r.there && q.what == 'i') {
                auto lists = [](const std::vector<bytes> &v) {
                    std::string s;
                    for (auto &b : v) s += (s.empty() ? "" : ",") + arr(b);
                    return "[" + s + "]";
                };
                out += ",\"n\":" + std::to_string(r.size) + ",\"its\":" + lists(r.items) + ",\"again\":" + lists(r.again);
            }
            return out + "}";
        }
        if (op == "vp") {
            std::uint64_t e; in >> e;
            auto v = o(a).validator(e);
            if (!v) return "{\"none\":true}";
            auto t = [](bool b) { return b ? "true" : "false"; };
            return std::string("{\"act\":") + t((*v)[0]) + ",\"sl\":" + t((*v)[1]) + ",\"el\":" + t((*v)[2]) + "}";
        }
        if (op == "votes" || op == "valid") {
            int b = 0; in >> b;
            auto v = op == "votes" ? o(a).votes(o(b)) : o(a).valid();
            if (!v) return "{\"none\":true}";
            return std::string("{\"r\":") + (*v ? "true" : "false") + "}";
        }
        std::fprintf(stderr, "unknown command %s\n", line.c_str());
        _exit(3);
    }
};

static void put(int fd, const std::string &s) {
    for (std::size_t i = 0; i < s.size();) {
        auto n = write(fd, s.data() + i, s.size() - i);
        if (n <= 0) _exit(4);
        i += n;
    }
}

static std::string whole(const Session &s) {
    std::string out;
    Runner r;
    r.make = registry().find(s.type)->second;
    for (auto &l : s.lines) {
        std::string x = r.run(l);
        if (!x.empty()) out += x + "\n";
    }
    return out;
}
// all sessions on several threads of one process; every distinct record of a session is printed
static int together(const std::vector<Session> &ss, int threads, int rounds) {
    std::vector<std::set<std::string>> seen(ss.size());
    std::mutex lock;
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            ready++;
            while (ready < threads) std::this_thread::yield();
            for (int r = 0; r < rounds; ++r)
                // odd rounds: every thread runs every session, side by side; even rounds: each its own part
                for (std::size_t k = 0; k < ss.size(); ++k) {
                    if (r % 2 == 0 && static_cast<int>(k % threads) != t) continue;
                    std::string mine = whole(ss[k]);
                    std::lock_guard<std::mutex> g(lock);
                    seen[k].insert(mine);
                }
        });
    for (auto &t : ts) t.join();
    for (std::size_t k = 0; k < ss.size(); ++k)
        for (auto &x : seen[k]) std::printf("S %s\n%sE\n", ss[k].id.c_str(), x.c_str());
    std::fflush(stdout);
    return 0;
}

int main(int argc, char **argv) {
    register_1(); register_2(); register_3(); register_4(); register_5();
    if (argc > 1 && std::string(argv[1]) == "--types") {
        for (auto &r : registry()) std::printf("%s\n", r.first.c_str());
        return 0;
    }
    std::ifstream f(argv[1]);
    std::vector<Session> ss;
    for (std::string line; std::getline(f, line);) {
        if (line.rfind("S ", 0) == 0) {
            std::istringstream in(line);
            std::string s;
            Session x;
            in >> s >> x.id >> x.type;
            if (!registry().count(x.type)) { std::fprintf(stderr, "unknown type %s\n", x.type.c_str()); return 3; }
            ss.push_back(x);
        } else if (!line.empty()) ss.back().lines.push_back(line);
    }
    if (argc > 4) {
        alarm(std::atoi(argv[2]));
        return together(ss, std::atoi(argv[3]), std::atoi(argv[4]));
    }
    int limit_s = argc > 2 ? std::atoi(argv[2]) : 20;
    for (std::size_t i = 0; i < ss.size();) {
        int fd[2];
        if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]);
            for (std::size_t j = i; j < ss.size(); ++j) {
                alarm(limit_s);
                std::string head = "S " + ss[j].id + "\n";
                put(fd[1], head);
                {
                    Runner r;
                    r.make = registry()[ss[j].type];
                    for (auto &l : ss[j].lines) {
                        if (l == "end") continue;
                        std::string out = r.run(l);
                        if (!out.empty()) put(fd[1], out + "\n");
                    }
                }
                if (!ss[j].lines.empty() && ss[j].lines.back() == "end") {   // what the same session leaves behind, again and again
                    std::string out;
                    for (int k = 0; k < 3; ++k) {
                        long before = g_live;
                        {
                            Runner r;
                            r.make = registry()[ss[j].type];
                            for (auto &l : ss[j].lines) if (l != "end") r.run(l);
                        }
                        out += (k ? "," : "") + std::to_string(g_live - before);
                    }
                    put(fd[1], "{\"live\":[" + out + "]}\n");
                }
                put(fd[1], "E\n");
            }
            _exit(0);
        }
        close(fd[1]);
        FILE *p = fdopen(fd[0], "r");
        char *buf = nullptr;
        size_t cap = 0;
        std::size_t done = i;
        while (getline(&buf, &cap, p) > 0) {
            std::fputs(buf, stdout);
            if (!std::strcmp(buf, "E\n")) ++done;
        }
        std::free(buf);
        fclose(p);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && done == ss.size()) break;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) return 3;
        std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("hang") : "signal " + std::to_string(WTERMSIG(st)))
                                          : "exit " + std::to_string(WEXITSTATUS(st));
        std::printf("{\"crash\":\"%s\"}\nE\n", why.c_str());
        i = done + 1;
    }
    return 0;
}
