// Runs batch hashing calls from a plan and reports, as JSON lines, what each call did.
// Calls named backends through ssz::Hasher only.
#include <cpuid.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "ssz/hasher.hpp"

using Block = std::array<unsigned char, 64>;
using Digest = std::array<unsigned char, 32>;
static std::vector<Block> pool;
static std::map<Digest, int> ids;
static std::mutex ids_lock;

static int intern(const unsigned char* p) {
    Digest d;
    std::memcpy(d.data(), p, 32);
    std::lock_guard<std::mutex> g(ids_lock);
    auto [it, fresh] = ids.emplace(d, (int)ids.size() + 1);
    if (fresh) {
        printf("D ");
        for (int i = 0; i < 32; ++i) printf("%02x", d[i]);
        printf("\n");
    }
    return it->second;
}

// ---- which code ran: every entry into a backend's code goes through one of these (ld --wrap)
static thread_local char first_entry[16];
static std::atomic<int> entries{0};
static bool record_only = false;  // the machine lacks the extension: note the entry, do not run it
static void enter(const char* name) {
    if (!first_entry[0]) std::strncpy(first_entry, name, 15);
    entries++;
}
#ifdef WRAP
extern "C" {
void __real_sha256_shani(unsigned char*, const unsigned char*, std::size_t);
void __real_sha256_8_avx2(unsigned char*, const unsigned char*, std::size_t);
void __real_sha256_4_avx(unsigned char*, const unsigned char*, std::size_t);
void __real_sha256_1_avx(unsigned char*, const unsigned char*);
void __wrap_sha256_shani(unsigned char* o, const unsigned char* i, std::size_t n) {
    enter("SHA");
    if (!record_only) __real_sha256_shani(o, i, n);
}
void __wrap_sha256_8_avx2(unsigned char* o, const unsigned char* i, std::size_t n) {
    enter("AVX2");
    if (!record_only) __real_sha256_8_avx2(o, i, n);
}
void __wrap_sha256_4_avx(unsigned char* o, const unsigned char* i, std::size_t n) {
    enter("AVX");
    if (!record_only) __real_sha256_4_avx(o, i, n);
}
void __wrap_sha256_1_avx(unsigned char* o, const unsigned char* i) {
    enter("SSE");
    if (!record_only) __real_sha256_1_avx(o, i);
}
}
#endif

using IMPL = ssz::Hasher::IMPL;
static ssz::Hasher make(int req) { return req < 0 ? ssz::Hasher() : ssz::Hasher(static_cast<IMPL>(req)); }
static int request(const std::string& s) {
    if (s == "SSE") return 1;
    if (s == "AVX") return 2;
    if (s == "AVX2") return 4;
    if (s == "SHA") return 8;
    if (s == "NONE") return 0;
    if (s == "AUTO") return -1;
    return atoi(s.c_str());
}

// ---- a call with the caller's registers and stack under observation
extern "C" {
struct Watch {
    std::uint64_t rbx, rbp, r12, r13, r14, r15, rsp_before, rsp_after, flags, saved_rsp, frame_ok;
    std::uint32_t mxcsr_before, mxcsr_after;
    std::uint64_t fn, out, in, n, shift;
} w;
void watched_call();
}
asm(R"(
.intel_syntax noprefix
.text
.globl watched_call
.type watched_call, @function
watched_call:
    push rbx
    push rbp
    push r12
    push r13
    push r14
    push r15
    mov [rip + w + 72], rsp
    sub rsp, 1024
    and rsp, -64
    sub rsp, [rip + w + 128]
    mov rdi, rsp
    mov rcx, 64
    mov rax, 0x5a17c0de5a17c0de
    cld
    rep stosq
    mov [rip + w + 48], rsp
    stmxcsr [rip + w + 88]
    mov rbx, 0x1111111122222222
    mov rbp, 0x3333333344444444
    mov r12, 0x5555555566666666
    mov r13, 0x7777777788888888
    mov r14, 0x99999999aaaaaaaa
    mov r15, 0xbbbbbbbbcccccccc
    mov rdi, [rip + w + 104]
    mov rsi, [rip + w + 112]
    mov rdx, [rip + w + 120]
    call [rip + w + 96]
    pushfq
    pop [rip + w + 64]
    cld
    mov [rip + w + 56], rsp
    mov [rip + w + 0], rbx
    mov [rip + w + 8], rbp
    mov [rip + w + 16], r12
    mov [rip + w + 24], r13
    mov [rip + w + 32], r14
    mov [rip + w + 40], r15
    stmxcsr [rip + w + 92]
    mov rsi, [rip + w + 48]
    mov rcx, 64
    mov rax, 1
    mov rdx, 0x5a17c0de5a17c0de
1:  cmp [rsi], rdx
    je 2f
    xor eax, eax
2:  add rsi, 8
    dec rcx
    jnz 1b
    mov [rip + w + 80], rax
    mov rsp, [rip + w + 72]
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbp
    pop rbx
    ret
.size watched_call, .-watched_call
.att_syntax
)");
static_assert(offsetof(Watch, saved_rsp) == 72 && offsetof(Watch, mxcsr_before) == 88 && offsetof(Watch, fn) == 96 &&
              offsetof(Watch, shift) == 128);

static const ssz::Hasher* current;
extern "C" void trampoline(unsigned char* o, const unsigned char* i, std::size_t n) { current->hash_64b_blocks(o, i, n); }

static sigjmp_buf escape;
static volatile sig_atomic_t armed = 0;
static volatile int fault_sig = 0;
static void* volatile fault_at = nullptr;
static void on_fault(int s, siginfo_t* si, void*) {
    if (!armed) _exit(90);
    fault_sig = s;
    fault_at = si->si_addr;
    siglongjmp(escape, 1);
}
static void install() {
    static char alt[1 << 16];
    stack_t st{};
    st.ss_sp = alt;
    st.ss_size = sizeof alt;
    sigaltstack(&st, nullptr);
    struct sigaction sa {};
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGALRM, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
}
static const char* sig_name(int s) {
    return s == SIGILL ? "ill" : s == SIGALRM ? "hang" : s == SIGSEGV || s == SIGBUS ? "segv" : "signal";
}
static void timer(int seconds) {
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_REAL, &t, nullptr);
}

// ---- memory between two inaccessible pages
struct Arena {
    std::size_t pages;
    unsigned char* base;
    static constexpr std::size_t P = 4096;
    explicit Arena(std::size_t bytes) : pages((bytes + P - 1) / P + 2) {
        base = (unsigned char*)mmap(nullptr, (pages + 2) * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base + P, pages * P, PROT_READ | PROT_WRITE);
    }
    unsigned char* lo() { return base + P; }
    unsigned char* hi() { return base + P + pages * P; }
    void fill(int v) { std::memset(lo(), v, pages * P); }
    void readonly(bool b) { mprotect(lo(), pages * P, b ? PROT_READ : PROT_READ | PROT_WRITE); }
};
// mode e: the buffer ends off bytes before the upper page; b: starts off bytes after the lower one; m: in the middle
static unsigned char* place(Arena& a, char mode, std::size_t off, std::size_t len) {
    if (mode == 'e') return a.hi() - len - off;
    if (mode == 'b') return a.lo() + off;
    std::size_t space = a.hi() - a.lo() - len;
    return a.lo() + (space / 2) / 64 * 64 + off;
}

struct Call {
    std::string be;
    std::size_t n;
    int s, k;
    std::size_t z1, z2;
    char im = 'm';
    int io = 0;
    char om = 'm';
    int oo = 0;
    int sp = 0;
};
static Call parse(std::istringstream& in) {
    Call c;
    in >> c.be >> c.n >> c.s >> c.k >> c.z1 >> c.z2 >> c.im >> c.io >> c.om >> c.oo >> c.sp;
    return c;
}
static void fill_input(unsigned char* p, const Call& c) {
    for (std::size_t i = 0; i < c.n; ++i) {
        bool z = c.z1 <= c.z2 ? c.z1 <= i && i < c.z2 : i < c.z2 || c.z1 <= i;
        std::memcpy(p + 64 * i, pool[z ? 0 : (c.s + i * c.k) % pool.size()].data(), 64);
    }
}
static std::string outs(const unsigned char* p, std::size_t n) {
    std::string s = "[";
    for (std::size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(intern(p + 32 * i));
    return s + "]";
}
static bool constant(const unsigned char* from, const unsigned char* to, unsigned char v) {
    for (; from < to; ++from)
        if (*from != v) return false;
    return true;
}

static Arena& arena(std::size_t n, bool input) {
    static std::map<std::size_t, Arena*> in, out;
    std::size_t bytes = n * (input ? 64 : 32) + 256;
    std::size_t cls = (bytes + 8191) / 8192;
    auto& m = input ? in : out;
    if (!m.count(cls)) m[cls] = new Arena(cls * 8192);
    return *m[cls];
}

static void do_call(int index, const Call& c, bool full) {
    Arena& ai = arena(c.n, true);
    Arena& ao = arena(c.n, false);
    ai.fill(0x3c);
    ao.fill(0xa5);
    static const std::size_t slack = std::getenv("MAMMON_SLACK") ? std::atoi(std::getenv("MAMMON_SLACK")) : 0;
    unsigned char* in = place(ai, c.im, c.io + (c.im == 'e' ? slack : 0), 64 * c.n);
    unsigned char* out = place(ao, c.om, c.oo, 32 * c.n);
    fill_input(in, c);
    ai.readonly(true);
    static ssz::Hasher h;
    h = make(request(c.be));
    current = &h;
    w = Watch{};
    w.fn = (std::uint64_t)&trampoline;
    w.out = (std::uint64_t)out;
    w.in = (std::uint64_t)in;
    w.n = c.n;
    w.shift = 16 * c.sp;
    std::string fault;
    armed = 1;
    timer(20);
    if (sigsetjmp(escape, 1) == 0)
        watched_call();
    else
        fault = sig_name(fault_sig);
    armed = 0;
    timer(0);
    ai.readonly(false);
    std::string regs;
    if (fault.empty()) {
        if (w.rbx != 0x1111111122222222) regs += "rbx ";
        if (w.rbp != 0x3333333344444444) regs += "rbp ";
        if (w.r12 != 0x5555555566666666) regs += "r12 ";
        if (w.r13 != 0x7777777788888888) regs += "r13 ";
        if (w.r14 != 0x99999999aaaaaaaa) regs += "r14 ";
        if (w.r15 != 0xbbbbbbbbcccccccc) regs += "r15 ";
        if (w.rsp_before != w.rsp_after) regs += "rsp ";
        if (w.flags & 0x400) regs += "df ";
        if (!w.frame_ok) regs += "frame ";
        if ((w.mxcsr_before ^ w.mxcsr_after) & 0xffc0) regs += "mxcsr ";
    }
    std::vector<unsigned char> want(64 * c.n);
    fill_input(want.data(), c);
    bool kept = c.n == 0 || std::memcmp(want.data(), in, 64 * c.n) == 0;
    kept = kept && constant(ai.lo(), in, 0x3c) && constant(in + 64 * c.n, ai.hi(), 0x3c);
    bool pre = constant(ao.lo(), out, 0xa5), post = constant(out + 32 * c.n, ao.hi(), 0xa5);
    printf("{\"i\":%d,\"fault\":\"%s\",\"regs\":\"%s\",\"kept\":%s,\"pre\":%s,\"post\":%s,\"out\":%s}\n", index, fault.c_str(),
           regs.c_str(), kept ? "true" : "false", pre ? "true" : "false", post ? "true" : "false",
           fault.empty() ? outs(out, c.n).c_str() : "[]");
    fflush(stdout);
}

// a count of 2^32 + k or so, over memory that ends after a few thousand blocks: the call cannot return
static void do_huge(int index, const std::string& be, std::uint64_t n) {
    Arena ai(64 * 4096), ao(32 * 4096);
    ssz::Hasher h = make(request(be));
    armed = 1;
    timer(60);
    std::string fault;
    if (sigsetjmp(escape, 1) == 0)
        h.hash_64b_blocks(ao.lo(), ai.lo(), n);
    else
        fault = sig_name(fault_sig);
    armed = 0;
    timer(0);
    printf("{\"i\":%d,\"fault\":\"%s\"}\n", index, fault.c_str());
    fflush(stdout);
}

// ---- capabilities and choice
static void do_cap(int index) {
    std::uint32_t a = 0, b = 0, c = 0, d = 0;
    unsigned max = __get_cpuid_max(0, nullptr);
    std::string adv = "[";
    auto add = [&](const char* s) { adv += std::string(adv.size() > 1 ? "," : "") + "\"" + s + "\""; };
    if (max >= 7) {
        __cpuid_count(7, 0, a, b, c, d);
        if (b & (1u << 29)) add("sha");
        if (b & (1u << 5)) add("avx2");
    }
    if (max >= 1) {
        __cpuid(1, a, b, c, d);
        if (c & (1u << 28)) add("avx");
        if (c & 1u) add("sse3");
    }
    adv += "]";
    bool stable = true;
    int first = (int)ssz::Hasher::implemented();
    for (int i = 0; i < 64; ++i) {
        // leave different rubbish in the registers and on the stack each time
        volatile unsigned char junk[512];
        for (unsigned k = 0; k < sizeof junk; ++k) junk[k] = (unsigned char)(i * 37 + k);
        if ((int)ssz::Hasher::implemented() != first) stable = false;
    }
    printf("{\"i\":%d,\"got\":%d,\"adv\":%s,\"stable\":%s,\"maxleaf\":%u}\n", index, first, adv.c_str(), stable ? "true" : "false", max);
    fflush(stdout);
}
static void do_pick(int index, int req, bool run) {
    unsigned char in[64 * 8], out[32 * 8];
    Call c{"", 8, 0, 1};
    fill_input(in, c);
    std::memset(out, 0, sizeof out);
    ssz::Hasher h = make(req);
    first_entry[0] = 0;
    record_only = true;
    h.hash_64b_blocks(out, in, 8);
    std::string ran = first_entry;
    record_only = false;
    std::string fault;
    int ok = 0;
    if (run) {
        armed = 1;
        timer(20);
        if (sigsetjmp(escape, 1) == 0)
            h.hash_64b_blocks(out, in, 8);
        else
            fault = sig_name(fault_sig);
        armed = 0;
        timer(0);
    }
    printf("{\"i\":%d,\"ran\":\"%s\",\"fault\":\"%s\",\"out\":%s}\n", index, ran.c_str(), fault.c_str(),
           run && fault.empty() ? outs(out, 8).c_str() : "[]");
    fflush(stdout);
}

// ---- many threads at once
static void do_threads(int index, const std::vector<Call>& calls, int threads, int rounds) {
    std::vector<std::set<std::string>> seen(calls.size());
    std::mutex lock;
    std::atomic<int> ready{0};
    std::vector<ssz::Hasher> shared;
    for (auto& c : calls) shared.push_back(make(request(c.be)));
    auto body = [&](int t) {
        std::vector<std::vector<unsigned char>> in(calls.size()), out(calls.size());
        for (std::size_t j = 0; j < calls.size(); ++j) {
            in[j].resize(64 * calls[j].n + 1);
            out[j].resize(32 * calls[j].n + 1);
            fill_input(in[j].data(), calls[j]);
        }
        std::vector<std::set<std::string>> mine(calls.size());
        ready++;
        while (ready < threads) std::this_thread::yield();
        for (int r = 0; r < rounds; ++r)
            for (std::size_t q = 0; q < calls.size(); ++q) {
                std::size_t j = (q + t) % calls.size();
                std::memset(out[j].data(), 0, out[j].size());
                shared[j].hash_64b_blocks(out[j].data(), in[j].data(), calls[j].n);
                mine[j].insert(std::string((char*)out[j].data(), 32 * calls[j].n));
            }
        std::lock_guard<std::mutex> g(lock);
        for (std::size_t j = 0; j < calls.size(); ++j) seen[j].insert(mine[j].begin(), mine[j].end());
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) ts.emplace_back(body, t);
    for (auto& t : ts) t.join();
    std::string s;
    for (std::size_t j = 0; j < calls.size(); ++j) {
        s += (j ? ",[" : "[");
        bool comma = false;
        for (auto& o : seen[j]) {
            s += (comma ? "," : "") + outs((const unsigned char*)o.data(), calls[j].n);
            comma = true;
        }
        s += "]";
    }
    printf("{\"i\":%d,\"outs\":[%s],\"n\":%d}\n", index, s.c_str(), threads * rounds);
    fflush(stdout);
}

// ---- one call interrupted after every instruction by a handler that hashes
static struct {
    bool on;
    const ssz::Hasher* h;
    std::vector<unsigned char> in, out;
    std::size_t n;
    std::set<std::string> seen;
    long traps;
    std::string* slots;
} nest;
static std::string nest_first;
static bool nest_differs;
static void on_trap(int, siginfo_t*, void*) {
    nest.traps++;
    std::memset(nest.out.data(), 0, nest.out.size());
    nest.h->hash_64b_blocks(nest.out.data(), nest.in.data(), nest.n);
    if (std::memcmp(nest.out.data(), nest_first.data(), 32 * nest.n) != 0 && !nest_differs) {
        nest_differs = true;
        std::memcpy(nest_first.data() + 32 * nest.n, nest.out.data(), 32 * nest.n);
    }
}
static void do_nest(int index, const Call& a, const Call& b) {
    ssz::Hasher ha = make(request(a.be)), hb = make(request(b.be));
    std::vector<unsigned char> in(64 * a.n + 1), out(32 * a.n + 1);
    fill_input(in.data(), a);
    nest.h = &hb;
    nest.n = b.n;
    nest.in.assign(64 * b.n + 1, 0);
    nest.out.assign(32 * b.n + 1, 0);
    fill_input(nest.in.data(), b);
    // what the inner call returns alone, then room for a differing result
    hb.hash_64b_blocks(nest.out.data(), nest.in.data(), b.n);
    nest_first.assign((char*)nest.out.data(), 32 * b.n);
    nest_first.resize(64 * b.n);
    nest_differs = false;
    nest.traps = 0;
    struct sigaction sa {}, old {};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, &old);
    asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "cc", "memory");
    ha.hash_64b_blocks(out.data(), in.data(), a.n);
    asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "cc", "memory");
    sigaction(SIGTRAP, &old, nullptr);
    std::string inner = outs((unsigned char*)nest_first.data(), b.n);
    if (nest_differs) inner += "," + outs((unsigned char*)nest_first.data() + 32 * b.n, b.n);
    printf("{\"i\":%d,\"outs\":[[%s],[%s]],\"n\":%ld}\n", index, outs(out.data(), a.n).c_str(), inner.c_str(), nest.traps);
    fflush(stdout);
}

int main(int argc, char** argv) {
    install();
    std::ifstream f(argv[1]);
    int from = argc > 2 ? atoi(argv[2]) : 0;
    std::string line;
    int index = 0;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "pool") {
            std::string h;
            in >> h;
            Block b;
            for (int i = 0; i < 64; ++i) b[i] = (unsigned char)std::stoi(h.substr(2 * i, 2), nullptr, 16);
            pool.push_back(b);
            continue;
        }
        int i = index++;
        if (i < from) continue;
        if (op == "call") {
            do_call(i, parse(in), true);
        } else if (op == "huge") {
            std::string be;
            std::uint64_t n;
            in >> be >> n;
            do_huge(i, be, n);
        } else if (op == "cap") {
            do_cap(i);
        } else if (op == "pick") {
            int req, run;
            in >> req >> run;
            do_pick(i, req, run);
        } else if (op == "threads") {
            int t, r, k;
            in >> t >> r >> k;
            std::vector<Call> cs;
            while (k--) {
                Call c;
                in >> c.be >> c.n >> c.s >> c.k >> c.z1 >> c.z2;
                cs.push_back(c);
            }
            do_threads(i, cs, t, r);
        } else if (op == "solo") {
            int k;
            in >> k;
            std::string s;
            while (k--) {
                Call c;
                in >> c.be >> c.n >> c.s >> c.k >> c.z1 >> c.z2;
                std::vector<unsigned char> src(64 * c.n + 1), dst(32 * c.n + 1);
                fill_input(src.data(), c);
                make(request(c.be)).hash_64b_blocks(dst.data(), src.data(), c.n);
                s += (s.empty() ? "" : ",") + outs(dst.data(), c.n);
            }
            printf("{\"i\":%d,\"outs\":[%s]}\n", i, s.c_str());
            fflush(stdout);
        } else if (op == "nest") {
            Call a, b;
            in >> a.be >> a.n >> a.s >> a.k >> a.z1 >> a.z2 >> b.be >> b.n >> b.s >> b.k >> b.z1 >> b.z2;
            do_nest(i, a, b);
        }
    }
    return 0;
}
