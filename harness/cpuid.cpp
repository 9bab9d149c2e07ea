// CPU features: the library's start-up code runs, once per process, on every simulated processor of the list.
// CPUID and XGETBV in the library are calls to mc_cpuid and mc_xgetbv (see simcc.py).
#include "mc.hpp"
#include <dpm/detail/x86/cpuid.hpp>
#include <fcntl.h>
#include <spawn.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdarg>
using namespace mc;
extern char **environ;
struct cpu { std::uint32_t max, l1c, l1d, l7b, xcr0, vendor, listed, layout; };
static const char *VENDORS[] = {"GenuineIntel", "AuthenticAMD", "GenuineIotel", "HygonGenuine", "AuthenticAMB", "ineIGenuntel", "            ", "CentaurHauls", "genuineintel", "AMDisbetter!"};
static const std::uint32_t OSXSAVE = 1u << 27;
static cpu sim{0x1f, 0xffffffff, 0xffffffff, 0xffffffff, 0xe7, 0, 0x3f, 0};
static bool simulated, sim_ud, sim_above, sim_listed;
static char text[16384];
static std::size_t text_len, text_pos, record;
enum { FAKE_FD = 777777 };

extern "C" __attribute__((target("general-regs-only"), used)) void mc_cpuid_c(std::uint32_t leaf, std::uint32_t sub, std::uint32_t *r)
{
    r[0] = r[1] = r[2] = r[3] = 0;
    if (leaf >= 0x80000000u) { if (leaf == 0x80000000u) r[0] = leaf; return; }
    if (leaf > sim.max) { sim_above = true; r[0] = r[1] = r[2] = r[3] = 0xffffffffu; return; }
    switch (leaf)
    {
    case 0:
        r[0] = sim.max;
        __builtin_memcpy(r + 1, VENDORS[sim.vendor], 4);
        __builtin_memcpy(r + 3, VENDORS[sim.vendor] + 4, 4);
        __builtin_memcpy(r + 2, VENDORS[sim.vendor] + 8, 4);
        break;
    case 1: r[0] = 0x000906ea; r[1] = 0x00100800; r[2] = sim.l1c; r[3] = sim.l1d; break;
    case 7:
        if (sub == 0) { r[0] = 2; r[1] = sim.l7b; r[2] = 0x12345678; r[3] = 0x9abcdef0; }
        else { r[0] = 0x1c30; r[1] = ~sim.l7b; }
        break;
    default: r[0] = 0x5a5a5a5a; r[1] = 0xa5a5a5a5; r[2] = 0x3c3c3c3c; r[3] = 0xc3c3c3c3;
    }
}
extern "C" __attribute__((target("general-regs-only"), used)) void mc_xgetbv_c(std::uint32_t, std::uint32_t reg, std::uint32_t *r)
{
    // XGETBV is an undefined instruction unless the operating system has set CR4.OSXSAVE; only XCR0 exists here
    if (!(sim.l1c & OSXSAVE) || sim.max < 1 || reg != 0) sim_ud = true;
    r[0] = sim.xcr0;
    r[1] = 0;
}
#define STUB(NAME, STORE) "\n.globl " NAME "\n" NAME ":\n pushfq\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n push %rbp\n push %rbx\n push %rcx\n mov %rsp, %rbp\n and $-16, %rsp\n sub $16, %rsp\n" \
    " mov %eax, %edi\n mov %ecx, %esi\n mov %rsp, %rdx\n cld\n call " NAME "_c\n" STORE " mov %rbp, %rsp\n"
asm(".text" STUB("mc_cpuid", " mov (%rsp), %eax\n mov 8(%rsp), %ecx\n mov 12(%rsp), %edx\n mov 4(%rsp), %ebx\n")
    " add $16, %rsp\n pop %rbp\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n popfq\n ret\n"
    STUB("mc_xgetbv", " mov (%rsp), %eax\n mov 4(%rsp), %edx\n")
    " pop %rcx\n pop %rbx\n pop %rbp\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n popfq\n ret\n");

// The operating system's list of usable extensions
static bool is_listing(const char *p) { return simulated && !std::strcmp(p, "/proc/cpuinfo"); }
static int real_open(const char *p, int f, int m) { return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, f, m)); }
extern "C" int open(const char *p, int f, ...)
{
    va_list a;
    va_start(a, f);
    const int m = va_arg(a, int);
    va_end(a);
    if (!is_listing(p)) return real_open(p, f, m);
    sim_listed = true;
    text_pos = 0;
    return FAKE_FD;
}
extern "C" int open64(const char *p, int f, ...) { return is_listing(p) ? open(p, f, 0) : real_open(p, f, 0644); }
extern "C" ssize_t read(int fd, void *to, std::size_t n)
{
    if (fd != FAKE_FD) return syscall(SYS_read, fd, to, n);
    std::size_t left = text_len - text_pos;
    if (n > left) n = left;
    // layout 1: as the kernel does, only whole records unless one alone fills the buffer
    if (sim.layout == 1 && record && n > record) n -= n % record;
    std::memcpy(to, text + text_pos, n);
    text_pos += n;
    return static_cast<ssize_t>(n);
}
extern "C" int close(int fd) { return fd == FAKE_FD ? 0 : static_cast<int>(syscall(SYS_close, fd)); }
static const char *LIST[] = {"sse", "sse2", "pni", "ssse3", "sse4_1", "sse4_2"};
static void make_text()
{
    static const char *BEFORE[] = {"fpu", "vme", "de", "pse", "tsc", "msr", "pae", "mce", "cx8", "apic", "sep", "mtrr", "pge", "mca", "cmov", "pat", "pse36", "clflush", "mmx", "fxsr"};
    for (int c = 0; c < (sim.layout == 2 ? 1 : 12); ++c)
    {
        const std::size_t from = text_len;
        auto add = [&](const char *s) { const std::size_t n = std::strlen(s); std::memcpy(text + text_len, s, n); text_len += n; };
        add("processor\t: 0\nvendor_id\t: ");
        add(VENDORS[sim.vendor]);
        add("\ncpu family\t: 6\nmodel\t\t: 23\nmodel name\t: Simulated (R) CPU @ 2.66GHz\nstepping\t: 10\ncpu MHz\t\t: 2660.000\ncache size\t: 6144 KB\nphysical id\t: 0\nsiblings\t: 4\nfpu\t\t: yes\ncpuid level\t: 13\nwp\t\t: yes\nflags\t\t:");
        for (auto b : BEFORE) { add(" "); add(b); }
        for (int k = 0; k < 2; ++k) if (sim.listed >> k & 1) { add(" "); add(LIST[k]); }
        add(" ht syscall nx lm constant_tsc");
        for (int k = 2; k < 6; ++k) if (sim.listed >> k & 1) { add(" "); add(LIST[k]); }
        add(" lahf_lm\nbugs\t\t: cpu_meltdown spectre_v1\nbogomips\t: 5333.42\nclflush size\t: 64\ncache_alignment\t: 64\naddress sizes\t: 38 bits physical, 48 bits virtual\npower management:\n\n");
        record = text_len - from;
    }
}
// before every other constructor of the process
__attribute__((constructor(101))) static void early(int argc, char **argv, char **)
{
    if (argc < 3 || std::strcmp(argv[1], "--cpu")) return;
    std::sscanf(argv[2], "%x,%x,%x,%x,%x,%x,%x,%x", &sim.max, &sim.l1c, &sim.l1d, &sim.l7b, &sim.xcr0, &sim.vendor, &sim.listed, &sim.layout);
    simulated = true;
    make_text();
}
static std::string dump(const cpu &c)
{
    char b[200];
    std::snprintf(b, sizeof b, "%x,%x,%x,%x,%x,%x,%x,%x", c.max, c.l1c, c.l1d, c.l7b, c.xcr0, c.vendor, c.listed, c.layout);
    return b;
}
// In the simulated process: compares what the library reports with the processor it ran on.
static int child()
{
    using C = dpm::ext::cpuid;
    const bool osx = sim.max >= 1 && (sim.l1c & OSXSAVE);
    const std::uint32_t l1c = sim.max >= 1 ? sim.l1c : 0, l1d = sim.max >= 1 ? sim.l1d : 0, l7b = sim.max >= 7 ? sim.l7b : 0;
    const bool avx = osx && (sim.xcr0 & 6) == 6, avx512 = osx && (sim.xcr0 & 0xe6) == 0xe6;
    auto sse = [&](int k) { return osx ? (sim.xcr0 & 2) != 0 : (sim.listed >> k & 1) != 0; };
    auto is = [](std::uint32_t r, int b) { return (r >> b & 1) != 0; };
    int bad = 0;
    auto judge = [&](const char *what, bool got, bool want) { if (got != want) { std::printf("%s() is %s;", what, got ? "true" : "false"); bad = 1; } };
#define J(F, W) judge(#F, C::F(), W)
    J(is_intel, !std::strcmp(VENDORS[sim.vendor], "GenuineIntel"));
    J(is_amd, !std::strcmp(VENDORS[sim.vendor], "AuthenticAMD"));
    J(has_msr, is(l1d, 5)); J(has_cx8, is(l1d, 8)); J(has_sep, is(l1d, 11)); J(has_cmov, is(l1d, 15)); J(has_clfsh, is(l1d, 19));
    J(has_xsave, is(l1c, 27)); J(has_cmpxchg16b, is(l1c, 13));
    // a library that asks the operating system in another way than open(2) sees the real, complete list
    if (osx || sim_listed || sim.listed == 0x3f)
    {
        J(has_sse, is(l1d, 25) && sse(0)); J(has_sse2, is(l1d, 26) && sse(1)); J(has_sse3, is(l1c, 0) && sse(2));
        J(has_ssse3, is(l1c, 9) && sse(3)); J(has_sse4_1, is(l1c, 19) && sse(4)); J(has_sse4_2, is(l1c, 20) && sse(5));
    }
    J(has_avx, is(l1c, 28) && avx); J(has_fma, is(l1c, 12) && avx); J(has_f16c, is(l1c, 29) && avx); J(has_avx2, is(l7b, 5) && avx);
    J(has_avx512f, is(l7b, 16) && avx512); J(has_avx512cd, is(l7b, 28) && avx512); J(has_avx512bw, is(l7b, 30) && avx512);
    J(has_avx512dq, is(l7b, 17) && avx512); J(has_avx512vl, is(l7b, 31) && avx512);
    if (sim_ud) { std::printf("executes XGETBV although the operating system has not enabled it;"); bad = 1; }
    std::printf("\n");
    std::fflush(stdout);
    return bad ? 3 : 0;
}
static std::string self;
static void run(const cpu &c)
{
    const std::string arg = dump(c);
    int p[2];
    if (pipe(p)) { std::perror("pipe"); std::exit(2); }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1);
    posix_spawn_file_actions_addclose(&fa, p[0]);
    const char *argv[] = {self.c_str(), "--cpu", arg.c_str(), nullptr};
    pid_t pid;
    if (posix_spawn(&pid, self.c_str(), &fa, nullptr, const_cast<char **>(argv), environ)) { std::perror("spawn"); std::exit(2); }
    posix_spawn_file_actions_destroy(&fa);
    close(p[1]);
    std::string out;
    char b[512];
    for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) out.append(b, static_cast<std::size_t>(n));
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    ++states;
    ops += 24;
    count(24, c.max >= 1 ? 12 : 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("processor %s %s (max leaf,1.ecx,1.edx,7.ebx,xcr0,vendor,listed,layout = %s): %s", VENDORS[c.vendor], WIFEXITED(st) ? "reported wrongly" : "crashes start-up", arg.c_str(), out.c_str());
}
int main(int argc, char **argv)
{
    if (simulated) return child();
    init(argc, argv);
    char path[4096];
    const ssize_t n = readlink("/proc/self/exe", path, sizeof path - 1);
    self.assign(path, n > 0 ? static_cast<std::size_t>(n) : 0);
    const std::uint32_t all = 0xffffffffu;
    std::vector<cpu> base;
    // every feature bit alone and every feature bit missing
    auto add = [&](std::uint32_t c, std::uint32_t d, std::uint32_t b) { base.push_back({0x1f, c, d, b, 0, 0, 0x3f, 0}); };
    add(0, 0, 0);
    add(all, all, all);
    for (int k = 0; k < 32; ++k)
    {
        const std::uint32_t m = 1u << k;
        if (m != OSXSAVE) { add(m, 0, 0); add(~m, all, all); }
        add(0, m, 0); add(all, ~m, all);
        add(0, 0, m); add(all, all, ~m);
    }
    // as sold: Core 2, Nehalem, Sandy Bridge, Haswell, Skylake-X, Zen
    add(0x0008e3fd, 0xbfebfbff, 0); add(0x0098e3bd, 0xbfebfbff, 0); add(0x1fbae3bf, 0xbfebfbff, 0); add(0x7ffafbff, 0xbfebfbff, 0x000027ab); add(0x7ffefbff, 0xbfebfbff, 0xd39ffffb); add(0x7ed8320b, 0x178bfbff, 0x209c01a9);
    static const std::uint32_t STATES[] = {0x01, 0x03, 0x05, 0x07, 0x21, 0x27, 0x47, 0x61, 0x63, 0x65, 0x67, 0x81, 0x83, 0x87, 0xa7, 0xc7, 0xe1, 0xe3, 0xe5, 0xe7, 0x1f, 0x2e7, 0x602e7, 0x207, 0x0};
    for (std::uint32_t x : STATES)
        if (site("features/xcr0=" + std::to_string(x)))
            for (auto c : base) { c.xcr0 = x; c.l1c |= OSXSAVE; run(c); }
    static const std::uint32_t LISTED[] = {0, 1, 3, 7, 15, 31, 63, 0x3b, 0x37, 0x2f, 0x33, 0x07 | 0x10};
    for (std::uint32_t l : LISTED)
        for (std::uint32_t y = 0; y < 3; ++y)
            if (site("features/listed=" + std::to_string(l) + "/" + std::to_string(y)))
                for (auto c : base) { c.listed = l; c.layout = y; c.xcr0 = 0; c.l1c &= ~OSXSAVE; run(c); if (l == 63 && !y) { c.xcr0 = 0xe7; run(c); } }
    static const std::uint32_t MAX[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0xd, 0x16, 0x1f};
    for (std::uint32_t m : MAX)
        if (site("max_leaf=" + std::to_string(m)))
            for (auto c : base) for (std::uint32_t o : {0u, OSXSAVE}) { c.max = m; c.xcr0 = 0xe7; c.l1c = (c.l1c & ~OSXSAVE) | o; run(c); }
    for (std::uint32_t v = 0; v < sizeof VENDORS / sizeof *VENDORS; ++v)
        if (site("vendor=" + std::to_string(v)))
            for (std::uint32_t m : MAX) for (std::uint32_t o : {0u, OSXSAVE}) for (std::uint32_t f : {0u, all}) run({m, (f & ~OSXSAVE) | o, f, f, 0xe7, v, 0x3f, 1});
    return finish();
}
