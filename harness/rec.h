// Recording of calls into the real code as ndjson records, one object per line.
// The inputs of a call are noted in a memory-mapped file *before* the call, so that a crash or a hang can be
// attributed to the call that caused it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <random>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

struct Args {
    std::string out, last, tier; unsigned long seed; std::vector<std::string> rest;
    bool thorough() const { return tier == "thorough"; }
};
inline Args parse_args(int argc, char** argv)
{
    if (argc < 5) { std::fprintf(stderr, "usage: harness OUT LAST TIER SEED [..]\n"); std::exit(3); }
    Args a; a.out = argv[1]; a.last = argv[2]; a.tier = argv[3]; a.seed = std::strtoul(argv[4], nullptr, 10);
    for (int i = 5; i < argc; ++i) a.rest.push_back(argv[i]);
    return a;
}

class Rec {
public:
    static constexpr std::size_t LASTSZ = 1 << 16;
    Rec(const std::string& path, const std::string& last)
    {
        f_ = std::fopen(path.c_str(), "w");
        int fd = ::open(last.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (!f_ || fd < 0 || ::ftruncate(fd, LASTSZ) != 0) std::exit(3);
        last_ = static_cast<char*>(::mmap(nullptr, LASTSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        ::close(fd);
        if (last_ == MAP_FAILED) std::exit(3);
    }
    ~Rec() { ::alarm(0); std::fclose(f_); }
    Rec& begin(const char* fn) { b_ = "{\"f\":\""; b_ += fn; b_ += '"'; return *this; }
    Rec& key(const char* k) { b_ += ",\""; b_ += k; b_ += "\":"; return *this; }
    Rec& i(const char* k, long long v) { key(k); b_ += std::to_string(v); return *this; }
    Rec& b(const char* k, bool v) { key(k); b_ += v ? "true" : "false"; return *this; }
    Rec& t(const char* k, const char* v) { key(k); b_ += '"'; b_ += v; b_ += '"'; return *this; }
    // byte string as array of codes
    Rec& s(const char* k, const char* p, std::size_t n) { key(k); bytes(p, n); return *this; }
    Rec& s(const char* k, const std::string& v) { return s(k, v.data(), v.size()); }
    template <typename C> Rec& ss(const char* k, const C& parts)
    {
        key(k); b_ += '['; bool first = true;
        for (auto const& p : parts) { if (!first) b_ += ','; first = false; bytes(p.data(), p.size()); }
        b_ += ']'; return *this;
    }
    template <typename C> Rec& v(const char* k, const C& vals)
    {
        key(k); b_ += '['; bool first = true;
        for (auto const& x : vals) { if (!first) b_ += ','; first = false; b_ += std::to_string(static_cast<long long>(x)); }
        b_ += ']'; return *this;
    }
    Rec& raw(const char* k, const std::string& json) { key(k); b_ += json; return *this; }
    // all inputs have been written: note them before the call
    void call()
    {
        ::alarm(60);    // a call that takes longer than that is not going to return
        std::size_t n = std::min(b_.size(), LASTSZ - 1);
        std::memcpy(last_, b_.data(), n); last_[n] = 0;
    }
    // what is about to be done, in words
    void note(const std::string& what)
    {
        ::alarm(60);
        std::size_t n = std::min(what.size(), LASTSZ - 1);
        std::memcpy(last_, what.data(), n); last_[n] = 0;
    }
    void end() { b_ += "}\n"; std::fwrite(b_.data(), 1, b_.size(), f_); ++count; }
    std::size_t count = 0;
private:
    void bytes(const char* p, std::size_t n)
    {
        b_ += '[';
        for (std::size_t j = 0; j < n; ++j) {
            if (j) b_ += ',';
            unsigned u = static_cast<unsigned char>(p[j]);
            if (u >= 100) b_ += char('0' + u / 100);
            if (u >= 10) b_ += char('0' + u / 10 % 10);
            b_ += char('0' + u % 10);
        }
        b_ += ']';
    }
    FILE* f_; char* last_; std::string b_;
};

// A byte string in a heap block of exactly its size, so that AddressSanitizer sees any read past either end.
struct Exact {
    std::size_t n; std::unique_ptr<char[]> p;
    explicit Exact(const std::string& s) : n(s.size()), p(new char[s.size()]) { std::memcpy(p.get(), s.data(), s.size()); }
    const char* data() const { return p.get(); }
    std::size_t size() const { return n; }
};

struct Gen {
    std::mt19937_64 r;
    explicit Gen(unsigned long seed) : r(seed * 7919 + 17) {}
    std::uint64_t u(std::uint64_t n) { return n ? r() % n : 0; }
    bool coin(unsigned pct) { return u(100) < pct; }
    std::string str(const std::string& alpha, std::size_t len)
    {
        std::string s; for (std::size_t i = 0; i < len; ++i) s += alpha[u(alpha.size())]; return s;
    }
    std::string bytes(std::size_t len) { std::string s; for (std::size_t i = 0; i < len; ++i) s += char(u(256)); return s; }
};

// All strings over `alpha` of length 0..maxlen.
inline std::vector<std::string> all_strings(const std::string& alpha, std::size_t maxlen)
{
    std::vector<std::string> r{ "" }; std::size_t from = 0;
    for (std::size_t l = 1; l <= maxlen; ++l) {
        std::size_t to = r.size();
        for (std::size_t i = from; i < to; ++i)
            for (char c : alpha) r.push_back(r[i] + c);
        from = to;
    }
    return r;
}
