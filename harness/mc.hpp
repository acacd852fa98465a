// Shared infrastructure of the bounded model-checking harnesses: counters, current trace,
// violation reports and crash capture.  Every harness includes this file before <opt/option.hpp>.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unistd.h>

// C21 builds the explorations without exceptions too: nothing is injected there, and nothing that must throw is called
#if defined(__cpp_exceptions)
    #define MC_EXCEPTIONS true
    #define MC_TRY try
    #define MC_CATCH(...) catch (__VA_ARGS__)
    #define MC_THROW(...) throw __VA_ARGS__
#else
    #define MC_EXCEPTIONS false
    #define MC_TRY if constexpr (true)
    #define MC_CATCH(...) else if constexpr (false)
    #define MC_THROW(...) std::abort()
#endif

namespace mc {

struct stats_t {
    unsigned long long states = 0, transitions = 0, traces = 0, checks = 0;
};
inline stats_t stats;
inline std::vector<std::string> samples;
struct violation { std::string key, msg, trace; };
inline std::vector<violation> violations;
inline std::set<std::string> seen_keys;
inline unsigned long long violation_count = 0;

// ---- current trace (cheap: pointers to static or long-lived strings + one small integer) ----
struct entry { const char* s; long long n; bool has_n; };
inline entry trace[256];
inline int depth = 0;
inline char ctx[512] = "";           // the case explored at the moment (type, group)
// ---- digests: everything observed in one context, folded into one number (C21 compares them between configurations) ----
inline std::map<std::string, unsigned long long> digests;
inline unsigned long long scratch_digest, *digest = &scratch_digest;
inline void obs(unsigned long long x) { unsigned long long h = *digest; for (int i = 0; i < 8; ++i) { h = (h ^ (x & 255)) * 1099511628211ull; x >>= 8; } *digest = h; }
inline void set_ctx(const char* a, const char* b = "") {
    std::snprintf(ctx, sizeof ctx, "%s%s%s", a, *b ? " / " : "", b);
#ifdef MC_DIGEST
    digest = &digests.emplace(ctx, 14695981039346656037ull).first->second;
#endif
}
inline void push(const char* s) { if (depth < 256) trace[depth] = {s, 0, false}; ++depth; }
inline void push(const char* s, long long n) { if (depth < 256) trace[depth] = {s, n, true}; ++depth; }
inline void pop() { --depth; }
inline void clear() { depth = 0; }
inline std::string trace_str() {
    std::string r = ctx; r += " : ";
    for (int i = 0; i < depth && i < 256; ++i) {
        if (i) r += "; ";
        r += trace[i].s;
        if (trace[i].has_n) { r += "("; r += std::to_string(trace[i].n); r += ")"; }
    }
    return r;
}
struct scope { // RAII trace entry
    explicit scope(const char* s) { push(s); }
    scope(const char* s, long long n) { push(s, n); }
    ~scope() { pop(); }
};
inline void sample(const std::string& s) { if (samples.size() < 12) samples.push_back(s); }
inline void sample_trace() { if (samples.size() < 12) samples.push_back(trace_str()); }

inline std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
inline const char* out_path() { return std::getenv("MC_OUT"); }
inline std::string to_json(const char* end) {
    std::string j = "{\"end\":\"" + std::string(end) + "\",\"states\":" + std::to_string(stats.states)
        + ",\"transitions\":" + std::to_string(stats.transitions) + ",\"traces\":" + std::to_string(stats.traces)
        + ",\"checks\":" + std::to_string(stats.checks) + ",\"violation_count\":" + std::to_string(violation_count) + ",\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) { if (i) j += ","; j += "\"" + esc(samples[i]) + "\""; }
    j += "],\"digests\":{";
    for (auto it = digests.begin(); it != digests.end(); ++it) { if (it != digests.begin()) j += ","; j += "\"" + esc(it->first) + "\":\"" + std::to_string(it->second) + "\""; }
    j += "},\"violations\":[";
    for (std::size_t i = 0; i < violations.size(); ++i) {
        if (i) j += ",";
        j += "{\"key\":\"" + esc(violations[i].key) + "\",\"msg\":\"" + esc(violations[i].msg) + "\",\"trace\":\"" + esc(violations[i].trace) + "\"}";
    }
    j += "]}";
    return j;
}
inline void write_out(const char* end) {
    std::string j = to_json(end);
    const char* p = out_path();
    if (!p) { std::fputs(j.c_str(), stdout); std::fputs("\n", stdout); std::fflush(stdout); return; }
    if (FILE* f = std::fopen(p, "w")) { std::fputs(j.c_str(), f); std::fclose(f); }
}
inline bool quiet = false; // while set, violations are ignored
inline void fail(const std::string& key, const std::string& msg) {
    if (quiet) return;
    ++violation_count;
    std::string k = std::string(ctx) + " :: " + key;
    if (violations.size() < 60 && seen_keys.insert(k).second) violations.push_back({k, msg, trace_str()});
}
inline bool check(bool ok, const char* key, const char* file, int line) {
    ++stats.checks;
#ifdef MC_ONLY_VERIFY
    ok = true; // judged by other properties; here only reports through OPTION_VERIFY count
#endif
    if (!ok) { (void)file; fail(key, std::string("line ") + std::to_string(line) + ": " + key); }
    return ok;
}
#define MC_CHECK(cond, key) ((void)::mc::check(bool(cond), key, __FILE__, __LINE__))

// ---- OPTION_VERIFY interception ----
inline int verify_expected = 0;          // >0: failures are expected, only counted
inline unsigned long long verify_hits = 0;
inline void verify_failed(const char* expr, const char* msg) {
    ++verify_hits;
    if (!verify_expected) fail(std::string("precondition reported on valid use: ") + expr, msg);
}

inline volatile bool done = false;
inline void on_death() {
    if (done) return;
    done = true;
    quiet = false;
    fail("crash", "the program was terminated (sanitizer report or signal) in this case");
    write_out("crash");
}
inline void on_signal(int s) {
    on_death();
    std::signal(s, SIG_DFL);
    _exit(99);
}
inline void on_terminate() {
    on_death();
    _exit(98);
}
}

#if defined(__SANITIZE_ADDRESS__)
    #define MC_ASAN 1
#elif defined(__has_feature)
    #if __has_feature(address_sanitizer)
        #define MC_ASAN 1
    #endif
#endif
#ifdef MC_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#include <exception>
namespace mc {
inline void init() {
#ifdef MC_ASAN
    __sanitizer_set_death_callback(on_death);
#else
    std::signal(SIGSEGV, on_signal); std::signal(SIGBUS, on_signal); std::signal(SIGILL, on_signal);
    std::signal(SIGFPE, on_signal); std::signal(SIGTRAP, on_signal);
#endif
    std::signal(SIGABRT, on_signal);
    std::set_terminate(on_terminate);
}
inline int finish() { done = true; write_out("ok"); return 0; }
inline bool thorough() { const char* t = std::getenv("VERIF_TIER"); return t && std::strcmp(t, "thorough") == 0; }
}

#ifndef MC_DEFAULT_VERIFY
    #define OPTION_VERIFY(expression, message) ((expression) ? (void)0 : ::mc::verify_failed(#expression, message))
#endif
