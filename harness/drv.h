// Shared by all drivers: reads one case per line, executes it on the real code, reports observations as JSON.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace drv {

inline std::string num(double x) {
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    char b[64]; std::snprintf(b, sizeof b, "\"%a\"", x); return b;
}
inline std::string str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
inline std::string boolean(bool b) { return b ? "true" : "false"; }
template <class It> std::string nums(It b, It e) {
    std::string r = "[";
    for (It i = b; i != e; ++i) { if (i != b) r += ","; r += num(*i); }
    return r + "]";
}
template <class C> std::string nums(const C& c) { return nums(std::begin(c), std::end(c)); }
inline std::string list(const std::vector<std::string>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; }
    return r + "]";
}
struct Obj {
    std::string s = "{";
    Obj& add(const char* k, const std::string& json) { if (s.size() > 1) s += ","; s += "\"" + std::string(k) + "\":" + json; return *this; }
    std::string done() const { return s + "}"; }
};

struct In {
    std::istringstream is;
    explicit In(const std::string& l) : is(l) {}
    std::string word() {
        std::string w;
        if (!(is >> w)) { throw std::string("driver: token missing"); }
        return w == "~" ? std::string() : w;
    }
    double d() {
        std::string w = word();
        if (w == "nan") return std::nan("");
        if (w == "inf") return HUGE_VAL;
        if (w == "-inf") return -HUGE_VAL;
        return std::strtod(w.c_str(), nullptr);
    }
    long i() { return std::strtol(word().c_str(), nullptr, 10); }
    unsigned long u() { return std::strtoul(word().c_str(), nullptr, 10); }
    std::vector<double> ds() { long n = i(); std::vector<double> v(n); for (auto& x : v) x = d(); return v; }
    bool more() { return static_cast<bool>(is >> std::ws) && is.peek() != EOF; }
};

// Runs f and names how it ended.
template <class F> std::string attempt(F&& f) {
    try { f(); return "ok"; }
    catch (const std::invalid_argument&) { return "invalid_argument"; }
    catch (const std::logic_error&) { return "logic_error"; }
    catch (const std::runtime_error&) { return "runtime_error"; }
    catch (const std::exception&) { return "exception"; }
}

inline FILE* out = nullptr;
inline void onAlarm(int) { _exit(99); }

// handler: case line -> JSON object text
inline int run(int argc, char** argv, const std::function<std::string(In&)>& handler) {
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    out = std::fopen(argv[2], "w");
    const int limit = std::atoi(argv[3]);
    std::signal(SIGALRM, onAlarm);
    std::string line;
    while (std::getline(in, line)) {
        In t(line);
        const std::string id = t.word();
        std::fprintf(out, "B %s\n", id.c_str()); std::fflush(out);
        alarm(limit);
        std::string r;
        try { r = handler(t); }
        catch (const std::string& e) { r = Obj().add("st", str("driver")).add("why", str(e)).done(); }
        catch (const std::exception& e) { r = Obj().add("st", str("escaped")).add("what", str(e.what())).done(); }
        alarm(0);
        std::fprintf(out, "E %s\n", r.c_str()); std::fflush(out);
    }
    std::fclose(out);
    return 0;
}

// As run(), each case in a process of its own (fresh static state: the market-data singleton).
inline int runIsolated(int argc, char** argv, const std::function<std::string(In&)>& program) {
    return run(argc, argv, [&program](In& in) -> std::string {
        int fd[2];
        if (pipe(fd) != 0) throw std::string("driver: pipe");
        const pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            alarm(20);
            std::string r;
            try { r = program(in); }
            catch (const std::string& e) { r = Obj().add("st", str("driver")).add("why", str(e)).done(); }
            catch (const std::exception& e) { r = Obj().add("st", str("crash")).add("detail", str(std::string("exception escaped: ") + e.what())).done(); }
            size_t off = 0;
            while (off < r.size()) { const ssize_t k = write(fd[1], r.data() + off, r.size() - off); if (k <= 0) break; off += k; }
            close(fd[1]);
            _exit(0);
        }
        close(fd[1]);
        std::string r; char b[65536]; ssize_t k;
        while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, k);
        close(fd[0]);
        int st = 0; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || r.empty()) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return Obj().add("st", str("hang")).add("detail", str("no answer")).done();
            if (WIFEXITED(st) && WEXITSTATUS(st) == 66) return Obj().add("st", str("crash")).add("detail", str("data race reported by ThreadSanitizer")).done();
            return Obj().add("st", str("crash")).add("detail", str("process ended abnormally, status " + std::to_string(st))).done();
        }
        return r;
    });
}
}
