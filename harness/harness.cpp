#include "harness.h"
#include <fstream>
#include <iostream>

std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static std::atomic<uint64_t> progress{0};
static int curFd = -1;
static void setCur(const char* mode, uint64_t index, const char* what) {
    char b[160]; int n = snprintf(b, sizeof b, "%-10s %-40s %-24llu\n", what, mode, (unsigned long long)index);
    if (curFd >= 0) { ssize_t r = pwrite(curFd, b, n, 0); (void)r; }
}

int harnessMain(int argc, char** argv) {
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    std::string mode = o["--mode"];
    uint64_t seed = std::stoull(o.count("--seed") ? o["--seed"] : "1");
    uint64_t from = std::stoull(o.count("--from") ? o["--from"] : "0"), to = std::stoull(o.count("--to") ? o["--to"] : "1");
    uint64_t stride = std::stoull(o.count("--stride") ? o["--stride"] : "1");
    double hang = std::stod(o.count("--hang") ? o["--hang"] : "30");
    double budget = std::stod(o.count("--budget") ? o["--budget"] : "0"); // seconds; 0: none
    uint64_t maxv = std::stoull(o.count("--maxv") ? o["--maxv"] : "2");
    bool verbose = o.count("--verbose");
    CaseFn fn; std::string mname;
    for (auto& md : modes()) if (mode == md.name) { fn = md.fn; mname = md.name; }
    if (!fn) { fprintf(stderr, "unknown mode %s\n", mode.c_str()); return 2; }
    if (o.count("--cur")) curFd = open(o["--cur"].c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);

    std::atomic<bool> stopW{false};
    std::thread wd([&] {
        uint64_t last = ~0ull; double acc = 0;
        while (!stopW) {
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            uint64_t p = progress; if (p != last) { last = p; acc = 0; } else acc += 0.2;
            if (acc > hang) { setCur(mname.c_str(), p, "HANG"); fprintf(stderr, "WATCHDOG: no progress in case %llu\n", (unsigned long long)p); _exit(97); }
        }
    });
    Ctx c; c.mode = mode; c.seed = seed; c.verbose = verbose;
    auto t0 = std::chrono::steady_clock::now();
    uint64_t done = 0; bool cut = false; uint64_t at = from;
    for (uint64_t i = from; i < to; i += stride) {
        at = i;
        if (budget > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) { cut = true; break; }
        progress = i; setCur(mname.c_str(), i, "RUN");
        c.index = i; c.rng = Rng::forCase(seed, mode, i); c.detail.clear();
        try { fn(c); }
        catch (Discard&) { ++c.discards; }
        catch (Failed&) {}
        catch (std::exception& e) { // nothing of the code under test may let an exception escape to a case
            c.violations.push_back({i, mode, "exception", std::string("exception escaped: ") + e.what(), c.detail});
        }
        if (c.violations.size() >= maxv) { ++done; break; }
        ++done;
        if (verbose) fprintf(stderr, "case %llu\n%s\n", (unsigned long long)i, c.detail.c_str());
    }
    setCur(mname.c_str(), 0, "DONE");
    stopW = true; wd.join();
    std::string js = "{\"cases\":" + std::to_string(done) + ",\"discards\":" + std::to_string(c.discards) + ",\"cut\":" + (cut ? "true" : "false") + ",\"at\":" + std::to_string(at) + ",\"evaluations\":" + std::to_string(c.evaluations) + ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : c.counters) { if (!first) js += ","; first = false; js += jesc(k) + ":" + std::to_string(v); }
    js += "},\"samples\":["; first = true;
    for (auto& s : c.samples) { if (!first) js += ","; first = false; js += jesc(s); }
    js += "],\"violations\":["; first = true;
    for (auto& v : c.violations) {
        if (!first) js += ","; first = false;
        js += "{\"index\":" + std::to_string(v.index) + ",\"mode\":" + jesc(v.mode) + ",\"key\":" + jesc(v.key) + ",\"msg\":" + jesc(v.msg) + ",\"detail\":" + jesc(v.detail) + "}";
    }
    js += "]}\n";
    if (o.count("--out")) {
        std::ofstream f(o["--out"]); f << js;
        std::ofstream b(o["--out"] + ".bin", std::ios::binary);
        for (uint64_t h : c.distinct) b.write((const char*)&h, 8);
    } else {
        fputs(js.c_str(), stdout);
    }
    fflush(nullptr);
    _exit(0); // leftover machine threads, if any, must not delay or fail the exit
}
