// Race detector build only: what becomes of a ThreadSanitizer report.
// Scenario code and the simulator hand data from thread to thread under the scheduler's baton, which the detector is
// not told about; so a report counts only if both accesses were made by code of the library or generated code (the
// innermost frame outside the C++ standard library tells).
#include "internal.h"
#ifdef VSIM_TSAN
#include <cstdio>
#include <cstring>
#include <string>
#include <unistd.h>
#include <sys/syscall.h>

extern "C" {
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count, int* thread_count,
                           int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace, unsigned long trace_size);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, unsigned long size);
void __sanitizer_set_report_fd(void* fd);
void AnnotateIgnoreReadsBegin(const char*, int);
}

namespace sim {
bool race_build = true;

// the owner of an access: "file:line function", or "" when it is not the library's
static std::string owner(void** trace, int n) {
    for (int i = 0; i < n && trace[i]; i++) {
        char b[1200]; memset(b, 0, sizeof b);
        __sanitizer_symbolize_pc((char*)trace[i], "%s\t%l\t%f", b, sizeof b - 2);
        for (char* p = b; *p; p += strlen(p) + 1) {                      // one string per inlined frame, innermost first
            std::string f(p);
            size_t t1 = f.find('\t');
            std::string file = f.substr(0, t1);
            if (verbose) fprintf(stderr, "      frame %s\n", p);
            if (file.find("/usr/") == 0 || file.find("libsanitizer") != std::string::npos || file.find("/") == std::string::npos) continue;
            size_t inc = file.find("/include/vrtgen/"), g = std::string::npos;
            for (const char* d : {"/g_nu/", "/g_nt/", "/g_nn/"}) if (file.find(d) != std::string::npos) g = file.find(d);
            if (inc == std::string::npos && g == std::string::npos) return "";
            std::string r = file.substr(inc != std::string::npos ? inc + 1 : g + 1);
            size_t t2 = f.find('\t', t1 + 1);
            std::string fn = f.substr(t2 + 1), line = f.substr(t1 + 1, t2 - t1 - 1);
            size_t par = fn.find('(');
            if (par != std::string::npos && par > 0) fn = fn.substr(0, par);
            return r + ":" + line + " " + fn;
        }
    }
    return "";
}

extern "C" __attribute__((visibility("default"))) void __tsan_on_report(void* rep) {
    if (!running || !me) return;
    const char* what = nullptr;
    int count, stacks, mops, locs, mxs, ths, tids; void* sleep[1];
    __tsan_get_report_data(rep, &what, &count, &stacks, &mops, &locs, &mxs, &ths, &tids, sleep, 1);
    sh->notes[30]++;
    if (mops < 2) return;
    std::string o[2]; int wr[2] = {0, 0};
    for (int i = 0; i < 2; i++) {
        int tid, size, atomic; void* addr; void* tr[48]; memset(tr, 0, sizeof tr);
        __tsan_get_report_mop(rep, i, &tid, &addr, &size, &wr[i], &atomic, tr, 48);
        o[i] = owner(tr, 48);
        if (o[i].empty()) return;
    }
    violation(spec->prop.c_str(), "race", "%s: %s in %s (thread %s) is not ordered with %s in %s", what ? what : "race", wr[0] ? "a write" : "a read", o[0].c_str(), me->name.c_str(), wr[1] ? "a write" : "a read", o[1].c_str());
}
// the reports themselves go nowhere; the detector forgets that in every forked child
void race_quiet() { __sanitizer_set_report_fd((void*)(long)syscall(SYS_open, "/dev/null", 1)); }
void race_setup() {
    race_quiet();
    char b[64]; __sanitizer_symbolize_pc((void*)&race_setup, "%f", b, sizeof b);     // reads the debug information once, before runs fork off
}
}
#endif
