// Linked into the monitored command line programs: makes the transcript of a batch session divisible by input line,
// and lets several machines listen at once.
#include <cstdio>
#include <cstdlib>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <string>
#include <csignal>
#include <sys/prctl.h>
namespace { struct Init { Init() { prctl(PR_SET_PDEATHSIG, SIGKILL); setvbuf(stdout, nullptr, _IONBF, 0); setvbuf(stderr, nullptr, _IONBF, 0); } } init; }
#ifdef WRAP_LINENOISE
extern "C" char* __real_linenoise(const char* prompt);
extern "C" char* __wrap_linenoise(const char* prompt) { fputs("\x01\x02RDY\x02\x01", stdout); fflush(stdout); return __real_linenoise(prompt); }
#endif
// no waiting for delayed acknowledgements
extern "C" int __real_accept(int, sockaddr*, socklen_t*);
extern "C" int __wrap_accept(int s, sockaddr* a, socklen_t* n) { int r = __real_accept(s, a, n), one = 1; if (r >= 0) setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return r; }
extern "C" int __real_connect(int, const sockaddr*, socklen_t);
extern "C" int __wrap_connect(int s, const sockaddr* a, socklen_t n) { int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return __real_connect(s, a, n); }
#ifdef WRAP_PORT
extern "C" int __real_bind(int, const sockaddr*, socklen_t);
extern "C" int __real_listen(int, int);
extern "C" int __wrap_bind(int s, const sockaddr* a, socklen_t n) {
    if (getenv("MON_PORTFILE") && a->sa_family == AF_INET) {
        sockaddr_in b = *(const sockaddr_in*)a;
        if (FILE* f = fopen((std::string(getenv("MON_PORTFILE")) + ".asked").c_str(), "w")) { fprintf(f, "%d", (int)ntohs(b.sin_port)); fclose(f); }
        b.sin_port = 0; b.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return __real_bind(s, (sockaddr*)&b, sizeof b);
    }
    return __real_bind(s, a, n);
}
extern "C" int __wrap_listen(int s, int n) {
    int r = __real_listen(s, n); const char* pf = getenv("MON_PORTFILE");
    if (r == 0 && pf) {
        sockaddr_in b{}; socklen_t l = sizeof b; getsockname(s, (sockaddr*)&b, &l);
        std::string t = std::string(pf) + ".tmp"; if (FILE* f = fopen(t.c_str(), "w")) { fprintf(f, "%d", (int)ntohs(b.sin_port)); fclose(f); rename(t.c_str(), pf); }
    }
    return r;
}
#endif
