#include "drv.h"
#include <iostream>
#include <fstream>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <new>
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=1:max_allocation_size_mb=3000"; }
namespace drv
{
std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
const char* excname(pe_exception::exception_id id)
{
    switch(id) {
#define X(n) case pe_exception::n: return #n;
#include "excnames.inc"
#undef X
    }
    return "invalid_exception_id";
}
}
using namespace drv;
static void run_case(const J& c, int fd)
{
    Ctx ctx;
    const J& prog = c["prog"];
    for(size_t i = 0; i < prog.a.size(); i++)
    {
        const J& a = prog.a[i];
        J ev = a; // the event repeats the call and its arguments
        const std::string& op = a["op"].s;
        std::map<std::string, Op>::iterator it = ops().find(op);
        if(it == ops().end()) { fprintf(stderr, "driver: unknown op %s\n", op.c_str()); _exit(77); }
        // steps marked "opt" are skipped when the image or section they need does not exist (an earlier load or rebuild was refused)
        if(a.b("opt", false))
        {
            if(op != "load" && !ctx.imgs[a.n("img", 0)]) continue;
            if(op == "load" && !ctx.files.count(a.n("file", 0))) continue;
            if(op == "load" && a.has("reload_of") && !ctx.imgs[a.n("reload_of")]) continue;
            if(a.has("sec") && (size_t)a.n("sec") >= ctx.img(a).get_image_sections().size()) continue;
        }
        std::string exc = "none";
        J r = J::obj();
        try { it->second(ctx, a, r); }
        catch(const pe_exception& e) { exc = excname(e.get_id()); }
        catch(const std::logic_error& e) {
            // an object that earlier calls did not produce: the history ends here, and is rejected
            if(!strcmp(e.what(), "driver: no image") || !strcmp(e.what(), "driver: no section")) exc = "abnormal";
            else if(!strncmp(e.what(), "driver:", 7)) { fprintf(stderr, "%s (case %s op %zu %s)\n", e.what(), c.str("id").c_str(), i, op.c_str()); _exit(77); }
            else exc = std::string("std:") + "logic_error"; }
        catch(const std::bad_alloc&) { exc = "std:bad_alloc"; }
        catch(const std::ios_base::failure&) { exc = "std:ios_failure"; }
        catch(const std::exception& e) { exc = "std:exception"; }
        catch(...) { exc = "std:unknown"; }
        if(exc == "abnormal") { ev = J::obj(); ev.set("op", std::string("abnormal")); ev.set("what", std::string("missing object")); ev.set("during", op); }
        ev.set("exc", exc);
        for(size_t k = 0; k < r.o.size(); k++) ev.set(r.o[k].first, r.o[k].second);
        std::string line; ev.dump(line); line += '\n';
        const char* p = line.data(); size_t n = line.size();
        while(n) { ssize_t w = write(fd, p, n); if(w <= 0) _exit(76); p += w; n -= w; }
        if(exc == "abnormal") return;
    }
}
int main(int argc, char** argv)
{
    if(argc < 3) { fprintf(stderr, "usage: pedrv cases.ndjson trace.ndjson [errlog]\n"); return 2; }
    std::ifstream in(argv[1]); std::ofstream out(argv[2]);
    std::string line; const char* errlog = argc > 3 ? argv[3] : "/dev/null";
    int timeouts = 0; const bool inproc = getenv("PEDRV_INPROC") != 0;
    while(std::getline(in, line))
    {
        if(line.empty()) continue;
        const char* p = line.c_str(); J c = J::parse(p);
        int pfd[2];
        if(inproc)      // all histories in one process: fast, but the first abnormal end stops everything
        {
            FILE* f = tmpfile(); if(!f) return 2;
            alarm(20); run_case(c, fileno(f)); alarm(0);
            std::string evs; char buf[65536]; ssize_t n; lseek(fileno(f), 0, SEEK_SET);
            while((n = read(fileno(f), buf, sizeof buf)) > 0) evs.append(buf, n);
            fclose(f);
            if(!evs.empty()) evs.erase(evs.size() - 1);
            for(size_t k = 0; k < evs.size(); k++) if(evs[k] == '\n') evs[k] = ',';
            std::string o = "{\"id\":"; J(c.str("id")).dump(o); o += ",\"ev\":[" + evs + "]}\n"; out << o;
            continue;
        }
        if(pipe(pfd)) return 2;
        fflush(stderr);
        pid_t pid = fork();
        if(pid < 0) return 2;
        if(pid == 0)
        {
            close(pfd[0]);
            if(!freopen(errlog, "a", stderr)) _exit(75);
            alarm(timeouts > 1 ? 3 : static_cast<unsigned>(c.n("timeout", 15)));
            run_case(c, pfd[1]);
            _exit(0);
        }
        close(pfd[1]);
        std::string evs; char buf[65536]; ssize_t n;
        while((n = read(pfd[0], buf, sizeof buf)) > 0) evs.append(buf, n);
        close(pfd[0]);
        int st = 0; waitpid(pid, &st, 0);
        if(WIFEXITED(st) && WEXITSTATUS(st) >= 75 && WEXITSTATUS(st) <= 77) { fprintf(stderr, "pedrv: driver error %d in case %s\n", WEXITSTATUS(st), c.str("id").c_str()); return 2; }
        std::string o = "{\"id\":"; J(c.str("id")).dump(o); o += ",\"ev\":[";
        // complete lines only
        size_t pos = 0; bool first = true; int cnt = 0;
        for(;;) { size_t e = evs.find('\n', pos); if(e == std::string::npos) break; if(!first) o += ','; first = false; o.append(evs, pos, e - pos); pos = e + 1; cnt++; }
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            std::string what = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal") : (WEXITSTATUS(st) == 99 ? "sanitizer" : "exit");
            if(what == "timeout") timeouts++;
            J ev = J::obj(); ev.set("op", "abnormal"); ev.set("what", what); ev.set("exc", "none");
            const J& prog = c["prog"]; ev.set("during", cnt < (int)prog.a.size() ? prog.a[cnt]["op"] : J("teardown"));
            if(!first) o += ','; ev.dump(o);
        }
        o += "]}\n"; out << o;
        if(!out) return 2;
    }
    return 0;
}
