// Sessions (processes) that execute programs and share a kernel cache directory.
// The parent process plays the environment: it starts, stops and kills sessions, damages
// cache files, changes time stamps and adds unrelated files.  Within a session,
// a fault (crash or I/O error) can be injected at the n-th file system operation that
// concerns the cache directory.
//   drv_cache OUT SEED NSTEPS
#include "exec.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <poll.h>
#include <cerrno>
#include <atomic>

static uint64_t fnv(const std::string &s) { uint64_t h = 0xcbf29ce484222325ull; for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; return h; }
// ------------------------------------------------------------------ fault injection (session process)
static std::string cdir;
static int f_kind = 0, f_at = 0, f_errno = 0, f_hit = 0; static bool f_armed = false;
static std::set<int> *f_fds = nullptr;
static bool mine(const char *p) { return f_armed && p && strncmp(p, cdir.c_str(), cdir.size()) == 0; }
static bool strike() { if (--f_at != 0) return false; f_hit = 1; if (f_kind == 1) _exit(77); return true; }
#define REAL(name) static auto real = (decltype(&name)) dlsym(RTLD_NEXT, #name)
extern "C" {
FILE *fopen(const char *p, const char *m) { REAL(fopen); if (mine(p) && strike()) { errno = f_errno; return nullptr; } FILE *f = real(p, m); if (f && mine(p)) f_fds->insert(fileno(f)); return f; }
FILE *fopen64(const char *p, const char *m) { REAL(fopen64); if (mine(p) && strike()) { errno = f_errno; return nullptr; } FILE *f = real(p, m); if (f && mine(p)) f_fds->insert(fileno(f)); return f; }
int fclose(FILE *f) { REAL(fclose); if (f_armed && f && f_fds->count(fileno(f))) f_fds->erase(fileno(f)); return real(f); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write);
    if (f_armed && f_fds->count(fd)) { if (f_at == 1) (void) !real(fd, b, n / 2); if (strike()) { errno = f_errno; return -1; } }
    return real(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { static auto real = (ssize_t (*)(int, const struct iovec *, int)) dlsym(RTLD_NEXT, "writev");
    if (f_armed && f_fds->count(fd)) { if (f_at == 1 && n > 1) (void) !real(fd, v, 1); if (strike()) { errno = f_errno; return -1; } }
    return real(fd, v, n); }
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (f_armed && f_fds->count(fd) && strike()) { errno = f_errno; return -1; } return real(fd, b, n); }
int link(const char *a, const char *b) noexcept { REAL(link); if (mine(a) && strike()) { errno = f_errno; return -1; } int r = real(a, b); if (r == 0 && mine(a)) (void) strike(); return r; }
int rename(const char *a, const char *b) noexcept { REAL(rename); if (mine(a) && strike()) { errno = f_errno; return -1; } return real(a, b); }
int remove(const char *p) noexcept { REAL(remove); if (mine(p) && strike()) { errno = f_errno; return -1; } return real(p); }
int unlink(const char *p) noexcept { REAL(unlink); if (mine(p) && strike()) { errno = f_errno; return -1; } return real(p); }
int fchmodat(int d, const char *p, mode_t m, int f) noexcept { REAL(fchmodat); if (mine(p) && strike()) { errno = f_errno; return -1; } return real(d, p, m, f); }
int chmod(const char *p, mode_t m) noexcept { REAL(chmod); if (mine(p) && strike()) { errno = f_errno; return -1; } return real(p, m); }
}

// ------------------------------------------------------------------ programs
static uint64_t pseed = 0;
// (programs 8.. are variants of programs 0.. in which one literal differs: their code has the same length)
static bool vary(Block &B, int &skip) {
    for (auto &q : B) { Stmt &s = *q;
        if (s.k == "op") for (int i = 0; i < s.na; ++i) if (s.a[i].k == 1 && s.a[i].v >= 2 && skip-- == 0) { s.a[i].v += s.a[i].v % 10 < 9 ? 1 : -1; return true; }
        if (s.k == "sca" && s.a[0].k == 1 && s.a[0].v >= 2 && skip-- == 0) { s.a[0].v += s.a[0].v % 10 < 9 ? 1 : -1; return true; }
        if (vary(s.t, skip) || vary(s.e, skip)) return true;
    }
    return false;
}
static Program make_program(int id); static Program make_base(int id);
static Program make_program(int id) { Program P = make_base(id % 8); if (id >= 8) { int skip = Rng(id).below(3); vary(P.code, skip); } return P; }
static Program make_base(int id) { Rng g(pseed * 977 + id); Weights W; W.arr = 0; W.top = 6; W.depth = 2; if (g.chance(1, 2)) { W.call = 8; W.loop = 1; W.cond = 1; } Program P; Gen G(g, P, W); G.make(false); return P; }

static std::string run_program(int id) {
    Program P = make_program(id); Cfg C; C.seed = 1000 + id; C.flags = (uint32_t) JitFlag::Default | (uint32_t) JitFlag::KernelHistory;
    jit_set_flags(C.flags); jit_kernel_history_clear();
    std::string d;
    try {
        std::string a = "[", b = "[";
        { Exec X(P, C); X.prepare(); Env E = X.inputs(); X.body_top(E);
          for (V &v : E.s) jit_var_schedule(v.i); for (V &v : X.bufs) jit_var_schedule(v.i);
          jit_eval();
          for (size_t q = 0; q < E.s.size(); ++q) { if (q) a += ","; a += jl(vread(E.s[q])); }
          for (size_t q = 0; q < X.bufs.size(); ++q) { if (q) b += ","; b += jl(vread(X.bufs[q])); } }
        jit_eval();
        d = "\"s\":" + a + "],\"b\":" + b + "]";
    } catch (const std::exception &e) { J j; j.str("err", e.what()); d = j.s; }
    jit_sync_thread();
    std::string k = "["; KernelHistoryEntry *h = jit_kernel_history();
    for (KernelHistoryEntry *e = h; e && (int) e->backend; ++e) {
        if (e->type != KernelType::JIT) { free(e->ir); continue; }
        char t[200]; snprintf(t, sizeof t, "%s{\"h\":\"%016llx%016llx\",\"ir\":\"%016llx\",\"hit\":%d,\"disk\":%d}", k.size() > 1 ? "," : "", (unsigned long long) e->hash[1], (unsigned long long) e->hash[0], (unsigned long long) fnv(e->ir ? e->ir : ""), e->cache_hit ? 1 : 0, e->cache_disk ? 1 : 0);
        k += t; free(e->ir);
    }
    free(h);
    size_t l, s, m; jit_launch_stats(&l, &s, &m);
    char t[200]; snprintf(t, sizeof t, "\"st\":[%zu,%zu,%zu],\"f\":%d", l, s, m, f_hit);
    return "{\"v\":{" + d + "},\"k\":" + k + "]," + t + "}";
}

static int session() {
    FILE *rp = fdopen(3, "w"); f_fds = new std::set<int>();
    const char *w = getenv("DRV_WIDTH");
    auto init = [&] { drv_init(); drv_no_fp16(); jit_llvm_set_block_size(16); if (w) { std::string c = jit_llvm_target_cpu(), f = jit_llvm_target_features() ? jit_llvm_target_features() : ""; jit_llvm_set_target(c.c_str(), f.c_str(), atoi(w)); } };
    init();
    const char *d = jit_cache_dir(); fprintf(rp, "%s\n", d ? d : "-"); fflush(rp);
    cdir = d ? d : "/nonexistent";
    char line[200];
    while (fgets(line, sizeof line, stdin)) {
        int p; char c[20]; if (sscanf(line, "%19s", c) != 1) continue; std::string cmd = c, r = "ok";
        if (cmd == "run") { sscanf(line, "%*s %d %d %d %d", &p, &f_kind, &f_at, &f_errno); f_hit = 0; f_armed = f_kind != 0; r = run_program(p); f_armed = false; f_fds->clear(); }
        else if (cmd == "flush") jit_flush_kernel_cache();
        else if (cmd == "reinit") { jit_shutdown(0); init(); }
        else if (cmd == "stop") { jit_shutdown(0); fprintf(rp, "ok\n"); fflush(rp); _exit(0); }
        fprintf(rp, "%s\n", r.c_str()); fflush(rp);
    }
    _exit(0);
}

// ------------------------------------------------------------------ environment
struct Session { int id; pid_t pid; FILE *to, *from; int err; bool faulty; int w; };
static std::string self_path, root, dir; static Rng *G; static std::vector<Session> live; static int next_id = 0, next_hash = 0; static std::map<std::string, int> hid; static std::map<int, std::string> hname; static std::set<int> announced;
static std::set<std::string> others; static std::map<std::pair<int, int>, std::vector<int>> kern; static std::set<std::pair<int, int>> twins; /* kernels of a program; of two variants of a program */ static std::string stamp_name; static int crashes = 0;

static void emit(J &j) { j.emit(); fflush(out_f); }
static std::vector<std::string> ls(const std::string &d) { std::vector<std::string> r; DIR *D = opendir(d.c_str()); if (!D) return r; while (dirent *e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(D); std::sort(r.begin(), r.end()); return r; }
static int hash_of(const std::string &f) { for (auto &x : hid) if (f.find(x.first) != std::string::npos && f.find(".tmp") == std::string::npos && !others.count(f)) return x.second; return -1; }
static std::string file_of(int h) { for (auto &f : ls(dir)) if (hash_of(f) == h) return dir + "/" + f; return ""; }
static void emit_ls(const char *after, int s) {
    J j; j.str("e", "ls").i("s", s).str("after", after); std::vector<ll> hs; int tmp = 0, unk = 0, lost = 0; std::set<std::string> seen; std::vector<ll> old; timespec now; clock_gettime(CLOCK_REALTIME, &now);
    for (auto &f : ls(dir)) { seen.insert(f); int h = hash_of(f); if (others.count(f) || f == stamp_name) continue; if (h >= 0) { hs.push_back(h); struct stat st; if (!stat((dir + "/" + f).c_str(), &st) && now.tv_sec - st.st_mtime > 25 * 3600) old.push_back(h); } else if (f.find(".tmp") != std::string::npos) ++tmp; else if (f.find(".bin") != std::string::npos) ++unk; else { if (stamp_name.empty()) stamp_name = f; else ++unk; } }
    for (auto &o : others) if (!seen.count(o)) ++lost;
    j.arr("h", hs).arr("old", old).i("tmp", tmp).i("unk", unk).i("lost", lost); emit(j);
}
static void set_age(const std::string &p, ll sec) { timespec t[2]; clock_gettime(CLOCK_REALTIME, &t[0]); t[0].tv_sec -= sec; t[1] = t[0]; utimensat(AT_FDCWD, p.c_str(), t, 0); }
static bool rd_line(FILE *f, std::string &s, int timeout_ms = 40000) {
    s.clear(); pollfd p{ fileno(f), POLLIN, 0 };
    for (;;) { int r = poll(&p, 1, timeout_ms); if (r <= 0) return false; char c; ssize_t n = ::read(fileno(f), &c, 1); if (n <= 0) return false; if (c == '\n') return true; s += c; }
}
static void reap(size_t k) { int st; fclose(live[k].to); fclose(live[k].from); close(live[k].err); waitpid(live[k].pid, &st, 0); live.erase(live.begin() + k); }

static void start() {
    Rng &g = *G; int a[2], b[2], c[2]; if (pipe(a) || pipe(b) || pipe(c)) exit(2);
    for (int k = 0; k < 2; ++k) { fcntl(a[k], F_SETFD, 0); }
    // state of the stamp file and time of last use of the entries
    int stamp = 2; ll maxsz = 0; bool sweep = false; J j; int id = next_id++;
    std::vector<std::pair<int, ll>> ages; ll total = 0; std::vector<std::string> before;
    std::vector<std::string> F = ls(dir);
    if (!stamp_name.empty()) {
        uint32_t w = g.below(10); std::string sp = dir + "/" + stamp_name;
        if (w < 3) { set_age(sp, 3 * 3600 + g.below(100000)); sweep = true; } else if (w == 3) { set_age(sp, -5000); sweep = true; } else if (w == 4) { remove(sp.c_str()); sweep = true; } else set_age(sp, g.below(3000));
        for (auto &f : F) { struct stat st; if (hash_of(f) >= 0 && !stat((dir + "/" + f).c_str(), &st) && S_ISREG(st.st_mode)) total += st.st_size; }
    } else sweep = true;
    if (g.chance(1, 2)) maxsz = 1 + total * (10 + g.below(130)) / 100;
    std::string sizes = "["; struct timespec now; clock_gettime(CLOCK_REALTIME, &now); bool firsts = true;
    if (sweep) { // a distinct age for every entry
        std::vector<ll> A; for (size_t k = 0; k < F.size(); ++k) A.push_back(k); for (size_t k = A.size(); k > 1; --k) std::swap(A[k - 1], A[g.below((uint32_t) k)]);
        size_t k = 0; for (auto &f : F) { struct stat st; std::string p = dir + "/" + f; if (hash_of(f) < 0 || stat(p.c_str(), &st) || !S_ISREG(st.st_mode)) continue; ll age = 60 + A[k++] * 7200; set_age(p, age);
            sizes += std::string(firsts ? "" : ",") + "[" + std::to_string(hash_of(f)) + "," + std::to_string((ll) st.st_size) + "," + std::to_string(age / 60) + "]"; firsts = false; }
    }
    sizes += "]";
    int how = g.below(3); std::string wd = g.chance(1, 5) ? "8" : "16";
    pid_t pid = fork();
    if (pid == 0) {
        dup2(a[0], 0); dup2(c[1], 2); dup2(b[1], 3); for (int k = 4; k < 100; ++k) close(k);
        if (how == 0) { setenv("HOME", root.c_str(), 1); unsetenv("DRJIT_CACHE_DIR"); } else { setenv("DRJIT_CACHE_DIR", how == 1 ? dir.c_str() : (dir + "/").c_str(), 1); setenv("HOME", "/nonexistent", 1); }
        setenv("DRJIT_CACHE_VERBOSE", "1", 1); setenv("DRV_WIDTH", wd.c_str(), 1);
        if (maxsz) setenv("DRJIT_CACHE_MAXSIZE", std::to_string(maxsz).c_str(), 1); else unsetenv("DRJIT_CACHE_MAXSIZE");
        execl(self_path.c_str(), self_path.c_str(), "--session", std::to_string(pseed).c_str(), nullptr); _exit(99);
    }
    close(a[0]); close(b[1]); close(c[1]);
    Session s{ id, pid, fdopen(a[1], "w"), fdopen(b[0], "r"), c[0], false, atoi(wd.c_str()) }; std::string r;
    bool ok = rd_line(s.from, r);
    live.push_back(s);
    bool swept = false;
    if (sweep) { std::string t; FILE *e = fdopen(dup(s.err), "r"); while (rd_line(e, t, 20000)) if (t.find("jit_cache_sweep") != std::string::npos) { swept = true; break; } fclose(e); }
    bool same = ok && (r == dir || r == dir + "/");
    j.str("e", "start").i("s", id).b("ok", same).b("sweep", sweep).b("swept", swept).i("max", maxsz ? maxsz : 1 << 30).raw("files", sizes).i("w", atoi(wd.c_str())); emit(j);
    emit_ls("start", id);
}

static void run_on(size_t k, bool fault) {
    Rng &g = *G; Session &s = live[k]; int p = g.below(16), fk = 0, fn = 0, fe = 0;
    if (fault) { fk = 1 + g.below(2); fn = 1 + g.below(12); static const int E[] = { EIO, ENOSPC, EACCES, EMFILE }; fe = E[g.below(4)]; }
    if (!announced.count(p)) { announced.insert(p); Program P = make_program(p); fputs((emit_prog(P, p) + "\n").c_str(), out_f); }
    fprintf(s.to, "run %d %d %d %d\n", p, fk, fn, fe); fflush(s.to);
    std::string r; J j; int id = s.id;
    if (!rd_line(s.from, r)) {
        int st = 0; kill(s.pid, SIGKILL); std::string t, e; { char buf[4000]; ssize_t n = ::read(s.err, buf, sizeof buf); if (n > 0) t.assign(buf, n); }
        fclose(s.to); fclose(s.from); close(s.err); waitpid(s.pid, &st, 0); live.erase(live.begin() + k);
        bool injected = WIFEXITED(st) && WEXITSTATUS(st) == 77; if (injected) ++crashes;
        j.str("e", "died").i("s", id).i("p", p).b("injected", injected).str("log", t.substr(0, 300)); emit(j);
    } else {
        for (size_t q = 0; (q = r.find("\"h\":\"", q)) != std::string::npos;) { std::string h = r.substr(q + 5, 32); if (!hid.count(h)) { hid[h] = ++next_hash; } r.replace(q, 5 + 32 + 1, "\"h\":" + std::to_string(hid[h])); q += 4; }
        std::vector<int> ks; for (size_t q = 0; (q = r.find("\"h\":", q)) != std::string::npos; q += 4) ks.push_back(atoi(r.c_str() + q + 4));
        kern[{ p, s.w }] = ks; auto it = kern.find({ p ^ 8, s.w }); if (it != kern.end()) for (size_t q = 0; q < ks.size() && q < it->second.size(); ++q) twins.insert({ std::min(ks[q], it->second[q]), std::max(ks[q], it->second[q]) });
        bool hit = r.find("\"f\":1") != std::string::npos; if (hit) s.faulty = true;
        j.str("e", "run").i("s", id).i("p", p).b("eacces", fe == EACCES).raw("r", r); emit(j);
    }
    emit_ls("run", id);
}

static std::map<std::string, int> origin; // contents of files -> kernel that they belong to
static void damage() {
    Rng &g = *G; std::vector<int> have; for (auto &f : ls(dir)) { int h = hash_of(f); struct stat st; if (h >= 0 && !stat((dir + "/" + f).c_str(), &st) && S_ISREG(st.st_mode) && st.st_size > 0) have.push_back(h); }
    if (have.empty()) return;
    int h = g.pick(have), h2 = g.pick(have); std::string f = file_of(h); J j; j.str("e", "damage").i("h", h);
    FILE *F = fopen(f.c_str(), "rb"); std::string c; { char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, F)) > 0) c.append(buf, n); } fclose(F);
    origin.insert({ c, h }); std::string o = c, kind; struct stat st; stat(f.c_str(), &st);
    switch (g.below(11)) {
        case 0: kind = "bit"; c[g.below((uint32_t) c.size())] ^= 1 << g.below(8); break;
        case 1: kind = "header"; c[g.below(33)] ^= 1 << g.below(8); break;
        case 2: kind = "truncate"; c.resize(g.below((uint32_t) c.size())); break;
        case 3: kind = "append"; c += std::string(1 + g.below(50), (char) g.below(256)); break;
        case 4: kind = "zeros"; { size_t a = g.below((uint32_t) c.size()); for (size_t q = a; q < c.size(); ++q) c[q] = 0; } break;
        case 5: kind = "remove"; break;
        case 6: kind = "directory"; break;
        case 7: case 9: case 10: { kind = "other"; std::string f2 = file_of(h2); if (g.chance(2, 3)) for (int q : have) if (q != h && twins.count({ std::min(q, h), std::max(q, h) })) f2 = file_of(q); c.clear(); FILE *F2 = fopen(f2.c_str(), "rb"); char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, F2)) > 0) c.append(buf, n); fclose(F2); origin.insert({ c, hash_of(f2) }); break; }
        case 8: kind = "random"; for (char &x : c) x = (char) g.next(); break;
    }
    if (kind != "remove" && kind != "directory" && (c == o || origin.count(c) && origin[c] == h)) return; // (undoing earlier damage is no damage)
    origin.insert({ c, -1 });
    unlink(f.c_str());
    if (kind == "directory") { mkdir(f.c_str(), 0755); }
    else if (kind != "remove") { FILE *W = fopen(f.c_str(), "wb"); fwrite(c.data(), 1, c.size(), W); fclose(W); }
    j.str("k", kind); emit(j);
}

int main(int argc, char **argv) {
    if (argc >= 3 && !strcmp(argv[1], "--session")) { pseed = strtoull(argv[2], nullptr, 0); return session(); }
    if (argc < 4) return 2;
    f_fds = new std::set<int>(); signal(SIGPIPE, SIG_IGN);
    uint64_t seed = strtoull(argv[2], nullptr, 0); int steps = atoi(argv[3]); pseed = seed; Rng g(seed); G = &g;
    drv_open(argv[1]);
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n] = 0; self_path = self;
    char cw[4096]; std::string tmpl = std::string(getcwd(cw, sizeof cw)) + "/cacheXXXXXX"; std::vector<char> t(tmpl.begin(), tmpl.end()); t.push_back(0); if (!mkdtemp(t.data())) return 2; root = t.data(); dir = root + "/.drjit";
    start();
    for (int k = 0; k < steps; ++k) {
        uint32_t w = g.below(100);
        if (live.empty()) { start(); continue; }
        size_t s = g.below((uint32_t) live.size());
        if (w < 8 && live.size() < 3) start();
        else if (w < 55) run_on(s, false);
        else if (w < 65) run_on(s, true);
        else if (w < 70) { fprintf(live[s].to, "flush\n"); fflush(live[s].to); std::string r; bool ok = rd_line(live[s].from, r); J j; j.str("e", "flush").i("s", live[s].id).b("ok", ok && r == "ok"); emit(j); }
        else if (w < 72) { std::string sp = dir + "/" + stamp_name; set_age(sp, 60); fprintf(live[s].to, "reinit\n"); fflush(live[s].to); std::string r; bool ok = rd_line(live[s].from, r); J j; j.str("e", "reinit").i("s", live[s].id).b("ok", ok && r == "ok"); emit(j); emit_ls("reinit", live[s].id); }
        else if (w < 78) { fprintf(live[s].to, "stop\n"); fflush(live[s].to); std::string r; bool ok = rd_line(live[s].from, r); J j; j.str("e", "stop").i("s", live[s].id).b("ok", ok && r == "ok"); int id = live[s].id; reap(s); emit(j); emit_ls("stop", id); }
        else if (w < 80) { J j; j.str("e", "kill").i("s", live[s].id); kill(live[s].pid, SIGKILL); reap(s); emit(j); }
        else if (w < 97) damage();
        else { std::string nm[] = { "notes.txt", "data.bin.bak", "README", "x.bin2" }; std::string o = nm[g.below(4)]; FILE *f = fopen((dir + "/" + o).c_str(), "w"); fputs("hello", f); fclose(f); others.insert(o); }
    }
    while (!live.empty()) { kill(live[0].pid, SIGKILL); reap(0); }
    J j; j.str("e", "end"); emit(j); fclose(out_f);
    if (root.find("/cache") != std::string::npos) { std::string c = "rm -rf '" + root + "'"; (void) !system(c.c_str()); }
    return 0;
}
