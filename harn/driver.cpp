// Command line driver: seeded exploration, replay, shrinking, self checks.
//
//   explore  profile:weight,... start count seconds workers [prop-filter]
//   gen      profile seed                      print the case file of a seed
//   run      file [-v]                         replay a case file (fresh process)
//   shrink   file out seconds workers          minimise a failing case file
#include "world.h"
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <atomic>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
using namespace harn;

struct Job
{
    Case c;
    u64 seed = 1;
    bool replay = false;
    std::vector<u32> rec[N_STREAMS];
};
struct Out
{
    int end = -1;
    std::string reason;
    u64 hash = 0, sched = 0, steps = 0, switches = 0, preempts = 0, simt = 0;
    struct V { std::string prop, cls, msg; };
    std::vector<V> viol;
    std::map<std::string, u64> faults, probes, stats;
    std::vector<u64> states;
    std::vector<u32> rec[N_STREAMS];
    std::vector<std::string> log;
};

static int g_fd = -1;
static bool g_want_rec = false;
static void put_all(const std::string& s)
{
    size_t o = 0;
    while(o < s.size())
    {
        ssize_t n = ::write(g_fd, s.data() + o, s.size() - o);
        if(n <= 0) { if(n < 0 && errno == EINTR) continue; break; }
        o += n;
    }
}
static std::string flat(std::string s) { for(char& c : s) if(c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
static void report(int code)
{
    std::string s;
    s += "end " + std::to_string(code) + "\n";
    if(!g_end_reason.empty()) s += "reason " + flat(g_end_reason) + "\n";
    char b[256];
    snprintf(b, sizeof b, "nums %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", log_hash(), g_sched_hash, steps(), g_switches, g_preempts, now() - 1000 * SEC);
    s += b;
    for(auto& v : violations()) s += "viol " + v.prop + "\t" + v.cls + "\t" + flat(v.msg) + "\n";
    for(int i = 0; i < N_FAULTS; ++i) if(g_fault_counts[i]) s += std::string("fault ") + fault_name(i) + " " + std::to_string(g_fault_counts[i]) + "\n";
    for(auto& p : g_probes) s += "probe " + p.first + " " + std::to_string(p.second) + "\n";
    for(auto& p : g_stats) s += "stat " + p.first + " " + std::to_string(p.second) + "\n";
    s += "states";
    for(u64 h : g_states) s += " " + std::to_string(h);
    s += "\n";
    if(g_want_rec || !violations().empty())
        for(int i = 0; i < N_STREAMS; ++i)
        {
            s += i ? "S" : "F";
            for(u32 x : recorded((Stream)i)) s += " " + std::to_string(x);
            s += "\n";
        }
    if(g_keep_log) for(auto& l : g_log) s += "log " + flat(l) + "\n";
    put_all(s);
}
static void on_abort(int code) { report(code); }

// the child's side
static void child(const Job& j, int fd, int alarm_s)
{
    g_fd = fd;
    g_on_abort = on_abort;
    alarm(alarm_s);
    RunSpec rs;
    rs.seed = j.seed;
    rs.replay = j.replay;
    for(int i = 0; i < N_STREAMS; ++i) rs.rec[i] = j.rec[i];
    run_begin(rs);
    run_body([&j] { run_case(j.c); });
    report(violations().empty() ? END_OK : END_VIOLATION);
    _exit(0);
}
static Out parse_out(const std::string& t, int status)
{
    Out o;
    std::istringstream is(t);
    std::string l;
    while(std::getline(is, l))
    {
        std::istringstream s(l);
        std::string k;
        s >> k;
        if(k == "end") s >> o.end;
        else if(k == "reason") o.reason = l.substr(7);
        else if(k == "nums") s >> o.hash >> o.sched >> o.steps >> o.switches >> o.preempts >> o.simt;
        else if(k == "viol")
        {
            std::string r = l.substr(5);
            size_t a = r.find('\t'), b = r.find('\t', a + 1);
            o.viol.push_back({r.substr(0, a), r.substr(a + 1, b - a - 1), r.substr(b + 1)});
        }
        else if(k == "fault" || k == "probe" || k == "stat") { std::string n; u64 v; s >> n >> v; (k == "fault" ? o.faults : k == "probe" ? o.probes : o.stats)[n] = v; }
        else if(k == "states") { u64 v; while(s >> v) o.states.push_back(v); }
        else if(k == "F" || k == "S") { u32 v; auto& d = o.rec[k == "F" ? 0 : 1]; while(s >> v) d.push_back(v); }
        else if(k == "log") o.log.push_back(l.substr(4));
    }
    if(o.end < 0)
    {
        o.end = END_HARNESS;
        if(WIFSIGNALED(status)) o.reason = WTERMSIG(status) == SIGALRM ? "wall-clock limit" : "killed by signal " + std::to_string(WTERMSIG(status));
        else o.reason = "no result";
        if(WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) o.end = END_LIMIT;
    }
    return o;
}

struct Slot { pid_t pid; int fd; std::string buf; u64 tag; std::shared_ptr<Job> job; };
struct Pool
{
    std::vector<Slot> s;
    int alarm_s = 60;
    void start(std::shared_ptr<Job> j, u64 tag)
    {
        int p[2];
        if(pipe(p)) { perror("pipe"); exit(3); }
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if(pid < 0) { perror("fork"); exit(3); }
        if(pid == 0)
        {
            close(p[0]);
            for(auto& x : s) close(x.fd);
            child(*j, p[1], alarm_s);
        }
        close(p[1]);
        s.push_back({pid, p[0], "", tag, j});
    }
    // waits for one to finish; raw text and exit status
    bool next_raw(std::string& text, int& st, u64& tag, std::shared_ptr<Job>& job)
    {
        while(!s.empty())
        {
            std::vector<pollfd> pf;
            for(auto& x : s) pf.push_back({x.fd, POLLIN, 0});
            if(poll(pf.data(), pf.size(), 100000) < 0 && errno != EINTR) { perror("poll"); exit(3); }
            for(size_t i = 0; i < pf.size(); ++i)
            {
                if(!pf[i].revents) continue;
                char b[65536];
                ssize_t n = ::read(s[i].fd, b, sizeof b);
                if(n > 0) { s[i].buf.append(b, n); continue; }
                if(n < 0 && errno == EINTR) continue;
                close(s[i].fd);
                while(waitpid(s[i].pid, &st, 0) < 0 && errno == EINTR) {}
                text = std::move(s[i].buf);
                tag = s[i].tag;
                job = s[i].job;
                s.erase(s.begin() + i);
                return true;
            }
        }
        return false;
    }
    bool next(Out& o, u64& tag, std::shared_ptr<Job>& job)
    {
        std::string t;
        int st = 0;
        if(!next_raw(t, st, tag, job)) return false;
        o = parse_out(t, st);
        return true;
    }
    void kill_all() { for(auto& x : s) { kill(x.pid, SIGKILL); close(x.fd); int st; waitpid(x.pid, &st, 0); } s.clear(); }
};
static Out run_one(const Job& j, bool want_rec, bool log)
{
    bool a = g_want_rec, b = g_keep_log;
    g_want_rec = want_rec;
    g_keep_log = log;
    Pool p;
    p.start(std::make_shared<Job>(j), 0);
    g_want_rec = a;
    g_keep_log = b;
    Out o;
    u64 t;
    std::shared_ptr<Job> jj;
    p.next(o, t, jj);
    return o;
}

// ------------------------------------------------------------- case files --
static std::string case_text(const Job& j, const std::string& head)
{
    std::ostringstream s;
    s << head;
    s << "profile " << profile_name((int)j.c.cfg.profile) << "\n";
    s << "seed " << j.seed << "\n";
    for(auto& f : cfg_fields()) if(j.c.cfg.*f.p != f.def && std::string(f.name) != "profile") s << "cfg " << f.name << " " << j.c.cfg.*f.p << "\n";
    for(auto& o : j.c.ops)
    {
        s << "op " << o.lane << " " << op_name(o.kind);
        for(i64 a : o.a) s << " " << a;
        s << "\n";
    }
    if(j.replay)
        for(int i = 0; i < N_STREAMS; ++i)
        {
            // runs of zeros (benign choices) are written as *count
            s << (i ? "S" : "F");
            size_t z = 0;
            auto flush = [&] { if(z == 1) s << " 0"; else if(z) s << " *" << z; z = 0; };
            for(u32 x : j.rec[i]) { if(!x) { ++z; continue; } flush(); s << " " << x; }
            flush();
            s << "\n";
        }
    return s.str();
}
struct File { Job j; std::map<std::string, std::string> head; };
static int profile_id(const std::string& n) { for(int p = 0; p < N_PROFILES; ++p) if(n == profile_name(p)) return p; fprintf(stderr, "unknown profile %s\n", n.c_str()); exit(3); }
static File read_file(const char* path)
{
    File f;
    std::ifstream is(path);
    if(!is) { fprintf(stderr, "cannot read %s\n", path); exit(3); }
    std::string l;
    while(std::getline(is, l))
    {
        if(l.empty() || l[0] == '#') continue;
        std::istringstream s(l);
        std::string k;
        s >> k;
        if(k == "profile") { std::string n; s >> n; f.j.c.cfg.profile = profile_id(n); }
        else if(k == "seed") s >> f.j.seed;
        else if(k == "cfg") { std::string n; i64 v; s >> n >> v; for(auto& c : cfg_fields()) if(n == c.name) f.j.c.cfg.*c.p = v; }
        else if(k == "op")
        {
            Op o;
            std::string n;
            s >> o.lane >> n;
            o.kind = -1;
            for(int i = 0; i < N_OPS; ++i) if(n == op_name(i)) o.kind = i;
            if(o.kind < 0) { fprintf(stderr, "unknown op %s\n", n.c_str()); exit(3); }
            i64 v;
            while(s >> v) o.a.push_back(v);
            f.j.c.ops.push_back(o);
        }
        else if(k == "F" || k == "S")
        {
            f.j.replay = true;
            auto& d = f.j.rec[k == "F" ? 0 : 1];
            std::string t;
            while(s >> t)
            {
                if(t[0] == '*') d.resize(d.size() + strtoull(t.c_str() + 1, nullptr, 10), 0);
                else d.push_back((u32)strtoul(t.c_str(), nullptr, 10));
            }
        }
        else { std::string r; std::getline(s, r); f.head[k] = r.empty() ? "" : r.substr(1); }
    }
    return f;
}
static std::string head_text(const std::string& prop, const std::string& cls, u64 hash, const std::string& msg)
{
    char b[32];
    snprintf(b, sizeof b, "%016" PRIx64, hash);
    return "property " + prop + "\nclass " + cls + "\nhash " + b + "\nmessage " + msg + "\n";
}
static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static double wall()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static u64 run_seed(int profile, u64 seed) { return mix64(mix64(0xabcdef, profile), seed); }

static volatile sig_atomic_t g_stop = 0;
static void on_term(int) { g_stop = 1; }

static int explore(int argc, char** argv)
{
    signal(SIGTERM, on_term);
    const bool hashes_out = getenv("SIM_HASHES");

    // profile:weight,...
    std::vector<int> cyc;
    {
        std::istringstream s(argv[2]);
        std::string t;
        std::vector<std::pair<int, int>> w;
        while(std::getline(s, t, ','))
        {
            size_t c = t.find(':');
            w.push_back({profile_id(t.substr(0, c)), c == std::string::npos ? 1 : atoi(t.c_str() + c + 1)});
        }
        for(int r = 0;; ++r) { bool any = false; for(auto& x : w) if(r < x.second) { cyc.push_back(x.first); any = true; } if(!any) break; }
    }
    u64 start = strtoull(argv[3], nullptr, 10), count = strtoull(argv[4], nullptr, 10);
    double secs = atof(argv[5]);
    int workers = atoi(argv[6]);
    std::string dir = argc > 7 ? argv[7] : "";
    std::set<std::string> want;      // stop early once every wanted property/class was seen; empty: never
    double t0 = wall();
    // several runner processes draw run numbers from a shared counter and fork
    // one child per run; this process only collects
    struct Shared { std::atomic<u64> next{0}; std::atomic<int> stop{0}; };
    auto* sh = new(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared;
    auto make_job = [&](u64 n) {
        auto j = std::make_shared<Job>();
        int prof = cyc[n % cyc.size()];
        j->c = generate(prof, start + n);
        j->seed = run_seed(prof, start + n);
        return j;
    };
    struct Runner { pid_t pid; int fd; std::string buf; };
    std::vector<Runner> runners;
    fflush(stdout);
    fflush(stderr);
    for(int w = 0; w < workers; ++w)
    {
        int pp[2];
        if(pipe(pp)) { perror("pipe"); exit(3); }
        pid_t pid = fork();
        if(pid < 0) { perror("fork"); exit(3); }
        if(pid == 0)
        {
            signal(SIGTERM, SIG_DFL);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(pp[0]);
            for(auto& r : runners) close(r.fd);
            while(!sh->stop && wall() - t0 < secs)
            {
                u64 n = sh->next++;
                if(n >= count) break;
                Pool p;
                p.start(make_job(n), n);
                std::string t;
                int st = 0;
                u64 tag;
                std::shared_ptr<Job> j;
                if(!p.next_raw(t, st, tag, j)) _exit(3);
                u64 head[3] = {n, (u64)st, t.size()};
                g_fd = pp[1];
                put_all(std::string((char*)head, sizeof head) + t);
            }
            _exit(0);
        }
        close(pp[1]);
        runners.push_back({pid, pp[0], ""});
    }
    u64 done = 0, clean = 0, limits = 0, harness = 0;
    std::map<std::string, u64> faults, frun, probes, stats, perprof;
    std::unordered_set<u64> hashes, scheds, states;
    u64 steps = 0, switches = 0, preempts = 0;
    double simt = 0;
    std::map<std::string, u64> vcount;
    std::map<std::string, std::pair<u64, size_t>> kept;   // class -> (count, smallest)
    std::vector<std::string> reasons;
    bool broken = false;
    auto fetch = [&](std::string& text, u64& n, int& st) {
        for(;;)
        {
            if(g_stop) sh->stop = 1;
            std::vector<pollfd> pf;
            for(auto& r : runners)
            {
                u64 head[3];
                if(r.buf.size() >= sizeof head)
                {
                    memcpy(head, r.buf.data(), sizeof head);
                    if(r.buf.size() >= sizeof head + head[2])
                    {
                        n = head[0];
                        st = (int)head[1];
                        text = r.buf.substr(sizeof head, head[2]);
                        r.buf.erase(0, sizeof head + head[2]);
                        return true;
                    }
                }
                pf.push_back({r.fd, POLLIN, 0});
            }
            if(runners.empty()) return false;
            if(poll(pf.data(), pf.size(), 200) < 0 && errno != EINTR) { perror("poll"); exit(3); }
            for(size_t i = pf.size(); i-- > 0;)
            {
                if(!pf[i].revents) continue;
                char b[65536];
                ssize_t k = ::read(runners[i].fd, b, sizeof b);
                if(k > 0) { runners[i].buf.append(b, k); continue; }
                if(k < 0 && errno == EINTR) continue;
                int rs = 0;
                close(runners[i].fd);
                while(waitpid(runners[i].pid, &rs, 0) < 0 && errno == EINTR) {}
                if(rs || !runners[i].buf.empty()) broken = true;
                runners.erase(runners.begin() + i);
            }
        }
    };
    for(;;)
    {
        u64 num = 0, tag;
        int st = 0;
        std::string text;
        if(!fetch(text, num, st)) break;
        Out o = parse_out(text, st);
        tag = start + num;
        int prof = cyc[num % cyc.size()];
        std::shared_ptr<Job> j;
        if(o.end == END_LIMIT || o.end == END_HARNESS || !o.viol.empty()) j = make_job(num);
        perprof[profile_name(prof)]++;
        ++done;
        if(hashes_out) printf("{\"type\":\"hash\",\"seed\":%" PRIu64 ",\"hash\":\"%016" PRIx64 "%016" PRIx64 "%" PRIu64 "\"}\n", tag, o.hash, o.sched, o.steps);
        steps += o.steps; switches += o.switches; preempts += o.preempts; simt += o.simt / 1e9;
        hashes.insert(o.hash);
        scheds.insert(o.sched);
        for(u64 h : o.states) states.insert(h);
        for(auto& x : o.faults) { faults[x.first] += x.second; frun[x.first]++; }
        for(auto& x : o.probes) probes[x.first] += x.second;
        for(auto& x : o.stats) stats[x.first] += x.second;
        if(o.end == END_LIMIT) ++limits;
        if(o.end == END_HARNESS) ++harness;
        if(o.end == END_LIMIT || o.end == END_HARNESS) { if(reasons.size() < 10) reasons.push_back(std::string(profile_name((int)j->c.cfg.profile)) + " seed " + std::to_string(tag) + ": " + o.reason); }
        if(o.viol.empty()) { ++clean; continue; }
        // every violation of the run becomes a finding; one file per class, the shortest few
        for(auto& v : o.viol)
        {
            std::string key = v.prop + "/" + v.cls;
            u64 n = ++vcount[key];
            if(n > 6) continue;
            std::string path;
            if(!dir.empty())
            {
                Job r = *j;
                r.replay = true;
                for(int i = 0; i < N_STREAMS; ++i) r.rec[i] = o.rec[i];
                path = dir + "/" + v.cls + "-" + std::to_string(n) + ".case";
                for(char& c : path) if(c == ',' || c == ' ' || c == '*') c = '_';
                std::ofstream(path) << case_text(r, head_text(v.prop, v.cls, o.hash, v.msg));
            }
            printf("{\"type\":\"violation\",\"prop\":%s,\"cls\":%s,\"msg\":%s,\"profile\":\"%s\",\"seed\":%" PRIu64 ",\"n\":%" PRIu64 ",\"choices\":%zu,\"hash\":\"%016" PRIx64 "\",\"file\":%s}\n",
                   json_str(v.prop).c_str(), json_str(v.cls).c_str(), json_str(v.msg).c_str(), profile_name((int)j->c.cfg.profile), tag, n, o.rec[0].size() + o.rec[1].size(), o.hash, json_str(path).c_str());
            fflush(stdout);
        }
    }
    auto map_json = [](const std::map<std::string, u64>& m) {
        std::string s = "{";
        for(auto& x : m) s += (s.size() > 1 ? "," : "") + json_str(x.first) + ":" + std::to_string(x.second);
        return s + "}";
    };
    if(broken) { fprintf(stderr, "a runner process ended unexpectedly\n"); return 3; }
    std::string rs = "[";
    for(auto& r : reasons) rs += (rs.size() > 1 ? "," : "") + json_str(r);
    rs += "]";
    printf("{\"type\":\"summary\",\"runs\":%" PRIu64 ",\"clean\":%" PRIu64 ",\"limits\":%" PRIu64 ",\"harness_errors\":%" PRIu64 ",\"reasons\":%s,\"wall_s\":%.3f,\"simulated_s\":%.3f,\"steps\":%" PRIu64 ",\"switches\":%" PRIu64 ",\"preemptions\":%" PRIu64
           ",\"distinct_histories\":%zu,\"distinct_interleavings\":%zu,\"distinct_states\":%zu,\"profiles\":%s,\"faults\":%s,\"fault_runs\":%s,\"probes\":%s,\"stats\":%s,\"violations\":%s,\"first_seed\":%" PRIu64 "}\n",
           done, clean, limits, harness, rs.c_str(), wall() - t0, simt, steps, switches, preempts, hashes.size(), scheds.size(), states.size(), map_json(perprof).c_str(), map_json(faults).c_str(), map_json(frun).c_str(), map_json(probes).c_str(), map_json(stats).c_str(), map_json(vcount).c_str(), start);
    return 0;
}

// ---------------------------------------------------------------- shrink ---
static std::string g_prop, g_cls;
static const Out::V* hit(const Out& o)
{
    for(auto& v : o.viol) if(v.prop == g_prop && v.cls == g_cls) return &v;
    return nullptr;
}
static size_t weight(const Job& j)
{
    size_t n = 0;
    for(int i = 0; i < N_STREAMS; ++i) for(u32 x : j.rec[i]) if(x) ++n;
    size_t c = 0;
    for(auto& f : cfg_fields()) if(j.c.cfg.*f.p != f.def) ++c;
    size_t a = 0;
    for(auto& o : j.c.ops) if(!o.a.empty() && o.a[0]) ++a;
    return j.c.ops.size() * 1000 + n * 4 + c * 20 + a * 3 + (j.rec[0].size() + j.rec[1].size()) / 64;
}
static void trim(Job& j) { for(auto& r : j.rec) while(!r.empty() && !r.back()) r.pop_back(); }
struct Shrinker
{
    Job best;
    Out bestout;
    double deadline;
    int workers;
    u64 tried = 0;
    bool over() { return wall() > deadline; }
    // tries candidates in parallel batches; adopts the first that still fails
    bool adopt(std::vector<Job>& cand)
    {
        g_want_rec = true;
        for(size_t i = 0; i < cand.size() && !over(); i += workers)
        {
            Pool p;
            p.alarm_s = 20;
            size_t e = std::min(cand.size(), i + workers);
            for(size_t k = i; k < e; ++k) p.start(std::make_shared<Job>(cand[k]), k);
            std::map<u64, Out> res;
            Out o;
            u64 tag;
            std::shared_ptr<Job> jj;
            while(p.next(o, tag, jj)) res[tag] = o;
            tried += e - i;
            for(auto& r : res)
                if(hit(r.second))
                {
                    Job n = cand[r.first];
                    for(int s = 0; s < N_STREAMS; ++s) n.rec[s] = r.second.rec[s];
                    trim(n);
                    if(weight(n) >= weight(best)) continue;
                    best = n;
                    bestout = r.second;
                    return true;
                }
        }
        return false;
    }
    bool ops()
    {
        bool any = false;
        for(size_t chunk = std::max<size_t>(1, best.c.ops.size() / 2); chunk >= 1 && !over(); chunk /= 2)
        {
            for(bool again = true; again && !over();)
            {
                again = false;
                std::vector<Job> cand;
                for(size_t i = 0; i < best.c.ops.size(); i += chunk)
                {
                    Job n = best;
                    n.c.ops.erase(n.c.ops.begin() + i, n.c.ops.begin() + std::min(n.c.ops.size(), i + chunk));
                    cand.push_back(n);
                }
                std::reverse(cand.begin(), cand.end());
                if(adopt(cand)) again = any = true;
            }
            if(chunk == 1) break;
        }
        return any;
    }
    bool cfg()
    {
        bool any = false;
        {
            Job n = best;
            for(auto& f : cfg_fields()) if(strcmp(f.name, "profile") && strcmp(f.name, "salt")) n.c.cfg.*f.p = f.def;
            std::vector<Job> c{n};
            if(adopt(c)) return true;
        }
        for(bool again = true; again && !over();)
        {
            again = false;
            std::vector<Job> cand;
            for(auto& f : cfg_fields())
                if(strcmp(f.name, "profile") && best.c.cfg.*f.p != f.def) { Job n = best; n.c.cfg.*f.p = f.def; cand.push_back(n); }
            if(adopt(cand)) again = any = true;
        }
        return any;
    }
    bool choices(int s)
    {
        bool any = false;
        {
            std::vector<Job> c;
            Job n = best;
            n.rec[s].clear();
            c.push_back(n);
            for(size_t d : {2, 4, 8}) { Job m = best; m.rec[s].resize(m.rec[s].size() / d); c.push_back(m); }
            if(adopt(c)) any = true;
        }
        for(size_t chunk = std::max<size_t>(1, best.rec[s].size() / 2); chunk >= 1 && !over(); chunk /= 2)
        {
            if(best.rec[s].size() / chunk > 400) break;
            for(bool again = true; again && !over();)
            {
                again = false;
                std::vector<Job> cand;
                for(size_t i = 0; i < best.rec[s].size(); i += chunk)
                {
                    Job n = best;
                    bool ch = false;
                    for(size_t k = i; k < std::min(i + chunk, n.rec[s].size()); ++k) if(n.rec[s][k]) { n.rec[s][k] = 0; ch = true; }
                    if(ch) cand.push_back(n);
                }
                if(adopt(cand)) again = any = true;
            }
            if(chunk == 1) break;
        }
        return any;
    }
    bool delays()
    {
        bool any = false;
        for(bool again = true; again && !over();)
        {
            again = false;
            std::vector<Job> cand;
            Job z = best;
            bool zz = false;
            for(auto& o : z.c.ops) if(!o.a.empty() && o.a[0]) { o.a[0] = 0; zz = true; }
            if(zz) cand.push_back(z);
            for(size_t i = 0; i < best.c.ops.size(); ++i) if(!best.c.ops[i].a.empty() && best.c.ops[i].a[0]) { Job n = best; n.c.ops[i].a[0] = 0; cand.push_back(n); }
            if(adopt(cand)) again = any = true;
        }
        return any;
    }
};
static int shrink(int, char** argv)
{
    File f = read_file(argv[2]);
    g_prop = f.head["property"];
    g_cls = f.head["class"];
    Shrinker s;
    s.best = f.j;
    s.workers = atoi(argv[5]);
    double t0 = wall();
    s.deadline = t0 + atof(argv[4]);
    s.bestout = run_one(s.best, true, false);
    if(!hit(s.bestout)) { fprintf(stderr, "shrink: the case does not reproduce\n"); return 4; }
    trim(s.best);
    size_t w0 = weight(s.best);
    for(bool more = true; more && !s.over();)
    {
        more = false;
        size_t w = weight(s.best);
        s.ops();
        s.choices(1);
        s.cfg();
        s.choices(0);
        s.delays();
        if(weight(s.best) < w) more = true;
    }
    Out o = run_one(s.best, true, true);
    const Out::V* v = hit(o);
    if(!v) { fprintf(stderr, "shrink: the minimised case does not reproduce\n"); return 4; }
    std::string t = case_text(s.best, head_text(v->prop, v->cls, o.hash, v->msg));
    t += "# minimised from weight " + std::to_string(w0) + " to " + std::to_string(weight(s.best)) + " in " + std::to_string(s.tried) + " attempts\n# trace of the violating run (simulated seconds, event, thread):\n";
    size_t from = o.log.size() > 400 ? o.log.size() - 400 : 0;
    for(size_t i = from; i < o.log.size(); ++i) t += "# " + o.log[i] + "\n";
    std::ofstream(argv[3]) << t;
    return 0;
}

int main(int argc, char** argv)
{
    // addresses must not differ between processes
    int pers = personality(0xffffffff);
    if(!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIMBIN_REEXEC"))
    {
        setenv("SIMBIN_REEXEC", "1", 1);
        if(personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    signal(SIGPIPE, SIG_IGN);
    std::string cmd = argc > 1 ? argv[1] : "";
    if(cmd == "explore" && argc > 6) return explore(argc, argv);
    if(cmd == "gen" && argc > 3)
    {
        Job j;
        int p = profile_id(argv[2]);
        j.c = generate(p, strtoull(argv[3], nullptr, 10));
        j.seed = run_seed(p, strtoull(argv[3], nullptr, 10));
        fputs(case_text(j, "").c_str(), stdout);
        return 0;
    }
    if(cmd == "run" && argc > 2)
    {
        File f = read_file(argv[2]);
        bool verbose = argc > 3 && !strcmp(argv[3], "-v");
        Out o = run_one(f.j, true, verbose);
        if(verbose) for(auto& l : o.log) printf("%s\n", l.c_str());
        for(auto& v : o.viol) printf("violation %s\t%s\t%s\n", v.prop.c_str(), v.cls.c_str(), v.msg.c_str());
        printf("end %d %s\nhash %016" PRIx64 "\nsched %016" PRIx64 "\nsteps %" PRIu64 " choices %zu %zu\n", o.end, o.reason.c_str(), o.hash, o.sched, o.steps, o.rec[0].size(), o.rec[1].size());
        return o.viol.empty() ? (o.end == END_OK ? 0 : 2) : 1;
    }
    if(cmd == "shrink" && argc > 5) return shrink(argc, argv);
    fprintf(stderr, "usage: simbin explore|gen|run|shrink ...\n");
    return 3;
}
