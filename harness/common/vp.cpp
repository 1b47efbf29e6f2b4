#include "vp.hpp"

#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <ctime>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:"
           "detect_stack_use_after_return=1:allocator_may_return_null=1:"
           "strict_string_checks=1";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:history_size=4";
}

#if defined(VP_ASAN) || defined(VP_TSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vp
{
namespace
{
int64_t realMono() // never the virtual clock
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec;
}
uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9e3779b97f4a7c15ull ^ b);
    r.u64();
    return r.u64();
}
uint64_t strHash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (char c : s) h = (h ^ uint8_t(c)) * 1099511628211ull;
    return h;
}
std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else o += char(ch);
    }
    return o;
}

struct Shared // between a child and its parent
{
    volatile uint64_t current; // index of the running case
    volatile uint64_t started; // real time of its start
    volatile int allowExit;    // status + 1
    volatile int ended;        // the child came to its own end
};
Shared* sh = nullptr;
std::map<std::string, uint64_t> counts; // child side
std::string scratchRoot;

struct Opt
{
    uint64_t seed = 1;
    bool thorough = false;
    int shard = 0, nshards = 1;
    std::string only, out, known;
    int64_t from = -1, to = -1;
    double scale = 1;
    int hang = 60;
    bool verbose = false, fatalOnly = false;
} opt;

struct Result // parent side, per scenario
{
    uint64_t evals = 0;
    std::set<uint64_t> distinct;
    uint64_t distinctTotal = 0;
    std::map<std::string, uint64_t> counts;
    std::vector<std::string> samples;
    double secs = 0;
};
struct Viol
{
    std::string scenario, key, msg, log, kind;
    uint64_t index, from;
    bool confirmed = false;
};

// what the case was about, for the report of one that does not come back
Case* current = nullptr;
constexpr const char* CASE_MARK = "\n##the case##\n";
void lastCase()
{
    if (!current) return;
    std::string l = CASE_MARK + current->log.str();
    current = nullptr;
    if (l.size() > 40000) l = l.substr(0, 20000) + "\n...\n" + l.substr(l.size() - 20000);
    (void)!::write(2, l.data(), l.size());
}
std::string caseLog(const std::string& path)
{
    std::string t = readFile(path);
    auto p = t.find(CASE_MARK);
    return p == std::string::npos ? "" : t.substr(p + strlen(CASE_MARK));
}

void put(int fd, const std::string& tag, const std::string& body)
{
    std::string m = tag + " " + std::to_string(body.size()) + "\n" + body;
    size_t off = 0;
    while (off < m.size())
    {
        ssize_t n = ::write(fd, m.data() + off, m.size() - off);
        if (n <= 0) _exit(41);
        off += size_t(n);
    }
}

[[noreturn]] void child(const Scenario& s, const std::vector<uint64_t>& idx,
                        int fd, const std::set<std::string>& known)
{
    bool leave = false;
#if defined(VP_ASAN) || defined(VP_TSAN)
    __sanitizer_set_death_callback(lastCase);
    // each runtime has a callback of its own
    if (void* h = dlopen("libubsan.so.1", RTLD_NOW | RTLD_NOLOAD))
        if (auto* f = reinterpret_cast<void (*)(void (*)(void))>(dlsym(h, "__sanitizer_set_death_callback"))) f(lastCase);
#endif
    std::atexit(lastCase);
    for (uint64_t i : idx)
    {
        sh->current = i;
        sh->started = uint64_t(realMono());
        sh->allowExit = 0;
        Case c(mix(mix(opt.seed, strHash(s.name)), i));
        c.scenario = s.name;
        c.index = i;
        c.thorough = opt.thorough;
        c.scratch = scratchRoot + "/c" + std::to_string(i);
        // what a case that ended early left behind
        {
            std::error_code ec;
            std::filesystem::remove_all(c.scratch, ec);
        }
        std::string viol, key;
        int rc = 0;
        current = &c;
        try
        {
            s.fn(c);
        }
        catch (const Violation& v)
        {
            viol = v.msg;
            key = v.key;
            rc = 40;
        }
        catch (const HarnessError& e)
        {
            put(fd, "H", std::string(e.what()) + "\n" + c.log.str());
            _exit(41);
        }
        catch (const std::exception& e)
        {
            viol = std::string("an exception escaped: ") + e.what();
            key = "exception";
            rc = 40;
        }
        current = nullptr;
        clock::enable(false);
        fsjail::clear();
        if (rc == 40)
        {
            if (known.count(key))
            {
                put(fd, "K", key + "\n" + viol);
                rc = 0;
            }
            else if (opt.fatalOnly && std::strncmp(s.name, "soak", 4))
            {
                // for another check to judge; here only that it goes on
                put(fd, "E", "0 0");
                sh->ended = 1;
                _exit(0);
            }
            else
            {
                put(fd, "V", key + "\n" + std::to_string(viol.size()) + "\n" + viol +
                                 c.log.str());
                _exit(40);
            }
        }
        std::string line = std::to_string(c.hash) + " " + (c.nontriv ? "1" : "0");
        put(fd, "E", line);
        if (i < 3 && c.log.tellp() > 0) put(fd, "S", c.log.str().substr(0, 4000));
        std::error_code ec;
        if (std::filesystem::exists(c.scratch, ec))
            std::filesystem::remove_all(c.scratch, ec);
        leave = leave || c.leaveByExit;
    }
    std::string cs;
    for (auto& [k, v] : counts) cs += k + "\t" + std::to_string(v) + "\n";
    put(fd, "C", cs);
    sh->ended = 1;
    if (leave) exit(0);
    _exit(0);
}

struct Outcome
{
    int status = 0;
    bool hung = false;
    bool viol = false, harness = false;
    std::string key, msg, log, harnessMsg;
    uint64_t at = 0;
    int allowExit = 0;
    bool ended = false;
};

std::string errTail(const std::string& path)
{
    std::string t = readFile(path);
    t.resize(std::min(t.size(), t.find(CASE_MARK)));
    auto p = t.find("==ERROR");
    auto q = t.find("runtime error:");
    auto w = t.find("WARNING: ThreadSanitizer");
    auto g = t.find("Assertion '");
    for (auto x : {q, w, g}) p = std::min(p, x);
    if (p != std::string::npos)
    {
        p = p > 300 ? p - 300 : 0;
        return t.substr(p, 6000);
    }
    return t.size() > 3000 ? t.substr(t.size() - 3000) : t;
}

Outcome batch(const Scenario& s, const std::vector<uint64_t>& idx, Result* res,
              const std::set<std::string>& known, std::set<std::string>* knownHit,
              const std::string& errPath, int hangSecs)
{
    int p[2];
    if (pipe(p)) throw HarnessError("pipe");
    sh->current = idx[0];
    sh->started = uint64_t(realMono());
    sh->allowExit = 0;
    sh->ended = 0;
    pid_t pid = fork();
    if (pid < 0) throw HarnessError("fork");
    if (pid == 0)
    {
        ::close(p[0]);
        setpgid(0, 0);
        if (!opt.verbose)
        {
            int e = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            dup2(e, 2);
            dup2(e, 1);
        }
        fcntl(p[1], F_SETFD, FD_CLOEXEC);
        child(s, idx, p[1], known);
    }
    ::close(p[1]);
    Outcome o;
    std::string buf;
    bool eof = false;
    auto parse = [&] {
        for (;;)
        {
            auto nl = buf.find('\n');
            if (nl == std::string::npos) return;
            size_t len = std::stoull(buf.substr(2, nl - 2));
            if (buf.size() < nl + 1 + len) return;
            char tag = buf[0];
            std::string body = buf.substr(nl + 1, len);
            buf.erase(0, nl + 1 + len);
            if (tag == 'E' && res)
            {
                res->evals++;
                auto sp = body.find(' ');
                if (body[sp + 1] == '1') res->distinct.insert(std::stoull(body.substr(0, sp)));
            }
            else if (tag == 'S' && res)
            {
                if (res->samples.size() < 3) res->samples.push_back(body);
            }
            else if (tag == 'C' && res)
            {
                std::istringstream is(body);
                std::string l;
                while (std::getline(is, l))
                {
                    auto t = l.find('\t');
                    res->counts[l.substr(0, t)] += std::stoull(l.substr(t + 1));
                }
            }
            else if (tag == 'K')
            {
                if (knownHit) knownHit->insert(body.substr(0, body.find('\n')));
            }
            else if (tag == 'V')
            {
                o.viol = true;
                auto n1 = body.find('\n');
                o.key = body.substr(0, n1);
                auto n2 = body.find('\n', n1 + 1);
                size_t l = std::stoull(body.substr(n1 + 1, n2 - n1 - 1));
                o.msg = body.substr(n2 + 1, l);
                o.log = body.substr(n2 + 1 + l);
            }
            else if (tag == 'H')
            {
                o.harness = true;
                o.harnessMsg = body;
            }
        }
    };
    while (!eof)
    {
        pollfd pf{p[0], POLLIN, 0};
        int r = poll(&pf, 1, 500);
        if (r > 0)
        {
            char b[65536];
            ssize_t n = read(p[0], b, sizeof b);
            if (n <= 0) eof = true;
            else buf.append(b, size_t(n));
            parse();
        }
        if (!eof && realMono() - int64_t(sh->started) > int64_t(hangSecs) * 1000000000)
        {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            o.hung = true;
            break;
        }
    }
    ::close(p[0]);
    waitpid(pid, &o.status, 0);
    kill(-pid, SIGKILL); // anything it left behind
    o.at = sh->current;
    o.allowExit = sh->allowExit;
    o.ended = sh->ended;
    return o;
}

// nullopt-like: kind empty when nothing is wrong
std::string classify(const Outcome& o, const std::string& errPath, Viol& v)
{
    v.index = o.at;
    if (!o.viol) v.log = caseLog(errPath);
    if (o.hung)
    {
        v.key = "hang";
        v.msg = "the code under test did not finish this case";
        return "hang";
    }
    if (o.harness) return "harness";
    if (o.viol)
    {
        v.key = o.key;
        v.msg = o.msg;
        v.log = o.log;
        return "oracle";
    }
    if (WIFEXITED(o.status))
    {
        int st = WEXITSTATUS(o.status);
        if (st == 0 && o.ended) return "";
        if (o.allowExit && st == o.allowExit - 1) return "";
        if (st == 41) return "harness";
        v.key = st == 99 ? "sanitizer" : "exit";
        v.msg = st == 99 ? "sanitizer report:\n" + errTail(errPath)
                         : "the process ended by itself with status " + std::to_string(st) +
                               ":\n" + errTail(errPath);
        return "crash";
    }
    v.key = "signal";
    v.msg = "killed by signal " + std::to_string(WTERMSIG(o.status)) + ":\n" + errTail(errPath);
    // out of memory kills come from outside
    if (WTERMSIG(o.status) == SIGKILL) return "harness";
    return "crash";
}
} // namespace

void Case::count(const std::string& what, uint64_t n)
{
    counts[what] += n;
}
const std::string& Case::dir()
{
    if (!confined)
    {
        mkdirs(scratch);
        fsjail::confine(scratch); // nothing is written elsewhere
        confined = true;
    }
    return scratch;
}
void Case::allowExit(int status)
{
    sh->allowExit = status + 1;
    // what this process saw must reach the parent although it will not return
}

int run(int argc, char** argv, const std::vector<Scenario>& scenarios)
{
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") opt.seed = std::stoull(next());
        else if (a == "--thorough") opt.thorough = true;
        else if (a == "--shard")
        {
            auto v = next();
            opt.shard = std::stoi(v);
            opt.nshards = std::stoi(v.substr(v.find('/') + 1));
        }
        else if (a == "--scenario") opt.only = next();
        else if (a == "--out") opt.out = next();
        else if (a == "--known") opt.known = next();
        else if (a == "--from") opt.from = std::stoll(next());
        else if (a == "--to") opt.to = std::stoll(next());
        else if (a == "--scale") opt.scale = std::stod(next());
        else if (a == "--hang") opt.hang = std::stoi(next());
        else if (a == "--fatal-only") opt.fatalOnly = true;
        else if (a == "--verbose") opt.verbose = true;
        else if (a == "--list")
        {
            for (auto& s : scenarios) std::cout << s.name << "\n";
            return 0;
        }
    }
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    char tmpl[] = "/tmp/vp.XXXXXX";
    if (!mkdtemp(tmpl)) return 41;
    scratchRoot = tmpl;
    std::string errPath = scratchRoot + "/stderr";
    setenv("TMPDIR", scratchRoot.c_str(), 1);
    // a place of its own, so that no file of the sandbox is picked up
    mkdirs(scratchRoot + "/cwd");
    if (chdir((scratchRoot + "/cwd").c_str())) return 41;
    std::set<std::string> known, knownHit;
    {
        std::istringstream is(opt.known);
        std::string k;
        while (std::getline(is, k, ',')) if (!k.empty()) known.insert(k);
    }
    std::map<std::string, Result> results;
    std::vector<Viol> viols;
    std::string harnessErr;
    int64_t t0 = realMono();
    for (auto& s : scenarios)
    {
        if (!opt.only.empty() && ("," + opt.only + ",").find("," + std::string(s.name) + ",") == std::string::npos) continue;
        uint64_t n = opt.thorough ? s.thorough : s.quick;
        n = uint64_t(double(n) * opt.scale);
        if (n == 0 && (opt.thorough ? s.thorough : s.quick) > 0) n = 1;
        std::vector<uint64_t> mine;
        uint64_t lo = opt.from >= 0 ? uint64_t(opt.from) : 0;
        uint64_t hi = opt.to >= 0 ? uint64_t(opt.to) : n;
        for (uint64_t i = lo; i < hi; i++)
            if (int(i % uint64_t(opt.nshards)) == opt.shard || opt.from >= 0) mine.push_back(i);
        Result& res = results[s.name];
        int64_t ts = realMono();
        size_t pos = 0;
        while (pos < mine.size())
        {
            size_t k = std::min<size_t>(s.perProc, mine.size() - pos);
            std::vector<uint64_t> idx(mine.begin() + long(pos), mine.begin() + long(pos + k));
            Outcome o = batch(s, idx, &res, known, &knownHit, errPath, opt.hang);
            Viol v;
            v.scenario = s.name;
            v.from = idx[0];
            std::string kind = classify(o, errPath, v);
            if (kind == "harness")
            {
                harnessErr = std::string(s.name) + " case " + std::to_string(o.at) + ": " +
                             o.harnessMsg + errTail(errPath);
                break;
            }
            if (!kind.empty() && (kind != "oracle" && known.count(v.key)))
            {
                knownHit.insert(v.key);
                // go on behind the failing case
                pos = size_t(std::find(mine.begin(), mine.end(), v.index) - mine.begin()) + 1;
                continue;
            }
            if (kind.empty())
            {
                if (WIFEXITED(o.status) && WEXITSTATUS(o.status) != 0)
                {
                    res.evals++; // ended by an allowed exit
                    res.counts["allowed process exits"]++;
                }
                pos += k;
                continue;
            }
            v.kind = kind;
            // threads do not meet in the same way again: what was seen, was seen
            v.confirmed = !std::strncmp(s.name, "race", 4) && kind != "hang";
            if (v.confirmed) v.from = v.index;
            // a verdict must repeat: alone first, then with what ran before it
            for (int attempt = 0; attempt < 4 && !v.confirmed; attempt++)
            {
                std::vector<uint64_t> again;
                if (attempt % 2 == 0) again = {v.index};
                else for (uint64_t i : idx) { again.push_back(i); if (i == v.index) break; }
                Outcome o2 = batch(s, again, nullptr, known, nullptr, errPath,
                                   kind == "hang" ? opt.hang * 2 : opt.hang);
                Viol v2;
                std::string k2 = classify(o2, errPath, v2);
                if (!k2.empty() && k2 != "harness" && v2.index == v.index)
                {
                    v.confirmed = true;
                    v.from = again[0];
                    v.key = v2.key;
                    v.msg = v2.msg;
                    v.log = v2.log;
                }
            }
            viols.push_back(v);
            break; // one violation per scenario is enough
        }
        res.secs = double(realMono() - ts) / 1e9;
        if (!harnessErr.empty()) break;
    }
    std::ostringstream js;
    js << "{\"wall\": " << double(realMono() - t0) / 1e9 << ", \"harness_error\": \""
       << esc(harnessErr.substr(0, 6000)) << "\", \"known\": [";
    bool first = true;
    for (auto& k : knownHit) { js << (first ? "" : ", ") << "\"" << esc(k) << "\""; first = false; }
    js << "], \"violations\": [";
    first = true;
    for (auto& v : viols)
    {
        js << (first ? "" : ", ") << "{\"scenario\": \"" << v.scenario << "\", \"key\": \""
           << esc(v.key) << "\", \"kind\": \"" << v.kind << "\", \"index\": " << v.index
           << ", \"from\": " << v.from << ", \"confirmed\": " << (v.confirmed ? "true" : "false")
           << ", \"msg\": \"" << esc(v.msg.substr(0, 8000)) << "\", \"log\": \""
           << esc(v.log.substr(0, 20000)) << "\"}";
        first = false;
    }
    js << "], \"scenarios\": {";
    first = true;
    for (auto& [n, r] : results)
    {
        js << (first ? "" : ", ") << "\"" << n << "\": {\"evals\": " << r.evals
           << ", \"secs\": " << r.secs << ", \"distinct\": [";
        bool f2 = true;
        for (auto h : r.distinct) { js << (f2 ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f2 = false; }
        js << "], \"counts\": {";
        f2 = true;
        for (auto& [k, v] : r.counts) { js << (f2 ? "" : ", ") << "\"" << esc(k) << "\": " << v; f2 = false; }
        js << "}, \"samples\": [";
        f2 = true;
        for (auto& t : r.samples) { js << (f2 ? "" : ", ") << "\"" << esc(t) << "\""; f2 = false; }
        js << "]}";
        first = false;
    }
    js << "}}\n";
    std::error_code ec;
    if (chdir("/")) {}
    std::filesystem::remove_all(scratchRoot, ec);
    if (!opt.out.empty()) writeFile(opt.out, js.str());
    else
    {
        for (auto& v : viols)
            std::cout << "VIOLATION-CANDIDATE " << v.scenario << " #" << v.index << " ["
                      << v.key << "] confirmed=" << v.confirmed << "\n" << v.msg << "\n"
                      << v.log << "\n";
        if (!harnessErr.empty()) std::cout << "HARNESS ERROR " << harnessErr << "\n";
        for (auto& [n, r] : results)
        {
            std::cout << n << ": " << r.evals << " cases, " << r.distinct.size()
                      << " distinct, " << r.secs << " s\n";
            for (auto& [k, v] : r.counts) std::cout << "    " << k << " = " << v << "\n";
        }
    }
    return !viols.empty() ? 40 : harnessErr.empty() ? 0 : 41;
}

void writeFile(const std::string& path, const std::string& text)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) throw HarnessError("cannot write " + path);
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}
std::string readFile(const std::string& path)
{
    std::string t;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return t;
    char b[8192];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
    fclose(f);
    return t;
}
void mkdirs(const std::string& path)
{
    std::error_code ec;
    std::filesystem::create_directories(path, ec);
    if (ec) throw HarnessError("mkdir " + path + ": " + ec.message());
}
Silence::Silence() : e(std::cerr.rdbuf(err.rdbuf())), o(std::cout.rdbuf(out.rdbuf())) {}
Silence::~Silence()
{
    std::cerr.rdbuf(e);
    std::cout.rdbuf(o);
}
} // namespace vp
