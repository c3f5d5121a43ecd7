// Common machinery of every explorer: enumerates a finite case space, shards it over forked workers,
// runs every case on the real code against the reference, confirms each alarm by re-running it alone.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace h {

inline uint64_t fnv(const std::string& s, uint64_t x = 1469598103934665603ull)
{
    for (unsigned char c : s)
    {
        x ^= c;
        x *= 1099511628211ull;
    }
    return x;
}

struct Violation
{
    std::string kase, what;
};

class Run
{
public:
    void fail(const std::string& what)
    {
        if (v.size() < 3)
            v.push_back({"", what});
    }
    void state(const std::string& canon)
    {
        if (states)
            states->insert(fnv(canon));
    }
    void trans(unsigned n = 1)
    {
        transitions += n;
    }
    void outcome(const std::string& o) // coarse class of what was observed, to show the space is not vacuous
    {
        ++outcomes[o];
    }
    std::vector<Violation>          v;
    std::unordered_set<uint64_t>*   states{};
    uint64_t                        transitions{};
    std::map<std::string, uint64_t> outcomes;
    bool                            replay{};
};

using Emit = std::function<void(const std::string&)>;

struct Prop
{
    std::string                                   id;
    std::function<void(int tier, const Emit&)>    enumerate;
    std::function<void(const std::string&, Run&)> run;
    std::string                                   bound_quick, bound_thorough;
    int                                           case_timeout = 20; // seconds, one case
};

inline std::vector<Prop>& props()
{
    static std::vector<Prop> p;
    return p;
}

struct Reg
{
    Reg(Prop p)
    {
        props().push_back(std::move(p));
    }
};

inline std::string esc(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char)c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += (char)c;
    }
    return o + "\"";
}

// numbers as they are compared everywhere: relative 1e-6, absolute 1e-6
inline bool near(double a, double b)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= 1e-6 + 1e-6 * std::max(std::fabs(a), std::fabs(b));
}

inline std::string num(double d)
{
    if (d == 0)
        d = 0;
    char b[40];
    snprintf(b, sizeof b, "%.6g", d);
    return b;
}

struct Shared
{
    volatile uint64_t index;   // case being run + 1
    volatile uint64_t done;    // cases finished
    char              kase[65536];
    volatile uint32_t len;
};

// One case alone in a child: 0 fine, 1 violation(s) (text in out), 2 crash, 3 hang
inline int run_alone(const Prop& p, const std::string& kase, int limit, std::string& out)
{
    int fd[2];
    if (pipe(fd))
        abort();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        alarm(limit);
        Run r;
        r.replay = true;
        if (!kase.empty() && kase[0] == '\x01')
        {
            std::istringstream is(kase.substr(7));
            uint64_t           tier, wi, ws, fr, last, idx = 0;
            is >> tier >> wi >> ws >> fr >> last;
            r.replay = false;
            p.enumerate((int)tier, [&](const std::string& c) {
                uint64_t k = idx++;
                if (k % ws != wi || k < fr || k > last)
                    return;
                r.v.clear();
                p.run(c, r);
            });
        }
        else
            p.run(kase, r);
        std::string s;
        for (auto& x : r.v)
            s += x.what + "\n";
        size_t o = 0;
        while (o < s.size())
        {
            auto n = write(fd[1], s.data() + o, s.size() - o);
            if (n <= 0)
                break;
            o += n;
        }
        _exit(r.v.empty() ? 0 : 1);
    }
    close(fd[1]);
    char    b[4096];
    ssize_t n;
    out.clear();
    while ((n = read(fd[0], b, sizeof b)) > 0)
        out.append(b, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st))
    {
        if (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1)
            return WEXITSTATUS(st);
        out = "the process ended with exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit())";
        return 2;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
    {
        out = "no answer within " + std::to_string(limit) + " s";
        return 3;
    }
    out = "the process was killed by signal " + std::to_string(WTERMSIG(st));
    return 2;
}

inline int explore(const Prop& p, int tier, const std::string& outdir, int workers)
{
    struct timeval t0, t1;
    gettimeofday(&t0, nullptr);
    struct WK
    {
        pid_t    pid;
        uint64_t from;
        int      crashes;
        bool     live;
        uint64_t last = 0;
        time_t   since = 0;
    };
    auto* sh = (Shared*)mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<WK> w(workers);
    auto            spawn = [&](int i, uint64_t from) {
        fflush(stdout);
        w[i].from = from;
        w[i].live = true;
        w[i].since = time(nullptr);
        pid_t pid = fork();
        if (pid)
        {
            w[i].pid = pid;
            return;
        }
        Run                          r;
        std::unordered_set<uint64_t> states;
        r.states = &states;
        uint64_t                 idx = 0, ran = 0, nviol = 0, distinct_dup = 0;
        std::vector<std::string> samples;
        std::ofstream            f(outdir + "/w" + std::to_string(i) + "_" + std::to_string(from) + ".txt");
        auto                     dump = [&] {
            for (auto& s : samples)
                f << "SAMPLE " << esc(s) << "\n";
            for (auto& o : r.outcomes)
                f << "OUT " << o.second << " " << esc(o.first) << "\n";
            f << "N " << ran << " " << r.transitions << "\n";
            f.close();
            std::ofstream g(outdir + "/s" + std::to_string(i) + "_" + std::to_string(from) + ".bin", std::ios::binary);
            for (auto s : states)
                g.write((const char*)&s, 8);
        };
        p.enumerate(tier, [&](const std::string& c) {
            uint64_t k = idx++;
            if (k % workers != (uint64_t)i || k < from)
                return;
            if (nviol >= 20)
                return;
            sh[i].len = std::min<size_t>(c.size(), sizeof(sh[i].kase) - 1);
            memcpy(sh[i].kase, c.data(), sh[i].len);
            sh[i].index = k + 1;
            r.v.clear();
            p.run(c, r);
            ++ran;
            if (ran == 2 || ran == 500 || ran == 5000)
                samples.push_back(c);
            if (!r.v.empty())
            {
                ++nviol;
                f << "VIOL " << i << " " << from << " " << k << " " << esc(c) << "\n";
                f.flush();
            }
        });
        dump();
        _exit(0);
    };
    for (int i = 0; i < workers; ++i)
        spawn(i, 0);
    std::vector<std::string> suspects;
    std::map<std::string, std::array<uint64_t, 3>> where;
    int                      live = workers, total_crashes = 0;
    while (live > 0)
    {
        int   st;
        pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid <= 0)
        {
            usleep(2000);
            time_t now = time(nullptr);
            for (int i = 0; i < workers; ++i)
                if (w[i].live)
                {
                    if (sh[i].index != w[i].last)
                    {
                        w[i].last  = sh[i].index;
                        w[i].since = now;
                    }
                    else if (sh[i].index && now - w[i].since > p.case_timeout)
                        kill(w[i].pid, SIGKILL);
                }
            continue;
        }
        for (int i = 0; i < workers; ++i)
            if (w[i].live && w[i].pid == pid)
            {
                w[i].live = false;
                --live;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                {
                    suspects.push_back(std::string(sh[i].kase, sh[i].len));
                    ++total_crashes;
                    if (++w[i].crashes < 3 && sh[i].index)
                    {
                        spawn(i, sh[i].index);
                        ++live;
                    }
                }
            }
    }
    // merge
    uint64_t                        ran = 0, trans = 0;
    std::map<std::string, uint64_t> outcomes;
    std::vector<std::string>        samples;
    std::unordered_set<uint64_t>    states;
    std::string                     cmd;
    for (int i = 0; i < workers; ++i)
    {
        // all generations of worker i
        FILE* ls = popen(("ls " + outdir + "/w" + std::to_string(i) + "_*.txt 2>/dev/null").c_str(), "r");
        char  b[4096];
        std::vector<std::string> files;
        while (fgets(b, sizeof b, ls))
        {
            std::string s = b;
            s.pop_back();
            files.push_back(s);
        }
        pclose(ls);
        for (auto& fn : files)
        {
            std::ifstream f(fn);
            std::string   line;
            while (std::getline(f, line))
            {
                auto unesc = [](const std::string& s) {
                    std::string o;
                    for (size_t i = 1; i + 1 < s.size(); ++i)
                    {
                        if (s[i] != '\\')
                            o += s[i];
                        else if (s[i + 1] == 'u')
                        {
                            o += (char)strtol(s.substr(i + 2, 4).c_str(), nullptr, 16);
                            i += 5;
                        }
                        else
                            o += s[++i];
                    }
                    return o;
                };
                if (line.rfind("VIOL ", 0) == 0)
                {
                    std::istringstream is(line.substr(5));
                    uint64_t           wi, fr, k;
                    std::string        rest;
                    is >> wi >> fr >> k;
                    std::getline(is, rest);
                    auto c = unesc(rest.substr(1));
                    suspects.push_back(c);
                    where[c] = {wi, fr, k};
                }
                else if (line.rfind("SAMPLE ", 0) == 0)
                    samples.push_back(unesc(line.substr(7)));
                else if (line.rfind("OUT ", 0) == 0)
                {
                    std::istringstream is(line.substr(4));
                    uint64_t           n;
                    std::string        rest;
                    is >> n;
                    std::getline(is, rest);
                    outcomes[unesc(rest.substr(1))] += n;
                }
                else if (line.rfind("N ", 0) == 0)
                {
                    std::istringstream is(line.substr(2));
                    uint64_t           a, c;
                    is >> a >> c;
                    ran += a;
                    trans += c;
                }
            }
            auto sb = fn;
            sb.replace(sb.rfind("/w"), 2, "/s");
            sb.replace(sb.rfind(".txt"), 4, ".bin");
            std::ifstream g(sb, std::ios::binary);
            uint64_t      x;
            while (g.read((char*)&x, 8))
                states.insert(x);
        }
    }
    // confirm every suspect alone, shortest first
    std::sort(suspects.begin(), suspects.end(), [](auto& a, auto& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
    suspects.erase(std::unique(suspects.begin(), suspects.end()), suspects.end());
    std::vector<Violation> viols;
    size_t                 unconfirmed = 0;
    int                    shard_tries = 0;
    for (auto& c : suspects)
    {
        std::string out;
        int         rc = run_alone(p, c, p.case_timeout * 3, out);
        if (rc == 0)
        {
            // holds alone: does it fail after the executions that preceded it in the same process?
            if (where.count(c) && shard_tries < 2)
            {
                ++shard_tries;
                auto        l = where[c];
                std::string sc = std::string("\x01SHARD ") + std::to_string(tier) + " " + std::to_string(l[0]) + " " +
                                 std::to_string(workers) + " " + std::to_string(l[1]) + " " + std::to_string(l[2]) + "\n" + c;
                rc = run_alone(p, sc, 600, out);
                if (rc == 1)
                {
                    viols.push_back({sc, "only after the preceding executions in one process (state shared between instances): " + out});
                    continue;
                }
            }
            ++unconfirmed;
        }
        else
            viols.push_back({c, out});
        if (viols.size() >= 40)
            break;
    }
    gettimeofday(&t1, nullptr);
    std::ofstream f(outdir + "/result.json");
    f << "{\"cases\":" << ran << ",\"transitions\":" << trans << ",\"states\":" << states.size()
      << ",\"unconfirmed\":" << unconfirmed << ",\"worker_restarts\":" << total_crashes << ",\"bound\":" << esc(tier ? p.bound_thorough : p.bound_quick)
      << ",\"wall\":" << (t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) / 1e6 << ",\"samples\":[";
    for (size_t i = 0; i < samples.size() && i < 8; ++i)
        f << (i ? "," : "") << esc(samples[i]);
    f << "],\"outcomes\":{";
    bool first = true;
    for (auto& o : outcomes)
    {
        f << (first ? "" : ",") << esc(o.first) << ":" << o.second;
        first = false;
    }
    f << "},\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i)
        f << (i ? "," : "") << "{\"case\":" << esc(viols[i].kase) << ",\"what\":" << esc(viols[i].what) << "}";
    f << "]}\n";
    return 0;
}

inline int main_(int argc, char** argv)
{
    // usage: bin list | bin explore PROP tier(0/1) outdir workers | bin replay PROP file
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list")
    {
        for (auto& p : props())
            std::cout << p.id << "\n";
        return 0;
    }
    for (auto& p : props())
        if (argc > 2 && p.id == argv[2])
        {
            if (mode == "explore")
                return explore(p, atoi(argv[3]), argv[4], atoi(argv[5]));
            if (mode == "count")
            {
                uint64_t n = 0;
                p.enumerate(atoi(argv[3]), [&](const std::string& c) {
                    if (n < 3)
                        std::cout << c << "\n--\n";
                    ++n;
                });
                std::cout << n << "\n";
                return 0;
            }
            if (mode == "replay")
            {
                std::ifstream      f(argv[3], std::ios::binary);
                std::ostringstream ss;
                ss << f.rdbuf();
                std::string out;
                int         rc = run_alone(p, ss.str(), 120, out);
                std::cout << out << (rc == 0 ? "holds\n" : "\n");
                return rc ? 1 : 0;
            }
        }
    std::cerr << "unknown property or mode\n";
    return 2;
}

inline std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> v;
    std::string              cur;
    for (char x : s)
        if (x == c)
        {
            v.push_back(cur);
            cur.clear();
        }
        else
            cur += x;
    v.push_back(cur);
    return v;
}

// all sequences of length lo..hi over [0,n)
inline void sequences(size_t n, size_t lo, size_t hi, const std::function<void(const std::vector<size_t>&)>& f)
{
    std::vector<size_t>            cur;
    std::function<void()>          rec = [&] {
        if (cur.size() >= lo)
            f(cur);
        if (cur.size() == hi)
            return;
        for (size_t i = 0; i < n; ++i)
        {
            cur.push_back(i);
            rec();
            cur.pop_back();
        }
    };
    rec();
}

} // namespace h
