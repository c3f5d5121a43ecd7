// V group: what the machine and the driver forbid.
#include "fx.hpp"
using namespace fx;
using h::Emit;
using h::Run;

namespace {

bool literal_ok(const RW& r, const std::string& s) // word table verdict on a literal (same statement as S02)
{
    size_t i = 0;
    bool   neg = false;
    if (s[i] == '-')
    {
        neg = true;
        ++i;
    }
    auto   dot = s.find('.');
    auto   in  = s.substr(i, dot == std::string::npos ? dot : dot - i);
    double v   = atof(in.c_str()) * (neg ? -1 : 1);
    if (v < r.rf || v > r.rt)
        return false;
    if (dot != std::string::npos)
    {
        if (r.dt == 0)
            return false;
        auto f = s.substr(dot + 1);
        if (!f.empty() && ((unsigned)atoi(f.c_str()) < r.df || (unsigned)atoi(f.c_str()) > r.dt))
            return false;
    }
    return true;
}

// ------------------------------------------------------------------ V01 code groups
std::set<std::string> grp(const Groups& g, const std::string& s)
{
    auto dot = s.find('.');
    auto it  = g.find({(unsigned)atoi(s.c_str()), dot == std::string::npos ? 0u : (unsigned)atoi(s.c_str() + dot + 1)});
    return it == g.end() ? std::set<std::string>{} : it->second;
}
void v01_run(const std::string& c, Run& r)
{
    // driver|flag|block   blocks of words; '~' separates; $n = value through variable
    auto  q = h::split(c, '|');
    auto& d = driver(q[0]);
    static std::string                                       last;
    static std::unique_ptr<fanuc::AllAttributesParser>       p;
    Machine m;
    m.driver = q[0];
    m.ps     = {true, q[1] == "g", false, false, false};
    if (last != q[0] + q[1] || r.replay || q[2].find('$') != std::string::npos || q[2].find("G2") != std::string::npos)
    {
        p    = make(m);
        last = q[2].find('$') != std::string::npos ? "" : q[0] + q[1];
    }
    std::string text;
    std::set<std::string> seen;
    bool ok = true;
    int  line = 1, ms = 0;
    for (auto w : h::split(q[2], ' '))
    {
        bool var = w[1] == '$';
        auto n   = w.substr(var ? 2 : 1);
        if (!literal_ok(d.metric.at(w.substr(0, 1)), n))
            return;
        if (var)
        {
            int id = 100 + line;
            if (!parse(*p, line, "#" + std::to_string(id) + "=" + n).ok)
                return r.fail("assignment of " + n + " rejected");
            ++line;
            text += (text.empty() ? "" : " ") + w.substr(0, 1) + "#" + std::to_string(id);
        }
        else
            text += (text.empty() ? "" : " ") + w;
        if (w[0] == 'M' && d.haas && ++ms > 1)
            ok = false;
        if (w[0] == 'G' || w[0] == 'M')
            for (auto& g : grp(w[0] == 'G' ? d.g : d.m, n))
                if (!seen.insert(w[0] + g).second && q[1] == "g")
                    ok = false;
    }
    auto a = parse(*p, 20, text);
    r.trans();
    r.outcome(ok ? "compatible" : "conflict");
    r.state(q[0] + text);
    if (!a.thrown.empty())
        return r.fail("exception " + a.thrown);
    if (a.ok != ok)
        return r.fail(q[0] + ": '" + text + "' was " + (a.ok ? "accepted although two codes share a group" : "rejected: " + a.msg));
    if (!ok && a.msg.empty())
        r.fail(q[0] + ": '" + text + "' rejected without a message");
}
void v01_enum(int tier, const Emit& e)
{
    for (auto& dn : driver_names())
    {
        auto& d = driver(dn);
        for (char L : {'G', 'M'})
        {
            auto&                    g = L == 'G' ? d.g : d.m;
            std::vector<std::string> codes;
            for (auto& x : g)
                codes.push_back(L + std::to_string(x.first.first) + (x.first.second ? "." + std::to_string(x.first.second) : ""));
            codes.push_back(L + std::string("999"));
            codes.push_back(L + std::string("0") + "1");
            codes.push_back(L + std::string("04"));
            for (auto& a : codes)
                for (auto& b : codes)
                {
                    e(dn + "|g|" + a + " " + b);
                    e(dn + "|g|" + a + " X1 " + b);
                    if (L == 'G')
                        e(dn + "|g|" + a + " M8 " + b);
                }
            // one representative per group set, three codes
            std::map<std::set<std::string>, std::vector<std::string>> rep;
            for (auto& x : g)
            {
                auto& v = rep[x.second];
                if (v.size() < (tier ? 3u : 2u))
                    v.push_back(L + std::to_string(x.first.first) + (x.first.second ? "." + std::to_string(x.first.second) : ""));
            }
            std::vector<std::string> rs;
            for (auto& x : rep)
                for (auto& s : x.second)
                    rs.push_back(s);
            rs.push_back(L + std::string("999"));
            for (auto& a : rs)
                for (auto& b : rs)
                {
                    e(dn + "|n|" + a + " " + b);
                    auto v = [](const std::string& s) { return s.substr(0, 1) + "$" + s.substr(1); };
                    e(dn + "|g|" + v(a) + " " + b);
                    e(dn + "|g|" + a + " " + v(b));
                    e(dn + "|g|" + v(a) + " Y2 " + v(b));
                    if (tier || dn == "fanuc_mill" || dn == "haas_lathe")
                        for (auto& c : rs)
                            e(dn + "|g|" + a + " " + b + " " + c);
                }
        }
    }
}
h::Reg r1({"V01", v01_enum, v01_run, "every ordered pair of codes of every group file (11 drivers, G and M), adjacent, separated by X, separated by M; representatives of every set of groups through variables, in triples (2 drivers), with the check off",
           "triples for every driver, 3 representatives per set of groups"});

// ------------------------------------------------------------------ V02 two M words on Haas
void v02_run(const std::string& c, Run& r)
{
    auto    q = h::split(c, '|');
    Machine m;
    m.driver = q[0];
    m.ps     = {true, false, false, false, q[1] == "p"};
    auto p   = make(m);
    parse(*p, 1, "#1=8");
    int n = 0;
    for (auto& w : h::split(q[2], ' '))
        n += w[0] == 'M';
    bool ok = !(driver(q[0]).haas && n > 1);
    auto a  = parse(*p, 2, q[2]);
    r.trans();
    r.state(q[0] + q[1] + std::to_string(n) + q[2]);
    r.outcome(ok ? "allowed" : "forbidden");
    if (!a.thrown.empty())
        return r.fail("exception " + a.thrown);
    if (a.ok != ok)
        r.fail(q[0] + ": '" + q[2] + "' was " + (a.ok ? "accepted" : "rejected: " + a.msg));
    // the refusal concerns that block only
    auto b = parse(*p, 3, "M9");
    if (!b.ok)
        r.fail(q[0] + ": 'M9' after '" + q[2] + "' rejected: " + b.msg);
}
void v02_enum(int tier, const Emit& e)
{
    const std::vector<std::string> w = {"M8", "M3", "M#1", "M00", "G0", "X1", "(M7)", "N5", "S100", "T2"};
    for (auto& d : driver_names())
        h::sequences(w.size(), 1, tier ? 5 : 4, [&](const std::vector<size_t>& s) {
            std::string      t;
            std::vector<int> cnt(w.size());
            for (auto i : s)
            {
                if (++cnt[i] > 1 && w[i][0] != 'M')
                    return;
                if (w[i][0] == 'N' && i != s[0])
                    return;
                t += (t.empty() ? "" : " ") + w[i];
            }
            e(d + "|-|" + t);
            if (s.size() < 4)
                e(d + "|p|" + t);
        });
}
h::Reg r2({"V02", v02_enum, v02_run, "all blocks of <=4 words over 10 words for 11 drivers", "blocks of <=5 words"});

// ------------------------------------------------------------------ V03 spindle speed, tool number and feed limits
void v03_run(const std::string& c, Run& r)
{
    // driver|type|flags|limS|limT|limF|block...
    auto    q = h::split(c, '\n');
    auto    hd = h::split(q[0], '|');
    Machine m;
    m.driver                               = hd[0];
    m.type                                 = hd[1] == "L" ? EMachineToolType::Lathe : hd[1] == "T" ? EMachineToolType::Millturn : EMachineToolType::Mill;
    m.tool                                 = hd[1] == "L" ? EMachineTool::lathe_zx : EMachineTool::mill_3axis;
    m.ps                                   = {true, false, false, hd[2] == "a", false};
    m.kin.maximum_spindle_speed            = atoi(hd[3].c_str());
    m.kin.numer_of_items_in_the_warehouse  = atoi(hd[4].c_str());
    m.kin.max_working_feed                 = atoi(hd[5].c_str());
    auto p                                 = make(m);
    for (size_t i = 1; i < q.size(); ++i) // only values the word table admits
        for (auto& w : h::split(q[i], ' '))
            if (!literal_ok(driver(hd[0]).metric.at(w.substr(0, 1)), w.substr(w[1] == '$' ? 2 : 1)))
                return;
    for (size_t i = 1; i < q.size(); ++i)
    {
        bool ok = true;
        if (hd[2] == "a")
            for (auto& w : h::split(q[i], ' '))
            {
                auto n = w.substr(1);
                if (w[0] == 'S' && atoi(n.c_str()) > m.kin.maximum_spindle_speed)
                    ok = false;
                if (w[0] == 'F' && atoi(n.c_str()) > m.kin.max_working_feed)
                    ok = false;
                if (w[0] == 'T')
                {
                    if (hd[1] == "L" && n.size() > 2)
                        n = n.substr(0, n.size() / 2);
                    if (atoi(n.c_str()) > m.kin.numer_of_items_in_the_warehouse)
                        ok = false;
                }
            }
        auto text = q[i];
        if (text.find('$') != std::string::npos)
        {
            auto k = text.find('$');
            ok     = true; // recomputed below
            std::string n;
            for (size_t j = k + 1; j < text.size() && text[j] != ' '; ++j)
                n += text[j];
            if (!parse(*p, 100 + (int)i, "#1=" + n).ok)
                return r.fail("#1=" + n + " rejected");
            char L = text[k - 1];
            int  v = atoi(n.c_str());
            if (hd[2] == "a")
            {
                if (L == 'S')
                    ok = v <= m.kin.maximum_spindle_speed;
                if (L == 'F')
                    ok = v <= m.kin.max_working_feed;
                if (L == 'T')
                {
                    if (hd[1] == "L" && n.size() > 2)
                        n = n.substr(0, n.size() / 2);
                    ok = atoi(n.c_str()) <= m.kin.numer_of_items_in_the_warehouse;
                }
            }
            text = text.substr(0, k) + "#1";
        }
        auto a = parse(*p, 200 + (int)i, text);
        r.trans();
        r.outcome(ok ? "within" : "beyond");
        r.state(q[0] + text);
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        if (a.ok != ok)
            return r.fail("'" + q[i] + "' was " + (a.ok ? "accepted" : "rejected: " + a.msg));
    }
}
void v03_enum(int tier, const Emit& e)
{
    for (auto& d : driver_names())
        for (std::string ty : {"M", "L", "T"})
            for (std::string fl : {"a", "-"})
                for (int lim : {0, 1, 5, 12, 99, 120, 1200, 9999})
                {
                    auto hd = d + "|" + ty + "|" + fl + "|" + std::to_string(lim) + "|" + std::to_string(lim) + "|" + std::to_string(lim);
                    std::set<std::string> vals = {"1", "01", "007", "12", "101", "0101", "0102", "1201", "512", "0512", "9912"};
                    for (int k : {-2, -1, 0, 1, 2, 100})
                        if (lim + k >= 0)
                            vals.insert(std::to_string(lim + k));
                    for (auto& v : vals)
                    {
                        for (std::string L : {"S", "T", "F"})
                        {
                            auto& row = driver(d).metric.at(L);
                            if (atoi(v.c_str()) < row.rf || atoi(v.c_str()) > row.rt)
                                continue;
                            e(hd + "\n" + L + v);
                            e(hd + "\nX1 " + L + v + " Y2\nX2");
                            if (v.find_first_not_of('0') == 0)
                                e(hd + "\n" + L + "$" + v);
                            if (L == "F")
                            {
                                e(hd + "\nF" + v + ".\nX2");
                                e(hd + "\nF" + v + ".0\nX2");
                            }
                        }
                        if (atoi(v.c_str()) >= 1 && atoi(v.c_str()) <= driver(d).metric.at("T").rt && (tier || d == "fanuc_mill"))
                            for (int b : {lim - 1, lim, lim + 1})
                                for (int f : {lim - 1, lim, lim + 1})
                                    if (b >= 0 && f >= 0)
                                    {
                                        e(hd + "\nS" + std::to_string(b) + " T" + v + " F" + std::to_string(f));
                                        e(hd + "\nF" + std::to_string(f) + "\nT" + v + "\nS" + std::to_string(b));
                                    }
                    }
                }
    // limits are separate
    for (int a : {10, 20, 30})
        for (int b : {10, 20, 30})
            for (int c : {10, 20, 30})
                for (int s : {5, 15, 25, 35})
                    for (int t : {5, 15, 25, 35})
                        for (int f : {5, 15, 25, 35})
                            for (std::string ty : {"M", "L"})
                                e("fanuc_mill|" + ty + "|a|" + std::to_string(a) + "|" + std::to_string(b) + "|" + std::to_string(c) + "\nS" + std::to_string(s) + " T" + std::to_string(t) + " F" + std::to_string(f));
}
h::Reg r3({"V03", v03_enum, v03_run, "8 limits x values around each x S/T/F x 3 machine types x 11 drivers x check on/off, literals and variables; combinations", "combined blocks for every driver"});

// ------------------------------------------------------------------ V04 axis travel
struct Mv
{
    const char* text;
    const char* ax; // axis value pairs "X=50"
};
void v04_run(const std::string& c, Run& r)
{
    // zx,zy,zz|xmin,xmax,ymin,ymax,zmin,zmax|flag \n blocks
    auto    q = h::split(c, '\n');
    auto    hd = h::split(q[0], '|');
    auto    z = h::split(hd[0], ','), k = h::split(hd[1], ',');
    Machine m;
    m.driver = hd.size() > 3 ? hd[3] : "fanuc_mill";
    m.zp = {(int)atoi(z[0].c_str()), (int)atoi(z[1].c_str()), (int)atoi(z[2].c_str())};
    std::map<char, std::pair<double, double>> lim;
    std::map<char, double>                    pos;
    for (int i = 0; i < 3; ++i)
    {
        char ax = "XYZ"[i];
        m.kin.cartesian_system_axis[std::string(1, ax)] = {atoi(k[2 * i].c_str()), atoi(k[2 * i + 1].c_str())};
        double zz = atof(z[i].c_str());
        lim[ax]   = {atof(k[2 * i].c_str()) - zz, atof(k[2 * i + 1].c_str()) - zz};
        pos[ax]   = (ax == 'Z' ? 50 : 0) - zz;
    }
    m.mpd.tool_exchange_point = {{"X", 0}, {"Y", 0}, {"Z", 50}};
    m.mpd.machine_base_point  = {{"X", 0}, {"Y", 0}, {"Z", 50}};
    m.ps                      = {true, false, true, false, hd[2] == "a"};
    auto p                    = make(m);
    bool incr                 = false;
    for (size_t i = 1; i < q.size(); ++i)
    {
        for (auto& w : h::split(q[i], ' '))
        {
            if (w == "G90")
                incr = false;
            else if (w == "G91")
                incr = true;
        }
        bool home = q[i].find("M6") != std::string::npos;
        for (auto& w : h::split(q[i], ' '))
            if (w[0] >= 'X' && w[0] <= 'Z')
                pos[w[0]] = atof(w.c_str() + 1) + (incr ? pos[w[0]] : 0);
        if (home)
            for (int j = 0; j < 3; ++j)
                pos["XYZ"[j]] = (j == 2 ? 50 : 0) - atof(z[j].c_str());
        bool ok = true;
        if (hd[2] == "a")
            for (auto& a : pos)
                if (a.second < lim[a.first].first || a.second > lim[a.first].second)
                    ok = false;
        auto a = parse(*p, (int)i, q[i]);
        r.trans();
        r.outcome(ok ? "inside" : "outside");
        r.state(q[0] + h::num(pos['X']) + "," + h::num(pos['Y']) + "," + h::num(pos['Z']));
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        if (a.ok != ok)
            return r.fail("'" + q[i] + "' (block " + std::to_string(i) + ") reaching X" + h::num(pos['X']) + " Y" + h::num(pos['Y']) + " Z" + h::num(pos['Z']) + " was " +
                          (a.ok ? "accepted" : "rejected: " + a.msg));
    }
}
void v04_enum(int tier, const Emit& e)
{
    const std::vector<std::string> zs = {"0,0,0", "10,0,0", "0,-20,0", "0,0,30", "5,-7,11", "-40,40,20"};
    const std::vector<std::string> ks = {"-100,100,-100,100,-100,100", "-50,100,0,60,-10,70", "-60,60,-60,60,-80,80"};
    // every boundary of every axis
    for (auto& dn : driver_names())
        for (auto& z : zs)
            for (auto& k : ks)
                for (int ax = 0; ax < 3; ++ax)
                {
                    auto K = h::split(k, ',');
                    auto Z = h::split(z, ',');
                    for (int side = 0; side < 2; ++side)
                        for (double off : {-1., -0.001, 0., 0.001, 1., 20.})
                        {
                            double v = atof(K[2 * ax + side].c_str()) - atof(Z[ax].c_str()) + off;
                            if (driver(dn).lathe && std::string("XYZ")[ax] == 'Y' && !driver(dn).metric.count("Y"))
                                continue;
                            char b[64];
                            snprintf(b, sizeof b, "%c%.3f", "XYZ"[ax], v);
                            std::string w = b;
                            while (w.back() == '0')
                                w.pop_back();
                            if (w.back() == '.')
                                w.pop_back();
                            auto hd = z + "|" + k + "|a|" + dn;
                            e(hd + "\nG0 " + w + "\nG0 " + std::string(1, "XYZ"[ax]) + "0");
                            e(z + "|" + k + "|-|" + dn + "\nG0 " + w);
                            if (dn == "fanuc_mill")
                                e(hd + "\nF100 G1 " + w + "\nT1 M6\nG0 X0");
                        }
                }
    // programs
    const std::vector<std::string> bl = {"G0 X40", "X-40 Y40", "G91 X30", "G90 Z60", "G1 F100 Y-30", "G91 Z-45 Y20", "T2 M6", "G90 X0 Y0 Z0", "F200", "X75", "G91 G1 F50 X-50"};
    for (auto& z : zs)
        for (auto& k : ks)
            h::sequences(bl.size(), 1, tier ? 4 : 3, [&](const std::vector<size_t>& s) {
                std::string c = z + "|" + k + "|a|fanuc_mill\nG0 G90 F10";
                for (auto i : s)
                    c += "\n" + bl[i];
                e(c);
            });
}
h::Reg r4({"V04", v04_enum, v04_run, "6 zero points x 3 travel ranges: every boundary of every axis +- {0,0.001,1,20} on 11 drivers; all programs of <=3 of 11 motion blocks", "programs of <=4 blocks"});

// ------------------------------------------------------------------ V05 spindle rotation
void v05_run(const std::string& c, Run& r)
{
    auto    q = h::split(c, '\n');
    auto    hd = h::split(q[0], '|');
    Machine m;
    m.driver                             = hd[0];
    m.ps                                 = {true, false, false, hd[2] == "a", false};
    m.cnc.operator_turns_on_rotation     = hd[1] == "o";
    m.cnc.default_rotation               = 500;
    auto p                               = make(m);
    bool G = false, S = false, M = false, reported = false;
    for (size_t i = 1; i < q.size(); ++i)
    {
        bool ok = true;
        auto t  = q[i];
        for (auto& w : h::split(q[i], ' '))
        {
            int v = atoi(w.c_str() + 1);
            if (hd[2] != "a")
                break;
            if (hd[1] == "o")
            {
                if (w[0] == 'S' || (w[0] == 'M' && (v == 3 || v == 4)))
                    ok = false;
            }
            else
            {
                S |= w[0] == 'S';
                M |= w[0] == 'M' && (v == 3 || v == 4);
                auto dot = w.find('.');
                bool own = v == 81 && dot != std::string::npos && atoi(w.c_str() + dot + 1) != 0; // G81.4 is a code of its own
                G |= w[0] == 'G' && !own && (v == 1 || (v >= 81 && v <= 89));
            }
        }
        if (hd[2] == "a" && hd[1] != "o" && G && !(S && M) && !reported)
        {
            reported = true;
            ok       = false;
        }
        auto a = parse(*p, (int)i, t);
        r.trans();
        r.outcome(ok ? "fine" : "reported");
        r.state(q[0] + (G ? "G" : "") + (S ? "S" : "") + (M ? "M" : "") + (reported ? "R" : "") + t);
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        if (a.ok != ok)
            return r.fail("'" + t + "' (block " + std::to_string(i) + ") was " + (a.ok ? "accepted" : "rejected: " + a.msg));
    }
}
void v05_enum(int tier, const Emit& e)
{
    const std::vector<std::string> bl = {"X1", "S100", "M3", "M4", "M5", "S200 M03", "G0 X5", "G1 X7", "G01 Y2", "G81 Z-5 R2", "M13", "G89 Z1 R1", "G80", "S50 M4 G1 X9", "(G1)", "G81.4 X1"};
    for (auto& d : driver_names())
        for (std::string o : {"n", "o"})
        {
            h::sequences(bl.size(), 1, d == "fanuc_mill" || tier ? 4 : 3, [&](const std::vector<size_t>& s) {
                std::string c = d + "|" + o + "|a";
                for (auto i : s)
                    c += "\n" + bl[i];
                e(c);
                if (s.size() < 3)
                    e(d + "|" + o + "|-" + c.substr(c.find('\n')));
            });
            for (int g = 70; g < 100; ++g)
                e(d + "|" + o + "|a\nG" + std::to_string(g) + "\nX1");
            for (std::string g : {"G81.0", "G81.1", "G81.3", "G81.5", "G81.6", "G81.8", "G80.4", "G80.5", "G54.1", "G10.1", "G01.0", "G0081"})
                e(d + "|" + o + "|a\n" + g + " X1\nX1\nG1 X2\nX3");
            for (int g = 0; g < 20; ++g)
            {
                e(d + "|" + o + "|a\nG" + std::to_string(g) + "\nX1\nG1 X1\nX2");
                e(d + "|" + o + "|a\nM" + std::to_string(g) + "\nS1\nG1 X1");
            }
        }
}
h::Reg r5({"V05", v05_enum, v05_run, "all programs of <=4 (fanuc_mill) / <=3 (10 drivers) of 16 blocks, operator- or program-started rotation; every G0-19, G70-99, M0-19", "<=4 on every driver"});

// ------------------------------------------------------------------ V06 unit system
void v06_run(const std::string& c, Run& r)
{
    auto    q = h::split(c, '\n');
    auto    hd = h::split(q[0], '|');
    auto&   d = driver(hd[0]);
    Machine m;
    m.driver = hd[0];
    m.ps     = {true, false, false, false, false};
    bool inch = hd[1] == "in";
    m.cnc.default_driver_units = inch ? EDriverUnits::Inch : EDriverUnits::Millimeter;
    auto p                     = make(m);
    for (size_t i = 1; i < q.size(); ++i)
    {
        bool ok = true, next = inch;
        auto& t = inch ? d.imperial : d.metric;
        for (auto& w : h::split(q[i], ' '))
        {
            auto n = w.find_first_of("0123456789.-#");
            if (w[n] != '#')
            {
                auto& row = t.at(w.substr(0, n) == "" ? w : w.substr(0, n));
                if (!literal_ok(row, w.substr(n)))
                    ok = false;
            }
            if (w == "G20")
                next = true;
            if (w == "G21")
                next = false;
        }
        auto a = parse(*p, (int)i, q[i]);
        r.trans();
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        if (ok)
            inch = next;
        r.outcome(std::string(ok ? "accepted " : "rejected ") + (inch ? "in" : "mm"));
        r.state(q[0] + q[i] + (inch ? "in" : "mm"));
        if (a.ok != ok)
            return r.fail(hd[0] + ": '" + q[i] + "' (block " + std::to_string(i) + ") was " + (a.ok ? "accepted" : "rejected: " + a.msg));
        if ((p->get_unit_system() == EDriverUnits::Inch) != inch)
            return r.fail(hd[0] + ": after '" + q[i] + "' the unit system is " + (inch ? "not inch" : "not millimetre"));
    }
}
void v06_enum(int tier, const Emit& e)
{
    for (auto& dn : driver_names())
    {
        auto& d = driver(dn);
        for (std::string u : {"mm", "in"})
        {
            for (auto& x : d.metric)
            {
                if (x.second.type == "calc" || x.second.type == "macro" || x.second.type == "numbering" || x.second.type == "assignable" || x.first == "G" || x.first == "O" || x.first == ":" || x.first == "N" || !isalpha(x.first.back()) || x.first.size() > 2)
                    continue;
                auto& y = d.imperial.at(x.first);
                std::set<std::string> vals;
                for (auto& row : {x.second, y})
                    for (int o : {-1, 0, 1})
                    {
                        vals.insert(std::to_string(row.rt + o));
                        vals.insert(std::to_string(row.rf + o));
                        if (row.dt)
                            vals.insert("1." + std::to_string((int)row.dt + o));
                    }
                for (auto& v : vals)
                    for (std::string pre : {"", "\nG20", "\nG21", "\nG20\nG21", "\nG21\nG20", "\nG20 X1\nG0 Y1", "\nG20\nG20", "\nX1 G21 Y2", "\nG0 G20", "\nG90 X1 G21 G0", "\nG1 G20 G90\nG21 G0 G94"})
                        if (d.metric.count("Y") || pre.find('Y') == std::string::npos)
                        e(dn + "|" + u + pre + "\n" + x.first + v + "\n" + x.first + v);
            }
            const std::vector<std::string> bl = {"G20", "G21", "X1.5678", "X99999", "F1", "G0 X1", "G20 X99999", "X9999999", "G0 G20", "G90 G21 G0"};
            h::sequences(bl.size(), 1, tier ? 6 : 4, [&](const std::vector<size_t>& s) {
                std::string c = dn + "|" + u;
                for (auto i : s)
                    c += "\n" + bl[i];
                e(c);
            });
        }
    }
}
h::Reg r6({"V06", v06_enum, v06_run, "every address word of 11 drivers at the boundaries of both tables after 11 unit switch histories x default units; all programs of <=4 of 10 blocks", "programs of <=6 blocks"});

} // namespace

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
