// S group: reading of single blocks.
#include "fx.hpp"
using namespace fx;
using h::Emit;
using h::Run;

namespace {

std::string noblank(const std::string& s)
{
    std::string o;
    for (char c : s)
        if (c != ' ' && c != '\t')
            o += c;
    return o;
}

Machine syntax_only(const std::string& drv, bool imperial = false)
{
    Machine m;
    m.driver = drv;
    m.ps     = {false, false, false, false, false};
    if (imperial)
        m.cnc.default_driver_units = EDriverUnits::Inch;
    return m;
}

// ---------------------------------------------------------------- S01 lossless
const std::vector<std::string> s01_tok = {
    "N10", "G1", "G54.1", "X-1.5", "Y.5", "Z5.", "F100", "M03", "T12", "R+7", "(abc d)", "()", ")", "((", "/", "/2", "X#1", "X-#12",
    "#1=5", "#1=[#2+3.5]*4", "X[#1+2]", "X-[1.25]", "C2=5.5", ",C1.5", ",R-2", "X0007.0500", "SIN[30]", "A-0", "GOTO10", ":15", "%", "O1234", "Z+.25", "I00.00", "#5=-#6",
    "IF[#1EQ2]GOTO7", "WHILE[#1LT2]DO1", "X[[#1]]", "#[#1]=2", "F#3"};
// expected verdict is not decided here; an accepted block has to reproduce its text

void s01_run(const std::string& c, Run& r)
{
    auto pos  = c.find('|');
    auto m    = syntax_only(c.substr(0, pos));
    auto text = c.substr(pos + 1);
    auto p    = make(m);
    auto a    = parse(*p, 1, text);
    r.trans();
    r.state(std::to_string(a.ok) + noblank(ren(a.v)));
    r.outcome(a.ok ? "accepted" : "rejected");
    if (!a.thrown.empty())
        return r.fail("exception " + a.thrown);
    if (!a.ok)
        return;
    if (!a.msg.empty())
        r.fail("accepted with message " + a.msg);
    auto t = ren(a.v, "");
    // blanks only matter inside a comment
    if (noblank(t) != noblank(text))
        r.fail("words give '" + t + "' for the block '" + text + "'");
    // comment text is kept character by character
    auto cp = [](const std::string& s) {
        std::vector<std::string> v;
        size_t                   i = 0;
        while ((i = s.find('(', i)) != std::string::npos)
        {
            auto e = s.find(')', i);
            if (e == std::string::npos)
                break;
            v.push_back(s.substr(i, e - i + 1));
            i = e;
        }
        return v;
    };
    if (cp(t) != cp(text))
        r.fail("comment text changed: '" + t + "' for '" + text + "'");
    auto p2 = make(m);
    auto b  = parse(*p2, 1, ren(a.v, " "));
    r.trans();
    if (!b.ok || ren(b.v) != ren(a.v))
        r.fail("re-reading the written block '" + ren(a.v) + "' gives ok=" + std::to_string(b.ok) + " '" + ren(b.v) + "'");
}

void s01_enum(int tier, const Emit& e)
{
    for (auto& d : driver_names())
    {
        bool all = d == "fanuc_mill";
        h::sequences(s01_tok.size(), 1, tier ? (all ? 4 : 3) : (all ? 3 : 2), [&](const std::vector<size_t>& q) {
            // separators: none / blanks; for short blocks every combination, for longer all-equal
            size_t n = q.size();
            for (size_t i = 0; i + 1 < n; ++i) // a program number stands alone or before comments
                if (s01_tok[q[i]][0] == 'O' && s01_tok[q[i + 1]][0] != '(')
                    return;
            for (unsigned mask = 0; mask < (n <= 2 ? (1u << (n - 1)) : 2u); ++mask)
            {
                std::string t;
                for (size_t i = 0; i < n; ++i)
                {
                    if (i)
                        t += (n <= 2 ? ((mask >> (i - 1)) & 1) : mask) ? (i % 2 ? " " : "  ") : "";
                    t += s01_tok[q[i]];
                }
                e(d + "|" + t);
            }
        });
    }
}
h::Reg r1({"S01", s01_enum, s01_run, "all blocks of <=3 of 40 words (2 separators) for fanuc_mill, <=2 for the other 10 drivers",
           "all blocks of <=4 words for fanuc_mill, <=3 for the other drivers"});

// ---------------------------------------------------------------- S02 word table
// reference verdict for one plain word; nullopt = outside the modelled forms
bool word_ok(const Table& t, const std::string& w, const std::string& sign, const std::string& ip, bool dot, const std::string& fp)
{
    auto& g = t.at(w);
    if (ip.empty() && fp.empty())
        return false; // value missing
    if (ip.size() > 9 || fp.size() > 9)
        return false; // not representable
    if (!ip.empty())
    {
        long v = atol(ip.c_str());
        if (sign == "-")
            v = -v;
        if (v < g.rf || v > g.rt)
            return false;
    }
    if (g.dt == 0)
        return !dot && !ip.empty();
    if (!fp.empty())
    {
        unsigned long v = strtoul(fp.c_str(), nullptr, 10);
        if (v < g.df || v > g.dt)
            return false;
    }
    return true;
}

std::string istr(long v)
{
    return std::to_string(v < 0 ? -v : v);
}

struct Form
{
    std::string sign, ip, fp;
    bool        dot;
};

std::vector<Form> forms(const RW& g)
{
    std::set<long> ints = {0, 1, 5, g.rf, g.rf - 1L, g.rf + 1L, g.rt, g.rt + 1L, g.rt - 1L, g.rt * 10L, 999999999L};
    std::vector<Form> f;
    std::set<std::string> ips;
    for (long v : ints)
        ips.insert(istr(v));
    ips.insert("");
    ips.insert("005");
    std::set<std::string> fps = {"", "0", "5", "05", std::to_string(g.df), std::to_string(g.dt), std::to_string(g.dt + 1), std::to_string(g.dt ? g.dt - 1 : 0),
                                 "99999999"};
    if (g.df)
        fps.insert(std::to_string(g.df - 1));
    for (auto s : {"", "-", "+"})
        for (auto& i : ips)
        {
            f.push_back({s, i, "", false});
            for (auto& d : fps)
                f.push_back({s, i, d, true});
        }
    return f;
}

// case: driver|units|word|sign|ip|dot|fp|context
void s02_run(const std::string& c, Run& r)
{
    auto  q   = h::split(c, '|');
    auto& d   = driver(q[0]);
    bool  inch = q[1] == "in";
    auto& t   = inch ? d.imperial : d.metric;
    std::string text;
    bool        expect;
    if (q[2] == "raw")
    {
        text   = q[3];
        expect = q[4] == "1";
    }
    else
    {
        auto  w = q[2];
        auto& g = t.at(w);
        std::string pre = g.type == "assignable" ? w + "=" : w;
        if (q[3] == "#") // macro index form: q[4] sign, q[5] index
        {
            text   = pre + q[4] + "#" + q[5];
            auto i = q[5];
            expect = !i.empty() && i.size() <= 9 && atol(i.c_str()) >= t.at("#").rf && atol(i.c_str()) <= t.at("#").rt;
        }
        else
        {
            text   = pre + q[3] + q[4] + (q[5] == "." ? "." : "") + q[6];
            expect = word_ok(t, w, q[3], q[4], q[5] == ".", q[6]);
        }
        if (q.size() > 7 && q[7] == "after")
            text = "G1 " + text;
        if (q.size() > 7 && q[7] == "before")
            text += " (C)";
    }
    auto p = make(syntax_only(q[0], inch));
    auto a = parse(*p, 1, text);
    r.trans();
    r.state(q[1] + text + std::to_string(a.ok));
    r.outcome(a.ok ? "accepted" : "rejected");
    if (!a.thrown.empty())
        return r.fail("exception " + a.thrown + " for '" + text + "'");
    if (a.ok != expect)
        return r.fail("'" + text + "' (" + q[0] + "," + q[1] + ") was " + (a.ok ? "accepted" : "rejected: " + a.msg) + ", the word table says " +
                      (expect ? "accept" : "reject"));
    if (a.ok && !a.msg.empty())
        r.fail("'" + text + "' accepted with message " + a.msg);
}

void s02_enum(int tier, const Emit& e)
{
    for (auto& dn : driver_names())
        for (std::string u : {"mm", "in"})
        {
            auto& d = driver(dn);
            auto& t = u == "in" ? d.imperial : d.metric;
            for (auto& x : t)
            {
                if (x.second.type == "calc")
                    continue;
                if (x.first == "#")
                    continue;
                for (auto& f : forms(x.second))
                {
                    auto base = dn + "|" + u + "|" + x.first + "|" + f.sign + "|" + f.ip + "|" + (f.dot ? "." : "") + "|" + f.fp;
                    e(base + "|alone");
                    if (tier || dn == "fanuc_mill")
                    {
                        if (x.first != "G")
                            e(base + "|after");
                        e(base + "|before");
                    }
                }
                auto& mg = t.at("#");
                for (std::string s : {"", "-", "+"})
                    for (std::string i : {std::string(""), istr(mg.rt), istr(mg.rt + 1L), std::string("1"), std::string("100"), std::string("99999999999"), istr(mg.rf)})
                        e(dn + "|" + u + "|" + x.first + "|#|" + s + "|" + i);
            }
            // whole-block forms
            for (auto& [s, ok] : std::vector<std::pair<std::string, bool>>{{"%", true},
                                                                           {"% G1", false},
                                                                           {"%%", false},
                                                                           {"(abc)", true},
                                                                           {"(abc", false},
                                                                           {"abc)", false},
                                                                           {"()", true},
                                                                           {"(a)(b)", true},
                                                                           {"G1(X99999999)", true},
                                                                           {"O1234", true},
                                                                           {"O", false},
                                                                           {"Oabc_1", true},
                                                                           {"O-1", false},
                                                                           {"/G1", true},
                                                                           {"/ G1", true},
                                                                           {"/0", false},
                                                                           {"/1", true},
                                                                           {"/9", true},
                                                                           {"/10", false},
                                                                           {"/1G1", true},
                                                                           {"/1/2G1", true},
                                                                           {"//G1", false},
                                                                           {"/-1", false},
                                                                           {"/1.5", false},
                                                                           
                                                                           {"C2 5", false},
                                                                           {"C2=", false},
                                                                           {"X=5", true},
                                                                           {"X1]", false},
                                                                           {"X[1]]", false},
                                                                           {"X[1]", true},
                                                                           {"X[#1]", true},
                                                                           {"+5", false},
                                                                           {"-5", false},
                                                                           {"*5", false},
                                                                           {"G1+5", false},
                                                                           {"#1=5", true},
                                                                           {"#1=#2+5", true},
                                                                           {"#1=[#2+5]*3", true},
                                                                           {"#1=SIN[30]", true}})
                if (s != "X=5" && s != "C2 5")
                    e(dn + "|" + u + "|raw|" + s + "|" + (ok ? "1" : "0"));
            // characters that start no word
            for (int ch = 33; ch < 127; ++ch)
            {
                std::string s(1, (char)ch);
                bool        starts = false;
                for (auto& x : t)
                    starts |= x.first[0] == ch;
                for (auto& o : d.ops)
                    starts |= o[0] == ch;
                if (starts || std::string("%(O/,").find((char)ch) != std::string::npos || ch == '|')
                    continue;
                e(dn + "|" + u + "|raw|" + s + "1|0");
                e(dn + "|" + u + "|raw|G1 " + s + "5|0");
            }
        }
}
h::Reg r2({"S02", s02_enum, s02_run,
           "every word of every shipped word table (11 drivers x mm/inch) x 3 signs x all boundary integer parts x all boundary decimals, macro-index forms, 40 block forms, every other printable character",
           "as quick, each form also after and before another word for every driver"});

// ---------------------------------------------------------------- S03 history independence
const std::vector<std::string> s03_lines = {"G1 X10. F100",
                                            "X",
                                            "X[1",
                                            "X[1]",
                                            "X1]",
                                            "#1=5",
                                            "#1=[#2+3]*2",
                                            "#1=",
                                            "+5",
                                            "X5 +3",
                                            "/10 G1",
                                            "/2 G1",
                                            "/-1",
                                            "F",
                                            "C2=[#1",
                                            "C2=5",
                                            "G",
                                            "G1000",
                                            "N10 (c",
                                            "(comment)",
                                            "X[[1+2]]",
                                            "X1 X2",
                                            "Y-5/2",
                                            "IF[#1EQ2]GOTO",
                                            "%",
                                            "O100",
                                            "Z999999",
                                            "=5",
                                            "M3"};

void s03_run(const std::string& c, Run& r)
{
    static std::map<std::string, std::string> fresh;
    auto                                      q     = h::split(c, '\n');
    auto                                      head  = h::split(q[0], '|');
    auto                                      canon = [](const Res& a) { return std::to_string(a.ok) + "/" + a.msg + "/" + a.thrown + "/" + (a.ok ? ren(a.v) : ""); };
    if (head[1] == "syntax")
    {
        auto p = make(syntax_only(head[0]));
        for (size_t i = 1; i < q.size(); ++i)
        {
            auto a = canon(parse(*p, (int)i, q[i]));
            r.trans();
            auto& f = fresh[head[0] + q[i]];
            if (f.empty())
                f = canon(parse(*make(syntax_only(head[0])), 1, q[i]));
            r.state(q[i] + a);
            r.outcome(a[0] == '1' ? "accepted" : "rejected");
            if (a != f)
                return r.fail("block " + std::to_string(i) + " '" + q[i] + "' read as " + a + " but as " + f + " when it comes first");
        }
    }
    else
    {
        // rejected-for-syntax blocks in between leave the evaluation of the program unchanged
        Machine m;
        m.driver = head[0];
        m.ps.verify_code_groups = false;
        auto p = make(m), ref = make(m);
        for (size_t i = 1; i < q.size(); ++i)
        {
            bool bad = q[i][0] == '!';
            auto t   = bad ? q[i].substr(1) : q[i];
            auto a   = parse(*p, (int)i, t);
            r.trans();
            r.state(canon(a) + fx::canon(*p));
            if (bad)
            {
                if (a.ok)
                    return r.fail("'" + t + "' accepted");
                continue;
            }
            auto b = parse(*ref, (int)i, t);
            r.outcome(b.ok ? "good" : "bad");
            if (canon(a) != canon(b) || fx::lasting(*p) != fx::lasting(*ref))
                return r.fail("after rejected blocks '" + t + "' gives " + canon(a) + " " + fx::lasting(*p) + " instead of " + canon(b) + " " + fx::lasting(*ref));
        }
    }
}

void s03_enum(int tier, const Emit& e)
{
    for (auto& d : driver_names())
    {
        bool main = d == "fanuc_mill";
        h::sequences(s03_lines.size(), 2, main ? (tier ? 4 : 3) : (tier ? 3 : 2), [&](const std::vector<size_t>& s) {
            std::string c = d + "|syntax";
            for (auto i : s)
                c += "\n" + s03_lines[i];
            e(c);
        });
        std::vector<std::string> good = {"G1 X10. F100", "#1=5", "X#1", "G91", "G81 Z-5 R2 F50", "G2 X5 Y5 I5 J0", "X[#1+2]", "T5 M6"};
        std::vector<std::string> bad  = {"!X[1]]", "!G1 X", "!#2=[", "!X99 X1]", "!G91 X999999", "!#1=7 Z999999", "!F200 (", "!G20 X?", "!#1=7 X1 X2", "!G91 F9 X1 X2"};
        for (auto& g1 : good)
            for (auto& b1 : bad)
                for (auto& g2 : good)
                {
                    e(d + "|full\n" + b1 + "\n" + g1 + "\n" + g2);
                    e(d + "|full\n" + g1 + "\n" + b1 + "\n" + g2);
                    if (tier || main)
                        for (auto& b2 : bad)
                            for (auto& g3 : good)
                                e(d + "|full\n" + g1 + "\n" + b1 + "\n" + g2 + "\n" + b2 + "\n" + g3);
                }
    }
}
h::Reg r3({"S03", s03_enum, s03_run,
           "all sequences of <=3 of 29 blocks (fanuc_mill), <=2 (other drivers); all good/bad interleavings of 8x10 blocks up to 5",
           "all sequences of <=4 (fanuc_mill), <=3 (others); all interleavings for every driver"});

// ---------------------------------------------------------------- S04 words that may occur once
void s04_run(const std::string& c, Run& r)
{
    auto        q    = h::split(c, '|');
    auto&       d    = driver(q[0]);
    bool        inch = q[1] == "in";
    auto&       t    = inch ? d.imperial : d.metric;
    std::string text;
    std::map<std::string, int> n;
    bool        ok = true;
    for (size_t i = 2; i < q.size(); ++i)
    {
        auto  s = h::split(q[i], '~'); // word~value
        auto& g = t.at(s[0]);
        auto  w = s[0] + (g.type == "assignable" ? "=" : "") + (s.size() > 1 ? s[1] : std::to_string(1 + (i & 1)));
        if (s.size() > 1 && !parse(*make(syntax_only(q[0], inch)), 1, w).ok)
            return; // the table does not allow this value (S02)
        text += (i > 2 ? " " : "") + w;
        if (++n[s[0]] > 1 && g.unique)
            ok = false;
    }
    auto p = make(syntax_only(q[0], inch));
    auto a = parse(*p, 1, text);
    r.trans();
    r.state(text + std::to_string(a.ok));
    r.outcome(a.ok ? "accepted" : "rejected");
    if (!a.thrown.empty())
        return r.fail("exception " + a.thrown);
    if (a.ok != ok)
        r.fail("'" + text + "' was " + (a.ok ? "accepted" : "rejected: " + a.msg) + " by " + q[0]);
    if (!a.ok && a.msg.empty())
        r.fail("rejected without a message");
}
void s04_enum(int tier, const Emit& e)
{
    for (auto& dn : driver_names())
        for (std::string u : {"mm", "in"})
        {
            auto&                    d = driver(dn);
            auto&                    t = u == "in" ? d.imperial : d.metric;
            std::vector<std::string> w;
            for (auto& x : t)
                if (x.second.type != "calc" && x.first != "#")
                    w.push_back(x.first);
            h::sequences(w.size(), 1, 2, [&](const std::vector<size_t>& s) {
                std::string c = dn + "|" + u;
                for (auto i : s)
                    c += "|" + w[i];
                e(c);
            });
            // the same word twice, whatever its two values
            const std::vector<std::string> val = {"1", "-1", "+2", "1.5", ".5", "#1", "-#1", "[1]", "-[1]", "+[#1+2]", "#[1+2]", "0", "01"};
            for (auto& x : w)
                for (auto& v1 : val)
                    for (auto& v2 : val)
                        for (std::string mid : {"", "|M", "|N"})
                            if (mid.empty() || mid.substr(1) != x)
                                e(dn + "|" + u + "|" + x + "~" + v1 + mid + "|" + x + "~" + v2);
            std::vector<std::string> k = {"X", "C2", "N", "M", "R", "F"};
            h::sequences(k.size(), 3, tier ? 6 : (dn == "fanuc_mill" ? 5 : 4), [&](const std::vector<size_t>& s) {
                std::string c = dn + "|" + u;
                for (auto i : s)
                    c += "|" + k[i];
                e(c);
            });
        }
}
h::Reg r4({"S04", s04_enum, s04_run, "every ordered pair of words of every table (11 drivers x mm/inch); every word twice with all pairs of 13 values; all blocks of 3..4 (fanuc_mill 5) words over 6 words",
           "every ordered pair; all blocks of 3..6 words over 6 words"});

} // namespace

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
