// T group: transformations of programs (unit conversion, numbering, removal, rotation, splitting) and the C interface.
#include "fx.hpp"
#include <memory>
using namespace fx;
using h::Emit;
using h::Run;

namespace {

// parsers are costly to make; a worker keeps one for each configuration of a property where a case sets all it needs
fanuc::AllAttributesParser& kept(const std::string& key, const std::function<Machine()>& mk)
{
    static std::map<std::string, std::unique_ptr<fanuc::AllAttributesParser>> m;
    auto&                                                                     p = m[key];
    if (!p)
        p = make(mk());
    return *p;
}

Machine plain(const std::string& drv, bool inch)
{
    Machine m;
    m.driver = drv;
    if (inch)
        m.cnc.default_driver_units = EDriverUnits::Inch;
    return m;
}

std::string join(const std::vector<std::string>& v, const std::string& sep)
{
    std::string o;
    for (size_t i = 0; i < v.size(); ++i)
        o += (i ? sep : "") + v[i];
    return o;
}

bool has(const std::string& s, const char* set)
{
    return s.find_first_of(set) != std::string::npos;
}

// one written word: letters, sign, digits, fraction
struct W
{
    std::string word, sign, num;
};
W word_of(const std::string& t)
{
    W      w;
    size_t i = 0;
    while (i < t.size() && !isdigit((unsigned char)t[i]) && t[i] != '+' && t[i] != '-' && t[i] != '.')
        w.word += t[i++];
    if (i < t.size() && (t[i] == '+' || t[i] == '-'))
        w.sign = t[i++];
    w.num = t.substr(i);
    return w;
}
std::string code_of(const std::string& t) // "04" -> "4", "68.2" -> "68.2"
{
    auto        n = word_of(t).num;
    auto        d = n.find('.');
    std::string a = n.substr(0, d), b = d == std::string::npos ? "" : n.substr(d);
    while (a.size() > 1 && a[0] == '0')
        a.erase(0, 1);
    return a + b;
}


struct Out
{
    bool        ok{};
    std::string msg, text, thrown;
    bool        operator==(const Out& o) const
    {
        return ok == o.ok && msg == o.msg && text == o.text && thrown == o.thrown;
    }
};
template <typename F>
Out call(F f, const std::string& sep = "")
{
    Out                       o;
    fanuc::FanucAttributeData d;
    try
    {
        o.ok = f(d, o.msg);
    }
    catch (const std::exception& e)
    {
        o.thrown = std::string("exception ") + e.what();
    }
    o.text = ren(d.value, sep);
    return o;
}
using P = fanuc::AllAttributesParser;
using A = AttributeVariantData;
using S = std::string;

// ---------------------------------------------------------------- T01 conversion of units
using i128 = __int128;
std::vector<S> convert_number(const S& num, bool to_inch, int digits)
{
    auto d = num.find('.');
    S    a = num.substr(0, d), b = d == S::npos ? "" : num.substr(d + 1);
    i128 n = 0, den = 1;
    for (char c : a + b)
        n = n * 10 + (c - '0');
    for (size_t i = 0; i < b.size(); ++i)
        den *= 10;
    if (to_inch)
        n *= 10, den *= 254;
    else
        n *= 254, den *= 10;
    for (int i = 0; i < digits; ++i)
        n *= 10;
    std::vector<i128> q = {n / den};
    i128              r = n % den;
    if (2 * r == den)
        q.push_back(q[0] + 1); // exactly between two: either
    else if (2 * r > den)
        q[0] += 1;
    std::vector<S> out;
    for (auto x : q)
    {
        S t;
        for (int i = 0; i < digits || x; ++i, x /= 10)
            t.insert(t.begin(), (char)('0' + (int)(x % 10)));
        while ((int)t.size() < digits + 1)
            t.insert(t.begin(), '0');
        S f = t.substr(t.size() - digits), w = t.substr(0, t.size() - digits);
        while (!f.empty() && f.back() == '0')
            f.pop_back();
        out.push_back(f.empty() ? w : w + "." + f);
    }
    return out;
}

// every reading of the converted block that is right
std::vector<S> t01_expected(const Driver& d, bool to_inch, const std::vector<S>& tok)
{
    bool dwell = false, rotation = false;
    for (auto& t : tok)
        if (t[0] == 'G' && !has(t, "#["))
        {
            auto c = code_of(t);
            dwell |= c == "4";
            rotation |= c == "68" || c == "68.2" || c == "68.3" || c == "68.4";
        }
    std::vector<S> out = {""};
    auto           add = [&](const std::vector<S>& alt) {
        std::vector<S> n;
        for (auto& o : out)
            for (auto& a : alt)
                n.push_back(o + a);
        out = n;
    };
    auto& tab = to_inch ? d.imperial : d.metric;
    for (auto& t : tok)
    {
        auto w = word_of(t);
        if (tok[0][0] == '/' || dwell || t[0] == '(' || has(t, "#[]=") || !tab.count(w.word) || !has(w.num, "0123456789"))
            add({t});
        else if (w.word == "G")
        {
            auto c = code_of(t);
            if (c == (to_inch ? "21" : "20"))
                add({to_inch ? "G20" : "G21"});
            else
                add({t});
        }
        else
        {
            auto& g = tab.at(w.word);
            if ((g.type != "length" && g.type != "feed") || (rotation && (w.word == "I" || w.word == "J" || w.word == "K" || w.word == "R")))
                add({t});
            else
            {
                auto v = convert_number(w.num, to_inch, (int)std::to_string(g.dt).size());
                for (auto& x : v)
                    x = w.word + w.sign + x;
                add(v);
            }
        }
    }
    return out;
}

// the path of the converted program is the path of the original one, in the other unit
void t01_path(const std::vector<S>& q, Run& r)
{
    bool    to_inch = q[2] == "in";
    Machine m       = plain(q[1], !to_inch), m2 = plain(q[1], to_inch);
    m.mpd = m2.mpd = MachinePointsData{{{"X", 0}, {"Y", 0}, {"Z", 0}}, {{"X", 0}, {"Y", 0}, {"Z", 0}}};
    m.ps = m2.ps = ParserSettings{true, false, true, false, false};
    if (driver(q[1]).lathe)
    {
        m.type = m2.type = EMachineToolType::Lathe;
        m.tool = m2.tool = EMachineTool::lathe_zx;
        m.cnc.default_work_plane = m2.cnc.default_work_plane = EWorkPlane::XZ;
    }
    auto   a = make(m), b = make(m2), c = make(m);
    double f    = to_inch ? 1 / 25.4 : 25.4;
    auto   near = [](double x, double y) { return std::fabs(x - y) <= 2e-3 * std::max(1.0, std::fabs(y)); };
    S      text;
    for (size_t i = 3; i < q.size(); ++i)
    {
        auto o = call([&](A& v, S& msg) {
            return c->convert_length((int)i, q[i], v, msg, true, to_inch ? UnitConversionType::metric_to_imperial : UnitConversionType::imperial_to_metric);
        });
        text += q[i] + " -> " + o.text + "; ";
        auto x = parse(*a, (int)i, q[i]);
        auto y = parse(*b, (int)i, o.text);
        r.trans(2);
        if (x.ok != y.ok)
            return r.fail(text + (x.ok ? "only the original is accepted: " + y.msg : "only the converted one is accepted: " + x.msg));
        if (!x.ok)
            break;
        auto &pa = a->get_path_result(), &pb = b->get_path_result();
        if (!near(pa.total * f, pb.total) || !near(pa.work_motion * f, pb.work_motion) || !near(pa.fast_motion * f, pb.fast_motion))
            return r.fail(text + "paths " + canon(pa) + " and " + canon(pb));
        for (auto& w : a->get_word_range())
            if (driver(q[1]).metric.count(w.first) && driver(q[1]).metric.at(w.first).type == "length")
            {
                auto& g = b->get_word_range();
                auto  k = g.find(w.first);
                if (k == g.end() || !near(std::get<0>(w.second) * f, std::get<0>(k->second)) || !near(std::get<1>(w.second) * f, std::get<1>(k->second)) ||
                    !near(std::get<2>(w.second) * f, std::get<2>(k->second)))
                    return r.fail(text + "positions " + canon(a->get_word_range()) + " and " + canon(g));
            }
    }
    r.state(canon(*b));
    r.outcome("programs");
}

void t01_run(const S& c, Run& r)
{
    auto q = h::split(c, '|');
    if (q[0] == "P")
        return t01_path(q, r);
    bool  inch = q[1] == "in", to_inch = q[2] == "in";
    auto& d   = driver(q[0]);
    auto  tok = h::split(q[3], '~');
    auto  txt = join(tok, " ");
    auto& p   = kept("T01" + q[0] + q[1], [&] { return plain(q[0], inch); });
    auto  was = canon(p);
    auto  o   = call([&](A& v, S& m) { return p.convert_length(1, txt, v, m, true, to_inch ? UnitConversionType::metric_to_imperial : UnitConversionType::imperial_to_metric); });
    auto  s   = call([&](A& v, S& m) { return p.remove_comment(1, txt, v, m, true); }); // reads the block the same way
    r.trans();
    r.state(o.text + o.msg);
    if (canon(p) != was)
        r.fail("conversion of '" + txt + "' changed the totals or variables");
    if (!o.thrown.empty())
        return r.fail("'" + txt + "': " + o.thrown);
    if (!s.ok)
    {
        r.outcome("rejected");
        if (o.ok || o.msg != s.msg)
            r.fail("'" + txt + "' cannot be read (" + s.msg + ") but conversion says " + (o.ok ? "fine" : o.msg));
        return;
    }
    r.outcome(o.text == join(tok, "") ? "unchanged" : "converted");
    auto e = t01_expected(d, to_inch, tok);
    if (!o.ok)
        r.fail("'" + txt + "' was not converted: " + o.msg);
    else if (std::find(e.begin(), e.end(), o.text) == e.end())
        r.fail("'" + txt + "' to " + q[2] + " gives '" + o.text + "', expected '" + join(e, "' or '") + "'");
}
void t01_enum(int tier, const Emit& e)
{
    const std::vector<S> val = {"0",   "1",   "2",     "10",   "25.4", "127",  "0.5",  ".5",   "5.",    "-1",     "-25.4", "+3",    "0.0001", "1.2345", "-0.03",  "12.700", "007", "-.0625", "100",  "99.99",
                                "254", "-0",  "3.937", "0.01", "1500", "33.3", "20.0", "-7.1", "0.254", "12.345", "1000",  "+.127", "2.54",   "508",    "0.1270", "#1",     "-#7", "[1+2]",  "-[.5]", "[#1*2.5]"};
    for (auto& dn : driver_names())
        for (S u : {"mm", "in"})
            for (S to : {"in", "mm"})
            {
                auto& d = driver(dn);
                S     k = dn + "|" + u + "|" + to + "|";
                for (auto& w : (u == "mm" ? d.metric : d.imperial))
                    if (w.second.type != "calc" && w.first != "#" && w.first != "/" && w.second.type != "assignable")
                    {
                        for (auto& v : val)
                        {
                            if (w.first == "G" && v == "20.0")
                                continue; // either reading will do
                            e(k + w.first + v);
                            for (S g : {"G4", "G04", "G68", "G68.2", "G1", "G21", "G020", "/", "/2"})
                            {
                                e(k + g + "~" + w.first + v);
                                if (g[0] == 'G')
                                    e(k + w.first + v + "~" + g);
                            }
                        }
                    }
                std::vector<S> tok = {"N10",  "G1",    "G20",   "G21", "G020", "G021",     "G4",    "G04",    "G68",    "G68.2",  "G068.3",    "G54.1", "X10",   "Y-25.4", "Z1.5",
                                      "I2",   "J-3.5", "K1.27", "R5",  "F100", "X#1",      "Y-#2",  "Z[1+2]", "(X10 G4)", "P10",   "A10.5",     "S1000", "M3",    "/",      "/2", "#1=[#2+3.5]*4",
                                      "U7.5", "T12",   "D5",    "H3",  "G[4]", "G#4",      "%",     "O1234",  "IF[#1EQ2]GOTO7", "#1=10", "C2=5.5", "Q2",    "G40",   "G168", "Y", "Y."};
                const size_t   n   = (dn == "fanuc_mill" && u == "mm") ? (tier ? 4 : 3) : (tier && u == "mm" ? 3 : 2);
                h::sequences(tok.size(), 1, n, [&](const std::vector<size_t>& s) {
                    S b;
                    for (size_t i = 0; i < s.size(); ++i)
                    {
                        if (tok[s[i]][0] == '/' && i > 0)
                            return; // division or condition in the middle
                        if (i && tok[s[i - 1]] == "O1234")
                            return; // letters after a program name are skipped
                        b += (i ? "~" : "") + tok[s[i]];
                    }
                    e(k + b);
                });
            }
    for (S dn : {"fanuc_mill", "haas_mill", "fanuc_lathe_system_a"})
        for (S to : {"in", "mm"})
        {
            const bool     in  = to == "in";
            bool           la  = driver(dn).lathe;
            S              g   = in ? "G21" : "G20";
            std::vector<S> b   = la ? std::vector<S>{g, "G0X50.8Z25.4", "G1Z-25.4F254", "G2X50.8Z0R25.4", "G3X0Z50.8R50.8", "X25.4", "U12.7W-25.4", "G0Z127", "G4X10.16", "G1X#1", "#1=0"}
                                    : std::vector<S>{g, "G0X50.8Y25.4", "G1Z-25.4F254", "G2X50.8Y50.8R25.4", "G3X0Y0I25.4J0", "X25.4", "G91", "G90", "G68X0Y0R45", "Z127G0", "G4X10.16", "G18", "G2X25.4Z0R50.8",
                                                     "G81Z-12.7R2.54F127", "Y76.2", "G80", "G28Z0", "G43Z25.4H1"};
            h::sequences(b.size(), 1, tier ? 4 : 3, [&](const std::vector<size_t>& s) {
                S c = "P|" + dn + "|" + to;
                for (auto i : s)
                    c += "|" + b[i];
                e(c);
            });
        }
}
h::Reg r1({"T01", t01_enum, t01_run,
           "every word x 40 values, alone and with 9 codes, 11 drivers x mm/inch x 2 directions; all blocks of up to 3 of 45 words (2 on the other drivers); the path of all programs of up to 3 blocks on 3 drivers",
           "the same, blocks of up to 4 (3) words, programs of up to 4 blocks"});

// ---------------------------------------------------------------- T02 numbering of blocks
struct Rs
{
    S        word;
    unsigned step, freq, max;
    bool     existing, zeros;
};
const std::vector<S> t02_blk = {"G1 X1", "N5 G1", "N77", ":7 G1", "/ G1", "/1 N5 G1", "%", "O1234", "(c)", "N0005 (c)", "#1=2", "G1 N9", "N3 N4 X1", "M30 (c)", "", "IF[#1EQ2]GOTO7", "T1 M6", ":12", "N2 / X1"};
// +: the start value is set to 40, !: reset
struct Num
{
    const Driver& d;
    unsigned      counter = 1, phase = 0;
    S             block(const Rs& s, const S& b)
    {
        auto tok = b.empty() ? std::vector<S>{} : h::split(b, ' ');
        if (tok.empty() || tok[0][0] == '/')
            return join(tok, "");
        auto is_number = [&](const S& t) {
            auto w = word_of(t).word;
            return d.metric.count(w) && d.metric.at(w).type == "numbering";
        };
        bool had = is_number(tok[0]);
        if (!had && (s.existing || tok[0][0] == '%' || tok[0][0] == 'O' || tok[0][0] == '('))
            return join(tok, "");
        if (had)
            tok.erase(tok.begin());
        if (s.freq < 2 || phase == 0)
        {
            S n = std::to_string(counter);
            if (s.zeros && d.metric.count(s.word))
                while (n.size() < std::to_string(d.metric.at(s.word).rt).size())
                    n.insert(n.begin(), '0');
            tok.insert(tok.begin(), s.word + n);
            counter += s.step;
            if (counter > s.max)
                counter = (unsigned)d.metric.at(s.word).rf;
        }
        if (s.freq > 1)
            phase = (phase + 1) % s.freq;
        return join(tok, "");
    }
};
void t02_run(const S& c, Run& r)
{
    auto  q = h::split(c, '|'); // driver|word|step|freq|max|existing|zeros|ops
    Rs    s{q[1], (unsigned)std::stoi(q[2]), (unsigned)std::stoi(q[3]), (unsigned)std::stoi(q[4]), q[5] == "1", q[6] == "1"};
    auto& p = kept("T02" + q[0], [&] { return plain(q[0], false); });
    Num   n{driver(q[0])};
    auto  was = canon(p);
    p.renumber_reset();
    S text;
    for (auto& o : h::split(q[7], ','))
    {
        r.trans();
        if (o == "+")
        {
            p.set_renumber_start_value(40);
            n.counter = 40;
            text += "start 40; ";
            continue;
        }
        if (o == "!")
        {
            p.renumber_reset();
            n.counter = 1;
            n.phase   = 0;
            text += "reset; ";
            continue;
        }
        auto& b = t02_blk[std::stoi(o)];
        auto  a = call([&](A& v, S& m) { return p.renumber(1, b, v, m, true, RenumberSettings{s.word, s.step, s.freq, s.max, s.existing, s.zeros}); });
        auto  e = n.block(s, b);
        text += "'" + b + "'; ";
        if (a.text != e || a.ok == b.empty() || !a.thrown.empty())
            return r.fail("numbering " + text + "gives '" + a.text + "' " + a.msg + a.thrown + ", expected '" + e + "'");
        r.outcome(a.text == join(h::split(b, ' '), "") ? "kept" : b.empty() || a.text.size() > b.size() ? "numbered" : "number replaced or removed");
    }
    r.state(q[0] + q[1] + q[2] + "," + q[3] + "," + q[4] + q[5] + q[6] + ":" + std::to_string(n.counter) + "/" + std::to_string(n.phase));
    if (canon(p) != was)
        r.fail("numbering changed the totals or variables: " + text);
}
void t02_enum(int tier, const Emit& e)
{
    for (auto& dn : driver_names())
    {
        bool main = dn == "fanuc_mill";
        for (S w : {"N", ":"})
            for (S st : {"1", "10", "7"})
                for (S fr : {"0", "1", "2", "3"})
                    for (S mx : {"9999", "25", "1"})
                        for (S ex : {"0", "1"})
                            for (S z : {"0", "1"})
                            {
                                S k = dn + "|" + w + "|" + st + "|" + fr + "|" + mx + "|" + ex + "|" + z + "|";
                                h::sequences(t02_blk.size() + 2, 1, main ? 2 : (st == "10" && mx == "25" ? 2 : 1), [&](const std::vector<size_t>& s) {
                                    S c = k;
                                    for (size_t i = 0; i < s.size(); ++i)
                                        c += (i ? "," : "") + (s[i] < t02_blk.size() ? std::to_string(s[i]) : S(s[i] == t02_blk.size() ? "+" : "!"));
                                    e(c);
                                });
                                // longer histories over fewer blocks
                                const std::vector<S> few = {"0", "1", "4", "6", "+", "!"};
                                h::sequences(few.size(), 3, main ? (tier ? 7 : 5) : (tier ? 4 : 3), [&](const std::vector<size_t>& s) {
                                    S c = k;
                                    for (size_t i = 0; i < s.size(); ++i)
                                        c += (i ? "," : "") + few[s[i]];
                                    e(c);
                                });
                            }
    }
}
h::Reg r2({"T02", t02_enum, t02_run,
           "288 settings x all histories of up to 2 of 19 blocks, setting the start value and resetting, and of up to 5 of 6 of these, on fanuc_mill; up to 3 of 6 (2 of 21 in part) on ten more drivers",
           "the same with histories of up to 7 (4)"});

// ---------------------------------------------------------------- T03 removing numbers, comments and optional block marks
void t03_run(const S& c, Run& r)
{
    auto  q   = h::split(c, '|');
    auto& d   = driver(q[0]);
    auto  tok = h::split(q[1], '~');
    S     txt = join(tok, " ");
    auto& p   = kept("T03" + q[0], [&] { return plain(q[0], false); });
    auto  was = canon(p);
    auto  num = [&](const S& t) {
        auto w = word_of(t).word;
        return d.metric.count(w) && d.metric.at(w).type == "numbering";
    };
    std::vector<S> n = tok, k, o = tok;
    if (num(n[0]))
        n.erase(n.begin());
    for (auto& t : tok)
        if (t[0] != '(')
            k.push_back(t);
    while (!o.empty() && o[0][0] == '/' && o[0].size() > 1)
        o.erase(o.begin());
    auto a = call([&](A& v, S& m) { return p.remove_numbering(1, txt, v, m, true); });
    auto b = call([&](A& v, S& m) { return p.remove_comment(1, txt, v, m, true); });
    auto f = call([&](A& v, S& m) { return p.remove_optional_block(1, txt, v, m, true); });
    r.trans(3);
    r.state(a.text + "|" + b.text + "|" + f.text);
    if (!a.thrown.empty() || !b.thrown.empty() || !f.thrown.empty())
        return r.fail("'" + txt + "': " + a.thrown + b.thrown + f.thrown);
    if (a.ok != b.ok || b.ok != f.ok || a.msg != b.msg || b.msg != f.msg)
        r.fail("'" + txt + "' is read in different ways");
    if (canon(p) != was)
        r.fail("'" + txt + "' changed the totals or variables");
    r.outcome(a.ok ? "read" : "rejected");
    if (!a.ok)
        return;
    if (a.text != join(n, ""))
        r.fail("'" + txt + "' without number is '" + a.text + "'");
    if (b.text != join(k, ""))
        r.fail("'" + txt + "' without comments is '" + b.text + "'");
    if (f.text != join(o, ""))
        r.fail("'" + txt + "' without optional block marks is '" + f.text + "'");
}
void t03_enum(int tier, const Emit& e)
{
    const std::vector<S> tok = {"N10", "N0005", ":7", "/", "/1", "/9", "(c)", "()", "(N5 /2)", "G1", "X-1.5", "#1=2", "%", "O1234", "Y#1", "M30", "GOTO10", "X[#1+2]", "(a/b)"};
    for (auto& dn : driver_names())
        h::sequences(tok.size(), 1, dn == "fanuc_mill" ? (tier ? 5 : 4) : (tier ? 4 : 3), [&](const std::vector<size_t>& s) {
            S b;
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (i && tok[s[i - 1]] == "O1234" && tok[s[i]][0] != '(')
                    return;
                if (i && tok[s[i]][0] == '/' && tok[s[i - 1]][0] != '/' && tok[s[i - 1]][0] != '(')
                    return; // a division
                b += (i ? "~" : "") + tok[s[i]];
            }
            e(dn + "|" + b);
        });
}
h::Reg r3({"T03", t03_enum, t03_run, "all blocks of up to 4 of 19 words on fanuc_mill, up to 3 on ten more drivers", "blocks of up to 5 (4) words"});

// ---------------------------------------------------------------- T04 rotation of axes
struct Rot // what becomes of each axis: new axis and sign
{
    int to[3], sign[3];
};
// k turns by -90 degrees about axis a: for a = Z, Y goes to X and X to -Y
Rot rotation(int axis, int k)
{
    int m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    int b = (axis + 1) % 3, c = (axis + 2) % 3;
    for (int t = 0; t < k; ++t)
    {
        for (int j = 0; j < 3; ++j)
        {
            int nb = m[c][j], nc = -m[b][j];
            m[b][j] = nb;
            m[c][j] = nc;
        }
    }
    Rot r{};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            if (m[i][j])
            {
                r.to[j]   = i;
                r.sign[j] = m[i][j];
            }
    return r;
}
AxesRotatingOption rot_option(int axis, int k)
{
    return static_cast<AxesRotatingOption>(axis * 3 + k - 1);
}
S strip_plus(S t) // X+1 and X1, X-0 and X0, G03 and G3 are the same
{
    auto p = t.find('+');
    if (p == 1)
        t.erase(1, 1);
    if (t.size() > 2 && t[1] == '-' && t.find_first_not_of("0.", 2) == S::npos)
        t.erase(1, 1);
    if (t[0] == 'G')
        while (t.size() > 2 && t[1] == '0' && isdigit((unsigned char)t[2]))
            t.erase(1, 1);
    return t;
}
S rotated_token(const Rot& r, const S& t)
{
    static const S axes = "XYZ", centre = "IJK";
    if (t[0] == 'G' && !has(t, "#["))
    {
        auto c = code_of(t);
        if (c == "17" || c == "18" || c == "19")
        {
            int normal = c == "17" ? 2 : c == "18" ? 1 : 0;
            int n      = r.to[normal];
            return n == 2 ? "G17" : n == 1 ? "G18" : "G19";
        }
        if ((c == "2" || c == "3") && r.sign[2] < 0)
            return c == "2" ? "G3" : "G2";
        return strip_plus(t);
    }
    if (t == "G[2]" && r.sign[2] < 0)
        return "G[3]";
    for (auto* set : {&axes, &centre})
    {
        auto p = set->find(t[0]);
        if (p == S::npos)
            continue;
        S    rest = t.substr(1);
        bool neg  = !rest.empty() && rest[0] == '-';
        if (!rest.empty() && (rest[0] == '-' || rest[0] == '+'))
            rest.erase(0, 1);
        if (r.sign[p] < 0)
            neg = !neg;
        return strip_plus(S(1, (*set)[r.to[p]]) + (neg ? "-" : "") + rest);
    }
    return t;
}
void t04_path(const std::vector<S>& q, Run& r)
{
    int  axis = q[2][0] - 'X', k = q[2][1] - '0';
    auto rot  = rotation(axis, k);
    auto mk   = [&] {
        Machine m = plain(q[1], false);
        m.mpd     = MachinePointsData{{{"X", 0}, {"Y", 0}, {"Z", 0}}, {{"X", 0}, {"Y", 0}, {"Z", 0}}};
        m.ps      = {true, true, true, false, false};
        return m;
    };
    auto& a = kept("T04a" + q[1], mk);
    auto& b = kept("T04b" + q[1], mk);
    for (auto* p : {&a, &b})
    {
        p->reset_macro_values(true);
        p->reset_attributes_path_calculator();
    }
    S text;
    for (size_t i = 3; i < q.size(); ++i)
    {
        auto o = call([&](A& v, S& m) { return a.rotate_axes((int)i, q[i], v, m, true, rot_option(axis, k)); }, " ");
        text += q[i] + " -> " + o.text + "; ";
        auto x = parse(a, (int)i, q[i]);
        auto y = parse(b, (int)i, o.text);
        r.trans(2);
        if (x.ok != y.ok)
            return r.fail(text + (x.ok ? "only the original is accepted: " + y.msg : "only the rotated one is accepted: " + x.msg));
        if (!x.ok)
            break;
        if (canon(a.get_path_result()) != canon(b.get_path_result()) || canon(a.get_time_result()) != canon(b.get_time_result()))
            return r.fail(text + "results " + canon(a.get_path_result()) + " " + canon(a.get_time_result()) + " and " + canon(b.get_path_result()) + " " + canon(b.get_time_result()));
        fanuc::word_range_map e;
        for (auto& w : a.get_word_range())
        {
            auto p = S("XYZ").find(w.first);
            if (w.first.size() != 1 || p == S::npos)
                e[w.first] = w.second;
            else
            {
                auto [lo, cur, hi]          = w.second;
                e[S(1, "XYZ"[rot.to[p]])] = rot.sign[p] > 0 ? std::make_tuple(lo, cur, hi) : std::make_tuple(-hi, -cur, -lo);
            }
        }
        for (S c : {"I", "J", "K"}) // ranges of written words only
            e.erase(c);
        auto g = b.get_word_range();
        for (S c : {"I", "J", "K"})
            g.erase(c);
        if (canon(e) != canon(g))
            return r.fail(text + "positions " + canon(g) + ", expected " + canon(e));
    }
    r.state(canon(b));
    r.outcome("programs");
}
void t04_run(const S& c, Run& r)
{
    auto q = h::split(c, '|');
    if (q[0] == "P")
        return t04_path(q, r);
    auto  tok = h::split(q[1], '~');
    S     txt = join(tok, " ");
    auto& p   = kept("T04" + q[0], [&] { return plain(q[0], false); });
    auto  was = canon(p);
    bool  dwell = false;
    for (auto& t : tok)
        dwell |= t[0] == 'G' && !has(t, "#[") && code_of(t) == "4";
    auto s = call([&](A& v, S& m) { return p.remove_comment(1, txt, v, m, true); });
    for (int axis = 0; axis < 3; ++axis)
        for (int k = 1; k <= 3; ++k)
        {
            auto rot = rotation(axis, k);
            auto o   = call([&](A& v, S& m) { return p.rotate_axes(1, txt, v, m, true, rot_option(axis, k)); }, "~");
            r.trans();
            r.state(o.text);
            if (!o.thrown.empty())
                return r.fail("'" + txt + "': " + o.thrown);
            if (o.ok != s.ok || o.msg != s.msg)
                return r.fail("'" + txt + "' is read in another way by the rotation: " + o.msg);
            if (!s.ok)
            {
                r.outcome("rejected");
                continue;
            }
            S e, g;
            for (auto& t : tok)
                e += (dwell ? strip_plus(t) : rotated_token(rot, t)) + " ";
            for (auto& t : h::split(o.text, '~'))
                g += strip_plus(t) + " ";
            auto nb = [](S x) {
                x.erase(std::remove(x.begin(), x.end(), ' '), x.end());
                return x;
            };
            r.outcome("rotated");
            if (nb(e) != nb(g))
                return r.fail("'" + txt + "' rotated " + std::to_string(90 * k) + " about " + "XYZ"[axis] + " gives '" + g + "', expected '" + e + "'");
        }
    if (canon(p) != was)
        r.fail("'" + txt + "' changed the totals or variables");
}
void t04_enum(int tier, const Emit& e)
{
    const std::vector<S> tok = {"N10", "G0", "G1",  "G2",   "G3",   "G02",  "G03",   "G17", "G18", "G19",  "G4",  "G04", "X1",  "Y-2.5", "Z+3",      "X#1",  "Y-#2", "Z[1+2]", "X-[#1*2]", "I1", "J-2",
                                "K.5", "R5", "R-5", "F100", "A10", "M3", "(X1 G2)", "#1=5", "G54", "G020", "G90", "T2",  "U1",  "W-2",   "G#3",      "G[2]", "P1",   "S100", "X0",       "Z-0", "G017", "G2.0"};
    for (auto& dn : driver_names())
        h::sequences(tok.size(), 1, dn == "fanuc_mill" ? (tier ? 4 : 3) : (tier ? 3 : 2), [&](const std::vector<size_t>& s) {
            S b;
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (tok[s[i]] == "G2.0")
                    return;
                b += (i ? "~" : "") + tok[s[i]];
            }
            e(dn + "|" + b);
        });
    for (S dn : {"fanuc_mill", "haas_mill", "makino_mill", "generic_mill"})
    {
        const std::vector<S> b = {"G0 X10 Y20 Z30", "G1 X-5 F100",  "Y7",      "Z-2.5",          "G2 X10 Y0 R20",  "G03 X0 Y10 I-10 J0 F200", "G91", "G90",
                                  "#1=4",           "X#1",          "Y-[#1+1]", "G4 X2",          "G02 X5 Y5 Z3 R-20", "M6 T1",                "G0 Z[2*3] (up X1)", "G1 X1.5 Y+2.5 Z-3.5 F50",
                                  "G0 Y-#1"};
        h::sequences(b.size(), 1, dn == "fanuc_mill" ? (tier ? 5 : 4) : (tier ? 4 : 2), [&](const std::vector<size_t>& s) {
            bool arc = false; // a block without centre while an arc is in force has no meaning
            for (auto i : s)
            {
                auto& x = b[i];
                if (x[0] == 'G' && (x.rfind("G0 ", 0) == 0 || x.rfind("G1 ", 0) == 0))
                    arc = false;
                else if (x.find(" R") != S::npos || x.find(" I") != S::npos)
                    arc = true;
                else if (arc && (x[0] == 'Y' || x[0] == 'Z' || x[0] == 'X'))
                    return;
            }
            for (int axis = 0; axis < 3; ++axis)
                for (int k = 1; k <= 3; ++k)
                {
                    if (s.size() == 4 && !tier && k == 2)
                        continue;
                    S c = "P|" + dn + "|" + (char)('X' + axis) + std::to_string(k) + "|G17";
                    for (auto i : s)
                        c += "|" + b[i];
                    e(c);
                }
        });
    }
}
h::Reg r4({"T04", t04_enum, t04_run,
           "9 rotations x all blocks of up to 3 of 42 words on fanuc_mill, up to 2 on ten more drivers; path, time and positions of all programs of up to 4 of 17 blocks in G17 on fanuc_mill, up to 2 on three more mills",
           "blocks of up to 4 (3) words, programs of up to 5 (4) blocks"});

// ---------------------------------------------------------------- T05 splitting of programs
std::vector<S> tokens(const S& b)
{
    std::vector<S> v;
    for (auto& t : h::split(b, ' '))
        if (!v.empty() && v.back()[0] == '(' && v.back().back() != ')')
            v.back() += " " + t;
        else if (!t.empty())
            v.push_back(t);
    return v;
}
struct Modal
{
    int  g     = -1; // motion in force as written, -1: none of G0..G3
    bool cycle = false, change = false;
    void block(const S& b, bool t_exchanges)
    {
        change = false;
        if (g > 3)
            g = -1;
        for (auto& t : tokens(b))
        {
            if (t[0] == '/')
                break;
            if (t[0] == '(' || has(t, "#["))
                continue;
            if (t[0] == 'G')
            {
                auto c = code_of(t);
                static const std::set<S> cyc = {"73", "74", "76", "81", "82", "83", "84", "85", "86", "87", "88", "89"};
                if (c == "0" || c == "1" || c == "2" || c == "3")
                    g = std::stoi(c);
                else if (cyc.count(c))
                    g = std::stoi(c), cycle = true;
                else if (c == "80")
                    g = 80, cycle = false;
            }
            else if (t[0] == 'M' && !t_exchanges && code_of(t) == "6")
                change = true;
            else if (t[0] == 'T' && t_exchanges)
                change = true;
        }
    }
    bool may_cut(bool rapid) const
    {
        return !(g == 80 || (g == -1 && cycle)) && (!rapid || g == 0);
    }
};
struct Split
{
    FileSplittingType type;
    int               limit;
    bool              rapid;
    S                 retract, text;
    bool              t_exchanges;
};
Machine t05_machine(const S& drv, bool t_exchanges)
{
    auto m                              = plain(drv, false);
    m.cnc.tool_number_executes_exchange = t_exchanges;
    m.ps                                = {true, true, true, true, true};
    return m;
}
void t05_run(const S& c, Run& r)
{
    auto q = h::split(c, '|'); // driver|type|limit|rapid|retract|text|t|start|blocks...
    static const std::map<S, FileSplittingType> types = {{"b", FileSplittingType::block_numbers}, {"c", FileSplittingType::tool_change}, {"t", FileSplittingType::work_motion_time}, {"p", FileSplittingType::work_motion_path}, {"x", FileSplittingType::text}};
    Split          s{types.at(q[1]), std::stoi(q[2]), q[3] == "1", q[4], q[5], q[6] == "1"};
    unsigned       start = std::stoi(q[7]);
    std::vector<S> blk(q.begin() + 8, q.end());
    auto&          p = kept("T05" + q[0] + q[6], [&] { return t05_machine(q[0], s.t_exchanges); });
    auto&          o = kept("T05o" + q[0] + q[6], [&] { return t05_machine(q[0], s.t_exchanges); });
    for (auto* x : {&p, &o})
    {
        x->reset_macro_values(true);
        x->reset_attributes_path_calculator();
        x->renumber_reset();
    }
    if (start > 1)
        p.set_renumber_start_value(start);
    FileSplitting fs{s.type, q[1] == "b" ? s.limit : 0, q[1] == "t" ? s.limit : 0, q[1] == "p" ? s.limit : 0, s.text, s.rapid, s.retract};
    std::vector<std::vector<std::vector<fanuc::AttributeVariant>>> v;
    S    msg, thrown;
    bool ok = false;
    try
    {
        ok = p.split_file(std::vector<S>(blk), v, msg, true, fs);
    }
    catch (const std::exception& e)
    {
        return r.fail("exception " + S(e.what()));
    }
    r.trans(blk.size());
    // the parts
    bool   want = !((q[1] == "b" || q[1] == "t" || q[1] == "p") && s.limit <= 0);
    double sum  = 0;
    Modal  m;
    int    changes = 0;
    std::vector<std::vector<S>> e(1);
    auto                        cut = [&] {
        if (!s.retract.empty())
            e.back().push_back(s.retract);
        e.emplace_back();
        if (!s.retract.empty())
            e.back().push_back(s.retract);
        sum = 0;
    };
    auto blank = [](const S& x) { return x.find_first_not_of(" \t\r") == S::npos; };
    for (auto& b : blk)
    {
        double add = 1;
        bool   good = true;
        if (q[1] == "p" || q[1] == "t")
        {
            fanuc::FanucAttributeData d;
            S                         x;
            good = blank(b) || o.parse(1, b, d, x, true, {true, false, true});
            add  = blank(b) ? 0 : q[1] == "p" ? o.get_path_result().work_motion : o.get_time_result().work_motion;
        }
        else
        {
            fanuc::FanucAttributeData d;
            S                         x;
            good = blank(b) || o.remove_comment(1, b, d, x, true);
        }
        want &= good;
        m.block(b, s.t_exchanges);
        if (m.change)
            ++changes;
        if (q[1] == "x")
        {
            if (b.find(s.text) != S::npos)
                cut();
        }
        else if (q[1] == "c")
        {
            if (m.change && changes > 1)
                cut();
        }
        else if (sum >= s.limit && m.may_cut(s.rapid))
            cut();
        e.back().push_back(b);
        sum += add;
    }
    r.outcome(want ? (e.size() > 1 ? "split" : "one part") : "refused");
    if (ok != want)
        return r.fail(S(ok ? "split although it cannot be" : "not split: ") + msg);
    if (!ok)
    {
        if (msg.empty())
            r.fail("refused without a message");
        return;
    }
    Num n{driver(q[0])};
    n.counter = start;
    S a, w;
    for (auto& part : v)
    {
        for (auto& x : part)
            a += ren(x, "") + " ; ";
        a += "|| ";
    }
    for (auto& part : e)
    {
        for (auto& x : part)
        {
            w += n.block({"N", 1, 1, 99999, false, false}, blank(x) ? "" : join(tokens(x), " ")) + " ; ";
        }
        w += "|| ";
    }
    auto nb = [](S x) {
        x.erase(std::remove(x.begin(), x.end(), ' '), x.end());
        return x;
    };
    r.state(w);
    if (nb(a) != nb(w))
        r.fail("parts " + a + " expected " + w);
    if (!msg.empty())
        r.fail("split with the message " + msg);
}
void t05_enum(int tier, const Emit& e)
{
    const std::vector<S> all = {"G0 X1",  "G1 X5 F100", "X2",   "G81 Z-5 R2 F100", "G80", "M6 T1", "/ M6 T2", "(txt)", "%",  "",          "N5 G00 Y1", "G54",     "#1=2", "T3",
                                "M06",    "G#1 X3",     "M#6",  "X4 (txt)",        "G2 X0 Y0 R9 F50", "G3 X0 Y0 R9 F50", "G04 X1",    "G98",   "O1234", "  ", "/1 G0 X9", "G99 G83 X1 Z-2 R1 Q1 F20", "G81.4"};
    const std::vector<S> mot = {"G0 X1", "G1 X5 F100", "X2", "G81 Z-5 R2 F100", "G80", "G80.5"};
    const std::vector<S> chg = {"M6 T1", "M06 T2", "T3", "G1 X1 F10", "/ M6 T4", "M6"};
    const std::vector<S> bad = {"X[", "G0 X1", "", "(txt)", "M6 T1"};
    auto                 go  = [&](const S& k, const std::vector<S>& a, size_t lo, size_t hi) {
        h::sequences(a.size(), lo, hi, [&](const std::vector<size_t>& s) {
            S c = k;
            for (auto i : s)
                c += "|" + a[i];
            e(c);
        });
    };
    for (S dn : {"fanuc_mill", "haas_mill", "makino_mill", "fanuc_lathe_system_a"})
    {
        const bool main = dn == "fanuc_mill";
        const int  x    = tier + (main ? 1 : 0);
        for (S ret : {"", "G0 Z100"})
        {
            for (S rapid : {"0", "1"})
            {
                for (S lim : {"1", "2", "3"})
                {
                    S k = dn + "|b|" + lim + "|" + rapid + "|" + ret + "||0|1";
                    go(k, all, 1, 2 + x);
                    go(k, mot, 3 + x, 3 + 2 * x);
                }
                for (S ty : {"p", "t"})
                    for (S lim : {"1", "4", "9"})
                    {
                        S k = dn + "|" + ty + "|" + lim + "|" + rapid + "|" + ret + "||0|1";
                        go(k, all, 1, 1 + x);
                        go(k, mot, 2 + x, 3 + x + tier);
                    }
                for (S ty : {"b", "p", "t"})
                {
                    for (S lim : {"0", "-1"})
                        go(dn + "|" + ty + "|" + lim + "|" + rapid + "|" + ret + "||0|1", mot, 1, 2);
                    go(dn + "|" + ty + "|1|" + rapid + "|" + ret + "||0|1", bad, 1, 3);
                    go(dn + "|" + ty + "|2|" + rapid + "|" + ret + "||0|30", mot, 1, 3);
                }
            }
            for (S t : {"0", "1"})
            {
                go(dn + "|c|0|0|" + ret + "||" + t + "|1", all, 1, 2 + x);
                go(dn + "|c|0|0|" + ret + "||" + t + "|1", chg, 3 + x, 4 + x);
                go(dn + "|c|0|0|" + ret + "||" + t + "|1", bad, 1, 3);
            }
            for (S txt : {"txt", "G0", "X4 ("})
                go(dn + "|x|0|0|" + ret + "|" + txt + "|0|1", all, 1, 2 + x);
            go(dn + "|x|0|0|" + ret + "|txt|0|1", bad, 1, 3);
            go(dn + "|x|0|0|" + ret + "|txt|0|7", bad, 1, 3);
        }
    }
}
h::Reg r5({"T05", t05_enum, t05_run,
           "programs of up to 3 of 27 blocks and of 4 and 5 of 6 blocks, 5 ways of splitting, limits 1-9 and wrong ones, rapid only or not, with and without retraction, two kinds of tool change; shorter ones on three more drivers",
           "programs of up to 4 of 26 and 7 of 6 blocks"});

// ---------------------------------------------------------------- T06 the C interface
struct CApi
{
    AllAttributesParserWrapperBase* p{};
    explicit CApi(const Machine& m)
    {
        auto&                                  d = driver(m.driver);
        std::vector<const char*>               mk, ik, ops, gk, mc;
        std::vector<fanuc::WordGrammarWrapper> mv, iv;
        auto tab = [](const Table& t, std::vector<const char*>& k, std::vector<fanuc::WordGrammarWrapper>& v) {
            for (auto& x : t)
            {
                k.push_back(x.first.c_str());
                v.push_back({const_cast<char*>(x.first.c_str()), x.second.rf, x.second.rt, x.second.df, x.second.dt, x.second.unique, wt(x.second.type)});
            }
        };
        tab(d.metric, mk, mv);
        tab(d.imperial, ik, iv);
        for (auto& o : d.ops)
            ops.push_back(o.c_str());
        std::vector<fanuc::CodeGroupValue> gv, cv;
        std::vector<int>                   gl, cl;
        std::map<S, std::vector<fanuc::CodeGroupValue>> gg, cc; // group -> codes
        for (auto& x : d.g)
            for (auto& g : x.second)
                gg[g].push_back({x.first.first, x.first.second});
        for (auto& x : d.m)
            for (auto& g : x.second)
                cc[g].push_back({x.first.first, x.first.second});
        auto flat = [](std::map<S, std::vector<fanuc::CodeGroupValue>>& g, std::vector<const char*>& k, std::vector<fanuc::CodeGroupValue>& v, std::vector<int>& l) {
            for (auto& x : g)
            {
                k.push_back(x.first.c_str());
                l.push_back((int)x.second.size());
                v.insert(v.end(), x.second.begin(), x.second.end());
            }
        };
        flat(gg, gk, gv, gl);
        flat(cc, mc, cv, cl);
        OtherSettings os{m.lang};
        p = fanuc::CreateFanucAllAttributesParser(mk.data(), mv.data(), (int)mk.size(), ik.data(), iv.data(), (int)ik.size(), ops.data(), (int)ops.size(), gk.data(), gv.data(), (int)gk.size(), gl.data(),
                                                  mc.data(), cv.data(), (int)mc.size(), cl.data(), &m.ps, &os, fpt(m.driver));
        set(m);
    }
    void set(const Machine& m)
    {
        auto pts = [](const std::map<S, double>& t, std::vector<char*>& k, std::vector<double>& v) {
            for (auto& x : t)
            {
                k.push_back(const_cast<char*>(x.first.c_str()));
                v.push_back(x.second);
            }
        };
        std::vector<char*>  bk, ek;
        std::vector<double> bv, ev;
        pts(m.mpd.machine_base_point, bk, bv);
        pts(m.mpd.tool_exchange_point, ek, ev);
        auto  c = [](const S& x) { return const_cast<char*>(x.c_str()); };
        auto& k = m.kin;
        KinematicsWrapper kw{k.max_working_feed,        k.max_fast_feed,           k.maximum_spindle_speed,           k.numer_of_items_in_the_warehouse, k.tool_exchange_time,
                             k.pallet_exchange_time,    k.tool_measurement_time,   k.diameter_programming_2x,         k.auto_measure_after_tool_selection, c(k.pallet_exchange_code),
                             c(k.pallet_exchange_code_value), c(k.tool_measurement_code), c(k.tool_measurement_code_value)};
        std::vector<AxisParametersWrapper> ax;
        for (auto& x : k.cartesian_system_axis)
            ax.push_back({c(x.first), x.second.range_min, x.second.range_max});
        auto cnc = m.cnc;
        auto zp  = m.zp;
        SetNCSettings(p, m.tool, m.type, bk.data(), bv.data(), (int)bk.size(), ek.data(), ev.data(), (int)ek.size(), &kw, ax.data(), (int)ax.size(), &cnc, &zp);
    }
    ~CApi()
    {
        DisposeAllAttributesParser(p);
    }
};
S pairs(const WordValueWrapper* v, int n)
{
    S s;
    for (int i = 0; i < n; ++i)
        s += S(v[i].word) + "\x1f" + S(v[i].value) + "\x1e";
    return s;
}
struct Pair : boost::static_visitor<S>
{
    S operator()(const fanuc::DecimalAttributeData& d) const
    {
        return d.word + "\x1f" + Ren()(d).substr(d.word.size()) + "\x1e";
    }
    S operator()(const fanuc::StringAttributeData& d) const
    {
        return d.word + "\x1f" + Ren()(d).substr(d.word.size()) + "\x1e";
    }
    S operator()(const fanuc::CharAttributeData& d) const
    {
        return d.word + "\x1f" + Ren()(d).substr(d.word.size()) + "\x1e";
    }
};
S pairs(const std::vector<fanuc::AttributeVariant>& v)
{
    S s;
    for (auto& x : v)
        s += boost::apply_visitor(Pair(), x);
    return s;
}
S line_of(int line, const fanuc::macro_map& m)
{
    S s;
    for (auto& x : m)
        if (x.first.line == line)
            s += std::to_string(x.first.id) + "=" + h::num(x.second) + ";";
    return s;
}

Machine t06_machine(const S& drv, int k)
{
    auto m = plain(drv, false);
    if (driver(drv).lathe)
    {
        m.tool                   = EMachineTool::lathe_zx;
        m.type                   = EMachineToolType::Lathe;
        m.cnc.default_work_plane = EWorkPlane::XZ;
    }
    if (k)
    {
        m.mpd                       = {{{"X", 10}, {"Y", 20}, {"Z", 30}}, {{"X", 1}, {"Y", 2}, {"Z", 3}, {"U", 4}}};
        m.kin                       = {{{"X", {-9, 8}}, {"Z", {-70, 100}}}, 150, 3000, 400, 2, 7, 11, 13, true, true, "M", "60", "M", "66"};
        m.cnc.default_driver_units  = EDriverUnits::Inch;
        m.cnc.default_programming   = EProgrammingType::Incremental;
        m.cnc.default_feed_mode     = EFeedMode::PerRevolution;
        m.cnc.default_rotation      = 250;
        m.cnc.operator_turns_on_rotation            = true;
        m.cnc.tool_number_executes_exchange         = true;
        m.zp                        = {1, 2, 3};
    }
    return m;
}
const std::vector<S>& t06_blocks()
{
    static const std::vector<S> b = {"N5 G1 X-1.5 F100 (c d)", "#1=5",       "G2 X[#1+2] Y+0.5 R9 S50", "M6 T1",   "X[",        "/2 T2 %",
                                     "G20 ,C1.5",              "#7=-.5",     "G81 Z-5 R2 F100 M3",      "G0 X999", "()",        "O12",
                                     "S9999 M60",              "M3 M4 G0 G1", "",                        "T3",      "#1=#7*[2]", "G4 X1",
                                     "#3=[[[2]]]",             "X[[#7]]]",    "(a",                      "% (b)",   "G01 X+007.250 F[10]", "#2=ABS[-5]",
                                     "G54.1 P3 (\xc4\x85)",    "N99999 ;",    "#7=#1",                   "M#1 S#1", "F-#7 A[-[#1]]", "/3 #1=#1+1"};
    return b;
}
void t06_run(const S& c, Run& r)
{
    auto    q = h::split(c, '|'); // driver|ops|P polish M messages of several lines L two calls with one line number
    const bool polish = q[2].find('P') != S::npos, one_line = q[2].find('M') == S::npos, twice = q[2].find('L') != S::npos;
    auto    m = t06_machine(q[0], 0);
    if (polish)
        m.lang = ELanguage::Polish;
    CApi    a(m);
    auto    b = make(m);
    S       text;
    auto*   w = a.p;
    ResetMacroValues(w);
    int     line = 0, count = 0;
    for (auto& o : h::split(q[1], ','))
    {
        line += twice ? ++count % 2 : 1;
        r.trans();
        text += o + " ";
        S         block = o.size() > 1 && isdigit((unsigned char)o[1]) ? t06_blocks()[std::stoi(o.substr(1))] : "";
        const char* t   = block.c_str();
        S         cm, nm, cv, nv;
        bool      cr = true, nr = true;
        WordValueWrapper* v = nullptr;
        int               n = 0;
        char*             msg = nullptr;
        fanuc::FanucAttributeData d;
        bool                      words = true;
        RenumberSettings          rs{"N", 10, 2, 25, o[0] == 'E', o[0] == 'E'};
        RenumberSettingsWrapper   rw{const_cast<char*>("N"), 10, 2, 25, o[0] == 'E', o[0] == 'E'};
        switch (o[0])
        {
        case 'p':
            cr    = Parse(w, line, t, &msg, one_line);
            nr    = b->parse(line, block, nm, one_line);
            words = false;
            break;
        case 'v':
            cr = ParseValue(w, line, t, &v, &n, &msg, one_line);
            nr = b->parse(line, block, d, nm, one_line);
            break;
        case 'i':
            cr = ConvertLength(w, line, t, &v, &n, &msg, one_line, UnitConversionType::metric_to_imperial);
            nr = b->convert_length(line, block, d, nm, one_line, UnitConversionType::metric_to_imperial);
            break;
        case 'm':
            cr = ConvertLength(w, line, t, &v, &n, &msg, one_line, UnitConversionType::imperial_to_metric);
            nr = b->convert_length(line, block, d, nm, one_line, UnitConversionType::imperial_to_metric);
            break;
        case 'n':
            cr = RemoveNumbering(w, line, t, &v, &n, &msg, one_line);
            nr = b->remove_numbering(line, block, d, nm, one_line);
            break;
        case 'e':
        case 'E':
            cr = Renumber(w, line, t, &v, &n, &msg, one_line, &rw);
            nr = b->renumber(line, block, d, nm, one_line, rs);
            break;
        case 'c':
            cr = RemoveComment(w, line, t, &v, &n, &msg, one_line);
            nr = b->remove_comment(line, block, d, nm, one_line);
            break;
        case 'o':
            cr = RemoveOptionalBlock(w, line, t, &v, &n, &msg, one_line);
            nr = b->remove_optional_block(line, block, d, nm, one_line);
            break;
        case 'r':
            for (int k = 0; k < 9; ++k)
            {
                v = nullptr, n = 0, msg = nullptr, nm.clear();
                fanuc::FanucAttributeData d2;
                cr = RotateAxes(w, line, t, &v, &n, &msg, one_line, static_cast<AxesRotatingOption>(k));
                nr = b->rotate_axes(line, block, d2, nm, one_line, static_cast<AxesRotatingOption>(k));
                cv += pairs(v, n) + (msg ? msg : "") + (cr ? "1" : "0");
                nv += pairs(d2.value) + nm + (nr ? "1" : "0");
                if (msg && nm.empty())
                    cv += "message";
                DisposeWordValueWrapper(v, n);
                DisposeCharArray(msg);
            }
            nm.clear();
            v     = nullptr;
            n     = 0;
            msg   = nullptr;
            words = false;
            break;
        case '+':
            SetRenumberStartValue(w, 40);
            b->set_renumber_start_value(40);
            break;
        case '!':
            RenumberReset(w);
            b->renumber_reset();
            break;
        case 'x':
            ResetMacroValues(w);
            b->reset_macro_values();
            break;
        case 'y':
            ResetPathValues(w);
            b->reset_attributes_path_calculator();
            break;
        case 'S': {
            ParserSettings ps{o[1] != 'a', o[1] != 'b', o[1] != 'c', o[1] != 'd', o[1] != 'e'};
            SetParserSettings(w, &ps);
            b->set_parser_settings(ps);
            break;
        }
        case 'N': {
            auto m2 = t06_machine(q[0], 1);
            a.set(m2);
            b->set_ncsettings(m2.tool, m2.type, MachinePointsData(m2.mpd), Kinematics(m2.kin), CncDefaultValues(m2.cnc), ZeroPoint(m2.zp));
            break;
        }
        case 's': {
            std::vector<S>           lines = {"N5 G0 X1 (t)", "", "G1 X5 F100", "T3", "%", "M6 T1", "/ X3 (t)"};
            std::vector<const char*> cl;
            for (auto& x : lines)
                cl.push_back(x.c_str());
            FileSplittingType        ty = o[1] == 'b' ? FileSplittingType::block_numbers : o[1] == 'c' ? FileSplittingType::tool_change : o[1] == 't' ? FileSplittingType::work_motion_time : o[1] == 'p' ? FileSplittingType::work_motion_path : FileSplittingType::text;
            int                      st = o[1] == 'z' ? 0 : 2;
            if (o[1] == 'z')
                ty = FileSplittingType::block_numbers;
            FileSplittingWrapper     fw{ty, st, 1, 3, const_cast<char*>("(t"), o[1] == 'p', const_cast<char*>("G0 Z4")};
            FileSplitting            fs{ty, st, 1, 3, "(t", o[1] == 'p', "G0 Z4"};
            int *vvl = nullptr, *vl = nullptr, len = 0;
            cr       = SplitFile(w, &fw, cl.data(), (int)cl.size(), &v, &vvl, &vl, &len, &msg, one_line);
            int k = 0, j = 0;
            for (int x = 0; x < len; ++x)
            {
                cv += "[";
                for (int y = 0; y < vl[x]; ++y, ++k)
                {
                    cv += pairs(v + j, vvl[k]) + ";";
                    j += vvl[k];
                }
            }
            S cm2 = msg ? msg : "";
            DisposeCharArray(msg);
            DisposeSplitFile(v, vvl, vl, len);
            v   = nullptr;
            msg = nullptr;
            std::vector<std::vector<std::vector<fanuc::AttributeVariant>>> val;
            nr = b->split_file(std::vector<S>(lines), val, nm, one_line, fs);
            for (auto& x : val)
            {
                nv += "[";
                for (auto& y : x)
                    nv += pairs(y) + ";";
            }
            if (cm2 != nm)
                return r.fail(text + ": messages '" + cm2 + "' and '" + nm + "'");
            char** sv = nullptr;
            bool   cr2 = SplitFileString(w, &fw, cl.data(), (int)cl.size(), &sv, &len, &msg, one_line);
            nm.clear();
            val.clear();
            bool nr2 = b->split_file(std::vector<S>(lines), val, nm, one_line, fs);
            for (int x = 0; x < len; ++x)
                cv += "{" + S(sv[x]);
            for (auto& x : val)
            {
                nv += "{";
                for (auto& y : x)
                    nv += ren(y, " ") + "\r\n";
            }
            DisposeSplitFileString(sv, len);
            if (cr2 != nr2)
                return r.fail(text + ": different results as texts");
            words = false;
            break;
        }
        }
        cm = msg ? msg : "";
        if (msg && !*msg)
            cm = "(empty message)";
        if (words)
        {
            cv += pairs(v, n);
            nv += pairs(d.value);
        }
        if (o[0] != 's')
        {
            DisposeWordValueWrapper(v, n);
        }
        DisposeCharArray(msg);
        auto show = [](S x) {
            for (auto& k : x)
                if (k == '\x1f')
                    k = '~';
                else if (k == '\x1e')
                    k = ' ';
            return x;
        };
        if (cr != nr || cm != nm || cv != nv)
            return r.fail(text + "'" + block + "': the interface gives " + (cr ? "ok " : "error ") + cm + " " + show(cv) + ", the parser " + (nr ? "ok " : "error ") + nm + " " + show(nv));
        // the state
        int *   id = nullptr, *ln = nullptr;
        double* mv = nullptr;
        int     len = 0;
        GetMacroValues(w, &id, &ln, &mv, &len);
        fanuc::macro_map mm;
        for (int i = 0; i < len; ++i)
            mm[{id[i], ln[i]}] = mv[i];
        if ((int)mm.size() != len || canon(mm) != canon(b->get_macro_values()))
            return r.fail(text + ": variables " + canon(mm) + " and " + canon(b->get_macro_values()));
        DisposeMacroValues(id, ln, mv);
        for (int l = -1; l <= line + 1; ++l)
        {
            id = nullptr, mv = nullptr, len = -1;
            GetLineMacroValues(w, l, &id, &mv, &len);
            S s;
            for (int i = 0; i < len; ++i)
                s += std::to_string(id[i]) + "=" + h::num(mv[i]) + ";";
            DisposeMacroValues(id, nullptr, mv);
            if (s != line_of(l, b->get_macro_values()))
                return r.fail(text + ": variables of line " + std::to_string(l) + " " + s + " and " + line_of(l, b->get_macro_values()));
        }
        PathResultWrapper* pr = nullptr;
        TimeResultWrapper* tr = nullptr;
        WordResultRange*   wr = nullptr;
        int                us = -1;
        GetPathValues(w, pr, tr, &wr, &len, &us);
        PathResult p1{pr->total, pr->work_motion, pr->fast_motion, pr->tool_total, pr->tool_id};
        TimeResult t1{tr->total, tr->work_motion, tr->fast_motion, tr->tool_total, tr->tool_id};
        fanuc::word_range_map rm;
        for (int i = 0; i < len; ++i)
            rm[wr[i].word] = std::make_tuple(wr[i].value_min, wr[i].value, wr[i].value_max);
        auto x = canon(p1) + "|" + canon(t1) + "|" + canon(rm) + "|" + std::to_string(us);
        auto y = canon(b->get_path_result()) + "|" + canon(b->get_time_result()) + "|" + canon(b->get_word_range()) + "|" + std::to_string((int)b->get_unit_system());
        DisposePathValues(pr, tr, wr, len);
        if (x != y)
            return r.fail(text + ": totals " + x + " and " + y);
        r.state(x + cv);
        r.outcome(std::string(1, o[0]) + (cr ? " ok" : " error"));
    }
}
void t06_enum(int tier, const Emit& e)
{
    std::vector<S> ops = {"+", "!", "x", "y", "Sa", "Sb", "Sc", "Sd", "Se", "N", "sb", "sc", "st", "sp", "sx", "sz"};
    for (char f : S("pvimneEcor"))
        for (size_t i = 0; i < t06_blocks().size(); ++i)
            ops.push_back(S(1, f) + std::to_string(i));
    std::vector<S> few = {"v0", "v1", "v2", "v3", "v8", "v16", "p9", "p12", "v15", "e0", "E0", "x", "y", "Sc", "Sa", "Sb", "Sd", "Se", "N", "+", "!", "sp", "v13"};
    std::vector<S> var = {"v1", "v18", "v23", "v7", "v26", "v29", "v16", "p1", "x", "v4"}; // variables
    auto           go  = [&](const S& dn, const std::vector<S>& o, size_t lo, size_t hi, const S& flags) {
        h::sequences(o.size(), lo, hi, [&](const std::vector<size_t>& s) {
            S c = dn + "|";
            for (size_t i = 0; i < s.size(); ++i)
                c += (i ? "," : "") + o[s[i]];
            e(c + "|" + flags);
        });
    };
    for (auto& dn : driver_names())
    {
        bool main = dn == "fanuc_mill";
        go(dn, ops, 1, main || tier ? 2 : 1, "");
        go(dn, few, 2, main ? (tier ? 4 : 3) : (tier ? 3 : 2), "");
        for (S f : {"P", "M", "PM"})
        {
            go(dn, ops, 1, 1, f);
            go(dn, few, 2, main && tier ? 3 : 2, f);
        }
        go(dn, var, 2, main ? (tier ? 6 : 5) : (tier ? 4 : 3), "L");
        go(dn, var, 2, main ? (tier ? 5 : 4) : (tier ? 4 : 3), "");
    }
}
h::Reg r6({"T06", t06_enum, t06_run,
           "all histories of up to 2 of 316 calls, of up to 3 of 23 and of up to 5 of 10 on variables (with repeated line numbers) on fanuc_mill, 1, 2 and 3 on ten more drivers; both languages, messages on one line or several; every output, variable, range and total compared after each call",
           "histories of up to 2 of 316, 4 of 23 (3) and 6 of 10 (4)"});

// ---------------------------------------------------------------- T07 names of enumerations
template <typename E>
void names_of(Run& r, const S& what, const std::vector<std::pair<E, std::vector<S>>>& all, const std::function<bool(const S&, E&)>& from)
{
    std::set<S> known, seen;
    for (auto& x : all)
        known.insert(x.second.begin(), x.second.end());
    for (auto& x : all)
    {
        std::ostringstream os;
        os << x.first;
        r.trans();
        r.state(what + os.str());
        if (!seen.insert(os.str()).second)
            r.fail(what + ": the name '" + os.str() + "' is given twice");
        auto first = os.str().substr(0, os.str().find(' '));
        if (first != x.second[0])
            r.fail(what + ": named '" + os.str() + "', expected '" + x.second[0] + "'");
        for (auto& n : x.second)
        {
            E v{};
            r.trans();
            if (!from(n, v) || v != x.first)
                r.fail(what + ": '" + n + "' is not read as it is written");
            // nothing else is a name
            for (size_t i = 0; i <= n.size(); ++i)
            {
                std::vector<S> m;
                if (i < n.size())
                {
                    S a = n, b = n;
                    a.erase(i, 1);
                    b[i] = (char)(isupper((unsigned char)b[i]) ? tolower(b[i]) : toupper(b[i]));
                    m    = {a, b};
                }
                S c2 = n;
                c2.insert(i, "x");
                m.push_back(c2);
                for (auto& t : m)
                {
                    r.trans();
                    if (!known.count(t) && !t.empty() && from(t, v))
                        r.fail(what + ": '" + t + "' is read as a name");
                }
            }
        }
    }
    r.outcome(what);
}
template <typename E>
bool read_name(const S& s, E& v)
{
    std::istringstream is(s);
    try
    {
        is >> v;
        return !is.fail();
    }
    catch (const std::invalid_argument&)
    {
        return false;
    }
}
#define NAMES(E, ...) \
    if (c == #E) \
        return names_of<E>(r, c, __VA_ARGS__, [](const S& s, E& v) { return read_name(s, v); });
void t07_run(const S& c, Run& r)
{
    using namespace parser;
    NAMES(ECncType, {{ECncType::Fanuc, {"fanuc"}}, {ECncType::Generic, {"generic"}}, {ECncType::Haas, {"haas"}}, {ECncType::Heidenhain, {"heidenhain"}}, {ECncType::Makino, {"makino"}}})
    using F = EFanucParserType;
    NAMES(EFanucParserType, {{F::FanucLatheSystemA, {"fanuc_lathe_system_a"}}, {F::FanucLatheSystemB, {"fanuc_lathe_system_b"}}, {F::FanucLatheSystemC, {"fanuc_lathe_system_c"}}, {F::FanucMill, {"fanuc_mill"}}, {F::FanucMillturnSystemA, {"fanuc_millturn_system_a"}},
                             {F::FanucMillturnSystemB, {"fanuc_millturn_system_b"}}, {F::GenericLathe, {"generic_lathe"}}, {F::GenericMill, {"generic_mill"}}, {F::HaasLathe, {"haas_lathe"}}, {F::HaasMill, {"haas_mill"}}, {F::MakinoMill, {"makino_mill"}}})
    NAMES(EMachineToolType, {{EMachineToolType::Mill, {"mill"}}, {EMachineToolType::Lathe, {"lathe"}}, {EMachineToolType::Millturn, {"millturn"}}})
#define MT(x) {EMachineTool::x, {#x}}
    NAMES(EMachineTool, {MT(mill_3axis), MT(mill_4axis), MT(mill_4axis_horizontal), MT(mill_4axis_horizontal_pinola), MT(mill_4axis_head_gantry), MT(mill_5axis_head_head_gantry), MT(mill_5axis_head_table_gantry), MT(mill_5axis_table_table), MT(mill_5axis_table_tilt),
                         MT(mill_5axis_head_table), MT(mill_5axis_horizontal_table_table), MT(mill_5axis_horizontal_table_table_pinola), MT(lathe_zx), MT(lathe_zxc), MT(lathe_zxcy), MT(lathe_zxcy_steady), {EMachineTool::millturn_XYZBC, {"mill-turn_XYZBC"}}, {EMachineTool::millturn_XYZBC_steady, {"mill-turn_XYZBC_steady"}},
                         {EMachineTool::millturn_XYZBC_C2, {"mill-turn_XYZBC_C2"}}, {EMachineTool::millturn_XYZBC_C2_steady, {"mill-turn_XYZBC_C2_steady"}}, {EMachineTool::millturn_XYZBC_C2_Lower_Left_Turret, {"mill-turn_XYZBC_C2_Lower_Left_Turret"}}, {EMachineTool::millturn_XYZBC_C2_Lower_Right_Turret, {"mill-turn_XYZBC_C2_Lower_Right_Turret"}}, {EMachineTool::millturn_XYZBC_C2_Lower_LeftRight_Turret, {"mill-turn_XYZBC_C2_Lower_LeftRight_Turret"}}})
    NAMES(ELanguage, {{ELanguage::English, {"English"}}, {ELanguage::Polish, {"Polish"}}})
    NAMES(EDriverUnits, {{EDriverUnits::Millimeter, {"millimeter"}}, {EDriverUnits::Inch, {"inch"}}})
    NAMES(EMotion, {{EMotion::RapidTraverse, {"rapid_traverse"}}, {EMotion::LinearInterpolation, {"linear_interpolation"}}})
    NAMES(EWorkPlane, {{EWorkPlane::XY, {"XY"}}, {EWorkPlane::XZ, {"XZ"}}, {EWorkPlane::YZ, {"YZ"}}})
    NAMES(EProgrammingType, {{EProgrammingType::Absolute, {"absolute"}}, {EProgrammingType::Incremental, {"incremental"}}})
    NAMES(EFeedMode, {{EFeedMode::PerMinute, {"feed_per_minute"}}, {EFeedMode::PerRevolution, {"feed_per_revolution"}}})
    using R = ERotationDirection;
    NAMES(ERotationDirection, {{R::Right, {"right", "M03", "CLW"}}, {R::Left, {"left", "M04", "CCLW"}}, {R::Stop, {"stop", "M05"}}})
    NAMES(EDepthProgrammingType, {{EDepthProgrammingType::Absolute, {"absolute"}}, {EDepthProgrammingType::Incremental, {"incremental"}}})
    NAMES(EDrillGreturnMode, {{EDrillGreturnMode::G98, {"beginning"}}, {EDrillGreturnMode::G99, {"point_r"}}})
    using U = UnitConversionType;
    NAMES(UnitConversionType, {{U::metric_to_imperial, {"m2i"}}, {U::imperial_to_metric, {"i2m"}}})
    using X = AxesRotatingOption;
    NAMES(AxesRotatingOption, {{X::Xrotate90degrees, {"X90"}}, {X::Xrotate180degrees, {"X180"}}, {X::Xrotate270degrees, {"X270"}}, {X::Yrotate90degrees, {"Y90"}}, {X::Yrotate180degrees, {"Y180"}},
                               {X::Yrotate270degrees, {"Y270"}}, {X::Zrotate90degrees, {"Z90"}}, {X::Zrotate180degrees, {"Z180"}}, {X::Zrotate270degrees, {"Z270"}}})
    using W = fanuc::WordType;
    using fanuc::WordType;
    NAMES(WordType, {{W::misc, {"misc"}}, {W::angle, {"angle"}}, {W::calc, {"calc"}}, {W::code, {"code"}}, {W::feed, {"feed"}}, {W::length, {"length"}}, {W::macro, {"macro"}}, {W::numbering, {"numbering"}}, {W::assignable, {"assignable"}}})
    r.fail("unknown enumeration " + c);
}
void t07_enum(int, const Emit& e)
{
    for (S c : {"ECncType", "EFanucParserType", "EMachineToolType", "EMachineTool", "ELanguage", "EDriverUnits", "EMotion", "EWorkPlane", "EProgrammingType", "EFeedMode", "ERotationDirection", "EDepthProgrammingType", "EDrillGreturnMode", "UnitConversionType",
                "AxesRotatingOption", "WordType"})
        e(c);
}
h::Reg r7({"T07", t07_enum, t07_run, "16 enumerations: every value and name, every name with one letter removed, added or of the other case", "the same (complete)"});

} // namespace

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
