// M group: macro variables and expressions.
#include "fx.hpp"
#include <fanuc/ValueCalculator.h>
#include <optional>
using namespace fx;
using h::Emit;
using h::Run;

namespace {

using Vars = std::map<unsigned, double>;

// ------------------------------------------------------------------ reference evaluator
struct Bad
{
};
struct Skip // value outside the modelled domain (e.g. division by zero, huge operands): no statement is made
{
};
class Ref
{
public:
    Ref(const std::string& s, const Vars& v)
        : s(s)
        , v(v)
    {
    }
    double all()
    {
        double d = sum();
        ws();
        if (i != s.size())
            throw Bad();
        return d;
    }

private:
    const std::string& s;
    const Vars&        v;
    size_t             i = 0;
    void               ws()
    {
        while (i < s.size() && s[i] == ' ')
            ++i;
    }
    bool lit(const char* w)
    {
        ws();
        size_t n = strlen(w);
        if (s.compare(i, n, w) == 0)
        {
            i += n;
            return true;
        }
        return false;
    }
    static long integer(double d)
    {
        if (!(std::fabs(d) < 2e9))
            throw Skip();
        return (long)d;
    }
    double sum()
    {
        double a = prod();
        for (;;)
        {
            if (lit("+"))
                a += prod();
            else if (lit("-"))
                a -= prod();
            else if (lit("OR"))
            {
                double b = prod();
                a        = (double)(integer(a) | integer(b));
            }
            else if (lit("XOR"))
            {
                double b = prod();
                a        = (double)(integer(a) ^ integer(b));
            }
            else
                return a;
        }
    }
    double prod()
    {
        double a = fac();
        for (;;)
        {
            if (lit("*"))
                a *= fac();
            else if (lit("/"))
            {
                double b = fac();
                if (b == 0)
                    throw Skip();
                a /= b;
            }
            else if (lit("AND"))
            {
                double b = fac();
                a        = (double)(integer(a) & integer(b));
            }
            else if (lit("MOD"))
            {
                double b = fac();
                if (integer(b) == 0)
                    throw Bad();
                a = (double)(integer(a) % integer(b));
            }
            else
                return a;
        }
    }
    double fac()
    {
        ws();
        if (lit("-"))
            return -fac();
        if (lit("+"))
            return fac();
        if (lit("#"))
        {
            double k = fac();
            if (k < 0)
                throw Bad();
            auto it = v.find((unsigned)k);
            if (it == v.end())
                throw Bad();
            return it->second;
        }
        if (lit("[") || lit("("))
        {
            double d = sum();
            if (!lit("]") && !lit(")"))
                throw Bad();
            return d;
        }
        const double                                                     k = M_PI / 180;
        static const std::vector<std::pair<const char*, double (*)(double)>> f = {
            {"ABS[", [](double x) { return std::fabs(x); }},
            {"ACOS[", [](double x) { return std::acos(x) / (M_PI / 180); }},
            {"ASIN[", [](double x) { return std::asin(x) / (M_PI / 180); }},
            {"ATAN[", [](double x) { return std::atan(x) / (M_PI / 180); }},
            {"COSH[", [](double x) { return std::cosh(x * (M_PI / 180)); }},
            {"COS[", [](double x) { return std::cos(x * (M_PI / 180)); }},
            {"SINH[", [](double x) { return std::sinh(x * (M_PI / 180)); }},
            {"SIN[", [](double x) { return std::sin(x * (M_PI / 180)); }},
            {"TANH[", [](double x) { return std::tanh(x * (M_PI / 180)); }},
            {"TAN[", [](double x) { return std::tan(x * (M_PI / 180)); }},
            {"EXP[", [](double x) { return std::exp(x); }},
            {"LOG10[", [](double x) { return std::log10(x); }},
            {"LOG[", [](double x) { return std::log(x); }},
            {"SQRT[", [](double x) { return std::sqrt(x); }},
            {"ROUND[", [](double x) { return x < 0 ? -std::floor(-x + 0.5) : std::floor(x + 0.5); }},
            {"FUP[",
             [](double x) {
                 if (x < 0)
                     throw Skip();
                 return std::ceil(x);
             }},
            {"FIX[", [](double x) {
                 if (x < 0)
                     throw Skip();
                 return std::floor(x);
             }}};
        for (auto& x : f)
            if (lit(x.first))
            {
                double d = sum();
                if (!lit("]") && !lit(")"))
                    throw Bad();
                double y = x.second(d);
                if (!std::isfinite(y))
                    throw Skip();
                if ((std::string(x.first) == "TAN[") && std::fabs(y) > 1e9)
                    throw Skip();
                return y;
            }
        (void)k;
        char*  e;
        size_t j = i;
        while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '.'))
            ++j;
        if (j == i)
            throw Bad();
        auto t = s.substr(i, j - i);
        double d = strtod(t.c_str(), &e);
        i        = j;
        return d;
    }
};

const Vars m01_vars = {{1, 2}, {2, -3.5}, {3, 100}, {5, 7}, {7, 1}, {200, 0.5}};

fanuc::macro_map mm(const Vars& v)
{
    fanuc::macro_map m;
    for (auto& x : v)
    {
        m[{x.first, 1}] = x.second + 1000; // superseded values
        m[{x.first, 4}] = x.second;
    }
    return m;
}

void m01_run(const std::string& c, Run& r)
{
    std::string e    = c.substr(2);
    double      want = 0;
    int         kind = 0; // 0 value, 1 error, 2 unspecified
    try
    {
        want = Ref(e, m01_vars).all();
    }
    catch (Bad)
    {
        kind = 1;
    }
    catch (Skip)
    {
        kind = 2;
    }
    r.outcome(kind == 0 ? "value" : kind == 1 ? "error" : "unspecified");
    r.trans();
    double      got = 0;
    bool        ok;
    std::string msg;
    if (c[0] == 'E')
    {
        fanuc::ValueCalculator vc;
        ok = vc.parse(e, msg, true, mm(m01_vars), got, ELanguage::English);
        r.state(e + (ok ? h::num(got) : "rejected"));
    }
    else // whole block through the parser
    {
        Machine m;
        m.ps   = {true, false, false, false, false};
        auto p = make(m);
        int  l = 1;
        for (auto& x : m01_vars)
        {
            char b[64];
            snprintf(b, sizeof b, "#%u=%.10g", x.first, x.second);
            auto a = parse(*p, l++, b);
            r.trans();
            if (!a.ok)
                return r.fail(std::string("'") + b + "' rejected: " + a.msg);
        }
        auto a = parse(*p, 50, "#100=" + e);
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        ok      = a.ok;
        msg     = a.msg;
        auto it = p->get_macro_values().find({100, 50});
        bool is = it != p->get_macro_values().end();
        if (ok != is)
            return r.fail("'#100=" + e + "' verdict " + std::to_string(ok) + " but variable assigned: " + std::to_string(is));
        if (is)
            got = it->second;
        r.state("#" + e + (ok ? h::num(got) : "rejected"));
    }
    if (kind == 2)
        return;
    if (ok != (kind == 0))
        return r.fail("'" + e + "' " + (ok ? "evaluated to " + h::num(got) : "rejected: " + msg) + ", expected " + (kind ? "an error" : h::num(want)));
    if (ok && !h::near(got, want))
        r.fail("'" + e + "' = " + h::num(got) + ", expected " + h::num(want));
}

void m01_enum(int tier, const Emit& e)
{
    const std::vector<std::string> leaf = {"0", "1", "2", "3.5", "7", "10", "#1", "#2", "-3", "#9", "#[#1+3]", ".25"};
    const std::vector<std::string> bin  = {"+", "-", "*", "/", " AND ", " OR ", " XOR ", " MOD "};
    const std::vector<std::string> fun  = {"ABS", "ACOS", "ASIN", "ATAN", "FUP", "COS", "COSH", "EXP", "FIX", "LOG10", "LOG", "SIN", "SINH", "SQRT", "TAN", "TANH", "ROUND"};
    const std::vector<std::string> args = {"0", "0.5", "1", "2", "2.5", "30", "45", "60", "90", "180", "360", "-1", "-0.5", "-30", "-2.5", "#1", "#3", "#200", "1.4", "1.6", "100", "#9"};
    auto                           out  = [&](const std::string& x) { e("E|" + x); };
    for (auto& a : leaf)
    {
        out(a);
        out("[" + a + "]");
        out("-" + a);
        out("+" + a);
        out("--" + a);
    }
    for (auto& f : fun)
        for (auto& a : args)
        {
            out(f + "[" + a + "]");
            out("-" + f + "[" + a + "]*2+1");
            out(f + "[" + f + "[" + a + "]]");
            for (auto& g : fun)
                out(f + "[" + a + "]-" + g + "[" + a + "+1]");
        }
    for (auto& a : leaf)
        for (auto& o : bin)
            for (auto& b : leaf)
            {
                out(a + o + b);
                out("[" + a + o + b + "]");
                out("-[" + a + o + b + "]");
                out("ABS[" + a + o + b + "]");
                for (auto& o2 : bin)
                    for (auto& d : leaf)
                    {
                        out(a + o + b + o2 + d);
                        out("[" + a + o + b + "]" + o2 + d);
                        out(a + o + "[" + b + o2 + d + "]");
                    }
            }
    std::vector<std::string> l4 = tier ? std::vector<std::string>{"1", "2", "3.5", "7", "#1", "#2"} : std::vector<std::string>{"2", "3.5", "7"};
    for (auto& a : l4)
        for (auto& b : l4)
            for (auto& c : l4)
                for (auto& d : l4)
                    for (auto& o : bin)
                        for (auto& p : bin)
                            for (auto& q : bin)
                            {
                                out(a + o + b + p + c + q + d);
                                out("[" + a + o + b + "]" + p + "[" + c + q + d + "]");
                                if (tier)
                                {
                                    out(a + o + "[" + b + p + c + "]" + q + d);
                                    out(a + o + "[" + b + p + "[" + c + q + d + "]]");
                                }
                            }
    // the part of the language that blocks admit
    const std::vector<std::string> pl = {"1", "2", "3.5", "7", "#1", "#2", "#9", ".25"};
    const std::vector<std::string> pb = {"+", "-", "*", "/", " AND ", " OR ", " XOR "};
    const std::vector<std::string> pf = {"ABS", "ATAN", "FUP", "COS", "FIX", "SIN", "SQRT", "TAN", "ROUND"};
    auto                           po = [&](const std::string& x) { e("P|" + x); };
    for (auto& a : pl)
    {
        po(a);
        po("-" + a);
        po("[" + a + "]");
        for (auto& f : pf)
        {
            po(f + "[" + a + "]");
            po("-" + f + "[" + a + "]");
            for (auto& o : pb)
                po("2" + o + f + "[" + a + "]");
        }
        for (auto& o : pb)
            for (auto& b : pl)
            {
                po(a + o + b);
                for (auto& o2 : pb)
                    for (auto& d : pl)
                    {
                        po(a + o + b + o2 + d);
                        po("[" + a + o + b + "]" + o2 + d);
                        po(a + o + "[" + b + o2 + d + "]");
                    }
            }
    }
}
h::Reg r1({"M01", m01_enum, m01_run,
           "all expressions a, a.b, a.b.c with every bracketing over 12 operands and 8 operators; all of 4 operands over 3 values; 17 functions x 22 arguments, pairs of functions; the block sublanguage over 8 operands, 7 operators, 9 functions",
           "as quick with 6 values for 4 operands and 2 more bracketings"});

// ------------------------------------------------------------------ M02 history of assignments
// '=' and reads; reference: map (variable, line) -> value
struct Op
{
    std::string text;
    int         target; // -1: none
    std::string expr;
    int         use; // variable read by a word, -1 none
};
const std::vector<Op> m02_ops = {{"#1=2", 1, "2", -1},
                                 {"#1=#1+1", 1, "#1+1", -1},
                                 {"#2=#1*3", 2, "#1*3", -1},
                                 {"#2=#3", 2, "#3", -1},
                                 {"#3=#2-#1", 3, "#2-#1", -1},
                                 {"X#2", -1, "", 2},
                                 {"X#3 Y#1", -1, "", 3},
                                 {"#4=#1/#2", 4, "#1/#2", -1},
                                 {"#1=[", -2, "", -1},
                                 {"Z5.", -1, "", -1}};

void m02_run(const std::string& c, Run& r)
{
    // case: gap|same-line|ops
    auto    q    = h::split(c, '|');
    int     gap  = atoi(q[0].c_str());
    Machine m;
    m.ps                      = {true, false, false, false, false};
    auto                               p = make(m);
    std::map<std::pair<unsigned, int>, double> hist;
    Vars                               cur = {{3101, M_PI}, {3102, M_E}};
    int                                line = 1;
    for (char ch : q[1])
    {
        auto& o = m02_ops[ch - 'a'];
        auto  a = parse(*p, line, o.text);
        r.trans();
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        bool ok = true;
        if (o.target == -2)
            ok = false;
        else if (o.target > 0)
        {
            try
            {
                double v       = Ref(o.expr, cur).all();
                cur[o.target]  = v;
                hist[{(unsigned)o.target, line}] = v;
            }
            catch (Bad)
            {
                ok = false;
            }
        }
        else if (o.use > 0)
        {
            ok = cur.count(o.use) && (o.text.find("Y#1") == std::string::npos || cur.count(1));
            if (ok) // the substituted word has to satisfy the word table: at most 4 decimals (value <= 9999)
            {
                for (auto k : {o.use, o.text.find("Y#1") == std::string::npos ? o.use : 1})
                    if (std::fabs(cur[k]) > 99999)
                        ok = false;
            }
        }
        r.outcome(o.text + (ok ? " ok" : " rejected"));
        if (a.ok != ok)
            return r.fail("line " + std::to_string(line) + " '" + o.text + "' was " + (a.ok ? "accepted" : "rejected: " + a.msg));
        std::string got, want;
        for (auto& x : p->get_macro_values())
            if (x.first.id < 1000)
                got += std::to_string(x.first.id) + "@" + std::to_string(x.first.line) + "=" + h::num(x.second) + ";";
        for (auto it = hist.rbegin(); it != hist.rend(); ++it)
            want += std::to_string(it->first.first) + "@" + std::to_string(it->first.second) + "=" + h::num(it->second) + ";";
        r.state(got);
        if (got != want)
            return r.fail("after line " + std::to_string(line) + " the variables are " + got + " expected " + want);
        auto pi = p->get_macro_values().find({3101, -1}), ee = p->get_macro_values().find({3102, -1});
        if (pi == p->get_macro_values().end() || !h::near(pi->second, M_PI) || ee == p->get_macro_values().end() || !h::near(ee->second, M_E))
            return r.fail("predefined constants changed");
        line += gap;
    }
    if (q.size() > 2) // clearing
    {
        p->reset_macro_values(q[2] == "init");
        if (p->get_macro_values().size() != (q[2] == "init" ? 2u : 0u))
            r.fail("variables left after clearing");
    }
}
void m02_enum(int tier, const Emit& e)
{
    h::sequences(m02_ops.size(), 1, tier ? 7 : 5, [&](const std::vector<size_t>& s) {
        std::string t;
        for (auto i : s)
            t += (char)('a' + i);
        e("1|" + t);
        if (s.size() <= 4)
        {
            for (auto* g : {"7|", "9999|", "30000|", "500000000|"})
                e(g + t);
            e("0|" + t);
            e("1|" + t + "|init");
            e("1|" + t + "|clear");
        }
    });
}
h::Reg r2({"M02", m02_enum, m02_run, "all programs of <=5 of 10 assignments/uses (<=4: also gaps of 7 to 5e8, repeated line numbers, clearing)", "all programs of <=7 blocks"});

// ------------------------------------------------------------------ M03 system variables
const std::map<std::string, unsigned> sysv = {{"B", 2}, {"D", 7}, {"E", 8}, {"F", 9}, {"H", 11}, {"M", 13}, {"N", 14}, {"S", 19}, {"T", 20}};

void m03_run(const std::string& c, Run& r)
{
    auto    q = h::split(c, '\n');
    auto    hd = h::split(q[0], '|');
    Machine m;
    m.driver                  = hd[0];
    m.cnc.tool_number_executes_exchange = hd[1] == "t";
    m.ps.verify_code_groups   = false;
    m.ps.ncsettings_code_analysis = false;
    m.ps.zero_point_analysis  = false;
    auto                               p = make(m);
    Vars                               model;
    double                             prepared = -1; // a tool M6 alone selects
    for (size_t i = 1; i < q.size(); ++i)
    {
        auto a = parse(*p, (int)i, q[i]);
        r.trans();
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        r.outcome(a.ok ? "accepted" : "rejected");
        if (!a.ok)
            return r.fail("'" + q[i] + "' rejected: " + a.msg);
        bool m6 = (" " + q[i] + " ").find(" M6 ") != std::string::npos;
        if (m6 && !m.cnc.tool_number_executes_exchange)
        {
            if (prepared >= 0 && q[i].find('T') == std::string::npos)
                for (unsigned b : {4120u, 4320u, 4520u})
                    model[b] = prepared;
            prepared = -1;
        }
        for (auto& w : h::split(q[i], ' '))
        {
            auto it = sysv.find(w.substr(0, 1));
            if (it == sysv.end())
                continue;
            double v;
            if (w[1] == '#')
                v = model.at(atoi(w.c_str() + 2));
            else if (w[1] == '-' && w[2] == '#')
                v = -model.at(atoi(w.c_str() + 3));
            else
                v = atof(w.c_str() + 1);
            if (w[0] == 'T' && !m.cnc.tool_number_executes_exchange && !m6)
            {
                prepared = v; // not selected yet
                continue;
            }
            for (unsigned b : {4100u, 4300u, 4500u})
                model[b + it->second] = v;
        }
        if (q[i][0] == '#')
            model[atoi(q[i].c_str() + 1)] = atof(q[i].c_str() + q[i].find('=') + 1);
        // latest value of each variable
        Vars latest;
        for (auto& x : p->get_macro_values())
            if (x.first.line >= 0 && !latest.count(x.first.id))
                latest[x.first.id] = x.second; // ordered by line, latest first
        std::string got, want;
        for (auto& x : latest)
            got += std::to_string(x.first) + "=" + h::num(x.second) + ";";
        for (auto& x : model)
            want += std::to_string(x.first) + "=" + h::num(x.second) + ";";
        r.state(got);
        if (got != want)
            return r.fail("after '" + q[i] + "' (block " + std::to_string(i) + ") the variables are " + got + " expected " + want);
    }
    // readable like any other variable
    if (model.count(4109))
    {
        auto a = parse(*p, (int)q.size(), "#50=#4109+#4319*0");
        bool d = model.count(4319);
        if (a.ok != d)
            return r.fail("#4109/#4319 unreadable");
        if (d && !h::near(p->get_macro_values().find({50, (int)q.size()})->second, model[4109]))
            r.fail("#4109 reads as another value");
    }
}
void m03_enum(int tier, const Emit& e)
{
    const std::vector<std::string> lines = {"F100", "F12.5 S800", "S1200 M3", "M4", "N10 H3", "D-5", "B45.5", "B-30", "T5", "T12 M6", "#1=7", "G1 X1 F#1", "N20 T#1", "D-#1 H-2", "X5", "G4 P5", "M#1 S#1", "N30 N40", "M6"};
    for (auto& d : driver_names())
        h::sequences(lines.size(), 1, d == "fanuc_mill" ? (tier ? 5 : 4) : (tier ? 3 : 2), [&](const std::vector<size_t>& s) {
            std::string c;
            bool        def = false;
            for (auto i : s)
            {
                if (lines[i].find('#') != std::string::npos && lines[i][0] != '#' && !def)
                    return;
                if (lines[i][0] == '#')
                    def = true;
                c += "\n" + lines[i];
            }
            e(d + "|" + c);
            if (s.size() <= 3)
                e(d + "|t" + c);
        });
}
h::Reg r3({"M03", m03_enum, m03_run, "all programs of <=4 (fanuc_mill) / <=2 (10 drivers) of 19 blocks setting B D F H M N S T by literals and variables", "<=5 / <=3"});

// ------------------------------------------------------------------ M04 a variable in a word equals the literal
void m04_run(const std::string& c, Run& r)
{
    // driver|units|flags|value  then program lines with {n} placeholders; {v} = the value
    auto q  = h::split(c, '\n');
    auto hd = h::split(q[0], '|');
    auto mk = [&] {
        Machine m;
        m.driver = hd[0];
        if (hd[1] == "in")
            m.cnc.default_driver_units = EDriverUnits::Inch;
        if (hd[2] == "w") // narrow machine: every verifier can fire
        {
            m.kin.cartesian_system_axis = {{"X", {-50, 50}}, {"Y", {-50, 50}}, {"Z", {-50, 50}}};
            m.mpd = {{{"X", 0}, {"Y", 0}, {"Z", 40}}, {{"X", 0}, {"Y", 0}, {"Z", 40}}};
            m.kin.max_working_feed      = 500;
            m.kin.maximum_spindle_speed = 2000;
            m.kin.numer_of_items_in_the_warehouse = 10;
        }
        return make(m);
    };
    auto   p = mk(), ref = mk();
    double v = atof(hd[3].c_str());
    auto   lit = [&](const std::string& s, bool macro) {
        std::string o;
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i] == '~' || s[i] == '^') // ^: negated
            {
                if (macro)
                    o += s[i] == '^' ? "-#1" : "#1";
                else
                {
                    char b[64];
                    snprintf(b, sizeof b, "%.6f", s[i] == '^' ? -v : v);
                    std::string n = b;
                    while (n.back() == '0')
                        n.pop_back();
                    if (n.back() == '.')
                        n.pop_back();
                    if (n == "-0")
                        n = "0";
                    o += n;
                }
            }
            else
                o += s[i];
        return o;
    };
    char b[64];
    snprintf(b, sizeof b, "#1=%.6g", v);
    if (!parse(*p, 1, b).ok || !parse(*ref, 1, b).ok)
        return r.fail(std::string(b) + " rejected: " + parse(*mk(), 1, b).msg);
    for (size_t i = 1; i < q.size(); ++i)
    {
        auto a = parse(*p, (int)i + 1, lit(q[i], true));
        auto w = parse(*ref, (int)i + 1, lit(q[i], false));
        r.trans(2);
        r.state(canon(*p));
        r.outcome(std::string(a.ok ? "accepted" : "rejected"));
        if (a.thrown != w.thrown)
            return r.fail("exception " + a.thrown + w.thrown);
        if (a.ok != w.ok)
            return r.fail("'" + lit(q[i], true) + "' with #1=" + hd[3] + ": " + (a.ok ? "accepted" : "rejected: " + a.msg) + ", '" + lit(q[i], false) + "': " +
                          (w.ok ? "accepted" : "rejected: " + w.msg));
        if (canon(*p) != canon(*ref))
            return r.fail("'" + lit(q[i], true) + "' with #1=" + hd[3] + " gives " + canon(*p) + ", '" + lit(q[i], false) + "' gives " + canon(*ref));
    }
}
void m04_enum(int tier, const Emit& e)
{
    const std::vector<std::string> vals = {"0", "1", "2", "3", "5", "-5", "10", "54", "81", "90", "91", "2.5", "-2.5", "0.25", "0.1234", "600", "3000", "99999", "-100", "54.1", "4"};
    for (auto& d : driver_names())
        for (std::string u : {"mm", "in"})
        {
            auto& t = u == "mm" ? driver(d).metric : driver(d).imperial;
            for (auto& x : t)
            {
                if (x.second.type == "calc" || x.first == "#" || x.first == ":" || x.first == "O" || x.first == "N" || x.first == "GOTO") // program numbers are names
                    continue;
                auto w = x.first + (x.second.type == "assignable" ? "=" : "");
                for (auto& v : vals)
                    if (atoi(v.c_str()) <= t.at("=").rt)
                    for (std::string fl : {"n", "w"})
                        for (std::string s : {"~", "^"})
                        {
                            auto hd = d + "|" + u + "|" + fl + "|" + v + "\nS100 M3\nF100";
                            e(hd + "\n" + w + s);
                            if (x.first != "G")
                            {
                                e(hd + "\nG1 " + w + s + "\nX7");
                                if (tier || d == "fanuc_mill")
                                {
                                    e(hd + "\nG0 X20 Y5\nG2 " + w + s + (x.first == "X" ? " Y1 I2 J3" : " X1 Y2 I3") + "\nX7");
                                    e(hd + "\nG81 Z-5 R2 " + w + s + "\nX7");
                                    e(hd + "\nG4 " + w + s + "\nX7");
                                    e(hd + "\nM6 " + w + s + "\nG1 X7");
                                }
                            }
                            else
                                e(hd + "\nX5 " + w + s + "\nX7");
                        }
            }
            // combinations of two variable words over the modal program
            const std::vector<std::string> lines = {"G~ X4", "X~ Y^", "G1 X~", "F~", "Z~ R~", "G83 Z^ R~ Q~ F~", "G2 X~ Y~ I~", "T~ M6", "G4 P~"};
            if (tier || d == "fanuc_mill")
                for (auto& v : vals)
                    if (atoi(v.c_str()) <= t.at("=").rt)
                    h::sequences(lines.size(), 2, tier ? 3 : 2, [&](const std::vector<size_t>& s) {
                        std::string c = d + "|" + u + "|n|" + v + "\nS100 M3\nF100";
                        for (auto i : s)
                            c += "\n" + lines[i];
                        e(c);
                    });
            // the spindle, the tool and the code of a motion given by variables
            const std::vector<std::string> spin = {"S~", "M~", "S~ M3", "S200", "G1 X4 F~", "G~ X2 F5", "T~ M6", "M5", "X1"};
            for (auto& v : vals)
                if (atoi(v.c_str()) <= t.at("=").rt && v[0] != '-')
                    h::sequences(spin.size(), 1, tier || d == "fanuc_mill" || d == "haas_lathe" ? 4 : 2, [&](const std::vector<size_t>& s) {
                        std::string c = d + "|" + u + "|w|" + v;
                        for (auto i : s)
                            c += "\n" + spin[i];
                        e(c);
                    });
        }
}
h::Reg r4({"M04", m04_enum, m04_run, "every word of every table (11 drivers x mm/inch) x 21 values x sign x wide/narrow machine, alone and in cutting/arc/drill/dwell/tool blocks; pairs of 9 modal blocks; all programs of <=4 (2 on nine drivers) of 9 spindle, tool and motion blocks",
           "the block contexts for every driver; triples of modal blocks"});

} // namespace

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
