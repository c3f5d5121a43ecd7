// D group: the Heidenhain dialect, built with the address and undefined behaviour sanitizers.
#include "h.hpp"
#include "heidenhain/AllAttributesParser.h"
#include "heidenhain/AllAttributesParserWrapper.h"
using namespace parser;
namespace hh = parser::heidenhain;
using h::Emit;
using h::Run;
using S = std::string;

extern "C" const char* __asan_default_options()
{
    return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1";
}
extern "C" const char* __ubsan_default_options()
{
    return "abort_on_error=1:halt_on_error=1:print_stacktrace=0";
}

namespace {

// what is read, as text
struct Show : boost::static_visitor<S>
{
    template <typename T>
    static S o(const boost::optional<T>& x)
    {
        S s;
        if (x)
            s += *x;
        else
            s = "-";
        return s;
    }
    S operator()(const hh::LineNumberData& d) const
    {
        return "line " + std::to_string(d.value);
    }
    S operator()(const hh::CommentData& d) const
    {
        return S("comment ") + (d.semicolon == ';' ? "" : "?") + "'" + d.value + "'" + (d.tilde == '~' ? "~" : d.tilde ? "?" : "");
    }
    S operator()(const hh::ProgramBeginEndData& d) const
    {
        return S(d.begin_end == hh::EBeginEnd::begin ? "begin" : d.begin_end == hh::EBeginEnd::end ? "end" : "?") + " '" + d.name + "' " +
               (d.unit == hh::EUnit::mm ? "mm" : d.unit == hh::EUnit::inch ? "inch" : "?");
    }
    S operator()(const hh::GeneralAttributeData& d) const
    {
        return "word '" + d.word + "' " + o(d.sign) + " " + o(d.name) + " " + o(d.value) + " " + o(d.dot) + " " + o(d.value2) + " " + o(d.tilde);
    }
    S operator()(const hh::CycleDef& d) const
    {
        return "cycle '" + d.word1 + "' '" + d.word2 + "' " + o(d.value) + " " + o(d.dot) + " " + o(d.value2);
    }
    S operator()(const hh::CycleParam& d) const
    {
        return "parameter '" + d.name + "' " + std::to_string(d.id) + " " + d.assign + " " + o(d.sign) + " '" + d.value + "' " + o(d.dot) + " " + o(d.value2);
    }
};
S show(const std::vector<hh::AttributeVariant>& v)
{
    S s;
    for (auto& x : v)
        s += boost::apply_visitor(Show(), x) + "; ";
    return s;
}
hh::AllAttributesParser& ap()
{
    static hh::AllAttributesParser p{{false, false, false}, {ELanguage::English}, true};
    return p;
}

// the same line through the C interface
struct CApi
{
    AllAttributesParserWrapperBase* p;
    CApi()
    {
        ParserSettings ps{false, false, false};
        OtherSettings  os{ELanguage::English};
        p = hh::CreateHeidenhainAllAttributesParser(&ps, &os, true);
    }
    bool parse(const S& text, S& message)
    {
        WordValueWrapper* v{};
        int               n{};
        char*             m{};
        bool              ok = p->ParseValue(1, text.c_str(), &v, &n, &m, true);
        message = m ? S(m) : S();
        DisposeCharArray(m);
        return ok;
    }
    ~CApi()
    {
        DisposeAllAttributesParser(p);
    }
};
CApi& capi()
{
    static CApi c;
    return c;
}

// ---------------------------------------------------------------- H01
struct Item // a piece of a line: its text, what it means, what may come next to it
{
    S    text, mean;
    char before; // 'f' only first, 'a' anywhere
    bool word_end, // ends with a letter or a blank-eating word: the next piece needs a blank and must not continue it
        name_end,  // the next piece may be taken for its value
        blank;     // needs a blank in front
};
std::vector<Item> items()
{
    std::vector<Item> v;
    auto              opt = [](const S& s) { return s.empty() ? S("-") : s; };
    auto              general = [&](const S& w, const S& gap, const S& sign, const S& q, const S& val, const S& dot, const S& val2, const S& tilde) {
        S t = w + gap + sign + q + val + dot + val2 + tilde;
        v.push_back({t, "word '" + w + "' " + opt(sign) + " " + opt(q) + " " + opt(val) + " " + opt(dot) + " " + opt(val2) + " " + opt(tilde) + "; ", 'a',
                     sign.empty() && q.empty() && val.empty() && dot.empty() && tilde.empty(), val.empty() && dot.empty() && tilde.empty(),
                     isalpha((unsigned char)w[0]) != 0});
    };
    for (S w : {"L", "X", "FMAX", "IX"})
        for (S gap : {"", " ", " \t"})
            for (S sign : {"", "+", "-"})
                for (S q : {"", "Q"})
                    for (S val : {"", "5", "012", "4294967296"})
                        for (S frac : {"", ".", ".5"})
                        {
                            if (val.empty() && (!q.empty() || !gap.empty())) // a name needs a number, a gap leads to something
                                if (val.empty() && (sign.empty() || !q.empty()))
                                    continue;
                            if (val.empty() && !frac.empty() && sign.empty() && gap.empty()) // the dot belongs to the word
                                continue;
                            if (val.empty() && frac == ".")
                                continue;
                            if (q == "Q" && (!frac.empty() || (sign.empty() && gap.empty()))) // XQ5 is another word
                                continue;
                            if (w != "X" && (gap == " \t" || val == "4294967296" || (w != "L" && !frac.empty() && sign == "+")))
                                continue;
                            general(w, gap, sign, q, val, frac.substr(0, 1), frac.empty() ? "" : frac.substr(1), "");
                        }
    general("ROZ", "", "", "", "", "", "", "~");
    general("X", "", "", "", "2", "", "", "~");
    general("X", "", "-", "", "2", ".", "5", "~");
    general("WGL.", "", "", "", "", "", "", "");
    general("PGMD.:", " ", "", "", "2", "", "", "");
    for (S w : {"P1X", "K3Z", "P07"}) // words with a digit
    {
        general(w, "", "", "", "", "", "", "");
        general(w, "", "+", "", "42", ".", "929", "");
        general(w, " ", "-", "Q", "3", "", "", "");
    }
    general("17:", "", "", "", "", "", "", "");
    v.pop_back(); // a word does not begin with a digit
    general("#", "", "", "", "2", "", "", "");
    general("=", "", "+", "", "0", "", "", "");
    general("=", " ", "-", "Q", "7", "", "", "");
    general("\"TAB1\"", "", "", "", "", "", "", "");
    for (S w : {"DEF", "CALL"})
        for (S gap : {" ", "\t "})
            for (S g2 : {"", " ", "  "})
                for (S val : {"", "7", "201"})
                    for (S frac : {"", ".0", ".12"})
                    {
                        if (val.empty() && (!frac.empty() || !g2.empty()))
                            continue;
                        v.push_back({"CYCL" + gap + w + g2 + val + frac,
                                     "cycle 'CYCL' '" + w + "' " + opt(val) + " " + opt(frac.substr(0, 1)) + " " + opt(frac.empty() ? "" : frac.substr(1)) + "; ", 'f', val.empty(), val.empty(), false});
                    }
    for (S id : {"1", "200", "1601", "65536"})
        for (S g1 : {"", " "})
            for (S g2 : {"", "  "})
                for (S sign : {"", "+", "-"})
                    for (S val : {"0", "15"})
                        for (S frac : {"", ".", ".25"})
                            v.push_back({"Q" + id + g1 + "=" + g2 + sign + val + frac,
                                         "parameter 'Q' " + id + " = " + opt(sign) + " '" + val + "' " + opt(frac.substr(0, 1)) + " " + opt(frac.empty() ? "" : frac.substr(1)) + "; ", 'f', false, false, false});
    for (S b : {"BEGIN", "END"})
        for (S gap : {" ", " \t "})
            for (S n : {"1", "hei530_X", "MM"})
                for (S u : {"MM", "INCH"})
                    v.push_back({b + gap + "PGM" + gap + n + gap + u, S(b == "BEGIN" ? "begin" : "end") + " '" + n + "' " + (u == "MM" ? "mm" : "inch") + "; ", 'p', true, false, false});
    return v;
}
void h01_run(const S& c, Run& r)
{
    auto q = h::split(c, '\x02'); // line, expected (or !)
    r.trans();
    hh::HeidenhainAttributeData d;
    S                           m;
    bool                        ok = ap().parse(1, q[0], d, m, true);
    r.state(show(d.value));
    r.outcome(ok ? "accepted" : "refused");
    if (q[0].find('\0') == S::npos)
    {
        S    cm;
        bool cok = capi().parse(q[0], cm);
        if (cok != ok || cm != m)
            return r.fail("'" + q[0] + "' is " + (ok ? "accepted" : "refused") + " with '" + m + "' but the C interface has " + (cok ? "accepted" : "refused") + " with '" + cm + "'");
    }
    size_t col = 0; // of the message
    if (!m.empty())
    {
        size_t k = 0;
        if (m.compare(0, 2, "1:") == 0)
            for (k = 2; k < m.size() && isdigit((unsigned char)m[k]); ++k)
                col = col * 10 + size_t(m[k] - '0');
        if (col < 1 || col > q[0].size() + 1 || m.compare(k, 2, ": ") != 0 || m.compare(k + 2, S::npos, q[0].substr(col - 1)) != 0)
            return r.fail("'" + q[0] + "' is refused with '" + m + "', which does not say where");
    }
    if (q[1][0] == '!')
    {
        if (ok)
            r.fail("'" + q[0] + "' is accepted as " + show(d.value));
        else if (m.empty())
            r.fail("'" + q[0] + "' is refused without a message");
        else if (q[1].size() > 1 && col < 1 + std::stoul(q[1].substr(1)))
            r.fail("'" + q[0] + "' is refused with '" + m + "', in front of the mistake");
        return;
    }
    if (q[1] == "*")
    {
        if (ok == !m.empty())
            r.fail("'" + q[0] + "' is " + (ok ? "accepted" : "refused") + " with the message '" + m + "'");
        return;
    }
    if (!ok)
        r.fail("'" + q[0] + "' is refused: " + m);
    else if (show(d.value) != q[1])
        r.fail("'" + q[0] + "' is read as " + show(d.value) + " and means " + q[1]);
    else if (!m.empty())
        r.fail("'" + q[0] + "' is accepted with the message " + m);
}
void h01_enum(int tier, const Emit& e)
{
    static const auto all = items();
    std::vector<Item> few;
    for (size_t i = 0; i < all.size(); i += 1)
        if (all[i].before != 'p' && (all[i].text == "L" || all[i].text == "X" || all[i].text == "X+5" || all[i].text == "X -5.5" || all[i].text == "FMAX" || all[i].text == "X+Q012" || all[i].text == "#2" || all[i].text == "=+0" ||
                                     all[i].text == "\"TAB1\"" || all[i].text == "WGL." || all[i].text == "X2~" || all[i].text == "IX-.5" || all[i].text == "L 5" || all[i].text == "P1X+42.929" || all[i].text == "CYCL DEF 7.12" ||
                                     all[i].text == "CYCL CALL" || all[i].text == "Q200=15" || all[i].text == "Q1 =  -0.25"))
            few.push_back(all[i]);
    const std::vector<S> nr = {"", "0 ", "44  ", "007\t", "4294967295 ", " ", "\t12 "};
    const std::vector<std::pair<S, S>> com = {{"", ""}, {";", "comment ''; "}, {"; a(b) 5!", "comment ' a(b) 5!'; "}, {";~", "comment ''~; "}, {";x ~", "comment 'x '~; "}, {";;L\xc3\xa9", "comment ';L\xc3\xa9'; "}};
    auto number = [](const S& n) {
        S t;
        for (auto c : n)
            if (isdigit((unsigned char)c))
                t += c;
        return t.empty() ? S() : "line " + std::to_string(std::stoul(t)) + "; ";
    };
    // joins the pieces; gap 0: as close as allowed, 1: a blank, 2: more
    auto join = [&](const std::vector<const Item*>& p, int gap, const S& n, const std::pair<S, S>& k, S& text, S& mean) {
        text = n;
        mean = number(n);
        for (size_t i = 0; i < p.size(); ++i)
        {
            if (i)
            {
                auto& a = *p[i - 1];
                if (p[i]->before != 'a')
                    return false;
                if (a.before == 'p')
                    return false; // nothing but a comment follows
                bool need = (a.word_end && isalpha((unsigned char)p[i]->text[0])) || (a.name_end && a.word_end);
                text += gap == 2 ? " \t" : gap == 1 || need ? " " : "";
            }
            text += p[i]->text;
            mean += p[i]->mean;
        }
        if (!k.first.empty())
        {
            text += !p.empty() && p.back()->before == 'p' ? " " : gap == 2 ? "  " : gap == 1 && !p.empty() ? " " : "";
            text += k.first;
            mean += k.second;
        }
        else if (gap == 2)
            text += " ";
        return true;
    };
    S t, m;
    auto emit = [&](const std::vector<const Item*>& p, const std::vector<S>& ns, size_t nk) {
        for (int gap = 0; gap < 3; ++gap)
            for (auto& n : ns)
                for (size_t k = 0; k < nk; ++k)
                    if (join(p, gap, n, com[k], t, m))
                        e(t + "\x02" + m);
    };
    for (size_t k = 1; k < com.size(); ++k)
        for (auto& n : nr)
            e(n + com[k].first + "\x02" + number(n) + com[k].second);
    for (auto& a : all)
        emit({&a}, nr, com.size());
    for (auto& a : all)
        for (auto& b : all)
            emit({&a, &b}, tier ? nr : std::vector<S>{"", "44  "}, tier ? com.size() : 1);
    for (auto& b : few)
        for (auto& cc : few)
        {
            for (auto& a : few)
            {
                emit({&a, &b, &cc}, nr, com.size());
                for (auto& d : few)
                {
                    emit({&a, &b, &cc, &d}, {"44  "}, 2);
                    if (tier && (&a - &few[0]) % 3 == 0) // every third piece first
                        for (auto& f : few)
                            emit({&a, &b, &cc, &d, &f}, {"44  "}, 1);
                }
            }
        }
    // lines with something that means nothing
    const std::vector<S> bad = {"!", "$", "(", ")", "*", ",", "@", "_", "\xc3\xa9", "\\", "?", "\"", "\"A", "\"\"", "\"A B\"", "'", "[1]", "{", "<", "|", "CYCL", "CYCL X", "CYCLDEF 1", "Q5", "Q=5", "Q", "QX=5", "BEGIN", "BEGIN PGM", "BEGIN PGM a", "BEGIN PGM a CM",
                                "BEGIN PGM a MMX", "BEGIN a MM", "BEGINPGM a MM", "END PGM a_MM", "END PGM a b MM", "; a ~ b", ";~~"};
    const std::vector<S> pre = {"", "44 ", "44 L ", "44 X+5 ", "X+5 L X-5.5 ", "CYCL DEF 7.0 ", "44 CYCL DEF 7.1 X+5 ", "Q200=2 ", "\"TAB1\" ", "#2 "};
    const std::vector<S> post = {"", " X+5", " ;a", "!"};
    for (auto& b : bad)
        for (auto& x : pre)
            for (auto& y : post)
            {
                // "L Q5" is a value, a comment takes the rest, a word may follow
                bool after_word = x == "44 L " && (b[0] == 'Q');
                if (after_word || b == "BEGIN PGM a MM" || (x == "\"TAB1\" " && b[0] == 'Q'))
                    continue;
                if ((b == "\"" || b == "\"A") && y.find('"') != S::npos)
                    continue;
                e(x + b + y + "\x02!" + std::to_string(x.empty() ? 0 : x.find_last_not_of(" ") + 1));
            }
    for (S l : {"44", "44L X+5", "44;a", "-8 L", "+8 L", "8. L", "8,2 L", "8.5 L", "4294967296 L", "99999999999999999999 L", "X+5 5", "X+5 +5", "X+-5", "7 8 L", "44 ", "BEGIN PGM a MM;c", "BEGIN PGM a MM X"})
        e(l + "\x02!");
    // no text does harm
    const S ch = "LQXCE0159;~\"#=.:/+- \tG_!\xc3";
    const S ch5 = "LQX05;~\"#=. +G";
    if (tier)
        h::sequences(ch5.size(), 5, 5, [&](const std::vector<size_t>& s) {
            S x;
            for (auto i : s)
                x += ch5[i];
            e(x + "\x02*");
        });
    h::sequences(ch.size(), 1, 4, [&](const std::vector<size_t>& s) {
        S x;
        for (auto i : s)
            x += ch[i];
        e(x + "\x02*");
    });
}
h::Reg h1({"H01", h01_enum, h01_run, "lines of up to 2 of all pieces and 4 of 18 with every spacing, number and comment; 38 mistakes in 10 places; every text of up to 4 of 24 characters; under ASan and UBSan", "5 of 18 pieces, texts of 5 of 14 characters"});

} // namespace

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
