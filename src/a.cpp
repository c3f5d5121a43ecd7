// A group: robustness, built with the address and undefined behaviour sanitizers.
#include "fx.hpp"
#include <memory>
using namespace fx;
using h::Emit;
using h::Run;

extern "C" const char* __asan_default_options()
{
    return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1";
}
extern "C" const char* __ubsan_default_options()
{
    return "abort_on_error=1:halt_on_error=1:print_stacktrace=0";
}

namespace {

struct Pair
{
    std::unique_ptr<fanuc::AllAttributesParser> all, plain; // every analysis on / off
    Machine                                     machine;
};
Pair& pair_of(const std::string& dn)
{
    static std::map<std::string, Pair> m;
    auto&                              p = m[dn];
    if (!p.all)
    {
        Machine a;
        a.driver = dn;
        if (driver(dn).lathe)
        {
            a.tool                   = EMachineTool::lathe_zx;
            a.type                   = EMachineToolType::Lathe;
            a.cnc.default_work_plane = EWorkPlane::XZ;
        }
        a.ps    = {true, true, true, true, true};
        p.all   = make(a);
        p.machine = a;
        a.ps    = {false, false, false, false, false};
        p.plain = make(a);
    }
    return p;
}

template <typename F>
void guarded(Run& r, const std::string& what, F f)
{
    r.trans();
    try
    {
        f();
    }
    catch (const std::exception& e)
    {
        r.fail(what + " ends with the exception '" + e.what() + "'");
    }
    catch (...)
    {
        r.fail(what + " ends with an exception");
    }
}

// ---------------------------------------------------------------- S05
void s05_run(const std::string& c, Run& r)
{
    auto q = h::split(c, '\x02'); // driver, ops, blocks...
    auto& p = pair_of(q[0]);
    for (auto* x : {p.all.get(), p.plain.get()})
    {
        auto& m = p.machine;
        if (x->get_unit_system() != EDriverUnits::Millimeter) // an earlier case selected inches
            x->set_ncsettings(m.tool, m.type, MachinePointsData(m.mpd), Kinematics(m.kin), CncDefaultValues(m.cnc), ZeroPoint(m.zp));
        x->reset_macro_values(true);
        x->reset_attributes_path_calculator();
        x->renumber_reset();
    }
    for (size_t i = 2; i < q.size(); ++i)
    {
        auto& t = q[i];
        bool  read = false, full = false;
        guarded(r, "reading '" + t + "'", [&] {
            fanuc::FanucAttributeData d;
            std::string               m;
            read = p.all->remove_comment((int)i, t, d, m, true);
        });
        guarded(r, "parsing '" + t + "'", [&] {
            fanuc::FanucAttributeData d;
            std::string               m;
            bool                      ok = p.all->parse((int)i, t, d, m, true);
            r.outcome(ok ? "accepted" : read ? "refused" : "unreadable");
            if (!ok && read && m.empty() && t.find('#') == std::string::npos)
                r.fail("'" + t + "' is refused without a message");
            if (ok && !m.empty())
                r.fail("'" + t + "' is accepted with the message " + m);
            full = ok;
            if (ok && !read)
                r.fail("'" + t + "' is accepted but cannot be read");
            r.state(ok ? ren(d.value) : m);
        });
        if (q[1] == "p" || p.all->get_unit_system() != p.plain->get_unit_system()) // G20 selects inches only when analysed
            continue;
        guarded(r, "parsing without analyses '" + t + "'", [&] {
            fanuc::FanucAttributeData d;
            std::string               m;
            bool ok = p.plain->parse((int)i, t, d, m, true);
            if (ok && !read)
                r.fail("'" + t + "' is accepted without analyses but cannot be read");
            if (full && !ok)
                r.fail("'" + t + "' is accepted by the analyses but refused without them");
            if (!ok && read && m.empty() && t.find('#') == std::string::npos)
                r.fail("'" + t + "' is refused without a message");
        });
        auto one = [&](const char* what, auto f) {
            guarded(r, std::string(what) + " '" + t + "'", [&] {
                fanuc::FanucAttributeData d;
                std::string               m;
                if (f(d, m) != read)
                    r.fail("'" + t + "' is read in another way by " + what);
            });
        };
        auto& a = *p.plain;
        one("conversion to inches", [&](auto& d, auto& m) { return a.convert_length((int)i, t, d, m, true, UnitConversionType::metric_to_imperial); });
        one("conversion to millimetres", [&](auto& d, auto& m) { return a.convert_length((int)i, t, d, m, true, UnitConversionType::imperial_to_metric); });
        one("removal of numbering", [&](auto& d, auto& m) { return a.remove_numbering((int)i, t, d, m, true); });
        one("removal of optional blocks", [&](auto& d, auto& m) { return a.remove_optional_block((int)i, t, d, m, true); });
        one("renumbering", [&](auto& d, auto& m) { return a.renumber((int)i, t, d, m, true, RenumberSettings{"N", 10, 1, 99, false, false}); });
        for (auto o : {AxesRotatingOption::Xrotate90degrees, AxesRotatingOption::Yrotate180degrees, AxesRotatingOption::Zrotate270degrees})
            one("rotation", [&](auto& d, auto& m) { return a.rotate_axes((int)i, t, d, m, true, o); });
    }
    if (q[1] == "p")
        return;
    std::vector<std::string> prog(q.begin() + 2, q.end());
    prog.insert(prog.begin(), "G0 X1");
    prog.push_back("G1 X9 F100");
    for (auto ty : {FileSplittingType::block_numbers, FileSplittingType::tool_change, FileSplittingType::work_motion_time, FileSplittingType::work_motion_path, FileSplittingType::text})
        guarded(r, "splitting", [&] {
            std::vector<std::vector<std::vector<fanuc::AttributeVariant>>> v;
            std::string                                                    m;
            p.all->reset_macro_values(true);
            p.all->reset_attributes_path_calculator();
            bool ok = p.all->split_file(std::vector<std::string>(prog), v, m, true, FileSplitting{ty, 2, 1, 1, "X", false, prog[1]});
            r.outcome(ok ? "split" : "not split");
        });
}
void s05_enum(int tier, const Emit& e)
{
    auto put = [&](const std::string& dn, char op, const std::vector<std::string>& b) {
        std::string c = dn + "\x02" + op;
        for (auto& x : b)
            c += "\x02" + x;
        e(c);
    };
    const std::string ch = "GMXNFSTOP#[]()/%=+-.,;:*<019 \tI\xc3\xff\x01\"e";
    const std::string              ch4  = "GMXT#[]()/%=+-.:*<1\tI\xc3\"e";
    const std::vector<std::string> frag = {"G", "G0", "G1", "G2", "G81", "G4", "G20", "G68", "M6", "X", "X1", "X-", "X.", "X+.", "X1.", "X.5", "X[", "X[]", "X[.]", "X[-]", "X[1]", "X-[1]", "X]", "X#", "X#1", "X#-1", "X[#1]", "X[[[[1]]]]", "X#99999999999",
                                           "X99999999999", "X0.99999999999", "X1.2.3", "X--1", "#", "#1", "#1=", "#1=1", "#1=.", "#1=-", "#1=[", "#1=]", "#1=#1", "#1=#2", "#1=1/0", "#1=SQRT[-1]", "#1=SIN", "#1=SIN[", "#1=TAN[90]", "#1=BIN[-1]", "#1=BCD[99999]",
                                           "#1=EXP[9999]", "#1=FIX[#1]", "#1=1 MOD 0", "#1=[1]AND[2]", "#1=99999*99999*99999*99999", "#[1]=1", "#[#1]=1", "##1=1", "#99999999999=1", "#0=1", "F", "F.", "F[.]", "F#1", "F0", "F-1", "S", "S[.]", "S0", "T", "T999999", "T[1]", "T#1", "M#1",
                                           "G#1", "G[1]", "G[.]", "G99999999999", "G68.99", "H[-]", "D[.]", "B.", "E.", "N", "N1", "N[1]", "N99999999999", ":1", "O", "O1", "O99999999999", "%", "/", "/1", "/[", "(", ")", "()", "(a", "((a))", "IF", "IF[", "IF[#1EQ1]", "GOTO", "GOTO1",
                                           "WHILE[#1LT9]DO1", "END1", "EQ", "MOD", "SIN[1]", "=", "=1", "+", "-1", "*", "*2", ",", ",C1", ",R", "1", ".", "1.5", "Q0", "Q.001", "K99", "K#1", "R1", "R[.]", "I1", "J.", "P.", "P1", "L9999", "Z-5", "\xc3\xa9", "\t", ";", "\\", "\"", "\r"};
    const std::vector<std::string> few = {"G1", "X", "X.", "X[", "X[1]", "X#1", "#1=", "#1", "#1=#2", "[", "]", "F", "F[.]", "F#1", "G", "G#1", "G4", "M", "T", "S[.]", "=", "+", "/", "(a)", "(", "N1", "O1", "IF[", "EQ1", "SIN", "R", "H[-]", "M#1", "G2", "R1", "."};
    const std::vector<std::string> blk = {"G0 X0 Y0 Z0", "G1 X#1 F0", "G2 X1 Y1 R0", "G2 X1 Y1 I0 J0", "G2 X0 Y0 R.0001", "G3 R1", "G2 X9 R1", "G81 Z-1 R0 F0", "G83 Z-9999 R0 Q0.001 F1", "G83 Z-5 R1 Q0", "G73 Z-5 R1 Q-1", "X1 K9999", "G96 S0", "G96 S1 X0", "G97 S0",
                                          "G95 F0", "G1 X1", "G4 P99999999", "G4 X.001", "M6", "T99 M6", "T#1", "#1=1/0", "#1=0/0", "#1=-1/0", "#1=99999*99999*99999", "X#1", "G[#1]", "F#1", "S#1", "G91", "G28 X0", "G28", "G20", "G17 G2 I1 Z1", "G98", "G99", "G18 G2 X1 Z1 R-1", "M3", "G68 R1", "G12.1", "G1 A1 B1 C1"};
    for (auto& dn : driver_names())
    {
        const bool main = dn == "fanuc_mill";
        std::string a;
        for (size_t n = 1; n <= (main ? 3u : 2u); ++n)
            h::sequences(ch.size(), n, n, [&](const std::vector<size_t>& s) {
                std::string t;
                for (auto i : s)
                    t += ch[i];
                put(dn, n > 2 ? 'p' : 'a', {t});
            });
        if (main && tier)
            h::sequences(ch4.size(), 4, 4, [&](const std::vector<size_t>& s) {
                std::string t;
                for (auto i : s)
                    t += ch4[i];
                put(dn, 'p', {t});
            });
        h::sequences(frag.size(), 1, main ? 2 : 1, [&](const std::vector<size_t>& s) {
            std::string t, u;
            for (auto i : s)
                t += frag[i] + " ", u += frag[i];
            put(dn, 'a', {t});
            if (s.size() > 1)
                put(dn, 'a', {u});
        });
        if (main || tier)
            h::sequences(few.size(), 3, 3, [&](const std::vector<size_t>& s) {
                std::string t, u;
                for (auto i : s)
                    t += few[i] + " ", u += few[i];
                put(dn, tier && main ? 'a' : 'p', {t});
                put(dn, tier && main ? 'a' : 'p', {u});
            });
        if (tier) // one block more over every other block
            h::sequences(blk.size() / 2, main ? 4 : 3, main ? 4 : 3, [&](const std::vector<size_t>& s) {
                std::vector<std::string> b;
                for (auto i : s)
                    b.push_back(blk[2 * i]);
                put(dn, 'p', b);
            });
        h::sequences(blk.size(), 1, main ? 3 : 2, [&](const std::vector<size_t>& s) {
            std::vector<std::string> b;
            for (auto i : s)
                b.push_back(blk[i]);
            put(dn, s.size() == 2 ? 'a' : 'p', b);
        });
        for (size_t n : {100, 1000, 5000}) // long and deep
        {
            auto rep = [&](const std::string& x) {
                std::string t;
                for (size_t i = 0; i < n; ++i)
                    t += x;
                return t;
            };
            for (std::string x : {"X", "1", "[", "]", "(", "#", "-", "X1 ", "G1 ", "[1]", "/1 ", "N", ".", "A", "+1"})
            {
                put(dn, 'a', {rep(x)});
                put(dn, 'a', {"X" + rep(x)});
                put(dn, 'a', {"#1=" + rep(x) + "1"});
                put(dn, 'a', {"X0" + rep(x) + "1"});
            }
            put(dn, 'a', {"#1=" + rep("[") + "1" + rep("]")});
            put(dn, 'a', {"#1=" + rep("SIN[") + "1" + rep("]")});
            put(dn, 'a', {"X" + rep("[") + "1" + rep("]")});
            put(dn, 'a', {"(" + rep("é") + ")"});
        }
    }
}
h::Reg r5({"S05", s05_enum, s05_run,
           "every text of up to 3 of 36 characters, every block of up to 2 of 140 and 3 of 36 fragments, all programs of up to 3 of 42 edge blocks, nesting and lengths up to 5000, on one driver; shorter ones on ten more; under ASan and UBSan",
           "texts of 4 of 24 characters, programs of 4 of 21 blocks (3 on the other drivers), 3 fragments on every driver and through every tool on one"});

} // namespace

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
