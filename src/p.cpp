// P group: distance, time, position.  One independent reference model, several alphabets.
#include "fx.hpp"
using namespace fx;
using h::Emit;
using h::Run;

namespace {

// configuration letters (first line of a case: driver|letters)
//  L lathe without Y, T mill-turn, 2 diameters, R incremental default, 1 G1 default, 9 G99 default, z XZ plane default, y YZ plane default
//  e T exchanges, a rapid after exchange, c G80 starts rapid, r G0 cancels cycle, l G1, w G2, W G3, m auto measure, o operator starts the spindle
//  p zero point, v 95 default, i inch default
bool has(const std::string& s, char c)
{
    return s.find(c) != std::string::npos;
}
Machine machine(const std::string& drv, const std::string& f)
{
    Machine m;
    m.driver = drv;
    m.ps     = {true, false, true, false, false};
    if (has(f, 'L'))
        m.type = EMachineToolType::Lathe, m.tool = EMachineTool::lathe_zx;
    if (has(f, 'T'))
        m.type = EMachineToolType::Millturn, m.tool = EMachineTool::millturn_XYZBC;
    m.mpd.machine_base_point  = {{"X", 3}, {"Y", -2}, {"Z", 50}};
    m.mpd.tool_exchange_point = {{"X", -7}, {"Y", 11}, {"Z", 80}};
    if (has(f, 'p'))
        m.zp = {4, -6, 9};
    m.kin.max_fast_feed                           = has(f, 'F') ? -1 : 6000; // not given
    m.kin.tool_exchange_time                      = 6;
    m.kin.pallet_exchange_time                    = 17;
    m.kin.tool_measurement_time                   = 29;
    m.kin.diameter_programming_2x                 = has(f, '2');
    m.kin.auto_measure_after_tool_selection       = has(f, 'm');
    m.kin.pallet_exchange_code                    = "M";
    m.kin.pallet_exchange_code_value              = "60";
    m.kin.tool_measurement_code                   = "M";
    m.kin.tool_measurement_code_value             = "66";
    if (has(f, 'O')) // subprograms
        m.kin.pallet_exchange_code = m.kin.tool_measurement_code = "O", m.kin.pallet_exchange_code_value = "9060", m.kin.tool_measurement_code_value = "0066";
    m.cnc.default_motion                          = has(f, '1') ? EMotion::LinearInterpolation : EMotion::RapidTraverse;
    m.cnc.default_work_plane                      = has(f, 'z') ? EWorkPlane::XZ : has(f, 'y') ? EWorkPlane::YZ : EWorkPlane::XY;
    m.cnc.default_programming                     = has(f, 'R') ? EProgrammingType::Incremental : EProgrammingType::Absolute;
    m.cnc.default_feed_mode                       = has(f, 'v') ? EFeedMode::PerRevolution : EFeedMode::PerMinute;
    m.cnc.default_driver_units                    = has(f, 'i') ? EDriverUnits::Inch : EDriverUnits::Millimeter;
    m.cnc.drill_cycle_return_value                = has(f, '9') ? EDrillGreturnMode::G99 : EDrillGreturnMode::G98;
    m.cnc.default_rotation                        = 700;
    m.cnc.operator_turns_on_rotation              = has(f, 'o');
    m.cnc.tool_number_executes_exchange           = has(f, 'e');
    m.cnc.auto_rapid_traverse_after_tool_exchange = has(f, 'a');
    m.cnc.cycle_cancel_starts_rapid_traverse      = has(f, 'c');
    m.cnc.rapid_traverse_cancel_cycle             = has(f, 'r');
    m.cnc.linear_interpolation_cancel_cycle       = has(f, 'l');
    m.cnc.circular_interpolation_cw_cancel_cycle  = has(f, 'w');
    m.cnc.circular_interpolation_ccw_cancel_cycle = has(f, 'W');
    return m;
}

struct Tot
{
    double path = 0, time = 0;
};
struct Model
{
    const Machine&                       m;
    std::map<char, double>               pos;
    std::map<char, std::pair<double, double>> ext;
    std::map<char, double>               ijk;
    int                                  g, plane, ret, abs_, css = 97, fm;
    double                               f = -1, s = -1;
    bool                                 inch;
    std::string                          tool, chosen;
    std::map<std::string, Tot>           tools; // by number: 03 is 3
    static std::string                   tool_nr(std::string t)
    {
        while (t.size() > 1 && t[0] == '0')
            t.erase(0, 1);
        return t;
    }
    Tot                                  total;
    double                               work{}, fast{}, twork{}, tfast{};
    bool                                 rapid_next{};
    bool                                 cyc{};
    double                               clin{}, crap{};
    bool                                 sane = true; // every hole so far had start >= R >= depth
    std::array<double, 3>                base, tep;
    const bool                           drilling_z;

    explicit Model(const Machine& mm)
        : m(mm)
        , drilling_z(mm.tool == EMachineTool::lathe_zx)
    {
        double z[3] = {m.zp.x, m.zp.y, m.zp.z};
        for (int i = 0; i < 3; ++i)
        {
            base[i]       = m.mpd.machine_base_point.at(std::string(1, "XYZ"[i])) - z[i];
            tep[i]        = m.mpd.tool_exchange_point.at(std::string(1, "XYZ"[i])) - z[i];
            pos["XYZ"[i]] = base[i];
            ext["XYZ"[i]] = {base[i], base[i]};
        }
        g     = m.cnc.default_motion == EMotion::LinearInterpolation ? 1 : 0;
        plane = m.cnc.default_work_plane == EWorkPlane::XZ ? 18 : m.cnc.default_work_plane == EWorkPlane::YZ ? 19 : 17;
        ret   = m.cnc.drill_cycle_return_value == EDrillGreturnMode::G99 ? 99 : 98;
        abs_  = m.cnc.default_programming == EProgrammingType::Incremental ? 91 : 90;
        fm    = m.cnc.default_feed_mode == EFeedMode::PerRevolution ? 95 : 94;
        inch  = m.cnc.default_driver_units == EDriverUnits::Inch;
        if (m.cnc.operator_turns_on_rotation)
            s = m.cnc.default_rotation;
    }
    static bool cycle(int c)
    {
        return c == 73 || c == 74 || c == 76 || (c >= 81 && c <= 89);
    }
    void go(char a, double v)
    {
        pos[a]         = v;
        ext[a].first   = std::min(ext[a].first, v);
        ext[a].second  = std::max(ext[a].second, v);
    }
    void hole(int code, bool incr, double z0, double R, double Z, double Q, int rt)
    {
        if (!incr && !(z0 >= R && R >= Z))
            sane = false;
        double down = incr ? std::fabs(Z) : std::fabs(R - Z), appr = incr ? std::fabs(R) : std::fabs(z0 - R), n = code == 73 || code == 83 ? std::floor(down / Q) : 0;
        int    k = rt == 98 ? 2 : 1;
        switch (code)
        {
        case 74:
        case 84:
            clin = 2 * down;
            crap = incr ? (rt == 98 ? 2 * appr : 0) : k * appr;
            break;
        case 76:
            clin = down;
            crap = incr ? (rt == 98 ? appr : 0) + down + 2 * Q : appr + (rt == 98 ? std::fabs(z0 - Z) : down) + 2 * Q;
            break;
        case 73:
            clin = down + n * Q / 5;
            crap = k * appr + down + (incr ? n * Q / 5 : 0);
            break;
        case 83:
            clin = down + n * Q / 5;
            crap = (n * n + n) * Q + k * appr + (down - n * Q > 0 ? 2 * down : 0) - clin;
            break;
        case 87:
            clin = down;
            crap = incr ? 2 * appr + 3 * Q + std::sqrt(Q * Q + Z * Z) : std::fabs(2 * appr + 4 * Q - down);
            break;
        default:
            clin = down;
            crap = k * appr + down;
        }
    }
    // true: accepted
    bool block(const std::string& text)
    {
        work = fast = twork = tfast = 0;
        std::map<char, double>      v;
        std::map<char, std::string> raw;
        int                         ng = -1;
        int                         np = plane, nr = ret, na = abs_, ncss = css, nfm = fm;
        double                      nf = f, ns = s;
        bool                        m6 = false, dwell = false, home = false, pallet = false, measure = false, hasT = false, mod = false, setting = false, call = false, clamp = false;
        std::string                 t;
        std::vector<std::string>    ts;
        bool                        skipped = false, ninch = inch;
        for (auto& w : h::split(text, ' '))
        {
            if (w[0] == '/')
            {
                skipped = true;
                if (w.size() > 1)
                    continue;
            }
            if (w.empty() || w[0] == '(' || w[0] == 'N')
                continue;
            double x = atof(w.c_str() + 1);
            if (w == "G20" || w == "G21")
                ninch = w == "G20";
            if (skipped)
                continue;
            switch (w[0])
            {
            case 'G': {
                int c = (int)x;
                if (x != c && (c == 80 || c == 81 || c == 91)) // other codes
                    break;
                if (c <= 3 || c == 80 || cycle(c))
                    ng = c;
                else if (c >= 17 && c <= 19)
                    np = c, mod = true;
                else if (c == 90 || c == 91)
                    na = c, mod = true;
                else if (c == 94 || c == 95)
                    nfm = c;
                else if (c == 96 || c == 97)
                    ncss = c;
                else if (c == 98 || c == 99)
                    nr = c, mod = true;
                else if (c == 4)
                    dwell = true;
                else if (c == 28)
                    home = true;
                else if (c == 10 || c == 52 || c == 53 || c == 92)
                    setting = true, clamp |= c == 92;
                else if (c == 50)
                    setting = clamp = true;
                else if (c == 51 || c == 65 || c == 66)
                    setting = call = true;
                break;
            }
            case 'M':
                m6 |= x == 6;
                pallet |= x == 60 && m.kin.pallet_exchange_code == "M";
                measure |= x == 66 && m.kin.pallet_exchange_code == "M";
                break;
            case 'O':
                pallet |= x == 9060 && m.kin.pallet_exchange_code == "O";
                measure |= x == 66 && m.kin.pallet_exchange_code == "O";
                break;
            case 'T':
                ts.push_back(w.substr(1));
                break;
            case 'F':
                nf = x;
                break;
            case 'S':
                ns = x;
                break;
            default:
                v[w[0]]   = x;
                raw[w[0]] = w;
            }
        }
        if (call) // a centre or arguments
            for (char a : {'X', 'Y', 'Z', 'I', 'J', 'K', 'R'})
                v.erase(a);
        if (clamp)
            ns = s;
        hasT = !ts.empty();
        if (hasT)
        {
            t = m6 ? ts.front() : ts.back();
            if (m.type == EMachineToolType::Lathe && t.size() > 2)
                t = t.substr(0, t.size() / 2);
        }
        bool onT  = m.cnc.tool_number_executes_exchange;
        bool exch = onT ? hasT : m6;
        if (exch)
        {
            if (!hasT && !chosen.empty()) // M6 alone exchanges what was preselected
                hasT = true, t = chosen;
            if (!onT)
                chosen = ts.size() > 1 ? ts.back() : "";
            total.time += m.kin.tool_exchange_time;
            if (m.kin.auto_measure_after_tool_selection)
                total.time += m.kin.tool_measurement_time;
            if (hasT)
                tool = t;
        }
        if (measure && !m.kin.auto_measure_after_tool_selection)
            total.time += m.kin.tool_measurement_time;
        if (pallet)
            total.time += m.kin.pallet_exchange_time;
        if (hasT && m.cnc.auto_rapid_traverse_after_tool_exchange)
            rapid_next = true;
        if (hasT && !exch && (ng >= 0 || mod))
            return false;
        if (hasT && !exch)
            chosen = t;
        if (hasT && !exch && !home) // only preselected
        {
            if (dwell)
            {
                total.time += (v.count('X') ? v['X'] : 0) + (v.count('U') ? v['U'] : 0);
                if (v.count('P'))
                    total.time += has(raw['P'], '.') ? v['P'] : v['P'] / 1000;
                for (char a : {'X', 'U', 'P'})
                    v.erase(a);
            }
            if (setting)
                for (char a : {'X', 'Y', 'Z'})
                    v.erase(a);
            f    = nf;
            s    = ns;
            inch = ninch;
            css  = ncss;
            fm   = nfm;
            for (char a : {'X', 'Y', 'Z'})
                if (v.count(a))
                    go(a, na == 91 ? pos[a] + v[a] : v[a]);
            return true;
        }
        inch = ninch;
        if (dwell)
        {
            total.time += (v.count('X') ? v['X'] : 0) + (v.count('U') ? v['U'] : 0);
            if (v.count('P'))
                total.time += has(raw['P'], '.') ? v['P'] : v['P'] / 1000;
            for (char a : {'X', 'U', 'P'})
                v.erase(a);
        }
        if (setting)
            for (char a : {'X', 'Y', 'Z'})
                v.erase(a);
        int cur = ng >= 0 ? ng : g;
        if (ng < 0 && (exch || home || (rapid_next && !v.empty())))
            cur = 0;
        if (rapid_next && !v.empty())
            rapid_next = false;
        bool   lathe = m.type == EMachineToolType::Lathe || (m.type == EMachineToolType::Millturn && np == 18);
        double hx    = lathe && !m.kin.diameter_programming_2x ? 0.5 : 1; // X is a diameter
        auto   to    = pos;
        for (char a : {'X', 'Y', 'Z'})
        {
            if (exch || home)
                to[a] = (exch ? tep : base)[a - 'X'];
            else if (v.count(a))
                to[a] = na == 91 ? pos[a] + v[a] : v[a];
        }
        char A = np == 19 ? 'Y' : 'X', B = np == 17 ? 'Y' : 'Z', D = np == 17 ? 'Z' : np == 18 ? 'Y' : 'X';
        if (cur == 0 || cur == 1)
        {
            if (cur == 0 ? m.cnc.rapid_traverse_cancel_cycle : m.cnc.linear_interpolation_cancel_cycle)
                cyc = false;
            double d = std::sqrt(std::pow((to['X'] - pos['X']) * hx, 2) + std::pow(to['Y'] - pos['Y'], 2) + std::pow(to['Z'] - pos['Z'], 2));
            (cur ? work : fast) = d;
        }
        else if (cur == 2 || cur == 3)
        {
            if (ng >= 0 || !v.empty())
            {
                if (cur == 2 ? m.cnc.circular_interpolation_cw_cancel_cycle : m.cnc.circular_interpolation_ccw_cancel_cycle)
                    cyc = false;
                double ha = A == 'X' ? hx : 1;
                double dx = (to[A] - pos[A]) * ha, dy = to[B] - pos[B];
                char   I = A == 'X' ? 'I' : 'J', J = B == 'Y' ? 'J' : 'K';
                if (v.count('R') && !(v.count(I) && v.count(J)))
                {
                    double r = std::fabs(v['R']), c = std::sqrt(dx * dx + dy * dy);
                    double a = 2 * std::asin(std::min(1., c / 2 / r));
                    work     = (v['R'] < 0 ? 2 * M_PI - a : a) * r;
                    if (c == 0)
                        work = 2 * M_PI * r;
                }
                else
                {
                    if (v.count(I))
                        ijk[I] = v[I];
                    if (v.count(J))
                        ijk[J] = v[J];
                    if (!ijk.count(I) || !ijk.count(J))
                        return false;
                    double ci = ijk[I] * (I == 'I' ? hx : 1), cj = ijk[J];
                    double a0 = std::atan2(-cj, -ci), a1 = std::atan2(dy - cj, dx - ci);
                    bool   ccw = (cur == 3) != (np == 18); // G18 is ZX: seen as XZ it is mirrored
                    double sw  = ccw ? a1 - a0 : a0 - a1;
                    while (sw <= 1e-9)
                        sw += 2 * M_PI;
                    while (sw > 2 * M_PI + 1e-9)
                        sw -= 2 * M_PI;
                    work = sw * std::sqrt(ci * ci + cj * cj);
                }
            }
        }
        else if (cur == 80)
        {
            cyc = false;
            if (m.cnc.cycle_cancel_starts_rapid_traverse)
                cur = 0;
        }
        else if (ng >= 0 || !v.empty())
        {
            bool qc = cur == 73 || cur == 76 || cur == 83 || cur == 87;
            bool k  = v.count('K') != 0;
            double depth = drilling_z ? 0 : v.count(D) ? v[D] : 0;
            bool   full  = v.count(D) && v.count('R') && (!qc || v.count('Q'));
            if (!cyc || k || full)
            {
                if ((!drilling_z && !v.count(D)) || !v.count('R') || (qc && !v.count('Q')))
                    return false;
                hole(cur, na == 91, pos[D], v['R'], depth, qc ? v['Q'] : 0, nr);
            }
            cyc      = true;
            double d = std::sqrt(std::pow(to[A] - pos[A], 2) + std::pow(to[B] - pos[B], 2));
            int    n = k && v['K'] == 0 ? 0 : na == 91 && k ? (int)v['K'] : 1;
            work     = n * clin;
            fast     = n * crap + std::max(n, 1) * d;
            if (na == 91 && n > 1)
                for (char a : {A, B})
                    if (v.count(a))
                        to[a] = pos[a] + n * v[a];
            to[drilling_z ? 'Z' : D] = pos[drilling_z ? 'Z' : D];
        }
        g = cur, plane = np, ret = nr, abs_ = na, css = ncss, fm = nfm, f = nf, s = ns;
        if (work > 0)
        {
            if (f < 0)
                return false;
            double rate = f;
            if (lathe && fm == 95)
                rate = css == 96 ? f * (inch ? 12 : 1000) * s / (M_PI * work) : f * s;
            twork = 60 * work / rate;
        }
        if (fast > 0 && m.kin.max_fast_feed < 0)
            return false;
        tfast = 60 * fast / m.kin.max_fast_feed;
        total.path += work + fast;
        total.time += twork + tfast;
        tools[tool_nr(tool)].path += work + fast;
        tools[tool_nr(tool)].time += twork + tfast;
        for (char a : {'X', 'Y', 'Z'})
            go(a, to[a]);
        for (char a : {'I', 'J', 'K'})
            if (v.count(a))
                ijk[a] = v[a];
        return true;
    }
};

std::string cmp(const Model& q, const fanuc::AllAttributesParser& p)
{
    auto& a = p.get_path_result();
    auto& b = p.get_time_result();
    auto  t = q.tools.count(q.tool_nr(q.tool)) ? q.tools.at(q.tool_nr(q.tool)) : Tot{};
    struct
    {
        const char* n;
        double      got, want;
    } c[] = {{"work motion", a.work_motion, q.work}, {"rapid motion", a.fast_motion, q.fast}, {"total path", a.total, q.total.path}, {"path of the tool", a.tool_total, t.path},
             {"work time", b.work_motion, q.twork},  {"rapid time", b.fast_motion, q.tfast},  {"total time", b.total, q.total.time},  {"time of the tool", b.tool_total, t.time}};
    for (auto& x : c)
        if (!h::near(x.got, x.want))
            return std::string(x.n) + " is " + h::num(x.got) + ", expected " + h::num(x.want);
    if (a.tool_id != q.tool && !(q.tool.empty()))
        return "tool is '" + a.tool_id + "', expected '" + q.tool + "'";
    auto& w = p.get_word_range();
    for (auto& x : q.pos)
    {
        auto it = w.find(std::string(1, x.first));
        if (it == w.end())
            return std::string("no range of ") + x.first;
        auto [mn, cu, mx] = it->second;
        auto& e           = q.ext.at(x.first);
        if (!h::near(cu, x.second) || !h::near(mn, e.first) || !h::near(mx, e.second))
            return std::string(1, x.first) + " is " + h::num(mn) + "/" + h::num(cu) + "/" + h::num(mx) + ", expected " + h::num(e.first) + "/" + h::num(x.second) + "/" + h::num(e.second);
    }
    return "";
}

bool usable(const Driver& d, bool inch, const std::string& blk)
{
    auto& t = inch ? d.imperial : d.metric;
    for (auto& w : h::split(blk, ' '))
        if (!w.empty() && w[0] != '(' && w[0] != '/' && !t.count(w.substr(0, 1)))
            return false;
    return true;
}

void run(const std::string& c, Run& r)
{
    auto q  = h::split(c, '\n');
    auto hd = h::split(q[0], '|');
    auto m  = machine(hd[0], hd.size() > 1 ? hd[1] : "");
    auto p  = make(m);
    Model ref(m);
    for (size_t i = 1; i < q.size(); ++i)
        if (!usable(driver(hd[0]), ref.inch, q[i]))
            return;
    for (size_t i = 1; i < q.size(); ++i)
    {
        Model before = ref;
        bool  ok     = ref.block(q[i]);
        auto  a      = parse(*p, (int)i, q[i]);
        r.trans();
        r.state(canon(*p));
        r.outcome(ok ? std::to_string(ref.g) : "rejected");
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        if (a.ok != ok)
            return r.fail("'" + q[i] + "' (block " + std::to_string(i) + ") was " + (a.ok ? "accepted" : "rejected: " + a.msg));
        if (!ok)
            return; // what a calculation error leaves behind is not part of these properties
        auto e = cmp(ref, *p);
        if (!e.empty())
            return r.fail("after '" + q[i] + "' (block " + std::to_string(i) + "): " + e);
    }
}

std::string join(const std::string& hd, const std::vector<std::string>& bl, const std::vector<size_t>& s)
{
    auto c = hd;
    for (auto i : s)
        c += "\n" + bl[i];
    return c;
}

// ------------------------------------------------------------------ P01 linear motion
void p01(int tier, const Emit& e)
{
    const std::vector<std::string> bl = {"G0 X10 Y-5", "G1 X2.5 F300", "Y7 Z3", "G91 X-4", "G90 Z-1.125", "F50", "G91 G1 Y2 Z2", "G0 G90 X0 Y0 Z0", "X0.25", "M8", "G1", "N10 X1 (X99) Y1", "/ G1 X77", "G0", "Z12 / X5", "G01 X-3 F1.5"};
    for (auto& d : driver_names())
        for (std::string f : {"", "R", "1", "p", "L", "L2", "T", "Tz", "Tz2", "Lz"})
        {
            bool main = d == "fanuc_mill";
            int  dep  = main && (f.empty() || f == "R" || f == "Lz") ? (tier ? 5 : 4) : main || tier ? 3 : 2;
            h::sequences(bl.size(), 1, dep, [&](const std::vector<size_t>& s) { e(join(d + "|" + f + "\nF120 S60", bl, s)); });
        }
    // the plane may be selected in the block of a move: X is a diameter in G18 on a millturn
    const std::vector<std::string> pl = {"G18 X10 Y-5", "G17 G1 X2.5 F300", "G19 G0 X7", "G18", "G17", "X-3 Z1", "G91 G18 G1 X2", "G90 G17 X1"};
    for (auto& d : driver_names())
        for (std::string f : {"T", "T2", "Tz", "TR", "Ty1", "L", ""})
            h::sequences(pl.size(), 2, (d == "fanuc_mill") + (tier ? 3 : 2), [&](const std::vector<size_t>& s) { e(join(d + "|" + f + "\nF120 S60", pl, s)); });
    // every grid vector
    const std::vector<double> g = {-99999, -100, -0.001, 0, 0.0005, 3, 4, 12345.678};
    for (std::string w : {"G0 G90", "G1 G90", "G0 G91", "G1 G91"})
        for (std::string f : {"", "L", "Tz"})
            for (auto x : g)
                for (auto y : g)
                    for (auto z : g)
                        e("fanuc_mill|" + f + "\nF10 G0 X1 Y2 Z3\n" + w + " X" + h::num(x) + " Y" + h::num(y) + " Z" + h::num(z) + "\nX" + h::num(z) + "\nG90 Y" + h::num(x));
}
h::Reg r1({"P01", p01, run, "all programs of <=4 of 16 linear blocks (mill, incremental default, lathe), <=3 for 7 more machine configurations, <=2 on the ten other drivers; all of <=3 (2) of 8 blocks which select planes in 7 configurations; every move over an 8x8x8 grid", "<=5 / <=3 on every driver"});

// ------------------------------------------------------------------ P02 arcs
void p02(int tier, const Emit& e)
{
    std::vector<std::pair<int, int>> pt; // integer points on a circle of radius 65
    for (int x = -65; x <= 65; ++x)
        for (int y = -65; y <= 65; ++y)
            if (x * x + y * y == 65 * 65)
                pt.push_back({x, y});
    const std::vector<double> sc = {0.01, 0.1, 1};
    struct C
    {
        double x, y;
    };
    const std::vector<C> ce = {{0, 0}, {100, -40}, {-0.5, 65}};
    for (int pl = 17; pl <= 19; ++pl)
        for (auto s : sc)
            for (auto& c : ce)
                for (auto& a : pt)
                    for (auto& b : pt)
                        for (int dir = 2; dir <= 3; ++dir)
                        {
                            if (!tier && pl == 19 && (c.x != 0 || s == 0.1))
                                continue;
                            char A = pl == 19 ? 'Y' : 'X', B = pl == 17 ? 'Y' : 'Z', I = pl == 19 ? 'J' : 'I', J = pl == 17 ? 'J' : 'K';
                            auto N  = [&](char w, double v) { return " " + std::string(1, w) + h::num(std::round(v * 1000) / 1000); };
                            auto st = "\nG" + std::to_string(pl) + " F100 G0" + N(A, c.x + a.first * s) + N(B, c.y + a.second * s);
                            auto g  = "\nG" + std::to_string(dir);
                            auto ij = N(I, -a.first * s) + N(J, -a.second * s);
                            auto en = N(A, c.x + b.first * s) + N(B, c.y + b.second * s), de = N(A, (b.first - a.first) * s) + N(B, (b.second - a.second) * s);
                            e("fanuc_mill|" + st + g + en + ij);
                            if (s != 0.1 || tier)
                                e("fanuc_mill|" + st + g + " G91" + de + ij);
                            if (a != b && dir == 2)
                                for (int neg = 0; neg < 2; ++neg)
                                {
                                    if (a.first == -b.first && a.second == -b.second && neg)
                                        continue;
                                    e("fanuc_mill|" + st + g + en + N('R', neg ? -65 * s : 65 * s));
                                    if (s != 0.1)
                                        e("fanuc_mill|" + st + "\nG3 G91" + de + N('R', neg ? -65 * s : 65 * s));
                                }
                        }
    // modal programs
    const std::vector<std::string> bl = {"G2 X10 Y0 I5 J0", "G3 X10 Y0 I-5 J0", "X0 Y0 R5", "G2 X0 Y10 R10", "G3 X10 Y0 R-10", "G1 X10 Y0", "G0 X0 Y0", "G91 X10 R6", "G90", "F30", "G2 I5", "M9", "X0 Y0 I-5", "G17"};
    for (std::string f : {"", "R", "wW", "2"})
        h::sequences(bl.size(), 1, tier ? 5 : 4, [&](const std::vector<size_t>& s) {
            if (!f.empty() && s.size() > 3 && !tier)
                return;
            // an arc is only meaningful when its end lies on the circle
            std::string c = join("fanuc_mill|" + f + "\nG90 G0 X0 Y0 F60", bl, s);
            Machine     m = machine("fanuc_mill", f);
            Model       q(m);
            auto        v = h::split(c, '\n');
            for (size_t i = 1; i < v.size(); ++i)
            {
                auto p = q.pos;
                if (!q.block(v[i]))
                    return;
                bool cut = q.work > 0 && (q.g == 2 || q.g == 3);
                if (cut)
                {
                    auto   k  = v[i].find('R');
                    double dx = q.pos['X'] - p['X'], dy = q.pos['Y'] - p['Y'];
                    if (k != std::string::npos)
                    {
                        if (std::hypot(dx, dy) > 2 * std::fabs(atof(v[i].c_str() + k + 1)) - 1e-9 || std::hypot(dx, dy) < 1e-9)
                            return;
                    }
                    else if (std::fabs(std::hypot(q.ijk['I'], q.ijk['J']) - std::hypot(dx - q.ijk['I'], dy - q.ijk['J'])) > 1e-9 || std::hypot(q.ijk['I'], q.ijk['J']) < 1e-9)
                        return;
                }
            }
            e(c);
        });
}
h::Reg r2({"P02", p02, run, "every pair of the 36 integer points of a circle x 3 radii (0.65, 6.5, 65) x 3 centres x CW/CCW x 3 planes, by centre and by +-R, absolute and incremental (same-quadrant, on-axis, half and full circles included); all consistent programs of <=4 of 14 modal arc blocks",
           "all radii and centres in every plane; modal programs of <=5"});

// ------------------------------------------------------------------ P03 drilling cycles
void p03(int tier, const Emit& e)
{
    const std::vector<int>    cyc = {73, 74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89};
    const std::vector<double> zs  = {-20.5, -7, -3, 0, 2, 5, 12.5};
    for (int pl = 17; pl <= 19; ++pl)
        for (int c : cyc)
            for (int ret : {98, 99})
                for (auto z0 : zs)
                    for (auto R : zs)
                        for (auto Z : zs)
                            for (double Q : {1., 2.5, 3., 8.})
                            {
                                if (!(z0 >= R && R >= Z) || (pl > 17 && (Q == 3. || z0 == 5)))
                                    continue;
                                if (c != 73 && c != 76 && c != 83 && c != 87 && Q != 1.)
                                    continue;
                                char A = pl == 19 ? 'Y' : 'X', B = pl == 17 ? 'Y' : 'Z', D = pl == 17 ? 'Z' : pl == 18 ? 'Y' : 'X';
                                auto N = [](char w, double v) { return " " + std::string(1, w) + h::num(v); };
                                auto G = [](int g) { return " G" + std::to_string(g); };
                                auto st = "\nF100" + G(pl) + " G0" + N(A, 1) + N(B, 2) + N(D, z0);
                                e("fanuc_mill|" + st + "\n" + G(c).substr(1) + G(ret) + N(A, 4) + N(B, 6) + N(D, Z) + N('R', R) + N('Q', Q) + "\n" + N(A, 10).substr(1) + "\n" + N(B, 1).substr(1) + "\nG80\nG0" + N(A, 0) + N(B, 0) + N(D, 0));
                                for (int K : {0, 1, 3})
                                    e("fanuc_mill|" + st + "\nG91" + G(ret) + G(c) + N(A, 4) + N(B, -6) + N(D, Z - R) + N('R', R - z0) + N('Q', Q) + " K" + std::to_string(K) + "\n" + N(A, 10).substr(1) + "\nG80\nG90 G0" + N(A, 0) + N(B, 0) + N(D, 0));
                            }
    const std::vector<std::string> bl = {"G81 X5 Z-10 R2", "X10 Y5", "G83 Z-8 R1 Q3", "X20 K0 Z-4 R1", "G80", "G0 X0 Y0", "G99", "G91 X3", "G90", "G98 G85 Y8 Z-5 R2", "G1 X1", "Z-12 R3", "F40", "M8", "G76 X1 Z-3 R2", "G73 Z-9 R1 Q2 X2"};
    for (std::string f : {"", "c", "rl", "9", "cr9"})
        h::sequences(bl.size(), 1, f.empty() || tier ? 4 : 3, [&](const std::vector<size_t>& s) {
            // modal coordinates without a running cycle or motion are not meaningful after G80
            auto    c = join("fanuc_mill|" + f + "\nG90 G0 X0 Y0 Z15 F60", bl, s);
            Machine m = machine("fanuc_mill", f);
            Model   q(m);
            for (auto& b : h::split(c, '\n'))
            {
                if (b.find('|') != std::string::npos)
                    continue;
                if (q.g == 80 && b.find("X") != std::string::npos && b[0] != 'G')
                    return;
                if (q.g == 80 && (b == "G91 X3" || b == "Z-12 R3"))
                    return;
                bool was91 = q.abs_ == 91;
                if (was91 && (b[0] != 'G' || b.substr(0, 3) == "G81" || b.substr(0, 3) == "G83" || b.substr(0, 3) == "G98" || b.substr(0, 3) == "G73") && b.find('Z') != std::string::npos)
                    return; // the cycle data below are absolute
                if (!q.block(b))
                    break;
                if (!q.sane)
                    return;
            }
            e(c);
        });
}
void p03x(int tier, const Emit& e)
{
    p03(tier, e);
    const std::vector<std::string> bl = {"G81 X5 Z-10 R2", "G83 X7 Z-8 R1 Q3", "G2 X3 Y0 R50", "G3 X0 Y2 R50", "G0 X0 Y0", "G1 X1 Y1", "G81 X9", "G83 Y4", "G80", "G2", "G3 Y9 R50"};
    for (std::string f : {"w", "W", "wW", "r", "l", "rlwW"})
        h::sequences(bl.size(), 1, tier ? 5 : 4, [&](const std::vector<size_t>& s) {
            auto    c = join("fanuc_mill|" + f + "\nG90 G0 X0 Y0 Z15 F60", bl, s);
            Machine m = machine("fanuc_mill", f);
            Model   q(m);
            for (auto& b : h::split(c, '\n'))
            {
                if (b.find('|') != std::string::npos)
                    continue;
                auto p = q.pos;
                if (!q.block(b))
                    break;
                if (!q.sane || (has(b, 'R') && (q.g == 2 || q.g == 3) && p['X'] == q.pos['X'] && p['Y'] == q.pos['Y']))
                    return;
                if (b == "G2" && q.ijk.empty())
                    return;
            }
            e(c);
        });
}
h::Reg r3({"P03", p03x, run, "all programs of <=4 of 11 blocks of cycles, arcs and lines on 6 machine configurations whose motion codes end cycles; 12 cycles x G98/G99 x every start, R level and depth of a 7-value grid (start >= R >= depth) x 4 pecks x 3 planes, absolute, and incremental with K0/K1/K3; all programs of <=4 of 16 blocks (3 for 4 other machine configurations)", "<=4 in every configuration"});

// ------------------------------------------------------------------ P04 times
void p04(int tier, const Emit& e)
{
    const std::vector<std::string> bl = {"G4 X2", "G04 P500", "G4 P1.5", "G4 U3", "M60", "M66", "M6", "T3 M6", "T5", "G1 X20 F60", "G2 X0 Y0 R30", "G10 X3 Y3", "G92 X1", "M06 T12", "X5", "/ M60", "(M60)", "G0 X0", "G28", "M66 M60", "G81 X2 Z-5 R1", "G4 P250 X1", "G53 Z0", "F30", "T5 G4 X3"};
    auto bad = [&](const std::string& f, const std::string& c) { // arcs that do not lie on a circle
        Machine m = machine("fanuc_mill", f);
        Model   q(m);
        for (auto& b : h::split(c, '\n'))
        {
            if (b.find('|') != std::string::npos)
                continue;
            auto p = q.pos;
            if (!q.block(b))
                return false;
            if (q.work > 0 && (q.g == 2 || q.g == 3) && b.find('R') == std::string::npos)
                return true;
            if (q.work > 0 && (q.g == 2 || q.g == 3) && (std::hypot(q.pos['X'] - p['X'], q.pos['Y'] - p['Y']) < 1e-9 || std::hypot(q.pos['X'] - p['X'], q.pos['Y'] - p['Y']) > 60))
                return true;
            // a block with coordinates but without its own code while an arc is active
            if ((q.g == 2 || q.g == 3) && b[0] == 'X')
                return true;
        }
        return false;
    };
    for (std::string f : {"", "e", "m", "em", "a", "ea", "p", "F", "Fe"})
        h::sequences(bl.size(), 1, f.empty() || tier ? 4 : f[0] == 'F' ? 2 : 3, [&](const std::vector<size_t>& s) {
            auto c = join("fanuc_mill|" + f + "\nG0 X0 Y0 F60", bl, s);
            if (!bad(f, c))
                e(c);
        });
    const std::vector<std::string> lb = {"G1 X20 Z-5", "F0.3", "S500", "G96 S120", "G97 S800", "G95", "G94", "G0 X50", "F200 G1 Z-10", "G20", "G21", "Z3", "G18", "G17", "G95 G1 X30 F0.2", "G1 G96 S90 X10", "G94 G0 X1 G97 S300", "T4 G96 S60", "G95 T5 F0.1", "T6 G4 P500 G97", "T7 G10 X3", "G50 S700", "G50 X7 Z3", "G92 S650"};
    for (std::string f : {"L", "Lv", "T", "Tz", "Tzv", "", "Lvo", "Lvi", "L2v"})
        h::sequences(lb.size(), 1, tier ? 5 : f == "Lv" ? 4 : 3, [&](const std::vector<size_t>& s) { e(join("fanuc_mill|" + f + "\nF60 S900", lb, s)); });
    auto more = bl;
    for (auto* b : {"T3 M6 G53 Z0", "G4 P500 M6", "G28 G4 X1", "T8 G28", "T9 G28 G1", "T4 G10 Y5", "G92 X2 M6 T8", "T2 G96 F20 S10", "M060", "M0066", "O9060", "O66", "G92.1 X3 Z2", "G91.1 X4", "G80.5", "G81.4 Y3", "G81.1", "G65 P9810 X9 Y7 Z-4 I2 J3 R5", "G66 P9100 X4 K1", "G66.1 P9100 Y4 J2", "G51 X1 Y2 Z3", "G50 S900"})
        more.push_back(b);
    for (std::string f : {"", "e", "a", "O", "Om"})
        h::sequences(more.size(), 1, 3, [&](const std::vector<size_t>& s) {
            auto c = join("fanuc_mill|" + f + "\nG0 X0 Y0 F60", more, s);
            if (s.back() >= bl.size() - 1 || s.size() < 3)
                if (!bad(f, c))
                    e(c);
        });
    for (auto& d : driver_names())
        for (auto& b : more)
            for (auto& b2 : more)
            {
                if (d != "fanuc_mill" && (b == "M66 M60" || b2 == "M66 M60")) // not every driver takes two M
                    continue;
                auto c = d + "|\nG0 X0 F60\n" + b + "\nG1 X9\n" + b2 + "\nG0 X3";
                if (!bad("", c))
                    e(c);
            }
}
h::Reg r4({"P04", p04, run, "all programs of <=4 (3 or 2 for 8 other configurations) of 24 blocks with dwells, tool, pallet and measurement codes; feed per minute/revolution, G96/G97, mm/inch programs of <=4 of 17 blocks on 9 machine configurations; pairs on every driver", "<=4 and <=5 everywhere"});

// ------------------------------------------------------------------ P05 totals per tool
void p05(int tier, const Emit& e)
{
    const std::vector<std::string> bl = {"T1 M6", "T2 M6", "M6", "T2", "T1", "G1 X5", "G0 Y3", "X-5 Y-5", "T02 M6", "G4 X1", "M6 T1 T2", "T2 X4", "G28"};
    for (std::string f : {"", "e", "a", "ea", "m", "p"})
        h::sequences(bl.size(), 1, f.empty() ? (tier ? 6 : 5) : tier ? 5 : 4, [&](const std::vector<size_t>& s) { e(join("fanuc_mill|" + f + "\nF60 G0 X1", bl, s)); });
    for (auto& d : driver_names())
        for (std::string f : {"L", "Le", "T", "Te"})
        {
            const std::vector<std::string> lb = {"T0101 M6", "T0202 M6", "T0101", "T0100", "T2", "T12 M6", "G1 X5", "Z-3", "T303 M6", "M6"};
            h::sequences(lb.size(), 1, tier ? 4 : 3, [&](const std::vector<size_t>& s) { e(join(d + "|" + f + "\nF60 G0 X1", lb, s)); });
        }
}
h::Reg r5({"P05", p05, run, "all programs of <=5 of 13 tool, motion and dwell blocks (4 for 5 other configurations); <=3 of 10 blocks with lathe tool numbers on 11 drivers x 4 machine configurations", "<=6, <=5 and <=4"});

// ------------------------------------------------------------------ P10 lathes
void p10(int tier, const Emit& e)
{
    const std::vector<std::string> bl = {"G0 X40 Z2", "G1 X20 Z-10", "X24", "G91 X-6", "G90", "G1 Z-15.5", "G18", "G17", "G0 X0 Z0", "G91 G1 X3 Z-1", "F0.2", "G18 G0 X30", "G17 G1 X8 Z1", "G1 X5 G18"};
    for (std::string f : {"L", "L2", "Lz", "Lz2", "T", "Tz", "T2", "Tz2", "LR", ""})
        for (auto& d : driver_names())
            h::sequences(bl.size(), 1, d == "fanuc_lathe_system_a" ? (tier ? 5 : 4) : tier ? 3 : 2, [&](const std::vector<size_t>& s) { e(join(d + "|" + f + "\nF60 S100", bl, s)); });
    // arcs in the ZX plane with diameters
    std::vector<std::pair<int, int>> pt;
    for (int x = -25; x <= 25; ++x)
        for (int y = -25; y <= 25; ++y)
            if (x * x + y * y == 625)
                pt.push_back({x, y});
    for (std::string f : {"Lz", "Lz2", "Tz", "Tz2", "z"})
        for (auto& a : pt)
            for (auto& b : pt)
                for (int dir : {2, 3})
                {
                    bool half = f[0] != 'z' && f.find('2') == std::string::npos;
                    int  k    = half ? 2 : 1;
                    auto N    = [](char w, double v) { return " " + std::string(1, w) + h::num(v); };
                    auto st   = "fanuc_mill|" + f + "\nF100 G0" + N('X', (60 + a.first) * k) + N('Z', a.second - 30) + "\nG" + std::to_string(dir);
                    auto ij   = N('I', -a.first * k) + N('K', -a.second);
                    e(st + N('X', (60 + b.first) * k) + N('Z', b.second - 30) + ij);
                    e(st + " G91" + N('X', (b.first - a.first) * k) + N('Z', b.second - a.second) + ij);
                    if (a != b)
                    {
                        e(st + N('X', (60 + b.first) * k) + N('Z', b.second - 30) + " R25");
                        e(st + " G91" + N('X', (b.first - a.first) * k) + N('Z', b.second - a.second) + " R25");
                    }
                    if (f[0] == 'T') // the plane is selected in the block of the arc, another one before
                        for (std::string pl : {"G17", "G19"})
                        {
                            auto s2 = "fanuc_mill|" + f + "\nF100 G18 G0" + N('X', (60 + a.first) * k) + N('Z', a.second - 30) + "\n" + pl + " M8\nG" + std::to_string(dir) + " G18";
                            e(s2 + N('X', (60 + b.first) * k) + N('Z', b.second - 30) + ij + "\nG1 X2");
                            if (a != b)
                                e(s2 + N('X', (60 + b.first) * k) + N('Z', b.second - 30) + " R25\n" + pl + " G1 X2");
                        }
                }
}
h::Reg r10({"P10", p10, run, "all programs of <=4 of 14 blocks on a lathe driver and <=2 on ten others x 10 machine configurations; every pair of 20 circle points as ZX arcs x 5 configurations x 2 directions x absolute/incremental/R", "<=5 / <=3"});

// ------------------------------------------------------------------ P06 the same path written in another way
void p06_run(const std::string& c, Run& r)
{
    // two programs separated by a line "=": the end totals agree
    auto q  = h::split(c, '\n');
    auto hd = h::split(q[0], '|');
    std::unique_ptr<fanuc::AllAttributesParser> p[2] = {make(machine(hd[0], hd[1])), make(machine(hd[0], hd[1]))};
    int side = 0, line = 1;
    std::vector<double> work[2];
    for (size_t i = 1; i < q.size(); ++i)
    {
        if (q[i] == "=")
        {
            ++side;
            line = 1;
            continue;
        }
        auto a = parse(*p[side], line++, q[i]);
        r.trans();
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        if (!a.ok)
            return r.fail("'" + q[i] + "' rejected: " + a.msg);
        r.state(canon(*p[side]));
    }
    auto w = [&](int k) {
        auto& a = p[k]->get_path_result();
        auto& b = p[k]->get_time_result();
        return h::num(a.total) + " " + h::num(b.total) + " " + h::num(a.tool_total) + " " + h::num(b.tool_total);
    };
    auto &a0 = p[0]->get_path_result(), &a1 = p[1]->get_path_result();
    auto &b0 = p[0]->get_time_result(), &b1 = p[1]->get_time_result();
    r.outcome("compared");
    if (!h::near(a0.total, a1.total) || !h::near(b0.total, b1.total) || !h::near(a0.tool_total, a1.tool_total) || !h::near(b0.tool_total, b1.tool_total))
        return r.fail("totals " + w(0) + " against " + w(1));
    for (std::string ax : {"X", "Y", "Z"})
    {
        auto &x = p[0]->get_word_range().at(ax), &y = p[1]->get_word_range().at(ax);
        if (hd.size() > 2) // axes renamed: compared below
            continue;
        if (!h::near(std::get<1>(x), std::get<1>(y)) || !h::near(std::get<0>(x), std::get<0>(y)) || !h::near(std::get<2>(x), std::get<2>(y)))
            return r.fail(ax + " " + h::num(std::get<1>(x)) + " against " + h::num(std::get<1>(y)));
    }
}
void p06(int tier, const Emit& e)
{
    // steps of a path as (kind, dx, dy, dz [, i, j]) starting at (0,0,0): absolute/incremental, modal/explicit, one line/many words order
    struct St
    {
        int    g;
        double dx, dy, dz, i, j;
    };
    const std::vector<St> st = {{0, 3, 4, 0, 0, 0}, {1, -2, 0, 5, 0, 0}, {1, 0, 0.125, 0, 0, 0}, {2, 5, 5, 0, 5, 0}, {3, -5, 5, 0, -5, 0}, {2, 6, 0, 0, 3, 0}, {3, 0, 0, 0, 2, 1}, {0, 0, 0, -1.5, 0, 0}, {2, 5, 5, -4, 5, 0}, {3, -5, 5, 3, -5, 0}, {3, 0, 0, -3, 4, 0}};
    auto N = [](const std::string& w, double v) { return " " + w + h::num(v); };
    // kinds of writing: 0 absolute explicit, 1 incremental explicit, 2 absolute modal, 3 alternating G90/G91, 4 reversed word order, 5 through variables
    auto write = [&](const std::vector<size_t>& s, int kind, int pl) {
        double      x = 0, y = 0, z = 0;
        char        A = pl == 19 ? 'Y' : 'X', B = pl == 17 ? 'Y' : pl == 18 ? 'X' : 'Z', C = pl == 17 ? 'Z' : pl == 18 ? 'Y' : 'X';
        if (pl == 18)
            A = 'Z', B = 'X';
        char        I = A == 'X' ? 'I' : A == 'Y' ? 'J' : 'K', J = B == 'X' ? 'I' : B == 'Y' ? 'J' : 'K', K = C == 'Z' ? 'K' : C == 'Y' ? 'J' : 'I';
        std::string o = "\nG" + std::to_string(pl) + " G0 F60 X0 Y0 Z0" + std::string(kind == 1 ? "\nG91" : "");
        int         last = 0, n = 0;
        for (auto k : s)
        {
            auto& t   = st[k];
            bool  inc = kind == 1 || (kind == 3 && n % 2 == 0);
            x += t.dx, y += t.dy, z += t.dz;
            std::vector<std::string> w;
            if (kind != 2 || t.g != last)
                w.push_back("G" + std::to_string(t.g));
            if (kind == 3)
                w.push_back(inc ? "G91" : "G90");
            auto put = [&](char c, double v) { w.push_back(N(std::string(1, c), v).substr(1)); };
            bool helix = t.g > 1 && t.dz != 0;
            put(A, inc ? t.dx : x);
            put(B, inc ? t.dy : y);
            if (t.g < 2 || helix)
                put(C, inc ? t.dz : z);
            if (t.g > 1)
            {
                put(I, t.i), put(J, t.j);
                if (helix)
                    put(K, 1);
            }
            if (kind == 4)
                std::reverse(w.begin(), w.end());
            o += "\n";
            for (size_t i = 0; i < w.size(); ++i)
                o += (i ? " " : "") + w[i];
            // a helix is ended by a straight move, which ends the modal helix state as well
            if (helix)
            {
                o += std::string("\nG1") + " F60";
                last = 1;
            }
            else
                last = t.g;
            ++n;
        }
        return o;
    };
    h::sequences(st.size(), 1, tier ? 4 : 3, [&](const std::vector<size_t>& s) {
        for (int pl = 17; pl <= 19; ++pl)
            for (std::string f : {"", "T2"})
            {
                if (pl != 17 && f == "T2")
                    continue;
                auto a = write(s, 0, pl);
                for (int k = 1; k <= 4; ++k)
                    e("fanuc_mill|" + f + a + "\n=" + write(s, k, pl));
                if (pl != 17) // the same path in another plane
                    e("fanuc_mill||x" + write(s, 0, 17) + "\nG0 X0 Y0 Z0\n=" + a + "\nG0 X0 Y0 Z0");
            }
    });
}
h::Reg r6({"P06", p06, p06_run, "every path of <=3 of 10 steps (lines, arcs, full circles, helices) in 3 planes, written absolute, incremental, modally, alternating G90/G91, with reversed word order, and carried to the other planes", "paths of <=4 steps"});

// ------------------------------------------------------------------ P08 helices
struct Step
{
    int    g;
    double dx, dy, dz, i, j, r; // r: by radius; g < 0: another turn (only the third axis is written)
};
const std::vector<Step> STEPS = {{3, 0, 0, -3, 4, 0, 0}, {2, 0, 0, 2.5, 0, 0, 7}, {2, 5, 5, -4, 5, 0, 0}, {3, -6, 6, 3, 0, 0, 6}, {-1, 0, 0, -1.5, 0, 0, 0},
                                 {1, 3, 4, -1, 0, 0, 0}, {2, 10, 0, 0, 5, 0, 0}, {3, 0, 8, 0, 0, 0, 6}, {3, 0, 0, 0, 0, -2.5, 0}, {0, -1, 2, 4, 0, 0, 0}, {2, 0, 0, -0.5, -3, 4, 0}, {3, -5, 5, 0, -5, 0, 0}, {3, 0, 0, -2, 0, 0, 3}};
void p08_run(const std::string& c, Run& r)
{
    auto hd = h::split(c, '|'); // driver | plane | kind: 0 absolute, 1 incremental, 2 alternating | steps
    int  pl = atoi(hd[1].c_str()), kind = atoi(hd[2].c_str());
    auto p  = make(machine(hd[0], ""));
    char A = pl == 19 ? 'Y' : pl == 18 ? 'Z' : 'X', B = pl == 17 ? 'Y' : pl == 18 ? 'X' : 'Z', C = pl == 17 ? 'Z' : pl == 18 ? 'Y' : 'X';
    auto centre = [](char a) { return char('I' + (a - 'X')); };
    auto N = [](char w, double v) { return " " + std::string(1, w) + h::num(v); };
    double x = 0, y = 0, z = 0, want = 0, turn = 0;
    int    line = 0, n = 0;
    bool   helix = false;
    auto put = [&](const std::string& b) {
        auto a = parse(*p, ++line, b);
        r.trans();
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown), false;
        if (!a.ok)
            return r.fail("'" + b + "' rejected: " + a.msg), false;
        r.state(canon(*p));
        return true;
    };
    if (!put("G" + std::to_string(pl) + " G0 F60 X0 Y0 Z0") || (kind == 1 && !put("G91")))
        return;
    want = p->get_path_result().total;
    for (auto& k : h::split(hd[3], ' '))
    {
        auto& t   = STEPS[atoi(k.c_str())];
        bool  inc = kind == 1 || (kind == 2 && n % 2 == 0);
        ++n;
        x += t.dx, y += t.dy, z += t.dz;
        std::string b;
        double      len = std::sqrt(t.dx * t.dx + t.dy * t.dy + t.dz * t.dz);
        if (t.g < 0)
            b = N(C, inc ? t.dz : z).substr(1), len = 2 * M_PI * std::hypot(turn, t.dz);
        else
        {
            if (helix && t.g > 1 && !put("G1")) // a helix is ended by a straight move
                return;
            b = "G" + std::to_string(t.g) + N(A, inc ? t.dx : x) + N(B, inc ? t.dy : y);
            if (t.dz != 0 || t.g < 2)
                b += N(C, inc ? t.dz : z);
            if (t.g > 1)
            {
                double rad = t.r ? t.r : std::hypot(t.i, t.j);
                if (t.r)
                    b += N('R', t.r);
                else
                {
                    b += N(centre(A), t.i) + N(centre(B), t.j);
                    if (t.dz != 0)
                        b += N(centre(C), 1);
                }
                double ch  = std::hypot(t.dx, t.dy), a = ch == 0 ? 2 * M_PI : 2 * std::asin(std::min(1., ch / 2 / rad));
                len = a * rad;
                if (t.dz != 0) // the unit tests' formula: the height of a turn counts 2 pi times
                    len = ch == 0 ? 2 * M_PI * std::hypot(rad, t.dz) : M_PI / 2 * std::hypot(rad, 4 * t.dz);
                turn = rad;
            }
            helix = t.g > 1 && t.dz != 0;
        }
        if (kind == 2)
            b = (inc ? "G91 " : "G90 ") + b;
        if (!put(b))
            return;
        want += len;
        r.outcome(helix ? "helix" : "other");
        if (!h::near(p->get_path_result().total, want))
            return r.fail("'" + b + "' (block " + std::to_string(line) + ") adds up to " + h::num(p->get_path_result().total) + ", expected " + h::num(want));
        auto& w = p->get_word_range();
        for (auto [a, v] : {std::pair<char, double>{A, x}, {B, y}, {C, z}})
            if (!h::near(std::get<1>(w.at(std::string(1, a))), v))
                return r.fail("'" + b + "': " + a + " is at " + h::num(std::get<1>(w.at(std::string(1, a)))) + ", expected " + h::num(v));
    }
}
void p08(int tier, const Emit& e)
{
    for (auto& d : driver_names())
        for (int pl = 17; pl <= 19; ++pl)
            for (int kind = 0; kind < 3; ++kind)
                h::sequences(STEPS.size(), 1, (d == "fanuc_mill" ? 4 : d.find("mill") != std::string::npos ? 2 : 0) + (tier && d.find("mill") != std::string::npos), [&](const std::vector<size_t>& s) {
                    std::string c;
                    for (size_t i = 0; i < s.size(); ++i)
                    {
                        auto& t = STEPS[s[i]];
                        if (t.g < 0) // after a full turn of a helix only
                        {
                            size_t k = i;
                            while (k > 0 && STEPS[s[k]].g < 0)
                                --k;
                            auto& u = STEPS[s[k]];
                            if (u.g < 2 || u.dz == 0 || u.dx != 0)
                                return;
                        }
                        c += (i ? " " : "") + std::to_string(s[i]);
                    }
                    e(d + "|" + std::to_string(pl) + "|" + std::to_string(kind) + "|" + c);
                });
}
h::Reg r8({"P08", p08, p08_run, "all paths of <=4 of 13 steps (full and quarter turns of helices by centre or radius, repeated turns, arcs, full circles, lines) in 3 planes, absolute, incremental and alternating; <=2 on five more drivers", "paths of <=5 (3) steps"});

// ------------------------------------------------------------------ P07 reset
void p07_run(const std::string& c, Run& r)
{
    // driver|letters|variables reset too  \n history \n = \n program: after reset the program gives what it gives on a new parser
    auto q  = h::split(c, '\n');
    auto hd = h::split(q[0], '|');
    auto p = make(machine(hd[0], hd[1])), f = make(machine(hd[0], hd[1]));
    size_t i = 1;
    for (; i < q.size() && q[i] != "="; ++i)
    {
        auto a = parse(*p, (int)i, q[i]);
        if (!a.thrown.empty())
            return r.fail("exception " + a.thrown);
        r.trans();
    }
    p->reset_attributes_path_calculator();
    p->reset_macro_values(true);
    r.state(canon(*p));
    if (canon(*p) != canon(*f))
        return r.fail("after reset " + canon(*p) + ", new " + canon(*f));
    for (++i; i < q.size(); ++i)
    {
        auto a = parse(*p, (int)i, q[i]), b = parse(*f, (int)i, q[i]);
        r.trans(2);
        if (!a.thrown.empty() || !b.thrown.empty())
            return r.fail("exception " + a.thrown + b.thrown);
        r.state(canon(*p));
        r.outcome(a.ok ? "accepted" : "rejected");
        if (a.ok != b.ok)
            return r.fail("'" + q[i] + "' after a reset was " + (a.ok ? "accepted" : "rejected: " + a.msg));
        if (canon(*p) != canon(*f))
            return r.fail("'" + q[i] + "' after a reset gives " + canon(*p) + ", on a new parser " + canon(*f));
    }
}
void p07(int tier, const Emit& e)
{
    const std::vector<std::string> hist = {"G1 X5 Y6 F100", "G2 X10 Y0 I5 J0", "G2 X5 Y5 Z-3 I5 J1 K1", "G2 X0 Y0 Z-2 I5 J0 K1", "G91 G99", "G81 X2 Z-5 R1", "T4 M6", "T7", "G96 S300 G95", "#5=17", "X[", "G18", "M3 S100 G0 Z99", "G83 X1 Z-3 R1 Q1 K2", "G19 G1 X-50 Y3"};
    const std::vector<std::string> prog = {"X3 Y4", "T7\nX1 Y2", "G1 X5 F60", "G81 X7 Z-5 R2 F10", "G2 X4 Y0 I2 F5", "T4 M6", "X9 Z1 R1", "#1=#5\nG0 X#1", "G3 X1 Y1 R3 F10", "G1 Z-1 X2 F0.5 S100", "M6"};
    for (std::string f : {"", "a", "ea", "L", "Tz", "R19", "o", "cr", "p"})
    {
        h::sequences(hist.size(), 1, tier ? 4 : f.empty() || f == "a" ? 3 : 2, [&](const std::vector<size_t>& s) {
            auto b = join("fanuc_mill|" + f, hist, s) + "\n=";
            for (auto& p : prog)
                e(b + "\n" + p);
            if (s.size() <= 1)
                for (auto& x : prog)
                    for (auto& y : prog)
                        e(b + "\n" + x + "\n" + y);
        });
    }
    for (auto& d : driver_names())
        for (auto& x : hist)
            for (auto& y : prog)
                e(d + "|\n" + x + "\n=\n" + y);
}
h::Reg r7({"P07", p07, p07_run, "all histories of <=3 (2) of 15 blocks on 9 machine configurations, then reset, then 11 programs (and pairs of them after one block), compared with a new parser on every block", "histories of <=4"});

} // namespace

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
