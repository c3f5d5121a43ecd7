// N group: the language server.  Sessions are driven through the real message handler (and, for framing, the real
// main loop); every output message is compared with a reference server written from the protocol, the shipped files and
// the block parser of the library.
#include "fx.hpp"
#include <JsonMessageHandler.h>
#include <Logger.h>
#include <NCSettingsReader.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <unistd.h>
#include <time.h>
#include <climits>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
using namespace fx;
using h::Emit;
using h::Run;
namespace rj = rapidjson;

int nclangsrv_main(int argc, char* argv[]);

// ------------------------------------------------------------------ sleeps return at once; a main loop that keeps
// sleeping after the end of its input is stopped
namespace {
struct Stuck
{
};
size_t g_idle;
bool   g_server;
} // namespace
static int doze(const struct timespec* t)
{
    if (!g_server)
        return (int)syscall(SYS_nanosleep, t, nullptr);
    if (++g_idle > 100000)
        throw Stuck();
    return 0;
}
extern "C" int nanosleep(const struct timespec* t, struct timespec*)
{
    return doze(t);
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*)
{
    return doze(t);
}
extern "C" int usleep(useconds_t u)
{
    struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return doze(&t);
}

namespace {

std::string q(const std::string& s) // JSON string
{
    rj::StringBuffer              b;
    rj::Writer<rj::StringBuffer> w(b);
    w.String(s.c_str(), (rj::SizeType)s.size());
    return b.GetString();
}
std::string dump(const rj::Value& v)
{
    rj::StringBuffer              b;
    rj::Writer<rj::StringBuffer> w(b);
    v.Accept(w);
    return b.GetString();
}

bool eq(const rj::Value& v, const std::string& json) // (operator== of RapidJSON recurses without end in C++20)
{
    return dump(v) == json;
}

// ------------------------------------------------------------------ shipped descriptions
struct Desc
{
    std::map<std::string, std::pair<std::string, std::string>> d;
};
Desc read_desc(const std::string& path)
{
    Desc r;
    auto j = load(path);
    for (auto& x : j["descriptions"].GetObject())
        for (auto& y : x.value.GetObject())
            if (!r.d.count(x.name.GetString()))
                r.d[x.name.GetString()] = {y.name.GetString(), y.value.GetString()};
    return r;
}
const Desc& desc(const std::string& drv, const std::string& kind)
{
    static std::map<std::string, Desc> cache;
    auto                               k = drv + "/desc/" + kind + "_desc_en.json";
    if (!cache.count(k))
        cache[k] = read_desc(repo() + "/conf/" + k);
    return cache[k];
}

// titles and texts a variable may show: its own, or those of a range it lies in
std::vector<std::pair<std::string, std::string>> macro_desc(const Desc& user, const Desc& shipped, const std::string& code)
{
    std::vector<std::pair<std::string, std::string>> r;
    if (user.d.count(code))
        return {user.d.at(code)};
    if (shipped.d.count(code))
        return {shipped.d.at(code)};
    long c = atol(code.c_str());
    for (auto* d : {&user, &shipped})
        for (auto& x : d->d)
        {
            if (d == &shipped && user.d.count(x.first))
                continue;
            auto& t = x.second.second;
            auto  p = t.find("Range: #");
            if (p == std::string::npos)
                continue;
            long a = 0, b = 0, e = 0, f = 0;
            int  n = sscanf(t.c_str() + p, "Range: #%ld-#%ld - #%ld-#%ld", &a, &b, &e, &f);
            if ((n >= 2 && c >= a && c <= b) || (n == 4 && c >= e && c <= f))
                r.push_back(x.second);
        }
    return r;
}

// ------------------------------------------------------------------ configurations
// "driver|letters": p path calculation, i inch, L lathe, T mill-turn, o operator rotation, z zero point, e T exchanges, n no settings file,
// u user macro descriptions, b broken user file
Machine machine_of(const std::string& drv, const std::string& f)
{
    auto    has = [&](char c) { return f.find(c) != std::string::npos; };
    Machine m;
    m.driver = drv;
    if (has('n')) // the built-in settings
    {
        m.driver  = "fanuc_mill";
        m.mpd     = {{{"X", 0}, {"Y", 0}, {"Z", 500}}, {{"X", 0}, {"Y", 0}, {"Z", 500}}};
        m.kin     = {{{"X", {-500, 500}}, {"Y", {-500, 500}}, {"Z", {0, 1000}}}, 20000, 20000, 10000, 30, 6, 1, 3, false, false, "", "", "", ""};
        m.cnc.default_rotation = 0;
        return m;
    }
    m.mpd = {{{"X", -100}, {"Y", 20}, {"Z", 300}}, {{"X", 1}, {"Y", -2}, {"Z", 400}}};
    m.kin = {{{"X", {-450, 450}}, {"Y", {-350, 350}}, {"Z", {0, 700}}}, 9000, 15000, 8000, 20, 7, 11, 13, has('2'), has('m'), "M", "60", has('k') ? "G" : "M", has('k') ? "59" : "66"};
    if (has('L'))
        m.type = EMachineToolType::Lathe, m.tool = EMachineTool::lathe_zx;
    if (has('T'))
        m.type = EMachineToolType::Millturn, m.tool = EMachineTool::millturn_XYZBC;
    m.cnc.default_motion                          = has('1') ? EMotion::LinearInterpolation : EMotion::RapidTraverse;
    m.cnc.default_work_plane                      = has('x') ? EWorkPlane::XZ : has('y') ? EWorkPlane::YZ : EWorkPlane::XY;
    m.cnc.default_driver_units                    = has('i') ? EDriverUnits::Inch : EDriverUnits::Millimeter;
    m.cnc.default_programming                     = has('R') ? EProgrammingType::Incremental : EProgrammingType::Absolute;
    m.cnc.default_feed_mode                       = has('v') ? EFeedMode::PerRevolution : EFeedMode::PerMinute;
    m.cnc.drill_cycle_return_value                = has('9') ? EDrillGreturnMode::G99 : EDrillGreturnMode::G98;
    m.cnc.default_rotation_direction              = has('l') ? ERotationDirection::Left : ERotationDirection::Right;
    m.cnc.default_rotation                        = 900;
    m.cnc.operator_turns_on_rotation              = has('o');
    m.cnc.tool_number_executes_exchange           = has('e');
    m.cnc.auto_rapid_traverse_after_tool_exchange = has('a');
    m.cnc.cycle_cancel_starts_rapid_traverse      = has('c');
    m.cnc.rapid_traverse_cancel_cycle             = has('r');
    m.cnc.linear_interpolation_cancel_cycle       = has('t');
    m.cnc.circular_interpolation_cw_cancel_cycle  = has('w');
    m.cnc.circular_interpolation_ccw_cancel_cycle = has('W');
    if (has('d'))
        m.cnc.drill_cycle_z_value = EDepthProgrammingType::Incremental;
    if (has('z'))
        m.zp = {10, -20.5, 30};
    return m;
}
std::string settings_json(const Machine& m, const std::string& tool, const std::string& type)
{
    auto b  = [](bool x) { return std::string(x ? "true" : "false"); };
    auto pt = [](const auto& v) {
        std::string s;
        for (auto& x : v)
            s += (s.empty() ? "" : ",") + q(x.first) + ":" + h::num(x.second);
        return "{" + s + "}";
    };
    std::string ax;
    for (auto& x : m.kin.cartesian_system_axis)
        ax += (ax.empty() ? "" : ",") + q(x.first) + ":{\"range_min\":" + h::num(x.second.range_min) + ",\"range_max\":" + h::num(x.second.range_max) + "}";
    auto& k = m.kin;
    auto& c = m.cnc;
    auto  N = [](const char* n, const std::string& v) { return "\"" + std::string(n) + "\":" + v; };
    std::string s = "{" + N("machine_tool", q(tool)) + "," + N("machine_tool_type", q(type)) + "," + N("driver", q(m.driver)) + "," + N("machine_tool_id", q("x")) + "," +
                    N("machine_points_data", "{" + N("tool_exchange_point", pt(m.mpd.tool_exchange_point)) + "," + N("machine_base_point", pt(m.mpd.machine_base_point)) + "}") + "," +
                    N("kinematics", "{" + N("cartesian_system_axis", "{" + ax + "}") + "," + N("max_working_feed", h::num(k.max_working_feed)) + "," + N("max_fast_feed", h::num(k.max_fast_feed)) + "," +
                                        N("maximum_spindle_speed", h::num(k.maximum_spindle_speed)) + "," + N("numer_of_items_in_the_warehouse", h::num(k.numer_of_items_in_the_warehouse)) + "," +
                                        N("tool_exchange_time", h::num(k.tool_exchange_time)) + "," + N("pallet_exchange_time", h::num(k.pallet_exchange_time)) + "," +
                                        N("tool_measurement_time", h::num(k.tool_measurement_time)) + "," + N("diameter_programming_2x", b(k.diameter_programming_2x)) + "," +
                                        N("auto_measure_after_tool_selection", b(k.auto_measure_after_tool_selection)) + "," + N("pallet_exchange_code", q(k.pallet_exchange_code)) + "," +
                                        N("pallet_exchange_code_value", q(k.pallet_exchange_code_value)) + "," + N("tool_measurement_code", q(k.tool_measurement_code)) + "," +
                                        N("tool_measurement_code_value", q(k.tool_measurement_code_value)) + "}") +
                    "," +
                    N("cnc_default_values",
                      "{" + N("default_motion", c.default_motion == EMotion::RapidTraverse ? "\"rapid_traverse\"" : "\"linear_interpolation\"") + "," +
                          N("default_work_plane", c.default_work_plane == EWorkPlane::XY ? "\"XY\"" : c.default_work_plane == EWorkPlane::XZ ? "\"XZ\"" : "\"YZ\"") + "," +
                          N("default_driver_units", c.default_driver_units == EDriverUnits::Inch ? "\"inch\"" : "\"millimeter\"") + "," +
                          N("default_programming", c.default_programming == EProgrammingType::Absolute ? "\"absolute\"" : "\"incremental\"") + "," +
                          N("default_feed_mode", c.default_feed_mode == EFeedMode::PerMinute ? "\"feed_per_minute\"" : "\"feed_per_revolution\"") + "," +
                          N("default_rotation_direction", c.default_rotation_direction == ERotationDirection::Right ? "\"right\"" : "\"left\"") + "," + N("drill_cycle_z_value", c.drill_cycle_z_value == EDepthProgrammingType::Absolute ? "\"absolute\"" : "\"incremental\"") + "," +
                          N("drill_cycle_return_value", c.drill_cycle_return_value == EDrillGreturnMode::G98 ? "\"beginning\"" : "\"point_r\"") + "," + N("default_rotation", h::num(c.default_rotation)) + "," +
                          N("rapid_traverse_cancel_cycle", b(c.rapid_traverse_cancel_cycle)) + "," + N("linear_interpolation_cancel_cycle", b(c.linear_interpolation_cancel_cycle)) + "," +
                          N("circular_interpolation_cw_cancel_cycle", b(c.circular_interpolation_cw_cancel_cycle)) + "," +
                          N("circular_interpolation_ccw_cancel_cycle", b(c.circular_interpolation_ccw_cancel_cycle)) + "," +
                          N("cycle_cancel_starts_rapid_traverse", b(c.cycle_cancel_starts_rapid_traverse)) + "," + N("operator_turns_on_rotation", b(c.operator_turns_on_rotation)) + "," +
                          N("tool_number_executes_exchange", b(c.tool_number_executes_exchange)) + "," +
                          N("auto_rapid_traverse_after_tool_exchange", b(c.auto_rapid_traverse_after_tool_exchange)) + "}") +
                    "," + N("zero_point", "{" + N("X", h::num(m.zp.x)) + "," + N("Y", h::num(m.zp.y)) + "," + N("Z", h::num(m.zp.z)) + "}") + "}";
    return s;
}
std::string type_name(const Machine& m)
{
    return m.type == EMachineToolType::Lathe ? "lathe" : m.type == EMachineToolType::Millturn ? "millturn" : "mill";
}
std::string tool_name(const Machine& m)
{
    return m.type == EMachineToolType::Lathe ? "lathe_zx" : m.type == EMachineToolType::Millturn ? "mill-turn_XYZBC" : "mill_3axis";
}

struct Files // files of one case, in a directory check.py makes and removes
{
    std::vector<std::string> f;
    std::string              put(const std::string& name, const std::string& text)
    {
        const char* t = getenv("TMPDIR");
        auto        p = std::string(t && *t ? t : "/tmp") + "/nv." + std::to_string(getpid()) + "." + name;
        std::ofstream(p, std::ios::trunc) << text;
        if (std::find(f.begin(), f.end(), p) == f.end())
            f.push_back(p);
        return p;
    }
    ~Files()
    {
        for (auto& x : f)
            unlink(x.c_str());
    }
};

const char* USER_DESC = "{\"descriptions\":{\"500\":{\"[#_MINE]\":\"My own text\\nRange: #500-#520 \\nend\"},\"3000\":{\"[#_ALARM2]\":\"Taken over\"},\"600\":{\"[#_TWO]\":\"Range: #600-#609 - #700-#709\"}}}";
Desc user_desc()
{
    Desc d;
    d.d["500"]  = {"[#_MINE]", "My own text\nRange: #500-#520 \nend"};
    d.d["3000"] = {"[#_ALARM2]", "Taken over"};
    d.d["600"]  = {"[#_TWO]", "Range: #600-#609 - #700-#709"};
    return d;
}

// ------------------------------------------------------------------ reference: what a document means
struct Diag
{
    int         line, ch;
    std::string msg;
};
struct Doc
{
    std::vector<std::string>   lines;
    std::vector<Diag>          diag;
    fanuc::macro_map           macros;
    std::map<int, std::string> lens;
};
std::string fixed2(double d)
{
    char b[400];
    snprintf(b, sizeof b, "%.2f", d);
    return b;
}
std::string clock_text(double s)
{
    long long ms = llround(s * 1000), a = ms < 0 ? -ms : ms;
    char      b[64];
    if (a >= 3600000)
        snprintf(b, sizeof b, "%s%lld:%02lld:%02lld.%03lld", ms < 0 ? "-" : "", a / 3600000, a / 60000 % 60, a / 1000 % 60, a % 1000);
    else
        snprintf(b, sizeof b, "%s%lld:%02lld.%03lld", ms < 0 ? "-" : "", a / 60000, a / 1000 % 60, a % 1000);
    return b;
}
Doc interpret(const Machine& m, const std::string& text)
{
    Doc d;
    auto p = make(m);
    d.lines = h::split(text, '\n');
    if (!d.lines.empty() && d.lines.back().empty())
        d.lines.pop_back();
    double prev = 0, cp = 0, ct = 0, rp = 0, rt = 0;
    for (size_t i = 0; i < d.lines.size(); ++i)
    {
        auto t = d.lines[i];
        while (!t.empty() && isspace((unsigned char)t.back()))
            t.pop_back();
        if (t.empty())
            continue;
        auto r = parse(*p, (int)i + 1, t);
        if (!r.thrown.empty())
            throw std::runtime_error("the block parser threw on '" + t + "': " + r.thrown);
        if (!r.ok)
        {
            Diag g{(int)i, 0, r.msg};
            size_t k = 0;
            if (r.msg.empty())
                g.msg = "'" + t + "'";
            else if (r.msg.rfind("1:", 0) == 0)
            {
                for (k = 2; k < r.msg.size() && isdigit((unsigned char)r.msg[k]); ++k)
                    ;
                g.ch  = std::max(0, atoi(r.msg.c_str() + 2) - 1);
                g.msg = r.msg.substr(k + 1);
            }
            auto a = g.msg.find_first_not_of(" \t\r\n"), z = g.msg.find_last_not_of(" \t\r\n");
            g.msg  = a == std::string::npos ? "" : g.msg.substr(a, z - a + 1);
            d.diag.push_back(g);
        }
        auto &a = p->get_path_result();
        auto &b = p->get_time_result();
        if (b.total != prev)
        {
            prev = b.total;
            rp += a.fast_motion, rt += b.fast_motion, cp += a.work_motion, ct += b.work_motion;
            std::string s;
            auto        add = [&](bool c, const std::string& n, const std::string& v) { s += c ? " | " + n + " = " + v : ""; };
            add(a.total >= 0.01, "Total path", fixed2(a.total));
            add(b.total >= 0.01, "Total time", clock_text(b.total));
            add(a.tool_total >= 0.01 && a.total - a.tool_total >= 0.01, "T" + a.tool_id + " total path", fixed2(a.tool_total));
            add(a.fast_motion >= 0.01, "Total rapid path", fixed2(rp));
            add(b.fast_motion >= 0.01, "Total rapid time", clock_text(rt));
            add(a.work_motion >= 0.01, "Total cut path", fixed2(cp));
            add(b.work_motion >= 0.01, "Total cut time", clock_text(ct));
            d.lens[(int)i] = s;
        }
    }
    d.macros = p->get_macro_values();
    return d;
}
const Doc& meaning(const std::string& key, const Machine& m, const std::string& text)
{
    static std::map<std::string, Doc> cache;
    auto                              k = key + "\x01" + text;
    if (cache.size() > 4000)
        cache.clear();
    auto it = cache.find(k);
    if (it == cache.end())
        it = cache.emplace(k, interpret(m, text)).first;
    return it->second;
}

// ------------------------------------------------------------------ reference: hover
struct Hover
{
    bool                     any{}, maybe{};
    std::vector<std::string> text; // acceptable texts
    size_t                   from{}, to{};
};
std::string paragraphs(const std::string& s)
{
    std::string r;
    for (char c : s)
        r += c == '\n' ? "\n\n" : std::string(1, c);
    return r;
}
std::string shown(const std::string& head, const std::pair<std::string, std::string>& d)
{
    return "**" + head + ": " + d.first + "** \n\n---\n\n" + paragraphs(d.second);
}
std::string trunc6(double v)
{
    char b[400];
    snprintf(b, sizeof b, "%f", v);
    std::string s = b;
    while (s.back() == '0')
        s.pop_back();
    if (s.back() == '.')
        s.pop_back();
    return s;
}
std::string nozeros(std::string c)
{
    while (c.size() > 1 && c[0] == '0')
        c = c.substr(1);
    return c;
}
std::optional<double> value_at(const fanuc::macro_map& m, long id, int line)
{
    std::optional<double> v;
    int                   best = INT_MIN;
    for (auto& x : m)
        if ((long)x.first.id == id && (int)x.first.line <= line && (int)x.first.line > best)
            best = (int)x.first.line, v = x.second;
    return v;
}
Hover hover(const Doc* d, int L, int C, const std::string& drv, const Desc& user)
{
    Hover r;
    if (!d || L < 0 || L >= (int)d->lines.size())
        return r;
    auto& s   = d->lines[L];
    auto  dig = [&](size_t i) { return i < s.size() && isdigit((unsigned char)s[i]); };
    auto  gm  = [&](size_t i) { return i < s.size() && strchr("GgMm", s[i]) && s[i]; };
    for (size_t i = 0; i < s.size();) // G and M codes
    {
        if (!gm(i) || !dig(i + 1))
        {
            ++i;
            continue;
        }
        size_t e = i + 1;
        while (dig(e))
            ++e;
        if (e < s.size() && s[e] == '.')
        {
            ++e;
            if (dig(e))
                ++e;
        }
        else if (dig(e))
            ++e;
        if (C >= (int)i && C < (int)e)
        {
            auto  t  = s.substr(i, e - i);
            auto& ds = desc(drv, toupper(t[0]) == 'G' ? "gcode" : "mcode").d;
            auto  it = ds.find(nozeros(t.substr(1)));
            return {true, false, {it == ds.end() ? t : shown(t, it->second)}, i, e};
        }
        i = e;
    }
    for (int pass = 0; pass < 2; ++pass)
        for (size_t i = 0; i < s.size();)
        {
            size_t hash = i + (pass == 0);
            if ((pass == 0 && !gm(i)) || hash >= s.size() || s[hash] != '#' || !dig(hash + 1))
            {
                ++i;
                continue;
            }
            size_t e = hash + 1;
            while (dig(e))
                ++e;
            if (C >= (int)i && C < (int)e)
            {
                auto t    = s.substr(i, e - i);
                auto code = nozeros(s.substr(hash + 1, e - hash - 1));
                if (code.size() > 9) // no such variable: nothing, or undefined
                {
                    if (pass == 0)
                        return r;
                    r.any = r.maybe = true, r.from = i, r.to = e, r.text = {t + " = undefined"};
                    return r;
                }
                auto v = value_at(d->macros, atol(code.c_str()), L + 1);
                if (pass == 0)
                {
                    if (!v)
                        return r;
                    auto  c  = trunc6(*v);
                    auto  h  = t + " (" + (char)toupper(s[i]) + c + ")";
                    auto& ds = desc(drv, toupper(s[i]) == 'G' ? "gcode" : "mcode").d;
                    auto  it = ds.find(c);
                    return {true, false, {it == ds.end() ? h : shown(h, it->second)}, i, e};
                }
                auto h  = t + (v ? " = " + trunc6(*v) : "");
                auto md = macro_desc(user, desc(drv, "macros"), code);
                if (md.empty())
                    return {true, false, {v ? h : t + " = undefined"}, i, e};
                r.any = true, r.from = i, r.to = e;
                for (auto& x : md)
                    r.text.push_back(shown(h, x));
                return r;
            }
            i = e;
        }
    return r;
}

std::set<std::string> labels(const std::string& drv, const Desc& user)
{
    std::set<std::string> s;
    for (auto* k : {"gcode", "mcode"})
        for (auto& x : desc(drv, k).d)
        {
            s.insert((k[0] == 'g' ? "G" : "M") + x.first);
            if (x.first.size() == 1 || (x.first.size() == 3 && x.first[1] == '.'))
                s.insert((k[0] == 'g' ? "G0" : "M0") + x.first);
        }
    for (auto& x : desc(drv, "macros").d)
        s.insert("#" + x.first);
    for (auto& x : user.d)
        s.insert("#" + x.first);
    return s;
}

// ------------------------------------------------------------------ sessions
// A case: "driver|letters" then one operation a line; text fields have '~' for line ends:
//   open U text / change U text / close U / hover U L C / lens U / compl / resolve label / lresolve U L / init / inited / cfg / cancel
//   unknown / shutdown / exit / raw json
// ~ ends a line, {N*TEXT} repeats a text
std::string text_of(std::string s)
{
    for (size_t a; (a = s.find('{')) != std::string::npos;)
    {
        auto        m = s.find('*', a), z = s.find('}', a);
        std::string r, x = s.substr(m + 1, z - m - 1);
        for (int n = atoi(s.c_str() + a + 1); n > 0; --n)
            r += x;
        s = s.substr(0, a) + r + s.substr(z + 1);
    }
    for (auto& c : s)
        if (c == '~')
            c = '\n';
    return s;
}
std::string uri(const std::string& u)
{
    return "file:///c%3A/" + u + ".nc";
}
struct Op
{
    std::string              k;
    std::vector<std::string> a;
    std::string              rest; // after the first argument
};
Op op_of(const std::string& s)
{
    Op   o;
    auto w = h::split(s, ' ');
    o.k    = w[0];
    o.a.assign(w.begin() + 1, w.end());
    auto p = s.find(' ');
    if (o.k == "raw" || o.k == "resolve")
        o.rest = p == std::string::npos ? "" : s.substr(p + 1);
    else if (p != std::string::npos)
    {
        auto e = s.find(' ', p + 1);
        o.rest = e == std::string::npos ? "" : s.substr(e + 1);
    }
    return o;
}
bool is_request(const std::string& k)
{
    return k == "hover" || k == "lens" || k == "compl" || k == "resolve" || k == "lensres" || k == "init" || k == "unknown" || k == "shutdown";
}
std::string message(const Op& o, const std::string& id)
{
    auto req = [&](const std::string& m, const std::string& p) {
        return "{\"jsonrpc\":\"2.0\"," + (is_request(o.k) ? "\"id\":" + id + "," : "") + "\"method\":\"" + m + "\"" + (p.empty() ? "" : ",\"params\":" + p) + "}";
    };
    auto td = [&] { return "\"textDocument\":{\"uri\":" + q(uri(o.a[0])) + "}"; };
    if (o.k == "open")
        return req("textDocument/didOpen", "{\"textDocument\":{\"uri\":" + q(uri(o.a[0])) + ",\"languageId\":\"ncproj\",\"version\":1,\"text\":" + q(text_of(o.rest)) + "}}");
    if (o.k == "change")
        return req("textDocument/didChange", "{\"textDocument\":{\"uri\":" + q(uri(o.a[0])) + ",\"version\":2},\"contentChanges\":[{\"text\":" + q(text_of(o.rest)) + "}]}");
    if (o.k == "close")
        return req("textDocument/didClose", "{" + td() + "}");
    if (o.k == "hover")
        return req("textDocument/hover", "{" + td() + ",\"position\":{\"line\":" + o.a[1] + ",\"character\":" + o.a[2] + "}}");
    if (o.k == "lens")
        return req("textDocument/codeLens", "{" + td() + "}");
    if (o.k == "compl")
        return req("textDocument/completion", "{\"textDocument\":{\"uri\":" + q(uri("a")) + "},\"position\":{\"line\":0,\"character\":0},\"context\":{\"triggerKind\":1}}");
    if (o.k == "resolve")
        return req("completionItem/resolve", "{\"label\":" + q(o.rest) + ",\"insertTextFormat\":2,\"kind\":15,\"data\":3}");
    if (o.k == "lensres")
        return req("codeLens/resolve", o.rest);
    if (o.k == "init")
        return req("initialize", "{\"processId\":1,\"rootUri\":null,\"capabilities\":{}}");
    if (o.k == "inited")
        return req("initialized", "{}");
    if (o.k == "cfg")
        return req("workspace/didChangeConfiguration", "{\"settings\":{}}");
    if (o.k == "cancel")
        return req("$/cancelRequest", "{\"id\":1}");
    if (o.k == "unknown")
        return req("textDocument/formatting", "{" + std::string(o.a.empty() ? "" : "\"x\":1") + "}");
    if (o.k == "shutdown")
        return req("shutdown", "");
    if (o.k == "exit")
        return req("exit", "");
    if (o.k == "deep") // a value nested in N brackets
    {
        std::string v, z, m = o.a[0];
        for (int n = atoi(o.a[2].c_str()); n > 0; --n)
            v += o.a[1][0] == '[' ? "[" : "{\"a\":", z += o.a[1][1];
        v += "1" + (o.a[3] == "closed" ? z : "");
        if (m == "resolve")
            return "{\"method\":\"codeLens/resolve\",\"id\":3,\"params\":{\"data\":\"file:///c%3A/a.nc\",\"range\":{\"start\":{\"line\":0,\"character\":0},\"x\":" + v + "}}}";
        return m == "itself" ? v : "{\"method\":\"" + std::string(m == "other" ? "x" : "initialize") + "\"," + (m == "id" ? "" : m == "other" ? "\"params\":" : "\"id\":4,\"params\":") + (m == "id" ? "\"id\":" : "") + v + "}";
    }
    return o.rest;
}

struct Ref // the reference server
{
    std::string                        drv, letters, key;
    Machine                            m;
    Desc                               user;
    bool                               paths{}, broken{}, user_used{};
    std::map<std::string, std::string> docs;
    std::string                        settings_error;

    const Doc* doc(const std::string& u) const
    {
        auto it = docs.find(u);
        if (it == docs.end())
            return nullptr;
        static const Doc none;
        if (!settings_error.empty())
            return &none;
        return &meaning(key, m, it->second);
    }
    // compares one answer; "" if it is right
    std::string check(const Op& o, const std::string& id, const std::vector<rj::Document>& out)
    {
        auto all = [&] {
            std::string s;
            for (auto& d : out)
                s += dump(d) + " ";
            return s;
        };
        if (o.k == "open" || o.k == "change")
            docs[o.a[0]] = text_of(o.rest);
        if (o.k == "close")
            docs.erase(o.a[0]);
        bool publish = o.k == "open" || o.k == "change";
        if (!publish && !is_request(o.k) && o.k != "raw" && o.k != "deep")
            return out.empty() ? "" : "a notification was answered: " + all();
        if (o.k == "raw")
            return raw(o, out);
        if (o.k == "deep") // refused or answered
            return out.size() > 1 || (out.size() == 1 && (o.a[0] == "other" || o.a[0] == "itself")) ? "a message nested deeply is answered " + std::to_string(out.size()) + " times" : "";
        if (out.size() != 1)
            return std::to_string(out.size()) + " messages for '" + o.k + "' instead of one: " + all();
        auto& d = out[0];
        if (!d.IsObject() || !d.HasMember("jsonrpc") || !eq(d["jsonrpc"], "\"2.0\""))
            return "not a JSON-RPC message: " + all();
        if (publish)
            return diagnostics(o, d);
        if (!d.HasMember("id") || dump(d["id"]) != id || d.HasMember("method"))
            return "the answer has another id than " + id + ": " + all();
        if (o.k == "unknown")
            return d.HasMember("error") || d.HasMember("result") ? "" : "neither result nor error: " + all();
        if (!d.HasMember("result") || d.HasMember("error"))
            return "no result: " + all();
        auto& r = d["result"];
        if (o.k == "hover" && settings_error.empty())
        {
            if (broken && r.IsObject() && r.HasMember("contents") && r["contents"].GetString()[0] != 'G' && strchr(r["contents"].GetString(), '#'))
                return "";
            auto w = hover(doc(o.a[0]), atoi(o.a[1].c_str()), atoi(o.a[2].c_str()), drv, user);
            if (w.maybe && r.IsNull())
                return "";
            if (!w.any)
                return r.IsNull() ? "" : "hover over nothing gives " + dump(r);
            if (!r.IsObject() || !r.HasMember("contents") || !r["contents"].IsString())
                return "no hover, expected " + w.text[0];
            std::string got = r["contents"].GetString();
            if (std::find(w.text.begin(), w.text.end(), got) == w.text.end())
                return "hover shows '" + got.substr(0, 200) + "', expected '" + w.text[0].substr(0, 200) + "'";
            auto rg = "{\"start\":{\"line\":" + o.a[1] + ",\"character\":" + std::to_string(w.from) + "},\"end\":{\"line\":" + o.a[1] + ",\"character\":" + std::to_string(w.to) + "}}";
            return dump(r["range"]) == rg ? "" : "hover range " + dump(r["range"]) + ", expected " + rg;
        }
        if (o.k == "lens")
        {
            auto* x = doc(o.a[0]);
            if (!paths || !x || x->lens.empty())
                return r.IsNull() || (r.IsArray() && r.Empty()) ? "" : "code lenses out of nothing: " + dump(r);
            if (!r.IsArray() || r.Size() != x->lens.size())
                return "code lenses " + dump(r) + ", expected " + std::to_string(x->lens.size());
            rj::SizeType i = 0;
            for (auto& e : x->lens)
            {
                auto& g = r[i++];
                if (g["range"]["start"]["line"].GetInt() != e.first || g["range"]["end"]["line"].GetInt() != e.first)
                    return "code lens at line " + dump(g["range"]) + ", expected " + std::to_string(e.first);
                if (g["command"]["title"].GetString() != e.second)
                    return "code lens '" + std::string(g["command"]["title"].GetString()) + "', expected '" + e.second + "'";
            }
            return "";
        }
        if (o.k == "lensres")
            return r.IsObject() && r.HasMember("command") && r["command"]["title"].GetString() == o.a[0] ? "" : "code lens resolved to " + dump(r) + ", expected '" + o.a[0] + "'";
        if (!settings_error.empty() && (o.k == "compl" || o.k == "resolve" || o.k == "hover"))
            return ""; // the driver is not known
        if (broken && (o.k == "compl" || (o.k == "resolve" && o.rest[0] == '#')))
            return ""; // some descriptions cannot be read
        if (o.k == "compl")
        {
            auto                  want = labels(drv, user);
            std::set<std::string> got;
            if (!r.IsArray())
                return "no list of completions: " + dump(r);
            for (auto& x : r.GetArray())
                if (!got.insert(x["label"].GetString()).second)
                    return std::string("twice in the completions: ") + x["label"].GetString();
            for (auto& x : want)
                if (!got.count(x))
                    return "missing in the completions: " + x;
            for (auto& x : got)
                if (!want.count(x))
                    return "not a code of the driver in the completions: " + x;
            return "";
        }
        if (o.k == "resolve")
        {
            std::vector<std::pair<std::string, std::string>> want;
            auto                                             code = o.rest.empty() ? "" : o.rest.substr(1);
            if (!o.rest.empty() && strchr("GgMm", o.rest[0]))
            {
                auto& ds = desc(drv, toupper(o.rest[0]) == 'G' ? "gcode" : "mcode").d;
                auto  c  = code.size() > 1 && code[0] == '0' ? code.substr(1) : code;
                bool  syn = c.size() == 1 || (c.size() == 3 && c[1] == '.');
                if (ds.count(code))
                    want.push_back(ds.at(code));
                else if (c != code && syn && ds.count(c))
                    want.push_back(ds.at(c));
            }
            else if (!o.rest.empty() && o.rest[0] == '#')
                want = macro_desc(user, desc(drv, "macros"), code);
            if (want.empty())
                want.push_back({"", ""});
            if (!r.IsObject() || !r.HasMember("label") || r["label"].GetString() != o.rest || !r.HasMember("data") || !eq(r["data"], "3") || !r.HasMember("kind") || !eq(r["kind"], "15"))
                return "the item is not handed back: " + dump(r);
            auto str = [&](const char* n) { return r.HasMember(n) && r[n].IsString() ? std::string(r[n].GetString()) : ""; };
            for (auto& x : want)
                if (str("detail") == x.first && str("documentation") == x.second)
                    return "";
            return "'" + o.rest + "' resolved to '" + str("detail") + "' / '" + str("documentation").substr(0, 100) + "', expected '" + want[0].first + "'";
        }
        if (o.k == "init")
        {
            if (!r.IsObject() || !r.HasMember("capabilities"))
                return "no capabilities: " + dump(r);
            auto& c = r["capabilities"];
            for (auto* n : {"textDocumentSync", "completionProvider", "hoverProvider", "codeLensProvider"})
                if (!c.HasMember(n))
                    return std::string("not announced: ") + n;
            return eq(c["textDocumentSync"]["openClose"], "true") && eq(c["textDocumentSync"]["change"], "1") ? "" : "document synchronisation " + dump(c["textDocumentSync"]);
        }
        if (o.k == "shutdown")
            return r.IsNull() ? "" : "shutdown answered with " + dump(r);
        return "";
    }
    std::string diagnostics(const Op& o, const rj::Document& d)
    {
        if (!d.HasMember("method") || !eq(d["method"], "\"textDocument/publishDiagnostics\"") || d.HasMember("id") || !d.HasMember("params"))
            return "no diagnostics: " + dump(d);
        auto& p = d["params"];
        if (p["uri"].GetString() != uri(o.a[0]))
            return "diagnostics of another document: " + dump(p["uri"]);
        std::vector<Diag> want = settings_error.empty() ? meaning(key, m, docs[o.a[0]]).diag : std::vector<Diag>{{0, 0, settings_error}};
        auto              g    = p["diagnostics"].GetArray();
        rj::SizeType      i    = 0;
        if (broken)
        {
            if (g.Size() < 1 || !g[0].HasMember("relatedInformation"))
                return "the broken macro description file is not reported: " + dump(p["diagnostics"]);
            i = 1;
        }
        std::string w;
        for (auto& x : want)
            w += std::to_string(x.line) + ":" + std::to_string(x.ch) + " " + x.msg + "; ";
        if (g.Size() - i != want.size())
            return "diagnostics " + dump(p["diagnostics"]) + ", expected " + w;
        for (auto& x : want)
        {
            auto& e = g[i++];
            if (!eq(e["severity"], "1") || !eq(e["range"]["start"]["line"], std::to_string(x.line)) || !eq(e["range"]["start"]["character"], std::to_string(x.ch)) || !eq(e["range"]["end"]["line"], std::to_string(x.line)) ||
                (settings_error.empty() ? e["message"].GetString() != x.msg : e["message"].GetStringLength() == 0))
                return "diagnostic " + dump(e) + ", expected line " + std::to_string(x.line) + " character " + std::to_string(x.ch) + " '" + x.msg + "'";
        }
        return "";
    }
    std::string raw(const Op& o, const std::vector<rj::Document>& out)
    {
        rj::Document d;
        d.Parse(o.rest.c_str());
        bool        msg = !d.HasParseError() && d.IsObject() && d.HasMember("method") && d["method"].IsString();
        bool        req = msg && d.HasMember("id") && (d["id"].IsInt64() || d["id"].IsString());
        std::string all;
        for (auto& x : out)
            all += dump(x) + " ";
        std::string me = msg ? d["method"].GetString() : "";
        bool        pub = me == "textDocument/didOpen" || me == "textDocument/didChange";
        if (req && !pub)
        {
            if (out.size() != 1 || !out[0].IsObject() || !out[0].HasMember("id") || dump(out[0]["id"]) != dump(d["id"]) || out[0].HasMember("result") == out[0].HasMember("error"))
                return "request " + o.rest + " answered with: " + all;
            return "";
        }
        if (out.size() > 1)
            return "message " + o.rest + " answered with: " + all;
        // without an id there is nothing to answer to
        for (auto& x : out)
        {
            if (pub && x.IsObject() && x.HasMember("method") && eq(x["method"], "\"textDocument/publishDiagnostics\""))
                continue;
            if (msg && d.HasMember("id") && x.IsObject() && x.HasMember("id") && dump(x["id"]) == dump(d["id"]))
                continue; // an id of another type
            if (!x.IsObject() || !x.HasMember("error") || (x.HasMember("id") && !x["id"].IsNull()))
                return "message " + o.rest + " answered with: " + all;
        }
        return "";
    }
};

bool frames(const std::string& s, std::vector<rj::Document>& out, std::string& err)
{
    size_t p = 0;
    while (p < s.size())
    {
        const std::string hd = "Content-Length: ";
        if (s.compare(p, hd.size(), hd))
        {
            err = "output is not framed: " + s.substr(p, 80);
            return false;
        }
        size_t n = atol(s.c_str() + p + hd.size()), e = s.find("\r\n\r\n", p);
        if (e == std::string::npos || e + 4 + n > s.size())
        {
            err = "frame shorter than announced: " + s.substr(p, 80);
            return false;
        }
        rj::Document d;
        d.Parse<rj::kParseIterativeFlag>(s.substr(e + 4, n).c_str());
        if (d.HasParseError())
        {
            err = "not JSON: " + s.substr(e + 4, n);
            return false;
        }
        out.push_back(std::move(d));
        p = e + 4 + n;
    }
    return true;
}

struct Setup
{
    Files       files;
    Ref         ref;
    std::string settings, macros;
    explicit Setup(const std::string& head)
    {
        auto hd     = h::split(head, '|');
        auto has    = [&](char c) { return hd[1].find(c) != std::string::npos; };
        ref.letters = hd[1];
        ref.m       = machine_of(hd[0], hd[1]);
        ref.drv     = ref.m.driver;
        ref.key     = head;
        ref.paths   = has('p');
        if (!has('n'))
            settings = files.put("s.json", settings_json(ref.m, tool_name(ref.m), type_name(ref.m)));
        if (has('u'))
            macros = files.put("u.json", USER_DESC), ref.user = user_desc();
    }
};

std::string capture(const std::function<void()>& f)
{
    std::ostringstream o;
    auto*              b = std::cout.rdbuf(o.rdbuf());
    struct Back
    {
        std::streambuf* b;
        ~Back()
        {
            g_server = false;
            std::cout.rdbuf(b);
        }
    } back{b};
    g_server = true;
    g_idle   = 0;
    f();
    return o.str();
}

// the server's own state, as far as it can be seen: the documents and what they mean
std::string shape(const Ref& r)
{
    std::string s = r.key;
    for (auto& x : r.docs)
        s += "\x01" + x.first + "\x02" + x.second;
    return s;
}


std::string mutable_settings(const Setup& s, const std::string& how)
{
    auto js = settings_json(s.ref.m, tool_name(s.ref.m), type_name(s.ref.m));
    if (how == "cut")
        return js.substr(0, js.size() / 2);
    if (how == "missing")
        return "{\"driver\":\"fanuc_mill\"}";
    if (how == "value")
        js.replace(js.find("_traverse") == std::string::npos ? js.find("linear_") : js.find("_traverse"), 3, "???");
    if (how == "list")
        return "[1,2]";
    if (how == "empty")
        return "";
    return js;
}

void session(const std::string& c, Run& r)
{
    auto                           v = h::split(c, '\n');
    Setup                          s(v[0]);
    nclangsrv::NCSettingsReader    sr(s.settings, nullptr);
    std::unique_ptr<nclangsrv::Logger> lg;
    if (s.ref.letters.find('g') != std::string::npos)
        lg = std::make_unique<nclangsrv::Logger>(s.files.put("log", ""));
    nclangsrv::JsonMessageHandler      hd(lg.get(), repo(), sr, s.ref.paths, s.macros);
    bool                               strings = s.ref.letters.find('s') != std::string::npos;
    std::map<std::string, std::string> lenses; // document -> its last lenses
    bool                               settings_used = false;
    int                                n = 0;
    auto step = [&](const std::string& line, const Op& o) -> bool {
        auto                       id = strings ? "\"q-" + std::to_string(++n) + "\"" : std::to_string(++n * 7);
        auto                       m  = message(o, id);
        std::string                out, err;
        std::vector<rj::Document> d;
        auto                       bad = [&](const std::string& w) {
            r.fail("after '" + line + "' " + (o.k == "hover" ? o.a[1] + " " + o.a[2] : "") + ": " + w);
            return false;
        };
        try
        {
            out = capture([&] { hd.parse(m); });
        }
        catch (const std::exception& e)
        {
            return bad(std::string("the server ended: ") + e.what());
        }
        catch (...)
        {
            return bad("the server ended");
        }
        r.trans();
        if (!frames(out, d, err))
            return bad(err);
        err = s.ref.check(o, id, d);
        if (!err.empty())
            return bad(err);
        r.outcome(o.k + (d.size() == 1 && d[0].IsObject() ? d[0].HasMember("error") ? " error" : d[0].HasMember("result") && d[0]["result"].IsNull() ? " null" : "" : " -"));
        r.state(shape(s.ref));
        bool ends = o.k == "exit" || o.k == "shutdown";
        if (hd.exit() != ends)
            return bad(ends ? "the server did not end" : "the server asks to end");
        if (o.k == "lens")
            lenses[o.a[0]] = d[0]["result"].IsArray() ? dump(d[0]["result"]) : "";
        if (o.k == "open" || o.k == "change" || o.k == "close")
            lenses.erase(o.a[0]);
        return !ends;
    };
    for (size_t i = 1; i < v.size(); ++i)
    {
        auto o = op_of(v[i]);
        if (o.k == "settings") // the file is replaced before it was read
        {
            if (settings_used)
                continue; // settings once read stay in force
            if (o.a[0] == "gone")
                unlink(s.settings.c_str());
            else
                s.files.put("s.json", mutable_settings(s, o.a[0]));
            s.ref.settings_error = o.a[0] != "good" ? "ERROR" : "";
        }
        else if (o.k == "userfile")
        {
            if (s.ref.user_used)
                continue;
            if (o.a[0] == "gone")
                unlink(s.macros.c_str());
            else
                s.files.put("u.json", o.a[0] == "good" ? USER_DESC : o.a[0] == "cut" ? std::string(USER_DESC).substr(0, 60) : o.a[0] == "empty" ? "" : "{}");
            s.ref.broken = o.a[0] != "good";
        }
        else if (o.k == "hoverall")
        {
            auto ls = h::split(s.ref.docs[o.a[0]], '\n');
            for (int L = 0; L <= (int)ls.size(); ++L)
                for (int C = 0; C <= (L < (int)ls.size() ? (int)ls[L].size() : 0) + 1; ++C)
                {
                    Op x{"hover", {o.a[0], std::to_string(L), std::to_string(C)}, ""};
                    if (!step(v[i], x))
                        return;
                }
        }
        else if (o.k == "lresolve") // every lens of the document, as the client got it
        {
            if (!lenses.count(o.a[0]) || lenses[o.a[0]].empty())
                continue;
            rj::Document d;
            d.Parse(lenses[o.a[0]].c_str());
            for (auto& x : d.GetArray())
            {
                std::string title = x["command"]["title"].GetString();
                x.RemoveMember("command");
                Op y{"lensres", {title}, dump(x)};
                if (!step(v[i], y))
                    return;
            }
        }
        else
        {
            if (o.k == "open" || o.k == "change" || o.k == "hover" || o.k == "compl" || o.k == "resolve")
            {
                if (s.ref.settings_error.empty())
                    settings_used = true;
                if (!s.ref.broken)
                    s.ref.user_used = true;
            }
            if (!step(v[i], o))
                return;
        }
    }
}

// ------------------------------------------------------------------ N01: framing, on the real main loop
struct Chunks : std::streambuf
{
    std::string         s;
    std::vector<size_t> cut;
    size_t              pos = 0;
    int_type            underflow() override
    {
        if (pos >= s.size())
            return traits_type::eof();
        size_t e = s.size();
        for (auto c : cut)
            if (c > pos && c < e)
                e = c;
        setg(&s[0] + pos, &s[0] + pos, &s[0] + e);
        pos = e;
        return traits_type::to_int_type(*gptr());
    }
};

struct Script
{
    std::vector<std::string> body; // messages
    std::vector<std::string> head; // their header
};
const std::vector<std::string>& scripts()
{
    static const std::vector<std::string> v = {
        "init\ninited\ncompl\nshutdown",
        "init\nopen a G0 X1~G1 Y2 F100~(\xc4\x85\xc3\xa9)~G1G2\nhover a 0 0\nlens a\nexit\ncompl",
        "init\nraw { \r\n\r\n \"jsonrpc\": \"2.0\",\r\n\"id\":5, \"method\" : \"shutdown2\", \"x\": \"Content-Length: 7\" }\nunknown\nraw {\"a\"\nraw []\nhover a 0 0\nclose a\nhover a 0 0",
        "raw 1\nunknown\nraw {\nexit\nunknown",
        "shutdown\ninit",
        "init\ninit\ninit",
        // every answer repeats characters of several bytes
        "raw {\"id\":\"\xc4\x85\",\"method\":\"initialize\",\"params\":{}}\nopen a G1 X1~(\xc4\x85)~G1 ?\xe4\xb8\xad\xf0\x9f\x98\x80\n"
        "raw {\"id\":\"\xe4\xb8\xad\",\"method\":\"textDocument/hover\",\"params\":{\"textDocument\":{\"uri\":\"file:///c%3A/a.nc\"},\"position\":{\"line\":0,\"character\":0}}}\n"
        "raw {\"id\":\"\xe4\xb8\xad\",\"method\":\"textDocument/codeLens\",\"params\":{\"textDocument\":{\"uri\":\"file:///c%3A/a.nc\"}}}\n"
        "raw {\"id\":\"\xf0\x9f\x98\x80\",\"method\":\"codeLens/resolve\",\"params\":{\"data\":\"file:///c%3A/a.nc\",\"range\":{\"start\":{\"line\":0,\"character\":0}}}}\n"
        "raw {\"id\":\"\xe4\xb8\xad\",\"method\":\"completionItem/resolve\",\"params\":{\"label\":\"\xc4\x85\",\"insertTextFormat\":2,\"kind\":15,\"data\":3}}\n"
        "raw {\"id\":\"\xe4\xb8\xad\",\"method\":\"\xe4\xb8\xad\"}\n"
        "raw {\"id\":\"\xe4\xb8\xad\",\"method\":\"shutdown\"}",
    };
    return v;
}
std::string header(char style, size_t n)
{
    auto l = std::to_string(n);
    switch (style)
    {
    case 'b': return "Content-Length: " + l + "\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n";
    case 'c': return "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: " + l + "\r\n\r\n";
    case 'd': return "Content-Length:" + l + "\r\n\r\n";
    default: return "Content-Length: " + l + "\r\n\r\n";
    }
}
// "script|headers|end|cut|cut|letters": headers a style for every message in turn; the input ends at byte `end` (-1: not early)
void n01_run(const std::string& c, Run& r)
{
    auto        f = h::split(c, '|');
    auto        v = h::split(scripts()[atoi(f[0].c_str())], '\n');
    // a message with line ends inside was split above: script 2 is taken apart by hand
    std::vector<std::string> ops;
    for (auto& x : v)
    {
        auto k = x.substr(0, x.find(' '));
        static const std::set<std::string> known = {"init", "inited", "compl", "shutdown", "open", "hover", "lens", "exit", "raw", "unknown", "close"};
        if (known.count(k))
            ops.push_back(x);
        else
            ops.back() += "\n" + x;
    }
    Files       files;
    std::string in;
    std::vector<std::pair<size_t, std::string>> msgs; // end offset, message
    for (size_t i = 0; i < ops.size(); ++i)
    {
        auto m = message(op_of(ops[i]), std::to_string(i + 1));
        in += header(f[1][i % f[1].size()], m.size()) + m;
        msgs.push_back({in.size(), m});
    }
    long   end = atol(f[2].c_str());
    Chunks in_buf;
    in_buf.s = end < 0 ? in : in.substr(0, std::min<size_t>(end, in.size()));
    for (int k = 3; k < 5; ++k)
        if (atol(f[k].c_str()) > 0)
            in_buf.cut.push_back(atol(f[k].c_str()));
    auto has = [&](char x) { return f[5].find(x) != std::string::npos; };
    if (has('1')) // byte by byte
        for (size_t i = 1; i < in.size(); ++i)
            in_buf.cut.push_back(i);
    std::vector<std::string> args = {repo() + "/nclangsrv", "--calculate-path", has('p') ? "true" : "false"};
    if (has('g'))
        args.push_back("-l"), args.push_back(files.put("log", ""));
    std::vector<char*> av;
    for (auto& x : args)
        av.push_back(&x[0]);
    std::string got, want;
    int         rc = -1;
    auto*       cb = std::cin.rdbuf(&in_buf);
    std::cin.clear();
    try
    {
        got = capture([&] { rc = nclangsrv_main((int)av.size(), av.data()); });
    }
    catch (const Stuck&)
    {
        std::cin.rdbuf(cb);
        return r.fail("the server does not end with its input");
    }
    catch (const std::exception& e)
    {
        std::cin.rdbuf(cb);
        return r.fail(std::string("the server fails: ") + e.what());
    }
    std::cin.rdbuf(cb);
    // the same messages handed to a handler directly
    static std::map<std::string, std::vector<std::pair<std::string, bool>>> cache;
    auto& direct = cache[f[0] + (has('p') ? "p" : "")];
    if (direct.empty())
    {
        nclangsrv::NCSettingsReader   sr("", nullptr);
        nclangsrv::JsonMessageHandler hd(nullptr, repo(), sr, has('p'), "");
        for (auto& m : msgs)
        {
            auto o = capture([&] { hd.parse(m.second); });
            direct.push_back({o, hd.exit()});
            if (hd.exit())
                break;
        }
    }
    size_t answered = 0;
    for (size_t i = 0; i < direct.size(); ++i)
    {
        if (end >= 0 && msgs[i].first > (size_t)end)
            break;
        want += direct[i].first;
        ++answered;
        r.trans();
    }
    r.state(f[0] + "/" + std::to_string(answered) + "/" + f[1]);
    r.outcome("answered " + std::to_string(answered) + " of " + std::to_string(msgs.size()));
    if (rc != 0)
        return r.fail("exit status " + std::to_string(rc));
    {
        std::vector<rj::Document> d;
        std::string               err;
        if (!frames(got, d, err))
            return r.fail(err);
    }
    if (got != want)
    {
        size_t k = 0;
        while (k < got.size() && k < want.size() && got[k] == want[k])
            ++k;
        std::vector<rj::Document> d, e;
        std::string               err;
        frames(got, d, err), frames(want, e, err);
        return r.fail(std::to_string(d.size()) + " messages sent, expected " + std::to_string(e.size()) + "; first difference at byte " + std::to_string(k) + ": ..." + got.substr(k > 40 ? k - 40 : 0, 100) + err);
    }
}
size_t script_size(size_t i, const std::string& hs)
{
    // an upper bound is enough
    auto n = scripts()[i].size() * 3 + 1600;
    (void)hs;
    return n;
}
void n01_enum(int tier, const Emit& e)
{
    for (size_t s = 0; s < scripts().size(); ++s)
    {
        auto S = std::to_string(s);
        for (auto* hs : {"a", "b", "c", "d", "abcd", "cadb", "ab", "ca"})
            for (auto* l : {"", "p", "g", "1", "p1g"})
                e(S + "|" + hs + "|-1|0|0|" + l);
        size_t n = 0;
        {
            auto probe = [&](const std::string& hs) {
                size_t t = 0, i = 0;
                for (auto& x : h::split(scripts()[s], '\n'))
                    t += 260 + 2 * x.size(), ++i;
                return t;
            };
            n = probe("a");
        }
        for (auto* hs : {"a", "bc"})
            for (size_t k = 0; k < n; k += (tier || hs[0] == 'a') ? 1 : 3)
            {
                e(S + "|" + hs + "|" + std::to_string(k) + "|0|0|");
                e(S + "|" + hs + "|-1|" + std::to_string(k) + "|0|");
            }
        if (s == 3 || s == 5 || tier)
            for (size_t a = 1; a < (tier ? n : 330); a += tier && s != 3 ? 5 : s == 3 ? 2 : 4)
                for (size_t b = a + 1; b < (tier ? n : 330); b += tier && s != 3 ? 7 : s == 3 ? 2 : 4)
                    e(S + "|ab|-1|" + std::to_string(a) + "|" + std::to_string(b) + "|");
    }
}
h::Reg n01({"N01", n01_enum, n01_run, "7 sessions on the real main loop: 8 header layouts x 5 modes, input ended at every byte, every cut into two reads, cuts into three reads of the short sessions",
            "the same and cuts into three reads of all sessions"});

// ------------------------------------------------------------------ N02: every request answered once, whatever was sent before
void mutants(const std::string& json, const std::function<void(const std::string&)>& f)
{
    rj::Document d;
    d.Parse(json.c_str());
    static const std::vector<std::string> repl = {"null", "0", "-1", "99999999999", "1e300", "1.5", "true", "\"\"", "\"x\"", "[]", "{}", "[{}]", "[null]"};
    std::function<void(rj::Value&)> rec = [&](rj::Value& v) {
        if (v.IsObject())
        {
            std::vector<std::string> names;
            for (auto& m : v.GetObject())
                names.push_back(m.name.GetString());
            for (auto& n : names)
            {
                if (n == "method" && &v == &d)
                    continue;
                rj::Value keep(v[n.c_str()], d.GetAllocator());
                v.RemoveMember(n.c_str());
                f(dump(d));
                v.AddMember(rj::Value(n.c_str(), d.GetAllocator()), rj::Value(keep, d.GetAllocator()), d.GetAllocator());
                for (auto& x : repl)
                {
                    rj::Document y;
                    y.Parse(x.c_str());
                    v[n.c_str()] = rj::Value(y, d.GetAllocator());
                    f(dump(d));
                }
                v[n.c_str()] = rj::Value(keep, d.GetAllocator());
                rec(v[n.c_str()]);
            }
        }
        else if (v.IsArray())
            for (auto& x : v.GetArray())
                rec(x);
    };
    rec(d);
}
const std::vector<std::string>& n02_ops()
{
    static const std::vector<std::string> v = {"init", "open a G0 X1~#1=5~G1G2~Y#1", "change a G1 X", "close a", "hover a 0 1", "hover a 3 2", "lens a", "compl", "resolve G1", "resolve #3000", "unknown", "cancel", "inited", "cfg", "exit", "shutdown",
                                               "raw {", "raw {\"method\":5,\"id\":9}", "raw {\"id\":3,\"result\":null}"};
    return v;
}
void n02_enum(int tier, const Emit& e)
{
    auto& o = n02_ops();
    for (auto* hd : {"fanuc_mill|np", "haas_lathe|pLs"})
        h::sequences(o.size(), 1, tier ? 4 : 3, [&](const std::vector<size_t>& s) {
            std::string c = hd;
            for (auto i : s)
                c += "\n" + o[i];
            e(c + "\nhover a 1 0\nunknown x\ninit");
        });
    // single defects of every message, before and after a document is open
    for (auto& x : o)
    {
        auto m = message(op_of(x), "41");
        if (m.size() < 20 || x == "exit" || x == "shutdown" || x.substr(0, 3) == "raw")
            continue;
        std::string c;
        int         n = 0;
        auto        flush = [&] {
            if (n)
                e("fanuc_mill|np" + c + "\nhover b 0 0\ncompl"), e("fanuc_mill|npu\nopen a G0~#1=5\nlens a" + c + "\nopen b G1~G1G2\nhover b 0 0\nlens b\nresolve M3");
            c.clear(), n = 0;
        };
        mutants(m, [&](const std::string& j) {
            c += "\nraw " + j;
            if (++n == 6)
                flush();
        });
        flush();
    }
    // what is long or deep
    for (int n : {100, 1000, 5000, 100000, 300000})
        for (auto& rp : std::vector<std::array<std::string, 3>>{{"", "1", ""}, {"G", "0", "1"}, {"#", "1", ""}, {"M#", "5", ""}, {"(", "x", ")"}, {"#1=", "[", ""}, {"", "\t", "G1"}, {"", "G1 ", ""}, {"X", "9", ".5"}, {"", "(", ""}, {"", "/", ""}, {"X1.", "0", ""}, {"", "~", "G1"}})
        {
            auto d = rp[0] + "{" + std::to_string(n) + "*" + rp[1] + "}" + rp[2];
            for (auto* hd : {"fanuc_mill|np", "fanuc_mill|p"})
                e(std::string(hd) + "\nopen a #1=5~" + d + "~Y#1\nhover a 1 0\nhover a 1 1\nhover a 1 90\nhover a 2 1\nlens a");
        }
    for (int n : {10, 990, 1001, 100000, 1000000})
        for (auto* b : {"[]", "{}"})
            for (auto* m : {"resolve", "params", "other", "itself", "id"})
                for (auto* z : {"closed", "open"})
                    e("fanuc_mill|np\nopen a G0 X5\nlens a\ndeep " + std::string(m) + " " + b + " " + std::to_string(n) + " " + z + "\nhover a 0 0\nunknown");
    std::string l = "{\"jsonrpc\":\"2.0\",\"id\":8,\"method\":\"codeLens/resolve\",\"params\":{\"range\":{\"start\":{\"line\":1,\"character\":0},\"end\":{\"line\":1,\"character\":0}},\"data\":\"file:///c%3A/a.nc\"}}";
    mutants(l, [&](const std::string& j) { e("fanuc_mill|np\nraw " + j + "\nopen a G0 X5~G0 X7\nlens a\nraw " + j + "\nunknown\nhover a 0 0"); });
}
h::Reg n02({"N02", n02_enum, session, "all sessions of up to 3 of 19 messages in 2 configurations, each followed by requests; every single defect (member missing or of 13 other values) of 13 messages, before and after a document is open; 13 kinds of long lines of up to 300000 repetitions, values nested up to a million deep in 5 places", "up to 4 of 19 messages"});

// ------------------------------------------------------------------ N03: diagnostics
const std::vector<std::string>& n03_lines()
{
    static const std::vector<std::string> v = {"G0 X1", "", "G1 X", "abc", "  G99999", "(line 1:2: x)", "G0 [[ (line 1)", "X1 X2  ", "#1=#0+5", "Y#1:7", "G90G91", "\tM3\r", "N5 Z99999.", "1", "%", "/ /", "\xc4\x85", "#2=1/0", "G43 H1", "T500 M6", "O1:2", "1:2: 3"};
    return v;
}
void n03_enum(int tier, const Emit& e)
{
    auto& L = n03_lines();
    for (auto& dn : driver_names())
    {
        bool full = dn == "fanuc_mill";
        for (auto* f : {"", "p", "pL", "n"})
        {
            if (!full && (f[0] == 'n'))
                continue;
            std::string hd = dn + "|" + f + (dn.find("lathe") != std::string::npos && !strchr(f, 'L') ? "L" : "");
            // pairs of lines (triples on the main driver), the last one varying within a session
            h::sequences(L.size(), 0, full || tier ? 2 : 1, [&](const std::vector<size_t>& s) {
                std::string pre, c = hd;
                for (auto i : s)
                    pre += L[i] + "~";
                bool first = true;
                for (auto& x : L)
                {
                    c += std::string(first ? "\nopen a " : "\nchange a ") + pre + x;
                    first = false;
                }
                c += "\nchange a " + pre + "\nopen b " + pre + "~~" + pre + "G1G2~";
                e(c);
            });
        }
    }
}
h::Reg n03({"N03", n03_enum, session, "all documents of up to 3 of 22 lines on fanuc_mill x 4 configurations and up to 2 on ten more drivers x 3, with and without a final line end", "up to 3 lines on all 11 drivers"});

// ------------------------------------------------------------------ N04: documents do not influence each other
void n04_enum(int tier, const Emit& e)
{
    std::vector<std::string> t = {"#1=5~G91 G1 X10 F100~[[", "X1~Y#1~G0 X5 Y5~#2=#1+1", "", "G20~G1 X2 F10 M3 S100~T3 M6~G41 D1 X9~G81 R5 Z-5 Q1~(("};
    std::vector<std::string> ops;
    for (auto* d : {"a", "b"})
    {
        for (size_t i = 0; i < t.size(); ++i)
        {
            if (!(d[0] == 'b' && i == 2))
                ops.push_back("open " + std::string(d) + " " + t[i]);
            if (i == 1 || i == 3)
                ops.push_back("change " + std::string(d) + " " + t[i]);
        }
        ops.push_back("close " + std::string(d));
    }
    ops.push_back("hover a 1 1");
    ops.push_back("lens b");
    for (auto* hd : {"fanuc_mill|np", "haas_lathe|pL", "fanuc_mill|p"})
        h::sequences(ops.size() - (!tier && hd[11] == 'n' ? 2 : 0), 1, (tier ? 4 : 3) + (std::string(hd) == "fanuc_mill|np") - (hd[0] == 'h' && tier), [&](const std::vector<size_t>& s) {
            std::string c = hd;
            for (auto i : s)
                c += "\n" + ops[i];
            e(c + "\nlens a\nlens b\nlresolve a\nlresolve b\nhover a 0 0\nhover a 1 1\nhover a 3 1\nhover b 0 0\nhover b 1 1\nopen a " + t[1] + "\nlens a\nopen b " + t[0]);
        });
}
h::Reg n04({"N04", n04_enum, session, "all sequences of up to 4 of 14 (3 of 16) open, change, close, hover and lens operations on two documents in 2-3 configurations, each followed by all questions about both documents", "up to 5 (4) operations"});

// ------------------------------------------------------------------ N05: hover
void n05_enum(int tier, const Emit& e)
{
    std::vector<std::string> tok = {"G1", "g02", "M03", "m6", "G#1", "m#2", "#1", "#3000", "#0500", "X#1", "G54.1", "G99999", " ", "(G0", "#", "G", "X1", "G#7", "#99999999999", "M#3", "G05.", "#1132", "#7=3"};
    std::vector<std::string> pre = {"", "#1=1~", "#1=17~#2=5.5~#1=2.25~#3=30~", "~#1=4~~#2=6~#1=#2+#1~"};
    for (auto& dn : driver_names())
        for (auto* f : {"p", "pu"})
        {
            bool        full = dn == "fanuc_mill";
            std::string hd   = dn + "|" + f + (dn.find("lathe") != std::string::npos ? "L" : "");
            for (size_t p = full || tier ? 0 : 2; p < (full || tier ? pre.size() : 3); ++p)
                h::sequences(tok.size(), 1, full || tier ? 2 : 1, [&](const std::vector<size_t>& s) {
                    std::string l, c = hd;
                    for (auto i : s)
                        l += tok[i];
                    c += "\nopen a " + pre[p] + l + "~#1=9~" + l + "\nhoverall a";
                    if (s.size() == 1 || (p == 2 && f[1]) || tier) // the last piece varies within a session
                    {
                        for (auto& x : tok)
                            if (s.size() == 1 || tier || &x < &tok[11])
                            c += "\nchange a " + pre[p] + l + x + "~#1=9~" + x + l + "\nhoverall a";
                    }
                    e(c);
                });
            // every described code, plain and through a variable
            for (auto* k : {"gcode", "mcode", "macros"})
            {
                std::string c, line;
                int         n = 0;
                for (auto& x : desc(dn, k).d)
                {
                    std::string w = k[0] == 'g' ? "G" : k[2] == 'o' ? "M" : "#";
                    c += "\nopen a #1=" + x.first + "~" + w + x.first + "~" + w + "0" + x.first + "~" + (w == "#" ? "#1" : w + "#1") + "\nhover a 1 1\nhover a 2 1\nhover a 3 1";
                    if (++n == 20)
                        e(hd + c), c.clear(), n = 0;
                }
                if (n)
                    e(hd + c);
            }
            std::string c = "\nopen a ";
            std::string q2;
            int         n = 0;
            for (int i : {1, 33, 34, 99, 100, 101, 199, 499, 500, 501, 510, 519, 520, 521, 599, 600, 601, 608, 609, 610, 699, 700, 709, 710, 1000, 1015, 1031, 1032, 1035, 1099, 1100, 1101, 1115, 1131, 1132, 1133, 1135, 2000, 2001, 2010, 2100, 2200, 2400, 2401, 3000, 3001, 3002, 3011, 4001, 4021, 4022, 4130, 5001, 5002, 5004, 5008, 5021, 5024, 5041, 5081, 5201, 5221, 5224, 5328, 7001, 10001, 10002, 10400, 13001})
            {
                c += "#" + std::to_string(i) + "~";
                q2 += "\nhover a " + std::to_string(n++) + " 2";
            }
            e(hd + c + q2);
        }
}
h::Reg n05({"N05", n05_enum, session, "hover at every position of all lines of up to 2 of 23 pieces (and a third of 11) after 4 assignment histories on fanuc_mill (2 pieces on ten more drivers), with and without a user description file; every described G and M code and variable of 11 drivers, plain and through a variable",
            "the same, three pieces in all configurations"});

// ------------------------------------------------------------------ N06: completion
void n06_enum(int tier, const Emit& e)
{
    std::vector<std::string> pre = {"", "\nopen a G0", "\nopen a G1~#1=2\nhover a 0 0", "\nopen a #1=2~#1\nhover a 1 0", "\ninit\nresolve G1", "\nresolve #3000", "\ncompl", "\nhover a 0 0\nclose a"};
    for (auto& dn : driver_names())
        for (auto* f : {"", "u", "n"})
        {
            if (f[0] == 'n' && dn != "fanuc_mill")
                continue;
            std::string hd = dn + "|" + f + (dn.find("lathe") != std::string::npos ? "L" : "");
            for (auto& p : pre)
                for (auto& p2 : pre)
                    e(hd + p + p2 + "\ncompl\nresolve G0\nresolve M30\nresolve #1");
            std::set<std::string> l = labels(dn, f[0] == 'u' ? user_desc() : Desc());
            for (auto* x : {"G", "M", "#", "X", "G99999", "g01", "m3", "#99999999999", "#x", "#501", "#520", "#700", "#709", "G1.1", "G001", "M006", "#1035"})
                l.insert(x);
            std::string c;
            int         n = 0;
            for (auto& x : l)
            {
                c += "\nresolve " + x;
                if (++n == 50)
                {
                    e(hd + c), e(hd + "\ncompl" + c), c.clear(), n = 0;
                }
            }
            e(hd + c);
        }
}
h::Reg n06({"N06", n06_enum, session, "11 drivers x with and without user descriptions x all pairs of 8 histories before the completion request; every label and 17 others resolved, before and after completion", "the same"});

// ------------------------------------------------------------------ N07: code lenses
void n07_enum(int tier, const Emit& e)
{
    std::vector<std::string> b = {"G0 X10", "G1 Y20 F100", "", "X0 Y0", "M6 T2", "G4 X3.5", "G1 Z-1e", "F10 X300", "G91 X0.004", "X350 F0.1", "(c)", "T1 M6 ", "G28 X0", "G0 X10 Y20 Z30\r"};
    std::vector<std::string> cf = {"fanuc_mill|p", "fanuc_mill|np", "fanuc_mill|", "haas_lathe|pL2", "generic_mill|pei"};
    for (size_t k = 0; k < cf.size(); ++k)
        h::sequences(b.size(), 0, (k == 0 ? 3 : 2) + (tier && k < 2), [&](const std::vector<size_t>& s) {
            std::string pre;
            for (auto i : s)
                pre += b[i] + "~";
            std::string c = cf[k] + "\nopen z G0 X33~G1 F7 X5";
            bool        first = true;
            for (auto& x : b)
            {
                c += std::string(first ? "\nopen a " : "\nchange a ") + pre + x + "\nlens a\nlens z\nlresolve a";
                first = false;
            }
            e(c + "\nlens b\nclose a\nlens a\nlresolve z");
        });
    // the size of the numbers: from hundredths to days
    for (auto* f : {"1", "0.1", "7", "99", "1000", "19999"})
        for (auto* x : {"0.001", "0.004", "0.006", "0.01", "0.1", "1", "59.99", "100", "399"})
        {
            std::string c = "fanuc_mill|p\nopen a ", t;
            for (int i = 0; i < 30; ++i)
                t += std::string("G91 G1 F") + f + " X" + (i % 2 ? "-" : "") + x + "~";
            e(c + t + "\nlens a\nlresolve a");
        }
}
h::Reg n07({"N07", n07_enum, session, "all programs of up to 4 of 14 blocks on fanuc_mill and up to 3 in 4 more configurations, with a second document open; 54 feed/distance magnitudes from 0.001 s to days; every lens resolved again", "up to 5 (4, 3) blocks"});

// ------------------------------------------------------------------ N08: settings
void n08_enum(int tier, const Emit& e)
{
    std::vector<std::string> prog = {"G1 X10 Y5~Z2 F50~G2 X20 I5~M6 T3~G81 Z-3 R2 F30~X5~G80 X0~M3 S200~X100", "X4~G1 Y2~G90 X7 Y8~T5~G0 Z5~G1 X9 F3~G96 S100 M3~X2 F0.1~M60~M66~G28 Z0",
                                     "X600~Y-400~Z-5~Z900~F10000 G1 X1~S9000 M3~T21 M6~F9500 G1~S7999~X449~G43~X1", "G3 X5 Z5 R5 F100~G2 Y5 Z5 R5~#1=5003~G91 X5~X5~G73 Z-5 R1 Q1~Y5~G1 X3~Y2",
                                     "S700 M3~G0 X0 Y0 Z60~G81 X10 Y0 Z3 R20 F30~G3 X20 I5~G81 X30~G80~G81 X10 Y0 Z3 R20~G2 X20 I5~G81 X30~G80~G81 X10 Y0 Z3 R20~G1 X20~G81 X30~G80~G81 X10 Y0 Z3 R20~G0 X20~G81 X30~G80 X5",
                                     "S700 M3~G1 X1 F10~M6 T2~X50 Y10~Z60~G59~X3 T4~G1 X60 F100"};
    std::string letters = "iR1xyv9loeactwWrz2mdk";
    for (auto& dn : driver_names())
        for (auto* ty : {"", "L", "T"})
        {
            std::string base = dn + "|p" + ty;
            auto        all  = [&](const std::string& hd) {
                std::string c = hd;
                for (auto& p : prog)
                    c += "\nopen a " + p + "\nlens a";
                e(c);
            };
            all(base);
            for (size_t i = 0; i < letters.size(); ++i)
            {
                all(base + letters[i]);
                if (tier || dn == "fanuc_mill" || dn == "haas_lathe")
                    for (size_t j = i + 1; j < letters.size(); ++j)
                        all(base + letters[i] + letters[j]);
            }
        }
    // unreadable settings are one error, and are read once they can be
    std::vector<std::string> st = {"settings cut", "settings missing", "settings value", "settings list", "settings gone", "settings empty", "settings good", "open a G0~G1G2", "compl", "hover a 0 0", "resolve G1"};
    for (auto* hd : {"haas_lathe|pL", "makino_mill|p", "fanuc_lathe_system_a|pLu"})
        h::sequences(st.size(), 1, tier ? 5 : 4, [&](const std::vector<size_t>& s) {
            if (s[0] > 5)
                return;
            std::string c = hd;
            for (auto i : s)
                c += "\n" + st[i];
            e(c + "\nopen b G1 X1~X1X2\nsettings good\nopen b G1 X1 F10~X1X2~#1=5~#3000\nlens b\ncompl\nhover b 0 0\nhover b 3 1\nresolve M3\nresolve #3000");
        });
}
h::Reg n08({"N08", n08_enum, session, "6 programs on 11 drivers x 3 machine types x 21 single settings (all pairs on two drivers); all histories of up to 4 of 11 operations with unreadable settings, then readable ones", "all pairs on all drivers, histories of up to 5"});

// ------------------------------------------------------------------ N09: user descriptions
void n09_enum(int tier, const Emit& e)
{
    std::vector<std::string> st = {"userfile cut", "userfile bad", "userfile empty", "userfile gone", "userfile good", "open a #1=5~#3000~#500~#510", "hover a 1 1", "compl", "resolve #3000", "hover a 3 1"};
    for (auto* hd : {"fanuc_mill|npu", "haas_lathe|Lu"})
        h::sequences(st.size(), 1, (tier ? 5 : 4) - (hd[0] == 'h'), [&](const std::vector<size_t>& s) {
            std::string c = hd;
            for (auto i : s)
                c += "\n" + st[i];
            e(c + "\nopen b #1=5\nopen a #1=5~#3000~G1G2~#501~#520~#700\nuserfile good\nopen b #1=2\nopen a #1=5~#3000~G1G2~#501~#520~#700~#500\nhoverall a\ncompl\nresolve #3000\nresolve #500\nresolve #520\nresolve #521");
        });
}
h::Reg n09({"N09", n09_enum, session, "all histories of up to 4 (3) of 10 file states and requests in 2 configurations, then a good file and all questions", "up to 5 (4)"});

// ------------------------------------------------------------------ N11: the command line
// "driver|letters|order|forms|more": letters as in a session (n no settings, p calculation, f calculation refused in so many words, u own
// descriptions, g log); order of the options s c m l; how each of s c m l is written: 0 --name value, 1 --name=value, 2 -n value, 3 -nvalue; more: other options
const std::vector<std::string>& n11_more()
{
    static const std::vector<std::string> v = {"", "--single-line-output false", "-s true", "--convert-length true", "--rotate true", "--rotate-option Y180", "--single-line-output=true --rotate-option=Z90"};
    return v;
}
void n11_run(const std::string& c, Run& r)
{
    auto  f   = h::split(c, '|');
    auto  has = [&](char x) { return f[1].find(x) != std::string::npos; };
    Setup s(f[0] + "|" + f[1]);
    // names with blanks and characters outside ASCII
    if (!s.settings.empty())
        s.settings = s.files.put("my settings=\xc4\x85.json", settings_json(s.ref.m, tool_name(s.ref.m), type_name(s.ref.m)));
    if (!s.macros.empty())
        s.macros = s.files.put("my own -m.json", USER_DESC);
    auto log = s.files.put("the log.txt", "kept\n"), other = s.files.put("log", "");
    // the options
    std::vector<std::string>                                  args  = {repo() + "/nclangsrv"};
    const std::map<char, std::pair<std::string, std::string>> names = {{'s', {"ncsetting-path", "n"}}, {'c', {"calculate-path", ""}}, {'m', {"macro-desc-path", "m"}}, {'l', {"log-path", "l"}}};
    const std::string                                         which = "scml";
    for (char o : f[2])
    {
        std::string v = o == 's' ? s.settings : o == 'm' ? s.macros : o == 'l' ? (has('g') ? log : "") : has('p') ? "true" : has('f') ? "false" : "";
        if (v.empty())
            continue;
        auto& nm   = names.at(o);
        char  form = f[3][which.find(o)];
        if (o == 'c' && form >= '2')
            args.push_back("--" + nm.first), args.push_back(form == '3' ? v == "true" ? "1" : "0" : v == "true" ? "yes" : "no");
        else if (form == '0')
            args.push_back("--" + nm.first), args.push_back(v);
        else if (form == '1')
            args.push_back("--" + nm.first + "=" + v);
        else if (form == '2')
            args.push_back("-" + nm.second), args.push_back(v);
        else
            args.push_back("-" + nm.second + v);
    }
    for (auto& x : h::split(n11_more()[atoi(f[4].c_str())], ' '))
        if (!x.empty())
            args.push_back(x);
    // the session
    static const std::vector<std::string> ops = {"init", "inited", "open a T1 M6 S100 M3~#500=7~G1 X10 F#500~G0 Y100.5 Z-2000~M3 M4 X1~(a) Q", "lens a", "hover a 1 1", "hover a 2 7", "hover a 0 4", "open b X5~G81 Z-5 R1", "lens b", "cfg",
                                                 "change a G1 X#505~#600=2", "hover a 1 1", "hover a 0 5", "lens a", "compl", "shutdown"};
    std::string in;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        auto m = message(op_of(ops[i]), std::to_string(i * 7 + 3));
        in += header('a', m.size()) + m;
    }
    Chunks in_buf;
    in_buf.s = in;
    std::vector<char*> av;
    for (auto& x : args)
        av.push_back(&x[0]);
    std::string got, cmd = "started with";
    for (size_t i = 1; i < args.size(); ++i)
        cmd += " '" + args[i] + "'";
    int         rc = -1;
    auto*       cb = std::cin.rdbuf(&in_buf);
    std::string failed;
    std::cin.clear();
    try
    {
        got = capture([&] { rc = nclangsrv_main((int)av.size(), av.data()); });
    }
    catch (const Stuck&)
    {
        failed = "the server does not end";
    }
    catch (const std::exception& e)
    {
        failed = e.what();
    }
    std::cin.rdbuf(cb);
    std::cin.clear();
    if (!failed.empty() || rc)
        return r.fail(cmd + ": " + failed + " exit status " + std::to_string(rc));
    std::vector<rj::Document> d;
    std::string               err;
    if (!frames(got, d, err))
        return r.fail(cmd + ": " + err);
    size_t k = 0;
    for (size_t i = 0; i < ops.size(); ++i)
    {
        auto                      o = op_of(ops[i]);
        std::vector<rj::Document> mine;
        if ((o.k == "open" || o.k == "change" || is_request(o.k)) && k < d.size())
            mine.push_back(std::move(d[k++]));
        r.trans();
        err = s.ref.check(o, std::to_string(i * 7 + 3), mine);
        if (!err.empty())
            return r.fail(cmd + ", '" + ops[i] + "': " + err);
        r.state(shape(s.ref));
    }
    if (k != d.size())
        return r.fail(cmd + ": " + std::to_string(d.size() - k) + " messages too many");
    auto text = [](const std::string& p) {
        std::ifstream     f(p);
        std::stringstream t;
        t << f.rdbuf();
        return t.str();
    };
    auto t = text(log);
    if ((t != "kept\n") != has('g') || t.rfind("kept\n", 0) || !text(other).empty())
        return r.fail(cmd + ": the log is now " + t.substr(0, 60));
    r.outcome(f[1]);
}
void n11_enum(int tier, const Emit& e)
{
    std::vector<std::string> orders;
    std::string              o = "clms";
    do
        orders.push_back(o);
    while (std::next_permutation(o.begin(), o.end()));
    for (auto* drv : {"haas_lathe", "fanuc_mill"})
        for (auto* a : {"", "n"})
            for (auto* b : {"", "p", "f"})
                for (auto* u : {"", "u"})
                    for (auto* g : {"", "g"})
                    {
                        bool haas = drv[0] == 'h';
                        if (*a && haas)
                            continue; // without settings the driver is fixed
                        auto x = std::string(drv) + "|" + a + b + u + g + (haas ? "Lz" : "iz") + "|";
                        for (auto& p : orders)
                            for (auto* fm : {"0000", "1111", "2222", "3333"})
                                e(x + p + "|" + fm + "|0");
                        for (int n = 0; n < 256; ++n)
                            if (tier || haas)
                                e(x + "scml|" + char('0' + n / 64) + char('0' + n / 16 % 4) + char('0' + n / 4 % 4) + char('0' + n % 4) + "|0");
                        for (size_t n = 1; n < n11_more().size(); ++n)
                            for (auto* fm : {"0000", "1111"})
                                e(x + "lmcs|" + fm + "|" + std::to_string(n));
                    }
}
h::Reg n11({"N11", n11_enum, n11_run, "every subset of the four options in every order in four ways of writing, every combination of the ways in one order, six lists of other options, x a session of 16 messages on the real main function", "every combination of the ways of writing with both drivers"});

} // namespace

// ------------------------------------------------------------------ N10: positions are counted in UTF-16 units
// the twin of a text: a question mark for every UTF-16 unit of the other characters, a blank for a tab
std::string twin(const std::string& s)
{
    std::string r;
    for (char ch : s)
    {
        unsigned char c = (unsigned char)ch;
        if (c == '\t')
            r += ' ';
        else if (c < 0x80)
            r += ch;
        else if (c >= 0xF0)
            r += "??";
        else if (c >= 0xC0)
            r += '?';
    }
    return r;
}
bool utf8(const std::string& s)
{
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = (unsigned char)s[i];
        size_t        n = c < 0x80 ? 0 : c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : 9;
        if (n == 9 || i + n >= s.size())
            return false;
        for (++i; n; --n, ++i)
            if (((unsigned char)s[i] & 0xC0) != 0x80)
                return false;
    }
    return true;
}
void n10_run(const std::string& c, Run& r)
{
    auto                          v = h::split(c, '\n');
    Setup                         s(v[0]);
    nclangsrv::NCSettingsReader   sr(s.settings, nullptr);
    nclangsrv::JsonMessageHandler hd(nullptr, repo(), sr, s.ref.paths, s.macros);
    auto ask = [&](const std::string& line, std::string& answer) {
        auto                      o = op_of(line);
        std::vector<rj::Document> d;
        std::string               err, out = capture([&] { hd.parse(message(o, "1")); });
        r.trans();
        if (!frames(out, d, err) || d.size() != 1)
            return r.fail("'" + line + "': not one message " + err), false;
        auto& a = d[0];
        auto  k = a.HasMember("params") ? "params" : "result";
        if (!a.HasMember(k))
            return r.fail("'" + line + "': no result: " + dump(a)), false;
        answer = dump(a[k].IsObject() && a[k].HasMember("diagnostics") ? a[k]["diagnostics"] : a[k]);
        for (size_t p; (p = answer.find("\\t")) != std::string::npos;) // a tab in a string
            answer.replace(p, 2, " ");
        if (!utf8(answer))
            return r.fail("'" + line + "': half a character in " + answer), false;
        return true;
    };
    for (size_t i = 1; i < v.size(); ++i)
    {
        auto        t = twin(v[i]);
        std::string x, y;
        if (!ask("open a " + v[i], x) || !ask("open t " + t, y))
            return;
        auto vague = [&](const std::string& s) { // a block may be refused only after its variables were substituted, and the character is then one of that text
            rj::Document d;
            d.Parse(s.c_str());
            auto ls = h::split(text_of(t), '\n');
            for (auto& g : d.GetArray())
                if (size_t l = g["range"]["start"]["line"].GetInt(); l < ls.size() && ls[l].find('#') != std::string::npos)
                    for (auto* n : {"start", "end"})
                        g["range"][n]["character"] = 0;
            return dump(d);
        };
        x = vague(twin(x)), y = vague(y);
        if (x != y)
            return r.fail("'" + v[i] + "' has the diagnostics " + x + ", '" + t + "' with as many characters has " + y);
        r.outcome("open");
        auto ls = h::split(text_of(t), '\n');
        for (size_t L = 0; L < ls.size(); ++L)
            for (size_t C = 0; C <= ls[L].size() + 1; ++C)
            {
                auto p = " " + std::to_string(L) + " " + std::to_string(C);
                if (!ask("hover a" + p, x) || !ask("hover t" + p, y))
                    return;
                if (twin(x) != y)
                    return r.fail("hover at line" + p + " of '" + v[i] + "': " + x.substr(0, 200) + ", of '" + t + "' with as many characters: " + y.substr(0, 200));
                r.outcome(x == "null" ? "nothing" : "hover");
                r.state(x + "\x01" + y);
            }
    }
}
void n10_enum(int tier, const Emit& e)
{
    static const std::vector<std::string> tok = {"(\xc5\x82)", "(\xe2\x82\xacG1)", "(\xf0\x9f\x98\x80\xf0\x9f\x98\x80)", "\t", "  ", "G1", "m03 ", "#1", "g#2", "X", "[[", "X1 ", "\xc4\x85", "\xc3\xa9" "5", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "(\xc4\x85", "\xc2\xa0", "X5.5 Y#1", "#4=", "G91 G90", "M"};
    for (auto& dn : driver_names())
        for (auto* f : {"p", "n"})
        {
            bool full = dn == "fanuc_mill" && f[0] == 'p';
            if (f[0] == 'n' && dn != "fanuc_mill")
                continue;
            std::string hd = dn + "|" + f + (dn.find("lathe") != std::string::npos ? "L" : "");
            // long lines: one-sided comments and mistakes of many wide characters
            if (dn == "fanuc_mill")
                for (auto* n : {"20", "70", "300"})
                    for (auto* ch : {"\xf0\x9f\x98\x80", "\xc4\x85", "\xe2\x82\xac", "a\xc4\x85", "(\xc4\x85) ", "X\xf0\x9f\x98\x80"})
                    {
                        if (n[0] == '3' && f[0] == 'n' && !tier)
                            continue;
                        std::string c = hd;
                        for (auto* pre : {"(", "G1 (", "X5 [", "M03 #1="})
                            for (auto* a : {"", "b", "bc", "bcd"})
                                for (auto* post : {"", ") G2 Z", "\t"})
                                    if (n[0] != '3' || (!*a && !*post))
                                        c += std::string("\n#1=5~") + pre + a + "{" + n + "*" + ch + "}" + post;
                        e(c);
                    }
            h::sequences(tok.size(), 1, (full || tier ? 2 : 1) + (full && tier), [&](const std::vector<size_t>& s) {
                std::string l, c = hd;
                for (auto i : s)
                    l += tok[i];
                c += "\n#1=5~" + l;
                for (auto& x : tok)
                    c += "\n#1=5~#2=6~" + l + x + "~" + x + l;
                e(c);
            });
        }
}
h::Reg n10({"N10", n10_enum, n10_run, "all lines of up to 3 of 22 pieces (characters of 1 to 4 bytes, tabs, codes, variables, mistakes) on fanuc_mill and of up to 2 in 11 more configurations; comments, expressions and mistakes of 20 to 300 such characters; diagnostics and hover at every position against the line with one ASCII character per UTF-16 unit",
            "up to 4 (3) pieces"});

int main(int argc, char** argv)
{
    return h::main_(argc, argv);
}
