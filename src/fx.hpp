// Fixtures for the Fanuc-family parser: own loader of the shipped configuration, machine builder, rendering.
#pragma once
#include "h.hpp"
#include <fanuc/AllAttributesParser.h>
#include <fanuc/AllAttributesParserWrapper.h>
#include <rapidjson/document.h>
#include <rapidjson/istreamwrapper.h>
#include <boost/variant.hpp>

namespace fx {
using namespace parser;

struct RW // one row of a word table, as shipped
{
    int         rf, rt;
    unsigned    df, dt;
    bool        unique;
    std::string type;
};
using Table  = std::map<std::string, RW>;
using Groups = std::map<std::pair<unsigned, unsigned>, std::set<std::string>>;

struct Driver
{
    std::string              name;
    Table                    metric, imperial;
    std::vector<std::string> ops;
    Groups                   g, m;
    bool                     lathe{}, haas{};
};

inline std::string repo()
{
    const char* e = getenv("VERIF_REPO");
    return e ? e : "/repo";
}

inline rapidjson::Document load(const std::string& path)
{
    std::ifstream             f(path);
    const bool                opened = !!f;
    rapidjson::IStreamWrapper is(f);
    rapidjson::Document       d;
    d.ParseStream(is);
    if (!opened || d.HasParseError() || !d.IsObject())
    {
        std::cerr << "cannot read " << path << "\n";
        _exit(3);
    }
    return d;
}

inline Table table(const rapidjson::Value& v)
{
    Table t;
    for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it)
    {
        auto& o                       = it->value;
        t[it->name.GetString()] = {o["range_from"].GetInt(),          o["range_to"].GetInt(),
                                   (unsigned)o["decimal_from"].GetInt(), (unsigned)o["decimal_to"].GetInt(),
                                   o["unique"].GetBool(),             o["type"].GetString()};
    }
    return t;
}

inline Groups groups(const rapidjson::Value& v)
{
    Groups g;
    for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it)
        for (auto& e : it->value.GetArray())
            g[{e["code"].GetUint(), e["rest"].GetUint()}].insert(it->name.GetString());
    return g;
}

inline const std::vector<std::string>& driver_names()
{
    static const std::vector<std::string> v = {"fanuc_mill",           "fanuc_lathe_system_a",    "fanuc_lathe_system_b",
                                               "fanuc_lathe_system_c", "fanuc_millturn_system_a", "fanuc_millturn_system_b",
                                               "generic_lathe",        "generic_mill",            "haas_lathe",
                                               "haas_mill",            "makino_mill"};
    return v;
}

inline const Driver& driver(const std::string& n)
{
    static std::map<std::string, Driver> cache;
    auto                                 it = cache.find(n);
    if (it != cache.end())
        return it->second;
    Driver d;
    d.name = n;
    auto g = load(repo() + "/conf/" + n + "/grammar.json");
    for (auto& o : g["operations"].GetArray())
        d.ops.push_back(o.GetString());
    d.metric   = table(g["metric"]);
    d.imperial = table(g["imperial"]);
    d.g        = groups(load(repo() + "/conf/" + n + "/gcode_groups.json")["groups"]);
    d.m        = groups(load(repo() + "/conf/" + n + "/mcode_groups.json")["groups"]);
    d.lathe    = n.find("lathe") != std::string::npos;
    d.haas     = n.rfind("haas", 0) == 0;
    return cache[n] = d;
}

inline fanuc::WordType wt(const std::string& s)
{
    using W = fanuc::WordType;
    static const std::map<std::string, W> m = {{"misc", W::misc},     {"angle", W::angle},   {"calc", W::calc},
                                               {"code", W::code},     {"feed", W::feed},     {"length", W::length},
                                               {"macro", W::macro},   {"numbering", W::numbering}, {"assignable", W::assignable}};
    return m.at(s);
}

inline fanuc::word_map wm(const Table& t)
{
    fanuc::word_map m;
    for (auto& x : t)
        m[x.first] = {x.first, x.second.rf, x.second.rt, x.second.df, x.second.dt, x.second.unique, wt(x.second.type)};
    return m;
}

inline fanuc::code_groups_map cg(const Groups& g)
{
    fanuc::code_groups_map m;
    for (auto& x : g)
        m[{x.first.first, x.first.second}] = x.second;
    return m;
}

inline EFanucParserType fpt(const std::string& n)
{
    static const std::map<std::string, EFanucParserType> m = {
        {"fanuc_mill", EFanucParserType::FanucMill},
        {"fanuc_lathe_system_a", EFanucParserType::FanucLatheSystemA},
        {"fanuc_lathe_system_b", EFanucParserType::FanucLatheSystemB},
        {"fanuc_lathe_system_c", EFanucParserType::FanucLatheSystemC},
        {"fanuc_millturn_system_a", EFanucParserType::FanucMillturnSystemA},
        {"fanuc_millturn_system_b", EFanucParserType::FanucMillturnSystemB},
        {"generic_lathe", EFanucParserType::GenericLathe},
        {"generic_mill", EFanucParserType::GenericMill},
        {"haas_lathe", EFanucParserType::HaasLathe},
        {"haas_mill", EFanucParserType::HaasMill},
        {"makino_mill", EFanucParserType::MakinoMill}};
    return m.at(n);
}

struct Machine
{
    std::string       driver = "fanuc_mill";
    ELanguage         lang   = ELanguage::English;
    ParserSettings    ps{true, true, true, true, true};
    EMachineTool      tool = EMachineTool::mill_3axis;
    EMachineToolType  type = EMachineToolType::Mill;
    MachinePointsData mpd{{{"X", 0}, {"Y", 0}, {"Z", 500}}, {{"X", 0}, {"Y", 0}, {"Z", 500}}};
    Kinematics        kin{{{"X", {-100000, 100000}}, {"Y", {-100000, 100000}}, {"Z", {-100000, 100000}}},
                   20000,
                   10000,
                   10000,
                   30,
                   6,
                   0,
                   0,
                   false,
                   false,
                   "",
                   "",
                   "",
                   ""};
    CncDefaultValues  cnc{EMotion::RapidTraverse,
                         EWorkPlane::XY,
                         EDriverUnits::Millimeter,
                         EProgrammingType::Absolute,
                         EFeedMode::PerMinute,
                         ERotationDirection::Right,
                         EDepthProgrammingType::Absolute,
                         EDrillGreturnMode::G98,
                         1000,
                         false,
                         false,
                         false,
                         false,
                         false,
                         false,
                         false,
                         false};
    ZeroPoint         zp{0, 0, 0};
};

inline std::unique_ptr<fanuc::AllAttributesParser> make(const Machine& m)
{
    auto& d = driver(m.driver);
    auto  p = std::make_unique<fanuc::AllAttributesParser>(
        fanuc::FanucWordGrammar{wm(d.metric), wm(d.imperial)}, std::vector<std::string>(d.ops), cg(d.g), cg(d.m),
        ParserSettings(m.ps), OtherSettings{m.lang}, fpt(m.driver));
    p->set_ncsettings(m.tool, m.type, MachinePointsData(m.mpd), Kinematics(m.kin), CncDefaultValues(m.cnc), ZeroPoint(m.zp));
    p->reset_macro_values(true);
    return p;
}

// ---- rendering of a parsed block, written from the data types only
struct Ren : boost::static_visitor<std::string>
{
    std::string operator()(const fanuc::DecimalAttributeData& d) const
    {
        std::string t = d.word;
        if (d.assign)
            t += *d.assign;
        if (d.sign)
            t += *d.sign;
        if (d.open_bracket)
            t += *d.open_bracket;
        if (d.macro)
            t += *d.macro;
        if (d.value)
            t += *d.value;
        if (d.dot)
            t += *d.dot;
        if (d.value2)
            t += *d.value2;
        if (d.close_bracket)
            t += *d.close_bracket;
        return t;
    }
    std::string operator()(const fanuc::StringAttributeData& s) const
    {
        return s.word == "(" ? s.word + s.value + ")" : s.word + s.value;
    }
    std::string operator()(const fanuc::CharAttributeData& c) const
    {
        std::string t = c.word;
        if (c.value)
            t += c.value;
        return t;
    }
};
inline std::string ren(const fanuc::AttributeVariant& v)
{
    return boost::apply_visitor(Ren(), v);
}
inline std::string ren(const std::vector<fanuc::AttributeVariant>& v, const std::string& sep = " ")
{
    std::string t;
    for (size_t i = 0; i < v.size(); ++i)
        t += (i ? sep : "") + ren(v[i]);
    return t;
}

struct Res
{
    bool                                 ok{};
    std::string                          msg;
    std::vector<fanuc::AttributeVariant> v;
    std::string                          thrown; // exception that escaped
};

inline Res parse(fanuc::AllAttributesParser& p, int line, const std::string& text)
{
    Res                       r;
    fanuc::FanucAttributeData d;
    try
    {
        r.ok = p.parse(line, text, d, r.msg, true);
    }
    catch (const std::exception& e)
    {
        r.thrown = e.what();
        if (r.thrown.empty())
            r.thrown = "exception";
    }
    r.v = d.value;
    return r;
}

inline std::string canon(const PathResult& p)
{
    return h::num(p.total) + "," + h::num(p.work_motion) + "," + h::num(p.fast_motion) + "," + h::num(p.tool_total) + "," + p.tool_id;
}
inline std::string canon(const TimeResult& p)
{
    return h::num(p.total) + "," + h::num(p.work_motion) + "," + h::num(p.fast_motion) + "," + h::num(p.tool_total) + "," + p.tool_id;
}
inline std::string canon(const fanuc::word_range_map& w)
{
    std::string s;
    for (auto& x : w)
        s += x.first + "=" + h::num(std::get<0>(x.second)) + "/" + h::num(std::get<1>(x.second)) + "/" + h::num(std::get<2>(x.second)) + ";";
    return s;
}
inline std::string canon(const fanuc::macro_map& m)
{
    std::string s;
    for (auto& x : m)
        s += std::to_string(x.first.id) + "@" + std::to_string(x.first.line) + "=" + h::num(x.second) + ";";
    return s;
}
// everything that lasts beyond the current block
inline std::string lasting(const fanuc::AllAttributesParser& p)
{
    auto &a = p.get_path_result();
    auto &b = p.get_time_result();
    return h::num(a.total) + "," + h::num(a.tool_total) + "," + a.tool_id + "|" + h::num(b.total) + "," + h::num(b.tool_total) + "," + b.tool_id + "|" +
           canon(p.get_word_range()) + "|" + canon(p.get_macro_values()) + "|" + (p.get_unit_system() == EDriverUnits::Inch ? "in" : "mm");
}
inline std::string canon(const fanuc::AllAttributesParser& p)
{
    return canon(p.get_path_result()) + "|" + canon(p.get_time_result()) + "|" + canon(p.get_word_range()) + "|" +
           canon(p.get_macro_values()) + "|" + (p.get_unit_system() == EDriverUnits::Inch ? "in" : "mm");
}

} // namespace fx
