// Test driver: executes scenarios (one JSON object per line) against the
// public interface of Argos and records what a client can observe.
//
// Usage: driver SCENARIOS RECORDS SCRATCHDIR
//
// RECORDS gets one line per record: {"i": scenario index, "rec": {...}}.
// Strings are byte strings; each byte is written as the Latin-1 character
// with the same number.
#ifdef ARGOS_SINGLE_SRC
    #include "Argos.hpp"
#else
    #include <Argos/Argos.hpp>
#endif
#include <algorithm>
#include <atomic>
#include <charconv>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include <nlohmann/json.hpp>

using json = nlohmann::json;
using namespace argos;

// ---------------------------------------------------------------- encoding
static std::string to_bytes(const std::string& utf8)
{
    std::string s;
    for (size_t i = 0; i < utf8.size(); ++i)
    {
        const auto c = (unsigned char)utf8[i];
        if (c < 0x80)
            s += char(c);
        else
            s += char(((c & 3) << 6) | ((unsigned char)utf8[++i] & 0x3F));
    }
    return s;
}

static std::string enc(std::string_view bytes)
{
    std::string s;
    for (char ch : bytes)
    {
        const auto c = (unsigned char)ch;
        if (c < 0x80)
            s += ch;
        else
        {
            s += char(0xC0 | (c >> 6));
            s += char(0x80 | (c & 0x3F));
        }
    }
    return s;
}

// Texts can be given as functions, whose texts may change with time.
static bool g_clock = false;
static int g_now = 0;
static std::function<std::string()> text_function(std::string text)
{
    return [text]() -> std::string
    {
        if (!g_clock || g_now <= 1)
            return text;
        return g_now % 3 == 2 ? "" : text + " " + std::to_string(g_now);
    };
}

static std::string str(const json& j) { return to_bytes(j.get<std::string>()); }
static std::string str(const json& j, const char* key)
{
    auto it = j.find(key);
    return it == j.end() ? std::string() : str(*it);
}
static std::vector<std::string> strs(const json& j)
{
    std::vector<std::string> r;
    for (auto& e : j)
        r.push_back(str(e));
    return r;
}

// ----------------------------------------------------------------- streams
static int g_fd[3];          // files standing in for stdout, stderr, stream
static thread_local int t_stream = -1;     // in threads: what the stream writes to

static int stream_fd() { return t_stream < 0 ? g_fd[2] : t_stream; }

class FdBuf : public std::streambuf
{
    int overflow(int c) override
    {
        char ch = char(c);
        if (c != EOF && write(stream_fd(), &ch, 1) != 1)
            return EOF;
        return 0;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        return write(stream_fd(), s, size_t(n));
    }
};
static FdBuf g_buf;
static std::ostream g_stream(&g_buf);

static json take_lines(int fd)
{
    struct stat st = {};
    fstat(fd, &st);
    json lines = json::array();
    if (st.st_size == 0)
        return lines;
    std::string s(size_t(st.st_size), '\0');
    if (pread(fd, s.data(), s.size(), 0) < 0)
        s.clear();
    if (ftruncate(fd, 0)) {}
    size_t pos = 0;
    while (pos < s.size())
    {
        const auto end = s.find('\n', pos);
        if (end == std::string::npos)
        {
            lines.push_back(enc(s.substr(pos)) + "<no newline>");
            break;
        }
        lines.push_back(enc(s.substr(pos, end - pos)));
        pos = end + 1;
    }
    return lines;
}

static void take_output(json& rec)
{
    if (t_stream >= 0)
    {
        // What threads write to stdout and stderr is seen after they have ended.
        rec["out"] = json::array();
        rec["err"] = json::array();
        rec["st"] = take_lines(t_stream);
        return;
    }
    std::cout.flush();
    std::cerr.flush();
    rec["out"] = take_lines(g_fd[0]);
    rec["err"] = take_lines(g_fd[1]);
    rec["st"] = take_lines(g_fd[2]);
}

static void drop_output() { json j; take_output(j); }

// ---------------------------------------------------------------- terminal
#include <cstdarg>
#include <sys/ioctl.h>
static int g_columns = 0;    // what the terminal says, 0 if there isn't one

extern "C" int ioctl(int fd, unsigned long request, ...) noexcept
{
    va_list args;
    va_start(args, request);
    auto* p = va_arg(args, void*);
    va_end(args);
    if (request != TIOCGWINSZ || fd != 1 || g_columns == 0)
        return -1;
    *static_cast<winsize*>(p) = {};
    static_cast<winsize*>(p)->ws_col = static_cast<unsigned short>(g_columns < 0 ? 0 : g_columns);
    return 0;
}

// ----------------------------------------------------------------- records
static FILE* g_records = nullptr;
static int g_pipe = -1;            // in children: where the lines go
static int g_index = 0;
static thread_local json g_cbs = json::array();

static void send(const char* key, const json& value)
{
    json j;
    j[key] = value;
    if (g_pipe >= 0)
    {
        const auto s = j.dump() + "\n";
        for (size_t n = 0; n < s.size();)
        {
            const auto r = write(g_pipe, s.data() + n, s.size() - n);
            if (r <= 0)
                _exit(98);
            n += size_t(r);
        }
    }
    else if (j.contains("rec"))
    {
        j["i"] = g_index;
        const auto s = j.dump() + "\n";
        fwrite(s.data(), 1, s.size(), g_records);
        fflush(g_records);
    }
}

static void emit(json rec) { send("rec", rec); }

static void add_cb(const json& entry)
{
    g_cbs.push_back(entry);
    if (g_pipe >= 0 && t_stream < 0)
        send("cb", entry);
}

static json take_cbs()
{
    json r = json::array();
    std::swap(r, g_cbs);
    return r;
}

// ------------------------------------------------------------------- enums
template <typename T>
static T pick(const std::string& s, std::initializer_list<std::pair<const char*, T>> l)
{
    for (auto& [n, v] : l)
        if (s == n)
            return v;
    throw std::logic_error("bad enum " + s);
}
static OptionStyle style_of(const std::string& s)
{
    return pick<OptionStyle>(s, {{"STANDARD", OptionStyle::STANDARD}, {"SLASH", OptionStyle::SLASH},
                                 {"DASH", OptionStyle::DASH}});
}
static const std::initializer_list<std::pair<const char*, OptionOperation>> OPS =
    {{"NONE", OptionOperation::NONE}, {"ASSIGN", OptionOperation::ASSIGN},
     {"APPEND", OptionOperation::APPEND}, {"CLEAR", OptionOperation::CLEAR}};
static const std::initializer_list<std::pair<const char*, OptionType>> TYPES =
    {{"NORMAL", OptionType::NORMAL}, {"HELP", OptionType::HELP}, {"STOP", OptionType::STOP},
     {"EXIT", OptionType::EXIT}, {"LAST_ARGUMENT", OptionType::LAST_ARGUMENT},
     {"LAST_OPTION", OptionType::LAST_OPTION}};
static const std::initializer_list<std::pair<const char*, Visibility>> VIS =
    {{"HIDDEN", Visibility::HIDDEN}, {"USAGE", Visibility::USAGE}, {"TEXT", Visibility::TEXT},
     {"NORMAL", Visibility::NORMAL}};
static const std::initializer_list<std::pair<const char*, TextId>> TEXTS =
    {{"INITIAL_TEXT", TextId::INITIAL_TEXT}, {"USAGE_TITLE", TextId::USAGE_TITLE},
     {"USAGE", TextId::USAGE}, {"ABOUT", TextId::ABOUT},
     {"SUBCOMMANDS_TITLE", TextId::SUBCOMMANDS_TITLE},
     {"ARGUMENTS_TITLE", TextId::ARGUMENTS_TITLE}, {"OPTIONS_TITLE", TextId::OPTIONS_TITLE},
     {"FINAL_TEXT", TextId::FINAL_TEXT}, {"ERROR_USAGE", TextId::ERROR_USAGE},
     {"HELP", TextId::HELP}};
template <typename T>
static std::string name_of(T v, std::initializer_list<std::pair<const char*, T>> l)
{
    for (auto& [n, x] : l)
        if (v == x)
            return n;
    return "?";
}
static std::string rc_name(ParserResultCode c)
{
    switch (c)
    {
    case ParserResultCode::NONE: return "NONE";
    case ParserResultCode::SUCCESS: return "SUCCESS";
    case ParserResultCode::STOP: return "STOP";
    case ParserResultCode::FAILURE: return "FAILURE";
    }
    return "?";
}

// ------------------------------------------------------------------ labels
static std::string label(const IArgumentView* v)
{
    if (!v)
        return "";
    if (v->id() != 0)
        return "#" + std::to_string(v->id());
    if (auto* o = dynamic_cast<const OptionView*>(v))
        return o->flags().empty() ? "?" : enc(o->flags()[0]);
    if (auto* a = dynamic_cast<const ArgumentView*>(v))
        return enc(a->name());
    return "#0";
}

static json seen(const ArgumentValues& vs)
{
    json r = json::array();
    for (const auto& v : vs.values())
    {
        auto text = v.value();
        auto arg = v.argument();
        r.push_back({text ? enc(*text) : "<none>", label(arg.get())});
    }
    return r;
}

static std::string described(const ArgumentValue& v)
{
    const auto text = v.value();
    const auto arg = v.argument();
    return (text ? "=" + enc(*text) : "none") + " " + label(arg.get());
}

// --------------------------------------------------------------- callbacks
struct ItemName { std::string name; bool has_value; };
struct CmdNames { std::vector<ItemName> items; };
static std::map<int, std::shared_ptr<CmdNames>> g_owner;   // item id -> command

static thread_local int g_budget = 0;     // how many words callbacks may insert

// An exception that is none of the parser's
struct UserError
{
    std::string text;
};

template <typename A>
static void run_script(A& a, const json& script, const char* kind)
{
    json log = json::array();
    json entry;
    const auto lbl = label(&a.view);
    entry["cb"] = kind;
    entry["who"] = lbl;
    entry["v"] = enc(a.value);
    auto& b = a.builder;
    auto finish = [&]()
    {
        entry["vals"] = seen(b.values(a.view));
        json all = json::array();
        auto it = a.view.id() == 0 ? g_owner.end() : g_owner.find(a.view.id());
        if (it != g_owner.end())
        {
            for (auto& item : it->second->items)
                all.push_back(item.has_value ? seen(b.values(item.name)) : json::array());
        }
        entry["all"] = all;
        entry["acts"] = log;
        add_cb(entry);
    };
    for (auto& act : script)
    {
        const auto op = act[0].get<std::string>();
        auto by_name = [&](auto func)
        {
            try
            {
                func(str(act[1]));
            }
            catch (ArgosException&)
            {
                log.push_back("unknown");
            }
        };
        const bool has_value = a.view.value_id() != ValueId();
        if (op == "assign")
            by_name([&](auto n) { b.assign(n, str(act[2])); log.push_back("ok"); });
        else if (op == "append")
            by_name([&](auto n) { b.append(n, str(act[2])); log.push_back("ok"); });
        else if (op == "clear")
            by_name([&](auto n) { b.clear(n); log.push_back("ok"); });
        else if (op == "has")
            by_name([&](auto n) { log.push_back(b.has(n) ? "yes" : "no"); });
        else if (op == "read")
            by_name([&](auto n) { log.push_back(described(b.value(n))); });
        else if (op == "vread")
        {
            if (!has_value)
                log.push_back("skip");
            else
            {
                try
                {
                    log.push_back(described(b.value(a.view)));
                }
                catch (ArgosException&)
                {
                    log.push_back("unknown");
                }
            }
        }
        else if (op == "vhas")
            log.push_back(!has_value ? "skip" : b.has(a.view) ? "yes" : "no");
        else if (op == "name")
            log.push_back(enc(b.program_name()));
        else if (op == "say")
        {
            b.stream() << str(act[1]) << "\n";
            log.push_back("ok");
        }
        else if (op == "vassign" || op == "vappend" || op == "vclear")
        {
            if (!has_value)
                log.push_back("skip");
            else
            {
                if (op == "vassign")
                    b.assign(a.view, str(act[1]));
                else if (op == "vappend")
                    b.append(a.view, str(act[1]));
                else
                    b.clear(a.view);
                log.push_back("ok");
            }
        }
        else if (op == "insert")
        {
            if (g_budget == 0)
                log.push_back("skip");
            else
            {
                --g_budget;
                for (size_t i = 1; i < act.size(); ++i)
                    a.new_arguments.push_back(str(act[i]));
                log.push_back("ok");
            }
        }
        else if (op == "error")
        {
            finish();
            b.error(str(act[1]));
        }
        else if (op == "throw")
        {
            finish();
            throw UserError{str(act[1])};
        }
        else if (op == "verror")
        {
            finish();
            b.error(str(act[1]), a.view);
        }
        else
            log.push_back("ok");
    }
    finish();
}

// ------------------------------------------------------------- definitions
static void set_field(Argument& a, const std::string& f, const json& v)
{
    if (f == "name") a.name(str(v));
    else if (f == "help") a.help(str(v));
    else if (f == "helpf") a.help(text_function(str(v)));
    else if (f == "section") a.section(str(v));
    else if (f == "alias") a.alias(str(v));
    else if (f == "vis") a.visibility(pick(v.get<std::string>(), VIS));
    else if (f == "id") a.id(v.get<int>());
    else if (f == "count")
    {
        auto n = [](const json& j) { return j.get<unsigned>() >= 1000000 ? UINT_MAX : j.get<unsigned>(); };
        if (v.size() == 1) a.count(n(v[0]));
        else a.count(n(v[0]), n(v[1]));
    }
    else if (f == "optional") a.optional(v.get<bool>());
    else if (f == "mandatory") a.mandatory(v.get<bool>());
    else if (f == "cb")
    {
        if (v.empty()) a.callback(ArgumentCallback());
        else a.callback([v](ArgumentCallbackArguments& x) { run_script(x, v, "own"); });
    }
    else throw std::logic_error("argument field " + f);
}

static void set_field(Option& o, const std::string& f, const json& v)
{
    if (f == "flags") o.flags(strs(v));
    else if (f == "flag") o.flag(str(v));
    else if (f == "help") o.help(str(v));
    else if (f == "helpf") o.help(text_function(str(v)));
    else if (f == "section") o.section(str(v));
    else if (f == "alias") o.alias(str(v));
    else if (f == "arg") o.argument(str(v));
    else if (f == "const") o.constant(str(v));
    else if (f == "init") o.initial_value(str(v));
    else if (f == "op") o.operation(pick(v.get<std::string>(), OPS));
    else if (f == "type") o.type(pick(v.get<std::string>(), TYPES));
    else if (f == "vis") o.visibility(pick(v.get<std::string>(), VIS));
    else if (f == "optional") o.optional(v.get<bool>());
    else if (f == "mandatory") o.mandatory(v.get<bool>());
    else if (f == "id") o.id(v.get<int>());
    else if (f == "cb")
    {
        if (v.empty()) o.callback(OptionCallback());
        else o.callback([v](OptionCallbackArguments& x) { run_script(x, v, "own"); });
    }
    else throw std::logic_error("option field " + f);
}

static void set_field(Command& c, const std::string& f, const json& v)
{
    if (f == "name") c.name(str(v));
    else if (f == "text")
    {
        auto id = pick(v[0].get<std::string>(), TEXTS);
        if (v.size() > 2)
            c.text(id, text_function(str(v[1])));
        else if (id == TextId::HELP)
            c.help(str(v[1]));
        else if (id == TextId::ABOUT)
            c.about(str(v[1]));
        else
            c.text(id, str(v[1]));
    }
    else if (f == "section") c.section(str(v));
    else if (f == "cursec") c.current_section(str(v));
    else if (f == "vis") c.visibility(pick(v.get<std::string>(), VIS));
    else if (f == "id") c.id(v.get<int>());
    else if (f == "multi") c.allow_multiple_subcommands(v.get<bool>());
    else if (f == "req") c.require_subcommand(v.get<bool>());
    else throw std::logic_error("command field " + f);
}

static void set_field(ArgumentParser& p, const std::string& f, const json& v)
{
    if (f == "name") p.program_name(str(v));
    else if (f == "text")
    {
        auto id = pick(v[0].get<std::string>(), TEXTS);
        if (v.size() > 2)
            p.text(id, text_function(str(v[1])));
        else if (id == TextId::ABOUT)
            p.about(str(v[1]));
        else
            p.text(id, str(v[1]));
    }
    else if (f == "cursec") p.current_section(str(v));
    else if (f == "multi") p.allow_multiple_subcommands(v.get<bool>());
    else if (f == "req") p.require_subcommand(v.get<bool>());
    else if (f == "style") p.option_style(style_of(v.get<std::string>()));
    else if (f == "abbrev") p.allow_abbreviated_options(v.get<bool>());
    else if (f == "ci") p.case_insensitive(v.get<bool>());
    else if (f == "genhelp") p.generate_help_option(v.get<bool>());
    else if (f == "igo") p.ignore_undefined_options(v.get<bool>());
    else if (f == "iga") p.ignore_undefined_arguments(v.get<bool>());
    else if (f == "autoexit") p.auto_exit(v.get<bool>());
    else if (f == "codes") p.set_exit_codes(v[0].get<int>(), v[1].get<int>());
    else if (f == "width") p.line_width(v.get<unsigned>());
    else if (f == "split") p.add_word_splitting_rule(str(v));
    else if (f == "version") p.version(str(v));
    else if (f == "stream") { if (v.get<bool>()) p.stream(&g_stream); else p.stream(nullptr); }
    else if (f == "ocb")
    {
        if (v.empty()) p.option_callback(OptionCallback());
        else p.option_callback([v](OptionCallbackArguments& x) { run_script(x, v, "all"); });
    }
    else if (f == "acb")
    {
        if (v.empty()) p.argument_callback(ArgumentCallback());
        else p.argument_callback([v](ArgumentCallbackArguments& x) { run_script(x, v, "all"); });
    }
    else throw std::logic_error("parser field " + f);
}

static Argument make_arg(const json& j)
{
    Argument a(str(j, "name"));
    set_field(a, j.value("helpf", false) ? "helpf" : "help", j["help"]);
    a.section(str(j, "section")).alias(str(j, "alias"));
    a.visibility(pick(j["vis"].get<std::string>(), VIS)).id(j["id"].get<int>());
    set_field(a, "count", json::array({j["min"], j["max"]}));
    if (!j["cb"].empty())
        set_field(a, "cb", j["cb"]);
    return a;
}

static Option make_opt(const json& j)
{
    Option o;
    o.flags(strs(j["flags"]));
    set_field(o, j.value("helpf", false) ? "helpf" : "help", j["help"]);
    o.section(str(j, "section")).alias(str(j, "alias"));
    o.argument(str(j, "arg")).initial_value(str(j, "init"));
    if (!str(j, "const").empty())
        o.constant(str(j, "const"));
    set_field(o, "op", j["op"]);
    set_field(o, "type", j["type"]);
    set_field(o, "vis", j["vis"]);
    o.optional(j["optional"].get<bool>()).id(j["id"].get<int>());
    if (!j["cb"].empty())
        set_field(o, "cb", j["cb"]);
    return o;
}

// Adds the contents of command index (from 0) in cmds to target.
template <typename T>
static void fill(T& target, const json& cmds, size_t index);

static Command make_cmd(const json& cmds, size_t index)
{
    const auto& j = cmds[index];
    Command c(str(j, "name"));
    c.section(str(j, "section"));
    set_field(c, "vis", j["vis"]);
    c.id(j["id"].get<int>());
    fill(c, cmds, index);
    return c;
}

template <typename T>
static void fill(T& target, const json& cmds, size_t index)
{
    const auto& j = cmds[index];
    for (auto& t : j["texts"])
        set_field(target, "text", t);
    if (j["multi"].get<bool>())
        target.allow_multiple_subcommands(true);
    const auto req = j["req"].get<std::string>();
    if (req != "none")
        target.require_subcommand(req == "true");
    auto names = std::make_shared<CmdNames>();
    for (auto& a : j["args"])
    {
        names->items.push_back({str(a, "name"), true});
        g_owner[a["id"].get<int>()] = names;
    }
    for (auto& o : j["opts"])
    {
        names->items.push_back({o["flags"].empty() ? "" : str(o["flags"][0]), o["op"] != "NONE"});
        g_owner[o["id"].get<int>()] = names;
    }
    std::string cur;
    auto cursec = [&](const std::string& s)
    {
        if (s != cur)
            target.current_section(s);
        cur = s;
    };
    // The order of addition of different kinds of items is irrelevant.
    const auto how = j.value("how", 0);
    auto add_args = [&]()
    {
        for (auto& a : j["args"])
        {
            cursec(str(a, "addsec"));
            if (how & 1)
            {
                auto x = make_arg(a);
                target.add(x);
            }
            else
                target.add(make_arg(a));
        }
    };
    auto add_opts = [&]()
    {
        for (auto& o : j["opts"])
        {
            cursec(str(o, "addsec"));
            if (how & 1)
            {
                auto x = make_opt(o);
                target.add(x);
            }
            else
                target.add(make_opt(o));
        }
    };
    auto add_cmds = [&]()
    {
        for (auto& k : j["subs"])
        {
            const auto sub = k.get<size_t>() - 1;
            cursec(str(cmds[sub], "addsec"));
            if (how & 1)
            {
                auto x = make_cmd(cmds, sub);
                target.add(x);
            }
            else
                target.add(make_cmd(cmds, sub));
        }
    };
    if (how & 2)
    {
        add_opts();
        add_args();
        add_cmds();
    }
    else
    {
        add_cmds();
        add_args();
        add_opts();
    }
    cursec(str(j, "cursec"));
}

static ArgumentParser make_parser(const json& d)
{
    const auto name = str(d["cmds"][0], "name");
    g_columns = d.value("cols", 0);
    g_owner.clear();
    g_budget = d["bud"].get<int>();
    auto p = name.empty() ? ArgumentParser() : ArgumentParser(name, false);
    for (auto f : {"abbrev", "ci", "genhelp", "igo", "iga", "autoexit", "width", "version", "stream", "ocb", "acb"})
        set_field(p, f, d[f]);
    if (d["style"] != "STANDARD")
        set_field(p, "style", d["style"]);
    set_field(p, "codes", json::array({d["ecode"], d["ncode"]}));
    for (auto& s : d["splits"])
        p.add_word_splitting_rule(str(s));
    fill(p, d["cmds"], 0);
    return p;
}

// -------------------------------------------------------------- projection
static void add_node(json& nodes, const ParsedArguments& pa, int up)
{
    json n;
    n["c"] = "#" + std::to_string(pa.command().id());
    n["up"] = up;
    n["rc"] = rc_name(pa.result_code());
    std::string stop;
    try
    {
        auto v = pa.stop_option();
        stop = label(&v);
    }
    catch (ArgosException&)
    {
    }
    n["stop"] = stop;
    json un = json::array();
    for (auto& u : pa.unprocessed_arguments())
        un.push_back(enc(u));
    n["un"] = un;
    json vals = json::array();
    for (auto& a : pa.all_arguments())
        vals.push_back(seen(pa.values(*a)));
    for (auto& o : pa.all_options())
        vals.push_back(seen(pa.values(*o)));
    n["vals"] = vals;
    nodes.push_back(n);
    const int me = int(nodes.size());
    for (auto& sub : pa.subcommands())
        add_node(nodes, sub, me);
}

static json all_nodes(const ParsedArguments& pa)
{
    json nodes = json::array();
    add_node(nodes, pa, 0);
    return nodes;
}

static void flatten(std::vector<ParsedArguments>& v, const ParsedArguments& pa)
{
    v.push_back(pa);
    for (auto& s : pa.subcommands())
        flatten(v, s);
}

// ----------------------------------------------------------------- queries
// The shortest decimal number that identifies d, without an exponent.
template <typename T>
static std::string exact(T d)
{
    if (std::isnan(d))
        return "nan";
    if (std::isinf(d))
        return d < 0 ? "-inf" : "inf";
    if (d == 0)
        return std::signbit(d) ? "-0" : "0";
    char buf[100];
    auto end = std::to_chars(buf, buf + sizeof(buf), d, std::chars_format::scientific).ptr;
    std::string s(buf, end), sign;
    if (s[0] == '-')
    {
        sign = "-";
        s.erase(0, 1);
    }
    auto e = s.find('e');
    int point = std::stoi(s.substr(e + 1)) + 1;
    s.erase(e);
    s.erase(std::remove(s.begin(), s.end(), '.'), s.end());
    s.erase(s.find_last_not_of('0') + 1);
    if (point <= 0)
        return sign + "0." + std::string(-point, '0') + s;
    if (size_t(point) >= s.size())
        return sign + s + std::string(point - s.size(), '0');
    return sign + s.substr(0, point) + "." + s.substr(point);
}

template <typename F>
static json dispatch_type(const std::string& type, F f)
{
    if (type == "int") return f(int());
    if (type == "uint") return f(unsigned());
    if (type == "long") return f(long());
    if (type == "ulong") return f((unsigned long)(0));
    if (type == "llong") return f((long long)(0));
    if (type == "ullong") return f((unsigned long long)(0));
    throw std::logic_error("type " + type);
}

static json read_value(const ArgumentValue& v, const json& acc);

static json read_values(const ArgumentValues& vs, const json& acc)
{
    const auto op = acc[0].get<std::string>();
    if (op == "list")
    {
        json r = json::array();
        r.push_back(seen(vs));
        r.push_back(vs.size());
        r.push_back(bool(vs));
        r.push_back(vs.empty());
        json raw = json::array();
        for (auto s : vs.raw_values())
            raw.push_back(enc(s));
        r.push_back(raw);
        json iter = json::array();
        for (auto it = vs.begin(); it != vs.end(); it++)
            iter.push_back(enc((*it).value().value_or("<none>")));
        r.push_back(iter);
        json index = json::array();
        for (size_t i = 0; i < vs.size(); ++i)
            index.push_back(enc(vs[i].value().value_or("<none>")));
        r.push_back(index);
        json index2 = json::array();
        for (size_t i = 0; i < vs.size(); ++i)
            index2.push_back(enc(vs.value(i).value().value_or("<none>")));
        r.push_back(index2);
        json as = json::array();
        for (auto& s : vs.as_strings())
            as.push_back(enc(s));
        r.push_back(as);
        // All ways of iterating give the same values with the same origins.
        auto same = [](const ArgumentValue& a, const ArgumentValue& b)
        {
            const auto x = a.argument(), y = b.argument();
            return a.value() == b.value() && bool(a) == bool(b) && label(x.get()) == label(y.get());
        };
        const auto all = vs.values();
        size_t n = 0;
        bool ok = true;
        for (const auto v : vs)
            ok = n < all.size() && same(v, all[n++]) && ok;
        ok = ok && n == all.size();
        n = 0;
        for (auto it = vs.begin(); it != vs.end();)
        {
            const auto v = *it++;
            ok = n < all.size() && same(v, all[n++]) && ok;
        }
        ok = ok && n == all.size();
        n = 0;
        for (auto it = vs.begin(); !(it == vs.end()); ++n)
        {
            const auto v = *it;
            auto copy = it;
            auto& next = ++it;
            ok = ok && n < all.size() && same(v, all[n]) && same(*copy, all[n]) && &next == &it && copy != it
                 && same(vs[n], all[n]) && same(vs.value(n), all[n]);
        }
        if (!ok || n != all.size())
            r.push_back("the ways of iterating differ");
        return r;
    }
    if (op == "origins")
    {
        json r = json::array();
        for (auto& a : vs.arguments())
            r.push_back(label(a.get()));
        return r;
    }
    if (op == "at")
        return read_value(vs[acc[1].get<size_t>()], acc[2]);
    if (op == "as")
    {
        const auto type = acc[1].get<std::string>();
        const auto base = acc[2].get<int>();
        json r = json::array();
        if (type == "string")
        {
            for (auto& s : vs.as_strings(strs(acc[3])))
                r.push_back(enc(s));
            return r;
        }
        if (type == "float")
        {
            std::vector<float> d;
            for (auto& s : acc[3]) d.push_back(std::strtof(str(s).c_str(), nullptr));
            for (auto x : vs.as_floats(d))
                r.push_back(exact(x));
            return r;
        }
        if (type == "double")
        {
            std::vector<double> d;
            for (auto& s : acc[3]) d.push_back(std::strtod(str(s).c_str(), nullptr));
            for (auto x : vs.as_doubles(d))
                r.push_back(exact(x));
            return r;
        }
        return dispatch_type(type, [&](auto zero)
        {
            using T = decltype(zero);
            std::vector<T> d;
            for (auto& s : acc[3])
                d.push_back(T(std::is_signed_v<T> ? (unsigned long long)std::strtoll(str(s).c_str(), nullptr, 10)
                                                  : std::strtoull(str(s).c_str(), nullptr, 10)));
            std::vector<T> q;
            if constexpr (std::is_same_v<T, int>) q = vs.as_ints(d, base);
            else if constexpr (std::is_same_v<T, unsigned>) q = vs.as_uints(d, base);
            else if constexpr (std::is_same_v<T, long>) q = vs.as_longs(d, base);
            else if constexpr (std::is_same_v<T, unsigned long>) q = vs.as_ulongs(d, base);
            else if constexpr (std::is_same_v<T, long long>) q = vs.as_llongs(d, base);
            else q = vs.as_ullongs(d, base);
            json r = json::array();
            for (auto x : q)
                r.push_back(std::to_string(x));
            return r;
        });
    }
    if (op == "split")
        return read_values(vs.split(str(acc[1])[0], acc[2].get<size_t>(), acc[3].get<size_t>()), acc[4]);
    if (op == "split_n")
        return read_values(vs.split_n(str(acc[1])[0], acc[2].get<size_t>()), acc[3]);
    if (op == "error")
        vs.error(str(acc[1]));
    throw std::logic_error("values accessor " + op);
}

static json read_value(const ArgumentValue& v, const json& acc)
{
    const auto op = acc[0].get<std::string>();
    if (op == "text")
    {
        json r = json::array();
        r.push_back(bool(v));
        auto t = v.value();
        r.push_back(t ? enc(*t) : "");
        r.push_back(label(v.argument().get()));
        r.push_back(enc(v.as_string("<default>")));
        return r;
    }
    if (op == "as")
    {
        const auto type = acc[1].get<std::string>();
        const auto base = acc[2].get<int>();
        const auto def = str(acc[3]);
        if (type == "string")
            return enc(v.as_string(def));
        if (type == "bool")
            return v.as_bool(def == "true") ? "true" : "false";
        if (type == "float")
            return exact(v.as_float(std::strtof(def.c_str(), nullptr)));
        if (type == "double")
            return exact(v.as_double(std::strtod(def.c_str(), nullptr)));
        return dispatch_type(type, [&](auto zero)
        {
            using T = decltype(zero);
            const auto d = T(std::is_signed_v<T> ? (unsigned long long)std::strtoll(def.c_str(), nullptr, 10)
                                                 : std::strtoull(def.c_str(), nullptr, 10));
            T x;
            if constexpr (std::is_same_v<T, int>) x = v.as_int(d, base);
            else if constexpr (std::is_same_v<T, unsigned>) x = v.as_uint(d, base);
            else if constexpr (std::is_same_v<T, long>) x = v.as_long(d, base);
            else if constexpr (std::is_same_v<T, unsigned long>) x = v.as_ulong(d, base);
            else if constexpr (std::is_same_v<T, long long>) x = v.as_llong(d, base);
            else x = v.as_ullong(d, base);
            return json(std::to_string(x));
        });
    }
    if (op == "split")
        return read_values(v.split(str(acc[1])[0], acc[2].get<size_t>(), acc[3].get<size_t>()), acc[4]);
    if (op == "split_n")
        return read_values(v.split_n(str(acc[1])[0], acc[2].get<size_t>()), acc[3]);
    if (op == "error")
    {
        if (acc.size() > 1)
            v.error(str(acc[1]));
        v.error();
    }
    throw std::logic_error("value accessor " + op);
}

// Objects become arrays of their values in the order of the keys.
static json flat(const json& j)
{
    if (!j.is_object() && !j.is_array())
        return j;
    json r = json::array();
    for (auto& e : j)
        r.push_back(flat(e));
    return r;
}

static json common_view(const IArgumentView& v)
{
    json j;
    j["help"] = enc(v.help());
    j["section"] = enc(v.section());
    j["alias"] = enc(v.alias());
    j["vis"] = name_of(v.visibility(), VIS);
    j["id"] = v.id();
    return j;
}
static json describe(const ArgumentView& a)
{
    auto j = common_view(a);
    j["kind"] = "A";
    j["name"] = enc(a.name());
    auto n = [](unsigned x) { return x == UINT_MAX ? 1000000 : x; };
    j["min"] = n(a.count().first);
    j["max"] = n(a.count().second);
    j["optional"] = a.optional();
    return j;
}
static json describe(const OptionView& o)
{
    auto j = common_view(o);
    j["kind"] = "O";
    json flags = json::array();
    for (auto& f : o.flags())
        flags.push_back(enc(f));
    j["flags"] = flags;
    j["arg"] = enc(o.argument());
    j["init"] = enc(o.initial_value());
    j["const"] = enc(o.constant());
    j["op"] = name_of(o.operation(), OPS);
    j["type"] = name_of(o.type(), TYPES);
    j["optional"] = o.optional();
    return j;
}
static json describe_cmd(const CommandView& c)
{
    auto j = common_view(c);
    j["kind"] = "C";
    j["name"] = enc(c.name());
    j["req"] = c.require_subcommand();
    json items = json::array();
    for (auto& a : c.arguments())
        items.push_back(describe(a));
    for (auto& o : c.options())
        items.push_back(describe(o));
    j["items"] = items;
    json subs = json::array();
    for (auto& s : c.subcommands())
        subs.push_back(describe_cmd(s));
    j["subs"] = subs;
    return j;
}

// Passes a value on in one of several ways.
template <typename T>
static T passed(T v, const std::string& via)
{
    if (via == "copy")
        return std::as_const(v);
    if (via == "assign" || via == "moveassign")
    {
        auto x = v;
        if (via == "assign")
            x = std::as_const(v);
        else
        {
            auto y = v;
            x = std::move(y);
        }
        return x;
    }
    if (via == "keep")
    {
        // What is kept of a value outlives the object that it was read from.
        auto kept = std::make_unique<T>(v);
        auto x = *kept;
        kept.reset();
        return x;
    }
    return v;
}

static json query(const std::vector<ParsedArguments>& all, const json& q, char** argv0, int argc0)
{
    const auto n = q["node"].get<size_t>() - 1;
    if (n >= all.size())
        return "no such node";
    const auto& pa = all[n];
    const auto kind = q["q"].get<std::string>();
    auto item = [&](auto func) -> json
    {
        const auto& t = q["t"];
        if (t[0] == "name")
            return func(str(t[1]));
        const auto k = t[1].get<size_t>() - 1;
        auto args = pa.all_arguments();
        if (k < args.size())
            return func(*args[k]);
        auto opts = pa.all_options();
        if (k - args.size() >= opts.size())
            return "no such item";
        return func(*opts[k - args.size()]);
    };
    if (kind == "has")
        return item([&](const auto& t) { return json(pa.has(t) ? "yes" : "no"); });
    const auto via = q.value("via", std::string());
    if (kind == "value")
        return item([&](const auto& t) { return read_value(passed(pa.value(t), via), q["a"]); });
    if (kind == "values")
        return item([&](const auto& t) { return read_values(passed(pa.values(t), via), q["a"]); });
    if (kind == "novalue")
        return read_value(passed(ArgumentValue(), via), q["a"]);
    if (kind == "error")
        pa.error(str(q["msg"]));
    if (kind == "print")
    {
        if (q.value("to", "") == "cout")
            print(pa);
        else
            print(pa, g_stream);
        return "ok";
    }
    if (kind == "describe")
    {
        auto j = describe_cmd(pa.command());
        json items = json::array();
        for (auto& a : pa.all_arguments())
            items.push_back(describe(*a));
        for (auto& o : pa.all_options())
            items.push_back(describe(*o));
        j["all_items"] = items;
        // Items with equal value ids share their values.
        std::vector<ValueId> values;
        std::set<std::string> ids;
        json shared = json::array();
        auto look = [&](const IArgumentView& v)
        {
            ids.insert(std::to_string(int(v.argument_id())));
            values.push_back(v.value_id());
            const auto it = std::find(values.begin(), values.end(), v.value_id());
            shared.push_back(v.value_id() == ValueId() ? 0 : int(it - values.begin()) + 1);
        };
        for (auto& a : pa.all_arguments())
            look(*a);
        for (auto& o : pa.all_options())
            look(*o);
        j["z_ids"] = ids.size();
        j["z_shared"] = shared;
        json subs = json::array();
        for (auto& s : pa.all_subcommands())
            subs.push_back(enc(s->name()));
        j["all_subs"] = subs;
        j["node_name"] = enc(pa.name());
        json nodes = json::array();
        for (auto& s : pa.subcommands())
            nodes.push_back(enc(s.name()));
        j["nodes"] = nodes;
        return flat(j);
    }
    if (kind == "filter")
    {
        std::vector<char*> argv(argv0, argv0 + argc0 + 1);
        int argc = argc0;
        char** av = argv.data();
        pa.filter_parsed_arguments(argc, av);
        json r = json::array();
        for (int i = 0; i < argc; ++i)
        {
            auto it = std::find(argv0, argv0 + argc0, av[i]);
            r.push_back(int(it - argv0));
        }
        return r;
    }
    throw std::logic_error("query " + kind);
}

// ------------------------------------------------------------------ scenes
struct Argv
{
    std::vector<std::string> strings;
    std::vector<char*> ptrs;
    Argv(const json& argv0, const json& words)
    {
        strings.push_back(str(argv0));
        for (auto& w : words)
            strings.push_back(str(w));
        for (auto& s : strings)
            ptrs.push_back(s.data());
        ptrs.push_back(nullptr);
    }
    int argc() const { return int(ptrs.size()) - 1; }
    char** argv() { return ptrs.data(); }
    std::vector<std::string_view> views() const
    {
        return {strings.begin() + 1, strings.end()};
    }
};

// The values of a command may be printed in any order.
static void sort_values(json& lines)
{
    std::vector<std::string> v = lines.get<std::vector<std::string>>();
    auto ends = [](const std::string& s)
    {
        return s.empty() || s.rfind("Unprocessed arguments:", 0) == 0 || s.rfind("Subcommand: ", 0) == 0;
    };
    for (auto it = v.begin(); it != v.end();)
    {
        const auto end = std::find_if(it, v.end(), ends);
        std::sort(it, end);
        it = end == v.end() ? end : end + 1;
    }
    lines = v;
}

static void ask(const std::vector<ParsedArguments>& all, const json& q, Argv& av, json& rec)
{
    rec["k"] = "Q";
    try
    {
        rec["r"] = query(all, q, av.argv(), av.argc());
        rec["t"] = "ok";
    }
    catch (ArgosException&)
    {
        rec["r"] = "";
        rec["t"] = "throw";
    }
    catch (std::out_of_range&)
    {
        rec["r"] = "";
        rec["t"] = "range";
    }
    take_output(rec);
    if (q["q"] == "print")
    {
        sort_values(rec["st"]);
        sort_values(rec["out"]);
    }
}

static void run_queries(const ParsedArguments& pa, const json& seg, Argv& av)
{
    if (!seg.contains("qs"))
        return;
    std::vector<ParsedArguments> all;
    flatten(all, pa);
    for (auto& q : seg["qs"])
    {
        json rec;
        ask(all, q, av, rec);
        emit(rec);
    }
}

static void step_rec(json& rec, const ParsedArguments& pa)
{
    rec["cbs"] = take_cbs();
    take_output(rec);
    rec["nodes"] = all_nodes(pa);
    rec["code"] = 0;
    emit(rec);
}

template <typename P>
static void run_seg(P& parser, const json& seg)
{
    Argv av(seg["argv0"], seg["words"]);
    const bool use_argv = seg["entry"] != "vec";
    const int argc = seg["entry"] == "none" ? 0 : av.argc();
    if (seg["mode"] == "parse")
    {
        json rec;
        std::unique_ptr<ParsedArguments> pa;
        try
        {
            pa = std::make_unique<ParsedArguments>(
                use_argv ? parser.parse(argc, av.argv()) : parser.parse(av.views()));
            rec["k"] = "PARSE";
            step_rec(rec, *pa);
        }
        catch (UserError& e)
        {
            rec["k"] = "THROW";
            rec["v"] = enc(e.text);
            rec["cbs"] = take_cbs();
            take_output(rec);
            rec["code"] = 0;
            emit(rec);
            return;
        }
        catch (ArgosException&)
        {
            rec["k"] = "THROW";
            rec["cbs"] = take_cbs();
            take_output(rec);
            rec["code"] = 0;
            emit(rec);
            return;
        }
        run_queries(*pa, seg, av);
        return;
    }
    json rec;
    std::unique_ptr<ArgumentIterator> it;
    try
    {
        it = std::make_unique<ArgumentIterator>(
            use_argv ? parser.make_iterator(argc, av.argv()) : parser.make_iterator(av.views()));
    }
    catch (ArgosException&)
    {
        rec["k"] = "THROW";
        rec["cbs"] = take_cbs();
        take_output(rec);
        rec["code"] = 0;
        emit(rec);
        return;
    }
    const auto pa = it->parsed_arguments();
    rec["k"] = "INIT";
    rec["who"] = "";
    rec["v"] = "";
    step_rec(rec, pa);
    int extra = 2;
    while (extra)
    {
        std::unique_ptr<IArgumentView> view;
        std::string_view value;
        json r;
        r["who"] = "";
        r["v"] = "";
        try
        {
            if (!it->next(view, value))
            {
                r["k"] = "END";
                --extra;
            }
            else
            {
                r["who"] = label(view.get());
                r["v"] = enc(value);
                if (!view)
                    r["k"] = "UNK";
                else if (dynamic_cast<OptionView*>(view.get()))
                    r["k"] = "OPT";
                else if (dynamic_cast<ArgumentView*>(view.get()))
                    r["k"] = "ARG";
                else
                    r["k"] = "CMD";
            }
        }
        catch (ArgosException&)
        {
            r["k"] = "THROW";
            extra = 0;
        }
        catch (UserError& e)
        {
            r["k"] = "THROW";
            r["v"] = enc(e.text);
            extra = 0;
        }
        step_rec(r, pa);
    }
    run_queries(it->parsed_arguments(), seg, av);
}

static void run_segments(const json& sc)
{
    std::unique_ptr<ArgumentParser> parser;
    json rec;
    g_clock = sc["D"].value("clock", false);
    g_now = 0;
    try
    {
        parser = std::make_unique<ArgumentParser>(make_parser(sc["D"]));
        rec["r"] = "ok";
    }
    catch (ArgosException&)
    {
        rec["r"] = "throw";
    }
    rec["k"] = "BUILD";
    take_output(rec);
    emit(rec);
    if (!parser)
        return;
    for (auto& seg : sc["segs"])
    {
        const auto op = seg["op"].get<std::string>();
        ++g_now;
        g_budget = sc["D"]["bud"].get<int>();
        if (op == "run")
        {
            if (seg["konst"].get<bool>())
                run_seg(std::as_const(*parser), seg);
            else
                run_seg(*parser, seg);
        }
        else if (op == "help")
        {
            json r;
            r["k"] = "HELP";
            try
            {
                if (seg["path"].empty())
                    parser->write_help_text();
                else
                    parser->write_subcommand_help_text(strs(seg["path"]));
                r["r"] = "ok";
            }
            catch (ArgosException&)
            {
                r["r"] = "throw";
            }
            take_output(r);
            emit(r);
        }
    }
}

#include "life.hpp"

static void run_scenario(const json& sc)
{
    g_cbs = json::array();
    g_clock = false;
    if (sc.contains("life"))
        run_life(sc);
    else
        run_segments(sc);
}

// Runs the scenario in a child process, which may exit.
static void run_forked(const json& sc)
{
    int p[2];
    if (pipe(p))
        _exit(97);
    fflush(g_records);
    std::cout.flush();
    const auto pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        g_pipe = p[1];
        alarm(20);
        run_scenario(sc);
        std::cout.flush();
        send("done", true);
        _exit(0);
    }
    close(p[1]);
    std::string data;
    char buf[65536];
    for (ssize_t n; (n = read(p[0], buf, sizeof(buf))) > 0;)
        data.append(buf, size_t(n));
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    bool done = false;
    json cbs = json::array();
    size_t pos = 0;
    while (pos < data.size())
    {
        auto end = data.find('\n', pos);
        if (end == std::string::npos)
            end = data.size();
        auto j = json::parse(data.substr(pos, end - pos));
        pos = end + 1;
        if (j.contains("rec"))
        {
            cbs = json::array();
            emit(j["rec"]);
        }
        else if (j.contains("cb"))
            cbs.push_back(j["cb"]);
        else
            done = true;
    }
    if (!done)
    {
        json rec;
        const bool crashed = !WIFEXITED(status) || WEXITSTATUS(status) >= 97;
        rec["k"] = crashed ? "CRASH" : "EXIT";
        rec["who"] = "";
        rec["v"] = "";
        rec["cbs"] = cbs;
        rec["code"] = WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
        take_output(rec);
        emit(rec);
    }
    drop_output();
}

int main(int argc, char* argv[])
{
    if (argc != 4)
        return 96;
    std::vector<json> scenarios;
    {
        std::ifstream in(argv[1]);
        for (std::string line; std::getline(in, line);)
            scenarios.push_back(json::parse(line));
    }
    g_records = fopen(argv[2], "w");
    const std::string dir = argv[3];
    const char* names[] = {"/out", "/err", "/stream"};
    for (int i = 0; i < 3; ++i)
        g_fd[i] = open((dir + names[i]).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
    dup2(g_fd[0], 1);
    dup2(g_fd[1], 2);
    auto* next = static_cast<volatile int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *next = 0;
    const int total = int(scenarios.size());
    while (*next < total)
    {
        fflush(g_records);
        const auto pid = fork();
        if (pid == 0)
        {
            // The worker: handles scenarios until it is done or crashes.
            while (*next < total)
            {
                g_index = *next;
                const auto& sc = scenarios[size_t(g_index)];
                alarm(20);
                if (sc.value("fork", false))
                    run_forked(sc);
                else
                    run_scenario(sc);
                drop_output();
                *next = *next + 1;
            }
            alarm(0);
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (*next < total)
        {
            fseek(g_records, 0, SEEK_END);
            g_index = *next;
            json rec;
            rec["k"] = "CRASH";
            rec["code"] = WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
            take_output(rec);
            emit(rec);
            *next = *next + 1;
        }
    }
    fclose(g_records);
    return 0;
}
