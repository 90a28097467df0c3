// Scenarios that are sequences of operations on named objects.

struct LifeObjects
{
    std::map<std::string, Argument> a;
    std::map<std::string, Option> o;
    std::map<std::string, Command> c;
    std::map<std::string, ArgumentParser> own_p;
    std::map<std::string, ArgumentParser>& p;
    std::map<std::string, ArgumentIterator> i;
    std::map<std::string, ParsedArguments> r;
    // The words outlive everything that refers to them.
    std::vector<std::unique_ptr<Argv>> words;
    // How many words the callbacks of a parse may insert
    int budget = 0;
    std::map<std::string, int> budgets;
    // What the iterators have returned so far
    std::map<std::string, std::vector<std::pair<std::unique_ptr<IArgumentView>, std::string_view>>> kept;

    LifeObjects() : p(own_p) {}
    // Objects of a thread that uses the parsers and results of rhs
    explicit LifeObjects(LifeObjects* rhs) : p(rhs->own_p), r(rhs->r), budget(rhs->budget) {}
    LifeObjects(const LifeObjects&) = delete;

    auto& of(Argument*) { return a; }
    auto& of(Option*) { return o; }
    auto& of(Command*) { return c; }
    auto& of(ArgumentParser*) { return p; }

    bool has(const std::string& s) const
    {
        switch (s[0])
        {
        case 'A': return a.count(s);
        case 'O': return o.count(s);
        case 'C': return c.count(s);
        case 'P': return p.count(s);
        case 'I': return i.count(s);
        default: return r.count(s);
        }
    }
    void drop(const std::string& s)
    {
        a.erase(s);
        o.erase(s);
        c.erase(s);
        p.erase(s);
        i.erase(s);
        r.erase(s);
    }
};

template <typename M, typename V>
static void put(M& m, const std::string& s, V&& v)
{
    auto it = m.find(s);
    if (it == m.end())
        m.emplace(s, std::forward<V>(v));
    else
        it->second = std::forward<V>(v);
}

static json getters(const ArgumentParser& p)
{
    json r = json::array();
    auto get = [&](auto f)
    {
        try
        {
            r.push_back(f());
        }
        catch (ArgosException&)
        {
            r.push_back("throw");
        }
    };
    get([&] { return p.allow_abbreviated_options(); });
    get([&] { return p.auto_exit(); });
    get([&] { return p.case_insensitive(); });
    get([&] { return p.generate_help_option(); });
    get([&]() -> std::string {
        switch (p.option_style())
        {
        case OptionStyle::STANDARD: return "STANDARD";
        case OptionStyle::SLASH: return "SLASH";
        case OptionStyle::DASH: return "DASH";
        }
        return "?";
    });
    get([&]() -> std::string {
        const auto v = p.require_subcommand();
        return !v ? "none" : *v ? "true" : "false";
    });
    get([&] { return p.allow_multiple_subcommands(); });
    get([&] { return p.ignore_undefined_arguments(); });
    get([&] { return p.ignore_undefined_options(); });
    get([&] { return bool(p.argument_callback()); });
    get([&] { return bool(p.option_callback()); });
    get([&] { return p.stream() != nullptr; });
    get([&] { return enc(p.program_name()); });
    get([&] { return enc(p.current_section()); });
    return r;
}

// The different ways of writing the same thing.
static void life_field(Argument& x, const std::string& f, const json& v) { set_field(x, f, v); }
static void life_field(Option& x, const std::string& f, const json& v)
{
    if (f == "consti") x.constant(v.get<int>());
    else if (f == "constl") x.constant(v.get<long long>());
    else if (f == "constc") x.constant(str(v).c_str());
    else if (f == "constb") x.constant(v.get<bool>());
    else set_field(x, f, v);
}
static void life_field(Command& x, const std::string& f, const json& v) { set_field(x, f, v); }
static void life_field(ArgumentParser& x, const std::string& f, const json& v)
{
    if (f == "section") x.section(str(v));
    else set_field(x, f, v);
}

template <typename T>
static void life_new(LifeObjects& objs, const std::string& s, const std::vector<std::string>& args, json& rec)
{
    auto& m = objs.of(static_cast<T*>(nullptr));
    if constexpr (std::is_same_v<T, Option>)
    {
        switch (args.size())
        {
        case 0: put(m, s, Option()); break;
        case 1: put(m, s, Option(args[0])); break;
        case 2: put(m, s, Option(args[0], args[1])); break;
        default: put(m, s, Option({args[0], args[1], args[2]})); break;
        }
    }
    else if constexpr (std::is_same_v<T, ArgumentParser>)
    {
        if (args.empty())
            put(m, s, ArgumentParser());
        else if (args.size() == 1)
            put(m, s, ArgumentParser(args[0], false));
        else
            put(m, s, ArgumentParser(args[0]));
        auto& p = m.find(s)->second;
        rec["r"] = getters(p);
        p.auto_exit(false).stream(&g_stream);
    }
    else if (args.empty())
        put(m, s, T());
    else
        put(m, s, T(args[0]));
}

template <typename T>
static void life_move(T& m, const std::string& from, const std::string& to)
{
    auto& x = m.find(from)->second;
    auto it = m.find(to);
    if (it == m.end())
        m.emplace(to, std::move(x));
    else
        it->second = std::move(x);
}

template <typename T, typename M>
static void life_add(T& target, M& m, const std::string& s, const std::string& how)
{
    auto& x = m.find(s)->second;
    if (how == "copy")
    {
        auto y = x;
        target.add(std::move(y));
    }
    else if (how == "move")
        target.add(std::move(x));
    else
        target.add(x);
}

template <typename T>
static void life_add_any(LifeObjects& objs, T& target, const std::string& s, const std::string& how)
{
    if (s[0] == 'A')
        life_add(target, objs.a, s, how);
    else if (s[0] == 'O')
        life_add(target, objs.o, s, how);
    else
        life_add(target, objs.c, s, how);
}

template <typename T>
static void life_probe(const T& x, json& rec)
{
    ArgumentParser p("probe");
    p.auto_exit(false).stream(&g_stream).generate_help_option(false);
    p.add(T(x));
    const auto& cp = p;
    auto it = cp.make_iterator(std::vector<std::string_view>());
    const auto pa = it.parsed_arguments();
    rec["r"] = flat(describe_cmd(pa.command()));
    cp.write_help_text();
    if constexpr (std::is_same_v<T, Command>)
        cp.write_subcommand_help_text({std::string(pa.command().subcommands().front().name())});
}

template <typename P>
static void life_run(LifeObjects& objs, P& parser, const json& op, json& rec)
{
    objs.words.push_back(std::make_unique<Argv>(op["argv0"], op["words"]));
    auto& av = *objs.words.back();
    const auto to = op["to"].get<std::string>();
    const bool use_argv = op["entry"] == "argv";
    g_budget = objs.budget;
    rec["who"] = "";
    rec["v"] = "";
    rec["code"] = 0;
    try
    {
        if (to[0] == 'I')
        {
            auto it = use_argv ? parser.make_iterator(av.argc(), av.argv()) : parser.make_iterator(av.views());
            objs.kept[to].clear();
            put(objs.i, to, std::move(it));
            objs.budgets[to] = g_budget;
            rec["k"] = "INIT";
            rec["nodes"] = all_nodes(objs.i.find(to)->second.parsed_arguments());
        }
        else
        {
            auto pa = use_argv ? parser.parse(av.argc(), av.argv()) : parser.parse(av.views());
            put(objs.r, to, std::move(pa));
            rec["k"] = "PARSE";
            rec["nodes"] = all_nodes(objs.r.find(to)->second);
        }
    }
    catch (ArgosException&)
    {
        rec["k"] = "THROW";
    }
    catch (UserError& e)
    {
        rec["k"] = "THROW";
        rec["v"] = enc(e.text);
    }
    rec["cbs"] = take_cbs();
}

static void life_next(LifeObjects& objs, const std::string& s, json& rec)
{
    rec["who"] = "";
    rec["v"] = "";
    rec["code"] = 0;
    auto& it = objs.i.find(s)->second;
    g_budget = objs.budgets[s];
    try
    {
        std::unique_ptr<IArgumentView> view;
        std::string_view value;
        if (!it.next(view, value))
            rec["k"] = "END";
        else
        {
            rec["who"] = label(view.get());
            rec["v"] = enc(value);
            if (!view)
                rec["k"] = "UNK";
            else if (dynamic_cast<OptionView*>(view.get()))
                rec["k"] = "OPT";
            else if (dynamic_cast<ArgumentView*>(view.get()))
                rec["k"] = "ARG";
            else
                rec["k"] = "CMD";
            if (rec["k"] == "OPT" || rec["k"] == "ARG")
                objs.kept[s].emplace_back(std::move(view), value);
        }
        rec["nodes"] = all_nodes(it.parsed_arguments());
    }
    catch (ArgosException&)
    {
        rec["k"] = "THROW";
        objs.i.erase(s);
    }
    catch (UserError& e)
    {
        rec["k"] = "THROW";
        rec["v"] = enc(e.text);
        objs.i.erase(s);
    }
    objs.budgets[s] = g_budget;
    rec["cbs"] = take_cbs();
}

static void life_op(LifeObjects& objs, const json& op, json& rec)
{
    const auto name = op["op"].get<std::string>();
    const auto s = op.value("s", std::string());
    const auto from = op.value("from", std::string());
    const auto to = op.value("to", std::string());
    auto skip = [&](const std::string& x)
    {
        if (objs.has(x))
            return false;
        rec["t"] = "skip";
        return true;
    };
    if (name == "new")
    {
        const auto args = strs(op["args"]);
        switch (s[0])
        {
        case 'A': life_new<Argument>(objs, s, args, rec); break;
        case 'O': life_new<Option>(objs, s, args, rec); break;
        case 'C': life_new<Command>(objs, s, args, rec); break;
        default: life_new<ArgumentParser>(objs, s, args, rec); break;
        }
    }
    else if (name == "define")
    {
        put(objs.p, s, make_parser(op["D"]));
        objs.budget = g_budget;
    }
    else if (name == "kept")
    {
        if (skip(s))
            return;
        (void)objs.i.find(s)->second.parsed_arguments();
        rec["r"] = json::array();
        for (auto& [view, value] : objs.kept[s])
            rec["r"].push_back({label(view.get()), enc(value)});
    }
    else if (name == "ask")
    {
        if (skip(s))
            return;
        std::vector<ParsedArguments> all;
        flatten(all, s[0] == 'I' ? objs.i.find(s)->second.parsed_arguments() : objs.r.find(s)->second);
        Argv av(op["argv0"], op["words"]);
        ask(all, op["q"], av, rec);
    }
    else if (name == "set")
    {
        if (skip(s))
            return;
        const auto f = op["f"].get<std::string>();
        switch (s[0])
        {
        case 'A': life_field(objs.a.find(s)->second, f, op["v"]); break;
        case 'O': life_field(objs.o.find(s)->second, f, op["v"]); break;
        case 'C': life_field(objs.c.find(s)->second, f, op["v"]); break;
        default: life_field(objs.p.find(s)->second, f, op["v"]); break;
        }
    }
    else if (name == "copy")
    {
        if (skip(from))
            return;
        switch (from[0])
        {
        case 'A': put(objs.a, to, std::as_const(objs.a.find(from)->second)); break;
        case 'O': put(objs.o, to, std::as_const(objs.o.find(from)->second)); break;
        case 'C': put(objs.c, to, std::as_const(objs.c.find(from)->second)); break;
        default: put(objs.r, to, std::as_const(objs.r.find(from)->second)); break;
        }
    }
    else if (name == "move")
    {
        if (skip(from))
            return;
        switch (from[0])
        {
        case 'A': life_move(objs.a, from, to); break;
        case 'O': life_move(objs.o, from, to); break;
        case 'C': life_move(objs.c, from, to); break;
        case 'P':
            if (op.value("how", "") == "member")
                put(objs.p, to, objs.p.find(from)->second.move());
            else
                life_move(objs.p, from, to);
            break;
        default:
            life_move(objs.i, from, to);
            objs.budgets[to] = objs.budgets[from];
            if (from != to)
            {
                objs.kept[to] = std::move(objs.kept[from]);
                objs.kept[from].clear();
            }
            break;
        }
    }
    else if (name == "add")
    {
        if (skip(s) || skip(to))
            return;
        const auto how = op["how"].get<std::string>();
        try
        {
            if (to[0] == 'C')
                life_add_any(objs, objs.c.find(to)->second, s, how);
            else
                life_add_any(objs, objs.p.find(to)->second, s, how);
        }
        catch (ArgosException&)
        {
            objs.drop(s);
            throw;
        }
    }
    else if (name == "copy_from")
    {
        if (skip(from) || skip(to))
            return;
        auto& src = objs.c.find(from)->second;
        bool usable = true;
        try
        {
            // Using a moved object changes nothing.
            usable = false;
            if (to[0] == 'C')
                Command(objs.c.find(to)->second).visibility(Visibility::NORMAL);
            else
                (void)objs.p.find(to)->second.auto_exit();
            Command(src).visibility(Visibility::NORMAL);
            usable = true;
        }
        catch (ArgosException&)
        {
        }
        try
        {
            if (to[0] == 'C')
                objs.c.find(to)->second.copy_from(src);
            else
                objs.p.find(to)->second.copy_from(src);
        }
        catch (ArgosException&)
        {
            if (usable)
                objs.drop(to);
            throw;
        }
    }
    else if (name == "drop")
    {
        if (!skip(s))
            objs.drop(s);
    }
    else if (name == "get")
    {
        if (!skip(s))
            rec["r"] = getters(objs.p.find(s)->second);
    }
    else if (name == "help")
    {
        if (skip(s))
            return;
        auto& p = objs.p.find(s)->second;
        if (op["path"].empty())
            p.write_help_text();
        else
            p.write_subcommand_help_text(strs(op["path"]));
    }
    else if (name == "probe")
    {
        if (skip(s))
            return;
        if (s[0] == 'A')
            life_probe(objs.a.find(s)->second, rec);
        else if (s[0] == 'O')
            life_probe(objs.o.find(s)->second, rec);
        else
            life_probe(objs.c.find(s)->second, rec);
    }
    else if (name == "run")
    {
        if (skip(s))
            return;
        rec.erase("t");
        rec.erase("r");
        auto& p = objs.p.find(s)->second;
        if (op["konst"].get<bool>())
            life_run(objs, std::as_const(p), op, rec);
        else
            life_run(objs, p, op, rec);
    }
    else if (name == "next")
    {
        if (skip(s))
            return;
        rec.erase("t");
        rec.erase("r");
        life_next(objs, s, rec);
    }
    else if (name == "results")
    {
        if (!skip(s))
            put(objs.r, to, objs.i.find(s)->second.parsed_arguments());
    }
    else if (name == "look")
    {
        if (skip(s))
            return;
        const auto& r = objs.r.find(s)->second;
        rec["r"] = flat(describe_cmd(r.command()));
        rec["nodes"] = all_nodes(r);
    }
    else
        throw std::logic_error("operation " + name);
}

static json life_rec(LifeObjects& objs, const json& op)
{
    json rec;
    rec["k"] = op["op"];
    rec["t"] = "ok";
    rec["r"] = "";
    try
    {
        life_op(objs, op, rec);
    }
    catch (ArgosException&)
    {
        rec["t"] = "throw";
        rec["r"] = "";
    }
    if (!rec.contains("st"))
        take_output(rec);
    return rec;
}

// Operations of several threads (ops[first] to ops[last - 1]; the field "ln"
// is the thread). Every thread has iterators and results of its own.
static std::vector<json> life_threads(LifeObjects& objs, const json& ops, size_t first, size_t last, int rounds)
{
    std::map<int, std::vector<size_t>> lanes;
    for (auto i = first; i < last; ++i)
        lanes[ops[i]["ln"].get<int>()].push_back(i);
    std::vector<int> fds;
    for (size_t k = 0; k < lanes.size(); ++k)
    {
        fds.push_back(memfd_create("stream", MFD_CLOEXEC));
        fcntl(fds.back(), F_SETFL, O_APPEND);
    }
    std::vector<json> result;
    // The first time one after the other.
    for (int round = 0; round < rounds; ++round)
    {
        std::vector<json> recs(last - first);
        std::vector<std::unique_ptr<LifeObjects>> parts;
        std::vector<std::thread> threads;
        std::atomic<int> waiting{round == 0 ? 1 : int(lanes.size())};
        for (const auto& lane : lanes)
        {
            parts.push_back(std::make_unique<LifeObjects>(&objs));
            auto work = [&, part = parts.back().get(), indices = lane.second, fd = fds[parts.size() - 1]]
            {
                t_stream = fd;
                g_cbs = json::array();
                if (round != 0)
                {
                    --waiting;
                    while (waiting > 0)
                        std::this_thread::yield();
                }
                for (auto i : indices)
                    recs[i - first] = life_rec(*part, ops[i]);
            };
            threads.emplace_back(std::move(work));
            if (round == 0)
                threads.back().join();
        }
        if (round != 0)
        {
            for (auto& t : threads)
                t.join();
        }
        const bool differs = round != 0 && recs != result;
        if (round == 0 || differs)
            result = std::move(recs);
        if (differs || round + 1 == rounds)
        {
            for (auto& part : parts)
            {
                objs.i.merge(part->i);
                objs.r.merge(part->r);
                objs.kept.merge(part->kept);
                objs.budgets.merge(part->budgets);
                for (auto& w : part->words)
                    objs.words.push_back(std::move(w));
            }
            break;
        }
    }
    for (auto fd : fds)
        close(fd);
    return result;
}

static void run_life(const json& sc)
{
    g_owner.clear();
    g_budget = 0;
    g_columns = sc.value("cols", 0);
    LifeObjects objs;
    const auto& ops = sc["life"];
    for (size_t i = 0; i < ops.size();)
    {
        if (!ops[i].contains("ln"))
        {
            emit(life_rec(objs, ops[i++]));
            continue;
        }
        auto last = i;
        while (last < ops.size() && ops[last].contains("ln"))
            ++last;
        for (auto& rec : life_threads(objs, ops, i, last, sc.value("rounds", 2)))
            emit(rec);
        i = last;
    }
}
