// C25: the debug log of random machines and histories against the reference model's record of steps.
#include <dirent.h>
#include <libgen.h>
#include <linux/limits.h>
#include <sys/stat.h>

#include "hsmgen.hpp"

using namespace hg;
using pbt::Rep;
using pbt::Src;

namespace {

std::string gVerif;  // directory of the framework

// ---- YAML co-process
struct Yaml {
    pid_t pid = -1, owner = -1;
    FILE *in = nullptr, *out = nullptr;
    void start() {
        if (pid > 0 && owner == getpid()) return;
        int a[2], b[2];
        if (pipe(a) || pipe(b)) abort();
        pid = fork();
        if (pid == 0) {
            dup2(a[0], 0);
            dup2(b[1], 1);
            for (int i = 3; i < 256; ++i) close(i);
            execlp("python3", "python3", (gVerif + "/lib/yamlsrv.py").c_str(), nullptr);
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        in = fdopen(a[1], "w");
        out = fdopen(b[0], "r");
        owner = getpid();
    }
    std::vector<std::string> load(const std::string& path) {
        start();
        fprintf(in, "%s\n", path.c_str());
        fflush(in);
        std::vector<std::string> r;
        char* line = nullptr;
        size_t cap = 0;
        for (;;) {
            ssize_t n = getline(&line, &cap, out);
            if (n <= 0) { r.push_back("ERROR the YAML reader died"); break; }
            std::string s(line, static_cast<size_t>(n - 1));
            if (s == "END") break;
            r.push_back(s);
        }
        free(line);
        return r;
    }
};
Yaml gYaml;

std::string hexOf(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}

std::string nastyText(Src& s) {
    static const std::vector<std::string> pieces = {"a",  "B7", " ",  "\"", "\\", ":",   ": ", "#",   " #", "- ", "'",  "\n",  "\t",    "{",    "}",   "[",   "]",
                                                    ",",  "&",  "*",  "!",  "|",  ">",   "%",  "@",   "`",  "?",  "---", "...", "null",  "true", "1e3", "0x1f", "~",
                                                    "\r", "\x01", "\x1b", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "no", "12:30:45", "2020-01-01", "=", "<<"};
    std::string r;
    int n = s.range(0, 4);
    for (int i = 0; i < n; ++i) r += pieces[s.below(static_cast<uint32_t>(pieces.size()))];
    return r;
}

struct Names {
    std::map<int, std::string> st, ev;
    std::string state(int id) const { auto i = st.find(id); return i == st.end() ? std::string() : i->second; }
    std::string event(int id) const { auto i = ev.find(id); return i == ev.end() ? std::string() : i->second; }
};

// model record "action|ids|from|to|ev|failed|args" -> the line printed by the reader; arguments are kept separately
struct ExpRec {
    std::string canon;
};

struct LogModel : Model {
    using Model::Model;
};

std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r(1);
    for (char x : s) {
        if (x == c) r.emplace_back();
        else r.back() += x;
    }
    return r;
}

std::string canon(const Model::LogRec& r, const Names& n) {
    std::string o = r.action + "|";
    for (size_t i = 0; i < r.active.size(); ++i) o += (i ? ",s:" : "s:") + hexOf(n.state(r.active[i]));
    auto st = [&](bool has, int id) { return "s:" + (has ? hexOf(n.state(id)) : std::string()); };
    o += "|" + st(r.hasFrom, r.from) + "|" + st(r.hasTo, r.to) + "|s:" + (r.hasEv ? hexOf(n.event(r.ev)) : std::string()) + "|" + (r.failed ? "s:" + hexOf("failed") : "null") + "|";
    for (size_t i = 0; i < r.args.size(); ++i) o += (i ? "," : "") + (r.args[i].isStr ? "s:" + hexOf(r.args[i].str) : "i:" + std::to_string(r.args[i].num));
    return o;
}
std::string decode(const std::string& s) {  // for messages: s:<hex> -> "text"
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        bool start = i == 0 || s[i - 1] == '|' || s[i - 1] == ',';
        if (start && s.compare(i, 2, "s:") == 0) {
            o += '"';
            i += 2;
            while (i + 1 < s.size() && isxdigit(static_cast<unsigned char>(s[i]))) { o += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)); i += 2; }
            o += '"';
            --i;
        } else o += s[i];
    }
    return o;
}

std::string gScratch;
std::string scratch() {
    gScratch = gVerif + "/build/out/hsmlog." + std::to_string(getpid());
    mkdir((gVerif + "/build/out").c_str(), 0755);
    mkdir(gScratch.c_str(), 0700);
    if (chdir(gScratch.c_str()) != 0) abort();
    return gScratch;
}
void cleanScratch() {
    if (gScratch.empty()) return;
    DIR* d = opendir(gScratch.c_str());
    if (d) {
        while (dirent* e = readdir(d))
            if (e->d_name[0] != '.') unlink((gScratch + "/" + e->d_name).c_str());
        closedir(d);
    }
}
void dropScratch() {
    cleanScratch();
    if (chdir("/") == 0) rmdir(gScratch.c_str());
}

void logProp(Src& s, Rep& rep) {
    Profile pf;
    pf.veto = 8; pf.reactions = 15; pf.actions = 10; pf.timers = 4; pf.history = 20; pf.final_ = 12; pf.parallelEntry = 35; pf.composite = 45; pf.maxOps = 14; pf.check = 4;
    pf.maxStates = 10;
    Gen g(s, pf);
    g.gen();
    Program& p = g.p;
    bool nasty = s.chance(60);
    Names nm;
    for (auto& st : p.st) nm.st[st.id] = nasty && s.coin() ? nastyText(s) : "S" + std::to_string(st.id);
    for (auto& h : p.hist) nm.st[h.id] = nasty && s.coin() ? nastyText(s) : "H" + std::to_string(h.id);
    for (int e : p.events) nm.ev[e] = nasty && s.coin() ? nastyText(s) : "E" + std::to_string(e);
    auto spice = [&](Op& o) { for (auto& a : o.args) if (a.isStr && nasty) a.str = nastyText(s); };
    for (auto& o : p.ops) spice(o);
    for (auto& r : p.reactions) spice(r.op);
    for (auto& a : p.acts) for (auto& x : a.args) if (x.isStr && nasty) x.str = nastyText(s);
    // where logging is switched
    struct Sw { int before; int what; int file; };  // what: 0 disable, 1 enable(path), 2 enable() with environment, 3 enable() default, 4 enable with unusable path
    std::vector<Sw> sw;
    sw.push_back({-1, static_cast<int>(s.weighted({3, 10, 2, 2, 1})), static_cast<int>(s.below(2))});
    for (size_t i = 0; i < p.ops.size(); ++i)
        if (s.chance(12)) sw.push_back({static_cast<int>(i), static_cast<int>(s.weighted({8, 10, 1, 1, 1})), static_cast<int>(s.below(2))});
    bool existing = s.chance(25);
    std::string key = p.show();
    for (auto& x : sw) key += " sw" + std::to_string(x.before) + ":" + std::to_string(x.what) + ":" + std::to_string(x.file);
    for (auto& k : nm.st) key += "\nname S " + std::to_string(k.first) + " = \"" + pbt::jsonEsc(k.second) + "\"";
    for (auto& k : nm.ev) key += "\nname E " + std::to_string(k.first) + " = \"" + pbt::jsonEsc(k.second) + "\"";
    if (rep.verbose) rep.desc << key << "\n";

    std::string dir = scratch();
    cleanScratch();
    std::vector<std::string> paths = {dir + "/a.log", dir + "/b.log", dir + "/env.log", dir + "/dump.hsmlog"};
    std::map<int, std::vector<std::string>> expected;
    if (existing) {
        std::ofstream f(paths[0]);
        f << "---\n\n-\n  timestamp: \"2020-01-01 00:00:00.000\"\n  active_states:\n  action: idle\n  from_state: \"\"\n  target_state: \"\"\n  event: \"\"\n  status: \n  args:";
        f.close();
        expected[0].push_back("idle||s:|s:|s:|null|");
    }
    Model m(p);
    Real r(p);
    auto mock = std::make_shared<MockDispatcher>();
    mock->trace = &r.trace;
    r.disp = mock;
    std::string err = r.build();
    if (!err.empty()) rep.fail("registration", err);
    r.hsm->stateName = [&](int id) { return nm.state(id); };
    r.hsm->eventName = [&](int id) { return nm.event(id); };
    int cur = -1;  // file in use
    size_t taken = 0;
    bool toggledLate = false;
    auto collect = [&]() {
        for (; taken < m.recs.size(); ++taken)
            if (cur >= 0) expected[cur].push_back(canon(m.recs[taken], nm));
    };
    auto doSwitch = [&](const Sw& x) {
        if (x.what == 0) {
            r.hsm->disableHsmDebugging();
            cur = -1;
            return;
        }
        if (cur >= 0) return;  // already enabled
        bool ok = false;
        if (x.what == 1) { ok = r.hsm->enableHsmDebugging(paths[static_cast<size_t>(x.file)]); cur = x.file; }
        else if (x.what == 2) { setenv("HSMCPP_DUMP_PATH", paths[2].c_str(), 1); ok = r.hsm->enableHsmDebugging(); unsetenv("HSMCPP_DUMP_PATH"); cur = 2; }
        else if (x.what == 3) { unsetenv("HSMCPP_DUMP_PATH"); ok = r.hsm->enableHsmDebugging(); cur = 3; }
        else {
            if (r.hsm->enableHsmDebugging(dir + "/missing/x.log")) rep.fail("enable", "enableHsmDebugging() succeeded with a path that can not be created");
            return;
        }
        if (!ok) rep.fail("enable", "enableHsmDebugging() failed");
        if (m.handled > 0) toggledLate = true;
    };
    m.logSteps = true;
    size_t k = 0;
    while (k < sw.size() && sw[k].before < 0) doSwitch(sw[k++]);
    m.start();
    if (m.outOfScope) throw pbt::Discard{};
    if (!r.hsm->initialize(r.disp)) rep.fail("initialize", "failed");
    collect();
    auto sync = [&](const char* w) {
        std::string d = diffTraces(m.trace, r.trace);
        if (!d.empty()) rep.fail("trace", std::string(w) + ": behaviour differs while logging: " + d);
    };
    for (size_t i = 0; i < p.ops.size(); ++i) {
        while (k < sw.size() && sw[k].before == static_cast<int>(i)) doSwitch(sw[k++]);
        const Op& o = p.ops[i];
        switch (o.kind) {
            case O_PUMP:
                if (!m.pump(120)) throw pbt::Discard{};
                if (m.outOfScope) throw pbt::Discard{};
                for (int n = 0; mock->stepOne();) if (++n > 1000) rep.fail("livelock", "machine keeps dispatching");
                sync("after an event");
                break;
            case O_SEND: case O_SEND_CLEAR: m.apply(o); r.apply(o); break;
            case O_COND: m.w.cond[o.k] = o.b; r.w.cond[o.k] = o.b; break;
            case O_VETO: m.w.veto[{o.b, o.k}] = o.n; r.w.veto[{o.b, o.k}] = o.n; break;
            case O_CHECK: (void)r.possible(o); break;
            default: break;
        }
        collect();
    }
    r.hsm->release();
    r.hsm.reset();
    size_t total = 0;
    for (int f = 0; f < 4; ++f) {
        bool exists = access(paths[static_cast<size_t>(f)].c_str(), F_OK) == 0;
        if (!exists) {
            if (!expected[f].empty()) rep.fail("log-missing", "no log file was written");
            continue;
        }
        auto got = gYaml.load(paths[static_cast<size_t>(f)]);
        total += expected[f].size();
        if (got == expected[f]) continue;
        size_t q = 0;
        while (q < got.size() && q < expected[f].size() && got[q] == expected[f][q]) ++q;
        std::string msg = "log " + paths[static_cast<size_t>(f)].substr(dir.size()) + " differs at record " + std::to_string(q) + " (action|active|from|target|event|status|args)\n";
        if (q > 0) msg += "  before:   " + decode(got[q - 1]) + "\n";
        msg += "  expected: " + (q < expected[f].size() ? decode(expected[f][q]) : "end of log") + "\n  logged:   " + (q < got.size() ? decode(got[q]) : "end of log");
        rep.fail(!got.empty() && got[0].compare(0, 5, "ERROR") == 0 ? "log-unreadable" : "log", msg);
    }
    dropScratch();
    rep.nontrivial = total >= 6;
    rep.hash = pbt::hashStr(key);
    rep.label("records checked", total);
    if (nasty) rep.label("special characters in names or arguments");
    if (toggledLate) rep.label("enabled while running");
    if (existing) rep.label("appended to an existing log");
}

}  // namespace

int main(int argc, char** argv) {
    char exe[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    gVerif = std::string(dirname(dirname(exe)));
    std::map<std::string, pbt::Prop> props;
    pbt::Prop p;
    p.rule = "random machine and history with logging switched on and off at random points (explicit path, environment, default path, existing file), random state/event names "
             "and arguments; the log is loaded as hsmdebugger loads it and compared record by record with the model's steps; non-trivial: at least 6 records";
    p.quick = 30000;
    p.thorough = 500000;
    p.fn = logProp;
    props["C25"] = p;
    int rc = pbt::mainImpl(argc, argv, props);
    return rc;
}
