// C29: the command line parser on all argument vectors up to a length.
#include "diag.hpp"
#include "vdtdiag_simpleCmd.h"

namespace diag {
void cleanup() {}

// Options of one configuration: short, long.
struct Opt { const char *s, *l; };
const vector<vector<Opt>> CONFIGS = {
    {{"-n", "--nick"}, {"-s", "--size"}},
    {{"-n", "--nick"}, {"-R", "--reference"}, {"-T", "--test"}},
    {{"-n", "--nick"}, {"-s", "--size"}, {"-r", "--repetitions"}, {"-M", "--pool_max"}, {"-m", "--pool_min"}, {"-p", "--pattern"}},
    {},
    {{"-a", "--ab"}, {"-ab", "--a"}},
};

const vector<string> &alphabet(size_t c) {
  static vector<string> a[8];
  if (!a[c].empty()) return a[c];
  std::set<string> s;
  vector<Opt> o = CONFIGS[c];
  o.push_back({"-h", "--help"});
  for (size_t i = 0; i < o.size() && s.size() < 40; i++)
    for (string n : {string(o[i].s), string(o[i].l)}) {
      s.insert(n);
      s.insert(n + "=v" + str(i));
      if (i < 2) { s.insert(n + "="); s.insert(n + "==x"); s.insert(n + "=a=b,c -h"); }
    }
  for (const char *t : {"", "=", "=-n", "-", "--", "-x", "--unknown", "-x=1", "n", "nick=3", "--nic", "--nickk", "-nick", "-N=1", "- n", "-n ", "--=1", " "}) s.insert(t);
  a[c].assign(s.begin(), s.end());
  return a[c];
}

// the definition
struct Expect { bool ok; std::map<string, string> set; vector<string> blame; };   // blame: names of the rejected option
Expect expect(const vector<Opt> &conf, const vector<string> &args) {
  vector<Opt> o = {{"-h", "--help"}};
  o.insert(o.end(), conf.begin(), conf.end());
  Expect e = {true, {}, {}};
  for (auto &a : args) {
    const size_t q = a.find('=');
    const string name = q == string::npos || q == 0 ? a : a.substr(0, q);
    const string val = q == string::npos || q == 0 ? "" : a.substr(q + 1);
    bool known = false;
    for (auto &x : o)
      if (name == x.s || name == x.l) {
        if (e.set.count(x.s)) { e.ok = false; e.blame = {x.s, x.l}; return e; }
        e.set[x.s] = val;
        known = true;
        break;
      }
    if (!known) { e.ok = false; e.blame = {name}; return e; }
  }
  return e;
}

string helpText(const Opt &o) { return "text <" + string(o.s) + ">"; }
string run(size_t c, const vector<string> &args) {
  freshOutput();
  CmdOptions o;
  for (auto &x : CONFIGS[c]) o.addOption(x.s, x.l, helpText(x));
  vector<string> store = args;
  static char prog[] = "program";
  vector<char *> argv = {prog};
  for (auto &a : store) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  const bool ok = o.parseCmd((int)args.size() + 1, argv.data()) != 0;
  steps += args.size() + 1;
  const Expect e = expect(CONFIGS[c], args);
  string line;
  for (auto &a : args) line += " [" + a + "]";
  if (ok != e.ok) return string(ok ? "accepted" : "rejected") + line;
  for (size_t i = 0; i < args.size(); i++) if (store[i] != args[i]) return "argument changed by parsing" + line;
  const string s = printed();
  if (!ok) {
    for (auto &b : e.blame) if (s.find(b) != string::npos) return "";
    return "the message \"" + s + "\" does not name the rejected " + e.blame[0] + line;
  }
  vector<Opt> all = CONFIGS[c];
  all.push_back({"-h", "--help"});
  for (auto &x : all) {
    const bool want = e.set.count(x.s) > 0;
    if (o.isSet(x.s) != want) return string(x.s) + (want ? " not set by" : " set by") + line;
    const string v = o.getArgument(x.s), w = want ? e.set.at(x.s) : "";
    if (v != w) return string(x.s) + " has the value [" + v + "] instead of [" + w + "] for" + line;
  }
  if (e.set.count("-h")) {
    for (auto &x : all)
      if (s.find(x.s) == string::npos || s.find(x.l) == string::npos) return "help does not mention " + string(x.l);
    for (auto &x : CONFIGS[c]) if (s.find(helpText(x)) == string::npos) return "help does not explain " + string(x.l);
  }
  return "";
}

// the help on one option, after parsing
string help(size_t c, const vector<string> &args, const string &name) {
  freshOutput();
  CmdOptions o;
  for (auto &x : CONFIGS[c]) o.addOption(x.s, x.l, helpText(x));
  vector<string> store = args;
  static char prog[] = "program";
  vector<char *> argv = {prog};
  for (auto &a : store) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  o.parseCmd((int)args.size() + 1, argv.data());
  printed();
  if (name == "all") o.printHelp();
  else o.printHelp(name);
  steps += args.size() + 2;
  const string s = printed();
  for (auto &x : CONFIGS[c]) {
    const bool asked = name == "all" || name == x.s || name == x.l;
    if ((s.find(helpText(x)) != string::npos) != asked) return "the help on " + name + (asked ? " does not explain " : " explains ") + x.l + ": \"" + s + "\"";
    if (asked && (s.find(x.s) == string::npos || s.find(x.l) == string::npos)) return "the help on " + name + " does not mention " + x.l;
  }
  if (name != "all" && s.find(name) == string::npos) return "the help on " + name + " does not mention it: \"" + s + "\"";
  return "";
}

vector<string> decode(size_t c, const string &w) {
  vector<string> v;
  for (size_t i = 1; i + 1 < w.size(); i += 2) v.push_back(alphabet(c)[(w[i] - 'a') * 26 + w[i + 1] - 'a']);
  return v;
}

string judge(const Key &k) {
  if (k[0] == "help") return help(num(k[1]), decode(num(k[1]), k[2]), k[3]);
  return run(num(k[1]), decode(num(k[1]), k[2]));
}

void enumerate(bool thorough, const std::function<void(const Key &)> &emit) {
  for (size_t c = 0; c < CONFIGS.size(); c++) {
    const size_t n = alphabet(c).size();
    std::function<void(string, int)> go = [&](string w, int left) {
      emit({"arguments", str(c), w});
      if (left)
        for (size_t i = 0; i < n; i++) go(w + char('a' + i / 26) + char('a' + i % 26), left - 1);
    };
    // every name after every short argument vector
    vector<string> names = {"all", "-h", "--help", "-x", "--unknown", "n", "-"};
    for (auto &x : CONFIGS[c]) { names.push_back(x.s); names.push_back(x.l); }
    std::function<void(string, int)> ask = [&](string w, int left) {
      for (auto &m : names) emit({"help", str(c), w, m});
      if (left)
        for (size_t i = 0; i < n; i++) ask(w + char('a' + i / 26) + char('a' + i % 26), left - 1);
    };
    ask("-", small ? 1 : 2);
    go("-", small ? 2 : (c == 0 || c == 4 ? 4 : 3) + thorough);
  }
}
}  // namespace diag
