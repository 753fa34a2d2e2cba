// C28: program options
#include <algorithm>
#include <iterator>
#include "LitlRun/ProgramOptions.h"
#include "util.hpp"
#include <memory>
using namespace Litl;

using Args = std::vector<std::string>;

struct Option28 {
  enum Kind { Positional, Named, Flag };
  Kind kind;
  std::string name; // Long
  std::string letter; // Short, or empty
  char type; // i(nteger), d(ouble), s(tring), m(ulti-token)
  std::string fallback; // Default value or empty

  std::string key() const {
    return letter.empty() ? name : name + "," + letter;
  }
};

template <typename T>
T parse28(const std::string& s) {
  std::istringstream iss(s);
  T t;
  iss >> t;
  return t;
}

void declare(ProgramOptions& po, const Option28& o) {
  const auto key = o.key(); // Released at the end of the function
  const char* k = key.c_str();
  const std::string about = "About " + o.name;
  const char* d = about.c_str();
  const bool fallback = !o.fallback.empty();
  if (o.kind == Option28::Flag) {
    po.flag(k, d);
  } else if (o.type == 'm') {
    auto value = boost::program_options::value<Args>()->multitoken();
    if (o.kind == Option28::Positional) {
      po.positional(k, value, d);
    } else {
      po.named(k, value, d);
    }
  } else if (o.kind == Option28::Positional) {
    switch (o.type) {
      case 'i':
        fallback ? po.positional(k, d, parse28<int>(o.fallback)) : po.positional<int>(k, d);
        break;
      case 'd':
        fallback ? po.positional(k, d, parse28<double>(o.fallback)) : po.positional<double>(k, d);
        break;
      default:
        fallback ? po.positional(k, d, o.fallback) : po.positional<std::string>(k, d);
    }
  } else {
    switch (o.type) {
      case 'i':
        fallback ? po.named(k, d, parse28<int>(o.fallback)) : po.named<int>(k, d);
        break;
      case 'd':
        fallback ? po.named(k, d, parse28<double>(o.fallback)) : po.named<double>(k, d);
        break;
      default:
        fallback ? po.named(k, d, o.fallback) : po.named<std::string>(k, d);
    }
  }
}

// Reference parser

enum class Status { Valid, Invalid, Unspecified };

struct Parsed28 {
  Status status;
  std::map<std::string, Args> values;
};

bool number(const std::string& s, char type) {
  const std::string digits = type == 'd' ? "0123456789." : "0123456789";
  const auto t = s.size() > 1 && s[0] == '-' ? s.substr(1) : s;
  return !t.empty() && t.find_first_not_of(digits) == std::string::npos;
}

Parsed28 reference(const std::vector<Option28>& options, const Args& args) {
  Parsed28 out {Status::Valid, {}};
  Args positionals;
  auto find = [&](const std::string& token) -> const Option28* { // Token is the option without value
    for (const auto& o : options) {
      if (token == "--" + o.name || (!o.letter.empty() && token == "-" + o.letter)) {
        return &o;
      }
    }
    return nullptr;
  };
  auto set = [&](const Option28& o, const std::string& value) {
    auto& v = out.values[o.name];
    if (!v.empty() && o.type != 'm') { // Multiple occurrences
      out.status = Status::Invalid;
    }
    if ((o.type == 'i' || o.type == 'd') && o.kind != Option28::Flag && !number(value, o.type)) {
      out.status = Status::Invalid;
    }
    v.push_back(value);
  };
  for (std::size_t i = 1; i < args.size(); ++i) {
    const auto& token = args[i];
    if (token == "--") {
      positionals.insert(positionals.end(), args.begin() + i + 1, args.end());
      break;
    }
    if (token[0] != '-') {
      positionals.push_back(token);
      continue;
    }
    const bool isLong = token[1] == '-';
    const auto equal = token.find('=');
    const auto name = isLong ? token.substr(0, equal) : token.substr(0, 2);
    const bool adjacent = isLong ? equal != std::string::npos : token.size() > 2;
    const auto* o = find(name);
    if (!o) {
      out.status = Status::Invalid;
      return out;
    }
    if (o->kind == Option28::Flag) {
      set(*o, "1");
    } else if (adjacent) {
      set(*o, token.substr(isLong ? equal + 1 : 2));
    } else {
      if (i + 1 == args.size()) { // Missing value
        out.status = Status::Invalid;
        return out;
      }
      ++i;
      if (args[i][0] == '-' && !number(args[i], 'd')) { // Looks like an option
        out.status = args[i] == "--" || o->type == 's' || o->type == 'm' ? Status::Unspecified : Status::Invalid;
        return out;
      }
      set(*o, args[i]);
    }
    if (o->type == 'm' && i + 1 < args.size() && args[i + 1] != "--" && (args[i + 1][0] != '-' || number(args[i + 1], 'd'))) { // Whose are the next ones?
      out.status = Status::Unspecified;
      return out;
    }
  }
  std::size_t used = 0;
  for (const auto& o : options) {
    if (o.kind == Option28::Positional) {
      while (used < positionals.size()) {
        set(o, positionals[used++]);
        if (o.type != 'm') {
          break;
        }
      }
    }
  }
  if (used < positionals.size()) {
    out.status = Status::Invalid;
  }
  for (const auto& o : options) {
    if (out.values.find(o.name) == out.values.end()) {
      if (o.kind == Option28::Flag) {
        out.values[o.name] = {"0"};
      } else if (!o.fallback.empty()) {
        out.values[o.name] = {o.fallback};
      }
    }
  }
  return out;
}

template <typename F>
bool throws28(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

void verify(mc::Ctx& c, const ProgramOptions& po, const std::vector<Option28>& options, const Parsed28& expected) {
  for (const auto& o : options) {
    const auto it = expected.values.find(o.name);
    const char* n = o.name.c_str();
    EXPECT(c, po.has(n) == (it != expected.values.end()), "option", o.name, "is set or not");
    const char type = o.kind == Option28::Flag ? 'b' : o.type;
    if (it == expected.values.end()) {
      EXPECT(c, throws28([&]() { po.as<int>(n); }) && throws28([&]() { po.as<std::string>(n); }), "unset option", o.name, "has a value");
      continue;
    }
    switch (type) {
      case 'b':
        EXPECT(c, po.as<bool>(n) == (it->second[0] == "1"), "flag", o.name, "is", po.as<bool>(n));
        break;
      case 'i':
        EXPECT(c, po.as<int>(n) == parse28<int>(it->second[0]), "option", o.name, "is", po.as<int>(n), "instead of", it->second);
        break;
      case 'd':
        EXPECT(c, po.as<double>(n) == parse28<double>(it->second[0]), "option", o.name, "is", po.as<double>(n), "instead of", it->second);
        break;
      case 's':
        EXPECT(c, po.as<std::string>(n) == it->second[0], "option", o.name, "is", po.as<std::string>(n), "instead of", it->second);
        break;
      default:
        EXPECT(c, po.as<Args>(n) == it->second, "option", o.name, "is", po.as<Args>(n), "instead of", it->second);
    }
    if (type != 'm') {
      EXPECT(c, throws28([&]() { po.as<Args>(n); }), "option", o.name, "read as something else");
    }
  }
  EXPECT(c, !po.has("undeclared") && throws28([&]() { po.as<int>("undeclared"); }), "undeclared option");
}

// Parse in a given way
void parse(ProgramOptions& po, const Args& args, int form) {
  switch (form) {
    case 0: {
      std::vector<const char*> cstr;
      for (const auto& a : args) {
        cstr.push_back(a.c_str());
      }
      cstr.push_back(nullptr);
      po.parse(int(args.size()), cstr.data());
      break;
    }
    case 1: {
      std::vector<const char*> cstr;
      for (const auto& a : args) {
        cstr.push_back(a.c_str());
      }
      po.parse(cstr);
      break;
    }
    case 2:
      po.parse(args);
      break;
    case 3: {
      std::string s;
      for (const auto& a : args) {
        s += (s.empty() ? "" : " ") + a;
      }
      po.parse(s);
      break;
    }
    default: {
      std::string s = "  ";
      for (const auto& a : args) {
        s += a + "   ";
      }
      po.parse(s);
    }
  }
}

void verifyAll(mc::Ctx& c, const ProgramOptions& po, const std::vector<Option28>& options, const Args& args, bool pair) {
  const auto expected = reference(options, args);
  if (expected.status == Status::Unspecified) {
    c.prune();
  }
  bool spaces = false;
  for (const auto& a : args) {
    spaces |= a.empty() || a.find_first_of(" \t\n") != std::string::npos; // Cannot be in a single string
  }
  for (int form = 0; form < (spaces ? 3 : 5); ++form) {
    auto copy = po;
    bool failed = false;
    try {
      parse(copy, args, form);
    } catch (const std::exception&) {
      failed = true;
    }
    EXPECT(c, failed == (expected.status == Status::Invalid), "form", form, failed ? ": valid arguments are rejected" : ": invalid arguments are accepted", args);
    if (!failed) {
      verify(c, copy, options, expected);
    }
    c.step();
  }
  if (pair && expected.status == Status::Valid) { // Using Boost
    const auto p = po.asPair();
    boost::program_options::variables_map vm;
    boost::program_options::store(boost::program_options::command_line_parser(Args(args.begin() + (args.empty() ? 0 : 1), args.end())).options(p.first).positional(p.second).run(), vm);
    for (const auto& o : options) {
      EXPECT(c, (vm.count(o.name) > 0) == (expected.values.find(o.name) != expected.values.end()), "option", o.name, "in pair");
    }
  }
  c.outcome(expected.values.size() * 2 + (expected.status == Status::Valid));
}

using O = Option28;

const std::vector<Option28>& declarations(int i) {
  static const std::vector<Option28> sets[] = {
      // Like the tests
      {{O::Positional, "positional", "", 'i', ""},
       {O::Positional, "positional-default", "", 'i', "7"},
       {O::Named, "named", "", 'i', ""},
       {O::Named, "named-short", "n", 'i', ""},
       {O::Named, "named-default", "d", 'i', "3"},
       {O::Flag, "flag", "", 'i', ""},
       {O::Flag, "flag-short", "f", 'i', ""}},
      // Other types and order
      {{O::Named, "str", "s", 's', ""},
       {O::Flag, "flag", "f", 'i', ""},
       {O::Positional, "first", "", 's', "none"},
       {O::Named, "dbl", "d", 'd', "1.5"},
       {O::Positional, "rest", "", 'm', ""}},
      // No positional
      {{O::Flag, "verb", "", 'i', ""}, {O::Flag, "verbose", "v", 'i', ""}, {O::Named, "level", "l", 's', "low"}, {O::Named, "size", "", 'd', ""}, {O::Named, "list", "", 'm', ""}},
      // Nothing
      {}};
  return sets[i];
}

const std::vector<Args>& alphabet(int i) {
  static const std::vector<Args> tokens[] = {
      {{"1"}, {"x"}, {"--named"}, {"--named=2"}, {"-n"}, {"-n3"}, {"-d"}, {"-4"}, {"--flag"}, {"-f"}, {"--bad"}, {"--"}, {"--positional=5"}, {"--named-default", "8"}},
      {{"a"}, {"2.5"}, {"b c"}, {"--str"}, {"--str=z=y"}, {"-sq"}, {"--dbl"}, {"-d-1"}, {"-f"}, {"--flag"}, {"--"}, {"--bad=1"}},
      {{"a"}, {"1"}, {"--verb"}, {"--verbose"}, {"-v"}, {"--level"}, {"-l"}, {"--size=x"}, {"--size=.5"}, {"--list"}, {"--list=u"}, {"-x"}},
      {{"a"}, {"--a"}, {"-a"}, {"--"}}};
  return tokens[i];
}

SCENARIO(lines) {
  const int set = c.pick(4);
  const int n = c.range(0, c.tier(4, 5));
  Args args;
  if (n >= 0) {
    args.push_back(c.of<std::string>({"exe", "some/--path"}));
  }
  const auto& tokens = alphabet(set);
  for (int i = 0; i < n; ++i) {
    for (const auto& t : tokens[c.pick(tokens.size())]) {
      args.push_back(t);
    }
    if (i == 0) {
      c.shard();
    }
  }
  c.note("declarations ", set, " arguments ", args);
  ProgramOptions po("Description");
  for (const auto& o : declarations(set)) {
    declare(po, o);
  }
  verifyAll(c, po, declarations(set), args, true);
}

// Any text as value: empty, with separators, quotes, non-ASCII characters...
SCENARIO(texts) {
  const std::vector<std::string> values {"", "a=b", "=", "it's", "\"quoted\"", "a\\b\\", "\xc3\xa9", "#1", "a,b", "@file", "a\tb", "two\nlines", "$HOME", "*", "%d", "a-b", std::string(300, 'x')};
  const int n = c.range(1, c.tier(2, 3));
  Args args {"exe"};
  for (int i = 0; i < n; ++i) {
    const auto v = c.of(values);
    if (i == 0) {
      c.shard();
    }
    switch (c.pick(5)) {
      case 0:
        args.push_back(v);
        break;
      case 1:
        args.push_back("--str");
        args.push_back(v);
        break;
      case 2:
      case 3:
        if (v.empty()) { // Another option then, depending on Boost
          c.prune();
        }
        args.push_back((c.flip() ? "--str=" : "-s") + v);
        break;
      default:
        args.push_back("--");
        args.push_back(v);
    }
    if (c.flip()) {
      args.push_back("-f");
    }
  }
  c.note("arguments ", args);
  ProgramOptions po("Description");
  for (const auto& o : declarations(1)) {
    declare(po, o);
  }
  verifyAll(c, po, declarations(1), args, true);
}

// Any combination of declarations
SCENARIO(subsets) {
  std::vector<Option28> options;
  ProgramOptions po;
  const Option28 all[] = {{O::Named, "a", "", 'i', "2"}, {O::Positional, "p", "", 'i', ""}, {O::Flag, "b", "c", 'i', ""}, {O::Positional, "q", "", 's', "def"}, {O::Named, "d", "e", 'd', ""}};
  const int rotation = c.pick(5);
  for (int i = 0; i < 5; ++i) {
    if (c.flip()) {
      options.push_back(all[(i + rotation) % 5]);
      declare(po, options.back());
      c.note("declare ", options.back().name);
    }
  }
  c.shard();
  Args args {"exe"};
  const int n = c.range(0, c.tier(3, 4));
  for (int i = 0; i < n; ++i) {
    args.push_back(c.of<std::string>({"1", "--a=3", "--b", "-c", "--d", "-e4"}));
  }
  c.note("arguments ", args);
  verifyAll(c, po, options, args, true);
}

// Many values
SCENARIO(many) {
  const int set = c.of({1, 2});
  const int n = c.of({5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000});
  const int flags = c.pick(3); // Before, in the middle, after
  c.shard();
  Args args {"exe"};
  if (set == 2) {
    args.push_back("--list");
  }
  for (int i = 0; i < n; ++i) {
    if (set == 1 && (flags == 0 ? i == 0 : flags == 1 ? i == n / 2 : false)) {
      args.push_back("-f");
    }
    args.push_back(i % 3 ? "value" + std::to_string(i) : std::string(i % 70 + 1, char('a' + i % 26)));
  }
  if (flags == 2) {
    args.push_back(set == 1 ? "--flag" : "--verb");
  }
  c.note("declarations ", set, " values ", n);
  ProgramOptions po("Description");
  for (const auto& o : declarations(set)) {
    declare(po, o);
  }
  for (int form = 0; form < 5; ++form) {
    auto copy = po;
    try {
      parse(copy, args, form);
    } catch (const std::exception& e) {
      EXPECT(c, false, "form", form, "valid arguments are rejected:", e.what());
    }
    Args values(args.begin() + 1, args.end());
    values.erase(std::remove_if(values.begin(), values.end(), [](const auto& e) {
      return e[0] == '-';
    }), values.end());
    if (set == 1) {
      EXPECT(c, copy.as<std::string>("first") == values[0], "first value is", copy.as<std::string>("first"));
      values.erase(values.begin());
    }
    const auto got = copy.as<Args>(set == 1 ? "rest" : "list");
    EXPECT_EQ(c, got, values);
    if (set == 1) {
      EXPECT(c, copy.as<bool>("flag"));
    } else {
      EXPECT(c, copy.as<bool>("verb") == (flags == 2));
    }
    c.step();
  }
  c.outcome(n);
}

// Copies and destruction
SCENARIO(histories) {
  std::unique_ptr<ProgramOptions> objects[2] = {std::unique_ptr<ProgramOptions>(new ProgramOptions("One")), nullptr};
  std::vector<Option28> models[2];
  const Option28 all[] = {{O::Positional, "p", "", 'i', ""}, {O::Named, "a", "", 'i', "2"}, {O::Flag, "b", "c", 'i', ""}};
  const int length = c.tier(5, 6);
  for (int i = 0; i < length; ++i) {
    const int k = c.pick(2);
    const int op = c.pick(5);
    if (i == 1) {
      c.shard();
    }
    if (op < 3) { // Declare
      for (const auto& o : models[k]) {
        if (o.name == all[op].name) {
          c.prune();
        }
      }
      if (!objects[k]) {
        c.prune();
      }
      c.note("declare ", all[op].name, " in ", k);
      declare(*objects[k], all[op]);
      models[k].push_back(all[op]);
    } else if (op == 3) {
      if (!objects[1 - k]) {
        c.prune();
      }
      c.note("copy to ", k);
      objects[k].reset(new ProgramOptions(*objects[1 - k]));
      models[k] = models[1 - k];
    } else {
      if (!objects[k]) {
        c.prune();
      }
      c.note("destroy ", k);
      objects[k].reset();
      models[k].clear();
    }
    for (int j = 0; j < 2; ++j) {
      if (objects[j]) {
        for (const auto& args : {Args {"exe"}, Args {"exe", "1"}, Args {"exe", "--a", "5"}, Args {"exe", "-c"}}) {
          const auto expected = reference(models[j], args);
          auto copy = *objects[j];
          const bool failed = throws28([&]() {
            copy.parse(args);
          });
          EXPECT(c, failed == (expected.status == Status::Invalid), "arguments", args, failed ? "rejected" : "accepted", "by object", j);
          if (!failed) {
            verify(c, copy, models[j], expected);
          }
          c.step();
        }
      }
    }
  }
  c.outcome(models[0].size() * 4 + models[1].size());
}

// Custom semantics: required, stored in variables, notified, with implicit values, composed
SCENARIO(semantics) {
  namespace bpo = boost::program_options;
  const bool required = c.flip();
  const bool positional = c.flip(); // The required one
  const int n = c.range(0, c.tier(4, 5));
  Args args {"exe"};
  for (int i = 0; i < n; ++i) {
    args.push_back(c.of<std::string>({"--req=1", "--var=3", "--imp", "--imp=5", "--many=u", "--many=w", "7", "--def=8"}));
    if (i == 0) {
      c.shard();
    }
  }
  c.note(required ? "required " : "", positional ? "positional " : "", args);
  // Expectation
  auto last = [&](const std::string& name) {
    std::string out;
    int count = 0;
    for (const auto& a : args) {
      if (a.compare(0, name.size(), name) == 0) {
        out = a.size() > name.size() ? a.substr(name.size() + 1) : "9";
        ++count;
      }
    }
    return std::make_pair(count, out);
  };
  auto req = last("--req");
  const int sevens = int(std::count(args.begin(), args.end(), "7"));
  bool valid = sevens == 0 || positional;
  if (positional) {
    req = {req.first + sevens, req.first ? req.second : "7"};
  }
  const auto var = last("--var"), imp = last("--imp"), def = last("--def");
  bool ambiguous = imp.first > 1; // Boost accepts some
  for (std::size_t i = 1; i < args.size(); ++i) {
    ambiguous = ambiguous || (args[i - 1] == "--imp" && args[i] == "7");
  }
  if (ambiguous) {
    c.prune();
  }
  Args many;
  for (const auto& a : args) {
    if (a.compare(0, 7, "--many=") == 0) {
      many.push_back(a.substr(7));
    }
  }
  valid = valid && req.first <= 1 && var.first <= 1 && imp.first <= 1 && def.first <= 1 && (!required || req.first);
  for (int form = 0; form < 5; ++form) {
    int variable = -1, stored = -1;
    std::vector<int> notified;
    ProgramOptions po;
    auto* semantics = bpo::value<int>();
    if (required) {
      semantics->required();
    }
    if (positional) {
      po.positional("req", semantics, "Required");
    } else {
      po.named("req", semantics, "Required");
    }
    po.named("var", bpo::value<int>(&variable), "Variable");
    po.named("imp,i", bpo::value<int>()->implicit_value(9), "Implicit");
    po.named("many", bpo::value<Args>()->composing(), "Composed");
    po.named("def", bpo::value<int>(&stored)->default_value(4)->notifier([&](int v) {
      notified.push_back(v);
    }), "Default");
    bool failed = false;
    try {
      parse(po, args, form);
    } catch (const std::exception&) {
      failed = true;
    }
    EXPECT(c, failed == !valid, "form", form, failed ? ": valid arguments are rejected" : ": invalid arguments are accepted", args);
    if (!failed) {
      EXPECT(c, po.has("req") == (req.first > 0) && po.has("var") == (var.first > 0) && po.has("imp") == (imp.first > 0) && po.has("many") == !many.empty() && po.has("def"), "set options");
      EXPECT(c, !req.first || po.as<int>("req") == parse28<int>(req.second), "required option");
      EXPECT(c, !var.first || po.as<int>("var") == 3, "option stored in a variable");
      EXPECT(c, variable == (var.first ? 3 : -1), "variable is", variable);
      EXPECT(c, !imp.first || po.as<int>("imp") == parse28<int>(imp.second), "option with an implicit value");
      EXPECT(c, many.empty() || po.as<Args>("many") == many, "composed option");
      const int d = def.first ? 8 : 4;
      EXPECT(c, po.as<int>("def") == d && stored == d, "default and variable", stored);
      EXPECT(c, notified == std::vector<int> {d}, "notified", notified);
    }
    c.step();
  }
  c.outcome(valid);
}
