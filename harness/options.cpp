// Command lines (C24): random declarations, command lines in several spellings, copies, repeated parses.
#include "trace.h"
#include "LitlRun/ProgramOptions.h"
#include <memory>
using namespace Litl;
namespace po = boost::program_options;
typedef std::vector<std::string> VS;
static vt::Rng* rng;

struct Decl {
  std::string name, kind, type, def, imp;
  char shortName;
};
struct Tok {
  std::string t;
  int o;
  std::string v;
};

template <typename T>
T parseAs(const std::string& t) {
  T v;
  std::istringstream is(t);
  is >> v;
  return v;
}
template <>
bool parseAs<bool>(const std::string& t) {
  return t == "1" || t == "true" || t == "yes" || t == "on";
}
template <>
std::string parseAs<std::string>(const std::string& t) {
  return t;
}
template <typename T>
std::string text(const T& v) {
  std::ostringstream os;
  os << v;
  return os.str();
}

struct Slot {
  std::unique_ptr<ProgramOptions> po;
  std::vector<Decl> ds;
  std::string about;
};

template <typename T>
struct Typed {
  static void declare(ProgramOptions& p, const Decl& d) {
    const std::string full = d.shortName ? d.name + "," + d.shortName : d.name;
    const char* desc = "Some option";
    const bool tpl = rng->coin();
    if (d.kind == "pos") {
      if (d.def == "none") {
        tpl ? p.positional<T>(d.name.c_str(), desc) : p.positional(d.name.c_str(), po::value<T>(), desc);
      } else {
        tpl ? p.positional<T>(d.name.c_str(), desc, parseAs<T>(d.def)) :
              p.positional(d.name.c_str(), po::value<T>()->default_value(parseAs<T>(d.def)), desc);
      }
    } else if (d.kind == "posmulti") {
      p.positional(d.name.c_str(), po::value<std::vector<T>>()->multitoken(), desc);
    } else if (d.kind == "named") {
      if (d.def == "none") {
        tpl ? p.named<T>(full.c_str(), desc) : p.named(full.c_str(), po::value<T>(), desc);
      } else {
        tpl ? p.named<T>(full.c_str(), desc, parseAs<T>(d.def)) :
              p.named(full.c_str(), po::value<T>()->default_value(parseAs<T>(d.def)), desc);
      }
    } else if (d.kind == "required") {
      p.named(full.c_str(), po::value<T>()->required(), desc);
    } else if (d.kind == "implicit") {
      p.named(full.c_str(), po::value<T>()->default_value(parseAs<T>(d.def))->implicit_value(parseAs<T>(d.imp)), desc);
    } else if (d.kind == "multi") {
      p.named(full.c_str(), po::value<std::vector<T>>()->multitoken(), desc);
    } else {
      p.flag(full.c_str(), desc);
    }
  }
  static VS read(const ProgramOptions& p, const Decl& d) {
    VS out;
    if (!p.has(d.name.c_str())) {
      return out;
    }
    if (d.kind == "multi" || d.kind == "posmulti") {
      for (const auto& e : p.as<std::vector<T>>(d.name.c_str())) {
        out.push_back(text(T(e)));
      }
    } else {
      out.push_back(text(p.as<T>(d.name.c_str())));
    }
    return out;
  }
  static VS readMap(const po::variables_map& p, const Decl& d) {
    VS out;
    if (!p.count(d.name)) {
      return out;
    }
    if (d.kind == "multi" || d.kind == "posmulti") {
      for (const auto& e : p[d.name].as<std::vector<T>>()) {
        out.push_back(text(T(e)));
      }
    } else {
      out.push_back(text(p[d.name].as<T>()));
    }
    return out;
  }
};
#define DISPATCH(TYPE, CALL) \
  ((TYPE) == "int"    ? Typed<int>::CALL : \
   (TYPE) == "double" ? Typed<double>::CALL : \
   (TYPE) == "bool"   ? Typed<bool>::CALL : \
   (TYPE) == "char"   ? Typed<char>::CALL : \
   (TYPE) == "uint"   ? Typed<unsigned>::CALL : \
                        Typed<std::string>::CALL)

static const VS types {"int", "double", "bool", "char", "uint", "string"};
static VS good(const std::string& t) {
  return t == "int" ? VS {"0", "1", "-5", "42", "123456"} :
      t == "double" ? VS {"0", "1", "-5", "42", "1.5", "-2.25", "1e3"} :
      t == "bool"   ? VS {"0", "1", "true", "false", "yes", "no", "on", "off"} :
      t == "char"   ? VS {"0", "1", "x"} :
      t == "uint"   ? VS {"0", "1", "42", "123456"} :
                      VS {"0", "1", "-5", "42", "1.5", "true", "off", "x", "abc", "k=v", "a:b", "two words", "3z"};
}
static std::string pick(const VS& v) {
  return v[rng->in(0, v.size() - 1)];
}
static std::string value(const std::string& t) {
  if (rng->coin(1, 25)) {
    return t == "string" ? "abc" : "3z";
  }
  return pick(good(t));
}

static void obs(int s, const Slot& x) {
  const auto& p = *x.po;
  std::vector<long> has;
  std::string vals = "[";
  bool wrong = true;
  for (std::size_t o = 0; o < x.ds.size(); ++o) {
    const auto& d = x.ds[o];
    has.push_back(p.has(d.name.c_str()));
    const auto v = DISPATCH(d.type, read(p, d));
    vals += (o ? ",[" : "[");
    for (std::size_t i = 0; i < v.size(); ++i) {
      vals += (i ? ",\"" : "\"") + v[i] + "\"";
    }
    vals += "]";
    // Unset, or not of this type
    bool threw = false;
    try {
      p.as<std::vector<float>>(d.name.c_str());
    } catch (std::exception&) {
      threw = true;
    }
    wrong &= threw;
    if (!has.back()) {
      threw = false;
      try {
        d.type == "int" ? (void)p.as<int>(d.name.c_str()) : (void)p.as<std::string>(d.name.c_str());
      } catch (std::exception&) {
        threw = true;
      }
      wrong &= threw;
    }
  }
  bool threw = false;
  try {
    p.as<int>("undeclared");
  } catch (std::exception&) {
    threw = true;
  }
  wrong &= threw;
  vt::Ev("obs").n("s", s).a("has", has).raw("vals", vals + "]").b("ghost", p.has("undeclared")).b("wrong", wrong).log();
}

/// What the user is told: the description and every option
static void help(int s, const Slot& x) {
  std::ostringstream os;
  os << x.po->asPair().first;
  const auto text = os.str();
  const std::string group = "Options:";
  const auto at = text.find(group);
  std::vector<long> listed;
  for (const auto& d : x.ds) {
    const auto found = text.find("--" + d.name, at);
    listed.push_back(found != std::string::npos && text.find("Some option", found) != std::string::npos);
  }
  VS lines;
  std::istringstream is(text.substr(0, at == std::string::npos ? 0 : at + group.size()));
  for (std::string line; std::getline(is, line);) {
    lines.push_back(line);
  }
  vt::Ev("help").n("s", s).s("about", x.about).sa("lines", lines).a("listed", listed).log();
}

static std::vector<Tok> tokens(const Slot& x) {
  std::vector<Tok> out;
  const int n = int(rng->coin(1, 16) ? rng->in(20, 110) : rng->in(0, 7));
  const bool careful = rng->coin(3, 4); // Mostly valid command lines
  std::vector<int> used(x.ds.size(), 0);
  VS posTypes;
  bool posmulti = false;
  for (const auto& d : x.ds) {
    if (d.kind == "pos") {
      posTypes.push_back(d.type);
    } else if (d.kind == "posmulti") {
      posTypes.push_back(d.type);
      posmulti = true;
    }
  }
  std::size_t npos = 0;
  bool sep = false;
  std::string open; // Type of the open list
  if (careful) {
    for (std::size_t o = 0; o < x.ds.size(); ++o) {
      if (x.ds[o].kind == "required") {
        out.push_back({"val", int(o + 1), value(x.ds[o].type)});
        used[o] = 1;
      }
    }
  }
  for (int i = 0; i < n; ++i) {
    const long c = rng->in(0, 99);
    const bool bareImplicit = !out.empty() && out.back().t == "bare";
    if (sep || c < 45) {
      // Positional (or element of the open list)
      if (bareImplicit && x.ds[out.back().o - 1].kind != "flag") {
        continue; // An option with implicit value would take it
      }
      std::string t = "string";
      if (!open.empty() && !sep) {
        t = open;
      } else if (npos < posTypes.size()) {
        t = posTypes[npos];
      } else if (posmulti) {
        t = posTypes.back();
      } else if (careful) {
        continue;
      }
      auto v = value(t);
      if (v[0] == '-' && !sep) {
        v = "0";
      }
      out.push_back({"pos", 0, v});
      if (open.empty() || sep) {
        ++npos;
      }
    } else if (c < 50) {
      out.push_back({"sep", 0, ""});
      sep = true;
      open = "";
    } else if (c < 52 && !careful) {
      out.push_back({"unknown", 0, rng->coin() ? "zz" : "z1"});
      open = "";
      // What follows could be its value
      break;
    } else if (!x.ds.empty()) {
      const int o = int(rng->in(0, x.ds.size() - 1));
      const auto& d = x.ds[o];
      const bool multi = d.kind == "multi" || d.kind == "posmulti";
      if (careful && ((used[o] && !multi) || (d.kind[0] == 'p' && rng->coin(2, 3)))) {
        continue;
      }
      if ((d.kind == "flag" || d.kind == "implicit") && used[o]) {
        continue; // Nothing is said of repeated options without value
      }
      ++used[o];
      if (d.kind == "flag") {
        out.push_back({!careful && rng->coin(1, 8) ? "val" : "bare", o + 1, "1"});
        open = "";
      } else if (d.kind == "implicit" && rng->coin()) {
        out.push_back({"bare", o + 1, ""});
        open = "";
      } else {
        out.push_back({"val", o + 1, value(d.type)});
        open = multi ? d.type : "";
      }
    }
  }
  if (!careful && !sep && rng->coin(1, 12)) {
    for (std::size_t o = 0; o < x.ds.size(); ++o) {
      if (x.ds[o].kind == "named") {
        out.push_back({"bare", int(o + 1), ""}); // Without its value
        break;
      }
    }
  }
  return out;
}

static VS render(const Slot& x, const std::vector<Tok>& ts) {
  VS args {"program"};
  for (const auto& t : ts) {
    if (t.t == "pos") {
      args.push_back(t.v);
    } else if (t.t == "sep") {
      args.push_back("--");
    } else if (t.t == "unknown") {
      args.push_back("--" + t.v);
    } else {
      const auto& d = x.ds[t.o - 1];
      const bool sh = d.shortName && rng->coin();
      const std::string key = sh ? std::string("-") + d.shortName : "--" + d.name;
      if (t.t == "bare") {
        args.push_back(key);
      } else if (d.kind == "flag") {
        args.push_back("--" + d.name + "=" + t.v);
      } else if (d.kind == "implicit" || rng->coin()) {
        args.push_back(sh ? key + t.v : key + "=" + t.v);
      } else {
        args.push_back(key);
        args.push_back(t.v);
      }
    }
  }
  return args;
}

int main(int argc, char** argv) {
  const auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 1000 + a.part);
  rng = &r;
  Slot slots[3];
  const int rounds = a.thorough ? 1500 : 220;
  for (int k = 0; k < rounds; ++k) {
    const int s = int(r.in(0, 2));
    auto& x = slots[s];
    const auto declare = [&](int sl, bool first) {
      auto& y = slots[sl];
      static const char* names[] = {"alpha", "beta", "gamma", "delta", "epsilon", "kappa", "lambda", "omega", "rho", "tau", "b-c", "x_y"};
      std::string name;
      for (int tries = 0; tries < 20; ++tries) {
        name = names[r.in(0, 11)];
        bool taken = false;
        for (const auto& d : y.ds) {
          taken |= d.name == name;
        }
        if (!taken) {
          break;
        }
        name = "";
      }
      if (name.empty()) {
        return;
      }
      Decl d;
      d.name = name;
      const char* kinds[] = {"pos", "pos", "named", "named", "named", "required", "implicit", "multi", "flag", "flag", "posmulti"};
      d.kind = kinds[r.in(0, 10)];
      if (!first && d.kind == "required") {
        d.kind = "named";
      }
      for (const auto& e : y.ds) {
        if (e.kind == "posmulti" && (d.kind == "pos" || d.kind == "posmulti")) {
          d.kind = "named";
        }
      }
      d.type = d.kind == "flag" ? "bool" : pick(types);
      d.def = "none";
      d.imp = "none";
      if (((d.kind == "pos" || d.kind == "named") && r.coin()) || d.kind == "implicit") {
        d.def = pick(good(d.type));
      }
      if (d.kind == "implicit") {
        d.imp = pick(good(d.type));
      }
      d.shortName = 0;
      if (d.kind[0] != 'p' && r.coin()) {
        bool taken = false;
        for (const auto& e : y.ds) {
          taken |= e.shortName == name[0];
        }
        d.shortName = taken ? 0 : name[0];
      }
      DISPATCH(d.type, declare(*y.po, d));
      y.ds.push_back(d);
      vt::Ev("declare").n("s", sl).s("name", d.name).s("kind", d.kind).s("type", d.type).s("def", d.def).s("imp", d.imp).log();
    };
    const long c = r.in(0, 9);
    if (!x.po || c == 0) {
      x.about = r.coin() ? "" : r.coin() ? "Some program" : "Does " + std::string(r.in(1, 120), 'x') + ".";
      x.po.reset(x.about.empty() && r.coin() ? new ProgramOptions() : new ProgramOptions(x.about));
      x.ds.clear();
      vt::Ev("new").n("s", s).log();
      const int n = int(r.in(1, 6));
      for (int i = 0; i < n; ++i) {
        declare(s, true);
      }
    } else if (c == 1) {
      const int from = int(r.in(0, 2));
      if (from == s || !slots[from].po) {
        continue;
      }
      x.po.reset(new ProgramOptions(*slots[from].po));
      x.ds = slots[from].ds;
      x.about = slots[from].about;
      vt::Ev("copy").n("from", from).n("to", s).log();
      // Either of them goes on
      if (r.coin()) {
        declare(r.coin() ? s : from, false);
        // Values are said again after parsing
      }
      obs(s, x);
      obs(from, slots[from]);
      continue;
    }
    if (r.coin(1, 3)) {
      help(s, x);
    }
    const auto ts = tokens(x);
    const auto args = render(x, ts);
    std::string js = "[";
    for (std::size_t i = 0; i < ts.size(); ++i) {
      js += (i ? "," : "") + std::string("{\"t\":\"") + ts[i].t + "\",\"o\":" + std::to_string(ts[i].o) + ",\"v\":\"" + ts[i].v + "\"}";
    }
    js += "]";
    std::vector<const char*> cargs;
    bool spaces = false;
    std::string line;
    for (const auto& g : args) {
      cargs.push_back(g.c_str());
      spaces |= g.find(' ') != std::string::npos;
      line += g + (r.coin(1, 4) ? "  " : r.coin(1, 6) ? "\t" : r.coin(1, 8) ? "\n" : " ");
    }
    if (r.coin(1, 4)) {
      const auto pair = x.po->asPair();
      po::variables_map m;
      bool threw = false;
      try {
        po::store(po::command_line_parser(int(cargs.size()), cargs.data()).options(pair.first).positional(pair.second).run(), m);
        po::notify(m);
      } catch (std::exception&) {
        threw = true;
      }
      std::string vals = "[";
      if (!threw) {
        for (std::size_t o = 0; o < x.ds.size(); ++o) {
          const auto& d = x.ds[o];
          const auto v = DISPATCH(d.type, readMap(m, d));
          vals += (o ? ",[" : "[");
          for (std::size_t i = 0; i < v.size(); ++i) {
            vals += (i ? ",\"" : "\"") + v[i] + "\"";
          }
          vals += "]";
        }
      }
      vt::Ev("pair").n("s", s).raw("toks", js).b("threw", threw).raw("vals", vals + "]").log();
      obs(s, x);
      continue;
    }
    bool threw = false;
    int how = int(r.in(0, 3));
    if (how == 3 && spaces) {
      how = 2;
    }
    try {
      if (how == 0) {
        x.po->parse(int(cargs.size()), cargs.data());
      } else if (how == 1) {
        x.po->parse(cargs);
      } else if (how == 2) {
        x.po->parse(args);
      } else {
        x.po->parse(line);
      }
    } catch (std::exception& e) {
      threw = true;
    }
    vt::Ev("parse").n("s", s).n("how", how).raw("toks", js).b("threw", threw).log();
    obs(s, x);
    if (r.coin(1, 4)) {
      const int o = int(r.in(0, 2));
      if (slots[o].po) {
        obs(o, slots[o]);
      }
    }
  }
  return vt::close();
}
