// Options: every short sequence of options-file lines and Set*Value calls against a reference table with the documented
// precedence (file over run time), validity and consistency rules; file syntax; enumeration of every value of every option.
#include "mc.hpp"
#include "hiopOptions.hpp"
#include "hiopLogger.hpp"
#include "hiop_defs.hpp"
#include <map>
#include <climits>
#include <cerrno>
#include <memory>
#include <algorithm>
#include <unistd.h>
using namespace hiop;
using namespace mc;
using std::string; using std::vector; using std::map;

static string low(string s) { for(char& c : s) c = (char)tolower((unsigned char)c); return s; }

// ---- the implementation, with its table made visible
struct Entry {
  char type = '?'; double num = 0, nlo = 0, nup = 0; long in = 0, ilo = 0, iup = 0; string st; vector<string> range; bool user = false;
  string val() const { return type == 'n' ? str(num) : type == 'i' ? str(in) : st; }
};
typedef map<string, Entry> Table;
template<class B> struct Seen : B {
  Seen(const char* f) : B(f) {}
  Table table()
  {
    Table t;
    for(auto& p : this->mOptions_) {
      Entry e;
      if(auto* o = dynamic_cast<typename B::OptionNum*>(p.second)) { e.type = 'n'; e.num = o->val; e.nlo = o->lb; e.nup = o->ub; }
      else if(auto* q = dynamic_cast<typename B::OptionInt*>(p.second)) { e.type = 'i'; e.in = q->val; e.ilo = q->lb; e.iup = q->ub; }
      else if(auto* r = dynamic_cast<typename B::OptionStr*>(p.second)) { e.type = 's'; e.st = r->val; e.range = r->range; }
      e.user = this->is_user_defined(p.first.c_str());
      t[p.first] = e;
    }
    return t;
  }
};
typedef Seen<hiopOptionsNLP> NLP; typedef Seen<hiopOptionsPriDec> PRI;

// ---- one user action
struct Act { bool file; char type; string name, text; double d = 0; int i = 0;
  string show() const { return cat(file ? "file{" : "set{", name, " ", text, file ? "}" : cat(":", type, "}")); } };
static Act line(const string& n, const string& v) { return Act{true, 'f', n, v}; }
static Act setn(const string& n, double v) { Act a{false, 'n', n, str(v)}; a.d = v; return a; }
static Act seti(const string& n, int v) { Act a{false, 'i', n, str(v)}; a.i = v; return a; }
static Act sets(const string& n, const string& v) { return Act{false, 's', n, v}; }

// ---- the reference
struct Ref {
  bool nlp; map<string, bool> inFile, atRun; Table t;
  bool user(const string& n) const { auto a = inFile.find(n), b = atRun.find(n); return (a != inFile.end() && a->second) || (b != atRun.end() && b->second); }
  string& S(const char* n) { return t[n].st; }
  double& N(const char* n) { return t[n].num; }
  void rules()
  {
    for(const char* n : {"acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol"})
      if(t.count(n) && user(n) && N(n) < N("tolerance")) N(n) = N("tolerance");
    if(!nlp) return;
    if(S("Hessian") == "quasinewton_approx" && user("Hessian") && (S("KKTLinsys") == "xycyd" || S("KKTLinsys") == "xdycyd" || S("KKTLinsys") == "full" || S("KKTLinsys") == "normaleqn")) S("KKTLinsys") = "auto";
    if(S("Hessian") == "analytical_exact") S("duals_update_type") = "linear";
    string& sp = S("linear_solver_sparse");
    if(S("KKTLinsys") == "full" && sp != "resolve" && sp != "pardiso" && sp != "strumpack") sp = "auto";
    if(S("KKTLinsys") == "condensed" && sp != "cusolver-chol") sp = "auto";
    bool inertia_free = sp == "strumpack";                    // resolve needs CUDA
    if(sp == "resolve" || sp == "cusolver-chol") sp = "auto"; // no CUDA
    S("compute_mode") = "cpu"; S("mem_space") = "default"; S("callback_mem_space") = "default"; // no RAJA, no GPU
    if(S("KKTLinsys") == "full" || inertia_free) S("fact_acceptor") = "inertia_free";
    if(N("moving_lim_rel") != 0 && N("moving_lim_abs") != 0) N("moving_lim_rel") = 0;
    bool chk = false; static const char* C[] = {"checkpoint_save", "checkpoint_save_every_N_iter", "checkpoint_file", "checkpoint_load_on_start"};
    for(auto* n : C) chk = chk || user(n);
    if(chk) { for(auto* n : C) inFile[n] = atRun[n] = false; S("checkpoint_save") = S("checkpoint_load_on_start") = "no"; }   // not available without Axom: treated as never set
  }
  // the value handed over is of the option's type already; returns nothing: invalid values leave the old one
  void set(const Act& a, bool file)
  {
    auto it = t.find(a.name); if(it == t.end()) return; Entry& e = it->second;
    if(a.type != e.type) return;
    if(inFile[a.name] && !file) return;
    (file ? inFile : atRun)[a.name] = true;
    if(e.type == 'n') { if(a.d >= e.nlo && a.d <= e.nup) e.num = a.d; }
    else if(e.type == 'i') { if(a.i >= e.ilo && a.i <= e.iup) e.in = a.i; }
    else if(e.range.empty()) e.st = a.text;
    else { string v = low(a.text); if(std::find(e.range.begin(), e.range.end(), v) != e.range.end()) e.st = v; }
  }
  void file_line(const string& l)
  {
    std::istringstream s(l); string n, v; if(!(s >> n) || n[0] == '#' || !(s >> v)) return;
    auto it = t.find(n); if(it == t.end()) return;
    Act a{true, it->second.type, n, v}; const char* b = v.c_str(); char* e = nullptr;
    if(a.type == 'n') { if(!(isdigit(b[0]) || strchr("+-.", b[0]))) return; a.d = strtod(b, &e); if(*e || e == b || !std::isfinite(a.d) || strpbrk(b, "xXnNfF")) return; }
    if(a.type == 'i') { errno = 0; long q = strtol(b, &e, 10); if(*e || e == b || q != (int)q) return; a.i = (int)q; }
    set(a, true);
  }
};
static string first_difference(const Table& a, Ref& r)
{
  if(a.size() != r.t.size()) return "number of options";
  for(auto& p : a) {
    const Entry& x = p.second; const Entry& y = r.t[p.first];
    if(x.val() != y.val()) return cat(p.first, " is '", x.val(), "', expected '", y.val(), "'");
    if(x.user != r.user(p.first)) return cat(p.first, x.user ? " counts as set by the user, it was not" : " does not count as set by the user");
  }
  return "";
}
// what must hold in any history, whatever moved a value
static string rule_broken(const Table& a, bool nlp)
{
  auto N = [&](const char* n) { return a.at(n).num; }; auto S = [&](const char* n) { return a.at(n).st; };
  for(auto& p : a) { auto& e = p.second;
    if(e.type == 'n' && !(e.num >= e.nlo && e.num <= e.nup)) return p.first + " out of its range";
    if(e.type == 'i' && !(e.in >= e.ilo && e.in <= e.iup)) return p.first + " out of its range";
    if(e.type == 's' && !e.range.empty() && std::find(e.range.begin(), e.range.end(), e.st) == e.range.end()) return p.first + "=" + e.st + " is not one of its values"; }
  for(const char* n : {"acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol"})
    if(a.count(n) && a.at(n).user && N(n) < N("tolerance")) return cat(n, " tighter than tolerance");
  if(!nlp) return "";
  if(S("Hessian") == "analytical_exact" && S("duals_update_type") != "linear") return "duals_update_type with Hessian=analytical_exact";
  if(S("KKTLinsys") == "full" && S("fact_acceptor") != "inertia_free") return "KKTLinsys=full with inertia_correction";
  if(S("KKTLinsys") == "full" && a.at("Hessian").user && S("Hessian") == "quasinewton_approx") return "KKTLinsys=full with a quasi-Newton Hessian";
  if(N("moving_lim_rel") != 0 && N("moving_lim_abs") != 0) return "both moving limits active";
  if(S("compute_mode") != "cpu") return "compute_mode without GPU support";
  if(S("linear_solver_sparse") == "resolve" || S("linear_solver_sparse") == "cusolver-chol") return "CUDA solver without CUDA";
  return "";
}
static const char* FN = "o01.options";
static void write_file(const vector<string>& lines, bool last_newline = true)
{
  FILE* f = fopen(FN, "w"); if(!f) { perror(FN); _exit(3); }
  for(size_t i = 0; i < lines.size(); i++) fprintf(f, "%s%s", lines[i].c_str(), i+1 < lines.size() || last_newline ? "\n" : "");
  fclose(f);
}
static Table defN, defP; // the registered options
static uint64_t table_hash(const Table& t) { uint64_t h = 7; for(auto& p : t) { h = hs(h, p.second.val()); h = mix(h, p.second.user); } return h; }

// one history: the file lines first (in order), then the calls; true when it agreed
template<class O> static bool run(const vector<string>& lines, const vector<Act>& calls, bool nlp, bool lastnl = true, bool quiet_prefix = false)
{
  static vector<string> onfile; static bool have = false, nl = true;
  if(!have || onfile != lines || nl != lastnl) { if(lines.empty()) unlink(FN); else write_file(lines, lastnl); onfile = lines; have = true; nl = lastnl; }
  O o(lines.empty() ? "o01_none.options" : FN);
  Ref r; r.nlp = nlp; r.t = nlp ? defN : defP;
  for(auto& l : lines) r.file_line(l);
  r.rules();
  auto check = [&](size_t k) {
    Table t = o.table(); if(!quiet_prefix || k == calls.size()) state(table_hash(t));
    string d = first_difference(t, r), b = rule_broken(t, nlp);
    // typed getters agree with the table
    for(auto& p : t) { auto& e = p.second; bool ok = e.type == 'n' ? o.GetNumeric(p.first.c_str()) == e.num : e.type == 'i' ? o.GetInteger(p.first.c_str()) == e.in : o.GetString(p.first.c_str()) == e.st; if(!ok) d = p.first + ": the getter returns something else"; }
    if(d.empty() && b.empty()) return true;
    string h; for(auto& l : lines) h += "file{" + l + "} "; for(size_t i = 0; i < k; i++) h += calls[i].show() + " ";
    fail(d.empty() ? "inconsistent" : "value", cat("after ", h, ": ", d.empty() ? b : d)); return false;
  };
  if(calls.empty() || !quiet_prefix) if(!check(0)) return false;
  for(size_t i = 0; i < calls.size(); i++) {
    const Act& a = calls[i];
    bool ok = a.type == 'n' ? o.SetNumericValue(a.name.c_str(), a.d) : a.type == 'i' ? o.SetIntegerValue(a.name.c_str(), a.i) : o.SetStringValue(a.name.c_str(), a.text.c_str());
    (void)ok; r.set(a, false); r.rules(); trans();
    if(!quiet_prefix || i+1 == calls.size()) if(!check(i+1)) return false;
  }
  trace(); return true;
}

// every interesting value of an option, as (text for the file, call)
static vector<Act> values(const string& n, const Entry& e, bool reduced)
{
  vector<Act> v;
  if(e.type == 'n') {
    vector<double> d = {e.nlo, e.nup, (e.nlo + e.nup)/2, e.num};
    if(!reduced) { d.push_back(std::nextafter(e.nlo, -1e300)); d.push_back(std::nextafter(e.nup, 1e300)); d.push_back(-1e30); d.push_back(NAN); d.push_back(INFINITY); d.push_back(-INFINITY); }
    else { d = {e.nlo, e.nup, e.nup*2+1}; }
    for(double x : d) v.push_back(setn(n, x));
    if(!reduced) { v.push_back(seti(n, 1)); v.push_back(sets(n, "auto")); }
  } else if(e.type == 'i') {
    vector<long> d = {e.ilo, e.iup, e.ilo + (e.iup > e.ilo), e.ilo-1, e.iup+1}; if(!reduced) { d.push_back(INT_MIN); d.push_back(INT_MAX); } else d = {e.ilo, e.iup, e.ilo-1};
    for(long x : d) if(x == (int)x) v.push_back(seti(n, (int)x));
    if(!reduced) { v.push_back(setn(n, 1.)); v.push_back(sets(n, "1")); }
  } else {
    vector<string> d = e.range; if(d.empty()) d = {"Some_File.Options", "x"}; d.push_back("no_such_value");
    if(!reduced) for(auto x : e.range) { string u = x; for(char& c : u) c = (char)toupper((unsigned char)c); d.push_back(u); d.push_back(x + "x"); d.push_back(x.substr(0, x.size()-1)); }
    if(!reduced) d.push_back("");
    for(auto& x : d) v.push_back(sets(n, x));
    if(!reduced) { v.push_back(setn(n, 1.)); v.push_back(seti(n, 1)); }
  }
  return v;
}
static string as_line(const Act& a) { return a.name + " " + a.text; }

template<class O> static void singles(bool nlp)
{
  const Table& D = nlp ? defN : defP; const char* who = nlp ? "nlp" : "pridec";
  for(auto& p : D) if(begin(cat("one:", who, ":", p.first))) {
    auto& e = p.second;
    // the default is a value the user could have chosen
    if(e.type == 's' && !e.range.empty() && std::find(e.range.begin(), e.range.end(), e.st) == e.range.end()) fail("default", cat("default '", e.st, "' of ", p.first, " is not one of its values"));
    vector<Act> V = values(p.first, e, false);
    sample(cat(p.first, ": ", V.size(), " values by file, by call, and every pair file/call, call/call, file/file"));
    for(auto& a : V) {
      run<O>({}, {a}, nlp); run<O>({as_line(a)}, {}, nlp);
      for(auto& b : V) { run<O>({as_line(a)}, {b}, nlp); run<O>({}, {a, b}, nlp); run<O>({as_line(a), as_line(b)}, {}, nlp); }
    }
    // misspelled names are nobody's
    for(string m : {p.first + "x", p.first.substr(0, p.first.size()-1), string(" ") + p.first}) if(!D.count(m)) { run<O>({m + " 1"}, {setn(m, 1.), seti(m, 1), sets(m, "yes")}, nlp); }
  }
}

static void syntax()
{
  // every line: indentation x name x separator x value form x tail x last newline, between two well-formed lines
  const char* names[] = {"tolerance", "max_iter", "fixed_var", "options_file_fr_prob", "Tolerance", "nothing_known"};
  const char* vals[] = {"1e-5", "1.5E-5", "+1e-5", ".00001", "1e-5abc", "1e400", "-1e400", "1e-400", "nan", "inf", "0x1p-4", "1d-5", "1,5", "12", "+12", "012", "12.", "12.7", "1e3", "12abc", "99999999999", "-1", "0", "relax", "RELAX", "Relax", "relaxed", "'relax'", "#1e-5", "Dir/File.Opt", "%d%d", "=", ""};
  const char* pre[] = {"", "  ", "\t", "#", " # "};
  const char* sep[] = {" ", "\t", "   ", "=", " = "};
  const char* tail[] = {"", " ", "\r", " # comment", " 1e-7", "\t#"};
  for(auto* n : names) if(begin(cat("syntax:", n))) {
    for(auto* v : vals) for(auto* b : pre) for(auto* s : sep) for(auto* t : tail) {
      string l = cat(b, n, s, v, t);
      bool good = run<NLP>({l}, {}, true, false) && run<NLP>({"kappa1 1e-3", l, "", "acceptable_iterations 7"}, {}, true);
      if(opt.thorough) good = good && run<NLP>({l, l}, {}, true) && run<NLP>({cat(n, " ", v), l}, {}, true) && run<NLP>({l, cat(n, " 1e-4")}, {}, true);
      (void)good;
    }
    sample(cat("name ", n, ": 33 value forms, 5 indentations, 5 separators, 6 line tails"));
  }
}

// every sequence of a reduced alphabet around the consistency rules
static vector<Act> rule_alphabet()
{
  vector<Act> A;
  for(double v : {1e-9, 1e-8, 1e-6, 1e-3}) A.push_back(setn("tolerance", v));
  for(double v : {1e-10, 1e-7, 1e-2}) { A.push_back(setn("acceptable_tolerance", v)); A.push_back(setn("cons_tol", v)); }
  A.push_back(setn("dual_tol", 1e-10)); A.push_back(setn("comp_tol", 1e-10)); A.push_back(setn("comp_tol", -1));
  for(auto* v : {"quasinewton_approx", "analytical_exact", "exact"}) A.push_back(sets("Hessian", v));
  for(auto* v : {"auto", "xycyd", "xdycyd", "full", "condensed", "normaleqn", "FULL"}) A.push_back(sets("KKTLinsys", v));
  for(auto* v : {"lsq", "linear"}) A.push_back(sets("duals_update_type", v));
  for(auto* v : {"auto", "ma57", "strumpack", "pardiso", "resolve", "cusolver-chol"}) A.push_back(sets("linear_solver_sparse", v));
  for(auto* v : {"inertia_correction", "inertia_free"}) A.push_back(sets("fact_acceptor", v));
  for(auto* v : {"auto", "cpu", "hybrid", "gpu"}) A.push_back(sets("compute_mode", v));
  for(double v : {0., 1.}) { A.push_back(setn("moving_lim_abs", v)); A.push_back(setn("moving_lim_rel", v)); }
  A.push_back(sets("fixed_var", "remove")); A.push_back(sets("checkpoint_save", "yes")); A.push_back(seti("checkpoint_save_every_N_iter", 3));
  A.push_back(sets("callback_mem_space", "default")); A.push_back(sets("mem_space", "device"));
  return A;
}
static void rules()
{
  vector<Act> A = rule_alphabet(); int n = A.size(); int depth = opt.thorough ? 4 : 3;
  for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) {
    if(!begin(cat("rules:", a, ",", b, ":depth", depth))) continue;
    if(a == 3 && b == 7) sample(cat("histories starting with ", A[a].show(), " ", A[b].show(), ", every split between file and run time, every continuation to depth ", depth));
    string la = as_line(A[a]), lb = as_line(A[b]);
    bool ok = run<NLP>({la, lb}, {}, true) && run<NLP>({la}, {A[b]}, true) && run<NLP>({}, {A[a], A[b]}, true);
    for(int c = 0; c < n && ok; c++) {
      ok = run<NLP>({}, {A[a], A[b], A[c]}, true, true, true) && run<NLP>({la}, {A[b], A[c]}, true, true, true);
    }
    for(int c = 0; c < n && ok; c++) ok = run<NLP>({la, lb}, {A[c]}, true, true, true);
    // a file states a set of options: the order of its lines does not matter, as long as it names an option once
    for(int c = 0; c < n && ok; c++) if(A[a].name != A[b].name && A[c].name != A[a].name && A[c].name != A[b].name) {
      vector<string> f = {la, lb, as_line(A[c])}; ok = run<NLP>(f, {}, true);
      if(a < b && b < c && ok) {
        Table t0; vector<int> pi = {0, 1, 2};
        do { write_file({f[pi[0]], f[pi[1]], f[pi[2]]}); NLP o(FN); Table t = o.table(); trans();
          if(t0.empty()) t0 = t; else for(auto& p : t0) if(p.second.val() != t[p.first].val()) { fail("line-order", cat("file {", f[0], " | ", f[1], " | ", f[2], "}: ", p.first, " is ", p.second.val(), " or ", t[p.first].val(), ", depending on the order of the lines")); ok = false; break; }
        } while(std::next_permutation(pi.begin(), pi.end()) && ok);
        run<NLP>({}, {}, true); // resets the file cache
      }
    }
    if(opt.thorough) for(int c = 0; c < n && ok; c++) for(int d = 0; d < n && ok; d++) ok = run<NLP>({}, {A[a], A[b], A[c], A[d]}, true, true, true);
    if(opt.thorough) for(int c = 0; c < n && ok; c++) for(int d = 0; d < n && ok; d++) ok = run<NLP>({la, lb}, {A[c], A[d]}, true, true, true);
  }
}
// any two options do not interfere unless a rule says so
static void pairs()
{
  for(auto& p : defN) if(begin(cat("pair:", p.first))) {
    vector<Act> V = values(p.first, p.second, true);
    for(auto& q : defN) if(q.first != p.first) for(auto& b : values(q.first, q.second, true)) {
      size_t k = opt.thorough ? V.size() : 1; bool ok = true;
      for(size_t i = 0; i < k && ok; i++) ok = run<NLP>({}, {V[i], b}, true, true, true) && (!opt.thorough || run<NLP>({as_line(V[i])}, {b}, true, true, true));
    }
  }
}
// warnings carry the user's text as it is
static void messages()
{
  vector<string> texts = {"plain", "100%", "%d", "%5d%%", "a%xb", "%%", "%08.3f", "%c", string(3000, 'q')};
  for(auto& tx : texts) for(int where = 0; where < 6; where++) {
    if(!begin(cat("message:", tx.substr(0, 12), ":", where))) continue;
    Isolated r = isolated([&]() -> string {
      char* buf = nullptr; size_t len = 0; FILE* f = open_memstream(&buf, &len); string res;
      { NLP o("o01_none.options"); o.SetIntegerValue("verbosity_level", 3); hiopLogger lg(&o, f, 0); o.SetLog(&lg); fflush(f); fseek(f, 0, SEEK_SET);
        if(where == 0) o.SetNumericValue(tx.c_str(), 1.);
        if(where == 1) o.SetIntegerValue(tx.c_str(), 1);
        if(where == 2) o.SetStringValue(tx.c_str(), "v");
        if(where == 3) o.SetStringValue("fixed_var", tx.c_str());
        if(where == 4) o.SetStringValue("no_such_option", tx.c_str());
        if(where == 5) { lg.printf(hovWarning, "%s", tx.c_str()); }
        o.SetLog(nullptr);
        fclose(f); res = string(buf ? buf : "", len); }
      free(buf); return res; });
    trans(); trace(); state(hs(where, tx));
    string want = tx.size() > 500 ? tx.substr(0, 500) : tx;
    if(r.kind != Isolated::Ok) fail("message", cat("text '", tx, "': ", r.describe()));
    else if(r.text.find(want) == string::npos) fail("message", cat("text '", want, "' is reported as '", r.text.substr(0, 200), "'"));
  }
}
void mc_body()
{
  { FILE* f = fopen("o01_none.options", "w"); if(f) fclose(f); }
  { NLP n("o01_none.options"); defN = n.table(); PRI p("o01_none.options"); defP = p.table(); }
  singles<NLP>(true); singles<PRI>(false); messages(); syntax(); pairs(); rules();
}
