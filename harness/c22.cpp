// mdf2csv: the CSV files against a separate reading of the MDF file.
#define C12_AS_LIBRARY
#include "c12.cpp"
#define C10_AS_LIBRARY
#include "c10.cpp"
#include "mdfenc.h"
#include "mdfenc3.h"

int Mdf2CsvMain(int argc, char* argv[]);

namespace vh {
const char* kPropId = "C22";
namespace {
namespace fs = std::filesystem;
std::string Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
}
void Spit(const std::string& f, const std::string& b) { std::ofstream(f, std::ios::binary).write(b.data(), std::streamsize(b.size())); }

using Row = std::vector<std::string>;
struct Csv { std::string name; std::vector<Row> rows; bool unique = true; };   // the first row is the head line

// Letters and digits, '_' and '-' are kept in file names.
std::string Stripped(const std::string& s) {
  std::string o;
  for (unsigned char c : s) if (c >= 0x80 || isalnum(c) || c == '_' || c == '-' || c < 0x20 || c == 0x7f) if (!(c >= 9 && c <= 13)) o += static_cast<char>(c);
  return o;
}
// What the CSV files of a file must hold
bool Expect(const std::string& file, const std::string& stem, std::vector<Csv>& out, std::string& err) {
  mdf::MdfReader rd(file);
  if (!rd.IsOk() || !rd.ReadEverythingButData()) { err = "source unreadable"; return false; }
  auto dgs = rd.GetHeader()->DataGroups();
  size_t dn = 0;
  for (auto* dg : dgs) {
    ++dn;
    std::vector<mdf::IChannelGroup*> cgs;
    for (auto* cg : dg->ChannelGroups()) if (!(cg->Flags() & mdf::CgFlag::VlsdChannel) && cg->NofSamples() > 0) cgs.push_back(cg);
    if (cgs.empty()) continue;
    std::vector<std::vector<std::unique_ptr<mdf::IChannelObserver>>> obs(cgs.size());
    for (size_t i = 0; i < cgs.size(); ++i) {
      const bool bus = cgs[i]->Flags() & mdf::CgFlag::BusEvent;
      for (int pass = 0; pass < 2; ++pass) for (auto* cn : cgs[i]->Channels()) {
        const bool master = cn->Type() == mdf::ChannelType::Master || cn->Type() == mdf::ChannelType::VirtualMaster;
        if (master != (pass == 0)) continue;
        const auto n = cn->Name();
        if (bus && (n == "CAN_DataFrame" || n == "CAN_RemoteFrame" || n == "CAN_ErrorFrame" || n == "CAN_OverloadFrame")) continue;
        obs[i].push_back(mdf::CreateChannelObserver(*dg, *cgs[i], *cn));
      }
    }
    if (!rd.ReadData(*dg)) { err = "source data unreadable"; return false; }
    for (size_t i = 0; i < cgs.size(); ++i) {
      if (obs[i].empty()) continue;
      Csv c;
      c.name = stem;
      if (dgs.size() > 1) c.name += "_DG_" + std::to_string(dn);
      if (cgs.size() > 1) c.name += "_" + (cgs[i]->Name().empty() ? "CG_" + std::to_string(i + 1) : cgs[i]->Name());
      c.name = Stripped(c.name);
      Row head;
      for (auto& o : obs[i]) { const auto u = o->Channel().Unit(); head.push_back(o->Channel().Name() + (u.empty() ? "" : " [" + u + "]")); }
      c.rows.push_back(head);
      for (uint64_t s = 0; s < cgs[i]->NofSamples(); ++s) {
        Row row;
        for (auto& o : obs[i]) { std::string t; if (!o->GetEngValue(s, t)) t.clear(); row.push_back(t); }
        c.rows.push_back(std::move(row));
      }
      out.push_back(std::move(c));
    }
  }
  for (auto& a : out) for (auto& b : out) if (&a != &b && a.name == b.name) a.unique = false;
  return true;
}
// Rows of a CSV text. Fields with a quote, separator or line break are quoted and their quotes doubled.
bool ParseCsv(const std::string& t, std::vector<Row>& rows, std::string& err) {
  size_t p = 0;
  Row row;
  while (p < t.size()) {
    std::string f;
    if (t[p] == '"') {
      ++p;
      for (;;) {
        if (p >= t.size()) { err = "quoted field not closed"; return false; }
        if (t[p] == '"') { if (p + 1 < t.size() && t[p + 1] == '"') { f += '"'; p += 2; continue; } ++p; break; }
        f += t[p++];
      }
    } else {
      while (p < t.size() && t[p] != ';' && t[p] != '\n') { if (t[p] == '"') { err = "quote inside an unquoted field"; return false; } f += t[p++]; }
    }
    row.push_back(f);
    if (p >= t.size()) { err = "last line not ended"; return false; }
    if (t[p] == ';') { ++p; if (p >= t.size()) { err = "last line not ended"; return false; } if (t[p] == '\n') { row.emplace_back(); rows.push_back(std::move(row)); row.clear(); ++p; } continue; }
    if (t[p] != '\n') { err = "text after a quoted field at " + std::to_string(p); return false; }
    ++p; rows.push_back(std::move(row)); row.clear();
  }
  return row.empty();
}
std::string DiffRows(const std::vector<Row>& got, const std::vector<Row>& want) {
  if (got.size() != want.size()) return "rows " + std::to_string(got.size()) + " want " + std::to_string(want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    if (got[i].size() != want[i].size()) return "row " + std::to_string(i) + " fields " + std::to_string(got[i].size()) + " want " + std::to_string(want[i].size());
    for (size_t k = 0; k < got[i].size(); ++k)
      if (got[i][k] != want[i][k]) return "row " + std::to_string(i) + " field " + std::to_string(k) + " '" + got[i][k].substr(0, 80) + "' want '" + want[i][k].substr(0, 80) + "'";
  }
  return {};
}
std::map<std::string, std::string> Tree(const std::string& dir) {
  std::map<std::string, std::string> m;
  for (auto& e : fs::recursive_directory_iterator(dir)) if (e.is_regular_file()) m[e.path().string()] = Slurp(e.path().string());
  return m;
}
// A writer's file with awkward names and texts
std::string TextFile(Ctx& ctx) {
  auto& r = ctx.rng;
  GenOpt o;
  o.max_samples = 20; o.min_samples = 1; o.max_ch = 5; o.max_cg = 3; o.max_dg = 3; o.mdf3 = r.Chance(0.2); o.arrays = r.Chance(0.3);
  Scen s = GenScen(r, o);
  s.pause_every = 0; s.flush_ms = 10000;
  const std::vector<std::string> bits = {"\"", ";", " ", "\n", "\"\"", "a", "\t", ",", "'", "\r\n", "\xC3\xA5", "x;y", "\" \""};
  auto mess = [&](size_t max) { std::string t; for (size_t i = 0, n = r.Below(max); i < n; ++i) t += r.Pick(bits); mdf::MdfHelper::Trim(t); return t; };
  const bool same = r.Chance(0.2), none = r.Chance(0.15);
  for (auto& d : s.dg) for (auto& g : d.cg) {
    if (same) g.name = r.Pick<std::string>({"Group", "Group ", "Gro.up", "group", "A-B"});
    if (none) g.name.clear();
    if (o.mdf3) g.desc = g.name;
    for (size_t c = 0; c < g.ch.size(); ++c) {
      auto& ch = g.ch[c];
      if (r.Chance(0.3)) ch.name += mess(4);
      mdf::MdfHelper::Trim(ch.name);
      if (!o.mdf3 && r.Chance(0.2)) ch.unit = mess(4);
      if (!IsStr(ch.dt)) continue;
      for (auto& sm : g.samples) if (c < sm.v.size()) for (auto& v : sm.v[c]) if (r.Chance(0.5)) {
        std::string t = mess(6);
        if (ch.type != ChannelType::VariableLength && ch.bytes > 0) { size_t cap = ch.bytes - 1; if (ch.dt == ChannelDataType::StringUTF16Le || ch.dt == ChannelDataType::StringUTF16Be) cap = ch.bytes / 2 - 1; if (t.size() > cap) t.resize(cap); while (!t.empty() && (static_cast<unsigned char>(t.back()) & 0xC0) == 0xC0) t.pop_back(); }
        v = ValS(t);
      }
    }
  }
  auto mem = std::make_shared<MemBuf>();
  if (!WriteScen(s, std::static_pointer_cast<std::streambuf>(mem)).empty()) return {};
  ctx.shape += "texts " + Describe(s) + " ";
  return std::string(mem->Data().begin(), mem->Data().end());
}
std::string SourceFile(Ctx& ctx) {
  auto& r = ctx.rng;
  std::string bytes;
  const uint64_t kind = r.Below(10);
  const std::string keep = ctx.shape;
  if (kind < 4) return TextFile(ctx);
  if (kind == 4) { EncOpt o; o.max_samples = 20; auto e = EncodeMdf4(r, o); ctx.shape += "encoder " + e.shape + " "; bytes.assign(e.bytes.begin(), e.bytes.end()); }
  else if (kind == 5) { auto e = EncodeMdf3(r, {}); ctx.shape += "encoder3 " + e.shape + " "; bytes.assign(e.bytes.begin(), e.bytes.end()); }
  else if (kind < 8) { ConvFileHook() = [&](const std::string& b) { bytes = b; }; RunCase10(ctx); ConvFileHook() = nullptr; ctx.shape = keep + "conversions " + ctx.shape + " "; }
  else { FileHook() = [&](const PBytes& b) { bytes.assign(b.begin(), b.end()); }; RunCase12(ctx); FileHook() = nullptr; ctx.shape = keep + ctx.shape + " "; }
  return bytes;
}
}  // namespace

void RunCase(Ctx& ctx) {
  auto& r = ctx.rng;
  const std::string base = ctx.Path("csv");
  std::string tmp = ctx.Path("tmp");
  const size_t nf = r.Chance(0.6) ? 1 : 1 + r.Below(4);
  ctx.shape.clear();
  std::vector<std::pair<std::string, std::string>> src;   // stem, bytes
  for (size_t i = 0; i < nf; ++i) {
    ctx.Wipe();   // the writers append to a file that is there
    std::string b = SourceFile(ctx);
    if (b.empty()) { ctx.Viol("source", "no source file"); return; }
    std::string stem = "f" + std::to_string(i);
    if (r.Chance(0.4)) stem += r.Pick<std::string>({" b", ".x", "_y-z", "\xC3\xB6l", "(1)", "'", ";k", "%d"});
    src.emplace_back(stem, std::move(b));
  }
  // The directory of temporary files may be on another file system
  const bool shm = r.Chance(0.3) && access("/dev/shm", W_OK) == 0;
  if (shm) tmp = "/dev/shm/vh_c22_" + std::to_string(getpid());
  std::error_code ec;
  fs::remove_all(base, ec); fs::remove_all(tmp, ec);
  fs::create_directories(base + "/in/sub"); fs::create_directories(tmp);
  struct Guard { std::string d; ~Guard() { std::error_code e; fs::remove_all(d, e); } } guard{tmp};
  setenv("TMPDIR", tmp.c_str(), 1);
  ctx.Count(shm ? "other_file_system" : "same_file_system");

  const int form = static_cast<int>(r.Below(4));   // files with output directory, files beside, directory, current directory
  const bool outdir = form == 0 || (form == 2 && r.Chance(0.5));
  std::string out = base + "/out";
  if (r.Chance(0.5)) out += "/deep/er";
  else if (r.Chance(0.5)) fs::create_directories(out);
  bool force = r.Chance(0.4);
  std::vector<std::string> files, dirs;
  std::map<std::string, std::vector<Csv>> want;   // output directory -> files
  for (auto& [stem, bytes] : src) {
    const std::string dir = base + "/in" + (form == 3 ? "" : r.Pick<std::string>({"", "/sub"}));
    const std::string f = dir + "/" + stem + r.Pick<std::string>({".mf4", ".dat", ".mdf", ""});
    Spit(f, bytes);
    files.push_back(f);
    std::string err;
    std::string used = fs::path(f).stem().string();
    auto& w = want[outdir ? out : dir];
    const size_t before = w.size();
    if (!Expect(f, used, w, err)) { ctx.Viol("source", err); return; }
    for (size_t i = before; i < w.size(); ++i) ctx.Count("groups");
  }
  // files that are not MDF files
  if (r.Chance(0.4)) { Spit(base + "/in/notes.txt", r.Chance(0.5) ? "MDF is not the first text" : ""); if (form != 2 && r.Chance(0.5)) files.insert(files.begin() + static_cast<long>(r.Below(files.size() + 1)), base + "/in/notes.txt"); }
  if (form != 2 && r.Chance(0.1)) files.push_back(base + "/in/missing.mf4");
  // a CSV file that is there already
  std::map<std::string, std::string> old;
  for (auto& [d, l] : want) for (auto& c : l) if (c.unique && r.Chance(0.1) && fs::exists(d)) { const auto n = d + "/" + c.name + ".csv"; old[n] = "old;" + std::to_string(r.U64()) + "\n"; Spit(n, old[n]); }
  const auto before = Tree(base);

  std::vector<std::string> args = {"mdf2csv", r.Pick<std::string>({"--quiet", "-q", "--silent", "--non-interactive"})};
  if (force) args.push_back("--force");
  if (outdir) { if (r.Chance(0.5)) { args.push_back("-O"); args.push_back(r.Chance(0.2) ? "\"" + out + "\"" : out); } else args.push_back("--output-directory=" + out); }
  std::string cwd;
  if (form == 2) args.push_back(base + "/in");
  else for (auto& f : files) { std::string a = f; if (form == 3) a = fs::path(f).filename().string(); if (r.Chance(0.1)) a = "\"" + a + "\""; args.push_back(a); }
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  if (form == 3) { cwd = fs::current_path().string(); fs::current_path(base + "/in"); }
  const int rc = Mdf2CsvMain(static_cast<int>(args.size()), argv.data());
  if (form == 3) fs::current_path(cwd);
  ctx.Count("runs"); ctx.Count("form_" + std::to_string(form));
  if (rc != 0) ctx.Viol("exit status", std::to_string(rc));
  const std::string note = " form " + std::to_string(form) + (force ? " force" : "") + (shm ? " other file system " : " ") + ctx.shape;

  auto after = Tree(base);
  if (!fs::is_empty(tmp)) ctx.Viol("temporary file left", fs::directory_iterator(tmp)->path().string() + note);
  size_t rows = 0;
  for (auto& [dir, list] : want) {
    std::vector<bool> taken(list.size(), false);
    for (size_t i = 0; i < list.size(); ++i) {
      auto& c = list[i];
      if (!c.unique) continue;
      const auto n = dir + "/" + c.name + ".csv";
      auto it = after.find(n);
      if (it == after.end()) { ctx.Viol("CSV file missing", c.name + note); continue; }
      if (auto o = old.find(n); o != old.end() && !force) {
        ctx.Count("existing_kept");
        if (it->second != o->second) ctx.Viol("existing CSV file replaced without permission", c.name + note);
        after.erase(it); continue;
      }
      if (old.count(n)) ctx.Count("existing_replaced");
      std::vector<Row> got; std::string err;
      if (!ParseCsv(it->second, got, err)) ctx.Viol("CSV syntax", c.name + ": " + err + note);
      else if (auto d = DiffRows(got, c.rows); !d.empty()) ctx.Viol("CSV content", c.name + ": " + d + note);
      rows += c.rows.size() - 1;
      ctx.Count("rows", static_cast<int64_t>(c.rows.size() - 1)); ctx.Count("fields", static_cast<int64_t>(c.rows.size() * c.rows[0].size()));
      after.erase(it);
    }
    // groups with the same name: one file each, whatever it is called
    for (auto& c : list) {
      if (c.unique) continue;
      bool found = false;
      for (auto it = after.begin(); it != after.end() && !found; ++it) {
        if (fs::path(it->first).parent_path().string() != dir || before.count(it->first) || fs::path(it->first).extension() != ".csv") continue;
        if (fs::path(it->first).filename().string().rfind(c.name, 0) != 0) continue;
        std::vector<Row> got; std::string err;
        if (ParseCsv(it->second, got, err) && DiffRows(got, c.rows).empty()) { found = true; after.erase(it); break; }
      }
      ctx.Count("same_name_groups");
      if (!found) ctx.Viol("CSV file of a group with a common name missing", c.name + note);
      rows += c.rows.size() - 1;
    }
  }
  for (auto& [n, b] : before) { if (old.count(n)) continue; auto it = after.find(n); if (it == after.end()) { ctx.Viol("file gone", n + note); continue; } if (it->second != b) ctx.Viol("input changed", n + note); after.erase(it); }
  for (auto& [n, b] : after) if (!old.count(n)) ctx.Viol("unexpected file", n + note);
  ctx.shape += " form" + std::to_string(form);
  ctx.sample = ctx.shape;
  ctx.nontrivial = rows > 0;
}
}  // namespace vh
