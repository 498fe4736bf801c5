// Sorting and validating tasks: the content of the destination against the
// content of the source.
#define C12_AS_LIBRARY
#include "c12.cpp"
#define C10_AS_LIBRARY
#include "c10.cpp"
#include "mdfenc.h"
#include "sortingtask.h"
#include "validatingtask.h"

namespace vh {
const char* kPropId = "C20";
namespace {
std::string Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
}
void Spit(const std::string& f, const std::string& b) { std::ofstream(f, std::ios::binary).write(b.data(), std::streamsize(b.size())); }

struct View {
  Content c;
  Facts facts;
  std::map<std::string, std::string> att;
  std::vector<std::string> eng;  // engineering texts of every channel, as one text per channel group
};
View Look(const std::string& f) {
  View v;
  { mdf::MdfReader rd(f); v.c = ReadContent(rd); }
  if (!v.c.ok) return v;
  mdf::MdfReader rd(f);
  if (!rd.ReadEverythingButData()) { v.c.ok = false; return v; }
  v.facts = Snapshot(rd, *rd.GetHeader(), f.back() == '3');
  size_t i = 0;
  for (auto* at : rd.GetHeader()->Attachments()) {
    ++i;
    if (!at->IsEmbedded()) continue;
    MemBuf out;
    const bool ok = rd.ExportAttachmentData(*at, out);
    v.att["at" + std::to_string(i - 1)] = ok ? std::string(out.Data().begin(), out.Data().end()) : "export failed";
  }
  for (auto* dg : rd.GetHeader()->DataGroups()) {
    std::vector<std::vector<std::pair<std::string, mdf::ChannelObserverPtr>>> obs;
    for (auto* cg : dg->ChannelGroups()) {
      obs.emplace_back();
      for (auto* cn : cg->Channels()) {
        if (cn->Type() == ChannelType::Master || cn->Type() == ChannelType::VariableLength || IsCanOpen(cn->DataType())) continue;
        obs.back().emplace_back(cn->Name(), mdf::CreateChannelObserver(*dg, *cg, *cn));
      }
    }
    rd.ReadData(*dg);
    for (auto& g : obs) {
      std::string all;
      for (auto& [name, o] : g) {
        all += name + ":";
        for (uint64_t i = 0; o && i < o->NofSamples(); ++i) { std::string t; const bool ok = o->GetEngValue(i, t); all += ok ? t + "|" : "?|"; }
        all += "\n";
      }
      v.eng.push_back(all);
    }
  }
  return v;
}
std::string Near(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  const size_t f = i > 40 ? i - 40 : 0;
  return "'" + a.substr(f, 80) + "' vs '" + b.substr(f, 80) + "'";
}
bool Starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

struct Dirs {
  std::string dir, src, dst, tmp;
  explicit Dirs(Ctx& ctx) : dir(ctx.Path("t")), src(dir + "/src/a.mf4"), dst(dir + "/dst/b.mf4"), tmp(dir + "/tmp") {
    std::filesystem::remove_all(dir);
    for (const char* d : {"/src", "/dst", "/tmp"}) std::filesystem::create_directories(dir + d);
    setenv("TMPDIR", tmp.c_str(), 1);
  }
  bool TempLeft() const { return !std::filesystem::is_empty(tmp); }
  bool Dst() const { return std::filesystem::exists(dst); }
};
std::string Messages(const mdf::MdfTask& t) { std::string m; for (auto& x : t.MessageList()) m += x + ";"; return m; }

// The destination view against what the source view demands: each group alone
// in a data group, in order. Empty if they agree. Values of variable-length
// channels only if wanted.
void CheckSorted(Ctx& ctx, const View& a, View b, bool skip, bool vlsd, const std::string& note) {
  View want;
  want.c = b.c; want.c.dg.clear();
  size_t d = 0, k = 0, n = 0;
  std::map<std::string, std::string> moved;
  for (auto& dg : a.c.dg) {
    size_t g = 0;
    for (auto& cg : dg.cg) {
      const std::string from = "dg" + std::to_string(d) + ".cg" + std::to_string(g++) + ".";
      if (!(cg.vlsd || (skip && cg.nof == 0))) {
        want.c.dg.emplace_back(); want.c.dg.back().cg.push_back(cg);
        want.eng.push_back(a.eng[n]);
        // the note of the data group goes with each of its channel groups
        const std::string da = "dg" + std::to_string(d) + ".", db = "dg" + std::to_string(k) + ".";
        for (auto& [key, val] : a.facts) {
          if (val.empty() || !(key == da + "desc" || Starts(key, (da + "c.").c_str()))) continue;
          const auto kb = b.facts.find(db + key.substr(da.size()));
          ctx.Count("data_group_notes");
          if (kb == b.facts.end() || kb->second != val) ctx.Viol("data group note", key + ": '" + val.substr(0, 60) + "' vs '" + (kb == b.facts.end() ? "none" : kb->second.substr(0, 60)) + "'" + note);
        }
        moved[from] = "dg" + std::to_string(k++) + ".cg0.";
      }
      ++n;
    }
    ++d;
  }
  if (!vlsd) for (auto* v : {&want, &b}) for (auto& dg : v->c.dg) for (auto& cg : dg.cg) for (auto& ch : cg.ch)
    if (ch.type == ChannelType::VariableLength) { ch.v.clear(); ch.eng.clear(); }
  if (auto e = DiffContent(want.c, b.c); !e.empty()) { ctx.Viol("sorted content", e + note); return; }
  for (auto& dg : want.c.dg) for (auto& ch : dg.cg[0].ch) ctx.Count("values_compared", int64_t(ch.v.size()));
  for (size_t i = 0; i < want.eng.size() && i < b.eng.size(); ++i) if (want.eng[i] != b.eng[i]) { ctx.Viol("engineering values", Near(want.eng[i], b.eng[i]) + note); break; }
  for (auto& [key, val] : a.facts) {
    std::string to = key;
    if (Starts(key, "ev") || Starts(key, "ch") || key == "dgs" || key.find("md.") != std::string::npos) continue;  // not copied, and the form of a comment
    if (Starts(key, "fh") && val.empty()) continue;
    if (Starts(key, "dg")) {
      const size_t p = key.find(".cg");
      const size_t q = p == std::string::npos ? p : key.find('.', p + 1);
      if (q == std::string::npos) continue;
      auto it = moved.find(key.substr(0, q + 1));
      if (it == moved.end()) continue;
      to = it->second + key.substr(q + 1);
      if (key.substr(q + 1) == "id" || key.find(".defaultx") != std::string::npos || key.find(".at", q) != std::string::npos) continue;
    }
    ctx.Count("facts_compared");
    auto it = b.facts.find(to);
    if (it == b.facts.end() || it->second != val) {
      std::string gen;
      for (char c : to) if (!isdigit(static_cast<unsigned char>(c))) gen += c;
      ctx.Viol("fact " + gen, to + ": '" + val.substr(0, 60) + "' vs " + (it == b.facts.end() ? "none" : "'" + it->second.substr(0, 60) + "'"));
    }
  }
  // embedded attachments
  for (auto& [name, data] : a.att) { ctx.Count("attachments_compared"); auto it = b.att.find(name); if (it == b.att.end() || it->second != data) ctx.Viol("attachment", name + note); }
}
// A measurement with descriptive data on every object
std::string MetaFile(Ctx& ctx) {
  auto& r = ctx.rng;
  GenOpt o;
  o.max_samples = 10; o.max_ch = 4; o.max_cg = 3; o.max_dg = 3; o.arrays = true;
  Scen s = GenScen(r, o);
  s.pause_every = 0; s.flush_ms = 10000;
  auto mem = std::make_shared<MemBuf>();
  auto w = mdf::MdfFactory::CreateMdfWriter(mdf::MdfWriterType::Mdf4Basic);
  if (!w->Init(std::static_pointer_cast<std::streambuf>(mem))) return {};
  Facts f;
  Handles h;
  GenHeader(r, *w->Header(), false, f);
  if (!CreateGroups(*w, s, h)) return {};
  GenGroupMeta(r, s, h, 0, f);
  for (size_t i = 0, n = r.Below(3); i < n; ++i) GenHistory(r, *w->Header(), i, s.start, f);
  w->CompressData(s.compress); w->SavePeriodic(s.periodic);
  if (!w->InitMeasurement()) return {};
  w->StartMeasurement(s.start);
  for (auto& st : s.order) SaveStep(*w, s, h, st);
  w->StopMeasurement(s.stop);
  if (!w->FinalizeMeasurement()) return {};
  w.reset();
  ctx.Count("metadata_sources");
  ctx.shape = "metadata " + std::to_string(f.size()) + " " + Describe(s);
  return std::string(mem->Data().begin(), mem->Data().end());
}
std::string SourceFile(Ctx& ctx, bool small) {
  auto& r = ctx.rng;
  std::string bytes;
  const uint64_t kind = r.Below(13);
  if (kind >= 10) return MetaFile(ctx);
  if (kind < 2) {
    EncOpt o; o.max_samples = 20; o.mlsd = o.vlsd = o.vlsd_cg = false;
    auto e = EncodeMdf4(r, o);
    ctx.shape = "encoder " + e.shape;
    bytes.assign(e.bytes.begin(), e.bytes.end());
  } else if (kind < 5) {
    ConvFileHook() = [&](const std::string& b) { bytes = b; };
    RunCase10(ctx);
    ConvFileHook() = nullptr;
    ctx.shape = "conversions " + ctx.shape;
  } else {
    FileHook() = [&](const PBytes& b) { bytes.assign(b.begin(), b.end()); };
    RunCase12(ctx);
    FileHook() = nullptr;
  }
  (void)small;
  return bytes;
}

// What a task must never do when it can not do its work.
void FailureCase(Ctx& ctx, const Dirs& p, const std::string& bytes) {
  auto& r = ctx.rng;
  const uint64_t how = r.Below(6);
  std::string src = bytes, old;
  mdf::SortingTask task;
  task.SourceFile(p.src); task.DestinationFile(p.dst);
  switch (how) {
    case 0: src.clear(); task.SourceFile(p.dir + "/src/none.mf4"); break;              // no such file
    case 1: src = src.substr(0, r.Below(64)); break;                                     // cut
    case 2: for (auto& c : src) c = char(r.Below(256)); src.resize(std::min<size_t>(src.size(), 4000)); break;
    case 3: old = "existing destination " + std::to_string(r.U64()); Spit(p.dst, old); task.OverwriteFile(false); break;
    case 4: task.DestinationFile(p.src); task.OverwriteFile(true); break;               // same file
    default: task.DestinationFile(""); break;
  }
  if (how == 2 && src.size() > 8) src[0] = 'x';
  Spit(p.src, src);
  ctx.shape = "failure " + std::to_string(how) + " " + ctx.shape;
  task.Run();
  ctx.Count("failures_injected");
  if (task.Result() || !task.Error()) ctx.Viol("failure reported as success", ctx.shape);
  if (Slurp(p.src) != src) ctx.Viol("source changed", ctx.shape);
  if (how == 3) { if (Slurp(p.dst) != old) ctx.Viol("existing destination changed without permission", ctx.shape); }
  else if (p.Dst()) ctx.Viol("destination after failure", ctx.shape);
}

void ValidateCase(Ctx& ctx, const Dirs& p, const std::string& bytes) {
  auto& r = ctx.rng;
  Spit(p.src, bytes);
  const View a = Look(p.src);
  if (!a.c.ok) { ctx.Viol("source unreadable", a.c.err); return; }
  const bool mdf3 = bytes[8] == '3';
  bool valid = true;
  for (auto& d : a.c.dg) for (auto& g : d.cg) for (auto& c : g.ch) for (auto& s : c.v) for (auto& e : s) valid = valid && e.valid;
  uint64_t total = 0;
  for (auto& d : a.c.dg) for (auto& g : d.cg) total += g.nof;
  ctx.nontrivial = total > 1;
  const uint64_t mode = r.Below(3);  // to a new file, into the source, destination exists
  std::string old;
  mdf::ValidatingTask task;
  task.SourceFile(p.src);
  if (mode != 1) task.DestinationFile(p.dst);
  bool over = mode == 1;
  if (mode == 2) { old = "existing"; Spit(p.dst, old); over = r.Chance(0.5); }
  task.OverwriteFile(over);
  ctx.shape = "validate " + std::to_string(mode) + std::to_string(over) + (valid ? " valid " : " invalid ") + ctx.shape;
  task.Run();
  ctx.Count(valid ? "valid_files" : "invalid_files");
  if (a.c.dg.empty()) {
    if (task.Result()) ctx.Viol("a file without data groups is valid", ctx.shape);
    return;
  }
  if (task.Error()) { ctx.Viol("validation failed", Messages(task) + ctx.shape); return; }
  if (task.Result() != valid) ctx.Viol("validation result", std::string(task.Result() ? "valid" : "invalid") + " " + Messages(task) + ctx.shape);
  if (!valid && task.MessageList().empty()) ctx.Viol("no message about invalid values", ctx.shape);
  if (p.TempLeft()) ctx.Viol("temporary file left", ctx.shape);
  const bool written = valid && !mdf3;
  if (!(mode == 1 && written) && Slurp(p.src) != bytes) ctx.Viol("source changed", ctx.shape);
  if (mode == 0 && p.Dst() != written) ctx.Viol(written ? "no destination" : "destination of an invalid file", ctx.shape);
  if (mode == 2 && !(written && over) && Slurp(p.dst) != old) ctx.Viol("existing destination changed without permission", ctx.shape);
  if (!written || (mode == 2 && !over)) return;
  if (getenv("VERIF_DUMP")) { Spit(std::string(getenv("VERIF_DUMP")) + "/a.mf4", bytes); Spit(std::string(getenv("VERIF_DUMP")) + "/b.mf4", Slurp(mode == 1 ? p.src : p.dst)); }
  const View b = Look(mode == 1 ? p.src : p.dst);
  if (!b.c.ok) { ctx.Viol("validated file unreadable", b.c.err); return; }
  if (auto e = DiffContent(a.c, b.c); !e.empty()) ctx.Viol("validated content", e + " " + ctx.shape);
  if (a.eng != b.eng) ctx.Viol("validated engineering values", ctx.shape);
  Facts fa = a.facts, fb = b.facts;
  const std::string n = fa["fhs"], k = "fh" + n + ".";
  if (fb[k + "c.comment.text"] != "Valid" && fb[k + "desc"] != "Valid") ctx.Viol("no history entry of the validation", ctx.shape);
  fa.erase("fhs");
  for (auto& [key, val] : fa) { ctx.Count("facts_compared"); if (!fb.count(key) || fb[key] != val) { ctx.Viol("validated facts", key + " '" + val.substr(0, 80) + "' vs '" + fb[key].substr(0, 80) + "' " + ctx.shape); break; } }
  if (a.att != b.att) ctx.Viol("validated attachments", ctx.shape);
}

void SortCase(Ctx& ctx, const Dirs& p, const std::string& bytes) {
  auto& r = ctx.rng;
  const bool mdf3 = bytes.size() > 12 && bytes[8] == '3';
  Spit(p.src, bytes);
  const View a = Look(p.src);
  if (!a.c.ok) { ctx.Viol("source unreadable", a.c.err); return; }
  uint64_t total = 0;
  for (auto& d : a.c.dg) for (auto& g : d.cg) total += g.nof;
  ctx.nontrivial = total > 1;
  const bool compress = r.Chance(0.5), skip = r.Chance(0.5), over = r.Chance(0.2);
  mdf::SortingTask task;
  task.SourceFile(p.src); task.DestinationFile(p.dst);
  task.CompressData(compress); task.SkipIfNoSamples(skip);
  if (over) { Spit(p.dst, std::string(r.Below(100000), 'x')); task.OverwriteFile(true); }
  task.Run();
  if (Slurp(p.src) != bytes) ctx.Viol("source changed", ctx.shape);
  if (mdf3) {
    if (task.Result()) ctx.Viol("sorting an MDF 3 file reported success", ctx.shape);
    if (!over && p.Dst()) ctx.Viol("destination after failure", ctx.shape);
    return;
  }
  if (!task.Result() || task.Error()) { ctx.Viol("sorting failed", Messages(task)); return; }
  if (p.TempLeft()) ctx.Viol("temporary file left", ctx.shape);
  View b = Look(p.dst);
  if (!b.c.ok) { ctx.Viol("destination unreadable", b.c.err); return; }
  CheckSorted(ctx, a, b, skip, false, (compress ? " compressed " : " ") + ctx.shape);
  ctx.Count("groups", int64_t(b.c.dg.size()));
  ctx.Count("samples", int64_t(total));
}
// The recorded findings (known_findings.txt), each on one fixed input.
void FindingCase(Ctx& ctx) {
  const Dirs p(ctx);
  std::string what;
  if (ctx.index == 0) {
    // one group with a number and a variable-length text, kept as signal data
    what = "variable-length text channel (signal data)";
    Scen s;
    s.start = 1700000000000000000ULL; s.stop = s.start + 1000000;
    CgSpec g; g.name = "g";
    ChSpec n; n.name = "n"; n.dt = ChannelDataType::UnsignedIntegerLe; n.bytes = 4;
    ChSpec t; t.name = "t"; t.type = ChannelType::VariableLength; t.dt = ChannelDataType::StringUTF8; t.bytes = 8;
    g.ch = {n, t};
    for (size_t i = 0; i < 3; ++i) {
      SampleSpec sm; sm.ts = s.start + i;
      Val a; a.k = VK::U; a.u = i; Val b; b.k = VK::S; b.s = "text " + std::to_string(i);
      sm.v = {{a}, {b}};
      g.samples.push_back(sm); s.order.push_back({0, 0, i});
    }
    s.dg.push_back({{g}, ""});
    s.periodic = false; s.flush_ms = 10000;
    if (auto e = WriteScen(s, p.src); !e.empty()) { ctx.Viol("write", e); return; }
  } else {
    what = "group next to a VLSD group of an unsorted data group";
  }
  for (uint64_t seed = 1; seed < 40; ++seed) {
    if (ctx.index == 1) {
      Rng r(seed);
      EncOpt o; o.max_dg = 1; o.max_cg = 2; o.mlsd = o.arrays = o.nested = o.dv = false;
      auto e = EncodeMdf4(r, o);
      Spit(p.src, std::string(e.bytes.begin(), e.bytes.end()));
    }
    const View a = Look(p.src);
    mdf::SortingTask task;
    task.SourceFile(p.src); task.DestinationFile(p.dst); task.OverwriteFile(true);
    task.Run();
    if (!a.c.ok || !task.Result()) { ctx.Viol("sorting failed", Messages(task)); return; }
    View b = Look(p.dst);
    std::string e = b.c.ok ? "" : b.c.err;
    Content want = b.c; want.dg.clear();
    for (auto& dg : a.c.dg) for (auto& cg : dg.cg) if (!cg.vlsd) { want.dg.emplace_back(); want.dg.back().cg.push_back(cg); }
    if (ctx.index == 1) for (auto* v : {&want, &b.c}) for (auto& dg : v->dg) for (auto& cg : dg.cg) for (auto& ch : cg.ch) if (ch.type == ChannelType::VariableLength) { ch.v.clear(); ch.eng.clear(); }
    if (e.empty()) e = DiffContent(want, b.c);
    ctx.shape = "finding " + std::to_string(ctx.index);
    ctx.Count("finding_cases");
    if (!e.empty()) { ctx.Viol("finding: sorting loses values of a " + what, e); return; }
    if (ctx.index == 0) return;
  }
}
}  // namespace

void RunCase(Ctx& ctx) {
  if (ctx.index < 2) { FindingCase(ctx); return; }
  auto& r = ctx.rng;
  const std::string bytes = SourceFile(ctx, false);
  if (ctx.nviol || bytes.empty()) return;
  SetFlushPeriod(r.Pick({1u, 10u, 10000u}));
  const Dirs p(ctx);
  const double u = r.Unit();
  if (u < 0.08) FailureCase(ctx, p, bytes);
  else if (u < 0.35) ValidateCase(ctx, p, bytes);
  else SortCase(ctx, p, bytes);
  if (p.TempLeft()) ctx.Viol("temporary file left", ctx.shape);
  ctx.sample = ctx.shape;
}
}  // namespace vh
