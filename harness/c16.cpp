// Attachments: exported byte for byte, true MD5, no interference.
#include <fstream>
#include "md5.h"
#include "membuf.h"
#include "mdf/cryptoutil.h"
#include "meta.h"
namespace vh {
const char* kPropId = "C16";
namespace {
struct Att { std::string file, type, desc; std::vector<uint8_t> data; bool embed = true, compress = false; Facts facts; };
std::vector<uint8_t> Slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
}
void Spill(const std::string& f, const std::vector<uint8_t>& d) {
  std::ofstream of(f, std::ios::binary);
  of.write(reinterpret_cast<const char*>(d.data()), static_cast<std::streamsize>(d.size()));
}
size_t OpenFiles() {
  size_t n = 0;
  for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++n; }
  return n;
}
std::vector<uint8_t> GenData(Rng& r, bool thorough) {
  size_t n = 0;
  switch (r.Below(8)) {
    case 0: n = r.Pick<size_t>({0, 1, 55, 56, 57, 63, 64, 65, 119, 120, 128}); break;
    case 1: n = static_cast<size_t>(r.Pick({10000, 16384, 16384 * 2, 262144, 20000, 4096}) + r.Range(-1, 1)); break;
    case 2: n = r.Below(thorough ? 6000000 : r.Chance(0.3) ? 1200000 : 100000); break;
    default: n = r.Tail(30000); break;
  }
  std::vector<uint8_t> d(n);
  const int kind = static_cast<int>(r.Below(5));
  uint64_t x = r.U64();
  for (size_t i = 0; i < n; ++i) {
    if (kind <= 1) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; d[i] = static_cast<uint8_t>(x >> 56); }
    else if (kind == 2) d[i] = static_cast<uint8_t>(x);
    else if (kind == 3) d[i] = static_cast<uint8_t>("mdf attachment text\r\n\0\xff\x1a"[i % 24]);
    else d[i] = static_cast<uint8_t>(i % 7 == 0 ? (x = Mix(x)) : 0xff);
  }
  return d;
}
}  // namespace

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  const std::string file = ctx.Path("a.mf4");
  std::vector<Att> atts;
  std::vector<Scen> scens;
  std::vector<size_t> first;
  const size_t fds = OpenFiles();
  const size_t steps = r.Chance(0.25) ? 2 : 1;
  std::ostringstream shape;
  std::filesystem::create_directories(ctx.Path("src"));
  bool mem = steps == 1 && r.Chance(0.2);
  auto buf = std::make_shared<MemBuf>();
  for (size_t st = 0; st < steps; ++st) {
    auto w = mdf::MdfFactory::CreateMdfWriter(mdf::MdfWriterType::Mdf4Basic);
    if (!(mem ? w->Init(std::static_pointer_cast<std::streambuf>(buf)) : w->Init(file))) { ctx.Viol("init", "Init failed"); return; }
    auto* hd = w->Header();
    GenOpt o; o.max_samples = 30; o.max_ch = 3; o.max_cg = 2; o.max_dg = 2;
    Scen s = GenScen(r, o);
    s.pause_every = 0;
    Handles h;
    const bool groups_first = r.Chance(0.5);
    if (groups_first && !CreateGroups(*w, s, h)) { ctx.Viol("groups", ""); return; }
    const size_t n = r.Below(4) + (st == 0 ? 1 : 0);
    for (size_t i = 0; i < n; ++i) {
      Att a;
      a.data = GenData(r, ctx.thorough());
      std::string nm = "f" + std::to_string(atts.size());
      if (r.Chance(0.3)) nm += r.Pick<std::string>({" with space", "\xC3\xA5\xC3\xA4\xC3\xB6", "\xE2\x82\xAC", "&<x>'\"", ".tar.gz", "#%20"});
      a.file = ctx.Path("src") + "/" + nm;
      Spill(a.file, a.data);
      a.embed = r.Chance(0.85);
      a.compress = r.Chance(0.5);
      auto* at = hd->CreateAttachment();
      if (!at) { ctx.Viol("create", "CreateAttachment returned null"); return; }
      const std::string k = "at" + std::to_string(atts.size()) + ".";
      at->FileName(a.file); a.facts[k + "file"] = a.file;
      a.type = r.Pick<std::string>({"", "text/xml", "application/x-zip", "\xC3\xB6/&<>"});
      at->FileType(a.type); a.facts[k + "type"] = a.type;
      at->IsEmbedded(a.embed); at->IsCompressed(a.compress);
      a.facts[k + "embedded"] = std::to_string(a.embed); a.facts[k + "compressed"] = std::to_string(a.compress);
      a.facts[k + "size"] = std::to_string(a.data.size());
      a.facts[k + "md5"] = Md5Hex(a.data);
      if (r.Chance(0.4)) { mdf::AtComment c; FillComment(r, c); at->SetAtComment(c); CommentFacts(c, k + "c.", a.facts); }
      const auto ci = static_cast<uint16_t>(r.Below(3)); at->CreatorIndex(ci); a.facts[k + "creator"] = std::to_string(ci);
      shape << (a.embed ? (a.compress ? "z" : "p") : "x") << a.data.size() << " ";
      atts.push_back(std::move(a));
    }
    first.push_back(hd->DataGroups().size() - (groups_first ? s.dg.size() : 0));
    const std::string err = RunMeasurement(*w, s, h);
    if (!err.empty()) { ctx.Viol("write", err); return; }
    scens.push_back(std::move(s));
  }
  // what was attached is in the file: the originals may go (embedded ones)
  for (auto& a : atts) if (a.embed && r.Chance(0.5)) std::filesystem::remove(a.file);

  {
    std::unique_ptr<mdf::MdfReader> rd = mem ? std::make_unique<mdf::MdfReader>(std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(buf->Data())))
                                             : std::make_unique<mdf::MdfReader>(file);
    Content c = ReadContent(*rd);
    if (!c.ok) { ctx.Viol("read", c.err); return; }
    for (size_t i = 0; i < scens.size(); ++i) CompareScen(ctx, scens[i], c, "data ", first[i]);
    Facts got = Snapshot(*rd, *rd->GetHeader(), false);
    for (auto& a : atts) CheckFacts(ctx, a.facts, got);
    const auto list = rd->GetHeader()->Attachments();
    if (list.size() != atts.size()) { ctx.Viol("attachment count", std::to_string(list.size()) + " want " + std::to_string(atts.size())); return; }
    std::vector<size_t> order;
    for (size_t i = 0; i < atts.size(); ++i) order.push_back(i);
    if (r.Chance(0.3)) order.push_back(r.Below(atts.size()));
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.Below(i)]);
    if (r.Chance(0.5)) rd->Close();
    size_t step = 0;
    for (size_t i : order) {
      const auto& a = atts[i];
      const std::string what = "attachment " + std::to_string(i) + " of " + std::to_string(atts.size()) + (a.embed ? a.compress ? " compressed " : " plain " : " external ") + std::to_string(a.data.size()) + " bytes";
      const std::string out = ctx.Path("out" + std::to_string(step++));
      if (r.Chance(0.3)) Spill(out, std::vector<uint8_t>(r.Below(50000), 0x55));  // an older, longer file
      if (!rd->ExportAttachmentData(*list[i], out)) { ctx.Viol("export to file failed", what); }
      else if (const auto d = Slurp(out); d != a.data) ctx.Viol("exported file differs", what + " got " + std::to_string(d.size()));
      if (!rd->ExportAttachmentData(*list[i], out)) ctx.Viol("second export failed", what);
      else if (Slurp(out) != a.data) ctx.Viol("second export differs", what);
      MemBuf dst;
      if (!rd->ExportAttachmentData(*list[i], dst)) ctx.Viol("export to stream failed", what);
      else { const auto& d = dst.Data(); if (d.size() != a.data.size() || !std::equal(d.begin(), d.end(), a.data.begin(), [](auto x, auto y) { return static_cast<uint8_t>(x) == y; })) ctx.Viol("exported stream differs", what + " got " + std::to_string(d.size())); }
      if (!list[i]->Md5() || *list[i]->Md5() != Md5Hex(a.data)) ctx.Viol("checksum", what);
      if (mdf::CreateMd5FileString(out) != Md5Hex(a.data)) ctx.Viol("checksum function", what);
      ctx.Count("exports", 3);
      ctx.Count("bytes_compared", static_cast<int64_t>(a.data.size()) * 3);
      std::filesystem::remove(out);
    }
  }
  if (const size_t now = OpenFiles(); now > fds) ctx.Viol("files left open", std::to_string(now - fds) + " more than before");
  ctx.shape = ctx.sample = shape.str();
  ctx.nontrivial = !atts.empty();
}
}  // namespace vh
