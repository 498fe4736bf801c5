// Descriptive data: random generation through the public API, the facts a
// reader must report, and a snapshot of everything a reader reports.
#pragma once
#include "mdf/iattachment.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/imetadata.h"
#include "mdf/isourceinformation.h"
#include "scen.h"

namespace vh {
using Facts = std::map<std::string, std::string>;

// A finite number of any magnitude that a comment can hold.
inline double AnyDouble(Rng& r) {
  if (r.Chance(0.4)) return static_cast<double>(r.Range(-100000, 100000)) / 64;
  const double m = (r.Unit() + 0.5) * (r.Chance(0.5) ? -1 : 1);
  return std::ldexp(m, static_cast<int>(r.Range(r.Chance(0.7) ? -40 : -900, r.Chance(0.7) ? 40 : 900)));
}
inline std::string Num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }

// Values that a setter altered before anything was stored.
inline std::vector<std::string>& SetterLoss() { static thread_local std::vector<std::string> v; return v; }
inline void Took(const char* what, double want, double got) { if (!SameDouble(want, got)) SetterLoss().push_back(std::string(what) + " set to " + Num(want) + " reports " + Num(got)); }

// Sets a part of an object and notes when the object does not report it.
template <class A, class = void> struct HasText : std::false_type {};
template <class A> struct HasText<A, std::void_t<decltype(std::declval<const A&>().Text())>> : std::true_type {};
template <class A, class B, class = void> struct CanCompare : std::false_type {};
template <class A, class B> struct CanCompare<A, B, std::void_t<decltype(static_cast<bool>(std::declval<const A&>() == std::declval<const B&>()))>> : std::true_type {};
template <class A, class B> void Kept(const char* what, const A& got, const B& want) {
  if constexpr (HasText<A>::value && HasText<B>::value) { if (got.Text() != want.Text()) SetterLoss().push_back(std::string(what) + " not kept"); }
  else if constexpr (std::is_same_v<A, mdf::MdNumber>) { if (got.IsActive() != want.IsActive()) SetterLoss().push_back(std::string(what) + " not kept"); }
  else if constexpr (std::is_arithmetic_v<A> && std::is_arithmetic_v<B>) { if (!(got == static_cast<A>(want))) SetterLoss().push_back(std::string(what) + " not kept"); }
  else if constexpr (CanCompare<A, B>::value) { if (!(got == want)) SetterLoss().push_back(std::string(what) + " not kept"); }
}
#define PUT(o, F, ...) do { auto v_ = (__VA_ARGS__); (o).F(v_); Kept(#F, std::as_const(o).F(), v_); } while (0)
#define ADD(o, F, L, ...) do { const size_t n_ = std::as_const(o).L().size(); (o).F(__VA_ARGS__); if (std::as_const(o).L().size() != n_ + 1) SetterLoss().push_back(#F " not kept"); } while (0)

// Text of a comment: any UTF-8 that XML can hold, no surrounding white space.
inline std::string MText(Rng& r, size_t max = 40, bool line = false) {
  size_t n = r.Below(max + 1);
  if (max >= 40 && r.Chance(0.02)) n = r.Below(r.Chance(0.2) ? 70000 : 3000);
  std::string s;
  while (s.size() < n) {
    switch (r.Below(line ? 4 : 5)) {
      case 0: s += r.Pick<std::string>({"<", ">", "&", "\"", "'", "&amp;", "</TX>", "]]>", "<!--", "&#65;", "%s", "\\", "<TX>", "/", "="}); break;
      case 1: s += Utf8(r, 1 + r.Below(9)); break;
      case 2: s += r.Pick<std::string>({" ", "  ", " a ", "\xC2\xA0", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"}); break;
      case 3: s += Utf8(r, 1 + r.Below(12), true); break;
      default: s += r.Pick<std::string>({"\n", "\t", "\n\n", " \n "}); break;
    }
  }
  mdf::MdfHelper::Trim(s);
  return s;
}

inline void ETagFacts(const mdf::ETag& t, const std::string& p, Facts& f) {
  const std::string k = p + "e." + t.Name() + ".";
  f[k + "desc"] = t.Description();
  f[k + "ci"] = std::to_string(t.CreatorIndex());
  if (t.TreeList().empty()) {
    f[k + "unit"] = t.Unit(); f[k + "unitref"] = t.UnitRef(); f[k + "type"] = t.Type(); f[k + "lang"] = t.Language();
    f[k + "ro"] = std::to_string(t.ReadOnly()); f[k + "value"] = t.Value<std::string>();
  }
  for (auto& c : t.TreeList()) ETagFacts(c, k, f);
}
inline void MetaFacts(const mdf::IMetaData* md, const std::string& p, Facts& f) {
  if (!md) return;
  f[p + "TX"] = md->StringProperty("TX");
  for (auto& t : md->CommonProperties()) ETagFacts(t, p, f);
}
inline void StdFacts(const mdf::MdStandardAttribute& a, const std::string& k, Facts& f) {
  f[k + "hist"] = std::to_string(a.HistoryIndex());
  f[k + "lang"] = a.Language();
  for (auto& [n, v] : a.CustomAttributes()) f[k + "attr." + n] = v;
  f[k + "attrs"] = std::to_string(a.CustomAttributes().size());
}
inline void StringFacts(const mdf::MdString& s, const std::string& k, Facts& f) {
  if (!s.IsActive()) return;
  f[k + "text"] = s.Text();
  StdFacts(s, k, f);
}
inline void NumberFacts(const mdf::MdNumber& n, const std::string& k, Facts& f) {
  if (!n.IsActive()) return;
  f[k + "value"] = Num(n.Number<double>());  // the kind of number is not part of the comment
  f[k + "uint"] = std::to_string(n.Number<uint64_t>());
  f[k + "unit"] = n.Unit();
  f[k + "min"] = n.Min() ? Num(*n.Min()) : "-";
  f[k + "max"] = n.Max() ? Num(*n.Max()) : "-";
  f[k + "average"] = n.Average() ? Num(*n.Average()) : "-";
  f[k + "bytes"] = std::to_string(n.ByteCount()); f[k + "mask"] = std::to_string(n.BitMask()); f[k + "order"] = std::to_string(static_cast<int>(n.ByteOrder()));
  f[k + "unitref"] = n.UnitRef(); f[k + "triggered"] = std::to_string(n.Triggered());
  StdFacts(n, k, f);
}
inline void PropFacts(const mdf::MdProperty& p, const std::string& k, Facts& f, bool value = true) {
  f[k + "desc"] = p.Description(); f[k + "unit"] = p.Unit(); f[k + "unitref"] = p.UnitReference();
  // MdHex is an integer in the file
  f[k + "type"] = std::to_string(static_cast<int>(p.DataType() == mdf::MdDataType::MdHex ? mdf::MdDataType::MdInteger : p.DataType()));
  f[k + "ro"] = std::to_string(p.ReadOnly());
  if (value) { f[k + "value"] = p.Value<std::string>(); f[k + "uint"] = std::to_string(p.Value<uint64_t>()); f[k + "bool"] = std::to_string(p.Value<bool>()); }
  StdFacts(p, k, f);
}
inline void ListFacts(const mdf::MdPropertyList& pl, const mdf::MdListList& tl, const mdf::MdListList& ll, const mdf::MdEnumerateList& el, const std::string& k, Facts& f) {
  for (auto& [n, v] : pl) PropFacts(v, k + "p." + n + ".", f);
  for (auto& [n, v] : el) {
    PropFacts(v, k + "enum." + n + ".", f, false);
    size_t i = 0;
    for (auto& x : v.ValueList()) StringFacts(x, k + "enum." + n + "." + std::to_string(i++) + ".", f);
  }
  for (auto& [n, v] : tl) { f[k + "tree." + n + ".desc"] = v.Description(); StdFacts(v, k + "tree." + n + ".", f); ListFacts(v.Properties(), v.Trees(), v.Lists(), v.Enumerates(), k + "tree." + n + ".", f); }
  for (auto& [n, v] : ll) { f[k + "list." + n + ".desc"] = v.Description(); StdFacts(v, k + "list." + n + ".", f); ListFacts(v.Properties(), v.Trees(), v.Lists(), v.Enumerates(), k + "list." + n + ".", f); }
}
inline void NamesFacts(const mdf::MdAlternativeName& a, const std::string& k, Facts& f) {
  if (!a.IsActive()) return;
  size_t i = 0;
  for (auto& x : a.AlternativeNames()) StringFacts(x, k + "name" + std::to_string(i++) + ".", f);
  i = 0;
  for (auto& x : a.DisplayNames()) StringFacts(x, k + "display" + std::to_string(i++) + ".", f);
  i = 0;
  for (auto& x : a.Vendors()) StringFacts(x, k + "vendor" + std::to_string(i++) + ".", f);
  i = 0;
  for (auto& x : a.Descriptions()) StringFacts(x, k + "description" + std::to_string(i++) + ".", f);
}
inline void CommentFacts(const mdf::MdComment& c, const std::string& k, Facts& f) {
  StringFacts(c.Comment(), k + "comment.", f);
  ListFacts(c.Properties(), c.Trees(), c.Lists(), c.Enumerates(), k, f);
  NamesFacts(c.Names(), k + "names.", f);
}

inline mdf::MdString GenMdString(Rng& r, bool line = false) {
  mdf::MdString s(MText(r, 30, line) + "x");
  if (r.Chance(0.2)) PUT(s, HistoryIndex, r.Below(5));
  if (r.Chance(0.2)) PUT(s, Language, r.Pick<std::string>({"en", "sv", "de-AT"}));
  return s;
}
inline mdf::MdProperty GenMdProperty(Rng& r, size_t i) {
  mdf::MdProperty p;
  PUT(p, Name, "prop" + std::to_string(i) + MText(r, 8, true));
  if (r.Chance(0.5)) PUT(p, Description, MText(r, 20, true));
  if (r.Chance(0.3)) PUT(p, Unit, r.Pick<std::string>({"V", "m/s", "<&>", "\xC2\xB5m"}));
  if (r.Chance(0.2)) PUT(p, UnitReference, "ref" + std::to_string(r.Below(10)));
  if (r.Chance(0.3)) PUT(p, ReadOnly, true);
  switch (r.Below(8)) {
    case 5: {
      const uint64_t v = r.U64() >> r.Below(60);
      PUT(p, DataType, r.Pick({mdf::MdDataType::MdHex, mdf::MdDataType::MdInteger, mdf::MdDataType::MdString, mdf::MdDataType::MdDecimal})); p.Value(v);
      if (p.Value<uint64_t>() != v) SetterLoss().push_back("MdProperty set to " + std::to_string(v) + " reports " + std::to_string(p.Value<uint64_t>()));
      break;
    }
    case 6: {
      // a point in time is kept in milliseconds
      const uint64_t v = (946684800000ULL + r.Below(2000000000000ULL)) * 1000000ULL;
      PUT(p, DataType, mdf::MdDataType::MdDateTime); p.Value(v);
      const uint64_t got = p.Value<uint64_t>();
      if (got != v) SetterLoss().push_back("MdProperty time set to " + std::to_string(v) + " reports " + std::to_string(got));
      break;
    }
    case 7: { PUT(p, DataType, mdf::MdDataType::MdBoolean); const bool v = r.Chance(0.5); p.Value(static_cast<uint64_t>(v ? 1 + r.Below(9) : 0)); if (p.Value<bool>() != v) SetterLoss().push_back("MdProperty boolean"); break; }
    case 0: PUT(p, DataType, mdf::MdDataType::MdInteger); p.Value(static_cast<int64_t>(r.U64())); break;
    case 1: PUT(p, DataType, mdf::MdDataType::MdFloat); { const double d = AnyDouble(r); p.Value(d); Took("MdProperty", d, p.Value<double>()); } break;
    case 2: { PUT(p, DataType, mdf::MdDataType::MdBoolean); const bool v = r.Chance(0.5); p.Value(v); if (p.Value<bool>() != v) SetterLoss().push_back("MdProperty boolean"); } break;
    case 3: PUT(p, DataType, r.Pick({mdf::MdDataType::MdDate, mdf::MdDataType::MdTime, mdf::MdDataType::MdDecimal})); p.Value(std::string("2024-01-02")); break;
    default: p.Value(MText(r)); break;
  }
  if (r.Chance(0.2)) PUT(p, HistoryIndex, r.Below(4));
  if (r.Chance(0.2)) PUT(p, Language, "sv");
  if (r.Chance(0.1)) p.AddCustomAttribute("own", MText(r, 8, true));
  return p;
}
inline mdf::MdEnumerate GenMdEnum(Rng& r, size_t i) {
  mdf::MdEnumerate e;
  PUT(e, Name, "enum" + std::to_string(i));
  const size_t n = 1 + r.Below(4);
  for (size_t k = 0; k < n; ++k) ADD(e, AddValue, ValueList, GenMdString(r));
  if (r.Chance(0.3)) PUT(e, Description, MText(r, 15, true));
  if (r.Chance(0.3)) PUT(e, Unit, "V");
  if (r.Chance(0.3)) PUT(e, ReadOnly, true);
  return e;
}
inline mdf::MdList GenMdList(Rng& r, size_t i, const std::string& kind, int depth) {
  mdf::MdList l;
  PUT(l, Name, kind + std::to_string(i));
  if (r.Chance(0.5)) PUT(l, Description, MText(r, 15, true));
  const size_t n = 1 + r.Below(3);
  for (size_t k = 0; k < n; ++k) ADD(l, AddProperty, Properties, GenMdProperty(r, k));
  if (depth > 0 && kind == "tree" && r.Chance(0.4)) ADD(l, AddTree, Trees, GenMdList(r, 0, "tree", depth - 1));
  if (depth > 0 && r.Chance(0.2)) ADD(l, AddList, Lists, GenMdList(r, 1, "list", depth - 1));
  if (r.Chance(0.2)) ADD(l, AddEnumerate, Enumerates, GenMdEnum(r, 1));
  if (r.Chance(0.2)) PUT(l, HistoryIndex, 1 + r.Below(3));
  return l;
}
inline void FillComment(Rng& r, mdf::MdComment& c) {
  if (r.Chance(0.8)) PUT(c, Comment, r.Chance(0.5) ? mdf::MdString(MText(r, 60)) : GenMdString(r));
  const size_t n = r.Below(4);
  for (size_t i = 0; i < n; ++i) ADD(c, AddProperty, Properties, GenMdProperty(r, i));
  if (r.Chance(0.25)) ADD(c, AddTree, Trees, GenMdList(r, 0, "tree", 2));
  if (r.Chance(0.15)) ADD(c, AddEnumerate, Enumerates, GenMdEnum(r, 0));
  if (r.Chance(0.15)) ADD(c, AddList, Lists, GenMdList(r, 0, "list", 1));
}
inline mdf::ETag GenETag(Rng& r, size_t i, int depth) {
  mdf::ETag t;
  PUT(t, Name, "tag" + std::to_string(i) + MText(r, 6, true));
  if (r.Chance(0.4)) PUT(t, Description, MText(r, 20, true));
  if (r.Chance(0.2)) PUT(t, CreatorIndex, static_cast<int>(r.Below(4)));
  if (depth > 0 && r.Chance(0.25)) {
    const size_t n = 1 + r.Below(3);
    for (size_t k = 0; k < n; ++k) t.AddTag(GenETag(r, k, depth - 1));
    return t;
  }
  if (r.Chance(0.3)) PUT(t, Unit, r.Pick<std::string>({"km", "<", "\xC2\xB0"}));
  if (r.Chance(0.2)) PUT(t, UnitRef, "u1");
  if (r.Chance(0.3)) PUT(t, ReadOnly, true);
  if (r.Chance(0.2)) PUT(t, Language, "en");
  switch (r.Below(4)) {
    case 0: PUT(t, DataType, mdf::ETagDataType::IntegerType); t.Value(static_cast<int64_t>(r.U64() >> 10)); break;
    case 1: PUT(t, DataType, mdf::ETagDataType::FloatType); { const double d = AnyDouble(r); t.Value(d); Took("ETag", d, t.Value<double>()); } break;
    case 2: PUT(t, DataType, mdf::ETagDataType::BooleanType); t.Value(r.Chance(0.5)); break;
    default: t.Value(MText(r)); break;
  }
  return t;
}
// Fills a metadata block through the tag interface.
inline void FillMeta(Rng& r, mdf::IMetaData* md, const std::string& p, Facts& f) {
  if (!md) { f[p + "exists"] = "1"; return; }
  const size_t n = 1 + r.Below(3);
  std::vector<mdf::ETag> list;
  for (size_t i = 0; i < n; ++i) list.push_back(GenETag(r, i, 2));
  if (r.Chance(0.5)) md->CommonProperties(list); else for (auto& t : list) md->CommonProperty(t);
  for (auto& t : list) ETagFacts(t, p, f);
}

inline void HdCommentFacts(const mdf::HdComment& c, const std::string& k, Facts& f) {
  CommentFacts(c, k, f);
  StringFacts(c.TimeSource(), k + "timesource.", f);
  for (auto& [n, v] : c.Constants()) f[k + "const." + n.Text()] = v;
}
inline void FhCommentFacts(const mdf::FhComment& c, const std::string& k, Facts& f) {
  CommentFacts(c, k, f);
  StringFacts(c.ToolId(), k + "toolid.", f); StringFacts(c.ToolVendor(), k + "vendor.", f);
  StringFacts(c.ToolVersion(), k + "version.", f); StringFacts(c.UserName(), k + "user.", f);
}
inline void EvCommentFacts(const mdf::EvComment& c, const std::string& k, Facts& f) {
  CommentFacts(c, k, f);
  NumberFacts(c.PreTriggerInterval(), k + "pre.", f); NumberFacts(c.PostTriggerInterval(), k + "post.", f); NumberFacts(c.Timeout(), k + "timeout.", f);
}
inline void CnCommentFacts(const mdf::CnComment& c, const std::string& k, Facts& f) {
  CommentFacts(c, k, f);
  StringFacts(c.LinkerName(), k + "linker.", f); NumberFacts(c.LinkerAddress(), k + "linkaddr.", f);
  NumberFacts(c.Raster(), k + "raster.", f); NumberFacts(c.Address(), k + "address.", f);
  f[k + "monotony"] = std::to_string(static_cast<int>(c.AxisMonotony()));
}
inline void SiCommentFacts(const mdf::SiComment& c, const std::string& k, Facts& f) {
  CommentFacts(c, k, f);
  NamesFacts(c.Path(), k + "path.", f); NamesFacts(c.Bus(), k + "bus.", f); StringFacts(c.Protocol(), k + "protocol.", f);
}
inline void TookInt(const char* what, uint64_t want, uint64_t got) { if (want != got) SetterLoss().push_back(std::string(what) + " set to " + std::to_string(want) + " reports " + std::to_string(got)); }
inline void GenNumberParts(Rng& r, mdf::MdNumber& n) {
  if (r.Chance(0.2)) PUT(n, Average, AnyDouble(r));
  if (r.Chance(0.2)) PUT(n, ByteCount, 1 + r.Below(16));
  if (r.Chance(0.2)) PUT(n, BitMask, r.U64() >> r.Below(64));
  if (r.Chance(0.2)) PUT(n, ByteOrder, mdf::MdByteOrder::BigEndian);
  if (r.Chance(0.2)) PUT(n, UnitRef, MText(r, 8, true));
  if (r.Chance(0.2)) PUT(n, Triggered, true);
  if (r.Chance(0.2)) PUT(n, HistoryIndex, 1 + r.Below(4));
  if (r.Chance(0.2)) PUT(n, Language, "en");
  if (r.Chance(0.1)) n.AddCustomAttribute("own", MText(r, 8, true));
}
inline mdf::MdNumber GenNumber(Rng& r) {
  if (r.Chance(0.4)) {
    const uint64_t v = r.U64() >> r.Below(60);
    const auto type = r.Chance(0.5) ? mdf::MdDataType::MdHex : mdf::MdDataType::MdInteger;
    mdf::MdNumber n;
    if (r.Chance(0.5)) n = mdf::MdNumber(v, type); else { n.DataType(type); n.Number(v); }
    TookInt("MdNumber", v, n.Number<uint64_t>());
    GenNumberParts(r, n);
    return n;
  }
  const double d = AnyDouble(r);
  mdf::MdNumber n(d);
  if (r.Chance(0.3)) n.Number(d);
  Took("MdNumber", d, n.Number<double>());
  if (r.Chance(0.3)) PUT(n, Unit, "ms");
  if (r.Chance(0.3)) { PUT(n, Min, AnyDouble(r)); PUT(n, Max, AnyDouble(r)); }
  GenNumberParts(r, n);
  return n;
}
inline void GenNames(Rng& r, mdf::MdAlternativeName& a) {
  const size_t n = 1 + r.Below(2);
  for (size_t i = 0; i < n; ++i) ADD(a, AddAlternativeName, AlternativeNames, GenMdString(r));
  if (r.Chance(0.4)) ADD(a, AddDisplayName, DisplayNames, GenMdString(r));
  if (r.Chance(0.3)) ADD(a, AddVendor, Vendors, GenMdString(r));
  if (r.Chance(0.3)) ADD(a, AddDescription, Descriptions, GenMdString(r));
}

// ---------------------------------------------------------------- snapshot
inline std::string Pair(const std::optional<std::pair<double, double>>& p) { return p ? Num(p->first) + ".." + Num(p->second) : "-"; }
inline void SourceFacts(const mdf::ISourceInformation* s, const std::string& k, Facts& f, bool mdf3) {
  if (!s) return;
  f[k + "name"] = s->Name(); f[k + "path"] = s->Path(); f[k + "desc"] = s->Description();
  f[k + "type"] = std::to_string(static_cast<int>(s->Type())); f[k + "bus"] = std::to_string(static_cast<int>(s->Bus()));
  f[k + "flags"] = std::to_string(s->Flags());
  if (mdf3) return;
  MetaFacts(s->MetaData(), k + "md.", f);
  mdf::SiComment c; s->GetSiComment(c); SiCommentFacts(c, k + "c.", f);
}
struct Where {  // maps the objects of one reader (or writer) to names
  std::map<const void*, std::string> name;
  template <class T> std::string Of(const T* p) const {
    if (!p) return "nil";
    auto it = name.find(p);
    return it == name.end() ? "unknown" : it->second;
  }
};
inline std::string LinkText(const mdf::ElementLink& l, const Where& w) { return w.Of(l.data_group) + "/" + w.Of(l.channel_group) + "/" + w.Of(l.channel); }

inline void HierarchyFacts(const mdf::IChannelHierarchy& ch, const std::string& k, const Where& w, Facts& f) {
  f[k + "name"] = ch.Name(); f[k + "type"] = std::to_string(static_cast<int>(ch.Type())); f[k + "desc"] = ch.Description();
  size_t i = 0;
  for (auto& e : ch.ElementLinks()) f[k + "elem" + std::to_string(i++)] = LinkText(e, w);
  f[k + "elems"] = std::to_string(i);
  MetaFacts(ch.MetaData(), k + "md.", f);
  i = 0;
  for (auto* c : ch.ChannelHierarchies()) if (c) HierarchyFacts(*c, k + "ch" + std::to_string(i++) + ".", w, f);
}
inline Where NameObjects(const mdf::IHeader& hd) {
  Where w;
  size_t d = 0;
  for (auto* dg : hd.DataGroups()) {
    w.name[dg] = "dg" + std::to_string(d);
    size_t g = 0;
    for (auto* cg : dg->ChannelGroups()) {
      const std::string gn = "dg" + std::to_string(d) + ".cg" + std::to_string(g++);
      w.name[cg] = gn;
      size_t n = 0;
      for (auto* cn : cg->Channels()) w.name[cn] = gn + ".cn" + std::to_string(n++);
    }
    ++d;
  }
  size_t i = 0;
  for (auto* e : hd.Events()) w.name[e] = "ev" + std::to_string(i++);
  i = 0;
  for (auto* a : hd.Attachments()) w.name[a] = "at" + std::to_string(i++);
  return w;
}
inline void ConversionFacts(const mdf::IChannelConversion* cc, const std::string& k, Facts& f, bool mdf3, int depth = 0) {
  if (!cc) return;
  if (!mdf3 && depth < 3) ConversionFacts(cc->Inverse(), k + "inv.", f, mdf3, depth + 1);
  f[k + "type"] = std::to_string(static_cast<int>(cc->Type()));
  for (uint16_t i = 0; i < cc->NofParameters(); ++i) f[k + "par" + std::to_string(i)] = Num(cc->Parameter(i));
  if (mdf3) return;
  f[k + "name"] = cc->Name(); f[k + "unit"] = cc->Unit(); f[k + "desc"] = cc->Description(); f[k + "range"] = Pair(cc->Range());
  f[k + "decimals"] = cc->IsDecimalUsed() ? std::to_string(cc->Decimals()) : "-";
  for (uint16_t i = 0; i < cc->NofReferences(); ++i) f[k + "ref" + std::to_string(i)] = cc->Reference(i);
  mdf::CcComment c; cc->GetCcComment(c); CommentFacts(c, k + "c.", f);
}
inline Facts Snapshot(mdf::MdfReader& rd, const mdf::IHeader& hd, bool mdf3, bool attachments = true) {
  Facts f;
  f["hd.author"] = hd.Author(); f["hd.department"] = hd.Department(); f["hd.project"] = hd.Project(); f["hd.subject"] = hd.Subject();
  f["hd.desc"] = hd.Description(); f["hd.start"] = std::to_string(hd.StartTime());
  if (!mdf3) {
    f["hd.measid"] = hd.MeasurementId(); f["hd.recid"] = hd.RecorderId(); f["hd.recindex"] = std::to_string(hd.RecorderIndex());
    f["hd.angle"] = hd.StartAngle() ? Num(*hd.StartAngle()) : "-"; f["hd.distance"] = hd.StartDistance() ? Num(*hd.StartDistance()) : "-";
    MetaFacts(hd.MetaData(), "hd.md.", f);
    mdf::HdComment c; hd.GetHdComment(c); HdCommentFacts(c, "hd.c.", f);
  }
  const Where w = NameObjects(hd);
  size_t i = 0;
  if (!mdf3) {
    for (auto* fh : hd.FileHistories()) {
      const std::string k = "fh" + std::to_string(i++) + ".";
      f[k + "time"] = std::to_string(fh->Time()); f[k + "desc"] = fh->Description(); f[k + "tool"] = fh->ToolName(); f[k + "vendor"] = fh->ToolVendor();
      f[k + "version"] = fh->ToolVersion(); f[k + "user"] = fh->UserName();
      MetaFacts(fh->MetaData(), k + "md.", f);
      mdf::FhComment c; fh->GetFhComment(c); FhCommentFacts(c, k + "c.", f);
    }
    f["fhs"] = std::to_string(i);
    i = 0;
    for (auto* a : hd.Attachments()) {
      const std::string k = "at" + std::to_string(i++) + ".";
      f[k + "file"] = a->FileName(); f[k + "type"] = a->FileType(); f[k + "creator"] = std::to_string(a->CreatorIndex());
      f[k + "embedded"] = std::to_string(a->IsEmbedded()); f[k + "compressed"] = std::to_string(a->IsCompressed());
      f[k + "md5"] = a->Md5() ? *a->Md5() : "-"; f[k + "size"] = std::to_string(a->OriginalSize());
      MetaFacts(a->MetaData(), k + "md.", f);
      mdf::AtComment c; a->GetAtComment(c); CommentFacts(c, k + "c.", f);
    }
    f["ats"] = std::to_string(i);
    (void)attachments; (void)rd;
    i = 0;
    for (auto* e : hd.Events()) {
      const std::string k = "ev" + std::to_string(i++) + ".";
      f[k + "name"] = e->Name(); f[k + "group"] = e->GroupName(); f[k + "type"] = std::to_string(static_cast<int>(e->Type()));
      f[k + "sync"] = std::to_string(static_cast<int>(e->Sync())); f[k + "range"] = std::to_string(static_cast<int>(e->Range()));
      f[k + "cause"] = std::to_string(static_cast<int>(e->Cause())); f[k + "creator"] = std::to_string(e->CreatorIndex());
      f[k + "value"] = std::to_string(e->SyncValue()); f[k + "factor"] = Num(e->SyncFactor()); f[k + "desc"] = e->Description();
      f[k + "pre"] = Num(e->PreTrig()); f[k + "post"] = Num(e->PostTrig());
      f[k + "parent"] = w.Of(e->ParentEvent()); f[k + "rangeev"] = w.Of(e->RangeEvent());
      size_t n = 0;
      for (auto* s : e->Scopes()) f[k + "scope" + std::to_string(n++)] = w.Of(s);
      f[k + "scopes"] = std::to_string(n);
      n = 0;
      for (auto* s : e->Attachments()) f[k + "at" + std::to_string(n++)] = w.Of(s);
      f[k + "ats"] = std::to_string(n);
      MetaFacts(e->MetaData(), k + "md.", f);
      mdf::EvComment c; e->GetEvComment(c); EvCommentFacts(c, k + "c.", f);
    }
    f["evs"] = std::to_string(i);
    i = 0;
    for (auto* ch : hd.ChannelHierarchies()) HierarchyFacts(*ch, "ch" + std::to_string(i++) + ".", w, f);
    f["chs"] = std::to_string(i);
  }
  size_t d = 0;
  for (auto* dg : hd.DataGroups()) {
    const std::string dk = "dg" + std::to_string(d++) + ".";
    f[dk + "desc"] = dg->Description();
    f[dk + "idsize"] = std::to_string(dg->RecordIdSize());
    if (!mdf3) { MetaFacts(dg->MetaData(), dk + "md.", f); mdf::DgComment c; dg->GetDgComment(c); CommentFacts(c, dk + "c.", f); }
    size_t g = 0;
    for (auto* cg : dg->ChannelGroups()) {
      const std::string gk = dk + "cg" + std::to_string(g++) + ".";
      f[gk + "name"] = cg->Name(); f[gk + "desc"] = cg->Description(); f[gk + "samples"] = std::to_string(cg->NofSamples());
      f[gk + "id"] = std::to_string(cg->RecordId());
      if (!mdf3) {
        f[gk + "flags"] = std::to_string(cg->Flags()); f[gk + "sep"] = std::to_string(static_cast<int>(cg->PathSeparator()));
        SourceFacts(cg->SourceInformation(), gk + "si.", f, mdf3);
        MetaFacts(cg->MetaData(), gk + "md.", f); mdf::CgComment c; cg->GetCgComment(c); CommentFacts(c, gk + "c.", f);
      }
      size_t n = 0;
      for (auto* cn : cg->Channels()) {
        const std::string k = gk + "cn" + std::to_string(n++) + ".";
        f[k + "name"] = cn->Name(); f[k + "desc"] = cn->Description(); f[k + "unit"] = cn->Unit(); f[k + "display"] = cn->DisplayName();
        f[k + "type"] = std::to_string(static_cast<int>(cn->Type())); f[k + "dt"] = std::to_string(static_cast<int>(cn->DataType()));
        f[k + "sync"] = std::to_string(static_cast<int>(cn->Sync())); f[k + "bits"] = std::to_string(cn->BitCount());
        f[k + "range"] = Pair(cn->Range());
        if (!mdf3) {
          f[k + "flags"] = std::to_string(cn->Flags()); f[k + "decimals"] = cn->IsDecimalUsed() ? std::to_string(cn->Decimals()) : "-";
          f[k + "limit"] = Pair(cn->Limit()); f[k + "extlimit"] = Pair(cn->ExtLimit());
          f[k + "defaultx"] = LinkText(cn->DefaultX(), w);
          size_t m = 0;
          for (auto* a : cn->AttachmentList()) f[k + "at" + std::to_string(m++)] = w.Of(a);
          SourceFacts(cn->SourceInformation(), k + "si.", f, mdf3);
          MetaFacts(cn->MetaData(), k + "md.", f); mdf::CnComment c; cn->GetCnComment(c); CnCommentFacts(c, k + "c.", f);
        } else {
          f[k + "rate"] = Num(cn->SamplingRate());
        }
        ConversionFacts(cn->ChannelConversion(), k + "cc.", f, mdf3);
      }
      f[gk + "cns"] = std::to_string(n);
    }
    f[dk + "cgs"] = std::to_string(g);
  }
  f["dgs"] = std::to_string(d);
  return f;
}

// Every wanted fact is reported.
inline void CheckFacts(Ctx& ctx, const Facts& want, const Facts& got, const std::string& pfx = "") {
  auto Key = [](const std::string& k) {  // stable key: no indices, no names
    std::string o;
    for (char c : k) if (!isdigit(static_cast<unsigned char>(c))) o += c;
    const auto p = o.find(".p.prop"); if (p != std::string::npos) { const auto q = o.rfind('.'); o = o.substr(0, p + 3) + o.substr(q); }
    const auto e = o.find("e.tag"); if (e != std::string::npos) { const auto q = o.rfind('.'); o = o.substr(0, e + 1) + o.substr(q); }
    return o.substr(0, 60);
  };
  for (auto& [k, v] : want) {
    ctx.Count("facts");
    auto it = got.find(k);
    if (it == got.end()) ctx.Viol(pfx + "missing " + Key(k), k + " want '" + v.substr(0, 200) + "'");
    else if (it->second != v) ctx.Viol(pfx + "changed " + Key(k), k + " got '" + it->second.substr(0, 300) + "' want '" + v.substr(0, 300) + "'");
  }
}

// ---------------------------------------------------------------- generating
struct MetaOpt { bool mdf3 = false, hd = true, fh = true, ev = true, at = true, ch = true, channels = true; };

inline void GenSource(Rng& r, mdf::ISourceInformation* s, const std::string& k, Facts& f) {
  if (!s) { f[k + "exists"] = "1"; return; }
  auto set = [&](const std::string& n, const std::string& v) { f[k + n] = v; };
  std::string t = MText(r, 20); s->Name(t); set("name", t);
  t = MText(r, 20); s->Path(t); set("path", t);
  const int ty = static_cast<int>(r.Below(6)), bu = static_cast<int>(r.Below(9));
  s->Type(static_cast<mdf::SourceType>(ty)); set("type", std::to_string(ty));
  s->Bus(static_cast<mdf::BusType>(bu)); set("bus", std::to_string(bu));
  if (r.Chance(0.3)) { s->Flags(1); set("flags", "1"); }
  if (r.Chance(0.4)) { t = MText(r); s->Description(t); set("desc", t); if (r.Chance(0.4)) FillMeta(r, s->CreateMetaData(), k + "md.", f); }
  else if (r.Chance(0.4)) {
    mdf::SiComment c; FillComment(r, c);
    if (r.Chance(0.4)) GenNames(r, c.Path());
    if (r.Chance(0.4)) GenNames(r, c.Bus());
    if (r.Chance(0.4)) PUT(c, Protocol, GenMdString(r));
    if (r.Chance(0.4)) GenNames(r, c.Names());
    s->SetSiComment(c); SiCommentFacts(c, k + "c.", f);
  }
}

inline void GenHeader(Rng& r, mdf::IHeader& hd, bool mdf3, Facts& f) {
  const size_t cap = mdf3 ? 30 : 60;
  auto text = [&] { return mdf3 ? Word(r, r.Below(cap), true) : MText(r, cap); };
  auto put = [&](const char* k, const std::string& v) { f[std::string("hd.") + k] = v; return v; };
  const bool comment = !mdf3 && r.Chance(0.25);
  if (!comment) {
    if (r.Chance(0.8)) hd.Author(put("author", text()));
    if (r.Chance(0.8)) hd.Department(put("department", text()));
    if (r.Chance(0.8)) hd.Project(put("project", text()));
    if (r.Chance(0.8)) hd.Subject(put("subject", text()));
    if (r.Chance(0.8)) hd.Description(put("desc", mdf3 ? Word(r, r.Below(200), true) : MText(r, 100)));
    if (mdf3) return;
    if (r.Chance(0.4)) hd.MeasurementId(put("measid", "3fbaefe4-ad47-11ec-b909-0242ac120002"));
    if (r.Chance(0.4)) hd.RecorderId(put("recid", "62084f06-ad47-11ec-b909-0242ac120002"));
    if (r.Chance(0.4)) { const int64_t i = r.Range(0, 1 << 30); hd.RecorderIndex(i); put("recindex", std::to_string(i)); }
    if (r.Chance(0.4)) FillMeta(r, hd.CreateMetaData(), "hd.md.", f);
  } else {
    mdf::HdComment c; FillComment(r, c);
    std::string t;
    if (r.Chance(0.6)) { t = text(); c.Author(t); if (!t.empty()) f["hd.author"] = t; }
    if (r.Chance(0.6)) { t = text(); c.Project(t); if (!t.empty()) f["hd.project"] = t; }
    if (r.Chance(0.4)) PUT(c, TimeSource, GenMdString(r));
    if (r.Chance(0.4)) c.AddConstant(mdf::MdString("PI"), "3.14 < x & y");
    hd.SetHdComment(c); HdCommentFacts(c, "hd.c.", f);
  }
  if (r.Chance(0.3)) { const double a = AnyDouble(r); hd.StartAngle(a); put("angle", Num(a)); }
  if (r.Chance(0.3)) { const double a = AnyDouble(r); hd.StartDistance(a); put("distance", Num(a)); }
}

inline void GenHistory(Rng& r, mdf::IHeader& hd, size_t idx, uint64_t now, Facts& f) {
  auto* fh = hd.CreateFileHistory();
  const std::string k = "fh" + std::to_string(idx) + ".";
  if (!fh) { f[k + "exists"] = "1"; return; }
  const uint64_t t = now - r.Below(1000000000000ULL);
  fh->Time(t); f[k + "time"] = std::to_string(t);
  if (r.Chance(0.6)) {
    std::string s;
    s = MText(r); fh->Description(s); f[k + "desc"] = s;
    s = MText(r, 20); fh->ToolName(s); f[k + "tool"] = s;
    s = MText(r, 20); fh->ToolVendor(s); f[k + "vendor"] = s;
    s = MText(r, 20); fh->ToolVersion(s); f[k + "version"] = s;
    s = MText(r, 20); fh->UserName(s); f[k + "user"] = s;
    if (r.Chance(0.4)) FillMeta(r, fh->CreateMetaData(), k + "md.", f);
  } else {
    mdf::FhComment c; FillComment(r, c);
    PUT(c, ToolId, GenMdString(r)); PUT(c, ToolVendor, GenMdString(r)); PUT(c, ToolVersion, GenMdString(r));
    if (r.Chance(0.5)) PUT(c, UserName, GenMdString(r));
    fh->SetFhComment(c); FhCommentFacts(c, k + "c.", f);
  }
}

// objects: what the event may refer to (pointer, name in NameObjects terms)
struct EvRefs {
  std::vector<std::pair<const mdf::IEvent*, std::string>> ev;
  std::vector<std::pair<const void*, std::string>> scope;
  std::vector<std::pair<const mdf::IAttachment*, std::string>> at;
};
inline mdf::IEvent* GenEvent(Rng& r, mdf::IHeader& hd, size_t idx, EvRefs& refs, Facts& f) {
  auto* e = hd.CreateEvent();
  const std::string k = "ev" + std::to_string(idx) + ".";
  if (!e) { f[k + "exists"] = "1"; return nullptr; }
  auto set = [&](const std::string& n, const std::string& v) { f[k + n] = v; };
  std::string t = MText(r, 20); e->Name(t); set("name", t);
  if (r.Chance(0.4)) { t = MText(r, 10); e->GroupName(t); set("group", t); }
  int x = static_cast<int>(r.Below(7)); e->Type(static_cast<mdf::EventType>(x)); set("type", std::to_string(x));
  x = static_cast<int>(1 + r.Below(4)); e->Sync(static_cast<mdf::SyncType>(x)); set("sync", std::to_string(x));
  x = static_cast<int>(r.Below(3)); e->Range(static_cast<mdf::RangeType>(x)); set("range", std::to_string(x));
  x = static_cast<int>(r.Below(5)); e->Cause(static_cast<mdf::EventCause>(x)); set("cause", std::to_string(x));
  x = static_cast<int>(r.Below(100)); e->CreatorIndex(static_cast<size_t>(x)); set("creator", std::to_string(x));
  const int64_t v = static_cast<int64_t>(r.U64()); e->SyncValue(v); set("value", std::to_string(v));
  const double fac = r.Unit(); e->SyncFactor(fac); set("factor", Num(fac));
  if (r.Chance(0.5)) {
    if (r.Chance(0.7)) { t = MText(r); e->Description(t); set("desc", t); }
    if (r.Chance(0.4)) { const double p = std::fabs(AnyDouble(r)); e->PreTrig(p); set("pre", Num(p)); }
    if (r.Chance(0.4)) { const double p = std::fabs(AnyDouble(r)); e->PostTrig(p); set("post", Num(p)); }
    if (r.Chance(0.3)) FillMeta(r, e->CreateMetaData(), k + "md.", f);
  } else if (r.Chance(0.5)) {
    mdf::EvComment c; FillComment(r, c);
    if (r.Chance(0.4)) PUT(c, PreTriggerInterval, GenNumber(r));
    if (r.Chance(0.4)) PUT(c, PostTriggerInterval, GenNumber(r));
    if (r.Chance(0.4)) PUT(c, Timeout, GenNumber(r));
    e->SetEvComment(c); EvCommentFacts(c, k + "c.", f);
  }
  if (!refs.ev.empty() && r.Chance(0.4)) { auto& p = r.Pick(refs.ev); e->ParentEvent(p.first); set("parent", p.second); }
  if (!refs.ev.empty() && r.Chance(0.4)) { auto& p = r.Pick(refs.ev); e->RangeEvent(p.first); set("rangeev", p.second); }
  size_t n = refs.scope.empty() || !r.Chance(0.4) ? 0 : 1 + r.Below(3);
  for (size_t i = 0; i < n; ++i) { auto& p = r.Pick(refs.scope); e->AddScope(p.first); set("scope" + std::to_string(i), p.second); }
  set("scopes", std::to_string(n));
  n = refs.at.empty() || !r.Chance(0.4) ? 0 : 1 + r.Below(2);
  for (size_t i = 0; i < n; ++i) { auto& p = r.Pick(refs.at); e->AddAttachment(p.first); set("at" + std::to_string(i), p.second); }
  set("ats", std::to_string(n));
  refs.ev.emplace_back(e, "ev" + std::to_string(idx));
  return e;
}

struct ChRefs { std::vector<std::pair<mdf::ElementLink, std::string>> link; };
inline void GenHierarchy(Rng& r, mdf::IChannelHierarchy& ch, const std::string& k, const ChRefs& refs, Facts& f, int depth) {
  std::string t = MText(r, 20); ch.Name(t); f[k + "name"] = t;
  const int x = static_cast<int>(r.Below(9)); ch.Type(static_cast<mdf::ChType>(x)); f[k + "type"] = std::to_string(x);
  if (r.Chance(0.4)) { t = MText(r); ch.Description(t); f[k + "desc"] = t; }
  else if (r.Chance(0.4)) FillMeta(r, ch.CreateMetaData(), k + "md.", f);
  const size_t n = refs.link.empty() ? 0 : r.Below(4);
  for (size_t i = 0; i < n; ++i) { auto& p = r.Pick(refs.link); ch.AddElementLink(p.first); f[k + "elem" + std::to_string(i)] = p.second; }
  f[k + "elems"] = std::to_string(n);
  const size_t m = depth > 0 ? r.Below(3) : 0;
  for (size_t i = 0; i < m; ++i) if (auto* c = ch.CreateChannelHierarchy()) GenHierarchy(r, *c, k + "ch" + std::to_string(i) + ".", refs, f, depth - 1);
}

// Extra attributes of groups and channels. `first`: index of the first data group.
inline void GenGroupMeta(Rng& r, const Scen& s, Handles& h, size_t first, Facts& f) {
  for (size_t d = 0; d < s.dg.size(); ++d) {
    const std::string dk = "dg" + std::to_string(first + d) + ".";
    if (r.Chance(0.4)) {
      if (r.Chance(0.5)) { const std::string t = MText(r); h.dg[d]->Description(t); f[dk + "desc"] = t; if (r.Chance(0.4)) FillMeta(r, h.dg[d]->CreateMetaData(), dk + "md.", f); }
      else { mdf::DgComment c; FillComment(r, c); h.dg[d]->SetDgComment(c); CommentFacts(c, dk + "c.", f); }
    }
    for (size_t g = 0; g < s.dg[d].cg.size(); ++g) {
      const std::string gk = dk + "cg" + std::to_string(g) + ".";
      auto& cg = *h.cg[d][g];
      std::string t = MText(r, 30); cg.Name(t); f[gk + "name"] = t;
      switch (r.Below(4)) {
        case 0: t = MText(r); cg.Description(t); f[gk + "desc"] = t; break;
        case 1: { mdf::CgComment c; FillComment(r, c); cg.SetCgComment(c); CommentFacts(c, gk + "c.", f); break; }
        case 2: cg.Description(""); FillMeta(r, cg.CreateMetaData(), gk + "md.", f); break;
        default: break;
      }
      if (r.Chance(0.3)) { cg.PathSeparator(r.Pick({u'.', u'/', u'\u20ac'})); f[gk + "sep"] = std::to_string(static_cast<int>(cg.PathSeparator())); }
      if (r.Chance(0.4)) GenSource(r, cg.CreateSourceInformation(), gk + "si.", f);
      for (size_t n = 0; n < s.dg[d].cg[g].ch.size(); ++n) {
        const std::string k = gk + "cn" + std::to_string(n) + ".";
        auto& cn = *h.ch[d][g][n];
        const auto& c = s.dg[d].cg[g].ch[n];
        t = MText(r, 30) + "_" + std::to_string(n); cn.Name(t); f[k + "name"] = t;
        if (r.Chance(0.5)) { t = r.Chance(0.5) ? MText(r, 10) : r.Pick<std::string>({"V", "\xC2\xB0" "C", "<&\"'>"}); if (t.empty()) t = "-"; cn.Unit(t); f[k + "unit"] = t; }
        switch (r.Below(4)) {
          case 0: t = MText(r); cn.Description(t); f[k + "desc"] = t; if (r.Chance(0.3)) FillMeta(r, cn.CreateMetaData(), k + "md.", f); break;
          case 1: {
            mdf::CnComment cc; FillComment(r, cc);
            if (r.Chance(0.4)) cc.LinkerName(GenMdString(r));
            if (r.Chance(0.4)) cc.LinkerAddress(mdf::MdNumber(r.U64(), mdf::MdDataType::MdHex));
            if (r.Chance(0.4)) cc.AxisMonotony(static_cast<mdf::MdMonotony>(r.Below(7)));
            if (r.Chance(0.4)) cc.Raster(GenNumber(r));
            if (r.Chance(0.4)) cc.Address(GenNumber(r));
            if (r.Chance(0.4)) GenNames(r, cc.Names());
            cn.SetCnComment(cc); CnCommentFacts(cc, k + "c.", f);
            break;
          }
          default: break;
        }
        auto pair = [&](const char* n2, auto set) { const double a = static_cast<double>(r.Range(-100, 100)) / 4, b = a + 1 + static_cast<double>(r.Below(100)); set(a, b); f[k + n2] = Pair(std::make_pair(a, b)); };
        if (r.Chance(0.3)) pair("range", [&](double a, double b) { cn.Range(a, b); });
        if (r.Chance(0.3)) pair("limit", [&](double a, double b) { cn.Limit(a, b); });
        if (r.Chance(0.3)) pair("extlimit", [&](double a, double b) { cn.ExtLimit(a, b); });
        if (r.Chance(0.3)) { const auto p = static_cast<uint8_t>(r.Below(10)); cn.Decimals(p); f[k + "decimals"] = std::to_string(p); }
        if (r.Chance(0.3)) cn.Flags(cn.Flags() | r.Pick({mdf::CnFlag::Discrete, mdf::CnFlag::Calibration, mdf::CnFlag::Calculated, mdf::CnFlag::StrictlyMonotonous}));
        if (r.Chance(0.3)) GenSource(r, cn.CreateSourceInformation(), k + "si.", f);
        if (c.type == ChannelType::FixedLength && (IsInt(c.dt) || IsFloat(c.dt)) && c.dims.empty() && r.Chance(0.3)) {
          auto* cc = cn.CreateChannelConversion();
          if (cc) {
            cc->Type(mdf::ConversionType::Linear); cc->Parameter(0, 1.5); cc->Parameter(1, 0.25);
            f[k + "cc.par0"] = Num(1.5); f[k + "cc.par1"] = Num(0.25); f[k + "cc.type"] = "1";
            if (r.Chance(0.6)) { t = MText(r, 20); cc->Name(t); f[k + "cc.name"] = t; }
            if (r.Chance(0.6)) { t = MText(r, 10); cc->Unit(t); f[k + "cc.unit"] = t; }
            if (r.Chance(0.3)) { t = MText(r); cc->Description(t); f[k + "cc.desc"] = t; }
            else if (r.Chance(0.3)) { mdf::CcComment x; FillComment(r, x); if (r.Chance(0.3)) GenNames(r, x.Names()); cc->SetCcComment(x); CommentFacts(x, k + "cc.c.", f); }
            if (r.Chance(0.3)) { cc->Range(-1.5, 22.25); f[k + "cc.range"] = Pair(std::make_pair(-1.5, 22.25)); }
            if (r.Chance(0.3)) { cc->Decimals(3); f[k + "cc.decimals"] = "3"; }
            if (r.Chance(0.3)) if (auto* inv = cc->CreateInverse()) {
              const double a = static_cast<double>(r.Range(-50, 50)) / 4, b = 1 + static_cast<double>(r.Below(50)) / 4;
              inv->Type(mdf::ConversionType::Linear); inv->Parameter(0, a); inv->Parameter(1, b);
              f[k + "cc.inv.type"] = "1"; f[k + "cc.inv.par0"] = Num(a); f[k + "cc.inv.par1"] = Num(b);
              t = MText(r, 12); inv->Name(t); f[k + "cc.inv.name"] = t;
              if (r.Chance(0.5)) { t = MText(r, 8); inv->Unit(t); f[k + "cc.inv.unit"] = t; }
              if (r.Chance(0.3)) { t = MText(r); inv->Description(t); f[k + "cc.inv.desc"] = t; }
            }
          }
        }
      }
    }
  }
}
}  // namespace vh
