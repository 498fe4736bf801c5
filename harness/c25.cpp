// Comment objects: unit specifications, computation methods, formulas, names,
// extensions and unit objects, as XML and through files.
#include "mdf/cccomment.h"
#include "mdf/ccunit.h"
#include "mdf/cnunit.h"
#include "mdf/hoenumerates.h"
#include "meta.h"
namespace vh {
const char* kPropId = "C25";
namespace {
std::string IdText(Rng& r, const char* p, size_t i) { return std::string(p) + std::to_string(i) + (r.Chance(0.3) ? MText(r, 8, true) : std::string()); }
// text that the library keeps exactly; not empty
std::string T(Rng& r, size_t n = 20) { return "t" + MText(r, n, true) + "x"; }
mdf::MdString Str1(Rng& r) {
  mdf::MdString s = GenMdString(r, true);
  if (r.Chance(0.15)) s.AddCustomAttribute("own", T(r, 8));
  return s;
}
double D(Rng& r) { double d; do { d = AnyDouble(r); } while (!std::isfinite(d)); return d; }

// ---- formulas and names
void GenFormula(Rng& r, mdf::MdFormula& f) {
  mdf::MdSyntax s; PUT(s, Syntax, T(r, 40)); if (r.Chance(0.5)) PUT(s, Version, r.Pick<std::string>({"1.2", "2.0 \"x\""}));
  if (r.Chance(0.2)) PUT(s, HistoryIndex, 1 + r.Below(4));
  f.Syntax(s);
  size_t n = r.Below(3);
  for (size_t i = 0; i < n; ++i) { mdf::MdSyntax c; PUT(c, Syntax, "c" + std::to_string(i) + T(r)); PUT(c, Source, T(r, 8)); if (r.Chance(0.5)) PUT(c, Version, "3"); ADD(f, AddCustomSyntax, CustomSyntaxes, c); }
  n = r.Below(4);
  for (size_t i = 0; i < n; ++i) {
    mdf::MdVariable v; PUT(v, Variable, "v" + std::to_string(i) + (r.Chance(0.3) ? T(r, 5) : ""));
    if (r.Chance(0.6)) PUT(v, CnBlockName, T(r)); if (r.Chance(0.3)) PUT(v, CnSourceName, T(r)); if (r.Chance(0.3)) PUT(v, CnSourcePath, T(r));
    if (r.Chance(0.3)) PUT(v, CgBlockName, T(r)); if (r.Chance(0.3)) PUT(v, CgSourceName, T(r)); if (r.Chance(0.3)) PUT(v, CgSourcePath, T(r));
    const size_t m = r.Below(3);
    for (size_t k = 0; k < m; ++k) ADD(v, AddArrayIndex, ArrayIndexes, r.Chance(0.2) ? r.U64() : r.Below(20));
    if (r.Chance(0.3)) PUT(v, Raw, true);
    ADD(f, AddVariable, Variables, v);
  }
}
void FormulaFacts(const mdf::MdFormula& x, const std::string& k, Facts& f) {
  if (!x.IsActive()) return;
  auto syn = [&](const mdf::MdSyntax& s, const std::string& p, bool custom) { f[p + "text"] = s.Syntax(); f[p + "version"] = s.Version(); if (custom) f[p + "source"] = s.Source(); f[p + "ci"] = std::to_string(s.HistoryIndex()); };
  syn(x.Syntax(), k + "syntax.", false);
  f[k + "customs"] = std::to_string(x.CustomSyntaxes().size());
  for (auto& [n, s] : x.CustomSyntaxes()) syn(s, k + "custom." + n + ".", true);
  f[k + "vars"] = std::to_string(x.Variables().size());
  for (auto& [n, v] : x.Variables()) {
    const std::string p = k + "var." + n + ".";
    f[p + "text"] = v.Variable(); f[p + "cn"] = v.CnBlockName(); f[p + "cs"] = v.CnSourceName(); f[p + "cp"] = v.CnSourcePath();
    f[p + "gn"] = v.CgBlockName(); f[p + "gs"] = v.CgSourceName(); f[p + "gp"] = v.CgSourcePath(); f[p + "raw"] = std::to_string(v.Raw());
    std::string l; for (auto i : v.ArrayIndexes()) l += std::to_string(i) + ",";
    f[p + "index"] = l;
  }
}
void Names2(Rng& r, mdf::MdAlternativeName& a) { GenNames(r, a); if (r.Chance(0.3)) a.DefaultName(T(r)); }
void Names2Facts(const mdf::MdAlternativeName& a, const std::string& k, Facts& f) {
  NamesFacts(a, k, f);
  f[k + "default"] = a.DefaultName();
  f[k + "n"] = std::to_string(a.AlternativeNames().size()) + "/" + std::to_string(a.DisplayNames().size()) + "/" + std::to_string(a.Vendors().size()) + "/" + std::to_string(a.Descriptions().size());
}
// ---- extensions: user defined objects
struct TestExt : public mdf::MdExtension {
  TestExt() = default;
  [[nodiscard]] mdf::MdExtensionPtr Create() const override { return std::make_unique<TestExt>(); }
};
// ---- harmonized objects
void GenName(Rng& r, mdf::HoNameDetails& n, bool must = false) {
  if (must || r.Chance(0.6)) PUT(n, ShortName, T(r));
  size_t k = r.Below(3); for (size_t i = 0; i < k; ++i) ADD(n, AddLongName, LongNames, Str1(r));
  k = r.Below(3); for (size_t i = 0; i < k; ++i) ADD(n, AddDescription, Descriptions, Str1(r));
}
void NameFacts(const mdf::HoNameDetails& n, const std::string& k, Facts& f) {
  f[k + "short"] = n.ShortName();
  f[k + "longs"] = std::to_string(n.LongNames().size()); f[k + "descs"] = std::to_string(n.Descriptions().size());
  size_t i = 0; for (auto& s : n.LongNames()) StringFacts(s, k + "long" + std::to_string(i++) + ".", f);
  i = 0; for (auto& s : n.Descriptions()) StringFacts(s, k + "desc" + std::to_string(i++) + ".", f);
}
mdf::HoInterval GenInterval(Rng& r) {
  mdf::HoInterval i;
  if (r.Chance(0.8)) { PUT(i, Limit, D(r)); if (r.Chance(0.6)) PUT(i, Type, r.Pick({mdf::HoIntervalType::Open, mdf::HoIntervalType::Closed, mdf::HoIntervalType::Infinite})); }
  return i;
}
void IntervalFacts(const mdf::HoInterval& i, const std::string& k, Facts& f) {
  f[k + "active"] = std::to_string(i.IsActive());
  if (i.IsActive()) { f[k + "limit"] = Num(i.Limit()); f[k + "type"] = std::string(mdf::HoIntervalTypeToString(i.Type())); }
}
template <class C> void GenConstraint(Rng& r, C& c, bool active) {
  auto lo = GenInterval(r), hi = GenInterval(r);
  if (active && !lo.IsActive() && !hi.IsActive()) PUT(lo, Limit, D(r));
  PUT(c, LowerLimit, lo); PUT(c, UpperLimit, hi);
  if (r.Chance(0.5)) PUT(c, Validity, static_cast<mdf::HoValidity>(r.Below(6)));
}
void ConstraintFacts(const mdf::HoScaleConstraint& c, const std::string& k, Facts& f) {
  IntervalFacts(c.LowerLimit(), k + "lo.", f); IntervalFacts(c.UpperLimit(), k + "hi.", f);
  f[k + "validity"] = std::string(mdf::HoValidityToString(c.Validity()));
}
void GenMethod(Rng& r, mdf::HoCompuMethod& m) {
  GenName(r, m, true);
  PUT(m, Category, static_cast<mdf::HoComputationMethodCategory>(r.Below(6)));
  if (r.Chance(0.5)) PUT(m, UnitReference, T(r, 8));
  size_t n = r.Below(3); for (size_t i = 0; i < n; ++i) { mdf::HoScaleConstraint c; GenConstraint(r, c, true); ADD(m, AddPhysicalConstraint, PhysicalConstraints, c); }
  n = r.Below(3); for (size_t i = 0; i < n; ++i) { mdf::HoScaleConstraint c; GenConstraint(r, c, true); ADD(m, AddInternalConstraint, InternalConstraints, c); }
  n = r.Below(4);
  for (size_t i = 0; i < n; ++i) {
    mdf::HoCompuScale s; GenConstraint(r, s, false); PUT(s, Validity, mdf::HoValidity::Valid);   // no validity of a scale in the standard
    size_t k = r.Below(2); for (size_t j = 0; j < k; ++j) ADD(s, AddDescription, Descriptions, Str1(r));
    if (r.Chance(0.3)) PUT(s, ConstFloatValue, D(r));
    if (r.Chance(0.3)) PUT(s, ConstTextValue, T(r));
    k = r.Below(4); for (size_t j = 0; j < k; ++j) ADD(s, AddNumerator, Numerators, D(r));
    k = r.Below(4); for (size_t j = 0; j < k; ++j) ADD(s, AddDenominator, Denominators, D(r));
    if (r.Chance(0.3)) PUT(s, GenericMath, T(r));
    ADD(m, AddCompuScale, CompuScales, s);
  }
  if (r.Chance(0.3)) PUT(m, DefaultFloatValue, D(r));
  if (r.Chance(0.3)) PUT(m, DefaultTextValue, T(r));
}
void MethodFacts(const mdf::HoCompuMethod& m, const std::string& k, Facts& f) {
  if (!m.IsActive()) return;
  NameFacts(m, k, f);
  f[k + "category"] = std::string(mdf::HoComputationMethodCategoryToString(m.Category()));
  f[k + "unitref"] = m.UnitReference(); f[k + "deff"] = Num(m.DefaultFloatValue()); f[k + "deft"] = m.DefaultTextValue();
  f[k + "n"] = std::to_string(m.PhysicalConstraints().size()) + "/" + std::to_string(m.InternalConstraints().size()) + "/" + std::to_string(m.CompuScales().size());
  size_t i = 0; for (auto& c : m.PhysicalConstraints()) ConstraintFacts(c, k + "phys" + std::to_string(i++) + ".", f);
  i = 0; for (auto& c : m.InternalConstraints()) ConstraintFacts(c, k + "int" + std::to_string(i++) + ".", f);
  i = 0;
  for (auto& s : m.CompuScales()) {
    const std::string p = k + "scale" + std::to_string(i++) + ".";
    ConstraintFacts(s, p, f);
    size_t j = 0; for (auto& d : s.Descriptions()) StringFacts(d, p + "desc" + std::to_string(j++) + ".", f);
    f[p + "descs"] = std::to_string(j);
    f[p + "cf"] = Num(s.ConstFloatValue()); f[p + "ct"] = s.ConstTextValue(); f[p + "math"] = s.GenericMath();
    std::string l; for (double d : s.Numerators()) l += Num(d) + ","; l += "/"; for (double d : s.Denominators()) l += Num(d) + ",";
    f[p + "coeff"] = l;
  }
}
void GenUnitSpec(Rng& r, mdf::HoUnitSpecification& u) {
  size_t n = r.Below(3);
  for (size_t i = 0; i < n; ++i) {
    mdf::HoRevision v;
    if (r.Chance(0.6)) PUT(v, TeamMemberReference, T(r, 8)); if (r.Chance(0.6)) PUT(v, RevisionLabel, T(r, 8)); if (r.Chance(0.6)) PUT(v, State, T(r, 8));
    if (r.Chance(0.3)) v.Date("2024-05-06T07:08:09"); else if (r.Chance(0.5)) v.DateNs((946684800ULL + r.Below(2000000000ULL)) * 1000000000ULL);
    size_t k = r.Below(3);
    for (size_t j = 0; j < k; ++j) { mdf::HoCompanyRevision c; if (r.Chance(0.7)) c.DataReference = T(r, 6); if (r.Chance(0.7)) c.Label = T(r, 6); if (r.Chance(0.7)) c.State = T(r, 6); ADD(v, AddCompanyRevision, CompanyRevisions, c); }
    k = r.Below(3);
    for (size_t j = 0; j < k; ++j) { mdf::HoModification c; c.Change = T(r); if (r.Chance(0.5)) c.Reason = T(r); ADD(v, AddModification, Modifications, c); }
    ADD(u.AdminData(), AddRevision, Revisions, v);
  }
  n = r.Below(3);
  for (size_t i = 0; i < n; ++i) {
    mdf::HoPhysicalDimension d; if (r.Chance(0.5)) GenName(r, d); PUT(d, Identity, IdText(r, "dim", i)); if (r.Chance(0.3)) GenName(r, d);
    if (r.Chance(0.5)) PUT(d, LengthExponent, D(r)); if (r.Chance(0.5)) PUT(d, MassExponent, D(r)); if (r.Chance(0.5)) PUT(d, TimeExponent, D(r)); if (r.Chance(0.5)) PUT(d, CurrentExponent, D(r));
    if (r.Chance(0.5)) PUT(d, TemperatureExponent, D(r)); if (r.Chance(0.5)) PUT(d, MolarExponent, D(r)); if (r.Chance(0.5)) PUT(d, LuminousExponent, D(r));
    ADD(u, AddPhysicalDimension, PhysicalDimensions, d);
  }
  n = r.Below(3);
  for (size_t i = 0; i < n; ++i) {
    mdf::HoUnitGroup g; GenName(r, g); PUT(g, ShortName, IdText(r, "group", i));
    PUT(g, Category, r.Pick({mdf::HoUnitGroupCategory::Country, mdf::HoUnitGroupCategory::EquivUnits}));
    const size_t k = r.Below(4); for (size_t j = 0; j < k; ++j) ADD(g, AddUnitReference, UnitRefs, IdText(r, "unit", j));
    ADD(u, AddUnitGroup, UnitGroups, g);
  }
  n = r.Below(4);
  for (size_t i = 0; i < n; ++i) {
    mdf::HoUnit x; if (r.Chance(0.5)) GenName(r, x); PUT(x, Identity, IdText(r, "unit", i)); if (r.Chance(0.3)) GenName(r, x);
    if (r.Chance(0.5)) PUT(x, DisplayName, T(r)); if (r.Chance(0.5)) PUT(x, Factor, D(r)); if (r.Chance(0.5)) PUT(x, Offset, D(r)); if (r.Chance(0.5)) PUT(x, PhysicalDimensionRef, T(r, 6));
    ADD(u, AddUnit, Units, x);
  }
}
void UnitSpecFacts(const mdf::HoUnitSpecification& u, const std::string& k, Facts& f) {
  f[k + "n"] = std::to_string(u.AdminData().Revisions().size()) + "/" + std::to_string(u.PhysicalDimensions().size()) + "/" + std::to_string(u.UnitGroups().size()) + "/" + std::to_string(u.Units().size());
  size_t i = 0;
  for (auto& v : u.AdminData().Revisions()) {
    const std::string p = k + "rev" + std::to_string(i++) + ".";
    f[p + "team"] = v.TeamMemberReference(); f[p + "label"] = v.RevisionLabel(); f[p + "state"] = v.State(); f[p + "date"] = v.Date();
    f[p + "n"] = std::to_string(v.CompanyRevisions().size()) + "/" + std::to_string(v.Modifications().size());
    size_t j = 0; for (auto& c : v.CompanyRevisions()) f[p + "company" + std::to_string(j++)] = c.DataReference + "|" + c.Label + "|" + c.State;
    j = 0; for (auto& c : v.Modifications()) f[p + "mod" + std::to_string(j++)] = c.Change + "|" + c.Reason;
  }
  for (auto& [n, d] : u.PhysicalDimensions()) {
    const std::string p = k + "dim." + n + ".";
    NameFacts(d, p, f); f[p + "id"] = d.Identity();
    f[p + "exp"] = Num(d.LengthExponent()) + "," + Num(d.MassExponent()) + "," + Num(d.TimeExponent()) + "," + Num(d.CurrentExponent()) + "," + Num(d.TemperatureExponent()) + "," + Num(d.MolarExponent()) + "," + Num(d.LuminousExponent());
  }
  for (auto& [n, g] : u.UnitGroups()) {
    const std::string p = k + "group." + n + ".";
    NameFacts(g, p, f); f[p + "category"] = std::string(mdf::HoUnitGroupCategoryToString(g.Category()));
    std::string l; for (auto& x : g.UnitRefs()) l += x + "|";
    f[p + "units"] = l;
  }
  for (auto& [n, x] : u.Units()) {
    const std::string p = k + "unit." + n + ".";
    NameFacts(x, p, f); f[p + "id"] = x.Identity(); f[p + "display"] = x.DisplayName(); f[p + "factor"] = Num(x.Factor()); f[p + "offset"] = Num(x.Offset()); f[p + "dim"] = x.PhysicalDimensionRef();
  }
}
// ---- the comments
void Common(Rng& r, mdf::MdComment& c, bool extra) {
  FillComment(r, c);
  if (extra && r.Chance(0.5)) GenFormula(r, c.Formula());
  if (extra && r.Chance(0.5)) Names2(r, c.Names());
  if (r.Chance(0.2)) {
    const size_t n = 1 + r.Below(2);
    for (size_t i = 0; i < n; ++i) { auto e = std::make_unique<TestExt>(); e->HistoryIndex(1 + r.Below(5)); e->AddCustomAttribute("key" + std::to_string(i), T(r)); c.AddExtension(std::move(e)); }
  }
}
void CommonFacts(const mdf::MdComment& c, const std::string& k, Facts& f) {
  CommentFacts(c, k, f);
  FormulaFacts(c.Formula(), k + "formula.", f);
  Names2Facts(c.Names(), k + "names.", f);
  f[k + "exts"] = std::to_string(c.Extensions().size());
  size_t i = 0; for (auto& e : c.Extensions()) StdFacts(*e, k + "ext" + std::to_string(i++) + ".", f);
}
void Creator(mdf::MdComment& c) { c.SetExtensionCreator([] { return std::make_unique<TestExt>(); }); }
void UnitFacts(const mdf::CcUnit& u, const std::string& k, Facts& f) { CommonFacts(u, k, f); f[k + "ref"] = u.UnitRef().Text(); f[k + "refci"] = std::to_string(u.UnitRef().HistoryIndex()); }
void HdFacts(const mdf::HdComment& c, const std::string& k, Facts& f) { CommonFacts(c, k, f); HdCommentFacts(c, k, f); UnitSpecFacts(c.UnitSpecification(), k + "spec.", f); f[k + "dep"] = c.Department(); f[k + "subject"] = c.Subject(); f[k + "muid"] = c.MeasurementUuid(); f[k + "ruid"] = c.RecorderUuid(); f[k + "rix"] = std::to_string(c.RecorderFileIndex()); }
void CcFacts(const mdf::CcComment& c, const std::string& k, Facts& f) { CommonFacts(c, k, f); MethodFacts(c.CompuMethod(), k + "method.", f); }
void CnFacts(const mdf::CnComment& c, const std::string& k, Facts& f) { CommonFacts(c, k, f); CnCommentFacts(c, k, f); }

template <class C, class F>
void Direct(Ctx& ctx, const C& c, const std::string& k, F facts) {
  Facts want, got;
  facts(c, k, want);
  const std::string xml = c.ToXml();
  C back; Creator(back);
  back.FromXml(xml);
  facts(back, k, got);
  ctx.Count("xml_round_trips");
  CheckFacts(ctx, want, got, "xml ");
  // and the object read is written as the same
  C again; Creator(again);
  again.FromXml(back.ToXml());
  Facts third; facts(again, k, third);
  CheckFacts(ctx, got, third, "xml again ");
  // and an object that was read can be changed, also by taking parts away
  Rng& r = ctx.rng;
  for (auto& [n, p] : again.Properties()) {
    if (r.Chance(0.5)) p.Unit(r.Chance(0.5) ? "" : "new");
    if (r.Chance(0.5)) p.UnitReference(r.Chance(0.5) ? "" : "new");
    if (r.Chance(0.5)) p.Description(r.Chance(0.5) ? "" : "new");
    if (r.Chance(0.5)) p.ReadOnly(!p.ReadOnly());
    if (r.Chance(0.3)) { p.DataType(mdf::MdDataType::MdString); p.Value(T(r)); }
    if (r.Chance(0.3)) p.HistoryIndex(r.Below(3));
  }
  for (auto& [n, t] : again.Trees()) if (r.Chance(0.5)) t.Description(r.Chance(0.5) ? "" : "new");
  for (auto& [n, t] : again.Lists()) if (r.Chance(0.5)) t.Description(r.Chance(0.5) ? "" : "new");
  for (auto& [n, e] : again.Enumerates()) { if (r.Chance(0.5)) e.Unit(""); if (r.Chance(0.5)) e.ReadOnly(false); if (r.Chance(0.5)) e.AddValue(Str1(r)); }
  if (again.Names().IsActive() && r.Chance(0.5)) again.Names().DefaultName(T(r));
  if (r.Chance(0.3)) again.AddProperty("added", T(r));
  Facts changed, fourth;
  facts(again, k, changed);
  C last; Creator(last);
  last.FromXml(again.ToXml());
  facts(last, k, fourth);
  CheckFacts(ctx, changed, fourth, "xml changed ");
  for (auto& [n, p] : last.Properties()) {
    const auto* q = last.GetProperty(n);
    if (n.find('/') == std::string::npos && (q == nullptr || q->template Value<std::string>() != p.template Value<std::string>())) ctx.Viol("property by name", n);
  }
  for (auto& [n, e] : last.Enumerates()) {
    const auto* q = last.GetEnumerate(n);
    if (n.find('/') == std::string::npos && (q == nullptr || q->ValueList().size() != e.ValueList().size())) ctx.Viol("enumerate by name", n);
  }
}
}  // namespace

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  SetterLoss().clear();
  mdf::HdComment hd; Common(r, hd, false);
  if (r.Chance(0.5)) PUT(hd, Author, T(r)); if (r.Chance(0.5)) PUT(hd, Department, T(r)); if (r.Chance(0.5)) PUT(hd, Subject, T(r)); if (r.Chance(0.3)) PUT(hd, MeasurementUuid, T(r));
  if (r.Chance(0.3)) PUT(hd, RecorderUuid, T(r)); if (r.Chance(0.3)) PUT(hd, RecorderFileIndex, r.Range(1, 100000));
  if (r.Chance(0.3)) PUT(hd, TimeSource, Str1(r));
  { const size_t n = r.Below(3); for (size_t i = 0; i < n; ++i) hd.AddConstant(mdf::MdString(IdText(r, "C", i)), T(r)); }
  if (r.Chance(0.7)) GenUnitSpec(r, hd.UnitSpecification());
  mdf::CcComment cc; Common(r, cc, true); if (r.Chance(0.7)) GenMethod(r, cc.CompuMethod());
  mdf::CnComment cn; Common(r, cn, true);
  if (r.Chance(0.4)) { auto s = Str1(r); if (r.Chance(0.5)) PUT(s, Offset, r.Below(1000)); PUT(cn, LinkerName, s); }
  if (r.Chance(0.4)) PUT(cn, LinkerAddress, GenNumber(r)); if (r.Chance(0.4)) PUT(cn, Raster, GenNumber(r)); if (r.Chance(0.4)) cn.Address(GenNumber(r));
  if (r.Chance(0.4)) PUT(cn, AxisMonotony, static_cast<mdf::MdMonotony>(r.Below(6)));
  const std::string u1 = T(r, 6), u2 = T(r, 6);
  mdf::CnUnit cu(u1); mdf::CcUnit xu(u2);
  if (r.Chance(0.5)) { auto s = Str1(r); PUT(cu, UnitRef, s); } if (r.Chance(0.5)) { auto s = Str1(r); PUT(xu, UnitRef, s); }
  if (r.Chance(0.3)) ADD(cu, AddProperty, Properties, GenMdProperty(r, 0)); if (r.Chance(0.3)) ADD(xu, AddProperty, Properties, GenMdProperty(r, 0));
  for (auto& m : SetterLoss()) ctx.Viol("value lost when set", m);

  Direct(ctx, hd, "hd.", HdFacts);
  Direct(ctx, cc, "cc.", CcFacts);
  Direct(ctx, cn, "cn.", CnFacts);
  Direct(ctx, cu, "cnunit.", UnitFacts);
  Direct(ctx, xu, "ccunit.", UnitFacts);
  // plain text instead of XML (a text block) is the comment itself
  {
    const std::string t = T(r);
    auto plain = [&](mdf::MdComment&& c, const char* what) { c.FromXml(t); if (c.Comment().Text() != t) ctx.Viol("plain text comment", std::string(what) + " got '" + c.Comment().Text() + "' want '" + t + "'"); };
    plain(mdf::HdComment(), "HD"); plain(mdf::CcComment(), "CC"); plain(mdf::CnComment(), "CN"); plain(mdf::CnUnit(), "CN unit"); plain(mdf::CcUnit(), "CC unit");
    plain(mdf::FhComment(), "FH"); plain(mdf::EvComment(), "EV"); plain(mdf::AtComment(), "AT"); plain(mdf::SiComment(), "SI"); plain(mdf::DgComment(), "DG"); plain(mdf::CgComment(), "CG");
  }
  // values of attributes that are not numbers are ignored
  {
    const std::string bad = r.Pick<std::string>({"abc", "", "-", "99999999999999999999999", "1e999", " ", "0x", "."});
    const std::string attr = " ci=\"" + bad + "\" byte_count=\"" + bad + "\" bit_mask=\"" + bad + "\" min=\"" + bad + "\" max=\"" + bad + "\" average=\"" + bad + "\" triggered=\"" + bad + "\"";
    const std::string num = r.Chance(0.5) ? bad : "12.5";
    try {
      mdf::EvComment ev;
      ev.FromXml("<EVcomment><TX ci=\"" + bad + "\">text</TX><pre_trigger_interval" + attr + ">" + num + "</pre_trigger_interval><timeout" + attr + ">3</timeout><common_properties" + attr + "><e name=\"p\" ro=\"" + bad + "\"" + attr + ">v</e></common_properties></EVcomment>");
      if (ev.Comment().Text() != "text") ctx.Viol("text beside a malformed attribute", "attribute '" + bad + "' text '" + ev.Comment().Text() + "'");
      if (ev.Timeout().Number<double>() != 3) ctx.Viol("number beside a malformed attribute", bad);
      const auto* q = ev.GetProperty("p");
      if (!q || q->Value<std::string>() != "v") ctx.Viol("property beside a malformed attribute", bad);
      mdf::CnComment cn3;
      cn3.FromXml("<CNcomment><TX>text</TX><linker_address" + attr + ">" + num + "</linker_address><raster" + attr + ">0.25</raster><names ci=\"" + bad + "\"><name ci=\"" + bad + "\">n</name></names></CNcomment>");
      if (cn3.Comment().Text() != "text" || cn3.Raster().Number<double>() != 0.25) ctx.Viol("channel comment beside a malformed attribute", bad);
    } catch (const std::exception& e) { ctx.Viol("malformed attribute", "value '" + bad + "' throws " + e.what()); }
    ctx.Count("malformed");
  }
  // names of enumerates
  auto Enum = [&](auto to, auto from, size_t n, const char* what) {
    for (size_t i = 0; i < n; ++i) {
      using E = decltype(from(std::string()));
      if (from(std::string(to(static_cast<E>(i)))) != static_cast<E>(i)) ctx.Viol("enumerate", std::string(what) + " " + std::to_string(i));
    }
  };
  if (ctx.index % 64 == 0) {
    Enum(mdf::HoDataTypeToString, mdf::StringToHoDataType, 15, "data type");
    Enum(mdf::HoIntervalTypeToString, mdf::StringToHoIntervalType, 3, "interval");
    Enum(mdf::HoValidityToString, mdf::StringToHoValidity, 6, "validity");
    Enum(mdf::HoDataCategoryToString, mdf::StringToHoDataCategory, 4, "category");
    Enum(mdf::HoDataEncodingToString, mdf::StringToHoDataEncoding, 16, "encoding");
    Enum(mdf::HoDataTerminationToString, mdf::StringToHoDataTermination, 4, "termination");
    Enum(mdf::HoComputationMethodCategoryToString, mdf::StringToHoComputationMethodCategory, 6, "method");
    Enum(mdf::HoRoleTypeToString, mdf::StringToHoRoleType, 2, "role");
    // ASAM names
    const char* names[] = {"A_UINT8", "A_INT8", "A_UINT16", "A_INT16", "A_UINT32", "A_INT32", "A_UINT64", "A_INT64", "A_FLOAT32", "A_FLOAT64", "A_ASCIISTRING", "A_UNICODE2STRING", "A_BYTEFIELD", "A_BITFIELD", "OTHER"};
    for (size_t i = 0; i < 15; ++i) if (mdf::HoDataTypeToString(static_cast<mdf::HoDataType>(i)) != names[i]) ctx.Viol("data type name", std::string(mdf::HoDataTypeToString(static_cast<mdf::HoDataType>(i))));
    Enum(mdf::HoUnitGroupCategoryToString, mdf::StringToHoUnitGroupCategory, 2, "unit group");
  }
  // ---- through a file
  Facts want;
  {
    HdFacts(hd, "f.hd.", want); CcFacts(cc, "f.cc.", want); CnFacts(cn, "f.cn.", want); UnitFacts(cu, "f.cu.", want); UnitFacts(xu, "f.xu.", want);
    const std::string file = ctx.Path("a.mf4");
    auto w = mdf::MdfFactory::CreateMdfWriter(mdf::MdfWriterType::Mdf4Basic);
    w->Init(file);
    w->Header()->SetHdComment(hd);
    auto* dg = w->CreateDataGroup();
    auto* cg = mdf::MdfWriter::CreateChannelGroup(dg);
    cg->Name("g");
    auto* t = mdf::MdfWriter::CreateChannel(cg);
    t->Name("t"); t->Type(ChannelType::Master); t->Sync(mdf::ChannelSyncType::Time); t->DataType(ChannelDataType::FloatLe); t->DataBytes(8);
    auto* c = mdf::MdfWriter::CreateChannel(cg);
    c->Name("c"); c->DataType(ChannelDataType::UnsignedIntegerLe); c->DataBytes(4);
    c->SetCnComment(cn); c->SetCnUnit(cu);
    auto* x = c->CreateChannelConversion();
    x->Type(mdf::ConversionType::Linear); x->Parameter(0, 0.0); x->Parameter(1, 2.0);
    x->SetCcComment(cc); x->SetCcUnit(xu);
    w->InitMeasurement(); w->StartMeasurement(1700000000000000000ULL);
    c->SetChannelValue(uint32_t{21}); w->SaveSample(*cg, 1700000000000000000ULL);
    w->StopMeasurement(1700000001000000000ULL);
    if (!w->FinalizeMeasurement()) { ctx.Viol("write", ""); return; }
    w.reset();
    mdf::MdfReader rd(file);
    if (!rd.ReadEverythingButData()) { ctx.Viol("read", ""); return; }
    auto* c2 = rd.GetHeader()->LastDataGroup()->ChannelGroups()[0]->GetChannel("c");
    if (!c2 || !c2->ChannelConversion()) { ctx.Viol("channel lost", ""); return; }
    mdf::HdComment hd2; mdf::CcComment cc2; mdf::CnComment cn2; mdf::CnUnit cu2; mdf::CcUnit xu2;
    for (mdf::MdComment* m : std::initializer_list<mdf::MdComment*>{&hd2, &cc2, &cn2, &cu2, &xu2}) Creator(*m);
    rd.GetHeader()->GetHdComment(hd2); c2->GetCnComment(cn2); c2->GetCnUnit(cu2); c2->ChannelConversion()->GetCcComment(cc2); c2->ChannelConversion()->GetCcUnit(xu2);
    Facts got;
    HdFacts(hd2, "f.hd.", got); CcFacts(cc2, "f.cc.", got); CnFacts(cn2, "f.cn.", got); UnitFacts(cu2, "f.cu.", got); UnitFacts(xu2, "f.xu.", got);
    CheckFacts(ctx, want, got, "file ");
    ctx.Count("facts", static_cast<int64_t>(want.size()));
    // the plain getters of the same objects
    if (c2->Unit() != u1) ctx.Viol("unit text of a unit object", "got '" + c2->Unit() + "' want '" + u1 + "'");
    if (c2->ChannelConversion()->Unit() != u2) ctx.Viol("unit text of a conversion unit object", "got '" + c2->ChannelConversion()->Unit() + "' want '" + u2 + "'");
    if (hd.Comment().Text() != rd.GetHeader()->Description()) ctx.Viol("description of a header comment", "got '" + rd.GetHeader()->Description() + "'");
    if (cn.Comment().Text() != c2->Description()) ctx.Viol("description of a channel comment", "got '" + c2->Description() + "'");
    if (hd.Author() != rd.GetHeader()->Author() || hd.Department() != rd.GetHeader()->Department() || hd.Subject() != rd.GetHeader()->Subject()) ctx.Viol("author of a header comment", "");
  }
  ctx.nontrivial = want.size() > 30;
  std::ostringstream o;
  o << "facts=" << want.size() << " " << std::hex << (HashStr([&] { std::string x; for (auto& [k, v] : want) x += k; return x; }()) & 0xffffffff);
  ctx.shape = ctx.sample = o.str();
}
}  // namespace vh
