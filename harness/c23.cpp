// The exported C functions (mdflibrary): each does what the C++ method it
// stands for does, and a measurement made and read only through them is right.
#include <cstddef>
#include <fstream>
#include <stdexcept>

#include "bus.h"
#include "meta.h"
#include "mdf/canmessage.h"
#include "mdf/linmessage.h"
#include "mdf/ichannelarray.h"
#include "mdflibrary/MdfExport.h"
// exported, but not declared in the header
extern "C" {
namespace MdfLibrary::ExportFunctions {
int64_t MdfChannelArrayGetIndex(mdf::IChannelArray*);
mdf::ArrayType MdfChannelArrayGetType(mdf::IChannelArray*);
void MdfChannelArraySetType(mdf::IChannelArray*, mdf::ArrayType);
mdf::ArrayStorage MdfChannelArrayGetStorage(mdf::IChannelArray*);
void MdfChannelArraySetStorage(mdf::IChannelArray*, mdf::ArrayStorage);
uint32_t MdfChannelArrayGetFlags(mdf::IChannelArray*);
void MdfChannelArraySetFlags(mdf::IChannelArray*, uint32_t);
size_t MdfChannelArrayGetDimensions(mdf::IChannelArray*);
size_t MdfChannelArrayGetShape(mdf::IChannelArray*, uint64_t*);
void MdfChannelArraySetShape(mdf::IChannelArray*, uint64_t*, size_t);
uint64_t MdfChannelArrayGetDimensionSize(mdf::IChannelArray*, size_t);
size_t MdfChannelArrayGetAxisValues(mdf::IChannelArray*, double*);
size_t MdfChannelArrayGetCycleCounts(mdf::IChannelArray*, uint64_t*);
uint64_t MdfChannelArrayGetNofArrayValues(mdf::IChannelArray*);
size_t MdfChannelArrayGetDimensionAsString(mdf::IChannelArray*, char*);
void MdfChannelArrayResizeArrays(mdf::IChannelArray*);
}
}

namespace vh {
const char* kPropId = "C23";
namespace E = MdfLibrary::ExportFunctions;
namespace M = MdfLibrary;
namespace {

Ctx* g_ctx = nullptr;
template <class T> std::string Show(const T& v) { std::ostringstream o; o.precision(17); if constexpr (std::is_enum_v<T>) o << static_cast<long long>(v); else if constexpr (std::is_same_v<T, uint8_t> || std::is_same_v<T, wchar_t>) o << static_cast<long long>(v); else o << v; return o.str(); }
template <class A, class B> bool Same(const A& a, const B& b) {
  if constexpr (std::is_floating_point_v<A>) return SameDouble(static_cast<double>(a), static_cast<double>(b));
  else if constexpr (std::is_enum_v<A> || std::is_enum_v<B>) return static_cast<long long>(a) == static_cast<long long>(b);
  else if constexpr (std::is_pointer_v<A>) return static_cast<const void*>(a) == static_cast<const void*>(b);
  else return a == static_cast<A>(b);
}
template <class A, class B> void Eq(const char* fn, const A& got, const B& want) {
  g_ctx->Count("calls_compared");
  if (!Same(got, want)) g_ctx->Viol(fn, std::string(fn) + ": " + Show(got) + " want " + Show(want));
}
// text through a getter: the size query and the copy into a buffer of exactly size + 1 bytes
template <class F> std::string Txt(const char* fn, F f) {
  const size_t n = f(static_cast<char*>(nullptr));
  std::unique_ptr<char[]> b(new char[n + 1]);
  memset(b.get(), 0x7f, n + 1);
  const size_t m = f(b.get());
  if (m != n) g_ctx->Viol(fn, std::string(fn) + ": sizes differ " + std::to_string(n) + " " + std::to_string(m));
  if (b[n] != 0) { g_ctx->Viol(fn, std::string(fn) + ": text not terminated at its size"); return {}; }
  return std::string(b.get(), n);
}
template <class T, class F> std::vector<T> Lst(const char* fn, F f) {
  const size_t n = f(static_cast<T*>(nullptr));
  std::unique_ptr<T[]> b(new T[n]);
  const size_t m = f(b.get());
  if (m != n) g_ctx->Viol(fn, std::string(fn) + ": sizes differ");
  return std::vector<T>(b.get(), b.get() + n);
}
#define TXT(fn, obj, ...) Txt(#fn, [&](char* b_) { return E::fn(obj, ##__VA_ARGS__, b_); })
#define LST(T, fn, obj, ...) Lst<T>(#fn, [&](T* b_) { return E::fn(obj, ##__VA_ARGS__, b_); })
#define CEQ(fn, obj, want) Eq(#fn, E::fn(obj), want)
#define CTX(fn, obj, want) Eq(#fn, TXT(fn, obj), std::string(want))
// set through the C function, read through the C++ method and the C getter
#define SETV(Pfx, Name, obj, val, cxx) do { auto v_ = (val); E::Pfx##Set##Name(obj, v_); Eq(#Pfx "Set" #Name, (cxx), v_); Eq(#Pfx "Get" #Name, E::Pfx##Get##Name(obj), v_); } while (0)
#define SETT(Pfx, Name, obj, val, cxx) do { std::string v_ = (val); E::Pfx##Set##Name(obj, v_.c_str()); Eq(#Pfx "Set" #Name, std::string(cxx), v_); Eq(#Pfx "Get" #Name, TXT(Pfx##Get##Name, obj), v_); } while (0)

template <class T> T* Mut(const T* p) { return const_cast<T*>(p); }

// ------------------------------------------------------------ reading: every getter against the class
void WalkTag(mdf::ETag& t) {
  CTX(MdfETagGetName, &t, t.Name()); CTX(MdfETagGetDescription, &t, t.Description()); CTX(MdfETagGetUnit, &t, t.Unit());
  CTX(MdfETagGetUnitRef, &t, t.UnitRef()); CTX(MdfETagGetType, &t, t.Type()); CTX(MdfETagGetLanguage, &t, t.Language());
  CEQ(MdfETagGetDataType, &t, t.DataType()); CEQ(MdfETagGetReadOnly, &t, t.ReadOnly());
  CTX(MdfETagGetValueAsString, &t, t.Value<std::string>());
  CEQ(MdfETagGetValueAsFloat, &t, t.Value<double>()); CEQ(MdfETagGetValueAsBoolean, &t, t.Value<bool>());
  CEQ(MdfETagGetValueAsSigned, &t, t.Value<int64_t>()); CEQ(MdfETagGetValueAsUnsigned, &t, t.Value<uint64_t>());
}
std::string TagText(const mdf::ETag& t) { Facts f; ETagFacts(t, "", f); std::string s; for (auto& [k, v] : f) s += k + "=" + v + ";"; return s; }
void WalkMeta(const mdf::IMetaData* c) {
  if (!c) return;
  auto* md = Mut(c);
  g_ctx->Count("metadata_blocks");
  CTX(MdfMetaDataGetXmlSnippet, md, md->XmlSnippet());
  for (bool common : {false, true}) {
    auto want = common ? md->CommonProperties() : md->Properties();
    auto got = common ? LST(mdf::ETag*, MdfMetaDataGetCommonProperties, md) : LST(mdf::ETag*, MdfMetaDataGetProperties, md);
    const char* fn = common ? "MdfMetaDataGetCommonProperties" : "MdfMetaDataGetProperties";
    Eq(fn, got.size(), want.size());
    for (size_t i = 0; i < got.size() && i < want.size(); ++i) { Eq(fn, TagText(*got[i]), TagText(want[i])); WalkTag(*got[i]); }
    for (auto* t : got) E::MdfETagUnInit(t);
    for (auto& t : want) {
      const auto n = t.Name();
      if (!common) Eq("MdfMetaDataGetPropertyAsString", TXT(MdfMetaDataGetPropertyAsString, md, n.c_str()), md->StringProperty(n)), Eq("MdfMetaDataGetPropertyAsFloat", E::MdfMetaDataGetPropertyAsFloat(md, n.c_str()), md->FloatProperty(n));
    }
  }
}
void WalkSource(const mdf::ISourceInformation* c) {
  if (!c) return;
  auto* s = Mut(c);
  CEQ(MdfSourceInformationGetIndex, s, s->Index()); CTX(MdfSourceInformationGetName, s, s->Name()); CTX(MdfSourceInformationGetDescription, s, s->Description());
  CTX(MdfSourceInformationGetPath, s, s->Path()); CEQ(MdfSourceInformationGetType, s, s->Type()); CEQ(MdfSourceInformationGetBus, s, s->Bus());
  CEQ(MdfSourceInformationGetFlags, s, s->Flags()); CEQ(MdfSourceInformationGetMetaData, s, s->MetaData());
  WalkMeta(c->MetaData());
}
void WalkConversion(const mdf::IChannelConversion* c, int depth = 0) {
  if (!c) return;
  auto* cc = Mut(c);
  g_ctx->Count("conversions");
  CEQ(MdfChannelConversionGetIndex, cc, cc->Index()); CTX(MdfChannelConversionGetName, cc, cc->Name()); CTX(MdfChannelConversionGetDescription, cc, cc->Description());
  CTX(MdfChannelConversionGetUnit, cc, cc->Unit()); CEQ(MdfChannelConversionGetType, cc, cc->Type()); CEQ(MdfChannelConversionIsPrecisionUsed, cc, cc->IsDecimalUsed());
  CEQ(MdfChannelConversionGetPrecision, cc, cc->Decimals()); CEQ(MdfChannelConversionIsRangeUsed, cc, cc->Range().has_value());
  if (cc->Range()) { CEQ(MdfChannelConversionGetRangeMin, cc, cc->Range()->first); CEQ(MdfChannelConversionGetRangeMax, cc, cc->Range()->second); }
  CEQ(MdfChannelConversionGetFlags, cc, cc->Flags()); CEQ(MdfChannelConversionGetInverse, cc, c->Inverse()); CEQ(MdfChannelConversionGetMetaData, cc, c->MetaData());
  CTX(MdfChannelConversionGetFormula, cc, cc->Formula());
  Eq("MdfChannelConversionGetNofParameters", E::MdfChannelConversionGetNofParameters(cc, 0), static_cast<double>(cc->NofParameters()));
  for (uint16_t i = 0; i < cc->NofParameters(); ++i) {
    Eq("MdfChannelConversionGetParameterAsDouble", E::MdfChannelConversionGetParameterAsDouble(cc, i), cc->Parameter(i));
    if (cc->Parameter(i) >= 0 && cc->Parameter(i) < 1e18) Eq("MdfChannelConversionGetParameterAsUInt64", E::MdfChannelConversionGetParameterAsUInt64(cc, i), cc->ParameterUint(i));
  }
  for (uint16_t i = 0; i < 4; ++i) Eq("MdfChannelConversionGetReference", TXT(MdfChannelConversionGetReference, cc, i), cc->Reference(i));
  WalkMeta(c->MetaData());
  if (depth < 2) WalkConversion(c->Inverse(), depth + 1);
}
void WalkChannel(const mdf::IChannel* k, int depth = 0) {
  auto* c = Mut(k);
  g_ctx->Count("channels");
  CEQ(MdfChannelGetIndex, c, c->Index()); CTX(MdfChannelGetName, c, c->Name()); CTX(MdfChannelGetDisplayName, c, c->DisplayName()); CTX(MdfChannelGetDescription, c, c->Description());
  CEQ(MdfChannelIsUnitUsed, c, c->IsUnitValid()); CTX(MdfChannelGetUnit, c, c->Unit()); CEQ(MdfChannelGetType, c, c->Type()); CEQ(MdfChannelGetSync, c, c->Sync());
  CEQ(MdfChannelGetDataType, c, c->DataType()); CEQ(MdfChannelGetFlags, c, c->Flags()); CEQ(MdfChannelGetDataBytes, c, c->DataBytes());
  CEQ(MdfChannelIsPrecisionUsed, c, c->IsDecimalUsed()); CEQ(MdfChannelGetPrecision, c, c->Decimals());
  CEQ(MdfChannelIsRangeUsed, c, c->Range().has_value()); CEQ(MdfChannelIsLimitUsed, c, c->Limit().has_value()); CEQ(MdfChannelIsExtLimitUsed, c, c->ExtLimit().has_value());
  if (c->Range()) { CEQ(MdfChannelGetRangeMin, c, c->Range()->first); CEQ(MdfChannelGetRangeMax, c, c->Range()->second); }
  if (c->Limit()) { CEQ(MdfChannelGetLimitMin, c, c->Limit()->first); CEQ(MdfChannelGetLimitMax, c, c->Limit()->second); }
  if (c->ExtLimit()) { CEQ(MdfChannelGetExtLimitMin, c, c->ExtLimit()->first); CEQ(MdfChannelGetExtLimitMax, c, c->ExtLimit()->second); }
  CEQ(MdfChannelGetSamplingRate, c, c->SamplingRate()); CEQ(MdfChannelGetVlsdRecordId, c, c->VlsdRecordId()); CEQ(MdfChannelGetBitCount, c, c->BitCount()); CEQ(MdfChannelGetBitOffset, c, c->BitOffset());
  CEQ(MdfChannelGetMetaData, c, k->MetaData()); CEQ(MdfChannelGetSourceInformation, c, k->SourceInformation()); CEQ(MdfChannelGetChannelConversion, c, k->ChannelConversion());
  CEQ(MdfChannelGetChannelArray, c, k->ChannelArray(0));
  auto sub = LST(mdf::IChannel*, MdfChannelGetChannelCompositions, c);
  auto want = c->ChannelCompositions();
  Eq("MdfChannelGetChannelCompositions", sub.size(), want.size());
  for (size_t i = 0; i < sub.size() && i < want.size(); ++i) Eq("MdfChannelGetChannelCompositions", sub[i], want[i]);
  WalkMeta(k->MetaData()); WalkSource(k->SourceInformation()); WalkConversion(k->ChannelConversion());
  if (auto* a = c->ChannelArray(0)) {
    g_ctx->Count("arrays");
    CEQ(MdfChannelArrayGetIndex, a, a->Index()); CEQ(MdfChannelArrayGetType, a, a->Type()); CEQ(MdfChannelArrayGetStorage, a, a->Storage()); CEQ(MdfChannelArrayGetFlags, a, a->Flags());
    CEQ(MdfChannelArrayGetDimensions, a, a->Dimensions()); CEQ(MdfChannelArrayGetNofArrayValues, a, a->NofArrayValues()); CTX(MdfChannelArrayGetDimensionAsString, a, a->DimensionAsString());
    auto sh = LST(uint64_t, MdfChannelArrayGetShape, a);
    if (sh != a->Shape()) g_ctx->Viol("MdfChannelArrayGetShape", "shape differs");
    if (LST(double, MdfChannelArrayGetAxisValues, a) != a->AxisValues()) g_ctx->Viol("MdfChannelArrayGetAxisValues", "axis values differ");
    if (LST(uint64_t, MdfChannelArrayGetCycleCounts, a) != a->CycleCounts()) g_ctx->Viol("MdfChannelArrayGetCycleCounts", "cycle counts differ");
    for (size_t i = 0; i < sh.size(); ++i) Eq("MdfChannelArrayGetDimensionSize", E::MdfChannelArrayGetDimensionSize(a, i), a->DimensionSize(i));
  }
  if (depth < 3) for (auto* x : want) WalkChannel(x, depth + 1);
}
void WalkEvent(mdf::IEvent* e) {
  g_ctx->Count("events");
  CEQ(MdfEventGetIndex, e, e->Index()); CTX(MdfEventGetName, e, e->Name()); CTX(MdfEventGetDescription, e, e->Description()); CTX(MdfEventGetGroupName, e, e->GroupName());
  CEQ(MdfEventGetType, e, e->Type()); CEQ(MdfEventGetSync, e, e->Sync()); CEQ(MdfEventGetRange, e, e->Range()); CEQ(MdfEventGetCause, e, e->Cause());
  CEQ(MdfEventGetCreatorIndex, e, e->CreatorIndex()); CEQ(MdfEventGetSyncValue, e, e->SyncValue()); CEQ(MdfEventGetSyncFactor, e, e->SyncFactor());
  CEQ(MdfEventGetParentEvent, e, e->ParentEvent()); CEQ(MdfEventGetRangeEvent, e, e->RangeEvent()); CEQ(MdfEventGetPreTrig, e, e->PreTrig()); CEQ(MdfEventGetPostTrig, e, e->PostTrig());
  CEQ(MdfEventGetMetaData, e, const_cast<const mdf::IEvent*>(e)->MetaData());
  auto got = LST(const mdf::IAttachment*, MdfEventGetAttachments, e); auto want = e->Attachments();
  Eq("MdfEventGetAttachments", got.size(), want.size());
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) Eq("MdfEventGetAttachments", got[i], want[i]);
  WalkMeta(const_cast<const mdf::IEvent*>(e)->MetaData());
}
template <class A, class B> void SameList(const char* fn, const A& got, const B& want) {
  Eq(fn, got.size(), want.size());
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) Eq(fn, got[i], want[i]);
}
void WalkHeader(const mdf::IHeader* c) {
  auto* h = Mut(c);
  CEQ(MdfHeaderGetIndex, h, h->Index()); CTX(MdfHeaderGetDescription, h, h->Description()); CTX(MdfHeaderGetAuthor, h, h->Author()); CTX(MdfHeaderGetDepartment, h, h->Department());
  CTX(MdfHeaderGetProject, h, h->Project()); CTX(MdfHeaderGetSubject, h, h->Subject()); CTX(MdfHeaderGetMeasurementId, h, h->MeasurementId()); CTX(MdfHeaderGetRecorderId, h, h->RecorderId());
  CEQ(MdfHeaderGetRecorderIndex, h, h->RecorderIndex()); CEQ(MdfHeaderGetStartTime, h, h->StartTime());
  CEQ(MdfHeaderIsStartAngleUsed, h, h->StartAngle().has_value()); CEQ(MdfHeaderGetStartAngle, h, h->StartAngle().value_or(0)); CEQ(MdfHeaderIsStartDistanceUsed, h, h->StartDistance().has_value()); CEQ(MdfHeaderGetStartDistance, h, h->StartDistance().value_or(0));
  CEQ(MdfHeaderGetMetaData, h, c->MetaData()); CEQ(MdfHeaderGetLastDataGroup, h, h->LastDataGroup());
  SameList("MdfHeaderGetAttachments", LST(mdf::IAttachment*, MdfHeaderGetAttachments, h), h->Attachments());
  SameList("MdfHeaderGetFileHistorys", LST(mdf::IFileHistory*, MdfHeaderGetFileHistorys, h), h->FileHistories());
  SameList("MdfHeaderGetEvents", LST(mdf::IEvent*, MdfHeaderGetEvents, h), h->Events());
  SameList("MdfHeaderGetDataGroups", LST(mdf::IDataGroup*, MdfHeaderGetDataGroups, h), h->DataGroups());
  WalkMeta(c->MetaData());
  for (auto* a : h->Attachments()) {
    g_ctx->Count("attachments");
    CEQ(MdfAttachmentGetIndex, a, a->Index()); CEQ(MdfAttachmentGetCreatorIndex, a, a->CreatorIndex()); CEQ(MdfAttachmentGetEmbedded, a, a->IsEmbedded()); CEQ(MdfAttachmentGetCompressed, a, a->IsCompressed());
    CTX(MdfAttachmentGetFileName, a, a->FileName()); CTX(MdfAttachmentGetFileType, a, a->FileType()); CEQ(MdfAttachmentGetMetaData, a, const_cast<const mdf::IAttachment*>(a)->MetaData());
    std::vector<char> md5(a->Md5().value_or("").size() + 1);
    const bool has = E::MdfAttachmentGetMd5(a, md5.data());
    Eq("MdfAttachmentGetMd5", has, a->Md5().has_value()); Eq("MdfAttachmentGetMd5", std::string(md5.data()), a->Md5().value_or(""));
    WalkMeta(const_cast<const mdf::IAttachment*>(a)->MetaData());
  }
  for (auto* f : h->FileHistories()) {
    g_ctx->Count("histories");
    CEQ(MdfFileHistoryGetIndex, f, f->Index()); CEQ(MdfFileHistoryGetTime, f, f->Time()); CEQ(MdfFileHistoryGetMetaData, f, const_cast<const mdf::IFileHistory*>(f)->MetaData());
    CTX(MdfFileHistoryGetDescription, f, f->Description()); CTX(MdfFileHistoryGetToolName, f, f->ToolName()); CTX(MdfFileHistoryGetToolVendor, f, f->ToolVendor());
    CTX(MdfFileHistoryGetToolVersion, f, f->ToolVersion()); CTX(MdfFileHistoryGetUserName, f, f->UserName());
    WalkMeta(const_cast<const mdf::IFileHistory*>(f)->MetaData());
  }
  for (auto* e : h->Events()) WalkEvent(e);
  for (auto* d : h->DataGroups()) {
    const mdf::IDataGroup* cd = d;
    CEQ(MdfDataGroupGetIndex, d, d->Index()); CTX(MdfDataGroupGetDescription, d, d->Description()); CEQ(MdfDataGroupGetRecordIdSize, d, d->RecordIdSize());
    CEQ(MdfDataGroupGetMetaData, d, cd->MetaData()); CEQ(MdfDataGroupIsRead, d, d->IsRead());
    SameList("MdfDataGroupGetChannelGroups", LST(mdf::IChannelGroup*, MdfDataGroupGetChannelGroups, d), d->ChannelGroups());
    WalkMeta(cd->MetaData());
    for (auto* g : d->ChannelGroups()) {
      const mdf::IChannelGroup* cg = g;
      const std::string gname = g->Name();
      Eq("MdfDataGroupGetChannelGroupByName", E::MdfDataGroupGetChannelGroupByName(d, gname.c_str()), d->GetChannelGroup(std::string_view(gname)));
      Eq("MdfDataGroupGetChannelGroupByRecordId", E::MdfDataGroupGetChannelGroupByRecordId(d, g->RecordId()), d->GetChannelGroup(g->RecordId()));
      CEQ(MdfChannelGroupGetIndex, g, g->Index()); CEQ(MdfChannelGroupGetRecordId, g, g->RecordId()); CTX(MdfChannelGroupGetName, g, g->Name()); CTX(MdfChannelGroupGetDescription, g, g->Description());
      CEQ(MdfChannelGroupGetNofSamples, g, g->NofSamples()); CEQ(MdfChannelGroupGetFlags, g, g->Flags()); CEQ(MdfChannelGroupGetPathSeparator, g, g->PathSeparator());
      CEQ(MdfChannelGroupGetMetaData, g, cg->MetaData()); CEQ(MdfChannelGroupGetSourceInformation, g, cg->SourceInformation());
      SameList("MdfChannelGroupGetChannels", LST(mdf::IChannel*, MdfChannelGroupGetChannels, g), g->Channels());
      WalkMeta(cg->MetaData()); WalkSource(cg->SourceInformation());
      for (auto* n : g->Channels()) {
        Eq("MdfDataGroupFindParentChannelGroup", E::MdfDataGroupFindParentChannelGroup(d, n), d->FindParentChannelGroup(*n));
        Eq("MdfChannelGroupGetXChannel", E::MdfChannelGroupGetXChannel(g, n), g->GetXChannel(*n));
        WalkChannel(n);
      }
    }
  }
}
void WalkFile(const mdf::MdfFile* c) {
  auto* f = Mut(c);
  CTX(MdfFileGetName, f, f->Name()); CTX(MdfFileGetFileName, f, f->FileName()); CTX(MdfFileGetVersion, f, f->Version()); CEQ(MdfFileGetMainVersion, f, f->MainVersion()); CEQ(MdfFileGetMinorVersion, f, f->MinorVersion());
  CTX(MdfFileGetProgramId, f, f->ProgramId()); CEQ(MdfFileGetHeader, f, c->Header()); CEQ(MdfFileGetIsMdf4, f, f->IsMdf4());
  uint16_t a = 7, b = 7, x = 8, y = 8;
  const bool fin = E::MdfFileGetFinalized(f, a, b), want = f->IsFinalized(x, y);
  Eq("MdfFileGetFinalized", fin, want); Eq("MdfFileGetFinalized", a, x); Eq("MdfFileGetFinalized", b, y);
  mdf::AttachmentList al; c->Attachments(al); mdf::DataGroupList dl; c->DataGroups(dl);
  SameList("MdfFileGetAttachments", LST(const mdf::IAttachment*, MdfFileGetAttachments, f), al);
  SameList("MdfFileGetDataGroups", LST(const mdf::IDataGroup*, MdfFileGetDataGroups, f), dl);
}

// ------------------------------------------------------------ values through an observer
Val CValue(mdf::IChannelObserver* o, ChannelDataType dt, uint64_t i, Rng& r) {
  Val v;
  if (IsUns(dt) || IsCanOpen(dt)) { v.k = VK::U; v.valid = E::MdfChannelObserverGetChannelValueAsUnSigned(o, i, v.u); }
  else if (IsInt(dt)) { v.k = VK::I; v.valid = E::MdfChannelObserverGetChannelValueAsSigned(o, i, v.i); }
  else if (IsFloat(dt)) { v.k = VK::D; v.valid = E::MdfChannelObserverGetChannelValueAsFloat(o, i, v.d); }
  else if (IsStr(dt)) {
    v.k = VK::S;
    size_t n = 0;
    E::MdfChannelObserverGetChannelValueAsString(o, i, nullptr, n);
    size_t cap = n + 1 + (r.Chance(0.3) ? r.Below(40) : 0);
    std::unique_ptr<char[]> b(new char[cap]);
    memset(b.get(), 0x7f, cap);
    size_t m = cap;
    v.valid = E::MdfChannelObserverGetChannelValueAsString(o, i, b.get(), m);
    if (m != n) g_ctx->Viol("MdfChannelObserverGetChannelValueAsString", "size " + std::to_string(m) + " then " + std::to_string(n));
    else if (b[n] != 0) g_ctx->Viol("MdfChannelObserverGetChannelValueAsString", "not terminated");
    else v.s.assign(b.get(), n);
    if (n > 0) {  // a buffer that is too small is left alone
      std::unique_ptr<char[]> s(new char[n]);
      memset(s.get(), 0x7f, n);
      size_t q = n;
      E::MdfChannelObserverGetChannelValueAsString(o, i, s.get(), q);
      if (q != n) g_ctx->Viol("MdfChannelObserverGetChannelValueAsString", "size of a small buffer");
    }
  } else {
    v.k = VK::B;
    size_t n = 0;
    E::MdfChannelObserverGetChannelValueAsArray(o, i, nullptr, n);
    const size_t cap = n + (r.Chance(0.3) ? 1 + r.Below(40) : 0);
    v.b.resize(n);
    std::unique_ptr<uint8_t[]> b(new uint8_t[cap]);
    size_t m = cap;
    v.valid = r.Chance(0.8) ? E::MdfChannelObserverGetChannelValueAsArray(o, i, b.get(), m) : E::MdfChannelObserverGetEngValueAsArray(o, i, b.get(), m);
    if (m != n) g_ctx->Viol("MdfChannelObserverGetChannelValueAsArray", "size " + std::to_string(m) + " then " + std::to_string(n));
    else memcpy(v.b.data(), b.get(), n);
  }
  return v;
}
void CompareEng(mdf::IChannelObserver* o, ChannelDataType dt, uint64_t i) {
  if (IsBytes(dt)) return;
  double d = 0, d2 = 0;
  bool a = E::MdfChannelObserverGetEngValueAsFloat(o, i, d), b = o->GetEngValue(i, d2);
  Eq("MdfChannelObserverGetEngValueAsFloat", a, b); if (b) Eq("MdfChannelObserverGetEngValueAsFloat", d, d2);
  std::string s;
  b = o->GetEngValue(i, s);
  size_t n = 0;
  E::MdfChannelObserverGetEngValueAsString(o, i, nullptr, n);
  std::unique_ptr<char[]> buf(new char[n + 1]);
  memset(buf.get(), 0x7f, n + 1);
  size_t m = n + 1;
  a = E::MdfChannelObserverGetEngValueAsString(o, i, buf.get(), m);
  Eq("MdfChannelObserverGetEngValueAsString", a, b); Eq("MdfChannelObserverGetEngValueAsString", m, s.size());
  if (m == s.size() && buf[n] == 0) Eq("MdfChannelObserverGetEngValueAsString", std::string(buf.get(), n), s);
  else g_ctx->Viol("MdfChannelObserverGetEngValueAsString", "not terminated");
  if (IsInt(dt)) {
    int64_t x = 0, y = 0; a = E::MdfChannelObserverGetEngValueAsSigned(o, i, x); b = o->GetEngValue(i, y);
    Eq("MdfChannelObserverGetEngValueAsSigned", a, b); if (b) Eq("MdfChannelObserverGetEngValueAsSigned", x, y);
    if (!b || y < 0 || (d2 < 0 || d2 > 1e18)) return;
    uint64_t p = 0, q = 0; a = E::MdfChannelObserverGetEngValueAsUnSigned(o, i, p); b = o->GetEngValue(i, q);
    Eq("MdfChannelObserverGetEngValueAsUnSigned", a, b); if (b) Eq("MdfChannelObserverGetEngValueAsUnSigned", p, q);
  }
}

// ------------------------------------------------------------ setters
void SetMeta(Rng& r, mdf::IMetaData* md) {
  if (!md) return;
  const size_t n = r.Below(4);
  for (size_t i = 0; i < n; ++i) {
    auto* t = E::MdfETagInit();
    SETT(MdfETag, Name, t, "p" + std::to_string(i) + Word(r, r.Below(8)), t->Name());
    SETT(MdfETag, Description, t, MText(r, 20, true), t->Description()); SETT(MdfETag, Unit, t, MText(r, 8, true), t->Unit()); SETT(MdfETag, UnitRef, t, MText(r, 8, true), t->UnitRef());
    SETT(MdfETag, Type, t, MText(r, 8, true), t->Type()); SETT(MdfETag, Language, t, "en", t->Language()); SETV(MdfETag, ReadOnly, t, r.Chance(0.5), t->ReadOnly());
    SETV(MdfETag, DataType, t, static_cast<M::ETagDataType>(r.Below(8)), t->DataType());
    switch (r.Below(5)) {
      case 0: SETT(MdfETag, ValueAsString, t, MText(r, 20, true), t->Value<std::string>()); break;
      case 1: SETV(MdfETag, ValueAsFloat, t, static_cast<double>(r.Range(-1000, 1000)) / 8, t->Value<double>()); break;
      case 2: SETV(MdfETag, ValueAsBoolean, t, r.Chance(0.5), t->Value<bool>()); break;
      case 3: SETV(MdfETag, ValueAsSigned, t, r.Range(-100000, 100000), t->Value<int64_t>()); break;
      default: SETV(MdfETag, ValueAsUnsigned, t, r.U64() >> r.Below(60), t->Value<uint64_t>());
    }
    E::MdfMetaDataAddCommonProperty(md, t);
    auto cp = md->CommonProperties();
    if (cp.size() != i + 1) g_ctx->Viol("MdfMetaDataAddCommonProperty", "properties " + std::to_string(cp.size()) + " want " + std::to_string(i + 1));
    else Eq("MdfMetaDataAddCommonProperty", cp[i].Name(), t->Name());
    E::MdfETagUnInit(t);
  }
  if (n > 0 && r.Chance(0.3)) {
    auto list = md->CommonProperties();
    for (size_t i = 0; i < list.size(); ++i) list[i].Name("q" + std::to_string(i));
    std::vector<const mdf::ETag*> p;
    for (auto& t : list) p.push_back(&t);
    E::MdfMetaDataSetCommonProperties(md, p.data(), p.size());
    auto cp = md->CommonProperties();
    // they come after the existing ones
    Eq("MdfMetaDataSetCommonProperties", cp.size(), 2 * list.size());
    for (size_t i = 0; cp.size() == 2 * list.size() && i < list.size(); ++i) Eq("MdfMetaDataSetCommonProperties", TagText(cp[list.size() + i]), TagText(list[i]));
  }
  const std::string s = MText(r, 20, true);
  E::MdfMetaDataSetPropertyAsString(md, "TX", s.c_str()); Eq("MdfMetaDataSetPropertyAsString", md->StringProperty("TX"), s);
  if (r.Chance(0.3)) { const double d = static_cast<double>(r.Range(-1000, 1000)) / 8; E::MdfMetaDataSetPropertyAsFloat(md, "num", d); Eq("MdfMetaDataSetPropertyAsFloat", md->FloatProperty("num"), d); }
}
void SetSource(Rng& r, mdf::ISourceInformation* s) {
  if (!s) return;
  SETT(MdfSourceInformation, Name, s, MText(r, 20), s->Name()); SETT(MdfSourceInformation, Path, s, MText(r, 20), s->Path()); SETT(MdfSourceInformation, Description, s, MText(r, 20), s->Description());
  SETV(MdfSourceInformation, Type, s, static_cast<M::SourceType>(r.Below(6)), s->Type()); SETV(MdfSourceInformation, Bus, s, static_cast<M::BusType>(r.Below(9)), s->Bus()); SETV(MdfSourceInformation, Flags, s, static_cast<uint8_t>(r.Below(2)), s->Flags());
  if (r.Chance(0.3)) { auto* md = E::MdfSourceInformationCreateMetaData(s); Eq("MdfSourceInformationCreateMetaData", md, s->MetaData()); SetMeta(r, md); }
}
uint64_t g_now = 1700000000000000000ULL;
}  // namespace

void Measurement(Ctx& ctx, bool mdf3) {
  Rng& r = ctx.rng;
  GenOpt o;
  o.mdf3 = mdf3; o.max_samples = 12; o.max_ch = 4; o.max_cg = 3; o.max_dg = 2; o.arrays = true;
  Scen s = GenScen(r, o);
  const std::string file = ctx.Path(mdf3 ? "a.dat" : "a.mf4");
  auto* w = E::MdfWriterInit(mdf3 ? M::MdfWriterType::Mdf3Basic : M::MdfWriterType::Mdf4Basic, file.c_str());
  if (!w) { ctx.Viol("MdfWriterInit", "no writer"); return; }
  struct Guard { mdf::MdfWriter* w; ~Guard() { if (w) E::MdfWriterUnInit(w); } } guard{w};
  Eq("MdfWriterGetFile", E::MdfWriterGetFile(w), w->GetFile()); Eq("MdfWriterGetHeader", E::MdfWriterGetHeader(w), w->Header()); Eq("MdfWriterIsFileNew", E::MdfWriterIsFileNew(w), w->IsFileNew());
  SETV(MdfWriter, CompressData, w, s.compress, w->CompressData());
  SETV(MdfWriter, PreTrigTime, w, r.Chance(0.3) ? static_cast<double>(r.Below(1000)) / 8 : 0.0, w->PreTrigTime());
  E::MdfWriterSetPreTrigTime(w, 0);
  SETV(MdfWriter, MaxLength, w, static_cast<uint32_t>(r.Range(8, 1000)), w->MaxLength());
  auto* file_if = E::MdfWriterGetFile(w);
  SETT(MdfFile, ProgramId, file_if, "prog" + std::to_string(r.Below(1000)), file_if->ProgramId());
  SETT(MdfFile, Name, file_if, "name" + std::to_string(r.Below(1000)), file_if->Name());
  if (!mdf3 && r.Chance(0.3)) SETV(MdfFile, MinorVersion, file_if, static_cast<int>(r.Pick({0, 10, 11, 20})), file_if->MinorVersion());
  auto* hd = E::MdfWriterGetHeader(w);
  auto text = [&](size_t n = 20) { return mdf3 ? Word(r, r.Below(n), true) : MText(r, n); };
  SETT(MdfHeader, Author, hd, text(), hd->Author()); SETT(MdfHeader, Department, hd, text(), hd->Department()); SETT(MdfHeader, Project, hd, text(), hd->Project()); SETT(MdfHeader, Subject, hd, text(), hd->Subject());
  SETT(MdfHeader, Description, hd, text(), hd->Description());
  const uint64_t st = g_now + r.Below(1000000000) * 1000000ULL;
  E::MdfHeaderSetStartTime(hd, st); Eq("MdfHeaderSetStartTime", E::MdfHeaderGetStartTime(hd), hd->StartTime());
  if (!mdf3) {
    Eq("MdfHeaderSetStartTime", hd->StartTime(), st);
    SETT(MdfHeader, MeasurementId, hd, text(), hd->MeasurementId()); SETT(MdfHeader, RecorderId, hd, text(), hd->RecorderId()); SETV(MdfHeader, RecorderIndex, hd, r.Range(0, 100), hd->RecorderIndex());
    if (r.Chance(0.5)) SETV(MdfHeader, StartAngle, hd, static_cast<double>(r.Range(0, 100)) / 8, hd->StartAngle().value_or(-1));
    if (r.Chance(0.5)) SETV(MdfHeader, StartDistance, hd, static_cast<double>(r.Range(0, 100)) / 8, hd->StartDistance().value_or(-1));
    auto* md = E::MdfHeaderCreateMetaData(hd);
    Eq("MdfHeaderCreateMetaData", md, hd->MetaData());
    const size_t na = r.Below(3), nf = r.Below(3), ne = r.Below(4);
    std::vector<mdf::IAttachment*> ats;
    for (size_t i = 0; i < na; ++i) {
      const size_t before = hd->Attachments().size();
      auto* a = r.Chance(0.5) ? E::MdfHeaderCreateAttachment(hd) : E::MdfFileCreateAttachment(file_if);
      if (hd->Attachments().size() != before + 1 || !a || hd->Attachments().back() != a) { ctx.Viol("MdfHeaderCreateAttachment", "not added"); return; }
      const std::string an = ctx.Path("att" + std::to_string(i));
      { std::ofstream of(an); of << "attachment " << i; }
      SETT(MdfAttachment, FileName, a, an, a->FileName()); SETT(MdfAttachment, FileType, a, MText(r, 20, true), a->FileType()); SETV(MdfAttachment, CreatorIndex, a, static_cast<uint16_t>(r.Below(4)), a->CreatorIndex());
      SETV(MdfAttachment, Embedded, a, r.Chance(0.7), a->IsEmbedded()); SETV(MdfAttachment, Compressed, a, r.Chance(0.5), a->IsCompressed());
      if (r.Chance(0.4)) SetMeta(r, E::MdfAttachmentCreateMetaData(a));
      ats.push_back(a);
    }
    for (size_t i = 0; i < nf; ++i) {
      auto* f = E::MdfHeaderCreateFileHistory(hd);
      if (!f || hd->FileHistories().empty() || hd->FileHistories().back() != f) { ctx.Viol("MdfHeaderCreateFileHistory", "not added"); return; }
      SETV(MdfFileHistory, Time, f, g_now + i, f->Time()); SETT(MdfFileHistory, Description, f, MText(r, 20, true), f->Description()); SETT(MdfFileHistory, ToolName, f, MText(r, 20, true), f->ToolName());
      SETT(MdfFileHistory, ToolVendor, f, MText(r, 20, true), f->ToolVendor()); SETT(MdfFileHistory, ToolVersion, f, MText(r, 20, true), f->ToolVersion()); SETT(MdfFileHistory, UserName, f, MText(r, 20, true), f->UserName());
    }
    std::vector<mdf::IEvent*> evs;
    for (size_t i = 0; i < ne; ++i) {
      auto* e = E::MdfHeaderCreateEvent(hd);
      if (!e || hd->Events().empty() || hd->Events().back() != e) { ctx.Viol("MdfHeaderCreateEvent", "not added"); return; }
      SETT(MdfEvent, Name, e, MText(r, 20, true), e->Name()); SETT(MdfEvent, Description, e, MText(r, 20, true), e->Description()); SETT(MdfEvent, GroupName, e, MText(r, 20, true), e->GroupName());
      SETV(MdfEvent, Type, e, static_cast<M::EventType>(r.Below(7)), e->Type()); SETV(MdfEvent, Sync, e, static_cast<M::SyncType>(r.Range(1, 4)), e->Sync()); SETV(MdfEvent, Range, e, static_cast<M::RangeType>(r.Below(3)), e->Range()); SETV(MdfEvent, Cause, e, static_cast<M::EventCause>(r.Below(5)), e->Cause());
      SETV(MdfEvent, CreatorIndex, e, static_cast<uint16_t>(r.Below(4)), e->CreatorIndex()); SETV(MdfEvent, SyncValue, e, r.Range(-1000000, 1000000), e->SyncValue()); SETV(MdfEvent, SyncFactor, e, r.Pick({1e-9, 1e-3, 0.5}), e->SyncFactor());
      SETV(MdfEvent, PreTrig, e, static_cast<double>(r.Below(100)) / 8, e->PreTrig()); SETV(MdfEvent, PostTrig, e, static_cast<double>(r.Below(100)) / 8, e->PostTrig());
      if (!evs.empty() && r.Chance(0.5)) { auto* p = r.Pick(evs); E::MdfEventSetParentEvent(e, p); Eq("MdfEventSetParentEvent", static_cast<const mdf::IEvent*>(e)->ParentEvent(), p); }
      if (!evs.empty() && r.Chance(0.5)) { auto* p = r.Pick(evs); E::MdfEventSetRangeEvent(e, p); Eq("MdfEventSetRangeEvent", static_cast<const mdf::IEvent*>(e)->RangeEvent(), p); }
      if (!ats.empty() && r.Chance(0.5)) { auto* a = r.Pick(ats); E::MdfEventAddAttachment(e, a); Eq("MdfEventAddAttachment", e->Attachments().size(), size_t{1}); if (!e->Attachments().empty()) Eq("MdfEventAddAttachment", e->Attachments()[0], a); }
      evs.push_back(e);
    }
  }
  Handles h;
  for (auto& d : s.dg) {
    const size_t before = hd->DataGroups().size();
    auto* dg = r.Chance(0.6) ? E::MdfWriterCreateDataGroup(w) : r.Chance(0.5) ? E::MdfHeaderCreateDataGroup(hd) : E::MdfFileCreateDataGroup(file_if);
    if (!dg || hd->DataGroups().size() != before + 1 || hd->LastDataGroup() != dg) { ctx.Viol("create data group", "not added"); return; }
    if (!mdf3 && r.Chance(0.3)) { auto* md = E::MdfDataGroupCreateMetaData(dg); Eq("MdfDataGroupCreateMetaData", md, dg->MetaData()); SetMeta(r, md); }
    h.dg.push_back(dg); h.cg.emplace_back(); h.ch.emplace_back();
    for (auto& g : d.cg) {
      auto* cg = E::MdfDataGroupCreateChannelGroup(dg);
      if (!cg || dg->ChannelGroups().empty() || dg->ChannelGroups().back() != cg) { ctx.Viol("MdfDataGroupCreateChannelGroup", "not added"); return; }
      h.cg.back().push_back(cg); h.ch.back().emplace_back();
      if (!mdf3) SETT(MdfChannelGroup, Name, cg, g.name, cg->Name()); else cg->Name(g.name);
      SETT(MdfChannelGroup, Description, cg, g.desc, cg->Description());
      if (!mdf3) {
        SETV(MdfChannelGroup, PathSeparator, cg, static_cast<wchar_t>(r.Pick({'.', '/', ':'})), cg->PathSeparator());
        if (r.Chance(0.4)) { auto* si = E::MdfChannelGroupCreateSourceInformation(cg); Eq("MdfChannelGroupCreateSourceInformation", si, cg->SourceInformation()); SetSource(r, si); }
        if (r.Chance(0.3)) { auto* md = E::MdfChannelGroupCreateMetaData(cg); Eq("MdfChannelGroupCreateMetaData", md, cg->MetaData()); }
      }
      for (auto& c : g.ch) {
        auto* cn = E::MdfChannelGroupCreateChannel(cg);
        if (!cn || cg->Channels().empty() || cg->Channels().back() != cn) { ctx.Viol("MdfChannelGroupCreateChannel", "not added"); return; }
        SETT(MdfChannel, Name, cn, c.name, cn->Name());
        if (!c.desc.empty()) SETT(MdfChannel, Description, cn, c.desc, cn->Description());
        SETT(MdfChannel, Unit, cn, c.unit, cn->Unit());
        SETV(MdfChannel, Type, cn, static_cast<M::ChannelType>(c.type), cn->Type());
        if (c.type == ChannelType::Master && mdf3) E::MdfChannelSetSync(cn, M::ChannelSyncType::Time);
        else if (c.type == ChannelType::Master) SETV(MdfChannel, Sync, cn, M::ChannelSyncType::Time, cn->Sync());
        SETV(MdfChannel, DataType, cn, static_cast<M::ChannelDataType>(c.dt), cn->DataType());
        E::MdfChannelSetDataBytes(cn, c.bytes); if (!c.dims.empty() || c.bytes) Eq("MdfChannelSetDataBytes", cn->DataBytes(), static_cast<uint64_t>(c.bytes));
        if (c.inval) SETV(MdfChannel, Flags, cn, static_cast<uint32_t>(mdf::CnFlag::InvalidValid), cn->Flags());
        if (!c.dims.empty()) {
          auto* ca = E::MdfChannelCreateChannelArray(cn);
          Eq("MdfChannelCreateChannelArray", ca, cn->ChannelArray(0));
          auto dims = c.dims;
          E::MdfChannelArraySetShape(ca, dims.data(), dims.size());
          if (ca->Shape() != c.dims) ctx.Viol("MdfChannelArraySetShape", "shape differs");
          SETV(MdfChannelArray, Type, ca, static_cast<mdf::ArrayType>(r.Below(2)), ca->Type());
        }
        if (c.cc1 != 0) {
          auto* cc = E::MdfChannelCreateChannelConversion(cn);
          Eq("MdfChannelCreateChannelConversion", cc, cn->ChannelConversion());
          SETV(MdfChannelConversion, Type, cc, M::ConversionType::Linear, cc->Type());
          E::MdfChannelConversionSetParameterAsDouble(cc, 0, c.cc0); E::MdfChannelConversionSetParameterAsDouble(cc, 1, c.cc1);
          Eq("MdfChannelConversionSetParameterAsDouble", cc->Parameter(0), c.cc0); Eq("MdfChannelConversionSetParameterAsDouble", cc->Parameter(1), c.cc1);
        } else if (!mdf3 && IsInt(c.dt) && c.type != ChannelType::Master && r.Chance(0.4)) {
          auto* cc = E::MdfChannelCreateChannelConversion(cn);
          SETT(MdfChannelConversion, Name, cc, MText(r, 12, true), cc->Name()); SETT(MdfChannelConversion, Description, cc, MText(r, 12, true), cc->Description()); SETT(MdfChannelConversion, Unit, cc, c.unit, cc->Unit());
          if (r.Chance(0.5)) { E::MdfChannelConversionSetRange(cc, -3, 7.5); Eq("MdfChannelConversionSetRange", cc->Range().value_or(std::make_pair(0.0, 0.0)).first, -3.0); Eq("MdfChannelConversionSetRange", cc->Range().value_or(std::make_pair(0.0, 0.0)).second, 7.5); }
          if (r.Chance(0.5)) {
            SETV(MdfChannelConversion, Type, cc, M::ConversionType::ValueToText, cc->Type());
            for (uint16_t i = 0; i < 3; ++i) { E::MdfChannelConversionSetParameterAsDouble(cc, i, i); const std::string t = "ref" + std::to_string(i) + MText(r, 8, true); E::MdfChannelConversionSetReference(cc, i, t.c_str()); Eq("MdfChannelConversionSetReference", cc->Reference(i), t); Eq("MdfChannelConversionGetReference", TXT(MdfChannelConversionGetReference, cc, i), t); }
            E::MdfChannelConversionSetReference(cc, 3, "default");
          } else if (r.Chance(0.5)) {
            SETV(MdfChannelConversion, Type, cc, M::ConversionType::Algebraic, cc->Type());
            SETT(MdfChannelConversion, Formula, cc, "2*X+" + std::to_string(r.Below(10)), cc->Formula());
          } else {
            SETV(MdfChannelConversion, Type, cc, M::ConversionType::Linear, cc->Type());
            E::MdfChannelConversionSetParameterAsDouble(cc, 0, 1); E::MdfChannelConversionSetParameterAsDouble(cc, 1, 0.25);
            const uint64_t q = r.Below(1000); E::MdfChannelConversionSetParameterAsUInt64(cc, 2, q); Eq("MdfChannelConversionSetParameterAsUInt64", cc->ParameterUint(2), q); Eq("MdfChannelConversionGetParameterAsUInt64", E::MdfChannelConversionGetParameterAsUInt64(cc, 2), q);
          }
          if (r.Chance(0.2)) { auto* md = E::MdfChannelConversionCreateMetaData(cc); Eq("MdfChannelConversionCreateMetaData", md, cc->MetaData()); }
          if (r.Chance(0.2)) { auto* inv = E::MdfChannelConversionCreateInverse(cc); Eq("MdfChannelConversionCreateInverse", inv, cc->Inverse()); if (inv) { inv->Type(mdf::ConversionType::Linear); inv->Parameter(0, 0); inv->Parameter(1, 4); } }
        }
        if (mdf3 && r.Chance(0.3)) SETT(MdfChannel, DisplayName, cn, Word(r, r.Below(12), true), cn->DisplayName());
        if (!mdf3) {
          if (r.Chance(0.3)) { E::MdfChannelSetRange(cn, -1.5, 2.5); Eq("MdfChannelGetRangeMin", E::MdfChannelGetRangeMin(cn), -1.5); Eq("MdfChannelGetRangeMax", E::MdfChannelGetRangeMax(cn), 2.5); Eq("MdfChannelSetRange", cn->Range()->second, 2.5); }
          if (r.Chance(0.3)) { E::MdfChannelSetLimit(cn, -11.5, 12.5); Eq("MdfChannelGetLimitMin", E::MdfChannelGetLimitMin(cn), -11.5); Eq("MdfChannelGetLimitMax", E::MdfChannelGetLimitMax(cn), 12.5); Eq("MdfChannelSetLimit", cn->Limit()->first, -11.5); }
          if (r.Chance(0.3)) { E::MdfChannelSetExtLimit(cn, -21.5, 22.5); Eq("MdfChannelGetExtLimitMin", E::MdfChannelGetExtLimitMin(cn), -21.5); Eq("MdfChannelGetExtLimitMax", E::MdfChannelGetExtLimitMax(cn), 22.5); Eq("MdfChannelSetExtLimit", cn->ExtLimit()->first, -21.5); }
          if (r.Chance(0.3)) { auto* si = E::MdfChannelCreateSourceInformation(cn); Eq("MdfChannelCreateSourceInformation", si, cn->SourceInformation()); SetSource(r, si); }
          if (r.Chance(0.2)) { auto* md = E::MdfChannelCreateMetaData(cn); Eq("MdfChannelCreateMetaData", md, cn->MetaData()); }
        }
        h.ch.back().back().push_back(cn);
      }
    }
  }
  WalkHeader(hd);
  WalkFile(file_if);
  SetFlushPeriod(s.flush_ms);
  if (!E::MdfWriterInitMeasurement(w)) { ctx.Viol("MdfWriterInitMeasurement", "failed"); return; }
  E::MdfWriterStartMeasurement(w, s.start); Eq("MdfWriterGetStartTime", E::MdfWriterGetStartTime(w), s.start);
  for (auto& st2 : s.order) {
    const auto& g = s.dg[st2.dg].cg[st2.cg];
    const auto& smp = g.samples[st2.idx];
    for (size_t c = 0; c < g.ch.size(); ++c) {
      if (g.ch[c].type == ChannelType::Master) continue;
      auto* cn = h.ch[st2.dg][st2.cg][c];
      for (size_t e = 0; e < smp.v[c].size(); ++e) {
        const auto& v = smp.v[c][e];
        switch (v.k) {
          case VK::U: E::MdfChannelSetChannelValueAsUnSigned(cn, v.u, v.valid, e); break;
          case VK::I: E::MdfChannelSetChannelValueAsSigned(cn, v.i, v.valid, e); break;
          case VK::D: E::MdfChannelSetChannelValueAsFloat(cn, v.d, v.valid, e); break;
          case VK::S: E::MdfChannelSetChannelValueAsString(cn, v.s.c_str(), v.valid, e); break;
          case VK::B: E::MdfChannelSetChannelValueAsArray(cn, v.b.data(), v.b.size(), v.valid, e); break;
        }
      }
    }
    E::MdfWriterSaveSample(w, h.cg[st2.dg][st2.cg], smp.ts);
  }
  E::MdfWriterStopMeasurement(w, s.stop); Eq("MdfWriterGetStopTime", E::MdfWriterGetStopTime(w), s.stop);
  if (!E::MdfWriterFinalizeMeasurement(w)) { ctx.Viol("MdfWriterFinalizeMeasurement", "failed"); return; }
  guard.w = nullptr;
  E::MdfWriterUnInit(w);
  ctx.Count("measurements");

  // what the C++ reader sees is what was given
  CompareScen(ctx, s, ReadContent(file), "C++ reader: ");
  // and so is what the exported functions return
  auto* rd = E::MdfReaderInit(file.c_str());
  struct RGuard { mdf::MdfReader* r; ~RGuard() { E::MdfReaderUnInit(r); } } rguard{rd};
  if (!E::MdfReaderIsOk(rd)) { ctx.Viol("MdfReaderIsOk", "false for a good file"); return; }
  Eq("MdfReaderGetIndex", E::MdfReaderGetIndex(rd), rd->Index());
  switch (r.Below(3)) {
    case 0: if (!E::MdfReaderReadHeader(rd)) ctx.Viol("MdfReaderReadHeader", "failed"); break;
    case 1: if (!E::MdfReaderReadMeasurementInfo(rd)) ctx.Viol("MdfReaderReadMeasurementInfo", "failed"); else Eq("MdfReaderReadMeasurementInfo", rd->GetHeader()->DataGroups().size(), s.dg.size()); break;
    default: break;
  }
  if (!E::MdfReaderReadEverythingButData(rd)) { ctx.Viol("MdfReaderReadEverythingButData", "failed"); return; }
  Eq("MdfReaderGetFile", E::MdfReaderGetFile(rd), rd->GetFile()); Eq("MdfReaderGetHeader", E::MdfReaderGetHeader(rd), rd->GetHeader());
  WalkHeader(E::MdfReaderGetHeader(rd));
  WalkFile(E::MdfReaderGetFile(rd));
  if (r.Chance(0.3)) { if (!E::MdfReaderOpen(rd)) ctx.Viol("MdfReaderOpen", "failed"); }
  for (size_t d = 0; d < s.dg.size(); ++d) {
    auto* dg = Mut(E::MdfReaderGetDataGroup(rd, d));
    Eq("MdfReaderGetDataGroup", dg, rd->GetDataGroup(d));
    if (!dg) return;
    auto cgs = dg->ChannelGroups();
    if (cgs.size() != s.dg[d].cg.size()) { ctx.Viol("channel groups", ""); return; }
    std::vector<std::vector<mdf::IChannelObserver*>> obs(cgs.size());
    struct OGuard { std::vector<std::vector<mdf::IChannelObserver*>>& o; ~OGuard() { for (auto& a : o) for (auto* x : a) if (x) E::MdfChannelObserverUnInit(x); } } og{obs};
    for (size_t g = 0; g < cgs.size(); ++g) {
      auto cns = cgs[g]->Channels();
      if (r.Chance(0.5)) {
        obs[g].assign(cns.size(), nullptr);
        // (compositions give more observers: none here)
        const size_t n = E::MdfChannelObserverCreateForChannelGroup(dg, cgs[g], obs[g].data());
        Eq("MdfChannelObserverCreateForChannelGroup", n, cns.size());
      } else for (auto* cn : cns) obs[g].push_back(E::MdfChannelObserverCreate(dg, cgs[g], cn));
    }
    if (!E::MdfReaderReadData(rd, dg)) { ctx.Viol("MdfReaderReadData", "failed"); return; }
    for (size_t g = 0; g < cgs.size(); ++g) {
      const auto& sg = s.dg[d].cg[g];
      auto cns = cgs[g]->Channels();
      if (obs[g].size() != sg.ch.size()) { ctx.Viol("observers", ""); continue; }
      for (size_t c = 0; c < sg.ch.size(); ++c) {
        auto* o = obs[g][c];
        if (!o) { ctx.Viol("MdfChannelObserverCreate", "no observer"); continue; }
        CEQ(MdfChannelObserverGetNofSamples, o, static_cast<int64_t>(o->NofSamples())); CTX(MdfChannelObserverGetName, o, o->Name()); CTX(MdfChannelObserverGetUnit, o, o->Unit());
        CEQ(MdfChannelObserverGetChannel, o, &o->Channel()); CEQ(MdfChannelObserverIsMaster, o, o->IsMaster()); Eq("MdfChannelObserverGetChannel", &o->Channel(), cns[c]);
        for (size_t i = 0; i < sg.samples.size(); ++i) {
          CompareEng(o, sg.ch[c].dt, i);
          if (sg.ch[c].type == ChannelType::Master) continue;
          const Val v = CValue(o, sg.ch[c].dt, i, r);
          const Val& want = sg.samples[i].v[c][0];
          ctx.Count("values_compared");
          if (v.valid != want.valid) ctx.Viol("validity through the exported functions", sg.ch[c].name + " sample " + std::to_string(i));
          else if (v.valid && !SameVal(v, want)) ctx.Viol("value through the exported functions", sg.ch[c].name + " sample " + std::to_string(i) + " got " + Str(v) + " want " + Str(want));
        }
      }
    }
    if (!cgs.empty() && !cgs[0]->Channels().empty()) {
      const std::string n = cgs[0]->Channels()[0]->Name();
      auto* o = E::MdfChannelObserverCreateByChannelName(dg, n.c_str());
      if (!o) ctx.Viol("MdfChannelObserverCreateByChannelName", n);
      else { Eq("MdfChannelObserverCreateByChannelName", o->Name(), n); E::MdfChannelObserverUnInit(o); }
    }
  }
  E::MdfReaderClose(rd);
  ctx.shape = ctx.sample = Describe(s);
  ctx.nontrivial = !s.order.empty();
}

// A bus log made with the exported functions
void BusLog(Ctx& ctx) {
  Rng& r = ctx.rng;
  const std::string file = ctx.Path("b.mf4");
  const bool lin = r.Chance(0.4);
  auto* w = E::MdfWriterInit(M::MdfWriterType::MdfBusLogger, file.c_str());
  if (!w) { ctx.Viol("MdfWriterInit", "no bus logger"); return; }
  struct Guard { mdf::MdfWriter* w; ~Guard() { if (w) E::MdfWriterUnInit(w); } } guard{w};
  E::MdfWriterSetBusType(w, lin ? M::MdfBusType::LIN : M::MdfBusType::CAN); Eq("MdfWriterSetBusType", w->BusType(), static_cast<uint16_t>(lin ? 2 : 1));
  Eq("MdfWriterGetBusType", static_cast<int>(E::MdfWriterGetBusType(w)), lin ? 2 : 1);
  const auto st = static_cast<M::MdfStorageType>(r.Below(3));
  SETV(MdfWriter, StorageType, w, st, w->StorageType());
  SETV(MdfWriter, MaxLength, w, 64u, w->MaxLength());
  SETV(MdfWriter, CompressData, w, r.Chance(0.5), w->CompressData());
  if (!E::MdfWriterCreateDataGroup(w)) { ctx.Viol("MdfWriterCreateDataGroup", "none"); return; }
  if (!E::MdfWriterCreateBusLogConfiguration(w)) { ctx.Viol("MdfWriterCreateBusLogConfiguration", "failed"); return; }
  auto* dg = w->Header()->LastDataGroup();
  auto* cg = E::MdfDataGroupGetChannelGroupByName(dg, lin ? "LIN_Frame" : "CAN_DataFrame");
  if (!cg) { ctx.Viol("bus log group", "not found"); return; }
  if (!E::MdfWriterInitMeasurement(w)) { ctx.Viol("MdfWriterInitMeasurement", "failed"); return; }
  const uint64_t start = g_now;
  E::MdfWriterStartMeasurement(w, start);
  struct Row { uint64_t id, bus, dir, len; std::vector<uint8_t> data; };
  std::vector<Row> rows;
  const size_t n = r.Below(30);
  for (size_t i = 0; i < n; ++i) {
    Row row;
    row.data.resize(lin ? r.Below(9) : r.Pick<size_t>({0, 1, 7, 8, 8, 12, 64}));
    for (auto& x : row.data) x = static_cast<uint8_t>(r.U64());
    const uint64_t t = start + (i + 1) * 1000000;
    if (lin) {
      auto* m = E::LinMessageInit();
      SETV(LinMessage, LinId, m, static_cast<uint8_t>(r.Below(64)), m->LinId()); SETV(LinMessage, BusChannel, m, static_cast<uint8_t>(r.Below(16)), m->BusChannel()); SETV(LinMessage, Dir, m, r.Chance(0.5), m->Dir());
      E::LinMessageSetDataBytes(m, row.data.data(), row.data.size());
      if (m->DataBytes() != row.data) ctx.Viol("LinMessageSetDataBytes", "differs");
      if (LST(uint8_t, LinMessageGetDataBytes, m) != row.data) ctx.Viol("LinMessageGetDataBytes", "differs");
      CEQ(LinMessageGetDataLength, m, m->DataLength());
      SETV(LinMessage, ReceivedDataByteCount, m, static_cast<uint8_t>(r.Below(9)), m->ReceivedDataByteCount()); SETV(LinMessage, Checksum, m, static_cast<uint8_t>(r.U64()), m->Checksum());
      const int model = r.Pick({-1, 0, 1}); E::LinMessageSetChecksumModel(m, model); Eq("LinMessageSetChecksumModel", static_cast<int>(m->ChecksumModel()), model); Eq("LinMessageGetChecksumModel", E::LinMessageGetChecksumModel(m), model);
      SETV(LinMessage, StartOfFrame, m, r.U64() >> 4, m->StartOfFrame()); SETV(LinMessage, Baudrate, m, static_cast<float>(r.Below(20000)), m->Baudrate()); SETV(LinMessage, ResponseBaudrate, m, static_cast<float>(r.Below(20000)), m->ResponseBaudrate());
      SETV(LinMessage, BreakLength, m, static_cast<uint32_t>(r.U64()), m->BreakLength());
      row.id = m->LinId(); row.bus = m->BusChannel(); row.dir = m->Dir(); row.len = m->DataLength();
      E::MdfWriterSaveLinMessage(w, cg, t, m);
      if (r.Chance(0.2)) { mdf::LinMessage x; E::LinMessageSetDataLength(m, 3); x.DataBytes(row.data); x.DataLength(3); CEQ(LinMessageGetDataLength, m, x.DataLength()); }
      E::LinMessageUnInit(m);
    } else {
      auto* m = E::CanMessageInit();
      const bool ext = r.Chance(0.5);
      const uint32_t id = ext ? static_cast<uint32_t>(r.Below(1u << 29)) : static_cast<uint32_t>(r.Below(0x800));
      E::CanMessageSetMessageId(m, id);
      E::CanMessageSetExtendedId(m, ext);
      mdf::CanMessage twin; twin.MessageId(id); twin.ExtendedId(ext);
      CEQ(CanMessageGetMessageId, m, twin.MessageId()); CEQ(CanMessageGetExtendedId, m, twin.ExtendedId()); CEQ(CanMessageGetCanId, m, twin.CanId());
      E::CanMessageSetDataBytes(m, row.data.data(), row.data.size()); twin.DataBytes(row.data);
      if (m->DataBytes() != row.data) ctx.Viol("CanMessageSetDataBytes", "differs");
      if (LST(uint8_t, CanMessageGetDataBytes, m) != row.data) ctx.Viol("CanMessageGetDataBytes", "differs");
      CEQ(CanMessageGetDataLength, m, twin.DataLength()); CEQ(CanMessageGetDlc, m, twin.Dlc());
      SETV(CanMessage, Dir, m, r.Chance(0.5), m->Dir()); SETV(CanMessage, Srr, m, r.Chance(0.5), m->Srr()); SETV(CanMessage, Edl, m, r.Chance(0.5), m->Edl()); SETV(CanMessage, Brs, m, r.Chance(0.5), m->Brs()); SETV(CanMessage, Esi, m, r.Chance(0.5), m->Esi());
      SETV(CanMessage, Rtr, m, r.Chance(0.5), m->Rtr()); SETV(CanMessage, WakeUp, m, r.Chance(0.5), m->WakeUp()); SETV(CanMessage, SingleWire, m, r.Chance(0.5), m->SingleWire());
      SETV(CanMessage, BusChannel, m, static_cast<uint8_t>(r.Below(256)), m->BusChannel());
      row.id = id; row.bus = m->BusChannel(); row.dir = m->Dir(); row.len = row.data.size();
      E::MdfWriterSaveCanMessage(w, cg, t, m);
      SETV(CanMessage, BitPosition, m, static_cast<uint8_t>(r.U64()), m->BitPosition()); SETV(CanMessage, ErrorType, m, static_cast<M::CanErrorType>(r.Below(6)), m->ErrorType());
      { const auto dlc = static_cast<uint8_t>(r.Below(16)); E::CanMessageSetDlc(m, dlc); twin.Dlc(dlc); CEQ(CanMessageGetDlc, m, twin.Dlc()); }
      { const auto len = static_cast<uint32_t>(r.Below(65)); E::CanMessageSetDataLength(m, len); twin.DataLength(len); CEQ(CanMessageGetDataLength, m, twin.DataLength()); CEQ(CanMessageGetDlc, m, twin.Dlc()); }
      E::CanMessageUnInit(m);
    }
    rows.push_back(row);
  }
  E::MdfWriterStopMeasurement(w, start + (n + 2) * 1000000);
  if (!E::MdfWriterFinalizeMeasurement(w)) { ctx.Viol("MdfWriterFinalizeMeasurement", "failed"); return; }
  guard.w = nullptr;
  E::MdfWriterUnInit(w);
  ctx.Count(lin ? "lin_logs" : "can_logs");
  auto* rd = E::MdfReaderInit(file.c_str());
  struct RGuard { mdf::MdfReader* r; ~RGuard() { E::MdfReaderUnInit(r); } } rguard{rd};
  if (!E::MdfReaderReadEverythingButData(rd)) { ctx.Viol("MdfReaderReadEverythingButData", "failed"); return; }
  WalkHeader(E::MdfReaderGetHeader(rd));
  auto* d2 = Mut(E::MdfReaderGetDataGroup(rd, 0));
  const std::string p = lin ? "LIN_Frame." : "CAN_DataFrame.";
  std::map<std::string, mdf::IChannelObserver*> ob;
  auto* g2 = E::MdfDataGroupGetChannelGroupByName(d2, lin ? "LIN_Frame" : "CAN_DataFrame");
  if (!g2) { ctx.Viol("bus log group", "not found in the file"); return; }
  // observers of the group, compositions included
  const size_t no = E::MdfChannelObserverCreateForChannelGroup(d2, g2, nullptr);
  std::vector<mdf::IChannelObserver*> all(no);
  Eq("MdfChannelObserverCreateForChannelGroup", E::MdfChannelObserverCreateForChannelGroup(d2, g2, all.data()), no);
  struct OG { std::vector<mdf::IChannelObserver*>& o; ~OG() { for (auto* x : o) E::MdfChannelObserverUnInit(x); } } og{all};
  for (auto* o : all) ob[o->Name()] = o;
  if (!E::MdfReaderReadData(rd, d2)) { ctx.Viol("MdfReaderReadData", "failed"); return; }
  Eq("MdfChannelGroupGetNofSamples", E::MdfChannelGroupGetNofSamples(g2), rows.size());
  for (const char* k : {"ID", "BusChannel", "Dir", "DataLength", "DataBytes"}) if (!ob.count(p + k)) { ctx.Viol("bus log channel", p + k); return; }
  for (size_t i = 0; i < rows.size(); ++i) {
    uint64_t u = 0;
    E::MdfChannelObserverGetChannelValueAsUnSigned(ob[p + "ID"], i, u); Eq("message id", u, rows[i].id);
    E::MdfChannelObserverGetChannelValueAsUnSigned(ob[p + "BusChannel"], i, u); Eq("bus channel", u & 255, rows[i].bus & 255);
    E::MdfChannelObserverGetChannelValueAsUnSigned(ob[p + "Dir"], i, u); Eq("direction", u, rows[i].dir);
    E::MdfChannelObserverGetChannelValueAsUnSigned(ob[p + "DataLength"], i, u); Eq("data length", u, rows[i].len);
    Val v = CValue(ob[p + "DataBytes"], ChannelDataType::ByteArray, i, r);
    v.b.resize(std::min(v.b.size(), rows[i].data.size()));
    if (v.b != rows[i].data) ctx.Viol("message data", Hex(v.b.data(), v.b.size()) + " want " + Hex(rows[i].data.data(), rows[i].data.size()));
    ctx.Count("messages_compared");
  }
  ctx.shape = ctx.sample = std::string(lin ? "LIN" : "CAN") + " storage=" + Show(st) + " n=" + std::to_string(n);
  ctx.nontrivial = n > 0;
}

// Setters whose values a measurement can not vary freely: on objects of their own.
void Detached(Ctx& ctx) {
  Rng& r = ctx.rng;
  auto w = mdf::MdfFactory::CreateMdfWriter(mdf::MdfWriterType::Mdf4Basic);
  w->Init(ctx.Path("none.mf4"));
  auto* dg = w->CreateDataGroup();
  auto* cg = mdf::MdfWriter::CreateChannelGroup(dg);
  auto* cn = mdf::MdfWriter::CreateChannel(cg);
  cn->Name("c"); cn->DataType(ChannelDataType::UnsignedIntegerLe); cn->DataBytes(8);
  SETV(MdfChannel, BitCount, cn, static_cast<uint32_t>(1 + r.Below(64)), cn->BitCount());
  SETV(MdfChannel, BitOffset, cn, static_cast<uint16_t>(r.Below(8)), cn->BitOffset());
  SETV(MdfChannel, VlsdRecordId, cn, r.U64() >> r.Below(60), cn->VlsdRecordId());
  SETV(MdfChannelGroup, Flags, cg, static_cast<uint16_t>(r.Below(32)), cg->Flags());
  SETV(MdfChannelGroup, NofSamples, cg, r.U64() >> r.Below(60), cg->NofSamples());
  const size_t n = 1 + r.Below(4);
  std::vector<mdf::IChannel*> made;
  for (size_t i = 0; i < n; ++i) {
    auto* c = E::MdfChannelCreateChannelComposition(cn);
    if (!c) { ctx.Viol("MdfChannelCreateChannelComposition", "nothing created"); return; }
    const std::string name = "sub" + std::to_string(i);
    E::MdfChannelSetName(c, name.c_str());
    made.push_back(c);
  }
  auto list = cn->ChannelCompositions();
  Eq("MdfChannelCreateChannelComposition", list.size(), n);
  for (size_t i = 0; i < std::min(n, list.size()); ++i) { Eq("MdfChannelCreateChannelComposition", list[i], made[i]); Eq("MdfChannelCreateChannelComposition", std::string(list[i]->Name()), "sub" + std::to_string(i)); }
  auto* an = mdf::MdfWriter::CreateChannel(cg);
  an->Name("a"); an->DataType(ChannelDataType::UnsignedIntegerLe); an->DataBytes(1);
  auto* ca = E::MdfChannelCreateChannelArray(an);
  if (ca) {
    SETV(MdfChannelArray, Storage, ca, static_cast<mdf::ArrayStorage>(r.Below(3)), ca->Storage());
    SETV(MdfChannelArray, Flags, ca, static_cast<uint32_t>(r.Below(512)), ca->Flags());
  }
  auto* md = cn->CreateMetaData();
  if (md) {
    const std::string text = "x" + std::to_string(r.U64());
    const std::string xml = "<CNcomment><TX>" + text + "</TX></CNcomment>";
    E::MdfMetaDataSetXmlSnippet(md, xml.c_str());
    Eq("MdfMetaDataSetXmlSnippet", md->XmlSnippet(), xml);
    Eq("MdfMetaDataSetXmlSnippet", md->StringProperty("TX"), text);
  }
}

void RunCase(Ctx& ctx) {
  g_ctx = &ctx;
  if (ctx.rng.Chance(0.3)) Detached(ctx);
  if (ctx.rng.Chance(0.25)) BusLog(ctx);
  else Measurement(ctx, ctx.rng.Chance(0.15));
}
}  // namespace vh
