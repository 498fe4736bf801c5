// LIN, Ethernet, MOST and FlexRay logs: every member of every event kind.
#include "bus.h"
namespace vh {
const char* kPropId = "C08";
using mdf::MdfWriter; using mdf::IDataGroup; using mdf::IChannelGroup;

static std::vector<uint8_t> Bytes(Rng& r, size_t n) {
  std::vector<uint8_t> v(n);
  for (auto& x : v) x = static_cast<uint8_t>(r.U64());
  return v;
}
static uint64_t Edge(Rng& r, int bits) {
  const uint64_t m = bits >= 64 ? ~0ULL : (1ULL << bits) - 1;
  return r.Pick<uint64_t>({0, 1, m, m - 1, m >> 1, (m >> 1) + 1, r.U64() & m, r.U64() & m}) & m;
}
static float Flt(Rng& r) { return static_cast<float>(r.Pick<double>({0.0, 9600.5, 19200.0, -1.25, r.Unit() * 1e6})); }

struct F {
  Fields f; std::string p;
  void U(const char* n, uint64_t v) { f.emplace_back(p + n, ValU(v)); }
  void I(const char* n, int64_t v) { f.emplace_back(p + n, ValI(v)); }
  void D(const char* n, double v) { f.emplace_back(p + n, ValD(v)); }
  void B(const char* n, const std::vector<uint8_t>& v) { f.emplace_back(p + n, ValB(v)); }
  template <size_t N> void A(const char* n, const std::array<uint8_t, N>& v) { f.emplace_back(p + n, ValB(std::vector<uint8_t>(v.begin(), v.end()))); }
};

// --- LIN ---------------------------------------------------------------------
static void GenLin(Rng& r, const std::string& kind, bool mand, BusMsg& out) {
  mdf::LinMessage m;
  VH_SET(m, BusChannel, (static_cast<uint8_t>(Edge(r, 8))));
  VH_SET(m, LinId, (static_cast<uint8_t>(Edge(r, 6))));
  VH_SET(m, Dir, (r.Chance(0.5)));
  VH_SET(m, DataBytes, (Bytes(r, r.Below(9))));
  VH_SET(m, ReceivedDataByteCount, (static_cast<uint8_t>(r.Below(16))));
  VH_SET(m, ExpectedDataByteCount, (static_cast<uint8_t>(r.Below(16))));
  VH_SET(m, Checksum, (static_cast<uint8_t>(Edge(r, 8))));
  VH_SET(m, ChecksumModel, (r.Pick({mdf::LinChecksumModel::Unknown, mdf::LinChecksumModel::Classic, mdf::LinChecksumModel::Enhanced})));
  VH_SET(m, StartOfFrame, (Edge(r, 64)));
  VH_SET(m, Baudrate, (Flt(r))); VH_SET(m, ResponseBaudrate, (Flt(r)));
  VH_SET(m, BreakLength, (static_cast<uint32_t>(Edge(r, 32)))); VH_SET(m, DelimiterBreakLength, (static_cast<uint32_t>(Edge(r, 32))));
  VH_SET(m, TotalSignalLength, (static_cast<uint32_t>(Edge(r, 32))));
  VH_SET(m, TypeOfLongDominantSignal, (static_cast<mdf::LinTypeOfLongDominantSignal>(r.Below(3))));
  KeepCheck();
  if (m.DataLength() != m.DataBytes().size()) KeepLoss().push_back("DataLength");
  VH_RESET(mdf::LinMessage, m, VH_R(BusChannel) VH_R(LinId) VH_R(Dir) VH_R(DataBytes) VH_R(DataLength) VH_R(ReceivedDataByteCount) VH_R(ExpectedDataByteCount) VH_R(Checksum) VH_R(ChecksumModel) VH_R(StartOfFrame)
    VH_R(Baudrate) VH_R(ResponseBaudrate) VH_R(BreakLength) VH_R(DelimiterBreakLength) VH_R(TotalSignalLength) VH_R(TypeOfLongDominantSignal));
  F f; f.p = "LIN_" + kind + ".";
  f.U("BusChannel", m.BusChannel());
  const bool full = !mand;
  if (kind == "Frame" || kind == "ChecksumError") {
    f.U("ID", m.LinId()); f.U("Dir", m.Dir());
    if (kind == "Frame" || full) { f.U("ReceivedDataByteCount", m.ReceivedDataByteCount()); f.U("DataLength", m.DataLength()); f.B("DataBytes", m.DataBytes()); }
    if (full) {
      f.U("Checksum", m.Checksum()); f.I("ChecksumModel", static_cast<int>(m.ChecksumModel())); f.U("SOF", m.StartOfFrame());
      f.D("Baudrate", m.Baudrate()); f.D("ResponseBaudrate", m.ResponseBaudrate()); f.U("BreakLength", m.BreakLength()); f.U("BreakDelimiterLength", m.DelimiterBreakLength());
    }
  } else if (kind == "ReceiveError") {
    f.U("ID", m.LinId()); f.U("SpecifiedDataByteCount", m.ExpectedDataByteCount()); f.U("ReceivedDataByteCount", m.ReceivedDataByteCount());
    f.U("DataLength", m.DataLength()); f.B("DataBytes", m.DataBytes()); f.I("ChecksumModel", static_cast<int>(m.ChecksumModel())); f.U("SOF", m.StartOfFrame());
    f.D("Baudrate", m.Baudrate()); f.D("ResponseBaudrate", m.ResponseBaudrate()); f.U("BreakLength", m.BreakLength()); f.U("BreakDelimiterLength", m.DelimiterBreakLength());
  } else if (kind == "SyncError") {
    f.U("SOF", m.StartOfFrame()); f.D("Baudrate", m.Baudrate()); f.U("BreakLength", m.BreakLength()); f.U("BreakDelimiterLength", m.DelimiterBreakLength());
  } else if (kind == "TransmissionError") {
    f.U("ID", m.LinId());
    if (full) {
      f.U("SpecifiedDataByteCount", m.ExpectedDataByteCount()); f.I("ChecksumModel", static_cast<int>(m.ChecksumModel())); f.U("SOF", m.StartOfFrame());
      f.D("Baudrate", m.Baudrate()); f.U("BreakLength", m.BreakLength()); f.U("BreakDelimiterLength", m.DelimiterBreakLength());
    }
  } else {  // WakeUp, Spike, LongDom
    f.D("Baudrate", m.Baudrate()); f.U("SOF", m.StartOfFrame());
    if (kind == "LongDom") { f.U("Length", m.TotalSignalLength()); f.U("Type", static_cast<uint64_t>(m.TypeOfLongDominantSignal())); }
  }
  out.f = std::move(f.f);
  out.save = [m](MdfWriter& w, const IDataGroup& dg, const IChannelGroup& cg, uint64_t t, bool by_dg) { if (by_dg) w.SaveLinMessage(dg, cg, t, m); else w.SaveLinMessage(cg, t, m); };
}
// --- Ethernet ----------------------------------------------------------------
static void GenEth(Rng& r, const std::string& kind, bool mand, BusMsg& out) {
  mdf::EthMessage m;
  VH_SET(m, BusChannel, (static_cast<uint8_t>(Edge(r, 8))));
  std::array<uint8_t, 6> s, d;
  for (auto& x : s) x = static_cast<uint8_t>(r.U64());
  for (auto& x : d) x = static_cast<uint8_t>(r.U64());
  VH_SET(m, Source, (s)); VH_SET(m, Destination, (d));
  VH_SET(m, EthType, (static_cast<uint16_t>(Edge(r, 16))));
  VH_SET(m, DataBytes, (Bytes(r, r.Chance(0.1) ? r.Below(9000) : r.Pick<size_t>({0, 1, 46, 60, 1500, r.Below(300)}))));
  VH_SET(m, ReceivedDataByteCount, (static_cast<uint16_t>(Edge(r, 16))));
  VH_SET(m, Crc, (static_cast<uint32_t>(Edge(r, 32)))); VH_SET(m, ExpectedCrc, (static_cast<uint32_t>(Edge(r, 32))));
  VH_SET(m, Dir, (r.Chance(0.5))); VH_SET(m, PaddingByteCount, (static_cast<uint16_t>(Edge(r, 16))));
  VH_SET(m, ErrorType, (static_cast<mdf::EthErrorType>(r.Below(2))));
  KeepCheck();
  if (m.DataLength() != m.DataBytes().size()) KeepLoss().push_back("DataLength");
  VH_RESET(mdf::EthMessage, m, VH_R(BusChannel) VH_R(Source) VH_R(Destination) VH_R(EthType) VH_R(DataBytes) VH_R(DataLength) VH_R(ReceivedDataByteCount) VH_R(Crc) VH_R(ExpectedCrc) VH_R(Dir) VH_R(PaddingByteCount) VH_R(ErrorType));
  F f; f.p = "ETH_" + kind + ".";
  f.U("BusChannel", m.BusChannel()); f.A("Source", m.Source()); f.A("Destination", m.Destination()); f.U("EtherType", m.EthType());
  const bool full = !mand;
  if (kind == "Frame") {
    f.U("ReceivedDataByteCount", m.ReceivedDataByteCount()); f.U("DataLength", m.DataLength()); f.B("DataBytes", m.DataBytes());
    if (full) { f.U("CRC", m.Crc()); f.U("Dir", m.Dir()); f.U("PadByteCount", m.PaddingByteCount()); }
  } else if (kind == "ChecksumError") {
    f.U("ReceivedCRC", m.Crc()); f.U("ExpectedCRC", m.ExpectedCrc()); f.U("DataLength", m.DataLength());
    if (full) { f.U("ReceivedDataByteCount", m.ReceivedDataByteCount()); f.U("Dir", m.Dir()); f.U("PadByteCount", m.PaddingByteCount()); f.B("DataBytes", m.DataBytes()); }
  } else {
    f.U("ReceivedDataByteCount", m.ReceivedDataByteCount());
    if (full) {
      f.U("DataLength", m.DataLength()); f.U("CRC", m.Crc()); f.U("Dir", m.Dir()); f.U("PadByteCount", m.PaddingByteCount()); f.B("DataBytes", m.DataBytes());
      if (kind == "ReceiveError") f.U("ErrorType", static_cast<uint64_t>(m.ErrorType()));
    }
  }
  out.f = std::move(f.f);
  out.save = [m](MdfWriter& w, const IDataGroup& dg, const IChannelGroup& cg, uint64_t t, bool by_dg) { if (by_dg) w.SaveEthMessage(dg, cg, t, m); else w.SaveEthMessage(cg, t, m); };
}
// --- MOST --------------------------------------------------------------------
template <class M> static void SaveMost(BusMsg& out, const M& m) {
  KeepCheck();
  out.save = [m](MdfWriter& w, const IDataGroup& dg, const IChannelGroup& cg, uint64_t t, bool) { w.SaveMostMessage(dg, cg, t, m); };
}
template <class M> static void MostCommon(Rng& r, M& m, F& f, bool mand, int addr) {
  VH_SET(m, Speed, (static_cast<mdf::MostSpeed>(r.Below(3))));
  VH_SET(m, TransferType, (static_cast<mdf::MostTransferType>(r.Below(2))));
  VH_SET(m, Direction, (static_cast<mdf::MostDirection>(r.Below(2))));
  VH_SET(m, Source, (Edge(r, addr))); VH_SET(m, Destination, (Edge(r, addr)));
  const auto spec = static_cast<uint16_t>(Edge(r, 16)), recv = static_cast<uint16_t>(Edge(r, 16));
  m.SpecifiedNofBytes(spec); m.ReceivedNofBytes(recv);
  VH_SET(m, DataBytes, (Bytes(r, r.Pick<size_t>({0, 1, 17, 60, 1014, r.Below(1506)}))));
  // the counts are at least the number of bytes
  KeepList().emplace_back("SpecifiedNofBytes", [&m, spec] { return m.SpecifiedNofBytes() == std::max<size_t>(spec, m.DataBytes().size()); });
  KeepList().emplace_back("ReceivedNofBytes", [&m, recv] { return m.ReceivedNofBytes() == std::max<size_t>(recv, m.DataBytes().size()); });
  VH_SET(m, Crc, (static_cast<uint32_t>(Edge(r, 32))));
  VH_SET(m, CompleteAck, (r.Pick({mdf::MostCompleteAck::NoResponse, mdf::MostCompleteAck::CrcError, mdf::MostCompleteAck::Ok})));
  VH_SET(m, PreemptiveAck, (r.Pick({mdf::MostPreemptiveAck::NoResponse, mdf::MostPreemptiveAck::BufferFull, mdf::MostPreemptiveAck::Ok})));
  VH_SET(m, TxAck, (static_cast<uint8_t>(r.Pick<int>({0, 1, 2, 4, 5, 8, 9, 12, 14}))));
  f.U("Speed", static_cast<uint64_t>(m.Speed())); f.U("TransferType", static_cast<uint64_t>(m.TransferType())); f.U("Dir", static_cast<uint64_t>(m.Direction()));
  f.U("Source", m.Source()); f.U("Destination", m.Destination());
  f.U("SpecifiedDataByteCount", m.SpecifiedNofBytes()); f.U("ReceivedDataByteCount", m.ReceivedNofBytes());
  f.U("DataLength", m.DataBytes().size()); f.B("DataBytes", m.DataBytes());
  if (!mand) { f.U("CRC", m.Crc()); f.U("CAck", static_cast<uint64_t>(m.CompleteAck())); f.U("PAck", static_cast<uint64_t>(m.PreemptiveAck())); f.U("AckNAck", m.TxAck()); }
}
static void GenMost(Rng& r, const std::string& kind, bool mand, BusMsg& out) {
  F f; f.p = "MOST_" + kind + ".";
  const auto ch = static_cast<uint8_t>(Edge(r, 8));
  f.U("BusChannel", ch);
  if (kind == "Message") {
    mdf::MostMessage m; VH_SET(m, BusChannel, (ch)); MostCommon(r, m, f, mand, 16);
    VH_SET(m, PacketIndex, (static_cast<uint8_t>(Edge(r, 8)))); VH_SET(m, TxFailed, (r.Chance(0.5))); VH_SET(m, ControlMessageType, (static_cast<mdf::MostControlMessageType>(r.Below(6))));
    if (!mand) { f.U("PIndex", m.PacketIndex()); f.U("TxFailed", m.TxFailed()); f.U("RType", static_cast<uint64_t>(m.ControlMessageType())); }
    SaveMost(out, m);
  } else if (kind == "Packet") {
    mdf::MostPacket m; VH_SET(m, BusChannel, (ch)); MostCommon(r, m, f, mand, 16);
    VH_SET(m, PacketIndex, (static_cast<uint8_t>(Edge(r, 8))));
    if (!mand) f.U("PIndex", m.PacketIndex());
    SaveMost(out, m);
  } else if (kind == "EthernetPacket") {
    mdf::MostEthernetPacket m; VH_SET(m, BusChannel, (ch)); MostCommon(r, m, f, mand, 48); SaveMost(out, m);
  } else if (kind == "SignalState") {
    mdf::MostSignalState m; VH_SET(m, BusChannel, (ch)); VH_SET(m, SignalState, (static_cast<mdf::MostStateOfSignal>(r.Pick<int>({0, 1, 2, 3, 16, 32})))); f.U("State", static_cast<uint64_t>(m.SignalState())); SaveMost(out, m);
  } else if (kind == "MaxPosInfo") {
    mdf::MostMaxPosInfo m; VH_SET(m, BusChannel, (ch)); VH_SET(m, DeviceCount, (static_cast<uint8_t>(Edge(r, 8)))); f.U("DeviceCount", m.DeviceCount()); SaveMost(out, m);
  } else if (kind == "BoundDesc") {
    mdf::MostBoundDesc m; VH_SET(m, BusChannel, (ch)); VH_SET(m, BoundaryCount, (static_cast<uint16_t>(Edge(r, 16)))); f.U("SBC", m.BoundaryCount()); SaveMost(out, m);
  } else if (kind == "AllocTable") {
    mdf::MostAllocTable m; VH_SET(m, BusChannel, (ch)); VH_SET(m, FreeByteCount, (static_cast<uint16_t>(Edge(r, 16)))); VH_SET(m, TableLayout, (static_cast<mdf::MostTableLayout>(r.Below(2))));
    VH_SET(m, TableData, (Bytes(r, r.Pick<size_t>({0, 1, 60, 120, r.Below(2000)}))));
    f.U("FreeByteCount", m.FreeByteCount()); f.U("TableLayout", static_cast<uint64_t>(m.TableLayout())); f.U("TableLength", m.TableData().size()); f.B("TableData", m.TableData());
    SaveMost(out, m);
  } else if (kind == "SysLockState") {
    mdf::MostSysLockState m; VH_SET(m, BusChannel, (ch)); VH_SET(m, RingIsClosed, (r.Chance(0.5))); f.U("SysLockState", m.RingIsClosed()); SaveMost(out, m);
  } else {
    mdf::MostShutdownFlag m; VH_SET(m, BusChannel, (ch)); VH_SET(m, ShutdownFlag, (r.Chance(0.5))); f.U("ShutdownFlag", m.ShutdownFlag()); SaveMost(out, m);
  }
  out.f = std::move(f.f);
}
// --- FlexRay -----------------------------------------------------------------
template <class M> static void SaveFlx(BusMsg& out, const M& m) {
  KeepCheck();
  out.save = [m](MdfWriter& w, const IDataGroup& dg, const IChannelGroup& cg, uint64_t t, bool) { w.SaveFlexRayMessage(dg, cg, t, m); };
}
template <class M> static void FlxFrame(Rng& r, M& m, F& f, bool full) {
  mdf::IFlexRayEvent& ev = m;
  VH_SET(ev, FrameId, (static_cast<uint16_t>(Edge(r, 11)))); VH_SET(ev, CycleCount, (static_cast<uint8_t>(Edge(r, 6))));
  VH_SET(ev, Channel, (static_cast<mdf::FlexRayChannel>(r.Below(2)))); VH_SET(ev, Direction, (static_cast<mdf::FlexRayDirection>(r.Below(2))));
  VH_SET(m, PayloadLength, (static_cast<uint8_t>(Edge(r, 7))));
  VH_SET(m, Crc, (static_cast<uint32_t>(Edge(r, 24)))); VH_SET(m, HeaderCrc, (static_cast<uint16_t>(Edge(r, 11))));
  VH_SET(m, Reserved, (r.Chance(0.5))); VH_SET(m, PayloadPreamble, (r.Chance(0.5))); VH_SET(m, SyncFrame, (r.Chance(0.5))); VH_SET(m, StartupFrame, (r.Chance(0.5)));
  VH_SET(m, NullFrame, (static_cast<mdf::FlexRayNullFlag>(r.Below(2))));
  VH_SET(m, FrameLength, (static_cast<uint32_t>(Edge(r, 32))));
  f.U("ID", ev.FrameId()); f.U("Cycle", ev.CycleCount()); f.U("FlxChannel", static_cast<uint64_t>(ev.Channel())); f.U("Dir", static_cast<uint64_t>(ev.Direction()));
  if (full) {
    f.U("PayloadLength", m.PayloadLength()); f.U("CRC", m.Crc()); f.U("HeaderCRC", m.HeaderCrc()); f.U("ReservedBitFlag", m.Reserved()); f.U("PayloadPreambleFlag", m.PayloadPreamble());
    f.U("NullFrameFlag", static_cast<uint64_t>(m.NullFrame())); f.U("SyncFrameFlag", m.SyncFrame()); f.U("StartUpFrameFlag", m.StartupFrame()); f.U("FrameLength", m.FrameLength());
  }
}
static void GenFlx(Rng& r, const std::string& kind, bool mand, BusMsg& out) {
  F f; f.p = "FLX_" + kind + ".";
  const auto ch = static_cast<uint8_t>(Edge(r, 8));
  const auto data = Bytes(r, r.Pick<size_t>({0, 1, 8, 254, r.Below(255)}));
  f.U("BusChannel", ch);
  const bool full = !mand;
  if (kind == "Frame") {
    mdf::FlexRayFrame m; VH_SET(m, BusChannel, (ch)); FlxFrame(r, m, f, full); VH_SET(m, DataBytes, (data));
    if (mand) f.U("PayloadLength", m.PayloadLength());
    f.U("DataLength", data.size()); f.B("DataBytes", data); SaveFlx(out, m);
  } else if (kind == "Pdu") {
    mdf::FlexRayPdu m; VH_SET(m, BusChannel, (ch));
    VH_SET(m, FrameId, (static_cast<uint16_t>(Edge(r, 11)))); VH_SET(m, CycleCount, (static_cast<uint8_t>(Edge(r, 6)))); VH_SET(m, Channel, (static_cast<mdf::FlexRayChannel>(r.Below(2))));
    VH_SET(m, Length, (static_cast<uint8_t>(Edge(r, 8)))); VH_SET(m, Multiplexed, (r.Chance(0.5))); VH_SET(m, Switch, (static_cast<uint16_t>(Edge(r, 16)))); VH_SET(m, Valid, (r.Chance(0.5)));
    VH_SET(m, UpdateBitPos, (static_cast<uint16_t>(Edge(r, 12)))); VH_SET(m, ByteOffset, (static_cast<uint8_t>(Edge(r, 8)))); VH_SET(m, BitOffset, (static_cast<uint8_t>(Edge(r, 3))));
    VH_SET(m, DataBytes, (data));
    f.U("ID", m.FrameId()); f.U("Cycle", m.CycleCount()); f.U("FlxChannel", static_cast<uint64_t>(m.Channel())); f.U("PduLength", m.Length()); f.U("DataLength", data.size()); f.B("DataBytes", data);
    if (full) { f.U("IsMultiplexed", m.Multiplexed()); f.U("Switch", m.Switch()); f.U("ValidFlag", m.Valid()); f.U("UpdateBitPos", m.UpdateBitPos()); f.U("PduByteOffset", m.ByteOffset()); f.U("PduBitOffset", m.BitOffset()); }
    SaveFlx(out, m);
  } else if (kind == "FrameHeader") {
    mdf::FlexRayFrameHeader m; VH_SET(m, BusChannel, (ch)); FlxFrame(r, m, f, full); VH_SET(m, FillDataBytes, (data));
    if (mand) f.U("PayloadLength", m.PayloadLength());
    else { f.U("FillDataLength", data.size()); f.B("FillDataBytes", data); }
    SaveFlx(out, m);
  } else if (kind == "NullFrame") {
    mdf::FlexRayNullFrame m; VH_SET(m, BusChannel, (ch)); FlxFrame(r, m, f, full); VH_SET(m, DataBytes, (data));
    if (full) { f.U("DataLength", data.size()); f.B("DataBytes", data); }
    SaveFlx(out, m);
  } else if (kind == "ErrorFrame") {
    mdf::FlexRayErrorFrame m; VH_SET(m, BusChannel, (ch)); FlxFrame(r, m, f, full); VH_SET(m, DataBytes, (data));
    VH_SET(m, Syntax, (r.Chance(0.5))); VH_SET(m, Content, (r.Chance(0.5))); VH_SET(m, Boundary, (r.Chance(0.5))); VH_SET(m, TxConflict, (r.Chance(0.5))); VH_SET(m, Valid, (r.Chance(0.5)));
    if (full) {
      f.U("DataLength", data.size()); f.B("DataBytes", data);
      f.U("IsSyntaxError", m.Syntax()); f.U("IsContentError", m.Content()); f.U("IsSlotBndViolation", m.Boundary()); f.U("IsTxConflict", m.TxConflict()); f.U("IsValidFrame", m.Valid());
    }
    SaveFlx(out, m);
  } else {
    mdf::FlexRaySymbol m; VH_SET(m, BusChannel, (ch)); VH_SET(m, CycleCount, (static_cast<uint8_t>(Edge(r, 6))));
    VH_SET(m, ChannelMask, (static_cast<mdf::FlexRayChannelMask>(r.Range(1, 3)))); VH_SET(m, Length, (static_cast<uint8_t>(Edge(r, 8)))); VH_SET(m, Type, (static_cast<mdf::FlexRaySymbolType>(r.Below(4))));
    f.U("Cycle", m.CycleCount()); f.U("FlxChannelMask", static_cast<uint64_t>(m.ChannelMask()));
    if (full) { f.U("SymbolLength", m.Length()); f.U("SymbolType", static_cast<uint64_t>(m.Type())); }
    SaveFlx(out, m);
  }
  out.f = std::move(f.f);
}

static const std::vector<std::string> kLin = {"Frame", "ChecksumError", "ReceiveError", "SyncError", "TransmissionError", "WakeUp", "Spike", "LongDom"};
static const std::vector<std::string> kEth = {"Frame", "ChecksumError", "LengthError", "ReceiveError"};
static const std::vector<std::string> kMost = {"Message", "Packet", "EthernetPacket", "SignalState", "MaxPosInfo", "BoundDesc", "AllocTable", "SysLockState", "ShutdownFlag"};
static const std::vector<std::string> kFlx = {"Frame", "Pdu", "FrameHeader", "NullFrame", "ErrorFrame", "Symbol"};

void RunCase(Ctx& ctx) {
  Rng& r = ctx.rng;
  BusLog b;
  GenBusLog(r, b);
  struct Net { int bus; mdf::MessageFilter ft = mdf::MessageFilter::NoFilter; uint8_t ch = 0; uint64_t id = 0; std::string net, prefix, suffix; };
  // slots: which bus lives in which data group
  std::vector<std::vector<Net>> dgs;
  int standard = 0;
  if (r.Chance(0.5)) {
    standard = static_cast<int>(r.Range(1, 7));  // bit 0 LIN, 1 ETH, 2 MOST
    dgs.emplace_back();
    for (int k = 0; k < 3; ++k) if (standard & (1 << k)) { Net n; n.bus = k; dgs[0].push_back(n); }
  } else {
    const size_t nd = r.Range(1, 3);
    for (size_t d = 0; d < nd; ++d) {
      Net n;
      n.bus = static_cast<int>(r.Below(4));
      if (r.Chance(0.5)) n.net = "Net" + std::to_string(r.Below(9));
      n.ft = n.bus == 1 ? mdf::MessageFilter::NoFilter : r.Pick({mdf::MessageFilter::NoFilter, mdf::MessageFilter::ChannelFilter, mdf::MessageFilter::MessageIdFilter});
      if (r.Chance(0.6)) n.ch = static_cast<uint8_t>(r.Range(1, 20));
      if (r.Chance(0.6)) n.id = r.Below(64);
      const std::string c = std::to_string(n.ch);
      n.prefix = n.ft == mdf::MessageFilter::ChannelFilter || (n.ft == mdf::MessageFilter::MessageIdFilter && n.ch > 0) ? c : "";
      n.suffix = n.ft == mdf::MessageFilter::MessageIdFilter ? "_" + std::to_string(n.id) : "";
      dgs.push_back({n});
    }
  }
  b.config = [&](MdfWriter& w) {
    if (standard) {
      w.BusType((standard & 1 ? mdf::MdfBusType::LIN : 0) | (standard & 2 ? mdf::MdfBusType::Ethernet : 0) | (standard & 4 ? mdf::MdfBusType::MOST : 0));
      return w.CreateBusLogConfiguration();
    }
    uint16_t all = 0;
    for (auto& d : dgs) all |= d[0].bus == 0 ? mdf::MdfBusType::LIN : d[0].bus == 1 ? mdf::MdfBusType::Ethernet : d[0].bus == 2 ? mdf::MdfBusType::MOST : mdf::MdfBusType::FlexRay;
    w.BusType(all);
    for (auto& d : dgs) {
      auto& n = d[0];
      auto* dg = w.CreateDataGroup();
      if (!dg) return false;
      auto set = [&](mdf::IConfigAdapter& a) {
        if (!n.net.empty()) a.NetworkName(n.net);
        a.FilterType(n.ft);
        if (n.ch) a.ChannelFilter(n.ch);
        if (n.id) a.IdFilter(n.id);
        a.CreateConfig(*dg);
      };
      if (n.bus == 0) { mdf::LinConfigAdapter a(w); set(a); }
      else if (n.bus == 1) { mdf::EthConfigAdapter a(w); set(a); }
      else if (n.bus == 2) { mdf::MostConfigAdapter a(w); set(a); }
      else { mdf::FlexRayConfigAdapter a(w); set(a); }
    }
    return true;
  };
  uint64_t ts = b.start + r.Below(1000000);
  const size_t total = r.Tail(100);
  for (size_t i = 0; i < total; ++i) {
    BusMsg m;
    m.dg = r.Below(dgs.size());
    auto& n = r.Pick(dgs[m.dg]);
    const std::string kind = r.Pick(n.bus == 0 ? kLin : n.bus == 1 ? kEth : n.bus == 2 ? kMost : kFlx);
    static const char* kBus[] = {"LIN", "ETH", "MOST", "FLX"};
    m.group = kBus[n.bus] + n.prefix + "_" + kind + n.suffix;
    m.ts = ts;
    if (n.bus == 0) GenLin(r, kind, b.mandatory, m);
    else if (n.bus == 1) GenEth(r, kind, b.mandatory, m);
    else if (n.bus == 2) GenMost(r, kind, b.mandatory, m);
    else GenFlx(r, kind, b.mandatory, m);
    b.msg.push_back(std::move(m));
    if (!r.Chance(0.1)) ts += 1 + r.Tail(20000000);
  }
  for (auto& l : KeepLoss()) ctx.Viol("message does not keep what was set", l);
  KeepLoss().clear();
  ctx.shape = DescribeBus(b); ctx.sample = ctx.shape; ctx.nontrivial = b.msg.size() >= 2;
  BusFile f;
  f.file = ctx.Path("c.mf4");
  const auto err = WriteBus(b, f);
  if (!err.empty()) { ctx.Viol("write-failed", err); return; }
  CompareBus(ctx, b, f);
}
}  // namespace vh
