// ---- replaying captures (C28) ----
// what parsing a body as a record of the type with this code gives, and whether it parses
fun parses(int, []byte) bool
def oftype(m: vanflow.TypeMeta, t: string) = m.APIVersion == "flow/v1" && m.Type == t
def configured(m: vanflow.TypeMeta) = oftype(m, "SiteRecord") || oftype(m, "LinkRecord") || oftype(m, "RouterRecord") || oftype(m, "ListenerRecord") || oftype(m, "ConnectorRecord") || oftype(m, "ProcessRecord") || oftype(m, "FlowRecord") && main.EnableRecordsFlow || oftype(m, "LogRecord") && main.EnableRecordsLogs
def gotype(m: vanflow.TypeMeta) = ite(oftype(m, "SiteRecord"), tid(*vanflow.SiteRecord), ite(oftype(m, "LinkRecord"), tid(*vanflow.LinkRecord), ite(oftype(m, "RouterRecord"), tid(*vanflow.RouterRecord), ite(oftype(m, "ListenerRecord"), tid(*vanflow.ListenerRecord), ite(oftype(m, "ConnectorRecord"), tid(*vanflow.ConnectorRecord), ite(oftype(m, "ProcessRecord"), tid(*vanflow.ProcessRecord), ite(oftype(m, "FlowRecord"), tid(*vanflow.FlowRecord), tid(*vanflow.LogRecord))))))))
def kept(e: main.PartialEntry) = configured(e.TypeMeta) && parses(gotype(e.TypeMeta), e.Record)
// how many of the first n entries of the capture are kept under the source
fun kepts([]main.PartialEntry, store.SourceRef, int) int
axiom none@kepts: forall d: []main.PartialEntry, s: store.SourceRef {kepts(d, s, 0)} :: kepts(d, s, 0) == 0
axiom next@kepts: forall d: []main.PartialEntry, s: store.SourceRef, n: int, m: int {kepts(d, s, n), kepts(d, s, m)} :: n >= 0 && m == n + 1 ==> kepts(d, s, m) == kepts(d, s, n) + ite(kept(d[n]) && d[n].Meta.Source == s, 1, 0)

def sizeof(m: map[store.SourceRef][]store.Entry, s: store.SourceRef) = ite(in(s, m), len(m[s]), 0)
// generated by tools/gen_fixture.py from here
fun parsedSiteRecord([]byte) vanflow.SiteRecord
def bodySiteRecord0(b: []byte, v: any) = is(v, *vanflow.SiteRecord) ==> let p = as(v, *vanflow.SiteRecord) :: let w = parsedSiteRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.Location == w.Location && p.Provider == w.Provider
def bodySiteRecord1(b: []byte, v: any) = is(v, *vanflow.SiteRecord) ==> let p = as(v, *vanflow.SiteRecord) :: let w = parsedSiteRecord(b) :: allocated(p) && p.Platform == w.Platform && p.Namespace == w.Namespace && p.Name == w.Name && p.Version == w.Version && p.Policy == w.Policy
fun parsedLinkRecord([]byte) vanflow.LinkRecord
def bodyLinkRecord0(b: []byte, v: any) = is(v, *vanflow.LinkRecord) ==> let p = as(v, *vanflow.LinkRecord) :: let w = parsedLinkRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.Parent == w.Parent && p.Mode == w.Mode
def bodyLinkRecord1(b: []byte, v: any) = is(v, *vanflow.LinkRecord) ==> let p = as(v, *vanflow.LinkRecord) :: let w = parsedLinkRecord(b) :: allocated(p) && p.Name == w.Name && p.LinkCost == w.LinkCost && p.Direction == w.Direction
fun parsedRouterRecord([]byte) vanflow.RouterRecord
def bodyRouterRecord0(b: []byte, v: any) = is(v, *vanflow.RouterRecord) ==> let p = as(v, *vanflow.RouterRecord) :: let w = parsedRouterRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.Parent == w.Parent && p.Namespace == w.Namespace
def bodyRouterRecord1(b: []byte, v: any) = is(v, *vanflow.RouterRecord) ==> let p = as(v, *vanflow.RouterRecord) :: let w = parsedRouterRecord(b) :: allocated(p) && p.Mode == w.Mode && p.ImageName == w.ImageName && p.ImageVersion == w.ImageVersion && p.Hostname == w.Hostname && p.Name == w.Name
def bodyRouterRecord2(b: []byte, v: any) = is(v, *vanflow.RouterRecord) ==> let p = as(v, *vanflow.RouterRecord) :: let w = parsedRouterRecord(b) :: allocated(p) && p.BuildVersion == w.BuildVersion
fun parsedListenerRecord([]byte) vanflow.ListenerRecord
def bodyListenerRecord0(b: []byte, v: any) = is(v, *vanflow.ListenerRecord) ==> let p = as(v, *vanflow.ListenerRecord) :: let w = parsedListenerRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.Parent == w.Parent && p.DestHost == w.DestHost
def bodyListenerRecord1(b: []byte, v: any) = is(v, *vanflow.ListenerRecord) ==> let p = as(v, *vanflow.ListenerRecord) :: let w = parsedListenerRecord(b) :: allocated(p) && p.Protocol == w.Protocol && p.DestPort == w.DestPort && p.Address == w.Address && p.FlowCountL4 == w.FlowCountL4 && p.FlowCountL7 == w.FlowCountL7
def bodyListenerRecord2(b: []byte, v: any) = is(v, *vanflow.ListenerRecord) ==> let p = as(v, *vanflow.ListenerRecord) :: let w = parsedListenerRecord(b) :: allocated(p) && p.FlowRateL4 == w.FlowRateL4 && p.FlowRateL7 == w.FlowRateL7
fun parsedConnectorRecord([]byte) vanflow.ConnectorRecord
def bodyConnectorRecord0(b: []byte, v: any) = is(v, *vanflow.ConnectorRecord) ==> let p = as(v, *vanflow.ConnectorRecord) :: let w = parsedConnectorRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.Parent == w.Parent && p.DestHost == w.DestHost
def bodyConnectorRecord1(b: []byte, v: any) = is(v, *vanflow.ConnectorRecord) ==> let p = as(v, *vanflow.ConnectorRecord) :: let w = parsedConnectorRecord(b) :: allocated(p) && p.Protocol == w.Protocol && p.DestPort == w.DestPort && p.Address == w.Address && p.FlowCountL4 == w.FlowCountL4 && p.FlowCountL7 == w.FlowCountL7
def bodyConnectorRecord2(b: []byte, v: any) = is(v, *vanflow.ConnectorRecord) ==> let p = as(v, *vanflow.ConnectorRecord) :: let w = parsedConnectorRecord(b) :: allocated(p) && p.FlowRateL4 == w.FlowRateL4 && p.FlowRateL7 == w.FlowRateL7
fun parsedProcessRecord([]byte) vanflow.ProcessRecord
def bodyProcessRecord0(b: []byte, v: any) = is(v, *vanflow.ProcessRecord) ==> let p = as(v, *vanflow.ProcessRecord) :: let w = parsedProcessRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.Parent == w.Parent && p.Mode == w.Mode
def bodyProcessRecord1(b: []byte, v: any) = is(v, *vanflow.ProcessRecord) ==> let p = as(v, *vanflow.ProcessRecord) :: let w = parsedProcessRecord(b) :: allocated(p) && p.SourceHost == w.SourceHost && p.ImageName == w.ImageName && p.ImageVersion == w.ImageVersion && p.Hostname == w.Hostname && p.Name == w.Name
def bodyProcessRecord2(b: []byte, v: any) = is(v, *vanflow.ProcessRecord) ==> let p = as(v, *vanflow.ProcessRecord) :: let w = parsedProcessRecord(b) :: allocated(p) && p.Group == w.Group
fun parsedFlowRecord([]byte) vanflow.FlowRecord
def bodyFlowRecord0(b: []byte, v: any) = is(v, *vanflow.FlowRecord) ==> let p = as(v, *vanflow.FlowRecord) :: let w = parsedFlowRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.Parent == w.Parent && p.Counterflow == w.Counterflow
def bodyFlowRecord1(b: []byte, v: any) = is(v, *vanflow.FlowRecord) ==> let p = as(v, *vanflow.FlowRecord) :: let w = parsedFlowRecord(b) :: allocated(p) && p.SourceHost == w.SourceHost && p.SourcePort == w.SourcePort && p.Octets == w.Octets && p.Latency == w.Latency && p.Reason == w.Reason
def bodyFlowRecord2(b: []byte, v: any) = is(v, *vanflow.FlowRecord) ==> let p = as(v, *vanflow.FlowRecord) :: let w = parsedFlowRecord(b) :: allocated(p) && p.Trace == w.Trace && p.OctetRate == w.OctetRate && p.OctetsOut == w.OctetsOut && p.OctetsUnacked == w.OctetsUnacked && p.WindowClosures == w.WindowClosures
def bodyFlowRecord3(b: []byte, v: any) = is(v, *vanflow.FlowRecord) ==> let p = as(v, *vanflow.FlowRecord) :: let w = parsedFlowRecord(b) :: allocated(p) && p.WindowSize == w.WindowSize && p.Method == w.Method && p.Result == w.Result
fun parsedLogRecord([]byte) vanflow.LogRecord
def bodyLogRecord0(b: []byte, v: any) = is(v, *vanflow.LogRecord) ==> let p = as(v, *vanflow.LogRecord) :: let w = parsedLogRecord(b) :: allocated(p) && p.BaseRecord.ID == w.BaseRecord.ID && p.BaseRecord.StartTime == w.BaseRecord.StartTime && p.BaseRecord.EndTime == w.BaseRecord.EndTime && p.LogSeverity == w.LogSeverity && p.LogText == w.LogText
def bodyLogRecord1(b: []byte, v: any) = is(v, *vanflow.LogRecord) ==> let p = as(v, *vanflow.LogRecord) :: let w = parsedLogRecord(b) :: allocated(p) && p.SourceFile == w.SourceFile && p.SourceLine == w.SourceLine
def body(b: []byte, v: any) = bodySiteRecord0(b, v) && bodySiteRecord1(b, v) && bodyLinkRecord0(b, v) && bodyLinkRecord1(b, v) && bodyRouterRecord0(b, v) && bodyRouterRecord1(b, v) && bodyRouterRecord2(b, v) && bodyListenerRecord0(b, v) && bodyListenerRecord1(b, v) && bodyListenerRecord2(b, v) && bodyConnectorRecord0(b, v) && bodyConnectorRecord1(b, v) && bodyConnectorRecord2(b, v) && bodyProcessRecord0(b, v) && bodyProcessRecord1(b, v) && bodyProcessRecord2(b, v) && bodyFlowRecord0(b, v) && bodyFlowRecord1(b, v) && bodyFlowRecord2(b, v) && bodyFlowRecord3(b, v) && bodyLogRecord0(b, v) && bodyLogRecord1(b, v)
// to here
// the entry at position n under its source is this one of the capture
def holds(m: map[store.SourceRef][]store.Entry, e: main.PartialEntry, n: int) = in(e.Meta.Source, m) && 0 <= n && n < len(m[e.Meta.Source]) && (let x = m[e.Meta.Source][n] :: x.Meta == e.Meta && x.TypeMeta == e.TypeMeta && x.Record != nil && tyid(x.Record) == gotype(e.TypeMeta))
def recordof(m: map[store.SourceRef][]store.Entry, e: main.PartialEntry, n: int) = m[e.Meta.Source][n].Record

unit tool.groupEntriesBySource(request)(r)
  use
  props C28
  safety C28
  split main.EnableRecordsFlow
  split main.EnableRecordsLogs
  on encoding/json.Unmarshal(b, v, err)
    define (err == nil) == parses(tyid(v), b)
  ensures count: forall s: store.SourceRef :: sizeof(r, s) == kepts(request.Data, s, len(request.Data))
  ensures each: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: holds(r, e, kepts(request.Data, e.Meta.Source, i))
  ensures some: forall s: store.SourceRef :: in(s, r) ==> len(r[s]) > 0
  // and no more
  loop count(i: int, m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef :: sizeof(m, s) == kepts(request.Data, s, i + 1)
  loop own(m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef :: in(s, m) ==> isfresh(m[s])
  loop apart(m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef, t: store.SourceRef :: in(s, m) && in(t, m) && s != t ==> arr(m[s]) != arr(m[t])
  loop each(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: holds(m, e, kepts(request.Data, e.Meta.Source, j)) && kepts(request.Data, e.Meta.Source, j) < kepts(request.Data, e.Meta.Source, i + 1)
  loop some(i: int, m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef :: in(s, m) ==> len(m[s]) > 0

unit tool.groupEntriesBySource~fields(request)(r)
  props C28
  split main.EnableRecordsFlow
  split main.EnableRecordsLogs
  on encoding/json.Unmarshal(b, v, err)
    define (err == nil) == parses(tyid(v), b)
    define err == nil ==> body(b, v)
  // each record is what its body says
  ensures SiteRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodySiteRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures SiteRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodySiteRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures LinkRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyLinkRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures LinkRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyLinkRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures RouterRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyRouterRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures RouterRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyRouterRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures RouterRecord2: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyRouterRecord2(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ListenerRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyListenerRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ListenerRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyListenerRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ListenerRecord2: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyListenerRecord2(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ConnectorRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyConnectorRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ConnectorRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyConnectorRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ConnectorRecord2: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyConnectorRecord2(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ProcessRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyProcessRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ProcessRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyProcessRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures ProcessRecord2: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyProcessRecord2(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures FlowRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyFlowRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures FlowRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyFlowRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures FlowRecord2: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyFlowRecord2(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures FlowRecord3: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyFlowRecord3(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures LogRecord0: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyLogRecord0(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  ensures LogRecord1: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: bodyLogRecord1(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))
  loop SiteRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodySiteRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop SiteRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodySiteRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop LinkRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyLinkRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop LinkRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyLinkRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop RouterRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyRouterRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop RouterRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyRouterRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop RouterRecord2(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyRouterRecord2(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ListenerRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyListenerRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ListenerRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyListenerRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ListenerRecord2(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyListenerRecord2(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ConnectorRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyConnectorRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ConnectorRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyConnectorRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ConnectorRecord2(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyConnectorRecord2(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ProcessRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyProcessRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ProcessRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyProcessRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop ProcessRecord2(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyProcessRecord2(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop FlowRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyFlowRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop FlowRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyFlowRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop FlowRecord2(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyFlowRecord2(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop FlowRecord3(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyFlowRecord3(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop LogRecord0(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyLogRecord0(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  loop LogRecord1(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: bodyLogRecord1(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))
  // where they are
  loop count(i: int, m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef :: sizeof(m, s) == kepts(request.Data, s, i + 1)
  loop own(m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef :: in(s, m) ==> isfresh(m[s])
  loop apart(m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef, t: store.SourceRef :: in(s, m) && in(t, m) && s != t ==> arr(m[s]) != arr(m[t])
  loop each(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: holds(m, e, kepts(request.Data, e.Meta.Source, j)) && kepts(request.Data, e.Meta.Source, j) < kepts(request.Data, e.Meta.Source, i + 1)
  loop some(i: int, m: map[store.SourceRef][]store.Entry): forall s: store.SourceRef :: in(s, m) ==> len(m[s]) > 0

def flowof(e: store.Entry) = is(e.Record, *vanflow.FlowRecord) && as(e.Record, *vanflow.FlowRecord) != nil
def flowentry(f: *main.fixtureServer, e: store.Entry) = flowof(e) && in(e.Meta.Source.Name, f.managers)
def counted(r: *vanflow.FlowRecord) = r != nil && r.Octets != nil && r.Latency != nil

lock main.fixtureServer.lock (f)
  guards status, managers, flowsProcessed
  contents *eventsource.Manager
  invariant [C28] managers: forall k: string :: in(k, f.managers) ==> f.managers[k] != nil && len(f.managers[k].Stores) > 0 && f.managers[k].Stores[0] != nil

unit (*tool.fixtureServer).ServeFlows(f, rw, r)()
  props C28
  safety C28
  requires f != nil && rw != nil && r != nil && r.Body != nil
  on store.Interface.Index(s, ctx, name, exemplar, sel, out, err)
    // the stores of the fixture hold what groupEntriesBySource made
    define forall i: int :: 0 <= i && i < len(out.Entries) ==> flowentry(f, out.Entries[i])
  loop listed(m: map[string]store.Entry): forall k: string :: in(k, m) ==> flowentry(f, m[k])
  loop paired(ps: []main.flowPair): forall i: int :: 0 <= i && i < len(ps) ==> flowentry(f, ps[i].Server) && (ps[i].Client.Record != nil ==> flowentry(f, ps[i].Client))
  loop ids(m: map[string]store.Entry, ids: map[string]string): forall k: string :: in(k, ids) ==> in(k, m)
  loop stores(it: iter[string], ss: map[string]store.Interface): forall k: string :: in(k, ss) ==> ss[k] != nil

helper (*tool.fixtureServer).fakeFlow(f, og, srvManager, cliManager, flows, duration, increments)()
  use
  props C28
  safety C28
  requires f != nil && srvManager != nil && cliManager != nil && flows >= 0 && increments > 0 && flowof(og.Server) && flowof(og.Client)
  loop made(i: int, fs: []*vanflow.FlowRecord): len(fs) == flows && (forall j: int :: 0 <= j && j < i ==> counted(fs[j]))
  loop all(fs: []*vanflow.FlowRecord): forall j: int :: 0 <= j && j < len(fs) ==> counted(fs[j])

helper tool.newFixtureStore()(r)
  use
  props C28
  ensures r != nil && isfresh(as(r, *store.objectCache)) && is(r, *store.objectCache)

ghost fgroups: map[store.SourceRef][]store.Entry
ghost floaded: array[any][]store.Entry
ghost fsent: bool

unit (*tool.fixtureServer).ServeFixture(f, rw, r)()
  props C28
  safety C28
  requires f != nil && rw != nil && r != nil && r.Body != nil
  begin fsent = false
  on tool.groupEntriesBySource(req, g)
    set fgroups = g
  on store.Interface.Replace(s, ctx, entries, err)
    set floaded = ite(err == nil, store(floaded, s, entries), floaded)
  on send map[store.SourceRef]store.Interface(ch, v)
    assert where: ch == f.updates
    assert each: forall s: store.SourceRef :: in(s, fgroups) ==> in(s, v) && floaded[v[s]] == fgroups[s]
    assert none: forall s: store.SourceRef :: in(s, v) ==> in(s, fgroups)
    set fsent = true
  loop of(it: iter[store.SourceRef]): itermap(it) == fgroups
  loop in(it: iter[store.SourceRef], ss: map[store.SourceRef]store.Interface): forall s: store.SourceRef :: in(s, ss) == visited(it, s)
  loop old(ss: map[store.SourceRef]store.Interface): forall s: store.SourceRef :: in(s, ss) ==> is(ss[s], *store.objectCache) && allocated(as(ss[s], *store.objectCache))
  loop loaded(ss: map[store.SourceRef]store.Interface): forall s: store.SourceRef :: in(s, ss) ==> floaded[ss[s]] == fgroups[s]
