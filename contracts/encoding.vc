// Generated by tools/gen_encoding.py from the VanFlow record table.
// ---- records to and from attribute sets (C01, C02, C03) ----
lock global encoding.mu
  guards encodings, decodings

// timestamps: microseconds since the epoch
def nanotime(t: time.Time) = nanos(t)
def settime(p: *vanflow.Time) = p != nil && nanos(p.Time) != -62135596800 * 1000000000
def goodtime(p: *vanflow.Time) = settime(p) ==> nanos(p.Time) >= 0
// package time leaves UnixMicro undefined outside the int64 microsecond range (years -290307..294246)
def timerange(p: *vanflow.Time) = p != nil ==> nanos(p.Time) >= -9223372036854775808 * 1000 && nanos(p.Time) <= 9223372036854775807 * 1000
def sametime(p: *vanflow.Time, q: *vanflow.Time) = (p != nil) == settime(q) && (p != nil ==> nanos(p.Time) == nanos(q.Time) / 1000 * 1000)
def samestr(p: *string, q: *string) = (p != nil) == setstr(q) && (p != nil ==> *p == *q)
def sameu64(p: *uint64, q: *uint64) = (p != nil) == setu64(q) && (p != nil ==> *p == *q)
def setstr(p: *string) = p != nil && *p != ""
def setu64(p: *uint64) = p != nil && *p != 0

// attribute k of m is what the field p gives
def encstr(m: map[any]any, k: any, p: *string) = in(k, m) == setstr(p) && (setstr(p) ==> m[k] == box(*p))
def encu64(m: map[any]any, k: any, p: *uint64) = in(k, m) == setu64(p) && (setu64(p) ==> m[k] == box(*p))
def enctime(m: map[any]any, k: any, p: *vanflow.Time) = in(k, m) == settime(p) && (settime(p) ==> is(m[k], uint64) && as(m[k], uint64) == nanos(p.Time) / 1000)

// attribute k of m has the field's wire type
def wirestr(m: map[any]any, k: any) = in(k, m) ==> is(m[k], string)
def wireu64(m: map[any]any, k: any) = in(k, m) ==> is(m[k], uint64)
def wiretime(m: map[any]any, k: any) = in(k, m) ==> is(m[k], uint64) && as(m[k], uint64) <= 9223372036854775807

// field p holds attribute k of m
def decstr(m: map[any]any, k: any, p: *string) = (p != nil) == in(k, m) && (p != nil ==> *p == as(m[k], string))
def decu64(m: map[any]any, k: any, p: *uint64) = (p != nil) == in(k, m) && (p != nil ==> *p == as(m[k], uint64))
def dectime(m: map[any]any, k: any, p: *vanflow.Time) = (p != nil) == in(k, m) && (p != nil ==> nanos(p.Time) == as(m[k], uint64) * 1000)

// vanflow.SiteRecord: type code 0
def encSite(v: vanflow.SiteRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(0, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(9, uint32)), v.Location)
    && encstr(m, box(cast(10, uint32)), v.Provider)
    && encstr(m, box(cast(11, uint32)), v.Platform)
    && encstr(m, box(cast(12, uint32)), v.Namespace)
    && encstr(m, box(cast(30, uint32)), v.Name)
    && encstr(m, box(cast(52, uint32)), v.Version)
    && encstr(m, box(cast(53, uint32)), v.Policy)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(9, uint32)) || k == box(cast(10, uint32)) || k == box(cast(11, uint32)) || k == box(cast(12, uint32)) || k == box(cast(30, uint32)) || k == box(cast(52, uint32)) || k == box(cast(53, uint32)))

unit encoding.Encode~Site(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.SiteRecord *vanflow.SiteRecord
  requires range: is(record, vanflow.SiteRecord) ==> timerange(as(record, vanflow.SiteRecord).StartTime) && timerange(as(record, vanflow.SiteRecord).EndTime)
  requires range: is(record, *vanflow.SiteRecord) && as(record, *vanflow.SiteRecord) != nil ==> timerange(as(record, *vanflow.SiteRecord).StartTime) && timerange(as(record, *vanflow.SiteRecord).EndTime)
  let null = is(record, *vanflow.SiteRecord) && as(record, *vanflow.SiteRecord) == nil
  let v = ite(is(record, vanflow.SiteRecord), as(record, vanflow.SiteRecord), *as(record, *vanflow.SiteRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encSite(v, r)

def decSite(v: vanflow.SiteRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(9, uint32)), v.Location)
    && decstr(m, box(cast(10, uint32)), v.Provider)
    && decstr(m, box(cast(11, uint32)), v.Platform)
    && decstr(m, box(cast(12, uint32)), v.Namespace)
    && decstr(m, box(cast(30, uint32)), v.Name)
    && decstr(m, box(cast(52, uint32)), v.Version)
    && decstr(m, box(cast(53, uint32)), v.Policy)
def wireSite(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(9, uint32))))
    && (wirestr(m, box(cast(10, uint32))))
    && (wirestr(m, box(cast(11, uint32))))
    && (wirestr(m, box(cast(12, uint32))))
    && (wirestr(m, box(cast(30, uint32))))
    && (wirestr(m, box(cast(52, uint32))))
    && (wirestr(m, box(cast(53, uint32))))
def sameSite(v: vanflow.SiteRecord, w: vanflow.SiteRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Location, w.Location)
    && samestr(v.Provider, w.Provider)
    && samestr(v.Platform, w.Platform)
    && samestr(v.Namespace, w.Namespace)
    && samestr(v.Name, w.Name)
    && samestr(v.Version, w.Version)
    && samestr(v.Policy, w.Policy)

unit encoding.Decode~Site(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(0, uint32))
  ensures [C03] accepted: (err == nil) == wireSite(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.SiteRecord) && as(out, *vanflow.SiteRecord) != nil && decSite(*as(out, *vanflow.SiteRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.SiteRecord :: encSite(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.SiteRecord) && sameSite(*as(out, *vanflow.SiteRecord), w)
  ensures [C02] again: forall w: vanflow.SiteRecord :: encSite(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encSite(*as(out, *vanflow.SiteRecord), attrs)

// vanflow.RouterRecord: type code 1
def encRouter(v: vanflow.RouterRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(1, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(2, uint32)), v.Parent)
    && encstr(m, box(cast(12, uint32)), v.Namespace)
    && encstr(m, box(cast(13, uint32)), v.Mode)
    && encstr(m, box(cast(20, uint32)), v.ImageName)
    && encstr(m, box(cast(21, uint32)), v.ImageVersion)
    && encstr(m, box(cast(22, uint32)), v.Hostname)
    && encstr(m, box(cast(30, uint32)), v.Name)
    && encstr(m, box(cast(32, uint32)), v.BuildVersion)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(2, uint32)) || k == box(cast(12, uint32)) || k == box(cast(13, uint32)) || k == box(cast(20, uint32)) || k == box(cast(21, uint32)) || k == box(cast(22, uint32)) || k == box(cast(30, uint32)) || k == box(cast(32, uint32)))

unit encoding.Encode~Router(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.RouterRecord *vanflow.RouterRecord
  requires range: is(record, vanflow.RouterRecord) ==> timerange(as(record, vanflow.RouterRecord).StartTime) && timerange(as(record, vanflow.RouterRecord).EndTime)
  requires range: is(record, *vanflow.RouterRecord) && as(record, *vanflow.RouterRecord) != nil ==> timerange(as(record, *vanflow.RouterRecord).StartTime) && timerange(as(record, *vanflow.RouterRecord).EndTime)
  let null = is(record, *vanflow.RouterRecord) && as(record, *vanflow.RouterRecord) == nil
  let v = ite(is(record, vanflow.RouterRecord), as(record, vanflow.RouterRecord), *as(record, *vanflow.RouterRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encRouter(v, r)

def decRouter(v: vanflow.RouterRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(2, uint32)), v.Parent)
    && decstr(m, box(cast(12, uint32)), v.Namespace)
    && decstr(m, box(cast(13, uint32)), v.Mode)
    && decstr(m, box(cast(20, uint32)), v.ImageName)
    && decstr(m, box(cast(21, uint32)), v.ImageVersion)
    && decstr(m, box(cast(22, uint32)), v.Hostname)
    && decstr(m, box(cast(30, uint32)), v.Name)
    && decstr(m, box(cast(32, uint32)), v.BuildVersion)
def wireRouter(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(2, uint32))))
    && (wirestr(m, box(cast(12, uint32))))
    && (wirestr(m, box(cast(13, uint32))))
    && (wirestr(m, box(cast(20, uint32))))
    && (wirestr(m, box(cast(21, uint32))))
    && (wirestr(m, box(cast(22, uint32))))
    && (wirestr(m, box(cast(30, uint32))))
    && (wirestr(m, box(cast(32, uint32))))
def sameRouter(v: vanflow.RouterRecord, w: vanflow.RouterRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Parent, w.Parent)
    && samestr(v.Namespace, w.Namespace)
    && samestr(v.Mode, w.Mode)
    && samestr(v.ImageName, w.ImageName)
    && samestr(v.ImageVersion, w.ImageVersion)
    && samestr(v.Hostname, w.Hostname)
    && samestr(v.Name, w.Name)
    && samestr(v.BuildVersion, w.BuildVersion)

unit encoding.Decode~Router(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(1, uint32))
  ensures [C03] accepted: (err == nil) == wireRouter(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.RouterRecord) && as(out, *vanflow.RouterRecord) != nil && decRouter(*as(out, *vanflow.RouterRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.RouterRecord :: encRouter(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.RouterRecord) && sameRouter(*as(out, *vanflow.RouterRecord), w)
  ensures [C02] again: forall w: vanflow.RouterRecord :: encRouter(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encRouter(*as(out, *vanflow.RouterRecord), attrs)

// vanflow.LinkRecord: type code 2
def encLink(v: vanflow.LinkRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(2, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(2, uint32)), v.Parent)
    && encstr(m, box(cast(13, uint32)), v.Mode)
    && encstr(m, box(cast(30, uint32)), v.Name)
    && encu64(m, box(cast(33, uint32)), v.LinkCost)
    && encstr(m, box(cast(34, uint32)), v.Direction)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(2, uint32)) || k == box(cast(13, uint32)) || k == box(cast(30, uint32)) || k == box(cast(33, uint32)) || k == box(cast(34, uint32)))

unit encoding.Encode~Link(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.LinkRecord *vanflow.LinkRecord
  requires range: is(record, vanflow.LinkRecord) ==> timerange(as(record, vanflow.LinkRecord).StartTime) && timerange(as(record, vanflow.LinkRecord).EndTime)
  requires range: is(record, *vanflow.LinkRecord) && as(record, *vanflow.LinkRecord) != nil ==> timerange(as(record, *vanflow.LinkRecord).StartTime) && timerange(as(record, *vanflow.LinkRecord).EndTime)
  let null = is(record, *vanflow.LinkRecord) && as(record, *vanflow.LinkRecord) == nil
  let v = ite(is(record, vanflow.LinkRecord), as(record, vanflow.LinkRecord), *as(record, *vanflow.LinkRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encLink(v, r)

def decLink(v: vanflow.LinkRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(2, uint32)), v.Parent)
    && decstr(m, box(cast(13, uint32)), v.Mode)
    && decstr(m, box(cast(30, uint32)), v.Name)
    && decu64(m, box(cast(33, uint32)), v.LinkCost)
    && decstr(m, box(cast(34, uint32)), v.Direction)
def wireLink(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(2, uint32))))
    && (wirestr(m, box(cast(13, uint32))))
    && (wirestr(m, box(cast(30, uint32))))
    && (wireu64(m, box(cast(33, uint32))))
    && (wirestr(m, box(cast(34, uint32))))
def sameLink(v: vanflow.LinkRecord, w: vanflow.LinkRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Parent, w.Parent)
    && samestr(v.Mode, w.Mode)
    && samestr(v.Name, w.Name)
    && sameu64(v.LinkCost, w.LinkCost)
    && samestr(v.Direction, w.Direction)

unit encoding.Decode~Link(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(2, uint32))
  ensures [C03] accepted: (err == nil) == wireLink(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.LinkRecord) && as(out, *vanflow.LinkRecord) != nil && decLink(*as(out, *vanflow.LinkRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.LinkRecord :: encLink(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.LinkRecord) && sameLink(*as(out, *vanflow.LinkRecord), w)
  ensures [C02] again: forall w: vanflow.LinkRecord :: encLink(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encLink(*as(out, *vanflow.LinkRecord), attrs)

// vanflow.ControllerRecord: type code 3
def encController(v: vanflow.ControllerRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(3, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(2, uint32)), v.Parent)
    && encstr(m, box(cast(20, uint32)), v.ImageName)
    && encstr(m, box(cast(21, uint32)), v.ImageVersion)
    && encstr(m, box(cast(22, uint32)), v.Hostname)
    && encstr(m, box(cast(30, uint32)), v.Name)
    && encstr(m, box(cast(32, uint32)), v.BuildVersion)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(2, uint32)) || k == box(cast(20, uint32)) || k == box(cast(21, uint32)) || k == box(cast(22, uint32)) || k == box(cast(30, uint32)) || k == box(cast(32, uint32)))

unit encoding.Encode~Controller(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.ControllerRecord *vanflow.ControllerRecord
  requires range: is(record, vanflow.ControllerRecord) ==> timerange(as(record, vanflow.ControllerRecord).StartTime) && timerange(as(record, vanflow.ControllerRecord).EndTime)
  requires range: is(record, *vanflow.ControllerRecord) && as(record, *vanflow.ControllerRecord) != nil ==> timerange(as(record, *vanflow.ControllerRecord).StartTime) && timerange(as(record, *vanflow.ControllerRecord).EndTime)
  let null = is(record, *vanflow.ControllerRecord) && as(record, *vanflow.ControllerRecord) == nil
  let v = ite(is(record, vanflow.ControllerRecord), as(record, vanflow.ControllerRecord), *as(record, *vanflow.ControllerRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encController(v, r)

def decController(v: vanflow.ControllerRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(2, uint32)), v.Parent)
    && decstr(m, box(cast(20, uint32)), v.ImageName)
    && decstr(m, box(cast(21, uint32)), v.ImageVersion)
    && decstr(m, box(cast(22, uint32)), v.Hostname)
    && decstr(m, box(cast(30, uint32)), v.Name)
    && decstr(m, box(cast(32, uint32)), v.BuildVersion)
def wireController(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(2, uint32))))
    && (wirestr(m, box(cast(20, uint32))))
    && (wirestr(m, box(cast(21, uint32))))
    && (wirestr(m, box(cast(22, uint32))))
    && (wirestr(m, box(cast(30, uint32))))
    && (wirestr(m, box(cast(32, uint32))))
def sameController(v: vanflow.ControllerRecord, w: vanflow.ControllerRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Parent, w.Parent)
    && samestr(v.ImageName, w.ImageName)
    && samestr(v.ImageVersion, w.ImageVersion)
    && samestr(v.Hostname, w.Hostname)
    && samestr(v.Name, w.Name)
    && samestr(v.BuildVersion, w.BuildVersion)

unit encoding.Decode~Controller(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(3, uint32))
  ensures [C03] accepted: (err == nil) == wireController(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.ControllerRecord) && as(out, *vanflow.ControllerRecord) != nil && decController(*as(out, *vanflow.ControllerRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.ControllerRecord :: encController(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.ControllerRecord) && sameController(*as(out, *vanflow.ControllerRecord), w)
  ensures [C02] again: forall w: vanflow.ControllerRecord :: encController(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encController(*as(out, *vanflow.ControllerRecord), attrs)

// vanflow.ListenerRecord: type code 4
def encListener(v: vanflow.ListenerRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(4, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(2, uint32)), v.Parent)
    && encstr(m, box(cast(15, uint32)), v.DestHost)
    && encstr(m, box(cast(16, uint32)), v.Protocol)
    && encstr(m, box(cast(18, uint32)), v.DestPort)
    && encstr(m, box(cast(19, uint32)), v.Address)
    && encu64(m, box(cast(40, uint32)), v.FlowCountL4)
    && encu64(m, box(cast(41, uint32)), v.FlowCountL7)
    && encu64(m, box(cast(42, uint32)), v.FlowRateL4)
    && encu64(m, box(cast(43, uint32)), v.FlowRateL7)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(2, uint32)) || k == box(cast(15, uint32)) || k == box(cast(16, uint32)) || k == box(cast(18, uint32)) || k == box(cast(19, uint32)) || k == box(cast(40, uint32)) || k == box(cast(41, uint32)) || k == box(cast(42, uint32)) || k == box(cast(43, uint32)))

unit encoding.Encode~Listener(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.ListenerRecord *vanflow.ListenerRecord
  requires range: is(record, vanflow.ListenerRecord) ==> timerange(as(record, vanflow.ListenerRecord).StartTime) && timerange(as(record, vanflow.ListenerRecord).EndTime)
  requires range: is(record, *vanflow.ListenerRecord) && as(record, *vanflow.ListenerRecord) != nil ==> timerange(as(record, *vanflow.ListenerRecord).StartTime) && timerange(as(record, *vanflow.ListenerRecord).EndTime)
  let null = is(record, *vanflow.ListenerRecord) && as(record, *vanflow.ListenerRecord) == nil
  let v = ite(is(record, vanflow.ListenerRecord), as(record, vanflow.ListenerRecord), *as(record, *vanflow.ListenerRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encListener(v, r)

def decListener(v: vanflow.ListenerRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(2, uint32)), v.Parent)
    && decstr(m, box(cast(15, uint32)), v.DestHost)
    && decstr(m, box(cast(16, uint32)), v.Protocol)
    && decstr(m, box(cast(18, uint32)), v.DestPort)
    && decstr(m, box(cast(19, uint32)), v.Address)
    && decu64(m, box(cast(40, uint32)), v.FlowCountL4)
    && decu64(m, box(cast(41, uint32)), v.FlowCountL7)
    && decu64(m, box(cast(42, uint32)), v.FlowRateL4)
    && decu64(m, box(cast(43, uint32)), v.FlowRateL7)
def wireListener(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(2, uint32))))
    && (wirestr(m, box(cast(15, uint32))))
    && (wirestr(m, box(cast(16, uint32))))
    && (wirestr(m, box(cast(18, uint32))))
    && (wirestr(m, box(cast(19, uint32))))
    && (wireu64(m, box(cast(40, uint32))))
    && (wireu64(m, box(cast(41, uint32))))
    && (wireu64(m, box(cast(42, uint32))))
    && (wireu64(m, box(cast(43, uint32))))
def sameListener(v: vanflow.ListenerRecord, w: vanflow.ListenerRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Parent, w.Parent)
    && samestr(v.DestHost, w.DestHost)
    && samestr(v.Protocol, w.Protocol)
    && samestr(v.DestPort, w.DestPort)
    && samestr(v.Address, w.Address)
    && sameu64(v.FlowCountL4, w.FlowCountL4)
    && sameu64(v.FlowCountL7, w.FlowCountL7)
    && sameu64(v.FlowRateL4, w.FlowRateL4)
    && sameu64(v.FlowRateL7, w.FlowRateL7)

unit encoding.Decode~Listener(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(4, uint32))
  ensures [C03] accepted: (err == nil) == wireListener(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.ListenerRecord) && as(out, *vanflow.ListenerRecord) != nil && decListener(*as(out, *vanflow.ListenerRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.ListenerRecord :: encListener(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.ListenerRecord) && sameListener(*as(out, *vanflow.ListenerRecord), w)
  ensures [C02] again: forall w: vanflow.ListenerRecord :: encListener(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encListener(*as(out, *vanflow.ListenerRecord), attrs)

// vanflow.ConnectorRecord: type code 5
def encConnector(v: vanflow.ConnectorRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(5, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(2, uint32)), v.Parent)
    && encstr(m, box(cast(15, uint32)), v.DestHost)
    && encstr(m, box(cast(16, uint32)), v.Protocol)
    && encstr(m, box(cast(18, uint32)), v.DestPort)
    && encstr(m, box(cast(19, uint32)), v.Address)
    && encu64(m, box(cast(40, uint32)), v.FlowCountL4)
    && encu64(m, box(cast(41, uint32)), v.FlowCountL7)
    && encu64(m, box(cast(42, uint32)), v.FlowRateL4)
    && encu64(m, box(cast(43, uint32)), v.FlowRateL7)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(2, uint32)) || k == box(cast(15, uint32)) || k == box(cast(16, uint32)) || k == box(cast(18, uint32)) || k == box(cast(19, uint32)) || k == box(cast(40, uint32)) || k == box(cast(41, uint32)) || k == box(cast(42, uint32)) || k == box(cast(43, uint32)))

unit encoding.Encode~Connector(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.ConnectorRecord *vanflow.ConnectorRecord
  requires range: is(record, vanflow.ConnectorRecord) ==> timerange(as(record, vanflow.ConnectorRecord).StartTime) && timerange(as(record, vanflow.ConnectorRecord).EndTime)
  requires range: is(record, *vanflow.ConnectorRecord) && as(record, *vanflow.ConnectorRecord) != nil ==> timerange(as(record, *vanflow.ConnectorRecord).StartTime) && timerange(as(record, *vanflow.ConnectorRecord).EndTime)
  let null = is(record, *vanflow.ConnectorRecord) && as(record, *vanflow.ConnectorRecord) == nil
  let v = ite(is(record, vanflow.ConnectorRecord), as(record, vanflow.ConnectorRecord), *as(record, *vanflow.ConnectorRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encConnector(v, r)

def decConnector(v: vanflow.ConnectorRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(2, uint32)), v.Parent)
    && decstr(m, box(cast(15, uint32)), v.DestHost)
    && decstr(m, box(cast(16, uint32)), v.Protocol)
    && decstr(m, box(cast(18, uint32)), v.DestPort)
    && decstr(m, box(cast(19, uint32)), v.Address)
    && decu64(m, box(cast(40, uint32)), v.FlowCountL4)
    && decu64(m, box(cast(41, uint32)), v.FlowCountL7)
    && decu64(m, box(cast(42, uint32)), v.FlowRateL4)
    && decu64(m, box(cast(43, uint32)), v.FlowRateL7)
def wireConnector(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(2, uint32))))
    && (wirestr(m, box(cast(15, uint32))))
    && (wirestr(m, box(cast(16, uint32))))
    && (wirestr(m, box(cast(18, uint32))))
    && (wirestr(m, box(cast(19, uint32))))
    && (wireu64(m, box(cast(40, uint32))))
    && (wireu64(m, box(cast(41, uint32))))
    && (wireu64(m, box(cast(42, uint32))))
    && (wireu64(m, box(cast(43, uint32))))
def sameConnector(v: vanflow.ConnectorRecord, w: vanflow.ConnectorRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Parent, w.Parent)
    && samestr(v.DestHost, w.DestHost)
    && samestr(v.Protocol, w.Protocol)
    && samestr(v.DestPort, w.DestPort)
    && samestr(v.Address, w.Address)
    && sameu64(v.FlowCountL4, w.FlowCountL4)
    && sameu64(v.FlowCountL7, w.FlowCountL7)
    && sameu64(v.FlowRateL4, w.FlowRateL4)
    && sameu64(v.FlowRateL7, w.FlowRateL7)

unit encoding.Decode~Connector(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(5, uint32))
  ensures [C03] accepted: (err == nil) == wireConnector(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.ConnectorRecord) && as(out, *vanflow.ConnectorRecord) != nil && decConnector(*as(out, *vanflow.ConnectorRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.ConnectorRecord :: encConnector(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.ConnectorRecord) && sameConnector(*as(out, *vanflow.ConnectorRecord), w)
  ensures [C02] again: forall w: vanflow.ConnectorRecord :: encConnector(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encConnector(*as(out, *vanflow.ConnectorRecord), attrs)

// vanflow.FlowRecord: type code 6
def encFlow(v: vanflow.FlowRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(6, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(2, uint32)), v.Parent)
    && encstr(m, box(cast(5, uint32)), v.Counterflow)
    && encstr(m, box(cast(14, uint32)), v.SourceHost)
    && encstr(m, box(cast(17, uint32)), v.SourcePort)
    && encu64(m, box(cast(23, uint32)), v.Octets)
    && encu64(m, box(cast(24, uint32)), v.Latency)
    && encstr(m, box(cast(29, uint32)), v.Reason)
    && encstr(m, box(cast(31, uint32)), v.Trace)
    && encu64(m, box(cast(35, uint32)), v.OctetRate)
    && encu64(m, box(cast(36, uint32)), v.OctetsOut)
    && encu64(m, box(cast(37, uint32)), v.OctetsUnacked)
    && encu64(m, box(cast(38, uint32)), v.WindowClosures)
    && encu64(m, box(cast(39, uint32)), v.WindowSize)
    && encstr(m, box(cast(27, uint32)), v.Method)
    && encstr(m, box(cast(28, uint32)), v.Result)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(2, uint32)) || k == box(cast(5, uint32)) || k == box(cast(14, uint32)) || k == box(cast(17, uint32)) || k == box(cast(23, uint32)) || k == box(cast(24, uint32)) || k == box(cast(29, uint32)) || k == box(cast(31, uint32)) || k == box(cast(35, uint32)) || k == box(cast(36, uint32)) || k == box(cast(37, uint32)) || k == box(cast(38, uint32)) || k == box(cast(39, uint32)) || k == box(cast(27, uint32)) || k == box(cast(28, uint32)))

unit encoding.Encode~Flow(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.FlowRecord *vanflow.FlowRecord
  requires range: is(record, vanflow.FlowRecord) ==> timerange(as(record, vanflow.FlowRecord).StartTime) && timerange(as(record, vanflow.FlowRecord).EndTime)
  requires range: is(record, *vanflow.FlowRecord) && as(record, *vanflow.FlowRecord) != nil ==> timerange(as(record, *vanflow.FlowRecord).StartTime) && timerange(as(record, *vanflow.FlowRecord).EndTime)
  let null = is(record, *vanflow.FlowRecord) && as(record, *vanflow.FlowRecord) == nil
  let v = ite(is(record, vanflow.FlowRecord), as(record, vanflow.FlowRecord), *as(record, *vanflow.FlowRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encFlow(v, r)

def decFlow(v: vanflow.FlowRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(2, uint32)), v.Parent)
    && decstr(m, box(cast(5, uint32)), v.Counterflow)
    && decstr(m, box(cast(14, uint32)), v.SourceHost)
    && decstr(m, box(cast(17, uint32)), v.SourcePort)
    && decu64(m, box(cast(23, uint32)), v.Octets)
    && decu64(m, box(cast(24, uint32)), v.Latency)
    && decstr(m, box(cast(29, uint32)), v.Reason)
    && decstr(m, box(cast(31, uint32)), v.Trace)
    && decu64(m, box(cast(35, uint32)), v.OctetRate)
    && decu64(m, box(cast(36, uint32)), v.OctetsOut)
    && decu64(m, box(cast(37, uint32)), v.OctetsUnacked)
    && decu64(m, box(cast(38, uint32)), v.WindowClosures)
    && decu64(m, box(cast(39, uint32)), v.WindowSize)
    && decstr(m, box(cast(27, uint32)), v.Method)
    && decstr(m, box(cast(28, uint32)), v.Result)
def wireFlow(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(2, uint32))))
    && (wirestr(m, box(cast(5, uint32))))
    && (wirestr(m, box(cast(14, uint32))))
    && (wirestr(m, box(cast(17, uint32))))
    && (wireu64(m, box(cast(23, uint32))))
    && (wireu64(m, box(cast(24, uint32))))
    && (wirestr(m, box(cast(29, uint32))))
    && (wirestr(m, box(cast(31, uint32))))
    && (wireu64(m, box(cast(35, uint32))))
    && (wireu64(m, box(cast(36, uint32))))
    && (wireu64(m, box(cast(37, uint32))))
    && (wireu64(m, box(cast(38, uint32))))
    && (wireu64(m, box(cast(39, uint32))))
    && (wirestr(m, box(cast(27, uint32))))
    && (wirestr(m, box(cast(28, uint32))))
def sameFlow(v: vanflow.FlowRecord, w: vanflow.FlowRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Parent, w.Parent)
    && samestr(v.Counterflow, w.Counterflow)
    && samestr(v.SourceHost, w.SourceHost)
    && samestr(v.SourcePort, w.SourcePort)
    && sameu64(v.Octets, w.Octets)
    && sameu64(v.Latency, w.Latency)
    && samestr(v.Reason, w.Reason)
    && samestr(v.Trace, w.Trace)
    && sameu64(v.OctetRate, w.OctetRate)
    && sameu64(v.OctetsOut, w.OctetsOut)
    && sameu64(v.OctetsUnacked, w.OctetsUnacked)
    && sameu64(v.WindowClosures, w.WindowClosures)
    && sameu64(v.WindowSize, w.WindowSize)
    && samestr(v.Method, w.Method)
    && samestr(v.Result, w.Result)

unit encoding.Decode~Flow(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(6, uint32))
  ensures [C03] accepted: (err == nil) == wireFlow(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.FlowRecord) && as(out, *vanflow.FlowRecord) != nil && decFlow(*as(out, *vanflow.FlowRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.FlowRecord :: encFlow(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.FlowRecord) && sameFlow(*as(out, *vanflow.FlowRecord), w)
  ensures [C02] again: forall w: vanflow.FlowRecord :: encFlow(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encFlow(*as(out, *vanflow.FlowRecord), attrs)

// vanflow.ProcessRecord: type code 7
def encProcess(v: vanflow.ProcessRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(7, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(2, uint32)), v.Parent)
    && encstr(m, box(cast(13, uint32)), v.Mode)
    && encstr(m, box(cast(14, uint32)), v.SourceHost)
    && encstr(m, box(cast(20, uint32)), v.ImageName)
    && encstr(m, box(cast(21, uint32)), v.ImageVersion)
    && encstr(m, box(cast(22, uint32)), v.Hostname)
    && encstr(m, box(cast(30, uint32)), v.Name)
    && encstr(m, box(cast(46, uint32)), v.Group)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(2, uint32)) || k == box(cast(13, uint32)) || k == box(cast(14, uint32)) || k == box(cast(20, uint32)) || k == box(cast(21, uint32)) || k == box(cast(22, uint32)) || k == box(cast(30, uint32)) || k == box(cast(46, uint32)))

unit encoding.Encode~Process(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.ProcessRecord *vanflow.ProcessRecord
  requires range: is(record, vanflow.ProcessRecord) ==> timerange(as(record, vanflow.ProcessRecord).StartTime) && timerange(as(record, vanflow.ProcessRecord).EndTime)
  requires range: is(record, *vanflow.ProcessRecord) && as(record, *vanflow.ProcessRecord) != nil ==> timerange(as(record, *vanflow.ProcessRecord).StartTime) && timerange(as(record, *vanflow.ProcessRecord).EndTime)
  let null = is(record, *vanflow.ProcessRecord) && as(record, *vanflow.ProcessRecord) == nil
  let v = ite(is(record, vanflow.ProcessRecord), as(record, vanflow.ProcessRecord), *as(record, *vanflow.ProcessRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encProcess(v, r)

def decProcess(v: vanflow.ProcessRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(2, uint32)), v.Parent)
    && decstr(m, box(cast(13, uint32)), v.Mode)
    && decstr(m, box(cast(14, uint32)), v.SourceHost)
    && decstr(m, box(cast(20, uint32)), v.ImageName)
    && decstr(m, box(cast(21, uint32)), v.ImageVersion)
    && decstr(m, box(cast(22, uint32)), v.Hostname)
    && decstr(m, box(cast(30, uint32)), v.Name)
    && decstr(m, box(cast(46, uint32)), v.Group)
def wireProcess(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(2, uint32))))
    && (wirestr(m, box(cast(13, uint32))))
    && (wirestr(m, box(cast(14, uint32))))
    && (wirestr(m, box(cast(20, uint32))))
    && (wirestr(m, box(cast(21, uint32))))
    && (wirestr(m, box(cast(22, uint32))))
    && (wirestr(m, box(cast(30, uint32))))
    && (wirestr(m, box(cast(46, uint32))))
def sameProcess(v: vanflow.ProcessRecord, w: vanflow.ProcessRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Parent, w.Parent)
    && samestr(v.Mode, w.Mode)
    && samestr(v.SourceHost, w.SourceHost)
    && samestr(v.ImageName, w.ImageName)
    && samestr(v.ImageVersion, w.ImageVersion)
    && samestr(v.Hostname, w.Hostname)
    && samestr(v.Name, w.Name)
    && samestr(v.Group, w.Group)

unit encoding.Decode~Process(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(7, uint32))
  ensures [C03] accepted: (err == nil) == wireProcess(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.ProcessRecord) && as(out, *vanflow.ProcessRecord) != nil && decProcess(*as(out, *vanflow.ProcessRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.ProcessRecord :: encProcess(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.ProcessRecord) && sameProcess(*as(out, *vanflow.ProcessRecord), w)
  ensures [C02] again: forall w: vanflow.ProcessRecord :: encProcess(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encProcess(*as(out, *vanflow.ProcessRecord), attrs)

// vanflow.ImageRecord: type code 8
def encImage(v: vanflow.ImageRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(8, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)))

unit encoding.Encode~Image(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.ImageRecord *vanflow.ImageRecord
  requires range: is(record, vanflow.ImageRecord) ==> timerange(as(record, vanflow.ImageRecord).StartTime) && timerange(as(record, vanflow.ImageRecord).EndTime)
  requires range: is(record, *vanflow.ImageRecord) && as(record, *vanflow.ImageRecord) != nil ==> timerange(as(record, *vanflow.ImageRecord).StartTime) && timerange(as(record, *vanflow.ImageRecord).EndTime)
  let null = is(record, *vanflow.ImageRecord) && as(record, *vanflow.ImageRecord) == nil
  let v = ite(is(record, vanflow.ImageRecord), as(record, vanflow.ImageRecord), *as(record, *vanflow.ImageRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encImage(v, r)

def decImage(v: vanflow.ImageRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
def wireImage(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
def sameImage(v: vanflow.ImageRecord, w: vanflow.ImageRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)

unit encoding.Decode~Image(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(8, uint32))
  ensures [C03] accepted: (err == nil) == wireImage(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.ImageRecord) && as(out, *vanflow.ImageRecord) != nil && decImage(*as(out, *vanflow.ImageRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.ImageRecord :: encImage(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.ImageRecord) && sameImage(*as(out, *vanflow.ImageRecord), w)
  ensures [C02] again: forall w: vanflow.ImageRecord :: encImage(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encImage(*as(out, *vanflow.ImageRecord), attrs)

// vanflow.IngressRecord: type code 9
def encIngress(v: vanflow.IngressRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(9, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)))

unit encoding.Encode~Ingress(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.IngressRecord *vanflow.IngressRecord
  requires range: is(record, vanflow.IngressRecord) ==> timerange(as(record, vanflow.IngressRecord).StartTime) && timerange(as(record, vanflow.IngressRecord).EndTime)
  requires range: is(record, *vanflow.IngressRecord) && as(record, *vanflow.IngressRecord) != nil ==> timerange(as(record, *vanflow.IngressRecord).StartTime) && timerange(as(record, *vanflow.IngressRecord).EndTime)
  let null = is(record, *vanflow.IngressRecord) && as(record, *vanflow.IngressRecord) == nil
  let v = ite(is(record, vanflow.IngressRecord), as(record, vanflow.IngressRecord), *as(record, *vanflow.IngressRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encIngress(v, r)

def decIngress(v: vanflow.IngressRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
def wireIngress(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
def sameIngress(v: vanflow.IngressRecord, w: vanflow.IngressRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)

unit encoding.Decode~Ingress(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(9, uint32))
  ensures [C03] accepted: (err == nil) == wireIngress(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.IngressRecord) && as(out, *vanflow.IngressRecord) != nil && decIngress(*as(out, *vanflow.IngressRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.IngressRecord :: encIngress(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.IngressRecord) && sameIngress(*as(out, *vanflow.IngressRecord), w)
  ensures [C02] again: forall w: vanflow.IngressRecord :: encIngress(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encIngress(*as(out, *vanflow.IngressRecord), attrs)

// vanflow.EgressRecord: type code 10
def encEgress(v: vanflow.EgressRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(10, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)))

unit encoding.Encode~Egress(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.EgressRecord *vanflow.EgressRecord
  requires range: is(record, vanflow.EgressRecord) ==> timerange(as(record, vanflow.EgressRecord).StartTime) && timerange(as(record, vanflow.EgressRecord).EndTime)
  requires range: is(record, *vanflow.EgressRecord) && as(record, *vanflow.EgressRecord) != nil ==> timerange(as(record, *vanflow.EgressRecord).StartTime) && timerange(as(record, *vanflow.EgressRecord).EndTime)
  let null = is(record, *vanflow.EgressRecord) && as(record, *vanflow.EgressRecord) == nil
  let v = ite(is(record, vanflow.EgressRecord), as(record, vanflow.EgressRecord), *as(record, *vanflow.EgressRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encEgress(v, r)

def decEgress(v: vanflow.EgressRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
def wireEgress(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
def sameEgress(v: vanflow.EgressRecord, w: vanflow.EgressRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)

unit encoding.Decode~Egress(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(10, uint32))
  ensures [C03] accepted: (err == nil) == wireEgress(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.EgressRecord) && as(out, *vanflow.EgressRecord) != nil && decEgress(*as(out, *vanflow.EgressRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.EgressRecord :: encEgress(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.EgressRecord) && sameEgress(*as(out, *vanflow.EgressRecord), w)
  ensures [C02] again: forall w: vanflow.EgressRecord :: encEgress(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encEgress(*as(out, *vanflow.EgressRecord), attrs)

// vanflow.CollectorRecord: type code 11
def encCollector(v: vanflow.CollectorRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(11, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)))

unit encoding.Encode~Collector(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.CollectorRecord *vanflow.CollectorRecord
  requires range: is(record, vanflow.CollectorRecord) ==> timerange(as(record, vanflow.CollectorRecord).StartTime) && timerange(as(record, vanflow.CollectorRecord).EndTime)
  requires range: is(record, *vanflow.CollectorRecord) && as(record, *vanflow.CollectorRecord) != nil ==> timerange(as(record, *vanflow.CollectorRecord).StartTime) && timerange(as(record, *vanflow.CollectorRecord).EndTime)
  let null = is(record, *vanflow.CollectorRecord) && as(record, *vanflow.CollectorRecord) == nil
  let v = ite(is(record, vanflow.CollectorRecord), as(record, vanflow.CollectorRecord), *as(record, *vanflow.CollectorRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encCollector(v, r)

def decCollector(v: vanflow.CollectorRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
def wireCollector(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
def sameCollector(v: vanflow.CollectorRecord, w: vanflow.CollectorRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)

unit encoding.Decode~Collector(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(11, uint32))
  ensures [C03] accepted: (err == nil) == wireCollector(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.CollectorRecord) && as(out, *vanflow.CollectorRecord) != nil && decCollector(*as(out, *vanflow.CollectorRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.CollectorRecord :: encCollector(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.CollectorRecord) && sameCollector(*as(out, *vanflow.CollectorRecord), w)
  ensures [C02] again: forall w: vanflow.CollectorRecord :: encCollector(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encCollector(*as(out, *vanflow.CollectorRecord), attrs)

// vanflow.ProcessGroupRecord: type code 12
def encProcessGroup(v: vanflow.ProcessGroupRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(12, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)))

unit encoding.Encode~ProcessGroup(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.ProcessGroupRecord *vanflow.ProcessGroupRecord
  requires range: is(record, vanflow.ProcessGroupRecord) ==> timerange(as(record, vanflow.ProcessGroupRecord).StartTime) && timerange(as(record, vanflow.ProcessGroupRecord).EndTime)
  requires range: is(record, *vanflow.ProcessGroupRecord) && as(record, *vanflow.ProcessGroupRecord) != nil ==> timerange(as(record, *vanflow.ProcessGroupRecord).StartTime) && timerange(as(record, *vanflow.ProcessGroupRecord).EndTime)
  let null = is(record, *vanflow.ProcessGroupRecord) && as(record, *vanflow.ProcessGroupRecord) == nil
  let v = ite(is(record, vanflow.ProcessGroupRecord), as(record, vanflow.ProcessGroupRecord), *as(record, *vanflow.ProcessGroupRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encProcessGroup(v, r)

def decProcessGroup(v: vanflow.ProcessGroupRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
def wireProcessGroup(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
def sameProcessGroup(v: vanflow.ProcessGroupRecord, w: vanflow.ProcessGroupRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)

unit encoding.Decode~ProcessGroup(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(12, uint32))
  ensures [C03] accepted: (err == nil) == wireProcessGroup(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.ProcessGroupRecord) && as(out, *vanflow.ProcessGroupRecord) != nil && decProcessGroup(*as(out, *vanflow.ProcessGroupRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.ProcessGroupRecord :: encProcessGroup(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.ProcessGroupRecord) && sameProcessGroup(*as(out, *vanflow.ProcessGroupRecord), w)
  ensures [C02] again: forall w: vanflow.ProcessGroupRecord :: encProcessGroup(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encProcessGroup(*as(out, *vanflow.ProcessGroupRecord), attrs)

// vanflow.HostRecord: type code 13
def encHost(v: vanflow.HostRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(13, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encstr(m, box(cast(10, uint32)), v.Provider)
    && encstr(m, box(cast(30, uint32)), v.Name)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(10, uint32)) || k == box(cast(30, uint32)))

unit encoding.Encode~Host(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.HostRecord *vanflow.HostRecord
  requires range: is(record, vanflow.HostRecord) ==> timerange(as(record, vanflow.HostRecord).StartTime) && timerange(as(record, vanflow.HostRecord).EndTime)
  requires range: is(record, *vanflow.HostRecord) && as(record, *vanflow.HostRecord) != nil ==> timerange(as(record, *vanflow.HostRecord).StartTime) && timerange(as(record, *vanflow.HostRecord).EndTime)
  let null = is(record, *vanflow.HostRecord) && as(record, *vanflow.HostRecord) == nil
  let v = ite(is(record, vanflow.HostRecord), as(record, vanflow.HostRecord), *as(record, *vanflow.HostRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encHost(v, r)

def decHost(v: vanflow.HostRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decstr(m, box(cast(10, uint32)), v.Provider)
    && decstr(m, box(cast(30, uint32)), v.Name)
def wireHost(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wirestr(m, box(cast(10, uint32))))
    && (wirestr(m, box(cast(30, uint32))))
def sameHost(v: vanflow.HostRecord, w: vanflow.HostRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && samestr(v.Provider, w.Provider)
    && samestr(v.Name, w.Name)

unit encoding.Decode~Host(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(13, uint32))
  ensures [C03] accepted: (err == nil) == wireHost(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.HostRecord) && as(out, *vanflow.HostRecord) != nil && decHost(*as(out, *vanflow.HostRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.HostRecord :: encHost(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.HostRecord) && sameHost(*as(out, *vanflow.HostRecord), w)
  ensures [C02] again: forall w: vanflow.HostRecord :: encHost(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encHost(*as(out, *vanflow.HostRecord), attrs)

// vanflow.LogRecord: type code 14
def encLog(v: vanflow.LogRecord, m: map[any]any) = in(box(cast(0, uint32)), m) && m[box(cast(0, uint32))] == box(cast(14, uint32))
    && v.ID != "" && in(box(cast(1, uint32)), m) && m[box(cast(1, uint32))] == box(v.ID)
    && enctime(m, box(cast(3, uint32)), v.StartTime)
    && enctime(m, box(cast(4, uint32)), v.EndTime)
    && encu64(m, box(cast(48, uint32)), v.LogSeverity)
    && encstr(m, box(cast(49, uint32)), v.LogText)
    && encstr(m, box(cast(50, uint32)), v.SourceFile)
    && encu64(m, box(cast(51, uint32)), v.SourceLine)
    && (forall k: any :: in(k, m) ==> k == box(cast(0, uint32)) || k == box(cast(1, uint32)) || k == box(cast(3, uint32)) || k == box(cast(4, uint32)) || k == box(cast(48, uint32)) || k == box(cast(49, uint32)) || k == box(cast(50, uint32)) || k == box(cast(51, uint32)))

unit encoding.Encode~Log(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types vanflow.LogRecord *vanflow.LogRecord
  requires range: is(record, vanflow.LogRecord) ==> timerange(as(record, vanflow.LogRecord).StartTime) && timerange(as(record, vanflow.LogRecord).EndTime)
  requires range: is(record, *vanflow.LogRecord) && as(record, *vanflow.LogRecord) != nil ==> timerange(as(record, *vanflow.LogRecord).StartTime) && timerange(as(record, *vanflow.LogRecord).EndTime)
  let null = is(record, *vanflow.LogRecord) && as(record, *vanflow.LogRecord) == nil
  let v = ite(is(record, vanflow.LogRecord), as(record, vanflow.LogRecord), *as(record, *vanflow.LogRecord))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && encLog(v, r)

def decLog(v: vanflow.LogRecord, m: map[any]any) = v.ID == as(m[box(cast(1, uint32))], string)
    && dectime(m, box(cast(3, uint32)), v.StartTime)
    && dectime(m, box(cast(4, uint32)), v.EndTime)
    && decu64(m, box(cast(48, uint32)), v.LogSeverity)
    && decstr(m, box(cast(49, uint32)), v.LogText)
    && decstr(m, box(cast(50, uint32)), v.SourceFile)
    && decu64(m, box(cast(51, uint32)), v.SourceLine)
def wireLog(m: map[any]any) = in(box(cast(1, uint32)), m) && is(m[box(cast(1, uint32))], string)
    && (wiretime(m, box(cast(3, uint32))))
    && (wiretime(m, box(cast(4, uint32))))
    && (wireu64(m, box(cast(48, uint32))))
    && (wirestr(m, box(cast(49, uint32))))
    && (wirestr(m, box(cast(50, uint32))))
    && (wireu64(m, box(cast(51, uint32))))
def sameLog(v: vanflow.LogRecord, w: vanflow.LogRecord) = v.ID == w.ID
    && sametime(v.StartTime, w.StartTime)
    && sametime(v.EndTime, w.EndTime)
    && sameu64(v.LogSeverity, w.LogSeverity)
    && samestr(v.LogText, w.LogText)
    && samestr(v.SourceFile, w.SourceFile)
    && sameu64(v.SourceLine, w.SourceLine)

unit encoding.Decode~Log(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at box(cast(0, uint32)) is box(cast(14, uint32))
  ensures [C03] accepted: (err == nil) == wireLog(attrs)
  ensures [C03] fields: err == nil ==> is(out, *vanflow.LogRecord) && as(out, *vanflow.LogRecord) != nil && decLog(*as(out, *vanflow.LogRecord), attrs)
  ensures [C02] decodes: forall w: vanflow.LogRecord :: encLog(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> err == nil && is(out, *vanflow.LogRecord) && sameLog(*as(out, *vanflow.LogRecord), w)
  ensures [C02] again: forall w: vanflow.LogRecord :: encLog(w, attrs) && goodtime(w.StartTime) && timerange(w.StartTime) && goodtime(w.EndTime) && timerange(w.EndTime) ==> encLog(*as(out, *vanflow.LogRecord), attrs)

// everything else
unit encoding.Encode~other(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  requires unregistered: !is(record, vanflow.SiteRecord) && !is(record, *vanflow.SiteRecord) && !is(record, vanflow.RouterRecord) && !is(record, *vanflow.RouterRecord) && !is(record, vanflow.LinkRecord) && !is(record, *vanflow.LinkRecord) && !is(record, vanflow.ControllerRecord) && !is(record, *vanflow.ControllerRecord) && !is(record, vanflow.ListenerRecord) && !is(record, *vanflow.ListenerRecord) && !is(record, vanflow.ConnectorRecord) && !is(record, *vanflow.ConnectorRecord) && !is(record, vanflow.FlowRecord) && !is(record, *vanflow.FlowRecord) && !is(record, vanflow.ProcessRecord) && !is(record, *vanflow.ProcessRecord) && !is(record, vanflow.ImageRecord) && !is(record, *vanflow.ImageRecord) && !is(record, vanflow.IngressRecord) && !is(record, *vanflow.IngressRecord) && !is(record, vanflow.EgressRecord) && !is(record, *vanflow.EgressRecord) && !is(record, vanflow.CollectorRecord) && !is(record, *vanflow.CollectorRecord) && !is(record, vanflow.ProcessGroupRecord) && !is(record, *vanflow.ProcessGroupRecord) && !is(record, vanflow.HostRecord) && !is(record, *vanflow.HostRecord) && !is(record, vanflow.LogRecord) && !is(record, *vanflow.LogRecord)
  ensures rejected: err != nil && r == nil

unit encoding.Decode~other(attrs)(out, err)
  props C03
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  requires unregistered: attrs == nil || !in(box(cast(0, uint32)), attrs) || !is(attrs[box(cast(0, uint32))], uint32) || as(attrs[box(cast(0, uint32))], uint32) > 14
  ensures rejected: err != nil && out == nil
