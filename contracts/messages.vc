// ---- messages (C06, C07) ----
def subject(msg: *amqp.Message, s: string) = msg != nil && msg.Properties != nil && msg.Properties.Subject != nil && *msg.Properties.Subject == s
def hassubject(msg: *amqp.Message) = msg != nil && msg.Properties != nil && msg.Properties.Subject != nil
def optstr(p: *string) = ite(p == nil, "", *p)
def appstr(msg: *amqp.Message, k: string) = ite(in(k, msg.ApplicationProperties) && is(msg.ApplicationProperties[k], string), as(msg.ApplicationProperties[k], string), "")
def app32(msg: *amqp.Message, k: string) = ite(in(k, msg.ApplicationProperties) && is(msg.ApplicationProperties[k], uint32), as(msg.ApplicationProperties[k], uint32), 0)
def app64(msg: *amqp.Message, k: string) = ite(in(k, msg.ApplicationProperties) && is(msg.ApplicationProperties[k], uint64), as(msg.ApplicationProperties[k], uint64), 0)

// what a message of each kind says
def reads(msg: *amqp.Message, p: vanflow.MessageProps) = p.To == optstr(msg.Properties.To) && p.Subject == optstr(msg.Properties.Subject)
def readsbeacon(msg: *amqp.Message, m: vanflow.BeaconMessage) = reads(msg, m.MessageProps) && m.MessageProps.ReplyTo == optstr(msg.Properties.ReplyTo) && m.Version == app32(msg, "v") && m.SourceType == appstr(msg, "sourceType") && m.Address == appstr(msg, "address") && m.Direct == appstr(msg, "direct") && m.Identity == appstr(msg, "id")
def readsheartbeat(msg: *amqp.Message, m: vanflow.HeartbeatMessage) = reads(msg, m.MessageProps) && m.Version == app32(msg, "v") && m.Now == app64(msg, "now") && m.Identity == appstr(msg, "id")
def readsflush(msg: *amqp.Message, m: vanflow.FlushMessage) = reads(msg, m.MessageProps) && m.MessageProps.ReplyTo == optstr(msg.Properties.ReplyTo)
// r is what decoding the attribute set alone gives
def isattrs(v: any) = is(v, map[any]any)
def decodes(v: any, r: any) = let a = as(v, map[any]any) :: encodes(r) && (forall k: any :: (attrset(r, k) ==> in(k, a) && attrval(r, k) == a[k]) && (in(k, a) && settable(a[box(cast(0, uint32))], k, a[k]) ==> attrset(r, k)))
// v is what encoding the record alone gives
def encoding(v: any, r: any) = let a = as(v, map[any]any) :: isattrs(v) && (forall k: any :: in(k, a) == attrset(r, k) && (in(k, a) ==> a[k] == attrval(r, k)))

unit vanflow.Decode(msg)(r, err)
  use
  props C06
  safety C06
  config init vanflow
  ensures none: !hassubject(msg) ==> err != nil
  ensures other: hassubject(msg) && !subject(msg, "BEACON") && !subject(msg, "HEARTBEAT") && !subject(msg, "FLUSH") && !subject(msg, "RECORD") ==> err != nil
  ensures [C06,C07] beacon: subject(msg, "BEACON") ==> err == nil && is(r, vanflow.BeaconMessage) && readsbeacon(msg, as(r, vanflow.BeaconMessage))
  ensures [C06,C07] heartbeat: subject(msg, "HEARTBEAT") ==> err == nil && is(r, vanflow.HeartbeatMessage) && readsheartbeat(msg, as(r, vanflow.HeartbeatMessage))
  ensures [C06,C07] flush: subject(msg, "FLUSH") ==> err == nil && is(r, vanflow.FlushMessage) && readsflush(msg, as(r, vanflow.FlushMessage))
  ensures [C06,C07] record: subject(msg, "RECORD") && err == nil ==> is(r, vanflow.RecordMessage) && reads(msg, as(r, vanflow.RecordMessage).MessageProps)
  ensures [C06,C07] body: subject(msg, "RECORD") && err == nil ==> is(msg.Value, []any)
  ensures [C07] records: subject(msg, "RECORD") && err == nil ==> let vs = as(msg.Value, []any) :: let rs = as(r, vanflow.RecordMessage).Records :: len(rs) == len(vs) && (forall i: int :: 0 <= i && i < len(vs) ==> isattrs(vs[i]) && decodes(vs[i], rs[i]))
  loop records(rs: []vanflow.Record, i: int): let vs = as(msg.Value, []any) :: len(rs) == i + 1 && (forall j: int :: 0 <= j && j <= i ==> isattrs(vs[j]) && decodes(vs[j], rs[j]))

unit vanflow.DecodeBeacon(msg)(m)
  props C06 C07
  safety C06
  requires msg != nil && msg.Properties != nil
  ensures read: readsbeacon(msg, m)

unit vanflow.DecodeHeartbeat(msg)(m)
  props C06 C07
  safety C06
  requires msg != nil && msg.Properties != nil
  ensures read: readsheartbeat(msg, m)

unit vanflow.DecodeFlush(msg)(m)
  props C06 C07
  safety C06
  requires msg != nil && msg.Properties != nil
  ensures read: readsflush(msg, m)

unit vanflow.DecodeRecord(msg)(m, err)
  props C06 C07
  safety C06
  requires msg != nil && msg.Properties != nil
  ensures read: reads(msg, m.MessageProps)
  ensures body: err == nil ==> is(msg.Value, []any)
  ensures records: err == nil ==> let vs = as(msg.Value, []any) :: len(m.Records) == len(vs) && (forall i: int :: 0 <= i && i < len(vs) ==> isattrs(vs[i]) && decodes(vs[i], m.Records[i]))
  loop records(rs: []vanflow.Record, i: int): let vs = as(msg.Value, []any) :: len(rs) == i + 1 && (forall j: int :: 0 <= j && j <= i ==> isattrs(vs[j]) && decodes(vs[j], rs[j]))

// what decoding an encoded message gives
unit (vanflow.BeaconMessage).Encode(m)(msg)
  use
  props C07
  config init vanflow
  ensures subject: msg != nil && subject(msg, "BEACON")
  ensures again: forall d: vanflow.BeaconMessage :: readsbeacon(msg, d) ==> d.MessageProps.To == "mc/sfe.all" && d.Version == m.Version && d.SourceType == m.SourceType && d.Address == m.Address && d.Direct == m.Direct && d.Identity == m.Identity

unit (vanflow.HeartbeatMessage).Encode(m)(msg)
  use
  props C07
  config init vanflow
  ensures subject: msg != nil && subject(msg, "HEARTBEAT")
  ensures again: forall d: vanflow.HeartbeatMessage :: readsheartbeat(msg, d) ==> d.MessageProps.To == "mc/sfe." + m.Identity && d.Version == m.Version && d.Now == m.Now && d.Identity == m.Identity

unit (vanflow.FlushMessage).Encode(m)(msg)
  use
  props C07
  config init vanflow
  ensures subject: msg != nil && subject(msg, "FLUSH")
  ensures again: forall d: vanflow.FlushMessage :: readsflush(msg, d) ==> d.MessageProps.To == m.MessageProps.To && d.MessageProps.ReplyTo == m.MessageProps.ReplyTo

unit (vanflow.RecordMessage).Encode(m)(msg, err)
  use
  props C07
  config init vanflow
  ensures refused: (err != nil) == (exists i: int :: 0 <= i && i < len(m.Records) && !encodes(box(m.Records[i])))
  ensures whole: err != nil ==> msg == nil
  ensures subject: err == nil ==> msg != nil && subject(msg, "RECORD")
  ensures to: err == nil ==> msg.Properties.To != nil && *msg.Properties.To == m.MessageProps.To
  ensures records: err == nil ==> is(msg.Value, []any) && (let vs = as(msg.Value, []any) :: len(vs) == len(m.Records) && (forall i: int :: 0 <= i && i < len(vs) ==> encoding(vs[i], box(m.Records[i]))))
  loop records(vs: []any, i: int): len(vs) == i + 1 && (forall j: int :: 0 <= j && j <= i ==> encodes(box(m.Records[j])) && encoding(vs[j], box(m.Records[j])))
