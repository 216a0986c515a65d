#!/usr/bin/env python3
"""Writes contracts/encoding.vc: the VanFlow record types, their codes, attribute codes and wire
types (the protocol's table, not read from the code) as contracts of encoding.Encode and Decode."""
S, U, T = 's', 'u', 't'
base = [('ID', 1, 'id'), ('StartTime', 3, T), ('EndTime', 4, T)]
def f(s, ty=S): return [(n.split(':')[0], int(n.split(':')[1]), U if n.endswith(':u') else ty) for n in s.split()]
conn = 'Parent:2 DestHost:15 Protocol:16 DestPort:18 Address:19 FlowCountL4:40:u FlowCountL7:41:u FlowRateL4:42:u FlowRateL7:43:u'
types = [
 ('Site', 'Location:9 Provider:10 Platform:11 Namespace:12 Name:30 Version:52 Policy:53'),
 ('Router', 'Parent:2 Namespace:12 Mode:13 ImageName:20 ImageVersion:21 Hostname:22 Name:30 BuildVersion:32'),
 ('Link', 'Parent:2 Mode:13 Name:30 LinkCost:33:u Direction:34'),
 ('Controller', 'Parent:2 ImageName:20 ImageVersion:21 Hostname:22 Name:30 BuildVersion:32'),
 ('Listener', conn),
 ('Connector', conn),
 ('Flow', 'Parent:2 Counterflow:5 SourceHost:14 SourcePort:17 Octets:23:u Latency:24:u Reason:29 Trace:31 OctetRate:35:u OctetsOut:36:u OctetsUnacked:37:u WindowClosures:38:u WindowSize:39:u Method:27 Result:28'),
 ('Process', 'Parent:2 Mode:13 SourceHost:14 ImageName:20 ImageVersion:21 Hostname:22 Name:30 Group:46'),
 ('Image', ''), ('Ingress', ''), ('Egress', ''), ('Collector', ''), ('ProcessGroup', ''),
 ('Host', 'Provider:10 Name:30'),
 ('Log', 'LogSeverity:48:u LogText:49 SourceFile:50 SourceLine:51:u'),
]
def K(c): return 'box(cast(%d, uint32))' % c
out = ['''// Generated by tools/gen_encoding.py from the VanFlow record table.
// ---- records to and from attribute sets (C01, C02, C03) ----
lock global encoding.mu
  guards encodings, decodings

// timestamps: microseconds since the epoch
def nanotime(t: time.Time) = nanos(t)
def settime(p: *vanflow.Time) = p != nil && nanos(p.Time) != -62135596800 * 1000000000
def goodtime(p: *vanflow.Time) = settime(p) ==> nanos(p.Time) >= 0
// package time leaves UnixMicro undefined outside the int64 microsecond range (years -290307..294246)
def timerange(p: *vanflow.Time) = p != nil ==> nanos(p.Time) >= -9223372036854775808 * 1000 && nanos(p.Time) <= 9223372036854775807 * 1000
def sametime(p: *vanflow.Time, q: *vanflow.Time) = (p != nil) == settime(q) && (p != nil ==> nanos(p.Time) == nanos(q.Time) / 1000 * 1000)
def samestr(p: *string, q: *string) = (p != nil) == setstr(q) && (p != nil ==> *p == *q)
def sameu64(p: *uint64, q: *uint64) = (p != nil) == setu64(q) && (p != nil ==> *p == *q)
def setstr(p: *string) = p != nil && *p != ""
def setu64(p: *uint64) = p != nil && *p != 0

// attribute k of m is what the field p gives
def encstr(m: map[any]any, k: any, p: *string) = in(k, m) == setstr(p) && (setstr(p) ==> m[k] == box(*p))
def encu64(m: map[any]any, k: any, p: *uint64) = in(k, m) == setu64(p) && (setu64(p) ==> m[k] == box(*p))
def enctime(m: map[any]any, k: any, p: *vanflow.Time) = in(k, m) == settime(p) && (settime(p) ==> is(m[k], uint64) && as(m[k], uint64) == nanos(p.Time) / 1000)

// attribute k of m has the field's wire type
def wirestr(m: map[any]any, k: any) = in(k, m) ==> is(m[k], string)
def wireu64(m: map[any]any, k: any) = in(k, m) ==> is(m[k], uint64)
def wiretime(m: map[any]any, k: any) = in(k, m) ==> is(m[k], uint64) && as(m[k], uint64) <= 9223372036854775807

// field p holds attribute k of m
def decstr(m: map[any]any, k: any, p: *string) = (p != nil) == in(k, m) && (p != nil ==> *p == as(m[k], string))
def decu64(m: map[any]any, k: any, p: *uint64) = (p != nil) == in(k, m) && (p != nil ==> *p == as(m[k], uint64))
def dectime(m: map[any]any, k: any, p: *vanflow.Time) = (p != nil) == in(k, m) && (p != nil ==> nanos(p.Time) == as(m[k], uint64) * 1000)
''']
D = {S: 'str', U: 'u64', T: 'time'}
for code, (n, fs) in enumerate(types):
    R = 'vanflow.%sRecord' % n
    fl = base + f(fs)
    enc = ['in(%s, m) && m[%s] == %s' % (K(0), K(0), K(code)), 'v.ID != "" && in(%s, m) && m[%s] == box(v.ID)' % (K(1), K(1))]
    enc += ['enc%s(m, %s, v.%s)' % (D[t], K(c), x) for x, c, t in fl if t != 'id']
    only = ' || '.join('k == %s' % K(c) for c in [0] + [c for _, c, _ in fl])
    enc.append('(forall k: any :: in(k, m) ==> %s)' % only)
    out.append('// %s: type code %d' % (R, code))
    out.append('def enc%s(v: %s, m: map[any]any) = %s' % (n, R, '\n    && '.join(enc)))
    out.append('''
unit encoding.Encode~@N(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  config split-param record
  config split-types @R *@R
  requires range: is(record, @R) ==> timerange(as(record, @R).StartTime) && timerange(as(record, @R).EndTime)
  requires range: is(record, *@R) && as(record, *@R) != nil ==> timerange(as(record, *@R).StartTime) && timerange(as(record, *@R).EndTime)
  let null = is(record, *@R) && as(record, *@R) == nil
  let v = ite(is(record, @R), as(record, @R), *as(record, *@R))
  ensures nil: null ==> err != nil
  ensures accepted: !null ==> (err == nil) == (v.ID != "" && goodtime(v.StartTime) && goodtime(v.EndTime))
  ensures exact: err == nil ==> r != nil && enc@N(v, r)
'''.replace('@N', n).replace('@R', R))
    dec = ['v.ID == as(m[%s], string)' % K(1)] + ['dec%s(m, %s, v.%s)' % (D[t], K(c), x) for x, c, t in fl if t != 'id']
    out.append('def dec%s(v: %s, m: map[any]any) = %s' % (n, R, '\n    && '.join(dec)))
    wire = ['in(%s, m) && is(m[%s], string)' % (K(1), K(1))] + ['(wire%s(m, %s))' % (D[t], K(c)) for x, c, t in fl if t != 'id']
    out.append('def wire%s(m: map[any]any) = %s' % (n, '\n    && '.join(wire)))
    same = ['v.ID == w.ID'] + ['same%s(v.%s, w.%s)' % (D[t], x, x) for x, c, t in fl if t != 'id']
    out.append('def same%s(v: %s, w: %s) = %s' % (n, R, R, '\n    && '.join(same)))
    ts = ['goodtime(w.%s) && timerange(w.%s)' % (x, x) for x, c, t in fl if t == T]
    out.append('''
unit encoding.Decode~@N(attrs)(out, err)
  props C03 C02
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  given attrs at @0 is @C
  ensures [C03] accepted: (err == nil) == wire@N(attrs)
  ensures [C03] fields: err == nil ==> is(out, *@R) && as(out, *@R) != nil && dec@N(*as(out, *@R), attrs)
  ensures [C02] decodes: forall w: @R :: enc@N(w, attrs) && @T ==> err == nil && is(out, *@R) && same@N(*as(out, *@R), w)
  ensures [C02] again: forall w: @R :: enc@N(w, attrs) && @T ==> enc@N(*as(out, *@R), attrs)
'''.replace('@N', n).replace('@R', R).replace('@0', K(0)).replace('@C', K(code)).replace('@T', ' && '.join(ts)))
names = ['vanflow.%sRecord' % n for n, _ in types]
out.append('''// everything else
unit encoding.Encode~other(record)(r, err)
  props C01
  safety C01
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  requires unregistered: %s
  ensures rejected: err != nil && r == nil

unit encoding.Decode~other(attrs)(out, err)
  props C03
  safety C03
  config init encoding vanflow
  config inline encoding.MustRegisterRecord encoding.fieldsForType
  requires unregistered: attrs == nil || !in(%s, attrs) || !is(attrs[%s], uint32) || as(attrs[%s], uint32) > %d
  ensures rejected: err != nil && out == nil
''' % (' && '.join('!is(record, %s) && !is(record, *%s)' % (n, n) for n in names), K(0), K(0), K(0), len(types) - 1))
open('/verif/contracts/encoding.vc', 'w').write('\n'.join(out))
