unit (vanflow.Time).EncodeRecordAttribute(t)(out, err)
  props C05
  // package time leaves UnixMicro undefined outside the int64 microsecond range (years -290307..294246)
  requires nanos(t.Time) >= -9223372036854775808 * 1000 && nanos(t.Time) <= 9223372036854775807 * 1000
  ensures zero: nanos(t.Time) == -62135596800 * 1000000000 ==> err != nil && out == nil
  ensures neg: nanos(t.Time) < 0 ==> err != nil
  ensures pos: nanos(t.Time) >= 0 && nanos(t.Time) / 1000 <= 9223372036854775807 ==> err == nil && is(out, uint64) && as(out, uint64) == nanos(t.Time) / 1000

unit (*vanflow.Time).DecodeRecordAttribute(t, attr)(err)
  props C05
  requires t != nil
  ensures ok: is(attr, uint64) && as(attr, uint64) <= 9223372036854775807 ==> err == nil && nanos(t.Time) == as(attr, uint64) * 1000
  ensures bad: !(is(attr, uint64) && as(attr, uint64) <= 9223372036854775807) ==> err != nil && nanos(t.Time) == nanos(old(t.Time))
