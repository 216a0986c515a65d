// ---- records as attribute sets ----
fnspec method vanflow.Record.GetTypeMeta pure
fnspec method vanflow.Record.Identity pure
// the attributes that encoding a record gives: which are set, and their values
fun attrset(any, any) bool
fun attrval(any, any) any
fun encodes(any) bool
// a value that attribute k of a record with type code c can have once encoded
fun settable(any, any, any) bool
// attribute k is required of the records with type code c; c is the code of a registered type; and of a type of records
fun required(any, any) bool
fun knowncode(any) bool
fun recordcode(any) bool
def code(r: any) = attrval(r, box(cast(0, uint32)))

trusted encoding.Encode(record)(r, err)
  ensures fresh: err == nil ==> r != nil && isfresh(r)
  assumes named: (err == nil) == encodes(record)
  assumes nil: record == nil ==> err != nil
  assumes attrs: err == nil ==> (forall k: any :: in(k, r) == attrset(record, k) && (in(k, r) ==> r[k] == attrval(record, k)))
  assumes settable: err == nil ==> attrset(record, box(cast(0, uint32))) && (forall k: any {attrset(record, k)} :: attrset(record, k) ==> settable(code(record), k, attrval(record, k)))
  assumes [C11] errs: err != nil ==> !iserr(err, store.errNoChange)
  assumes required: err == nil ==> knowncode(code(record)) && (forall k: any {required(code(record), k)} :: required(code(record), k) ==> attrset(record, k)) && (implements(record, vanflow.Record) ==> recordcode(code(record)))
  assumes comparable: err == nil ==> (forall k: any :: in(k, r) ==> anycmp(r[k]))

trusted encoding.Decode(attrs)(out, err)
  ensures some: err == nil ==> out != nil
  assumes [C11] errs: err != nil ==> !iserr(err, store.errNoChange)
  assumes again: err == nil ==> encodes(out) && (forall k: any :: (attrset(out, k) ==> in(k, attrs) && attrval(out, k) == attrs[k]) && (in(k, attrs) && settable(attrs[box(cast(0, uint32))], k, attrs[k]) ==> attrset(out, k)))
  assumes total: let c = attrs[box(cast(0, uint32))] :: attrs != nil && in(box(cast(0, uint32)), attrs) && knowncode(c) && (forall k: any {required(c, k)} :: required(c, k) ==> in(k, attrs)) && (forall k: any {in(k, attrs)} :: in(k, attrs) ==> settable(c, k, attrs[k])) ==> err == nil
  assumes record: err == nil && recordcode(attrs[box(cast(0, uint32))]) ==> implements(out, vanflow.Record)

trusted encoding.MustRegisterRecord(codepoint, record)()
