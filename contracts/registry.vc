// ---- the registry of record types (C04) ----
// what the struct fields of an arbitrary type give: any list of attribute fields, or a panic
trusted encoding.fieldsForType(t, index)(fields)
  config maypanic

def distinctto(fs: []encoding.field, n: int) = forall i: int, j: int :: 0 <= i && i < j && j < n ==> fs[i].Codepoint != fs[j].Codepoint
def distinctcodes(fs: []encoding.field) = distinctto(fs, len(fs))
// the registry is one-to-one
def registry() = encoding.encodings != nil && encoding.decodings != nil
    && (forall t: reflect.Type {in(t, encoding.encodings)} :: in(t, encoding.encodings) ==> (let e = encoding.encodings[t] :: e != nil && e.t == t && in(e.codepoint, encoding.decodings) && encoding.decodings[e.codepoint] == e && distinctcodes(e.fields)))
    && (forall c: uint32 {in(c, encoding.decodings)} :: in(c, encoding.decodings) ==> (let e = encoding.decodings[c] :: e != nil && e.codepoint == c && in(e.t, encoding.encodings) && encoding.encodings[e.t] == e))

unit encoding.MustRegisterRecord~registry(codepoint, record)()
  props C04
  safety C04
  requires registry: registry()
  let e = encoding.decodings[codepoint]
  let t = ite(rkind(record) == 22, relem(record), rtype(record))
  ensures onetoone: registry()
  ensures free: !old(in(codepoint, encoding.decodings)) && !old(in(t, encoding.encodings))
  ensures code: in(codepoint, encoding.decodings) && e.codepoint == codepoint && e.t == t
  ensures type: in(t, encoding.encodings) && encoding.encodings[t] == e
  ensures codes: distinctcodes(e.fields)
  ensures others: forall c: uint32 :: c != codepoint ==> in(c, encoding.decodings) == old(in(c, encoding.decodings)) && (in(c, encoding.decodings) ==> encoding.decodings[c] == old(encoding.decodings[c]) && *encoding.decodings[c] == old(*encoding.decodings[c]))
  ensures types: forall u: reflect.Type :: u != t ==> in(u, encoding.encodings) == old(in(u, encoding.encodings)) && (in(u, encoding.encodings) ==> encoding.encodings[u] == old(encoding.encodings[u]))
  panics unchanged: encoding.encodings == old(encoding.encodings) && encoding.decodings == old(encoding.decodings) && (forall c: uint32 :: in(c, encoding.decodings) == old(in(c, encoding.decodings)) && (in(c, encoding.decodings) ==> encoding.decodings[c] == old(encoding.decodings[c]) && *encoding.decodings[c] == old(*encoding.decodings[c]))) && (forall u: reflect.Type :: in(u, encoding.encodings) == old(in(u, encoding.encodings)) && (in(u, encoding.encodings) ==> encoding.encodings[u] == old(encoding.encodings[u])))
  loop distinct(codepoints: map[uint32]encoding.field, fields: []encoding.field, i: int): distinctto(fields, i + 1) && (forall j: int :: 0 <= j && j <= i ==> in(fields[j].Codepoint, codepoints))
