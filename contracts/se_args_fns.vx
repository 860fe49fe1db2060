//@ struct ArgsSerializer
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_bool ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Bool(v)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_i8 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_i16 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_i32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_i64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_u8 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_u16 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_u32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_u64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_f32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Float(widened(v))),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_f64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Float(v)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_str ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Text(v@)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_none ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_unit ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_unit_variant ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Text(variant@)),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_unit_struct ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null),
//@ end
//@ struct DocumentSerializer
//@ fn value_node ret r
    ensures r.name.value@ == name@, bare_node(r), r.ty is None, r.children is None, r.entries@.len() == 1, r.entries@[0].value == value, r.entries@[0].name is None, r.entries@[0].ty is None, bare_entry(r.entries@[0]),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_bool ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Bool(v)),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_i8 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_i16 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_i32 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_i64 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_u8 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_u16 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_u32 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_u64 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Int(v as int)),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_f32 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Float(widened(v))),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_f64 ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Float(v)),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_str ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Text(v@)),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_unit_variant ret r
    ensures r == Ok::<(), Error>(()), appended(old(self).doc, final(self).doc, Data::Text(variant@)),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
