//@ include se_spec.vx
//@ include se_value_fns.vx
//@ struct NodeValueSerializer
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_bool ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Bool(v)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i8 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i16 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u8 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u16 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_f32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Float(widened(v))),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_f64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Float(v)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_str ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Text(v@)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_none ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_unit ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_unit_variant ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Text(variant@)),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_unit_struct ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null),
//@ end
//@ include se_args_fns.vx
