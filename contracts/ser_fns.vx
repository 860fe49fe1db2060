//@ source src/se.rs
//@ rewrite `ser::Impossible` => `Impossible`
//@ rewrite `.strip_prefix` => `.vx_strip`
//@ rewrite `.starts_with` => `.vx_starts`
//@ rewrite `key == "#args"` => `key.vx_is("#args")`
//@ rewrite `key == "#rest"` => `key.vx_is("#rest")`
//@ rewrite `ser::SerializeSeq::serialize_element(self, value)` => `self.serialize_element(value)`
//@ rewrite `ser::SerializeStruct::serialize_field(&mut fields, key, value)` => `fields.serialize_field(key, value)`
//@ rewrite `ser::SerializeSeq::end(self)` => `self.end()`
//@ rewrite `.ok_or_else(|| $e)?` => `.vx_or_else(|| $e)?`
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_some ret r
    ensures value_done(value.tree(), r),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_newtype_struct ret r
    ensures value_done(value.tree(), r),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_seq ret r
    ensures r is Err,
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_tuple ret r
    ensures r is Err,
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_tuple_struct ret r
    ensures r is Err,
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_map ret r
    ensures r is Err,
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_struct ret r
    ensures r is Err,
//@ end
//@ fn to_kdl_value ret r
    ensures value_done(value.tree(), r),
//@ end
//@ fn <ser::Serializer for KdlValueSerializer>::serialize_char ret r
//@ rewrite `vx_string(v)` => `vx_char_string(v)`
    ensures r matches Ok(x) && is_value(x, Data::Text(seq![v])),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_bool ret r
    ensures key_done(Tree::Scalar(Data::Bool(v)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_i8 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_i16 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_i32 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_i64 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_u8 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_u16 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_u32 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_u64 ret r
//@ rewrite `vx_string(v)` => `v.vx_text()`
    ensures key_done(Tree::Scalar(Data::Int(v as int)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_str ret r
    ensures key_done(Tree::Scalar(Data::Text(v@)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_char ret r
//@ rewrite `vx_string(v)` => `vx_char_string(v)`
    ensures key_done(Tree::Scalar(Data::Text(seq![v])), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_unit_variant ret r
    ensures key_done(Tree::Scalar(Data::Text(variant@)), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_some ret r
    ensures key_done(value.tree(), r),
//@ end
//@ fn <ser::Serializer for KeySerializer>::serialize_newtype_struct ret r
    ensures key_done(value.tree(), r),
//@ end
//@ fn key_to_string ret r
    ensures key_done(key.tree(), r),
//@ end
//@ struct ArgsSeqSerializer
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_some ret r
    ensures args_done(*old(self).node, *final(self).node, value.tree(), r),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_newtype_struct ret r
    ensures args_done(*old(self).node, *final(self).node, value.tree(), r),
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_seq ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node,
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_tuple ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node,
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_tuple_struct ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node,
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_map ret r
    ensures r is Err,
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_struct ret r
    ensures r is Err,
//@ end
//@ fn <ser::Serializer for &'a mut ArgsSerializer<'a>>::serialize_char ret r
//@ rewrite `vx_string(v)` => `vx_char_string(v)`
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Text(seq![v])),
//@ end
//@ fn <ser::SerializeSeq for ArgsSeqSerializer<'a>>::serialize_element ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && pushed(*old(self).node, *final(self).node, d), None => r is Err }, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeTuple for ArgsSeqSerializer<'a>>::serialize_element as tuple_element ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && pushed(*old(self).node, *final(self).node, d), None => r is Err }, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeTupleStruct for ArgsSeqSerializer<'a>>::serialize_field as tuple_field ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && pushed(*old(self).node, *final(self).node, d), None => r is Err }, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeSeq for ArgsSeqSerializer<'a>>::end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ fn <ser::SerializeTuple for ArgsSeqSerializer<'a>>::end as tuple_end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ fn <ser::SerializeTupleStruct for ArgsSeqSerializer<'a>>::end as struct_end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ struct NodeSeqSerializer
//@ struct NodeChildMapSerializer
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_bool ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Bool(v)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Bool(v)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i8 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i16 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_i64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u8 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u16 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_u64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Int(v as int)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Int(v as int)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_f32 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Float(widened(v))), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Float(widened(v))), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_f64 ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Float(v)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Float(v)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_str ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Text(v@)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Text(v@)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_none ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Null), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_unit ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Null), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_unit_variant ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Text(variant@)), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Text(variant@)), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_unit_struct ret r
    ensures r == Ok::<(), Error>(()), pushed(*old(self).node, *final(self).node, Data::Null), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Null), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_char ret r
//@ rewrite `vx_string(v)` => `vx_char_string(v)`
    ensures r == Ok::<(), Error>(()), node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Scalar(Data::Text(seq![v])), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_some ret r
    ensures node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, Tree::Some(Box::new(value.tree())), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_newtype_struct ret r
    ensures node_done(*old(self).node, old(self).omittable, *final(self).node, final(self).omittable, value.tree(), r), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_seq ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node, final(self).omittable == old(self).omittable, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_tuple ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node, final(self).omittable == old(self).omittable, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_tuple_struct ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node, final(self).omittable == old(self).omittable, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_map ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node && s.current_key is None, final(self).omittable == old(self).omittable, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_struct ret r
    ensures r matches Ok(s) && *s.node == *old(self).node && *final(s.node) == *final(self).node && s.current_key is None, final(self).omittable == old(self).omittable, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeSeq for NodeSeqSerializer<'a>>::serialize_element ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && pushed(*old(self).node, *final(self).node, d), None => r is Err }, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeTuple for NodeSeqSerializer<'a>>::serialize_element as tuple_element ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && pushed(*old(self).node, *final(self).node, d), None => r is Err }, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeTupleStruct for NodeSeqSerializer<'a>>::serialize_field as tuple_field ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && pushed(*old(self).node, *final(self).node, d), None => r is Err }, *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeSeq for NodeSeqSerializer<'a>>::end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ fn <ser::SerializeTuple for NodeSeqSerializer<'a>>::end as tuple_end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ fn <ser::SerializeTupleStruct for NodeSeqSerializer<'a>>::end as struct_end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ fn serialize_value_into_node ret r
    ensures fresh(*old(node)) ==> (fits(value.tree()) ==> r is Ok) && (r matches Ok(o) ==> into_node(*old(node), *final(node), value.tree()) && o == omits(value.tree())),
//@ end
//@ fn <ser::SerializeMap for NodeChildMapSerializer<'a>>::serialize_key ret r
    ensures *final(self).node == *old(self).node, *final(final(self).node) == *final(old(self).node), keyed(key.tree()) is Some ==> r is Ok, r is Ok ==> (final(self).current_key matches Some(s) && (keyed(key.tree()) matches Some(k) ==> s@ == k)),
//@ end
//@ fn <ser::SerializeMap for NodeChildMapSerializer<'a>>::serialize_value ret r
    ensures old(self).current_key is None ==> r is Err, old(self).current_key is Some && fits(value.tree()) ==> r is Ok, r is Ok ==> child_step(*old(self).node, *final(self).node, old(self).current_key->0@, value.tree()) && final(self).current_key is None && (bare_node(*old(self).node) ==> bare_node(*final(self).node)), *final(final(self).node) == *final(old(self).node),
//@ end
//@ fn <ser::SerializeMap for NodeChildMapSerializer<'a>>::end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ fn <ser::SerializeStruct for NodeChildMapSerializer<'a>>::serialize_field ret r
    ensures field_fits(key@, value.tree()) ==> r is Ok, r is Ok ==> (!is_plain(key@) ==> entry_fits(key@, value.tree())) && field_step(*old(self).node, *final(self).node, key@, value.tree()) && (bare_node(*old(self).node) ==> bare_node(*final(self).node)), *final(final(self).node) == *final(old(self).node),
//@ hint top
    proof { renames(key@); }
//@ end
//@ fn <ser::SerializeStruct for NodeChildMapSerializer<'a>>::end as record_end ret r
    ensures r is Ok, *final(self.node) == *old(self.node),
//@ end
//@ struct SeqNodeSerializer
//@ struct MapNodeSerializer
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_none ret r
    ensures doc_done(old(self).doc, final(self).doc, Tree::Scalar(Data::Null), r),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_unit ret r
    ensures doc_done(old(self).doc, final(self).doc, Tree::Scalar(Data::Null), r),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_unit_struct ret r
    ensures doc_done(old(self).doc, final(self).doc, Tree::Scalar(Data::Null), r),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_some ret r
    ensures doc_done(old(self).doc, final(self).doc, Tree::Some(Box::new(value.tree())), r),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_newtype_struct ret r
    ensures doc_done(old(self).doc, final(self).doc, value.tree(), r),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_char ret r
//@ rewrite `vx_string(v)` => `vx_char_string(v)`
    ensures doc_done(old(self).doc, final(self).doc, Tree::Scalar(Data::Text(seq![v])), r),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_seq ret r
    ensures r matches Ok(s) && *s.nodes == old(self).doc.nodes && *final(s.nodes) == final(self).doc.nodes && s.node_name@ == seq!['-'], final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_tuple ret r
    ensures r matches Ok(s) && *s.nodes == old(self).doc.nodes && *final(s.nodes) == final(self).doc.nodes && s.node_name@ == seq!['-'], final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_tuple_struct ret r
    ensures r matches Ok(s) && *s.nodes == old(self).doc.nodes && *final(s.nodes) == final(self).doc.nodes && s.node_name@ == seq!['-'], final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_map ret r
    ensures r matches Ok(s) && *s.nodes == old(self).doc.nodes && *final(s.nodes) == final(self).doc.nodes && s.current_key is None, final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_struct ret r
    ensures r matches Ok(s) && *s.nodes == old(self).doc.nodes && *final(s.nodes) == final(self).doc.nodes && s.current_key is None, final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ end
//@ fn <ser::SerializeSeq for SeqNodeSerializer<'a>>::serialize_element ret r
    ensures fits(value.tree()) ==> r is Ok, r is Ok ==> gained(old(self).nodes@, final(self).nodes@, old(self).node_name@, value.tree()), final(self).node_name == old(self).node_name, *final(final(self).nodes) == *final(old(self).nodes),
//@ end
//@ fn <ser::SerializeTuple for SeqNodeSerializer<'a>>::serialize_element as tuple_element ret r
    ensures fits(value.tree()) ==> r is Ok, r is Ok ==> gained(old(self).nodes@, final(self).nodes@, old(self).node_name@, value.tree()), final(self).node_name == old(self).node_name, *final(final(self).nodes) == *final(old(self).nodes),
//@ end
//@ fn <ser::SerializeTupleStruct for SeqNodeSerializer<'a>>::serialize_field as tuple_field ret r
    ensures fits(value.tree()) ==> r is Ok, r is Ok ==> gained(old(self).nodes@, final(self).nodes@, old(self).node_name@, value.tree()), final(self).node_name == old(self).node_name, *final(final(self).nodes) == *final(old(self).nodes),
//@ end
//@ fn <ser::SerializeSeq for SeqNodeSerializer<'a>>::end ret r
    ensures r is Ok, *final(self.nodes) == *old(self.nodes),
//@ end
//@ fn <ser::SerializeTuple for SeqNodeSerializer<'a>>::end as tuple_end ret r
    ensures r is Ok, *final(self.nodes) == *old(self.nodes),
//@ end
//@ fn <ser::SerializeTupleStruct for SeqNodeSerializer<'a>>::end as struct_end ret r
    ensures r is Ok, *final(self.nodes) == *old(self.nodes),
//@ end
//@ fn <ser::SerializeMap for MapNodeSerializer<'a>>::serialize_key ret r
    ensures final(self).nodes@ == old(self).nodes@, *final(final(self).nodes) == *final(old(self).nodes), keyed(key.tree()) is Some ==> r is Ok, r is Ok ==> (final(self).current_key matches Some(s) && (keyed(key.tree()) matches Some(k) ==> s@ == k)),
//@ end
//@ fn <ser::SerializeMap for MapNodeSerializer<'a>>::serialize_value ret r
    ensures old(self).current_key is None ==> r is Err, old(self).current_key is Some && fits(value.tree()) ==> r is Ok, r is Ok ==> gained(old(self).nodes@, final(self).nodes@, old(self).current_key->0@, value.tree()) && final(self).current_key is None, *final(final(self).nodes) == *final(old(self).nodes),
//@ end
//@ fn <ser::SerializeMap for MapNodeSerializer<'a>>::end ret r
    ensures r is Ok, *final(self.nodes) == *old(self.nodes),
//@ end
//@ fn <ser::SerializeStruct for MapNodeSerializer<'a>>::serialize_field ret r
    ensures fits(value.tree()) ==> r is Ok, r is Ok ==> if omits(value.tree()) { final(self).nodes@ == old(self).nodes@ } else { gained(old(self).nodes@, final(self).nodes@, key@, value.tree()) }, *final(final(self).nodes) == *final(old(self).nodes),
//@ end
//@ fn <ser::SerializeStruct for MapNodeSerializer<'a>>::end as record_end ret r
    ensures r is Ok, *final(self.nodes) == *old(self.nodes),
//@ end
//@ struct StructVariantSerializer
//@ fn <ser::SerializeStructVariant for StructVariantSerializer<'a>>::serialize_field ret r
    ensures field_fits(key@, value.tree()) ==> r is Ok, r is Ok ==> (!is_plain(key@) ==> entry_fits(key@, value.tree())) && field_step(old(self).node, final(self).node, key@, value.tree()) && (bare_node(old(self).node) ==> bare_node(final(self).node)), *final(self).parent_nodes == *old(self).parent_nodes, *final(final(self).parent_nodes) == *final(old(self).parent_nodes),
//@ end
//@ fn <ser::SerializeStructVariant for StructVariantSerializer<'a>>::end ret r
    ensures r is Ok, (*final(self.parent_nodes))@ == (*old(self.parent_nodes))@.push(self.node),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_struct_variant ret r
    ensures r matches Ok(s) && *s.parent_nodes == old(self).doc.nodes && *final(s.parent_nodes) == final(self).doc.nodes && fresh(s.node) && s.node.name.value@ == variant@, final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ end
//@ struct NodeChildStructVariantSerializer
//@ fn <ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a>>::serialize_field ret r
    ensures field_fits(key@, value.tree()) ==> r is Ok, r is Ok && is_plain(key@) ==> *final(self).parent == *old(self).parent && if omits(value.tree()) { final(self).children == old(self).children } else { gained(old(self).children.nodes@, final(self).children.nodes@, key@, value.tree()) }, r is Ok && !is_plain(key@) ==> entry_fits(key@, value.tree()) && added(*old(self).parent, *final(self).parent, contrib(key@, value.tree())) && final(self).children == old(self).children, final(self).variant == old(self).variant, *final(final(self).parent) == *final(old(self).parent),
//@ hint top
    proof { renames(key@); }
//@ end
//@ fn <ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a>>::end ret r
    ensures r is Ok, (*final(self.parent)).children matches Some(d) && d.nodes@.len() == kids_before(*old(self.parent)).len() + 1 && d.nodes@.drop_last() =~= kids_before(*old(self.parent)) && ({ let n = d.nodes@.last(); n.name.value@ == self.variant@ && n.ty is None && n.entries@.len() == 0 && n.children == Some(self.children) }), *final(self.parent) == (KdlNode { children: final(self.parent).children, ..*old(self.parent) }),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_struct_variant ret r
    ensures r matches Ok(s) && *s.parent == *old(self).node && *final(s.parent) == *final(self).node && s.variant == variant && s.children.nodes@.len() == 0,
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_newtype_variant ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && one_more(old(self).doc.nodes@, final(self).doc.nodes@, variant@, d), None => r is Err }, r is Ok ==> final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ end
//@ fn <ser::Serializer for &'a mut DocumentSerializer>::serialize_tuple_variant ret r
    ensures r matches Ok(s) && *s.nodes == old(self).doc.nodes && *final(s.nodes) == final(self).doc.nodes && s.node_name@ == variant@, final(self).doc == (KdlDocument { nodes: final(self).doc.nodes, ..old(self).doc }),
//@ end
//@ fn <ser::SerializeTupleVariant for SeqNodeSerializer<'a>>::serialize_field as variant_field ret r
    ensures fits(value.tree()) ==> r is Ok, r is Ok ==> gained(old(self).nodes@, final(self).nodes@, old(self).node_name@, value.tree()), final(self).node_name == old(self).node_name, *final(final(self).nodes) == *final(old(self).nodes),
//@ end
//@ fn <ser::SerializeTupleVariant for SeqNodeSerializer<'a>>::end as variant_end ret r
    ensures r is Ok, *final(self.nodes) == *old(self.nodes),
//@ end
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_newtype_variant ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && (final(self).node.children matches Some(c) && one_more(kids_before(*old(self).node), c.nodes@, variant@, d)), None => r is Err }, r is Ok ==> *final(self).node == (KdlNode { children: final(self).node.children, ..*old(self).node }),
//@ end
//@ struct NodeChildSeqSerializer
//@ fn <ser::Serializer for &'a mut NodeValueSerializer<'_>>::serialize_tuple_variant ret r
    ensures r matches Ok(s) && *s.parent == *old(self).node && *final(s.parent) == *final(self).node && s.variant_name == Some(variant) && s.items@.len() == 0,
//@ end
//@ fn <ser::SerializeTupleVariant for NodeChildSeqSerializer<'a>>::serialize_field ret r
    ensures match flat(value.tree()) { Some(d) => r is Ok && final(self).items@.len() == old(self).items@.len() + 1 && final(self).items@.drop_last() =~= old(self).items@ && is_value(final(self).items@.last(), d), None => r is Err }, *final(self).parent == *old(self).parent, final(self).variant_name == old(self).variant_name, *final(final(self).parent) == *final(old(self).parent),
//@ end
//@ fn <ser::SerializeTupleVariant for NodeChildSeqSerializer<'a>>::end ret r
    ensures r is Ok, ({ let a = *old(self.parent); let b = *final(self.parent); b == (KdlNode { children: b.children, ..a }) && (b.children matches Some(c) && c.nodes@.len() == kids_before(a).len() + 1 && c.nodes@.drop_last() =~= kids_before(a) && ({ let n = c.nodes@.last(); called(n, match self.variant_name { Some(v) => v@, None => seq!['-'] }) && n.children is None && n.entries@.len() == self.items@.len() && forall|i: int| 0 <= i < n.entries@.len() ==> plain_arg(#[trigger] n.entries@[i], self.items@[i]) })) }),
//@ hint top
    proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ loop #0
    invariant
        it.snapshot@.remaining() == self.items@, called(node, match self.variant_name { Some(v) => v@, None => seq!['-'] }), node.children is None,
        node.entries@.len() == it.index@, forall|i: int| 0 <= i < node.entries@.len() ==> plain_arg(#[trigger] node.entries@[i], self.items@[i]),
//@ end
//@ include ser_top.vx
