// ---- Contracts on the real functions (serde's lifetimes dropped).
//@ rewrite `Visitor<'de>` => `Visitor`
//@ rewrite `DeserializeSeed<'de>` => `DeserializeSeed`
//@ rewrite `_: &'static str` => `_name: &'static str`
//@ rewrite `Cow<'a, str>` => `Cow<'a>`
//@ rewrite `.map(Some)` => `.vx_map_some()`
//@ rewrite `Self::Error` => `Error`
//@ rewrite `i64::try_from` => `vx_to_i64`
//@ rewrite `u64::try_from` => `vx_to_u64`
//@ rewrite `std::collections::HashMap<&'a str, Vec<&'a KdlNode>>` => `Groups<'a>`
//@ rewrite `std::collections::HashMap<&str, Vec<&KdlNode>>` => `Groups<'a>`
//@ rewrite `std::collections::HashMap::new()` => `Groups::new()`
//@ rewrite `.entry($k).or_default()` => `.or_default($k)`
//@ rewrite `fields.contains(&$x.as_ref())` => `vx_asks(fields, $x.as_str())`
//@ rewrite `fields.contains(&$x)` => `vx_asks(fields, $x)`
//@ rewrite `used_names.contains(field)` => `vx_asks(used_names.as_slice(), field)`
//@ rewrite `field.starts_with($c)` => `vx_starts(field, $c)`
//@ rewrite `String::from(*field)` => `vx_string(field)`
//@ rewrite `.into()` => `.vx_into()`
//@ rewrite `.collect()` => `.vx_collect()`
//@ rewrite `de::value::StrDeserializer<'_, Error>` => `StrDeserializer<'_>`
//@ rewrite `de::IntoDeserializer::into_deserializer(s)` => `StrDeserializer { s }`
//@ rewrite `de::Deserializer::$x` => `NodeDeserializer::$x`
pub struct StrDeserializer<'a> { pub s: &'a str }
impl<'a> HasContent for StrDeserializer<'a> { open spec fn content(self) -> Content { Content::Text(self.s@) } }
impl<'a> HasVariant for StrDeserializer<'a> { open spec fn variant(self) -> (Seq<char>, Option<Content>) { (self.s@, None) } }
pub struct StringDeserializer { pub s: String }
impl StringDeserializer {
    pub fn new(s: String) -> (r: StringDeserializer)
        ensures r.s == s,
    { StringDeserializer { s } }
}
impl HasContent for StringDeserializer { open spec fn content(self) -> Content { Content::Text(self.s@) } }
//@ source src/node.rs
//@ fn KdlNode::entries ret r
    ensures r@ == self.entries@,
//@ end
//@ fn KdlNode::name ret r
    ensures *r == self.name,
//@ end
//@ fn KdlNode::ty ret r
    ensures r is Some == self.ty is Some, r matches Some(t) ==> *t == self.ty.unwrap(),
//@ end
//@ fn KdlNode::children ret r
    ensures r is Some == self.children is Some, r matches Some(t) ==> *t == self.children.unwrap(),
//@ end
//@ source src/entry.rs
//@ fn KdlEntry::name ret r
    ensures r is Some == self.name is Some, r matches Some(t) ==> *t == self.name.unwrap(),
//@ end
//@ fn KdlEntry::ty ret r
    ensures r is Some == self.ty is Some, r matches Some(t) ==> *t == self.ty.unwrap(),
//@ end
//@ fn KdlEntry::value ret r
    ensures *r == self.value,
//@ end
//@ source src/identifier.rs
//@ fn KdlIdentifier::value ret r
    ensures r@ == self.value@,
//@ end
//@ source src/document.rs
//@ fn KdlDocument::nodes ret r
    ensures r@ == self.nodes@,
//@ end

//@ source src/de.rs
//@ fn str_deserializer ret r
    ensures r.s == s,
//@ end
//@ struct IdentDeserializer
impl<'a> HasContent for IdentDeserializer<'a> { open spec fn content(self) -> Content { ident(*self.ident) } }
//@ fn IdentDeserializer::new ret r
    ensures r.ident == ident,
//@ end
//@ fn IdentDeserializer::annotate ret r
    ensures decorated(result, r),
//@ end
//@ fn <de::Deserializer<'de> for IdentDeserializer<'a>>::deserialize_any ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for IdentDeserializer<'a>>::deserialize_string ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for IdentDeserializer<'a>>::deserialize_str ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for IdentDeserializer<'a>>::deserialize_option ret r
    ensures told(visitor, asked_option(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for IdentDeserializer<'a>>::deserialize_newtype_struct ret r
    ensures told(visitor, Shown::Newtype(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for IdentDeserializer<'a>>::deserialize_enum ret r
    ensures told(visitor, Shown::Enum(self.ident.value@, None), r),
//@ end
//@ struct ValueDeserializer
impl<'a> HasContent for ValueDeserializer<'a> { open spec fn content(self) -> Content { Content::Value(*self.value) } }
//@ fn ValueDeserializer::new ret r
    ensures *r.value == entry.value,
//@ end
//@ fn ValueDeserializer::annotate ret r
    ensures decorated(result, r),
//@ end
//@ fn <de::Deserializer<'de> for ValueDeserializer<'a>>::deserialize_any ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for ValueDeserializer<'a>>::deserialize_option ret r
    ensures told(visitor, asked_option(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for ValueDeserializer<'a>>::deserialize_newtype_struct ret r
    ensures told(visitor, Shown::Newtype(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for ValueDeserializer<'a>>::deserialize_enum ret r
    ensures
        *self.value matches KdlValue::String(s) ==> told(visitor, Shown::Enum(s@, None), r),
        !(self.value is String) ==> r is Err,
//@ end
//@ fn <de::Deserializer<'de> for ValueDeserializer<'a>>::deserialize_string ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for ValueDeserializer<'a>>::deserialize_str ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ struct ArgSeqAccess
impl<'a> HasElems for ArgSeqAccess<'a> { #[verifier::prophetic] open spec fn elems(self) -> Seq<Content> { arg_elems(vals(self.iter.remaining())) } }
//@ fn <SeqAccess<'de> for ArgSeqAccess<'a>>::next_element_seed ret r
    ensures
        old(self).elems().len() == 0 ==> r == Ok::<Option<T::Value>, Error>(None) && final(self).elems().len() == 0,
        old(self).elems().len() > 0 ==> fed_some(seed, old(self).elems()[0], r) && final(self).elems() =~= old(self).elems().drop_first(),
//@ end
//@ struct NodeListSeqAccess
impl<'a> HasElems for NodeListSeqAccess<'a> { #[verifier::prophetic] open spec fn elems(self) -> Seq<Content> { node_elems(vals(self.iter.remaining())) } }
//@ fn <SeqAccess<'de> for NodeListSeqAccess<'a>>::next_element_seed ret r
    ensures
        old(self).elems().len() == 0 ==> r == Ok::<Option<T::Value>, Error>(None) && final(self).elems().len() == 0,
        old(self).elems().len() > 0 ==> fed_some(seed, old(self).elems()[0], r) && final(self).elems() =~= old(self).elems().drop_first(),
//@ end
//@ struct NodeGroupSeqAccess
impl<'a> HasElems for NodeGroupSeqAccess<'a> { #[verifier::prophetic] open spec fn elems(self) -> Seq<Content> { node_elems(vals(vals(self.iter.remaining()))) } }
//@ fn <SeqAccess<'de> for NodeGroupSeqAccess<'a>>::next_element_seed ret r
    ensures
        old(self).elems().len() == 0 ==> r == Ok::<Option<T::Value>, Error>(None) && final(self).elems().len() == 0,
        old(self).elems().len() > 0 ==> fed_some(seed, old(self).elems()[0], r) && final(self).elems() =~= old(self).elems().drop_first(),
//@ end
//@ struct NodeGroupDeserializer
impl<'a> HasContent for NodeGroupDeserializer<'a> { open spec fn content(self) -> Content { Content::Group(vals(self.nodes@)) } }
//@ fn <de::Deserializer<'de> for NodeGroupDeserializer<'a>>::deserialize_seq ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ hint top
    proof { lemma_vals::<&KdlNode>(self.nodes@); }
//@ end
//@ fn <de::Deserializer<'de> for NodeGroupDeserializer<'a>>::deserialize_any ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeGroupDeserializer<'a>>::deserialize_option ret r
    ensures told(visitor, asked_option(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeGroupDeserializer<'a>>::deserialize_newtype_struct ret r
    ensures told(visitor, Shown::Newtype(self.content()), r),
//@ end
//@ struct ArgsSeqDeserializer
impl<'a> HasContent for ArgsSeqDeserializer<'a> { open spec fn content(self) -> Content { Content::Args(vals(self.entries@)) } }
//@ fn <Deserializer<'de> for ArgsSeqDeserializer<'a>>::deserialize_any ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ end
//@ fn <Deserializer<'de> for ArgsSeqDeserializer<'a>>::deserialize_seq ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ end
//@ fn <Deserializer<'de> for ArgsSeqDeserializer<'a>>::deserialize_option ret r
    ensures told(visitor, asked_option(self.content()), r),
//@ end
//@ fn <Deserializer<'de> for ArgsSeqDeserializer<'a>>::deserialize_newtype_struct ret r
    ensures told(visitor, Shown::Newtype(self.content()), r),
//@ end
//@ struct OmittedChildDeserializer
impl HasContent for OmittedChildDeserializer { open spec fn content(self) -> Content { Content::Omitted } }
//@ fn <Deserializer<'de> for OmittedChildDeserializer>::deserialize_any ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <Deserializer<'de> for OmittedChildDeserializer>::deserialize_bool ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <Deserializer<'de> for OmittedChildDeserializer>::deserialize_option ret r
    ensures told(visitor, asked_option(self.content()), r),
//@ end
//@ fn <Deserializer<'de> for OmittedChildDeserializer>::deserialize_unit ret r
    ensures told(visitor, Shown::Unit, r),
//@ end
//@ fn <Deserializer<'de> for OmittedChildDeserializer>::deserialize_unit_struct ret r
    ensures told(visitor, Shown::Unit, r),
//@ end
//@ fn <Deserializer<'de> for OmittedChildDeserializer>::deserialize_newtype_struct ret r
    ensures told(visitor, Shown::Newtype(self.content()), r),
//@ end
//@ struct NodeDeserializer
impl<'a> HasContent for NodeDeserializer<'a> { open spec fn content(self) -> Content { Content::Node(*self.node) } }
//@ fn NodeDeserializer::args ret r
    ensures vals(r@) == args_of(self.node.entries@),
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == self.node.entries@.len(),
        forall|j: int| 0 <= j < self.node.entries@.len() ==> *it.snapshot@.remaining()[j] == self.node.entries@[j],
        vals(vx_out@) =~= args_of(self.node.entries@.take(it.index@ as int)),
//@ hint `let mut vx_out = Vec::new()` before
    proof { assert(self.node.entries@.take(0) =~= Seq::empty()); }
//@ hint `let vx_keep..` before
    proof { lemma_args_take(self.node.entries@, it.index@ as int); }
//@ hint `vx_out` before
    proof { assert(self.node.entries@.take(self.node.entries@.len() as int) =~= self.node.entries@); }
//@ end
//@ fn NodeDeserializer::props ret r
    ensures vals(r@) == props_of(self.node.entries@),
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == self.node.entries@.len(),
        forall|j: int| 0 <= j < self.node.entries@.len() ==> *it.snapshot@.remaining()[j] == self.node.entries@[j],
        vals(vx_out@) =~= props_of(self.node.entries@.take(it.index@ as int)),
//@ hint `let mut vx_out = Vec::new()` before
    proof { assert(self.node.entries@.take(0) =~= Seq::empty()); }
//@ hint `let vx_keep..` before
    proof { lemma_args_take(self.node.entries@, it.index@ as int); }
//@ hint `vx_out` before
    proof { assert(self.node.entries@.take(self.node.entries@.len() as int) =~= self.node.entries@); }
//@ end
//@ fn NodeDeserializer::is_scalar ret r
    ensures r == scalar(*self.node),
//@ hint top
    proof { lemma_counts(self.node.entries@); }
//@ end
//@ fn NodeDeserializer::is_empty ret r
    ensures r == blank(*self.node),
//@ hint top
    proof { lemma_counts(self.node.entries@); }
//@ end
//@ fn NodeDeserializer::deserialize_scalar ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ hint top
    proof { lemma_counts(self.node.entries@); }
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_any ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ hint top
    proof { lemma_counts(self.node.entries@); }
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_bool ret r
    ensures
        scalar(*self.node) || blank(*self.node) ==> told(visitor, asked_any(self.content()), r),
        !scalar(*self.node) && !blank(*self.node) ==> r is Err,
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_i8 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_i16 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_i32 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_i64 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_i128 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_u8 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_u16 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_u32 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_u64 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_u128 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_f32 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_f64 ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_char ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_str ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_string ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_bytes ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_byte_buf ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_identifier ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_ignored_any ret r
    ensures told(visitor, Shown::Unit, r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_unit ret r
    ensures told(visitor, Shown::Unit, r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_unit_struct ret r
    ensures told(visitor, Shown::Unit, r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_newtype_struct ret r
    ensures told(visitor, Shown::Newtype(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_option ret r
    ensures told(visitor, asked_option(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_seq ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ hint top
    proof { if self.node.children is Some { lemma_vals::<KdlNode>(self.node.children.unwrap().nodes@); } assert(vals(Seq::<&KdlEntry>::empty()) =~= seq![]); assert(arg_elems(seq![]) =~= seq![]); }
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_tuple ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_tuple_struct ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_map ret r
    ensures told(visitor, asked_map(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_struct ret r
    ensures told(visitor, asked_record(self.content(), strs(fields@)), r),
//@ end
//@ fn <de::Deserializer<'de> for NodeDeserializer<'a>>::deserialize_enum ret r
    ensures told(visitor, Shown::Enum(node_enum(*self.node).0, node_enum(*self.node).1), r),
//@ hint top
    proof { lemma_props_named(self.node.entries@); }
//@ end
//@ struct NodeEnumAccess
//@ struct NodeVariantAccess
//@ struct PropertyEnumAccess
//@ struct PropertyVariantAccess
impl<'a> HasVariant for NodeEnumAccess<'a> { open spec fn variant(self) -> (Seq<char>, Option<Content>) { (node_name(*self.node), Some(Content::Node(*self.node))) } }
impl<'a> HasVariant for PropertyEnumAccess<'a> { open spec fn variant(self) -> (Seq<char>, Option<Content>) { (self.key@, Some(Content::Value(self.entry.value))) } }
//@ fn <de::EnumAccess<'de> for NodeEnumAccess<'a>>::variant_seed ret r
//@ rewrite `Self::Variant` => `NodeVariantAccess<'a>`
    ensures
        exists|q: Result<V::Value, Error>| #[trigger] seed.takes(Content::Text(self.node.name.value@), q) && match q { Ok(v) => (r matches Ok(p) && p.0 == v && p.1.node == self.node), Err(_) => r is Err },
//@ end
//@ fn <de::EnumAccess<'de> for PropertyEnumAccess<'a>>::variant_seed ret r
//@ rewrite `Self::Variant` => `PropertyVariantAccess<'a>`
    ensures
        exists|q: Result<V::Value, Error>| #[trigger] seed.takes(Content::Text(self.key@), q) && match q { Ok(v) => (r matches Ok(p) && p.0 == v && p.1.entry == self.entry), Err(_) => r is Err },
//@ end
//@ fn <de::VariantAccess<'de> for NodeVariantAccess<'a>>::newtype_variant_seed ret r
    ensures fed(seed, Content::Node(*self.node), r),
//@ end
//@ fn <de::VariantAccess<'de> for NodeVariantAccess<'a>>::tuple_variant ret r
    ensures told(visitor, Shown::Seq(node_seq(*self.node)), r),
//@ end
//@ fn <de::VariantAccess<'de> for NodeVariantAccess<'a>>::struct_variant ret r
    ensures told(visitor, Shown::Map(node_items(*self.node, Some(strs(fields@)))), r),
//@ end
//@ fn <de::VariantAccess<'de> for PropertyVariantAccess<'a>>::newtype_variant_seed ret r
    ensures fed(seed, Content::Value(self.entry.value), r),
//@ end
//@ struct DocumentDeserializer
impl<'a> HasContent for DocumentDeserializer<'a> { open spec fn content(self) -> Content { Content::Document(*self.doc) } }
//@ struct DocumentMapAccess
impl<'a> DocumentMapAccess<'a> {
    /// Every key has its nodes.
    pub open spec fn wf(self) -> bool { forall|i: int| 0 <= i < self.keys@.len() ==> self.groups@.dom().contains((#[trigger] self.keys@[i])@) }
}
pub open spec fn doc_item(m: Map<Seq<char>, Vec<&KdlNode>>, k: Seq<char>) -> (Seq<char>, Content) { (k, group(vals(m[k]@))) }
impl<'a> HasItems for DocumentMapAccess<'a> {
    open spec fn items(self) -> Seq<(Seq<char>, Content)> { Seq::new(if self.idx <= self.keys@.len() { (self.keys@.len() - self.idx) as nat } else { 0 }, |i: int| doc_item(self.groups@, self.keys@[self.idx + i]@)) }
}
//@ fn DocumentMapAccess::new ret r
    ensures r.wf(), r.idx == 0, r.items() == child_items(doc.nodes@),
//@ loop #0
    invariant
        it.snapshot@.remaining().len() == doc.nodes@.len(),
        forall|j: int| 0 <= j < doc.nodes@.len() ==> *it.snapshot@.remaining()[j] == doc.nodes@[j],
        strs(keys@) =~= first_seen(doc.nodes@.take(it.index@ as int)),
        grouped(groups@, doc.nodes@.take(it.index@ as int)),
//@ hint `for node in doc.nodes()..` before
    proof { assert(doc.nodes@.take(0) =~= Seq::empty()); lemma_first_seen(doc.nodes@); assert(doc.nodes@.take(doc.nodes@.len() as int) =~= doc.nodes@); }
//@ hint `let name = node.name().value()` after
    proof { lemma_named_take(doc.nodes@, it.index@ as int); lemma_first_seen(doc.nodes@.take(it.index@ as int)); }
//@ hint `groups.or_default(name).push(node)` before
    let ghost m0 = groups@;
//@ hint `groups.or_default(name).push(node)` after
    proof { lemma_grouped(m0, groups@, doc.nodes@.take(it.index@ as int), *node); assert(doc.nodes@.take(it.index@ as int).push(*node) =~= doc.nodes@.take(it.index@ + 1)); }
//@ hint `DocumentMapAccess..` before
    proof {
        assert(strs(keys@) == first_seen(doc.nodes@));
        assert forall|i: int| 0 <= i < keys@.len() implies groups@.dom().contains((#[trigger] keys@[i])@) && vals(groups@[keys@[i]@]@) == all_named(doc.nodes@, keys@[i]@) by { assert(strs(keys@)[i] == keys@[i]@); assert(first_seen(doc.nodes@).contains(keys@[i]@)); lemma_grouped_has(groups@, doc.nodes@, keys@[i]@); }
        assert(Seq::new(keys@.len(), |i: int| doc_item(groups@, keys@[i]@)) =~= child_items(doc.nodes@));
    }
//@ end
//@ fn <MapAccess<'de> for DocumentMapAccess<'a>>::next_key_seed ret r
    requires old(self).wf(),
    ensures
        *final(self) == *old(self),
        old(self).items().len() == 0 ==> r == Ok::<Option<K::Value>, Error>(None),
        old(self).items().len() > 0 ==> fed_some(seed, Content::Text(old(self).items()[0].0), r),
//@ end
//@ fn <MapAccess<'de> for DocumentMapAccess<'a>>::next_value_seed ret r
    requires old(self).wf(), old(self).items().len() > 0,
    ensures
        final(self).wf(),
        fed(seed, old(self).items()[0].1, r),
        final(self).items() =~= old(self).items().drop_first(),
//@ hint top
    proof { assert(self.keys.len() == self.keys@.len()); assert(self.groups@.dom().contains(self.keys@[self.idx as int]@)); }
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_map ret r
    ensures told(visitor, asked_map(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_any ret r
    ensures told(visitor, asked_any(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_struct ret r
    ensures told(visitor, asked_record(self.content(), seq![]), r),
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_seq ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ hint top
    proof { lemma_vals::<KdlNode>(self.doc.nodes@); }
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_tuple ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_tuple_struct ret r
    ensures told(visitor, asked_seq(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_option ret r
    ensures told(visitor, asked_option(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_newtype_struct ret r
    ensures told(visitor, Shown::Newtype(self.content()), r),
//@ end
//@ fn <de::Deserializer<'de> for DocumentDeserializer<'a>>::deserialize_enum ret r
    ensures
        self.doc.nodes@.len() == 1 ==> told(visitor, Shown::Enum(node_name(self.doc.nodes@[0]), Some(Content::Node(self.doc.nodes@[0]))), r),
        self.doc.nodes@.len() != 1 ==> r is Err,
//@ end
//@ enum NodeMapValue
//@ struct NodeMapAccess
pub open spec fn map_value(v: NodeMapValue<'_>) -> Content {
    match v {
        NodeMapValue::Ident(i) => ident(*i),
        NodeMapValue::Arg(e) => Content::Value(e.value),
        NodeMapValue::Args(v) => Content::Args(vals(v@)),
        NodeMapValue::SingleNode(n) => Content::Node(*n),
        NodeMapValue::MultiNode(v) => Content::Group(vals(v@)),
        NodeMapValue::Omitted => Content::Omitted,
    }
}
pub open spec fn map_item(x: (Cow<'_>, NodeMapValue<'_>)) -> (Seq<char>, Content) { (cow_text(x.0), map_value(x.1)) }
pub open spec fn map_items(s: Seq<(Cow<'_>, NodeMapValue<'_>)>) -> Seq<(Seq<char>, Content)> { Seq::new(s.len(), |i: int| map_item(s[i])) }
impl<'a> HasItems for NodeMapAccess<'a> {
    open spec fn items(self) -> Seq<(Seq<char>, Content)> { Seq::new(if self.idx <= self.entries@.len() { (self.entries@.len() - self.idx) as nat } else { 0 }, |i: int| map_item(self.entries@[self.idx + i])) }
}
//@ fn <MapAccess<'de> for NodeMapAccess<'a>>::next_key_seed ret r
    ensures
        *final(self) == *old(self),
        old(self).items().len() == 0 ==> r == Ok::<Option<K::Value>, Error>(None),
        old(self).items().len() > 0 ==> fed_some(seed, Content::Text(old(self).items()[0].0), r),
//@ end
//@ fn <MapAccess<'de> for NodeMapAccess<'a>>::next_value_seed ret r
    requires old(self).items().len() > 0,
    ensures
        fed(seed, old(self).items()[0].1, r),
        final(self).items() =~= old(self).items().drop_first(),
//@ hint top
    proof { assert(self.entries.len() == self.entries@.len()); }
//@ end
pub proof fn lemma_map_items()
    ensures
        forall|s: Seq<(Cow<'_>, NodeMapValue<'_>)>, x: (Cow<'_>, NodeMapValue<'_>)| #[trigger] map_items(s.push(x)) == map_items(s) + seq![map_item(x)],
        map_items(seq![]) == Seq::<(Seq<char>, Content)>::empty(),
{
    assert forall|s: Seq<(Cow<'_>, NodeMapValue<'_>)>, x: (Cow<'_>, NodeMapValue<'_>)| #[trigger] map_items(s.push(x)) == map_items(s) + seq![map_item(x)] by { assert(map_items(s.push(x)) =~= map_items(s) + seq![map_item(x)]); }
    assert(map_items(seq![]) =~= seq![]);
}
pub open spec fn asked(fields: Option<&[&str]>) -> Option<Seq<Seq<char>>> { match fields { Some(f) => Some(strs(f@)), None => None } }
pub open spec fn shared<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> *r[j] == s[j] }
pub type Items = Seq<(Seq<char>, Content)>;
pub proof fn lemma_more(a: Items, b: Items, c: Items)
    ensures (a + b) + c == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
pub type F0 = Option<Seq<Seq<char>>>;
pub proof fn lemma_arg_step(f: F0, x: Seq<KdlEntry>, e: KdlEntry)
    ensures
        arg_items(f, x.push(e)) == arg_items(f, x) + ty_item(f, type_field(arg_field(x.len())), e.ty) + opt_item(asks(f, arg_field(x.len())), arg_field(x.len()), Content::Value(e.value)),
        rest_of(f, x.push(e)) == (if asks(f, arg_field(x.len())) { rest_of(f, x) } else { rest_of(f, x).push(e) }),
{ assert(x.push(e).drop_last() =~= x); }
pub proof fn lemma_prop_step(f: F0, x: Seq<KdlEntry>, e: KdlEntry)
    ensures
        prop_items(f, x.push(e)) == prop_items(f, x) + prop_item(f, e),
        prop_names(x.push(e)) == prop_names(x).push(e.name.unwrap().value@),
{ assert(x.push(e).drop_last() =~= x); assert(prop_names(x.push(e)) =~= prop_names(x).push(e.name.unwrap().value@)); }
pub proof fn lemma_omit_step(f: Seq<Seq<char>>, j: int, u: Seq<Seq<char>>)
    requires 0 <= j < f.len(),
    ensures omitted(f.take(j + 1), u) == omitted(f.take(j), u) + opt_item(!(f[j].len() > 0 && f[j][0] == '#') && !u.contains(f[j]), f[j], Content::Omitted),
{ assert(f.take(j + 1).drop_last() =~= f.take(j)); }
pub proof fn lemma_child_step(c: Items, j: int)
    requires 0 <= j < c.len(),
    ensures c.take(j + 1) == c.take(j) + seq![c[j]],
{ assert(c.take(j + 1) =~= c.take(j) + seq![c[j]]); }
pub proof fn lemma_strs_push(s: Seq<&str>, x: &str)
    ensures strs(s.push(x)) == strs(s).push(x@),
{ assert(strs(s.push(x)) =~= strs(s).push(x@)); }
pub proof fn lemma_vals_push<T>(s: Seq<&T>, x: &T)
    ensures vals(s.push(x)) == vals(s).push(*x),
{ assert(vals(s.push(x)) =~= vals(s).push(*x)); }
/// One item more, or not.
pub proof fn lemma_opt(a: Items, b: bool, k: Seq<char>, c: Content)
    ensures b ==> a + opt_item(b, k, c) == a + seq![(k, c)], !b ==> a + opt_item(b, k, c) == a,
{ assert(a + seq![] =~= a); }
pub proof fn lemma_ty(a: Items, f: F0, k: Seq<char>, ty: Option<KdlIdentifier>)
    ensures
        ty is Some && asks(f, k) ==> a + ty_item(f, k, ty) == a + seq![(k, ident(ty.unwrap()))],
        !(ty is Some && asks(f, k)) ==> a + ty_item(f, k, ty) == a,
{ assert(a + seq![] =~= a); }
pub proof fn lemma_push_item(s: Seq<(Cow<'_>, NodeMapValue<'_>)>, x: (Cow<'_>, NodeMapValue<'_>))
    ensures map_items(s.push(x)) == map_items(s) + seq![map_item(x)],
{ assert(map_items(s.push(x)) =~= map_items(s) + seq![map_item(x)]); }
pub proof fn lemma_none(a: Items)
    ensures a + seq![] == a,
{ assert(a + seq![] =~= a); }
pub proof fn lemma_start(e: Seq<KdlEntry>, c: Seq<KdlNode>)
    ensures
        args_of(e.take(0)) == Seq::<KdlEntry>::empty(), props_of(e.take(0)) == Seq::<KdlEntry>::empty(),
        e.take(e.len() as int) == e, c.take(c.len() as int) == c,
        first_seen(c.take(0)) == Seq::<Seq<char>>::empty(), node_names(c.take(0)) == Seq::<Seq<char>>::empty(),
        forall|k: Seq<char>| #[trigger] all_named(c.take(0), k) == Seq::<KdlNode>::empty(),
        forall|f: F0| #[trigger] arg_items(f, seq![]) == Items::empty(), forall|f: F0| #[trigger] prop_items(f, seq![]) == Items::empty(),
        forall|f: F0| #[trigger] rest_of(f, seq![]) == Seq::<KdlEntry>::empty(),
        prop_names(seq![]) == Seq::<Seq<char>>::empty(),
        vals::<KdlEntry>(seq![]) == Seq::<KdlEntry>::empty(), strs(seq![]) == Seq::<Seq<char>>::empty(),
{
    assert(e.take(0) =~= seq![]); assert(c.take(0) =~= seq![]); assert(e.take(e.len() as int) =~= e); assert(c.take(c.len() as int) =~= c);
    assert(node_names(c.take(0)) =~= seq![]); assert(prop_names(seq![]) =~= seq![]); assert(vals::<KdlEntry>(seq![]) =~= seq![]); assert(strs(seq![]) =~= seq![]);
}
pub proof fn lemma_children_none(p: Seq<Seq<char>>)
    ensures p + node_names(seq![]) == p, child_items(seq![]) == Items::empty(),
{ assert(p + node_names(seq![]) =~= p); assert(child_items(seq![]) =~= seq![]); }
pub proof fn lemma_names_push(p: Seq<Seq<char>>, q: Seq<Seq<char>>, x: Seq<char>)
    ensures (p + q).push(x) == p + q.push(x),
{ assert((p + q).push(x) =~= p + q.push(x)); }
pub proof fn lemma_grouped_has(m: Map<Seq<char>, Vec<&KdlNode>>, s: Seq<KdlNode>, k: Seq<char>)
    requires grouped(m, s),
    ensures m.dom().contains(k) <==> first_seen(s).contains(k),
{ lemma_first_seen(s); assert(all_named(s, k).len() > 0 <==> first_seen(s).contains(k)); assert(m.dom().contains(k) <==> all_named(s, k).len() > 0); }
/// The names from j on are still in the map, with all their nodes.
pub open spec fn removing(m: Map<Seq<char>, Vec<&KdlNode>>, keys: Seq<&str>, c: Seq<KdlNode>, j: int) -> bool {
    strs(keys).no_duplicates() && forall|t: int| j <= t < keys.len() ==> m.dom().contains((#[trigger] keys[t])@) && vals(m[keys[t]@]@) == all_named(c, keys[t]@)
}
pub proof fn lemma_removing_start(m: Map<Seq<char>, Vec<&KdlNode>>, keys: Seq<&str>, c: Seq<KdlNode>)
    requires grouped(m, c), strs(keys) == first_seen(c),
    ensures removing(m, keys, c, 0), keys.len() == child_items(c).len(),
{
    lemma_first_seen(c);
    assert forall|t: int| 0 <= t < keys.len() implies m.dom().contains((#[trigger] keys[t])@) && vals(m[keys[t]@]@) == all_named(c, keys[t]@) by { assert(strs(keys)[t] == keys[t]@); assert(first_seen(c).contains(keys[t]@)); lemma_grouped_has(m, c, keys[t]@); }
}
pub proof fn lemma_removing(m: Map<Seq<char>, Vec<&KdlNode>>, keys: Seq<&str>, c: Seq<KdlNode>, j: int)
    requires removing(m, keys, c, j), strs(keys) == first_seen(c), 0 <= j < keys.len(),
    ensures
        removing(m.remove(keys[j]@), keys, c, j + 1), m.dom().contains(keys[j]@), vals(m[keys[j]@]@) == all_named(c, keys[j]@),
        child_items(c).len() == keys.len(), child_items(c)[j] == (keys[j]@, group(all_named(c, keys[j]@))),
{
    assert forall|t: int| j + 1 <= t < keys.len() implies m.remove(keys[j]@).dom().contains((#[trigger] keys[t])@) && vals(m.remove(keys[j]@)[keys[t]@]@) == all_named(c, keys[t]@) by { assert(strs(keys)[t] == keys[t]@); assert(strs(keys)[j] == keys[j]@); }
    assert(strs(keys)[j] == keys[j]@);
}
pub proof fn lemma_strs_len(s: Seq<&str>)
    ensures strs(s).len() == s.len(),
{}
pub proof fn lemma_grouped_none(m: Map<Seq<char>, Vec<&KdlNode>>)
    requires m == Map::<Seq<char>, Vec<&KdlNode>>::empty(),
    ensures grouped(m, seq![]),
{}
pub proof fn lemma_vals_first<T>(v: Seq<&T>)
    ensures vals(v).len() == v.len(), v.len() > 0 ==> vals(v)[0] == *v[0],
{}
pub proof fn lemma_child_end(c: Seq<KdlNode>)
    ensures child_items(c).take(child_items(c).len() as int) == child_items(c), child_items(c).len() == first_seen(c).len(), child_items(c).take(0) == Items::empty(),
{ assert(child_items(c).take(child_items(c).len() as int) =~= child_items(c)); assert(child_items(c).take(0) =~= seq![]); }
pub proof fn lemma_omit_end(f: Seq<Seq<char>>, u: Seq<Seq<char>>)
    ensures f.take(f.len() as int) == f, omitted(f.take(0), u) == Items::empty(),
{ assert(f.take(f.len() as int) =~= f); assert(f.take(0) =~= seq![]); }
//@ fn NodeMapAccess::new ret r
    ensures r.idx == 0, r.items() == node_items(*node, asked(fields)),
//@ hint top
    hide(args_of); hide(props_of); hide(arg_items); hide(rest_of); hide(prop_items); hide(omitted); hide(first_seen); hide(all_named); hide(ty_item); hide(opt_item); hide(child_items); hide(prop_names); hide(node_names); hide(map_items); hide(strs); hide(vals); hide(prop_item); hide(type_field); hide(arg_field); hide(prop_field); hide(grouped); hide(removing);
    let ghost F = asked(fields);
    let ghost E = node.entries@;
    let ghost A = args_of(E);
    let ghost Q = props_of(E);
    let ghost C = children_of(*node);
    proof { lemma_map_items(); lemma_start(E, C); assert(node.entries.len() == E.len()); }
//@ hint `if let Some(fields) = fields && let collect_all..` before
    let ghost b1 = map_items(entries@);
    proof {
        let z = Items::empty();
        lemma_opt(z, asks(F, "#name"@), "#name"@, ident(node.name));
        lemma_ty(z + opt_item(asks(F, "#name"@), "#name"@, ident(node.name)), F, "#type"@, node.ty);
        assert(z + opt_item(asks(F, "#name"@), "#name"@, ident(node.name)) =~= opt_item(asks(F, "#name"@), "#name"@, ident(node.name)));
        assert(b1 == opt_item(asks(F, "#name"@), "#name"@, ident(node.name)) + ty_item(F, "#type"@, node.ty));
    }
//@ loop #0
    invariant
        shared(it.snapshot@.remaining(), E), E.len() <= usize::MAX,
        F == Some(strs(fields@)), F == asked(Some(fields)),
        vx_count1 == args_of(E.take(it.index@ as int)).len(), vx_count1 <= it.index@,
        collect_all ==> vals(args@) == args_of(E.take(it.index@ as int)),
        collect_rest ==> vals(rest@) == rest_of(F, args_of(E.take(it.index@ as int))),
        map_items(entries@) == b1 + arg_items(F, args_of(E.take(it.index@ as int))),
//@ hint `let vx_keep..` before
    let ghost X = args_of(E.take(it.index@ as int));
    let ghost e0 = map_items(entries@);
    proof { lemma_args_take(E, it.index@ as int); lemma_arg_step(F, X, E[it.index@ as int]); lemma_map_items(); }
//@ hint `if collect_all { args.push(arg); }` before
    proof { lemma_vals_push(args@, arg); lemma_vals_push(rest@, arg); }
//@ hint `if let Some(ty) = arg.ty()..` before
    proof { reveal(arg_field); reveal(type_field); assert(idx_name@ =~= arg_field(i as nat)); assert(ty_name@ =~= type_field(arg_field(i as nat))); }
//@ hint `if vx_asks(fields, idx_name..` before
    let ghost e1 = map_items(entries@);
    proof { lemma_ty(e0, F, type_field(arg_field(i as nat)), arg.ty); assert(e1 == e0 + ty_item(F, type_field(arg_field(i as nat)), arg.ty)); }
//@ hint `if vx_asks(fields, idx_name..` after
    proof {
        let k = arg_field(i as nat);
        lemma_opt(e1, asks(F, k), k, Content::Value(arg.value));
        assert(map_items(entries@) == e1 + opt_item(asks(F, k), k, Content::Value(arg.value)));
        lemma_more(b1, arg_items(F, X), ty_item(F, type_field(k), arg.ty));
        lemma_more(b1, arg_items(F, X) + ty_item(F, type_field(k), arg.ty), opt_item(asks(F, k), k, Content::Value(arg.value)));
        assert(map_items(entries@) == b1 + arg_items(F, X.push(*arg)));
    }
//@ hint `if collect_all { entries.push..` before
    let ghost c1 = map_items(entries@);
    proof {
        lemma_opt(c1, asks(F, "#args"@), "#args"@, Content::Args(A));
        lemma_opt(c1 + opt_item(asks(F, "#args"@), "#args"@, Content::Args(A)), asks(F, "#rest"@), "#rest"@, Content::Args(rest_of(F, A)));
        assert(c1 == b1 + arg_items(F, A));
    }
//@ hint `let mut used_names = Vec::new()` before
    let ghost b2 = map_items(entries@);
    proof {
        lemma_none(b1); 
        lemma_opt(b1, asks(F, "#args"@), "#args"@, Content::Args(A));
        lemma_opt(b1, asks(F, "#rest"@), "#rest"@, Content::Args(rest_of(F, A)));
        assert(b2 == b1 + (if F is Some { arg_items(F, A) } else { seq![] })
            + opt_item(asks(F, "#args"@), "#args"@, Content::Args(A))
            + opt_item(asks(F, "#rest"@), "#rest"@, Content::Args(rest_of(F, A))));
    }
//@ loop #1
    invariant
        shared(it.snapshot@.remaining(), E), E.len() <= usize::MAX, F == asked(fields),
        strs(used_names@) == prop_names(props_of(E.take(it.index@ as int))),
        map_items(entries@) == b2 + prop_items(F, props_of(E.take(it.index@ as int))),
//@ hint `let vx_keep..` #1 before
    let ghost X = props_of(E.take(it.index@ as int));
    let ghost e0 = map_items(entries@);
    proof { lemma_args_take(E, it.index@ as int); lemma_prop_step(F, X, E[it.index@ as int]); lemma_map_items(); }
//@ hint `if let Some(fields) = fields { let hash_name..` before
    let ghost nm = name@;
    let ghost I0 = opt_item(asks(F, prop_field(nm)), prop_field(nm), Content::Value(prop.value));
    let ghost I1 = ty_item(F, type_field(prop_field(nm)), prop.ty);
    let ghost I2: Items = seq![(nm, Content::Value(prop.value))];
    proof { lemma_opt(e0, asks(F, prop_field(nm)), prop_field(nm), Content::Value(prop.value)); lemma_ty(e0 + I0, F, type_field(prop_field(nm)), prop.ty); }
//@ hint `if vx_asks(fields, hash_name..` before
    proof { reveal(prop_field); reveal(type_field); assert(hash_name@ =~= prop_field(nm)); assert(ty_name@ =~= type_field(prop_field(nm))); }
//@ hint `if let Some(ty) = prop.ty()..` before
    proof { assert(map_items(entries@) == e0 + I0); }
//@ hint `entries.push((name.vx_into()..` before
    proof { assert(map_items(entries@) == (e0 + I0) + I1); }
//@ hint `used_names.push(name)` #0 before
    proof {
        lemma_strs_push(used_names@, name);
        assert(map_items(entries@) == ((e0 + I0) + I1) + I2);
        lemma_more(e0, I0, I1); lemma_more(e0, I0 + I1, I2);
        lemma_more(b2, prop_items(F, X), I0 + I1 + I2);
        reveal(prop_item);
        assert(prop_item(F, *prop) == I0 + I1 + I2);
    }
//@ hint `if let Some(children) = node.children()..` before
    let ghost b3 = map_items(entries@);
    let ghost P = prop_names(Q);
    proof { assert(b3 == b2 + prop_items(F, Q)); assert(strs(used_names@) == P); lemma_none(b3); lemma_children_none(P); }
//@ hint `for child in children.nodes()..` before
    proof { lemma_grouped_none(child_groups@); assert(C.take(0) =~= seq![]); }
//@ loop #2
    invariant
        shared(it.snapshot@.remaining(), C),
        strs(used_names@) == P + node_names(C.take(it.index@ as int)),
        strs(child_keys@) == first_seen(C.take(it.index@ as int)),
        grouped(child_groups@, C.take(it.index@ as int)),
//@ hint `let name = child.name().value()` after
    let ghost i = it.index@ as int;
    let ghost m0 = child_groups@;
    proof { lemma_named_take(C, i); lemma_first_seen(C.take(i)); lemma_grouped_has(m0, C.take(i), name@); lemma_strs_push(used_names@, name); lemma_strs_push(child_keys@, name); lemma_names_push(P, node_names(C.take(i)), name@); }
//@ hint `child_groups.or_default(name)..` after
    proof { lemma_grouped(m0, child_groups@, C.take(i), *child); assert(C.take(i).push(*child) =~= C.take(i + 1)); }
//@ hint `for key in child_keys..` before
    proof { lemma_removing_start(child_groups@, child_keys@, C); lemma_child_end(C); lemma_none(b3); }
//@ loop #3
    invariant
        strs(it.snapshot@.remaining()) == first_seen(C), it.snapshot@.remaining().len() == child_items(C).len(),
        removing(child_groups@, it.snapshot@.remaining(), C, it.index@ as int),
        map_items(entries@) == b3 + child_items(C).take(it.index@ as int),
//@ hint `let group = child_groups.remove(key)..` before
    let ghost j = it.index@ as int;
    let ghost m0 = child_groups@;
    proof { lemma_removing(m0, it.snapshot@.remaining(), C, j); lemma_child_step(child_items(C), j); lemma_more(b3, child_items(C).take(j), seq![child_items(C)[j]]); lemma_map_items(); lemma_vals_first(m0[key@]@); }
//@ hint `if let Some(fields) = fields { for field..` before
    let ghost b4 = map_items(entries@);
    let ghost U = strs(used_names@);
    proof {
        lemma_child_end(C);
        assert(b4 == b3 + child_items(C));
        assert(U == P + node_names(C));
        lemma_none(b4);
        if fields is Some { lemma_omit_end(strs(fields.unwrap()@), U); lemma_strs_len(fields.unwrap()@); }
    }
//@ loop #4
    invariant
        shared(it.snapshot@.remaining(), fields@), strs(used_names@) == U, strs(fields@).len() == fields@.len(),
        map_items(entries@) == b4 + omitted(strs(fields@).take(it.index@ as int), U),
//@ hint `if !vx_starts(field, '#')..` before
    proof {
        let (f, j) = (strs(fields@), it.index@ as int);
        reveal(strs);
        lemma_omit_step(f, j, U);
        lemma_more(b4, omitted(f.take(j), U), opt_item(!(f[j].len() > 0 && f[j][0] == '#') && !U.contains(f[j]), f[j], Content::Omitted));
        lemma_opt(map_items(entries@), !(f[j].len() > 0 && f[j][0] == '#') && !U.contains(f[j]), f[j], Content::Omitted);
        lemma_map_items();
    }
//@ hint tail
    proof {
        assert(F is Some ==> map_items(entries@) == b4 + omitted(F.unwrap(), U));
        assert(vx_ret.items() =~= map_items(entries@)) by { reveal(map_items); }
        lemma_none(b4);
    }
//@ end
