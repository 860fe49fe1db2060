// ---- The constructors and mutators make and keep what carries no custom formatting (C03).
//@ comb on
//@ rewrite `impl Into` => `impl VxInto`
//@ rewrite `SourceSpan::from(0..0)` => `(0usize..0usize).vx_into()`
//@ rewrite `(0..0).into()` => `(0usize..0usize).vx_into()`
//@ rewrite `..Default::default()` => `..VxDefault::vx_default()`
//@ rewrite `value.to_string()` => `vx_string(value)`
//@ source src/identifier.rs
//@ fn <From<String> for KdlIdentifier>::from as vx_from_string ret r
    ensures r.value == value, r.repr is None,
//@ end
//@ fn <From<&str> for KdlIdentifier>::from as vx_from_str ret r
    ensures r.value@ == value@, r.repr is None,
//@ end
impl<'a> VxInto<KdlIdentifier> for &'a str {
    open spec fn into_ens(self, r: KdlIdentifier) -> bool { r.value@ == self@ && r.repr is None }
    fn vx_into(self) -> (r: KdlIdentifier) { KdlIdentifier::vx_from_str(self) }
}
impl VxInto<KdlIdentifier> for String {
    open spec fn into_ens(self, r: KdlIdentifier) -> bool { r.value == self && r.repr is None }
    fn vx_into(self) -> (r: KdlIdentifier) { KdlIdentifier::vx_from_string(self) }
}
//@ fn KdlIdentifier::value ret r
    ensures r@ == self.value@,
//@ end
//@ fn KdlIdentifier::set_value
    ensures value.into_ens(final(self).value), final(self).repr == old(self).repr,
//@ end
//@ source src/value.rs
//@ fn <From<i128> for KdlValue>::from as vx_from_i128 ret r
    ensures r == KdlValue::Integer(value),
//@ end
//@ fn <From<f64> for KdlValue>::from as vx_from_f64 ret r
    ensures r == KdlValue::Float(value),
//@ end
//@ fn <From<&str> for KdlValue>::from as vx_from_str ret r
    ensures r matches KdlValue::String(s) && s@ == value@,
//@ end
//@ fn <From<String> for KdlValue>::from as vx_from_string ret r
    ensures r == KdlValue::String(value),
//@ end
//@ fn <From<bool> for KdlValue>::from as vx_from_bool ret r
    ensures r == KdlValue::Bool(value),
//@ end
//@ fn <From<Option<T>> for KdlValue>::from as vx_from_option ret r
//@ rewrite `value: Option<T>` => `value: Option<impl VxInto<KdlValue>>`
    ensures value matches Some(v) ==> v.into_ens(r), value is None ==> r is Null,
//@ end
//@ source src/entry.rs
//@ fn KdlEntry::new ret r
    ensures value.into_ens(r.value), r.name is None, r.ty is None, r.format is None, bare_entry(r),
//@ end
//@ fn KdlEntry::new_prop ret r
    ensures value.into_ens(r.value), r.name matches Some(n) && key.into_ens(n) && (bare_name(n) ==> bare_entry(r)), r.ty is None, r.format is None,
//@ end
//@ fn <From<T> for KdlEntry>::from as vx_from_value ret r
//@ rewrite `value: T` => `value: impl VxInto<KdlValue>`
    ensures value.into_ens(r.value), r.name is None, r.ty is None, bare_entry(r),
//@ end
//@ fn <From<(K, V)> for KdlEntry>::from as vx_from_pair ret r
//@ rewrite `(key, value): (K, V)` => `key: impl VxInto<KdlIdentifier>, value: impl VxInto<KdlValue>`
    ensures value.into_ens(r.value), r.name matches Some(n) && key.into_ens(n) && (bare_name(n) ==> bare_entry(r)), r.ty is None,
//@ end
pub open spec fn entry_rest(a: KdlEntry, b: KdlEntry) -> bool { a.span == b.span && a.format == b.format }
//@ fn KdlEntry::set_name
    ensures entry_rest(*old(self), *final(self)), final(self).value == old(self).value, final(self).ty == old(self).ty,
        name matches Some(n) ==> (final(self).name matches Some(m) && n.into_ens(m)), name is None ==> final(self).name is None,
//@ end
//@ fn KdlEntry::set_ty
    ensures entry_rest(*old(self), *final(self)), final(self).value == old(self).value, final(self).name == old(self).name, final(self).ty matches Some(m) && ty.into_ens(m),
//@ end
//@ fn KdlEntry::set_value
    ensures entry_rest(*old(self), *final(self)), final(self).name == old(self).name, final(self).ty == old(self).ty, value.into_ens(final(self).value),
//@ end
//@ fn KdlEntry::value ret r
    ensures *r == self.value,
//@ end
//@ fn KdlEntry::value_mut ret r
    ensures *r == old(self).value, *final(self) == (KdlEntry { value: *final(r), ..*old(self) }),
//@ end
//@ source src/document.rs
//@ fn KdlDocument::new as vx_new ret r
//@ rewrite `Default::default()` => `KdlDocument::vx_dflt()`
    ensures r.nodes@.len() == 0, r.format is None, bare_doc(r),
//@ end
//@ fn <Default for KdlDocument>::default as vx_dflt ret r
//@ rewrite `Default::default()` => `VxDefault::vx_default()`
    ensures r.nodes@.len() == 0, r.format is None,
//@ end
//@ fn KdlDocument::nodes ret r
    ensures r@ == self.nodes@,
//@ end
//@ fn KdlDocument::nodes_mut ret r
    ensures *r == old(self).nodes, *final(self) == (KdlDocument { nodes: *final(r), ..*old(self) }),
//@ end
//@ rewrite `KdlDocument::new()` => `KdlDocument::vx_new()`
//@ source src/node.rs
//@ fn KdlNode::new ret r
//@ rewrite `"\n".into()` => `vx_string("\n")`
    ensures name.into_ens(r.name), r.ty is None, r.entries@.len() == 0, r.children is None, plain_format(r.format), bare_name(r.name) ==> bare_node(r),
//@ hint top
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }
//@ end
//@ fn KdlNode::set_name
    ensures name.into_ens(final(self).name), *final(self) == (KdlNode { name: final(self).name, ..*old(self) }),
//@ end
//@ fn KdlNode::set_ty
    ensures final(self).ty matches Some(t) && ty.into_ens(t), *final(self) == (KdlNode { ty: final(self).ty, ..*old(self) }),
//@ end
//@ fn KdlNode::push
    ensures final(self).entries@.len() == old(self).entries@.len() + 1, entry.into_ens(final(self).entries@.last()), final(self).entries@.drop_last() =~= old(self).entries@, *final(self) == (KdlNode { entries: final(self).entries, ..*old(self) }),
//@ end
//@ fn KdlNode::name_mut ret r
    ensures *r == old(self).name, *final(self) == (KdlNode { name: *final(r), ..*old(self) }),
//@ end
//@ fn KdlNode::ty_mut ret r
    ensures *r == old(self).ty, *final(self) == (KdlNode { ty: *final(r), ..*old(self) }),
//@ end
//@ fn KdlNode::entries_mut ret r
    ensures *r == old(self).entries, *final(self) == (KdlNode { entries: *final(r), ..*old(self) }),
//@ end
//@ fn KdlNode::children_mut ret r
    ensures *r == old(self).children, *final(self) == (KdlNode { children: *final(r), ..*old(self) }),
//@ end
//@ fn KdlNode::set_children
    ensures *final(self) == (KdlNode { children: Some(children), ..*old(self) }),
//@ end
//@ fn KdlNode::clear_children
    ensures *final(self) == (KdlNode { children: None, ..*old(self) }),
//@ end
//@ fn KdlNode::ensure_children ret r
    ensures old(self).children matches Some(c) ==> *r == c, old(self).children is None ==> r.nodes@.len() == 0 && bare_doc(*r), *final(self) == (KdlNode { children: Some(*final(r)), ..*old(self) }),
//@ end
//@ fn KdlNode::clear
    ensures final(self).entries@.len() == 0, *final(self) == (KdlNode { entries: final(self).entries, ..*old(self) }),
//@ end
