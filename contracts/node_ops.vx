//@ include prelude.vx
//@ include types.vx
//@ include node_spec.vx
// ---- Contracts on the real functions.

//@ include node_lookup.vx
//@ fn KdlNode::insert_impl ret r
//@ attr #[verifier::loop_isolation(false)]
    ensures
        same_shell(*old(self), *final(self)),
        // inserting under a name replaces the last entry so named, or appends
        key matches NodeKey::Key(k) ==> {
            let e = if entry.name.is_none() { KdlEntry { name: Some(k), ..entry } } else { entry };
            &&& named(e, k.value@)
            &&& r.is_none() ==> none_named(old(self).entries@, k.value@) && final(self).entries@ =~= old(self).entries@.push(e)
            &&& r.is_some() ==> exists|i: int| #[trigger] last_named(old(self).entries@, k.value@, i) && r.unwrap() == old(self).entries@[i]
                && final(self).entries@ =~= old(self).entries@.update(i, e)
        },
        // inserting at a position makes the entry that argument
        key matches NodeKey::Index(n) ==> r.is_none() && is_arg(entry) && n <= args(old(self).entries@)
            && (n == args(old(self).entries@) ==> final(self).entries@ =~= old(self).entries@.push(entry))
            && (n < args(old(self).entries@) ==> exists|i: int| #[trigger] arg_at(old(self).entries@, n as nat, i) && final(self).entries@ =~= old(self).entries@.insert(i, entry)),
//@ panics insert_panics(old(self).entries@, key, old_entry)
//@ hint top
    let ghost old_entry = entry;
//@ loop `for (idx_existing, existing) in self.entries.iter().enumerate()`
    invariant
        it.snapshot@.remaining().len() == self.entries@.len(),
        forall|j: int| 0 <= j < self.entries@.len() ==> *it.snapshot@.remaining()[j] == self.entries@[j],
        current_idx == args(self.entries@.take(it.index@ as int)),
        vx_count1 == it.index@, self.entries.len() <= usize::MAX,
        *self == *old(self), entry == old_entry, is_arg(entry), key == NodeKey::Index(idx),
        current_idx <= idx, it.index@ <= self.entries@.len(), current_idx <= it.index@,
//@ hint `if existing.name.is_none()..` before
    proof { lemma_args_take(self.entries@, it.index@ as int); lemma_args_mono(self.entries@, it.index@ + 1, self.entries@.len() as int); lemma_args_all(self.entries@); }
//@ hint `self.entries.insert(idx_existing, entry)` before
    proof { assert(arg_at(old(self).entries@, idx as nat, it.index@ as int)); lemma_arg_unique(old(self).entries@, idx as nat, it.index@ as int, it.index@ as int); }
//@ hint `if idx > current_idx..` before
    proof { lemma_args_all(self.entries@); }
//@ end

//@ fn KdlNode::remove_impl ret r
//@ attr #[verifier::loop_isolation(false)]
    ensures
        same_shell(*old(self), *final(self)),
        r.is_none() ==> final(self).entries@ =~= old(self).entries@ && (key matches NodeKey::Key(k) && none_named(old(self).entries@, k.value@)),
        r.is_some() ==> exists|i: int| #[trigger] takes_out(old(self).entries@, key, i) && r.unwrap() == old(self).entries@[i]
            && final(self).entries@ =~= old(self).entries@.remove(i),
//@ panics remove_panics(old(self).entries@, key)
//@ loop `for (idx, entry) in self.entries.iter().enumerate()`
    invariant
        it.snapshot@.remaining().len() == self.entries@.len(),
        forall|j: int| 0 <= j < self.entries@.len() ==> *it.snapshot@.remaining()[j] == self.entries@[j],
        vx_count1 == it.index@, self.entries.len() <= usize::MAX, it.index@ <= self.entries@.len(),
        *self == *old(self),
        forall|j: int| 0 <= j < it.index@ ==> !named(self.entries@[j], key.value@),
//@ hint `return Some(self.entries.remove(idx))` before
    proof { assert(takes_out(old(self).entries@, NodeKey::Key(key), it.index@ as int)); }
//@ loop `for (idx_entry, entry) in self.entries.iter().enumerate()`
    invariant
        it.snapshot@.remaining().len() == self.entries@.len(),
        forall|j: int| 0 <= j < self.entries@.len() ==> *it.snapshot@.remaining()[j] == self.entries@[j],
        current_idx == args(self.entries@.take(it.index@ as int)),
        vx_count2 == it.index@, self.entries.len() <= usize::MAX,
        *self == *old(self), key == NodeKey::Index(idx),
        current_idx <= idx, it.index@ <= self.entries@.len(), current_idx <= it.index@,
//@ hint `if entry.name.is_none()..` before
    proof { lemma_args_take(self.entries@, it.index@ as int); lemma_args_mono(self.entries@, it.index@ + 1, self.entries@.len() as int); lemma_args_all(self.entries@); }
//@ hint `return Some(self.entries.remove(idx_entry))` before
    proof { assert(takes_out(old(self).entries@, key, it.index@ as int)); }
//@ hint `panic!(..` before
    proof { lemma_args_all(self.entries@); }
//@ end

//@ fn KdlNode::insert ret r
    ensures
        same_shell(*old(self), *final(self)),
        // inserting under a name replaces the last entry so named, or appends
        key matches NodeKey::Key(k) ==> {
            let e = if entry.name.is_none() { KdlEntry { name: Some(k), ..entry } } else { entry };
            &&& named(e, k.value@)
            &&& r.is_none() ==> none_named(old(self).entries@, k.value@) && final(self).entries@ =~= old(self).entries@.push(e)
            &&& r.is_some() ==> exists|i: int| #[trigger] last_named(old(self).entries@, k.value@, i) && r.unwrap() == old(self).entries@[i]
                && final(self).entries@ =~= old(self).entries@.update(i, e)
        },
        // inserting at a position makes the entry that argument
        key matches NodeKey::Index(n) ==> r.is_none() && is_arg(entry) && n <= args(old(self).entries@)
            && (n == args(old(self).entries@) ==> final(self).entries@ =~= old(self).entries@.push(entry))
            && (n < args(old(self).entries@) ==> exists|i: int| #[trigger] arg_at(old(self).entries@, n as nat, i) && final(self).entries@ =~= old(self).entries@.insert(i, entry)),
//@ end

//@ fn KdlNode::remove ret r
    ensures
        same_shell(*old(self), *final(self)),
        r.is_none() ==> final(self).entries@ =~= old(self).entries@ && (key matches NodeKey::Key(k) && none_named(old(self).entries@, k.value@)),
        r.is_some() ==> exists|i: int| #[trigger] takes_out(old(self).entries@, key, i) && r.unwrap() == old(self).entries@[i]
            && final(self).entries@ =~= old(self).entries@.remove(i),
//@ end

//@ fn KdlNode::len ret r
    ensures r == self.entries@.len(),
//@ end
//@ fn KdlNode::is_empty ret r
    ensures r == (self.entries@.len() == 0),
//@ end
//@ fn KdlNode::clear
    ensures final(self).entries@ =~= Seq::<KdlEntry>::empty(), same_shell(*old(self), *final(self)),
//@ end
//@ fn KdlNode::push
    ensures final(self).entries@ =~= old(self).entries@.push(entry), same_shell(*old(self), *final(self)),
//@ end
//@ fn KdlNode::entries ret r
    ensures r@ == self.entries@,
//@ end
//@ fn KdlNode::name ret r
    ensures *r == self.name,
//@ end
//@ fn KdlNode::ty ret r
    ensures r.is_some() == self.ty.is_some(), r.is_some() ==> *r.unwrap() == self.ty.unwrap(),
//@ end
//@ fn KdlNode::children ret r
    ensures r.is_some() == self.children.is_some(), r.is_some() ==> *r.unwrap() == self.children.unwrap(),
//@ end
//@ fn KdlNode::set_children
    ensures *final(self) == (KdlNode { children: Some(children), ..*old(self) }),
//@ end
//@ fn KdlNode::clear_children
    ensures *final(self) == (KdlNode { children: None, ..*old(self) }),
//@ end
//@ fn KdlNode::entries_mut ret r
    ensures *r == old(self).entries, *final(self) == (KdlNode { entries: *final(r), ..*old(self) }),
//@ end
//@ fn KdlNode::name_mut ret r
    ensures *r == old(self).name, *final(self) == (KdlNode { name: *final(r), ..*old(self) }),
//@ end
//@ fn KdlNode::children_mut ret r
    ensures *r == old(self).children, *final(self) == (KdlNode { children: *final(r), ..*old(self) }),
//@ end
//@ fn KdlNode::ty_mut ret r
    ensures *r == old(self).ty, *final(self) == (KdlNode { ty: *final(r), ..*old(self) }),
//@ end
//@ fn <From<usize> for NodeKey>::from as key_of_usize ret r
    ensures r == NodeKey::Index(key),
//@ end

} // verus!
fn main() {}
