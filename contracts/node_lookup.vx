//@ source src/identifier.rs
//@ fn KdlIdentifier::value ret r
    ensures r@ == self.value@,
//@ end

#[verifier::external_body]
pub fn clone_identifier(i: &KdlIdentifier) -> (r: KdlIdentifier)
    ensures r == *i,
{ unimplemented!() }

//@ source src/node.rs
//@ rewrite `key_val.clone()` => `clone_identifier(key_val)`
//@ rewrite `impl Into<NodeKey>` => `NodeKey`
//@ rewrite `impl Into<KdlEntry>` => `KdlEntry`
//@ rewrite `key.into()` => `key`
//@ rewrite `entry.into()` => `entry`
//@ rewrite `std::mem::swap(existing, &mut entry)` => `core::mem::swap(existing, &mut entry)`

//@ fn KdlNode::entry_impl ret r
    ensures
        r.is_none() <==> absent(self.entries@, key),
        r.is_some() ==> exists|i: int| looks_up(self.entries@, key, i) && *r.unwrap() == self.entries@[i],
//@ loop `for entry in &self.entries`
    invariant
        it.snapshot@.remaining().len() == self.entries@.len(),
        forall|j: int| 0 <= j < self.entries@.len() ==> *it.snapshot@.remaining()[j] == self.entries@[j],
        last_so_far(self.entries@, key.value@, it.index@, current),
//@ loop `for entry in &self.entries` #1
    invariant
        it.snapshot@.remaining().len() == self.entries@.len(),
        forall|j: int| 0 <= j < self.entries@.len() ==> *it.snapshot@.remaining()[j] == self.entries@[j],
        current_idx == args(self.entries@.take(it.index@ as int)),
        key == NodeKey::Index(idx), current_idx <= idx, it.index@ <= self.entries@.len(), current_idx <= it.index@,
//@ hint `if entry.name.is_none()..` before
    proof { lemma_args_take(self.entries@, it.index@ as int); lemma_args_mono(self.entries@, it.index@ + 1, self.entries@.len() as int); lemma_args_all(self.entries@); }
//@ hint `return Some(entry)` before
    proof { assert(arg_at(self.entries@, idx as nat, it.index@ as int)); lemma_arg_unique(self.entries@, idx as nat, it.index@ as int, it.index@ as int); assert(looks_up(self.entries@, key, it.index@ as int)); }
//@ hint `None` before
    proof { lemma_args_all(self.entries@); }
//@ end

//@ fn KdlNode::entry_mut_impl ret r
    ensures
        same_shell(*old(self), *final(self)),
        r.is_none() <==> absent(old(self).entries@, key),
        r.is_none() ==> final(self).entries@ == old(self).entries@,
        r.is_some() ==> exists|i: int| #[trigger] looks_up(old(self).entries@, key, i) && *r.unwrap() == old(self).entries@[i]
            && final(self).entries@ =~= old(self).entries@.update(i, *final(r.unwrap())),
//@ loop `for entry in &mut self.entries`
    invariant
        it.snapshot@.remaining().len() == old(self).entries@.len(),
        final(self).entries@.len() == old(self).entries@.len(),
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *it.snapshot@.remaining()[j] == old(self).entries@[j],
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *final(it.snapshot@.remaining()[j]) == final(self).entries@[j],
        -1 <= ci < it.index@,
        same_shell(*old(self), *final(self)),
        mut_last_so_far(old(self).entries@, final(self).entries@, key.value@, it.index@, ci, current),
//@ hint `let mut current = None` after
    let ghost mut ci: int = -1;
//@ hint `current = Some(entry)` after
    proof { ci = it.index@; }
//@ hint `current` before
    proof { if ci >= 0 { assert(last_named(old(self).entries@, key.value@, ci)); assert(looks_up(old(self).entries@, NodeKey::Key(key), ci)); } }
//@ loop `for entry in &mut self.entries` #1
    invariant
        it.snapshot@.remaining().len() == old(self).entries@.len(),
        final(self).entries@.len() == old(self).entries@.len(),
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *it.snapshot@.remaining()[j] == old(self).entries@[j],
        forall|j: int| 0 <= j < old(self).entries@.len() ==> *final(it.snapshot@.remaining()[j]) == final(self).entries@[j],
        forall|j: int| 0 <= j < it.index@ ==> final(self).entries@[j] == old(self).entries@[j],
        same_shell(*old(self), *final(self)),
        current_idx == args(old(self).entries@.take(it.index@ as int)),
        key == NodeKey::Index(idx), current_idx <= idx, it.index@ <= old(self).entries@.len(), current_idx <= it.index@,
//@ hint `if entry.name.is_none()..` before
    proof { lemma_args_take(old(self).entries@, it.index@ as int); lemma_args_mono(old(self).entries@, it.index@ + 1, old(self).entries@.len() as int); lemma_args_all(old(self).entries@); }
//@ hint `return Some(entry)` before
    proof { assert(arg_at(old(self).entries@, idx as nat, it.index@ as int)); lemma_arg_unique(old(self).entries@, idx as nat, it.index@ as int, it.index@ as int); assert(looks_up(old(self).entries@, key, it.index@ as int)); }
//@ hint `None` before
    proof { lemma_args_all(old(self).entries@); }
//@ end

//@ fn KdlNode::entry ret r
    ensures
        r.is_none() <==> absent(self.entries@, key),
        r.is_some() ==> exists|i: int| looks_up(self.entries@, key, i) && *r.unwrap() == self.entries@[i],
//@ end

//@ fn KdlNode::entry_mut ret r
    ensures
        same_shell(*old(self), *final(self)),
        r.is_none() <==> absent(old(self).entries@, key),
        r.is_none() ==> final(self).entries@ == old(self).entries@,
        r.is_some() ==> exists|i: int| #[trigger] looks_up(old(self).entries@, key, i) && *r.unwrap() == old(self).entries@[i]
            && final(self).entries@ =~= old(self).entries@.update(i, *final(r.unwrap())),
//@ end

//@ fn KdlNode::get ret r
    ensures
        r.is_none() <==> absent(self.entries@, key),
        r.is_some() ==> exists|i: int| looks_up(self.entries@, key, i) && *r.unwrap() == self.entries@[i].value,
//@ end

//@ fn KdlNode::get_mut ret r
    ensures
        same_shell(*old(self), *final(self)),
        r.is_none() <==> absent(old(self).entries@, key),
        r.is_none() ==> final(self).entries@ == old(self).entries@,
        r.is_some() ==> exists|i: int| #[trigger] looks_up(old(self).entries@, key, i) && *r.unwrap() == old(self).entries@[i].value
            && final(self).entries@ =~= old(self).entries@.update(i, KdlEntry { value: *final(r.unwrap()), ..old(self).entries@[i] }),
//@ end

