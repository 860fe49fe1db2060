//@ source src/node.rs
//@ enum NodeKey

// ---- What the property says, over a node's entry sequence.

/// The text of an entry's name.
pub open spec fn named(e: KdlEntry, k: Seq<char>) -> bool { e.name.is_some() && e.name.unwrap().value@ == k }
pub open spec fn is_arg(e: KdlEntry) -> bool { e.name.is_none() }
/// How many arguments the sequence holds.
pub open spec fn args(s: Seq<KdlEntry>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { args(s.drop_last()) + (if is_arg(s.last()) { 1nat } else { 0 }) }
}
/// Entry `i` is argument number `n`.
pub open spec fn arg_at(s: Seq<KdlEntry>, n: nat, i: int) -> bool {
    0 <= i < s.len() && is_arg(s[i]) && args(s.take(i)) == n
}
pub open spec fn last_named(s: Seq<KdlEntry>, k: Seq<char>, i: int) -> bool {
    0 <= i < s.len() && named(s[i], k) && forall|j: int| i < j < s.len() ==> !named(s[j], k)
}
pub open spec fn first_named(s: Seq<KdlEntry>, k: Seq<char>, i: int) -> bool {
    0 <= i < s.len() && named(s[i], k) && forall|j: int| 0 <= j < i ==> !named(s[j], k)
}
pub open spec fn none_named(s: Seq<KdlEntry>, k: Seq<char>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> !named(s[j], k)
}
/// The entry a key looks up: argument number n, or the last property so named.
pub open spec fn looks_up(s: Seq<KdlEntry>, key: NodeKey, i: int) -> bool {
    match key { NodeKey::Key(k) => last_named(s, k.value@, i), NodeKey::Index(n) => arg_at(s, n as nat, i) }
}
/// The key looks up nothing.
pub open spec fn absent(s: Seq<KdlEntry>, key: NodeKey) -> bool {
    match key { NodeKey::Key(k) => none_named(s, k.value@), NodeKey::Index(n) => args(s) <= n }
}
/// The entry a key removes: argument number n, or the first property so named.
pub open spec fn takes_out(s: Seq<KdlEntry>, key: NodeKey, i: int) -> bool {
    match key { NodeKey::Key(k) => first_named(s, k.value@, i), NodeKey::Index(n) => arg_at(s, n as nat, i) }
}
/// The only failures: inserting under another name or a named entry at a position, and positions out of range.
pub open spec fn insert_panics(s: Seq<KdlEntry>, key: NodeKey, e: KdlEntry) -> bool {
    match key { NodeKey::Key(k) => e.name.is_some() && e.name.unwrap().value@ != k.value@, NodeKey::Index(n) => e.name.is_some() || args(s) < n }
}
pub open spec fn remove_panics(s: Seq<KdlEntry>, key: NodeKey) -> bool {
    match key { NodeKey::Key(k) => false, NodeKey::Index(n) => args(s) <= n }
}
/// Everything but the entries is as it was.
pub open spec fn same_shell(a: KdlNode, b: KdlNode) -> bool {
    a.ty == b.ty && a.name == b.name && a.children == b.children && a.format == b.format && a.span == b.span
}

pub proof fn lemma_args_take(s: Seq<KdlEntry>, i: int)
    requires 0 <= i < s.len(),
    ensures args(s.take(i + 1)) == args(s.take(i)) + (if is_arg(s[i]) { 1nat } else { 0 }), args(s.take(0)) == 0,
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
pub proof fn lemma_args_all(s: Seq<KdlEntry>)
    ensures args(s.take(s.len() as int)) == args(s), args(s) <= s.len(),
    decreases s.len(),
{
    assert(s.take(s.len() as int) =~= s);
    if s.len() > 0 { lemma_args_all(s.drop_last()); }
}
pub proof fn lemma_args_mono(s: Seq<KdlEntry>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures args(s.take(i)) <= args(s.take(j)),
    decreases j - i,
{
    if i < j { lemma_args_take(s, j - 1); lemma_args_mono(s, i, j - 1); }
}
/// An argument number names one entry only, and lookup and absence exclude each other.
pub proof fn lemma_arg_unique(s: Seq<KdlEntry>, n: nat, i: int, j: int)
    requires arg_at(s, n, i), arg_at(s, n, j),
    ensures i == j, n < args(s),
{
    lemma_args_all(s);
    lemma_args_take(s, i);
    lemma_args_take(s, j);
    if i < j { lemma_args_mono(s, i + 1, j); }
    if j < i { lemma_args_mono(s, j + 1, i); }
    lemma_args_mono(s, i + 1, s.len() as int);
}

/// Scanning for a name, after `n` entries: `cur` is the last match among them.
pub open spec fn last_so_far(s: Seq<KdlEntry>, k: Seq<char>, n: int, cur: Option<&KdlEntry>) -> bool {
    match cur {
        None => forall|j: int| 0 <= j < n ==> !named(s[j], k),
        Some(c) => exists|i: int| 0 <= i < n && named(s[i], k) && *c == s[i] && forall|j: int| i < j < n ==> !named(s[j], k),
    }
}

#[verifier::prophetic]
pub open spec fn mut_last_so_far(s: Seq<KdlEntry>, t: Seq<KdlEntry>, k: Seq<char>, n: int, ci: int, cur: Option<&mut KdlEntry>) -> bool {
    &&& cur.is_some() == (ci >= 0)
    &&& cur.is_some() ==> *cur.unwrap() == s[ci] && *final(cur.unwrap()) == t[ci] && named(s[ci], k)
    &&& forall|j: int| ci < j < n ==> !named(s[j], k)
    &&& forall|j: int| 0 <= j < n && j != ci ==> t[j] == s[j]
}

