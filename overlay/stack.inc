/// what the parsers need of the small vector: it is a stack. `shortvec.rs` proves these of the real one.
pub open spec fn stack_new<T>(a: Seq<T>) -> bool { a == Seq::<T>::empty() }
pub open spec fn stack_empty<T>(a: Seq<T>, r: bool) -> bool { r == (a.len() == 0) }
pub open spec fn stack_push<T>(a: Seq<T>, v: T, b: Seq<T>) -> bool { b == a.push(v) }
pub open spec fn stack_pop<T>(a: Seq<T>, r: Option<T>, b: Seq<T>) -> bool {
    &&& a.len() == 0 ==> r is None && b == a
    &&& a.len() > 0 ==> r == Some(a.last()) && b == a.drop_last()
}
