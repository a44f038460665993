// Contracts of std functions the code under test uses (TRUSTED).
#[verifier::external_trait_specification]
pub trait ExExtend<A> { type ExternalTraitSpecificationFor: Extend<A>;
    fn extend<T: IntoIterator<Item = A>>(&mut self, iter: T) ensures extended::<Self, A>(old(self), items_of::<T>(iter), final(self)); }
/// `b` is collection `a` extended by the items
pub uninterp spec fn extended<C: ?Sized, A>(a: &C, items: Seq<A>, b: &C) -> bool;
/// the items `iter` will yield
pub uninterp spec fn items_of<T: IntoIterator>(iter: T) -> Seq<T::Item>;
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct ExOnce<T>(std::iter::Once<T>);
pub assume_specification<T>[std::iter::once](v: T) -> (r: std::iter::Once<T>) ensures items_of(r) == seq![v];
pub broadcast axiom fn ax_items_option<T>(o: Option<T>) ensures #[trigger] items_of::<Option<T>>(o) == (match o { Some(v) => seq![v], None => seq![] });
pub broadcast axiom fn ax_items_array<T>(o: [T; 1]) ensures #[trigger] items_of::<[T; 1]>(o) == seq![o[0]];
