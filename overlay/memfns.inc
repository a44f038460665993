// Contracts of std functions the code under test may use (TRUSTED).
pub assume_specification<T>[core::mem::replace](dest: &mut T, src: T) -> (res: T) ensures res == *old(dest), *final(dest) == src;
pub assume_specification<T: Default>[core::mem::take](dest: &mut T) -> (res: T) ensures res == *old(dest), call_ensures(T::default, (), *final(dest));
pub assume_specification<T>[std::option::Option::<T>::replace](o: &mut Option<T>, v: T) -> (res: Option<T>) ensures res == *old(o), *final(o) == Some(v);
// TRUSTED: dropping a value has no effect the contracts mention
pub assume_specification<T>[core::mem::drop](_0: T);
pub assume_specification<T>[std::option::Option::<T>::or](o: Option<T>, p: Option<T>) -> (res: Option<T>) ensures res == (if o is Some { o } else { p });
pub assume_specification<T: Ord>[core::cmp::min](a: T, b: T) -> (res: T) ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> res == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: Ord>[core::cmp::max](a: T, b: T) -> (res: T) ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> res == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { a } else { b });
