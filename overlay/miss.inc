pub mod errors { use super::*;
//@take util_error struct Miss
//@impl util_error ParseError Miss
//@inject
    open spec fn fatal(&self) -> bool { false }
//@end
}
pub use errors::*;
impl<E> FromSpecImpl<E> for Miss<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: E) -> Self { Miss(v) }
}
//@impl util_error From Miss
//@end
