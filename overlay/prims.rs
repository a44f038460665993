//@include prims.inc
/// Peeking (the trait has a generic associated type, which Verus does not take; here the peeked sequence is of the same type).
pub mod peeks { use super::*;
broadcast use seg_lemmas::skip_none;
pub trait PeekableSequence: Sequence {
    fn peek(&mut self) -> (res: Self)
        ensures res.items() == old(self).items(), final(self).items() == old(self).items(), Self::moved(*old(self), 0, *final(self));
}
//@impl pstr PeekableSequence &str as=PeekableSequence
//@end
//@impl pslice PeekableSequence &[T] as=PeekableSequence
//@end
}
/// the length of nothing
pub proof fn zero_is_nothing() ensures BytesDelta::ZERO.to_nat() == 0 {}
impl BytesDelta { pub open spec fn to_nat(self) -> nat { self.0 as nat } }
}
fn main() {}
