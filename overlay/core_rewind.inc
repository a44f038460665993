//@impl unknown - UnknownLocation only=rewind
//@fn rewind
    ensures S::at($0, res),
//@end

