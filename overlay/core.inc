//@include core_head.inc
//@include core_seq.inc
//@include core_tail.inc
//@include core_rewind.inc
