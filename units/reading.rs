//# properties C10
//# covers C10: reading set, class, subset, processor and annotator of an element back
//# include core.inc
fn main() {}
