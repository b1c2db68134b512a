//# properties C13
//# covers C13: attaching processors, adding processors and (nested) subprocessors, the provenance chain
//# include core.inc
fn main() {}
