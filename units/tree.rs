//# properties C05
//# covers C05: attaching, detaching and adding elements (with nested new elements)
//# include core.inc
fn main() {}
