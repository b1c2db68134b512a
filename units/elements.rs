//# properties C05 C10
//# covers C05: the operations of ElementData on its list of children
//# covers C10: which of set, class, subset and processor an element holds, encoded or not
//# include core.inc
fn main() {}
