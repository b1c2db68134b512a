//# properties C12
//# covers C12: what happens to an element once it is in its place: the back references of what is referred to, and the set of a layer
//# include core.inc
fn main() {}
