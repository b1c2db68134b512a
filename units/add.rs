//# properties C01 C05 C10 C12
//# covers C01: adding elements, with nested new elements and in a place or not
//# covers C05: adding elements, with nested new elements and in a place or not: where everything ends up, and that nothing else changes
//# covers C10: that what was added reads back as given, and that adding elements never alters the attributes of others
//# covers C12: the back references that adding an element and all the new elements in it leads to, one for each reference, and no others
//# include core.inc
verus! {
//# include encode_lemmas.inc
//# include add_lemmas.inc
}
fn main() {}
