//# properties C10
//# covers C10: encoding of the attributes of an element when it is added, and that what it reads back as is what was given, then and later
//# include core.inc
verus! {
//# include encode_lemmas.inc
}
fn main() {}
