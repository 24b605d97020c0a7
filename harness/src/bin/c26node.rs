//! A process which does what C26 asks, with the library in the configuration it was built with.
fn main() { vh::node::serve() }
