// Stands in for the crate of that name, whose only effect is a linker flag.
