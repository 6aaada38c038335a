//! Stand-in: the message types are plain structs, nothing is encoded.
