//! Only there to have json_quote built.
