// Primitives known to the analyser by name.  None of this is ever executed.

/// An arbitrary value of the type, named for the report.
pub fn nd<T>(_name: &'static str) -> T { loop {} }
/// Restrict the analysis to states satisfying the condition.
pub fn assume(_c: bool) {}
/// Obligation: the condition holds in every state reaching this point.
pub fn claim(_name: &'static str, _c: bool) {}
/// Obligation: some state reaches this point.
pub fn reach(_name: &'static str) {}
/// Overwrite the bytes with arbitrary ones.
pub fn havoc(_b: &mut [u8], _name: &'static str) {}
/// Was the list of descriptors (or the text) read from exactly these bytes and nothing else?
pub fn read_from<T>(_v: &T, _b: &[u8]) -> bool { loop {} }
/// A string of these characters.
pub fn str_of(_c: &[char]) -> &str { loop {} }
/// The characters written to formatters so far.
pub fn written() -> Vec<char> { loop {} }
