macro_rules! extra1 { ($v:ident, $f:ident) => {} }
macro_rules! extra2 { ($v:ident, $f:ident) => {} }
macro_rules! extra3 { ($v:ident, $f:ident) => {} }
