// ---- camino paths: opaque values whose view is their text ----
#[verifier::external_body]
pub struct Utf8PathBuf { _p: u8 }
#[verifier::external_body]
pub struct Utf8Path { _p: u8 }
impl View for Utf8PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl View for Utf8Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct Package { _p: u8 }
#[verifier::external_body]
pub struct Function { _p: u8 }
