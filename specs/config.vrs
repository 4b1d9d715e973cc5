use vstd::prelude::*;
verus! {
//%include shim_core.vrs
//%include shim_pathonly.vrs
/// the settings of a config file (which settings there are, and their defaults, are derived by serde: assumed here,
/// compared with the documentation by the bounded layer)
#[verifier::external_body]
pub struct Config { _p: u8 }
/// a config with nothing set
pub uninterp spec fn s_default() -> Config;
/// the settings that a text in TOML makes; None if it is not TOML or has an unknown key or a value of a wrong type
pub uninterp spec fn s_parse(text: Seq<char>) -> Option<Config>;
impl Config { #[verifier::external_body] pub fn default() -> (r: Config) ensures r == s_default() { unimplemented!() } }
// ---- files ----
pub uninterp spec fn s_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn s_exists(p: Seq<char>) -> bool;
pub uninterp spec fn s_text(p: Seq<char>) -> Option<Seq<char>>;
//%shim Path => Utf8Path
pub trait VCtx<T>: Sized { spec fn val(self) -> Option<T>; fn v_ctx(self) -> (r: Result<T>) ensures r is Ok <==> self.val() is Some, r matches Ok(v) ==> self.val() == Some(v); }
impl<T> VCtx<T> for core::result::Result<T, Error> { open spec fn val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn v_ctx(self) -> (r: Result<T>) { match self { Ok(v) => Ok(v), Err(_) => Err(v_err()) } } }
#[verifier::external_body]
pub fn read_to_string(p: &Utf8Path) -> (r: Result<String>) ensures r is Ok <==> s_text(p@) is Some, r matches Ok(s) ==> s_text(p@) == Some(s@) { unimplemented!() }
pub trait VTxt { spec fn tx(&self) -> Seq<char>; }
impl VTxt for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VTxt for str { open spec fn tx(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn v_toml<S: VTxt + ?Sized>(s: &S) -> (r: Result<Config>) ensures r is Ok <==> s_parse(s.tx()) is Some, r matches Ok(c) ==> s_parse(s.tx()) == Some(c) { unimplemented!() }
pub trait VPth { spec fn pp(&self) -> Seq<char>;
    fn join(&self, s: &str) -> (r: Utf8PathBuf) ensures r@ == s_join(self.pp(), s@);
    fn exists(&self) -> (r: bool) ensures r == s_exists(self.pp());
    fn is_file(&self) -> (r: bool) ensures r ==> s_exists(self.pp());
    fn as_ref(&self) -> (r: &Utf8Path) ensures r@ == self.pp(); }
impl VPth for Utf8Path { open spec fn pp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn join(&self, s: &str) -> (r: Utf8PathBuf) { unimplemented!() }
    #[verifier::external_body]
    fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &Utf8Path) { unimplemented!() } }
impl VPth for Utf8PathBuf { open spec fn pp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn join(&self, s: &str) -> (r: Utf8PathBuf) { unimplemented!() }
    #[verifier::external_body]
    fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &Utf8Path) { unimplemented!() } }
//%fn config.rs <Config as FromStr>::from_str
//%free
//%as config_from_str
//%opaque 1 `toml::de::from_str` => `v_toml`
//%rettype Result<Config>
//%spec
    ensures r is Ok <==> s_parse(s@) is Some, r matches Ok(c) ==> s_parse(s@) == Some(c),
//%end
impl Config { pub fn from_str(s: &String) -> (r: Result<Config>) ensures r is Ok <==> s_parse(s@) is Some, r matches Ok(c) ==> s_parse(s@) == Some(c) { config_from_str(s.as_str()) } }
//%fn config.rs Config::read_file
//%spec
    ensures r matches Ok(c) ==> s_text(path@) matches Some(t) && s_parse(t) == Some(c),
        (s_text(path@) matches Some(t) && s_parse(t) is Some) ==> r is Ok,
//%end
/// where the config of a tree is
pub open spec fn tree_file(dir: Seq<char>) -> Seq<char> { s_join(s_join(dir, ".cargo"@), "mutants.toml"@) }
//%fn config.rs Config::read_tree_config
//%spec
    ensures r matches Ok(c) ==> if s_exists(tree_file(workspace_dir@)) { (s_text(tree_file(workspace_dir@)) matches Some(t) && s_parse(t) == Some(c)) } else { c == s_default() },
        !s_exists(tree_file(workspace_dir@)) ==> r is Ok,
//%end
} // verus!
fn main() {}
