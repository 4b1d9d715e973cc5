// ---- what Display prints for strings (assumed: the characters themselves) ----
pub trait VDisp { spec fn disp(&self) -> Seq<char>; fn v_fmt(&self) -> (r: String) ensures r@ == self.disp(); }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_fmt(&self) -> (r: String) { unimplemented!() } }
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_fmt(&self) -> (r: String) { unimplemented!() } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    #[verifier::external_body]
    fn v_fmt(&self) -> (r: String) { unimplemented!() } }
pub fn v_disp<T: VDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { x.v_fmt() }
