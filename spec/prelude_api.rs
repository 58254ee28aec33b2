pub trait Serialize {}
// ---- http::StatusCode: which codes have a reason phrase is the http crate's business
pub struct StatusCode { pub code: u16 }
pub struct InvalidStatusCode;
pub uninterp spec fn reason(code: u16) -> Option<Seq<char>>;
impl StatusCode {
    #[verifier::external_body]
    pub fn from_u16(c: u16) -> (r: Result<StatusCode, InvalidStatusCode>)
        ensures match r { Ok(s) => s.code == c, Err(_) => reason(c) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn canonical_reason(&self) -> (r: Option<&'static str>)
        ensures match r { Some(t) => reason(self.code) == Some(t@), None => reason(self.code) is None } { unimplemented!() }
}
impl VpFrom<String> for String {
    open spec fn spec_from(t: String) -> String { t }
    fn from(t: String) -> (r: String) { t }
}
