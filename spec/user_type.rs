// A type a user implements by hand: it defines what the trait requires (by any code that keeps the trait's contract) and
// inherits the rest, so that the default methods of the trait are verified for a type of any schema and any name.
pub struct UserType;
impl OpgModel for UserType {
    fn get_schema(cx: &mut Components) -> Model { unimplemented!() }
    fn type_name() -> Option<Cow<'static, str>> { unimplemented!() }
}
