use crate::engine::Prop;
pub mod c01; pub mod c02; pub mod c03; pub mod c04; pub mod c05; pub mod c06; pub mod c07; pub mod c08; pub mod c09; pub mod c10; pub mod c11; pub mod c12; pub mod c13; pub mod c14; pub mod c17; pub mod c18; pub mod c19; pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23; pub mod c24; pub mod c25; pub mod c26; pub mod c27;
pub fn all() -> Vec<Prop> { vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::c13(), c14::prop(), c13::c15(), c13::c16(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c21::prop(), c22::prop(), c23::prop(), c24::prop(), c25::prop(), c26::prop(), c27::prop()] }
