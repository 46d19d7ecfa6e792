mod el;
mod mats;
mod c01;
mod c02;
mod common;
mod c09;
mod c10;
mod c07;
mod c12;
mod c13;
mod homology;
mod c08;
mod c16;
mod c15;
mod c14;
mod c05;
mod c06;
mod catalogue;
mod c03;
mod c04;
mod c11;
mod c17;
mod c18;
mod c19;
fn main() { simcore::driver::main(vec![Box::new(c01::C01), Box::new(c02::C02), Box::new(c09::C09), Box::new(c10::C10), Box::new(c07::C07), Box::new(c12::C12), Box::new(c13::C13), Box::new(c08::C08), Box::new(c16::C16), Box::new(c15::C15), Box::new(c14::C14), Box::new(c05::C05), Box::new(c06::C06), Box::new(c03::C03), Box::new(c04::C04), Box::new(c11::C11), Box::new(c17::C17), Box::new(c18::C18), Box::new(c19::C19)]); }
