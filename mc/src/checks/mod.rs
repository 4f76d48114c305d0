use crate::engine::*;

mod c01;
pub mod c02;
mod grammar;
mod c03;
mod c04;
pub mod c05;
mod c06;
mod c11;
mod c33;

mod c07;
mod c08;
mod c09;
mod c10;
pub mod c12;
mod c13;
mod c14;
mod c15;
pub mod c16;
mod c17;
mod c35;
pub mod c26;
mod c18;
mod c25;
mod c28;
mod c27;
mod c30;
mod c31;
pub use c31::Counting;

mod c40;
mod c36;
mod c37;
mod c38;
mod c41;
pub struct Check {
    pub families: Vec<Family>,
    pub assumptions: Vec<String>,
    pub rule: String,
    /// (counter, minimum): a run which stays below it explored nothing worth reporting.
    pub at_least: Vec<(&'static str, u64)>,
}

impl Check {
    pub fn new(rule: &str) -> Check {
        Check { families: vec![], assumptions: vec![], rule: rule.into(), at_least: vec![] }
    }
    pub fn vacuity(&self, cx: &Cx) -> Option<String> {
        if cx.runs == 0 {
            return Some("no execution was compared".into());
        }
        for (k, min) in &self.at_least {
            let got = cx.counters.get(k).copied().unwrap_or(0);
            if got < *min {
                return Some(format!("counter {k} is {got}, expected at least {min}"));
            }
        }
        None
    }
}

type Maker = fn(bool) -> Check;
const TABLE: &[(&str, Maker)] = &[("C41", c41::check), ("C38", c38::check), ("C37", c37::check), ("C36", c36::check), ("C40", c40::check), ("C31", c31::check), ("C30", c30::check), ("C27", c27::check), ("C28", c28::check), ("C25", c25::blocks), ("C24", c25::links), ("C34", c18::markers), ("C29", c18::definitions), ("C23", c18::paragraphs), ("C22", c18::raw), ("C21", c18::formatting), ("C20", c18::tables), ("C19", c18::quotes), ("C18", c18::lists), ("C26", c26::check), ("C35", c35::check), ("C17", c17::check), ("C16", c16::check), ("C15", c15::check), ("C14", c14::check), ("C13", c13::check), ("C12", c12::check), ("C10", c10::check), ("C09", c09::check), ("C08", c08::check), ("C07", c07::check), ("C01", c01::check), ("C02", c02::check), ("C03", c03::check), ("C04", c04::check), ("C05", c05::check), ("C06", c06::check), ("C11", c11::check), ("C33", c33::check), ("C32", c33::check_text)];

pub fn get(id: &str, thorough: bool) -> Option<Check> {
    TABLE.iter().find(|(k, _)| *k == id).map(|(_, f)| f(thorough))
}

pub fn ids() -> Vec<&'static str> {
    TABLE.iter().map(|(k, _)| *k).collect()
}
