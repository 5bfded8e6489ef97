//! Environment stand-in for snips-nlu-ontology 0.67.1 (not available offline): the data types the
//! engine passes around, with the documented identifiers. No behaviour of its own.
#![allow(non_camel_case_types)]
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::Range;
use std::str::FromStr;

pub type OntologyResult<T> = Result<T, failure::Error>;

macro_rules! str_enum {
    ($name:ident, $what:expr, [$($variant:ident => $id:expr),* $(,)*]) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($variant),* }
        impl $name {
            pub fn all() -> &'static [$name] { &[$($name::$variant),*] }
            pub fn identifier(&self) -> &'static str { match self { $($name::$variant => $id),* } }
            pub fn from_identifier(identifier: &str) -> OntologyResult<Self> {
                match identifier {
                    $($id => Ok($name::$variant),)*
                    _ => Err(failure::format_err!("Unknown {} identifier: {}", $what, identifier)),
                }
            }
        }
        impl FromStr for $name {
            type Err = failure::Error;
            fn from_str(s: &str) -> OntologyResult<Self> { Self::from_identifier(s) }
        }
    };
}

str_enum!(BuiltinEntityKind, "builtin entity", [
    AmountOfMoney => "snips/amountOfMoney",
    Duration => "snips/duration",
    Number => "snips/number",
    Ordinal => "snips/ordinal",
    Temperature => "snips/temperature",
    Datetime => "snips/datetime",
    Date => "snips/date",
    Time => "snips/time",
    DatePeriod => "snips/datePeriod",
    TimePeriod => "snips/timePeriod",
    Percentage => "snips/percentage",
    MusicAlbum => "snips/musicAlbum",
    MusicArtist => "snips/musicArtist",
    MusicTrack => "snips/musicTrack",
    City => "snips/city",
    Country => "snips/country",
    Region => "snips/region",
]);

str_enum!(BuiltinGazetteerEntityKind, "builtin gazetteer entity", [
    MusicAlbum => "snips/musicAlbum",
    MusicArtist => "snips/musicArtist",
    MusicTrack => "snips/musicTrack",
    City => "snips/city",
    Country => "snips/country",
    Region => "snips/region",
]);

str_enum!(GrammarEntityKind, "grammar entity", [
    AmountOfMoney => "snips/amountOfMoney",
    Duration => "snips/duration",
    Number => "snips/number",
    Ordinal => "snips/ordinal",
    Temperature => "snips/temperature",
    Datetime => "snips/datetime",
    Date => "snips/date",
    Time => "snips/time",
    DatePeriod => "snips/datePeriod",
    TimePeriod => "snips/timePeriod",
    Percentage => "snips/percentage",
]);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Language { DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR }

impl Language {
    pub fn all() -> &'static [Language] {
        use Language::*;
        &[DE, EN, ES, FR, IT, JA, KO, PT_PT, PT_BR]
    }
    fn code(&self) -> &'static str {
        match self {
            Language::DE => "de",
            Language::EN => "en",
            Language::ES => "es",
            Language::FR => "fr",
            Language::IT => "it",
            Language::JA => "ja",
            Language::KO => "ko",
            Language::PT_PT => "pt_pt",
            Language::PT_BR => "pt_br",
        }
    }
}

impl fmt::Display for Language {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.code()) }
}

impl FromStr for Language {
    type Err = failure::Error;
    fn from_str(s: &str) -> OntologyResult<Self> {
        Language::all()
            .iter()
            .find(|l| l.code() == s)
            .cloned()
            .ok_or_else(|| failure::format_err!("Unknown language: {}", s))
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct StringValue { pub value: String }
impl From<String> for StringValue { fn from(value: String) -> Self { Self { value } } }
impl<'a> From<&'a str> for StringValue { fn from(value: &'a str) -> Self { Self { value: value.to_string() } } }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct NumberValue { pub value: f64 }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct PercentageValue { pub value: f64 }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct OrdinalValue { pub value: i64 }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TemperatureValue { pub value: f32, pub unit: Option<String> }
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Precision { Approximate, Exact }
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Grain { Year, Quarter, Month, Week, Day, Hour, Minute, Second }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct AmountOfMoneyValue { pub value: f32, pub precision: Precision, pub unit: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct InstantTimeValue { pub value: String, pub grain: Grain, pub precision: Precision }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TimeIntervalValue { pub from: Option<String>, pub to: Option<String> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct DurationValue {
    pub years: i64, pub quarters: i64, pub months: i64, pub weeks: i64,
    pub days: i64, pub hours: i64, pub minutes: i64, pub seconds: i64, pub precision: Precision,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum SlotValue {
    Custom(StringValue),
    Number(NumberValue),
    Ordinal(OrdinalValue),
    Percentage(PercentageValue),
    InstantTime(InstantTimeValue),
    TimeInterval(TimeIntervalValue),
    AmountOfMoney(AmountOfMoneyValue),
    Temperature(TemperatureValue),
    Duration(DurationValue),
    MusicAlbum(StringValue),
    MusicArtist(StringValue),
    MusicTrack(StringValue),
    City(StringValue),
    Country(StringValue),
    Region(StringValue),
}

#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct Slot {
    pub raw_value: String,
    pub value: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub range: Range<usize>,
    pub entity: String,
    pub slot_name: String,
    pub confidence_score: Option<f32>,
}

#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentClassifierResult { pub intent_name: Option<String>, pub confidence_score: f32 }

#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserAlternative { pub intent: IntentClassifierResult, pub slots: Vec<Slot> }

#[derive(Debug, Clone, PartialEq, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct IntentParserResult {
    pub input: String,
    pub intent: IntentClassifierResult,
    pub slots: Vec<Slot>,
    pub alternatives: Vec<IntentParserAlternative>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct BuiltinEntity {
    pub value: String,
    pub range: Range<usize>,
    pub entity: SlotValue,
    pub alternatives: Vec<SlotValue>,
    pub entity_kind: BuiltinEntityKind,
}
