//! The engine's own logic, over intent parsers that answer anything their contract allows.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{Entity, Result, SnipsNluEngine};
use crate::rt::*;
use failure::format_err;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use std::collections::HashMap;
use std::ops::Range;
use std::sync::{Arc, Mutex};

type ParseFn = dyn Fn(&str, Option<&[&str]>) -> Result<InternalParsingResult> + Send + Sync;
type IntentsFn = dyn Fn(&str) -> Result<Vec<IntentClassifierResult>> + Send + Sync;
type SlotsFn = dyn Fn(&str, &str) -> Result<Vec<InternalSlot>> + Send + Sync;

/// the text the engine is asked about
const TYPED: &str = "Éa lo \u{1F600}, ";
static TEXT_ASKED: Mutex<Option<String>> = Mutex::new(None);
fn typed(text: &str) -> &str {
    *TEXT_ASKED.lock().unwrap() = Some(text.to_string());
    text
}
fn asked(input: &str) {
    let expected = TEXT_ASKED.lock().unwrap().clone();
    check(expected.map(|t| t == input).unwrap_or(true), "every parser is asked about the text as typed");
}

struct Scripted {
    parse: Box<ParseFn>,
    intents: Box<IntentsFn>,
    slots: Box<SlotsFn>,
}
impl IntentParser for Scripted {
    fn parse(&self, input: &str, intents_whitelist: Option<&[&str]>) -> Result<InternalParsingResult> {
        asked(input);
        (self.parse)(input, intents_whitelist)
    }
    fn get_intents(&self, input: &str) -> Result<Vec<IntentClassifierResult>> {
        asked(input);
        (self.intents)(input)
    }
    fn get_slots(&self, input: &str, intent: &str) -> Result<Vec<InternalSlot>> {
        asked(input);
        (self.slots)(input, intent)
    }
}

fn parser(parse: Box<ParseFn>, intents: Box<IntentsFn>, slots: Box<SlotsFn>) -> Box<dyn IntentParser> {
    Box::new(Scripted { parse, intents, slots }) as _
}
fn no_intents() -> Box<IntentsFn> {
    Box::new(|_: &str| Ok(vec![]))
}
fn no_slots() -> Box<SlotsFn> {
    Box::new(|_: &str, _: &str| Ok(vec![]))
}
fn result(name: Option<&str>, score: f32, slots: Vec<InternalSlot>) -> InternalParsingResult {
    internal_parsing_result(name.map(|s| s.to_string()), score, slots)
}
fn slot(value: &str, r: Range<usize>, entity: &str, name: &str) -> InternalSlot {
    InternalSlot { value: value.to_string(), char_range: r, entity: entity.to_string(), slot_name: name.to_string() }
}
fn allows(wl: Option<&[&str]>, name: &str) -> bool {
    wl.map(|w| w.iter().any(|x| *x == name)).unwrap_or(true)
}

const ABC: [&str; 3] = ["a", "b", "c"];

/// an optional filter of at most `max` intent names, each any letter of a..d (d: no such intent)
fn any_filter(name: &str, max: usize) -> Option<Vec<String>> {
    let n = choose(&format!("{}.len", name), max + 2);
    if n == 0 {
        return None;
    }
    Some((0..n - 1).map(|_| any_text(name, 1, &[('a', 'd')])).collect())
}
fn refs<'a>(f: &'a Option<Vec<String>>) -> Option<Vec<&'a str>> {
    f.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect())
}

/// C03: whitelist and blacklist
pub fn c03_filter() {
    expect(&["unknown intent", "whitelist only", "blacklist only", "both filters", "empty whitelist", "no filter", "nothing allowed"]);
    if bound(0, 1) == 1 {
        choose_map_permutation(3);
    } else {
        choose_map_order();
    }
    let w = any_filter("whitelist", bound(2, 3));
    let b = any_filter("blacklist", bound(2, 3));
    let seen: Arc<Mutex<Vec<[bool; 3]>>> = Arc::new(Mutex::new(vec![]));
    let seen2 = seen.clone();
    let parse: Box<ParseFn> = Box::new(move |_: &str, wl: Option<&[&str]>| {
        let ok = [allows(wl, "a"), allows(wl, "b"), allows(wl, "c")];
        seen2.lock().unwrap().push(ok);
        let top = (0..3).find(|i| ok[*i]).map(|i| ABC[i]);
        Ok(result(top, 0.7, vec![]))
    });
    let intents: Box<IntentsFn> = Box::new(|_: &str| {
        Ok(vec![
            intent(Some("b"), 0.9),
            intent(Some("c"), 0.8),
            intent(Some("a"), 0.7),
            intent(None, 0.1),
        ])
    });
    let ds = dataset(&[("a", &[]), ("b", &[]), ("c", &[])], &[]);
    let engine = SnipsNluEngine::from_parts(ds, vec![parser(parse, intents, no_slots())], resources(&NO_RES));

    let with_alternatives = choose_bool("alternatives");
    let res = if with_alternatives {
        engine.parse_with_alternatives(typed(TYPED), refs(&w), refs(&b), 4, 0)
    } else {
        engine.parse(typed(TYPED), refs(&w), refs(&b))
    };

    let is = |s: &String, c: &str| s.as_str() == c;
    let unknown = |f: &Option<Vec<String>>| f.iter().any(|v| v.iter().any(|s| is(s, "d")));
    let any_unknown = unknown(&w) | unknown(&b);
    if any_unknown {
        cover("unknown intent");
        check(res.is_err(), "an intents filter naming an unknown intent is an error");
        check(seen.lock().unwrap().is_empty(), "no intent parser runs when the intents filter is refused");
        return;
    }
    check(res.is_ok(), "an intents filter naming known intents is accepted");
    let res = res.unwrap();
    let want = |c: &str| {
        w.as_ref().map(|v| v.iter().any(|s| is(s, c))).unwrap_or(true)
            && !b.as_ref().map(|v| v.iter().any(|s| is(s, c))).unwrap_or(false)
    };
    let want = [want("a"), want("b"), want("c")];
    match (&w, &b) {
        (None, None) => cover("no filter"),
        (Some(v), None) => {
            cover("whitelist only");
            cover_if(v.is_empty(), "empty whitelist");
        }
        (None, Some(_)) => cover("blacklist only"),
        _ => cover("both filters"),
    }
    cover_if(!want[0] && !want[1] && !want[2], "nothing allowed");
    for got in seen.lock().unwrap().iter() {
        check(*got == want, "parsers may return exactly the whitelisted intents that are not blacklisted");
    }
    let position = |n: &str| ABC.iter().position(|x| *x == n).unwrap();
    let top = res.intent.intent_name.clone();
    check(top.as_ref().map(|n| want[position(n)]).unwrap_or(true), "the returned intent passes the filters");
    check(top.is_some() || want == [false; 3], "an allowed intent is returned when the parser finds one");
    for alternative in res.alternatives.iter() {
        let n = alternative.intent.intent_name.as_ref();
        check(n.map(|n| want[position(n)]).unwrap_or(true), "every alternative passes the filters");
    }
    if with_alternatives {
        let n = want.iter().filter(|x| **x).count();
        let expected = if top.is_some() { n - 1 + 1 } else { 0 };
        check(res.alternatives.len() == expected, "every other allowed intent and the empty intent are alternatives");
    }
}

/// C04: alternatives
pub fn c04_alternatives() {
    expect(&["no alternative wanted", "fewer than asked", "top is not first", "no intent on top", "filtered", "with slots"]);
    let scores: Vec<f32> = (0..4).map(|_| any_unit_f32("score")).collect();
    let top = choose("top", 4);
    let filter = choose("filter", 3);
    let wl: Option<Vec<&str>> = match filter {
        0 => None,
        1 => Some(vec!["a", "b"]),
        _ => Some(vec!["a", "c"]),
    };
    let allowed = |i: usize| i == 3 || wl.as_ref().map(|w| w.contains(&ABC[i])).unwrap_or(true);
    assume(allowed(top));
    cover_if(filter > 0, "filtered");
    let s2 = scores.clone();
    let names: [Option<&'static str>; 4] = [Some("a"), Some("b"), Some("c"), None];
    let top_score = any_unit_f32("top_score");
    let parse: Box<ParseFn> = Box::new(move |_: &str, _: Option<&[&str]>| Ok(result(names[top], top_score, vec![])));
    let intents: Box<IntentsFn> =
        Box::new(move |_: &str| Ok((0..4).map(|i| intent(names[i], s2[i])).collect()));
    let slots: Box<SlotsFn> = Box::new(|_: &str, i: &str| {
        Ok(if i == "b" { vec![slot("lo", 3..5, "ent", "s")] } else { vec![] })
    });
    let wanted = choose("slot alternatives", 3);
    pe::reset();
    let ds = dataset(&[("a", &[]), ("b", &[("s", "ent")]), ("c", &[])], &[("ent", true)]);
    let engine = SnipsNluEngine::from_parts(ds, vec![parser(parse, intents, slots)], resources(&NO_RES));
    pe::script_custom(Arc::new(move |_: &str, _: Option<&[String]>, max: usize| {
        Ok(vec![custom_entity("lo", 3..5, "ent", "v", max)])
    }));
    let k = choose("k", 5);
    let res = engine.parse_with_alternatives(typed(TYPED), wl.clone(), None, k, wanted).unwrap();

    check(res.input == TYPED, "the result carries the parsed text");
    check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == names[top], "alternatives do not change the returned intent");
    let index = |n: &Option<String>| match n {
        None => 3,
        Some(n) => ABC.iter().position(|x| *x == n.as_str()).unwrap_or(9),
    };
    let eligible: Vec<usize> = (0..4).filter(|i| *i != top && allowed(*i)).collect();
    let got: Vec<usize> = res.alternatives.iter().map(|a| index(&a.intent.intent_name)).collect();
    cover_if(k == 0, "no alternative wanted");
    cover_if(k > eligible.len(), "fewer than asked");
    cover_if(top == 3, "no intent on top");
    cover_if(scores[top] < scores[eligible[0]], "top is not first");
    check(!got.contains(&top), "the returned intent is not repeated among the alternatives");
    check(got.iter().all(|i| eligible.contains(i)), "alternatives are known intents that pass the filter");
    for i in 0..got.len() {
        check(!got[..i].contains(&got[i]), "no intent appears twice among the alternatives");
    }
    check(got.len() == k.min(eligible.len()), "as many alternatives as asked for and available");
    for (i, a) in got.iter().zip(res.alternatives.iter()) {
        check(a.intent.confidence_score == scores[*i], "an alternative keeps its confidence score");
        if *i == 1 {
            cover("with slots");
            check(
                a.slots.len() == 1
                    && a.slots[0].raw_value == "lo"
                    && a.slots[0].range == (3..5)
                    && a.slots[0].slot_name == "s"
                    && a.slots[0].value == custom("v"),
                "an alternative carries the slots of its intent",
            );
            let alternatives: Vec<SlotValue> = custom_alternatives("v", wanted).iter().map(|a| custom(a)).collect();
            check(a.slots[0].alternatives == alternatives, "the slots of an alternative have as many alternatives as asked for");
        } else {
            check(a.slots.is_empty(), "an alternative carries no other slots");
        }
    }
    for w in res.alternatives.windows(2) {
        check(w[0].intent.confidence_score >= w[1].intent.confidence_score, "alternatives come by decreasing confidence");
    }
    if let Some(last) = res.alternatives.last() {
        for i in eligible.iter().filter(|i| !got.contains(i)) {
            check(scores[*i] <= last.intent.confidence_score, "the most confident alternatives are kept");
        }
    }
}

fn c05(n_parsers: usize, labels: &[Option<&'static str>], partial: bool) {
    choose_map_order();
    let n = labels.len();
    let scores: Vec<Vec<f32>> =
        (0..n_parsers).map(|_| (0..n).map(|_| any_unit_f32("score")).collect()).collect();
    // a parser may not know an intent
    let knows: Vec<Vec<bool>> = (0..n_parsers)
        .map(|_| (0..n).map(|i| !partial || labels[i].is_none() || choose_bool("knows")).collect())
        .collect();
    let parsers: Vec<Box<dyn IntentParser>> = (0..n_parsers)
        .map(|p| {
            let (s, k) = (scores[p].clone(), knows[p].clone());
            let l: Vec<Option<&'static str>> = labels.to_vec();
            // every parser lists the labels it knows once, in an order of its own
            let intents: Box<IntentsFn> = Box::new(move |_: &str| {
                let n = l.len();
                Ok((0..n).map(|i| (i + p) % n).filter(|i| k[*i]).map(|i| intent(l[i], s[i])).collect())
            });
            parser(Box::new(|_: &str, _: Option<&[&str]>| Ok(result(None, 0., vec![]))), intents, no_slots())
        })
        .collect();
    let ds = dataset(&[("a", &[]), ("b", &[]), ("c", &[])], &[]);
    let engine = SnipsNluEngine::from_parts(ds, parsers, resources(&NO_RES));
    let res = engine.get_intents(typed(TYPED)).unwrap();
    let known: Vec<usize> = (0..n).filter(|i| knows.iter().any(|k| k[*i])).collect();
    cover_if(knows[n_parsers - 1].iter().zip(knows[0].iter()).any(|(l, f)| *l && !*f), "only known to a later parser");
    check(res.len() == known.len(), "one entry per intent");
    for i in known {
        let found: Vec<&IntentClassifierResult> =
            res.iter().filter(|r| r.intent_name.as_ref().map(|s| s.as_str()) == labels[i]).collect();
        check(found.len() == 1, "every intent and the empty intent are listed exactly once");
        let score = found[0].confidence_score;
        let given: Vec<f32> = (0..n_parsers).filter(|p| knows[*p][i]).map(|p| scores[p][i]).collect();
        check(given.iter().all(|s| *s <= score), "an intent gets no less than the best score of the parsers");
        check(given.iter().any(|s| *s == score), "an intent gets a score one of the parsers gave");
        cover_if(given.len() > 1 && given[1] > given[0], "second parser is better");
        cover_if(given.len() > 1 && given[1] < given[0], "first parser is better");
    }
    for w in res.windows(2) {
        check(w[0].confidence_score >= w[1].confidence_score, "intents come by decreasing confidence");
    }
}
/// C05: merging of the intents of several parsers
pub fn c05_two_parsers() {
    expect(&["second parser is better", "first parser is better"]);
    c05(2, &[Some("a"), Some("b"), None], false);
}
pub fn c05_three_parsers() {
    expect(&["second parser is better", "first parser is better"]);
    if bound(0, 1) == 1 {
        c05(3, &[Some("a"), Some("b"), None], false);
    } else {
        c05(3, &[Some("a"), None], false);
    }
}
pub fn c05_one_parser() {
    c05(1, &[Some("a"), Some("b"), Some("c"), None], false);
}
pub fn c05_partial() {
    expect(&["second parser is better", "first parser is better", "only known to a later parser"]);
    let n = bound(2, 3);
    c05(n, &[Some("a"), Some("b"), None], true);
}

/// C06: cascade of parsers
pub fn c06_cascade() {
    expect(&["first answers", "second answers", "third answers", "nobody answers", "error", "with slots"]);
    let n = 1 + choose("parsers", 3);
    // what each parser does: 0 no intent, 1 intent, 2 intent with a slot, 3 error
    let kinds: Vec<usize> = (0..n).map(|_| choose("parser", 4)).collect();
    let scores: Vec<f32> = (0..n).map(|_| any_unit_f32("score")).collect();
    let parsers: Vec<Box<dyn IntentParser>> = (0..n)
        .map(|i| {
            let (k, s) = (kinds[i], scores[i]);
            let parse: Box<ParseFn> = Box::new(move |_: &str, _: Option<&[&str]>| match k {
                0 => Ok(result(None, s, vec![])),
                1 => Ok(result(Some(ABC[i]), s, vec![])),
                2 => Ok(result(Some(ABC[i]), s, vec![slot("lo", 3..5, "ent", ABC[i])])),
                _ => Err(format_err!("parser error")),
            });
            parser(parse, no_intents(), no_slots())
        })
        .collect();
    let ds = dataset(&[("a", &[("a", "ent")]), ("b", &[("b", "ent")]), ("c", &[("c", "ent")])], &[("ent", true)]);
    let engine = SnipsNluEngine::from_parts(ds, parsers, resources(&NO_RES));
    let text = any_text("text", choose("text.len", bound(4, 5)), &[('a', 'b'), (' ', ' '), ('É', 'É'), ('\u{1F600}', '\u{1F600}')]);
    let res = engine.parse(typed(&text), None, None);
    match kinds.iter().position(|k| *k != 0) {
        None => {
            cover("nobody answers");
            let res = res.unwrap();
            check(res.intent.intent_name.is_none() && res.slots.is_empty(), "no intent and no slots when no parser finds an intent");
            check(res.intent.confidence_score == scores[n - 1], "the last parser's confidence is reported when no parser finds an intent");
            check(res.input == text, "the result carries the parsed text");
        }
        Some(i) if kinds[i] == 3 => {
            cover("error");
            check(res.is_err(), "the error of a parser is reported");
        }
        Some(i) => {
            cover(["first answers", "second answers", "third answers"][i]);
            let res = res.unwrap();
            check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == Some(ABC[i]), "the first parser that finds an intent decides");
            check(res.intent.confidence_score == scores[i], "the deciding parser's confidence is reported");
            check(res.input == text, "the result carries the parsed text");
            check(res.alternatives.is_empty(), "no alternatives unless asked for");
            if kinds[i] == 2 {
                cover("with slots");
                check(res.slots.len() == 1, "the slots are those of the deciding parser");
                let s = &res.slots[0];
                check(s.slot_name == ABC[i] && s.range == (3..5) && s.raw_value == "lo", "a slot keeps name, range and raw value");
            } else {
                check(res.slots.is_empty(), "the slots are those of the deciding parser");
            }
        }
    }
}

pub fn c06_get_slots() {
    expect(&["first answers", "second answers", "third answers", "nobody answers", "error"]);
    let n = 1 + choose("parsers", 3);
    // 0 no slots, 1 a slot, 2 error
    let kinds: Vec<usize> = (0..n).map(|_| choose("parser", 3)).collect();
    let asked: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let parsers: Vec<Box<dyn IntentParser>> = (0..n)
        .map(|i| {
            let k = kinds[i];
            let asked = asked.clone();
            let slots: Box<SlotsFn> = Box::new(move |_: &str, intent: &str| {
                asked.lock().unwrap().push(intent.to_string());
                match k {
                    0 => Ok(vec![]),
                    1 => Ok(vec![slot("lo", 3..5, "ent", ABC[i])]),
                    _ => Err(format_err!("parser error")),
                }
            });
            parser(Box::new(|_: &str, _: Option<&[&str]>| Ok(result(None, 0., vec![]))), no_intents(), slots)
        })
        .collect();
    let ds = dataset(&[("x", &[("a", "ent"), ("b", "ent"), ("c", "ent")])], &[("ent", true)]);
    let engine = SnipsNluEngine::from_parts(ds, parsers, resources(&NO_RES));
    let alternatives = any_usize("slot alternatives", 0, 3);
    let res = engine.get_slots_with_alternatives(typed(TYPED), "x", alternatives);
    check(asked.lock().unwrap().iter().all(|i| i == "x"), "parsers are asked for the slots of the given intent");
    match kinds.iter().position(|k| *k != 0) {
        None => {
            cover("nobody answers");
            check(res.unwrap().is_empty(), "no slots when no parser finds slots");
        }
        Some(i) if kinds[i] == 2 => {
            cover("error");
            check(res.is_err(), "the error of a parser is reported");
        }
        Some(i) => {
            cover(["first answers", "second answers", "third answers"][i]);
            let res = res.unwrap();
            check(res.len() == 1 && res[0].slot_name == ABC[i], "the first parser that finds slots decides");
        }
    }
}

// ---- slots

/// an entity has two alternatives, of which at most `max` are returned
fn builtin_alternatives(v: f64, max: usize) -> Vec<SlotValue> {
    [number(v + 0.5), number(v + 0.25)].iter().take(max).cloned().collect()
}
fn custom_alternatives(v: &str, max: usize) -> Vec<String> {
    ["alt", "other"].iter().take(max).map(|a| format!("{} {}", v, a)).collect()
}
fn builtin_entity(value: &str, r: Range<usize>, kind: BuiltinEntityKind, v: f64, max: usize) -> BuiltinEntity {
    BuiltinEntity {
        value: value.to_string(),
        range: r,
        entity: number(v),
        alternatives: builtin_alternatives(v, max),
        entity_kind: kind,
    }
}
fn custom_entity(value: &str, r: Range<usize>, id: &str, resolved: &str, max: usize) -> GazetteerEntityMatch<String> {
    GazetteerEntityMatch {
        value: value.to_string(),
        resolved_value: resolved.to_string(),
        alternative_resolved_values: custom_alternatives(resolved, max),
        range: r,
        entity_identifier: id.to_string(),
    }
}
fn any_range(name: &str, lo: usize, hi: usize) -> Range<usize> {
    let a = any_usize(name, lo, hi);
    let b = any_usize(name, lo, hi);
    assume(a < b);
    a..b
}
fn engine_with_slots(slots: Vec<InternalSlot>, extensible: bool) -> SnipsNluEngine {
    let parse: Box<ParseFn> = Box::new(move |_: &str, _: Option<&[&str]>| Ok(result(Some("x"), 0.8, slots.clone())));
    let ds = dataset(
        &[("x", &[("num", "snips/number"), ("ord", "snips/ordinal"), ("cust", "ent"), ("other", "ent2")])],
        &[("ent", extensible), ("ent2", extensible)],
    );
    SnipsNluEngine::from_parts(ds, vec![parser(parse, no_intents(), no_slots())], resources(&NO_RES))
}
fn value_of(s: &Slot) -> String {
    match &s.value {
        SlotValue::Custom(v) => v.value.clone(),
        SlotValue::Number(v) => format!("{}", v.value),
        _ => "?".to_string(),
    }
}

const TEXT: &str = "aaa bbb ccc";

/// C17: builtin slots
pub fn c17_builtin() {
    expect(&["whole match", "second entity matches", "match on the value", "dropped", "wrong kind"]);
    let value = any_text("value", 1 + choose("slot length", 2), &[('x', 'z'), ('é', 'é')]);
    let slot_range = any_range("slot", 0, 11);
    let (n_whole, n_value) = (choose("entities", 3), choose("value entities", 3));
    let wanted = choose("alternatives", 3);
    let kinds = [BuiltinEntityKind::Number, BuiltinEntityKind::Ordinal];
    let whole: Vec<(Range<usize>, BuiltinEntityKind)> =
        (0..n_whole).map(|_| (any_range("entity", 0, 11), *pick("kind", &kinds))).collect();
    let (w2, sr, v2) = (whole.clone(), slot_range.clone(), value.clone());
    let scoped = Arc::new(Mutex::new(true));
    let scoped2 = scoped.clone();
    pe::reset();
    let slots = vec![
        slot(&value, slot_range.clone(), "snips/number", "num"),
        slot("q", 0..1, "snips/ordinal", "ord"),
    ];
    let engine = engine_with_slots(slots, false);
    pe::script_builtin(Arc::new(move |text: &str, scope: Option<&[BuiltinEntityKind]>, max: usize| {
        let scope: Vec<BuiltinEntityKind> = scope.map(|s| s.to_vec()).unwrap_or(kinds.to_vec());
        Ok(if text == TEXT {
            w2.iter()
                .enumerate()
                .filter(|(_, (_, k))| scope.contains(k))
                .map(|(i, (r, k))| builtin_entity("w", r.clone(), *k, i as f64, max))
                .collect()
        } else if text == v2 {
            if scope != [BuiltinEntityKind::Number] {
                *scoped2.lock().unwrap() = false;
            }
            (0..n_value).map(|i| builtin_entity("z", i..i + 1, BuiltinEntityKind::Number, 10. + i as f64, max)).collect()
        } else {
            vec![]
        })
    }));
    let res = engine.parse_with_alternatives(TEXT, None, None, 0, wanted).unwrap();
    check(*scoped.lock().unwrap(), "a value is resolved with entities of the slot's kind only");
    let got: Vec<&Slot> = res.slots.iter().filter(|s| s.slot_name == "num").collect();
    check(res.slots.len() <= 2 && got.len() <= 1, "no slot is invented");
    let found = whole.iter().position(|(r, k)| *k == BuiltinEntityKind::Number && *r == sr);
    cover_if(whole.iter().any(|(r, k)| *k != BuiltinEntityKind::Number && *r == sr) && found.is_none(), "wrong kind");
    let expected = match found {
        Some(i) => {
            cover("whole match");
            cover_if(i == 1, "second entity matches");
            Some(i as f64)
        }
        None if n_value > 0 => {
            cover("match on the value");
            Some(10. + (n_value - 1) as f64)
        }
        None => None,
    };
    match expected {
        None => {
            cover("dropped");
            check(got.is_empty(), "a builtin slot nothing resolves is dropped");
        }
        Some(v) => {
            check(got.len() == 1, "a builtin slot that resolves is kept");
            let s = got[0];
            check(s.value == number(v), "a builtin slot gets the value of the entity at its place, or of its own text");
            check(s.alternatives == builtin_alternatives(v, wanted), "a slot gets the alternatives of its entity, as many as asked for");
            check(s.range == sr && s.raw_value == value, "resolution keeps range and raw value");
            check(s.entity == "snips/number" && s.slot_name == "num", "resolution keeps entity and slot name");
        }
    }
}

/// C17, C18: builtin values (a date, say) are those of the time of the request
fn fresh(extract: bool) {
    let at_place = choose_bool("at its place");
    let later = any_u32("later", 0, 9);
    let clock = Arc::new(Mutex::new(0f64));
    let clock2 = clock.clone();
    pe::reset();
    let engine = engine_with_slots(vec![slot("zzz", 4..7, "snips/number", "num")], false);
    pe::script_builtin(Arc::new(move |text: &str, _: Option<&[BuiltinEntityKind]>, max: usize| {
        let now = *clock2.lock().unwrap();
        Ok(if (text == TEXT) == (at_place | extract) {
            vec![builtin_entity("w", 4..7, BuiltinEntityKind::Number, now, max)]
        } else {
            vec![]
        })
    }));
    for now in [0f64, later as f64].iter() {
        *clock.lock().unwrap() = *now;
        let slot = if extract {
            engine.extract_slot(TEXT.to_string(), "x", "num").unwrap()
        } else {
            engine.parse(TEXT, None, None).unwrap().slots.pop()
        };
        check(slot.is_some(), "the value is found at any time");
        check(slot.unwrap().value == number(*now), "a builtin value is computed for each request");
    }
    cover_if(later > 0, "the value changes");
}
pub fn c17_fresh() {
    expect(&["the value changes"]);
    fresh(false);
}
pub fn c18_fresh() {
    expect(&["the value changes"]);
    fresh(true);
}

/// C17: custom slots
pub fn c17_custom() {
    expect(&["whole match", "match on the value", "value match of another length", "extended", "dropped", "other entity"]);
    let extensible = choose_bool("extensible");
    let value_len = 1 + choose("slot length", 2);
    let value = any_text("value", value_len, &[('x', 'z'), ('é', 'é')]);
    let slot_range = any_range("slot", 0, 11);
    let n_whole = choose("entities", 3);
    let n_value = choose("value entities", 3);
    let ids = ["ent", "ent2"];
    let whole: Vec<(Range<usize>, &'static str)> =
        (0..n_whole).map(|_| (any_range("entity", 0, 11), *pick("identifier", &ids))).collect();
    let lens: Vec<usize> = (0..n_value).map(|_| 1 + choose("value length", 3)).collect();
    let wanted = choose("alternatives", 3);
    let (w2, l2, v2) = (whole.clone(), lens.clone(), value.clone());
    let scoped = Arc::new(Mutex::new(true));
    let scoped2 = scoped.clone();
    pe::reset();
    let slots = vec![slot(&value, slot_range.clone(), "ent", "cust"), slot("q", 0..1, "ent2", "other")];
    let engine = engine_with_slots(slots, extensible);
    pe::script_custom(Arc::new(move |text: &str, scope: Option<&[String]>, max: usize| {
        let allowed = |id: &str| scope.map(|s| s.iter().any(|x| x == id)).unwrap_or(true);
        Ok(if text == TEXT {
            w2.iter()
                .enumerate()
                .filter(|(_, (_, id))| allowed(id))
                .map(|(i, (r, id))| custom_entity("w", r.clone(), id, ["w0", "w1"][i], max))
                .collect()
        } else if text == v2 {
            if !(scope.is_some() && scope.unwrap().len() == 1 && allowed("ent")) {
                *scoped2.lock().unwrap() = false;
            }
            l2.iter()
                .enumerate()
                .map(|(i, l)| custom_entity(["z", "èz", "xyz"][*l - 1], 0..1, "ent", ["v0", "v1"][i], max))
                .collect()
        } else {
            vec![]
        })
    }));
    let res = engine.parse_with_alternatives(TEXT, None, None, 0, wanted).unwrap();
    check(*scoped.lock().unwrap(), "a value is resolved with values of the slot's entity only");
    let got: Vec<&Slot> = res.slots.iter().filter(|s| s.slot_name == "cust").collect();
    check(got.len() <= 1 && res.slots.len() <= 2, "no slot is invented");
    if res.slots.len() == 2 {
        check(res.slots[0].slot_name == "cust", "resolution keeps the order of the slots");
    }
    let found = whole.iter().position(|(r, id)| *id == "ent" && *r == slot_range);
    cover_if(whole.iter().any(|(r, id)| *id != "ent" && *r == slot_range) && found.is_none(), "other entity");
    let expected: Option<(&str, bool)> = match found {
        Some(i) => {
            cover("whole match");
            Some((["w0", "w1"][i], true))
        }
        None if n_value > 0 && lens[n_value - 1] == value_len => {
            cover("match on the value");
            Some((["v0", "v1"][n_value - 1], true))
        }
        None => {
            cover_if(n_value > 0, "value match of another length");
            if extensible {
                Some((value.as_str(), false))
            } else {
                None
            }
        }
    };
    match expected {
        None => {
            cover("dropped");
            check(got.is_empty(), "a custom slot nothing resolves is dropped when its entity is closed");
        }
        Some((v, has_alternatives)) => {
            cover_if(!has_alternatives, "extended");
            check(got.len() == 1, "a custom slot that resolves, or whose entity is open, is kept");
            let s = got[0];
            check(s.value == custom(v), "a custom slot gets the value of the entity at its place, or of its own text, or its raw text");
            let n = if has_alternatives { wanted } else { 0 };
            let alternatives: Vec<SlotValue> = custom_alternatives(v, n).iter().map(|a| custom(a)).collect();
            check(s.alternatives == alternatives, "a slot gets the alternatives of its entity, as many as asked for");
            check(s.range == slot_range && s.raw_value == value, "resolution keeps range and raw value");
            check(s.entity == "ent" && s.slot_name == "cust", "resolution keeps entity and slot name");
        }
    }
}

/// C17: slots of several entities, builtin and custom, in any order
pub fn c17_mixed() {
    expect(&["in the text", "in the value", "nowhere", "two kinds of builtin entities", "two custom entities"]);
    let n = bound(3, 3);
    let extensible = choose_bool("extensible");
    const KINDS: [(&str, &str); 4] = [("snips/number", "num"), ("snips/ordinal", "ord"), ("ent", "cust"), ("ent2", "other")];
    const WORDS: [&str; 3] = ["aaa", "bbb", "ccc"];
    let kinds: Vec<usize> = (0..n).map(|_| choose("kind", 4)).collect();
    // where its entity is found: in the text, in the value only, nowhere
    let found: Vec<usize> = (0..n).map(|_| choose("found", 3)).collect();
    cover_if(kinds.contains(&0) && kinds.contains(&1), "two kinds of builtin entities");
    cover_if(kinds.contains(&2) && kinds.contains(&3), "two custom entities");
    let slots: Vec<InternalSlot> = (0..n).map(|i| slot(WORDS[i], 4 * i..4 * i + 3, KINDS[kinds[i]].0, KINDS[kinds[i]].1)).collect();
    pe::reset();
    let engine = engine_with_slots(slots, extensible);
    let all = [BuiltinEntityKind::Number, BuiltinEntityKind::Ordinal];
    let (k2, f2) = (kinds.clone(), found.clone());
    pe::script_builtin(Arc::new(move |text: &str, scope: Option<&[BuiltinEntityKind]>, max: usize| {
        let scope: Vec<BuiltinEntityKind> = scope.map(|s| s.to_vec()).unwrap_or(all.to_vec());
        let mut v = vec![];
        for i in 0..n {
            if k2[i] > 1 || !scope.contains(&all[k2[i]]) {
                continue;
            }
            if text == TEXT && f2[i] == 0 {
                v.push(builtin_entity(WORDS[i], 4 * i..4 * i + 3, all[k2[i]], i as f64, max));
            }
            if text == WORDS[i] && f2[i] == 1 {
                v.push(builtin_entity(WORDS[i], 0..3, all[k2[i]], 10. + i as f64, max));
            }
        }
        Ok(v)
    }));
    let (k3, f3) = (kinds.clone(), found.clone());
    pe::script_custom(Arc::new(move |text: &str, scope: Option<&[String]>, max: usize| {
        let allowed = |id: &str| scope.map(|s| s.iter().any(|x| x == id)).unwrap_or(true);
        let mut v = vec![];
        for i in 0..n {
            let id = KINDS[k3[i]].0;
            if k3[i] < 2 || !allowed(id) {
                continue;
            }
            if text == TEXT && f3[i] == 0 {
                v.push(custom_entity(WORDS[i], 4 * i..4 * i + 3, id, &format!("text {}", i), max));
            }
            if text == WORDS[i] && f3[i] == 1 {
                v.push(custom_entity(WORDS[i], 0..3, id, &format!("value {}", i), max));
            }
        }
        Ok(v)
    }));
    let res = engine.parse_with_alternatives(TEXT, None, None, 0, 1).unwrap();
    let mut rest = res.slots.iter();
    for i in 0..n {
        let is_custom = kinds[i] > 1;
        cover(["in the text", "in the value", "nowhere"][found[i]]);
        let expected = match (found[i], is_custom) {
            (0, true) => custom(&format!("text {}", i)),
            (1, true) => custom(&format!("value {}", i)),
            (2, true) if extensible => custom(WORDS[i]),
            (0, false) => number(i as f64),
            (1, false) => number(10. + i as f64),
            _ => continue,
        };
        let s = rest.next();
        check(s.is_some(), "a slot that resolves is kept, whatever the other slots are");
        let s = s.unwrap();
        check(s.range == (4 * i..4 * i + 3) && s.raw_value == WORDS[i], "slots keep their order, range and raw value");
        check(s.entity == KINDS[kinds[i]].0 && s.slot_name == KINDS[kinds[i]].1, "resolution keeps entity and slot name");
        check(s.value == expected, "a slot gets the value of the entity at its place, or of its own text, or its raw text");
        check(s.alternatives.len() == (found[i] < 2) as usize, "a slot gets the alternatives of its entity, as many as asked for");
    }
    check(rest.next().is_none(), "a slot that does not resolve is dropped");
}

/// C18: extraction of a single slot
pub fn c18_unknown() {
    expect(&["unknown intent", "unknown slot", "known"]);
    choose_map_order();
    let ds = dataset(&[("a", &[("s", "ent")]), ("b", &[("t", "ent"), ("u", "snips/number")])], &[("ent", true)]);
    let engine = SnipsNluEngine::from_parts(ds, vec![], resources(&NO_RES));
    let i = any_text("intent", choose("intent.len", 3), &[('a', 'c'), (' ', ' '), ('A', 'A')]);
    let s = any_text("slot", choose("slot.len", 3), &[('r', 'v'), (' ', ' '), ('S', 'S')]);
    let text = any_text("text", choose("text.len", bound(3, 4)), &[(' ', ' '), ('a', 'a'), ('É', 'é')]);
    let len = text.chars().count();
    let res = engine.extract_slot(text.clone(), &i, &s);
    if i != "a" && i != "b" {
        cover("unknown intent");
        check(res.is_err(), "a slot of an unknown intent is an error");
        return;
    }
    let entity = match (i.as_str(), s.as_str()) {
        ("a", "s") | ("b", "t") => "ent",
        ("b", "u") => "snips/number",
        _ => {
            cover("unknown slot");
            check(res.is_err(), "a slot the intent does not have is an error");
            return;
        }
    };
    cover("known");
    check(res.is_ok(), "a slot the intent has can be asked for");
    let res = res.unwrap();
    check(res.is_some() == (entity == "ent"), "a text nothing is found in is a value of an open entity and of no other");
    if let Some(slot) = res {
        check(slot.entity == entity && slot.slot_name == s, "the slot asked for is returned");
        check(slot.raw_value == text && slot.range == (0..len) && slot.value == custom(&text), "the whole text is the value of an open entity");
    }
}

/// C18: which entity is taken, and that range and raw value agree
pub fn c18_extract() {
    expect(&["custom found", "custom open", "custom closed", "builtin found", "builtin not found"]);
    let is_custom = choose_bool("custom");
    let extensible = choose_bool("extensible");
    let wanted = choose("alternatives", 3);
    let n = choose("entities", 3);
    // "Éab" lower-cased is "éab": positions do not move, characters do
    let text = "Éab Cdé!";
    let len = text.chars().count();
    let starts: Vec<usize> = (0..n).map(|_| choose("start", 2)).collect();
    let ranges: Vec<Range<usize>> = starts.iter().map(|s| [0..3, 4..7][*s].clone()).collect();
    let r2 = ranges.clone();
    let r3 = ranges.clone();
    pe::reset();
    let engine = engine_with_slots(vec![], extensible);
    let scoped = Arc::new(Mutex::new(true));
    let (sc1, sc2) = (scoped.clone(), scoped.clone());
    pe::script_builtin(Arc::new(move |t: &str, scope: Option<&[BuiltinEntityKind]>, max: usize| {
        if scope != Some(&[BuiltinEntityKind::Number][..]) || t != "éab cdé!" {
            *sc1.lock().unwrap() = false;
        }
        Ok(r2.iter().enumerate().map(|(i, r)| builtin_entity("w", r.clone(), BuiltinEntityKind::Number, i as f64, max)).collect())
    }));
    pe::script_custom(Arc::new(move |t: &str, scope: Option<&[String]>, max: usize| {
        if !(scope.map(|s| s.len() == 1 && s[0] == "ent").unwrap_or(false)) || t != "éab cdé !" {
            *sc2.lock().unwrap() = false;
        }
        Ok(r3
            .iter()
            .enumerate()
            .map(|(i, r)| custom_entity(["éab", "cdé"][r.start / 4], r.clone(), "ent", ["w0", "w1"][i], max))
            .collect())
    }));
    let name = if is_custom { "cust" } else { "num" };
    let res = engine.extract_slot_with_alternatives(text.to_string(), "x", name, wanted).unwrap();
    check(*scoped.lock().unwrap(), "only values of the slot's entity are looked for in the text");
    if n == 0 && !(is_custom && extensible) {
        cover(if is_custom { "custom closed" } else { "builtin not found" });
        check(res.is_none(), "no slot when nothing is found");
        return;
    }
    check(res.is_some(), "a slot is returned when a value is found or the entity is open");
    let s = res.unwrap();
    check(s.slot_name == name, "the slot asked for is returned");
    let substring: String = text.chars().skip(s.range.start).take(s.range.end - s.range.start).collect();
    check(s.range.end <= len && s.raw_value == substring, "the raw value is the text at the slot's range");
    if n == 0 {
        cover("custom open");
        check(s.range == (0..len) && value_of(&s) == text && s.alternatives.is_empty(), "the whole text is the value of an open entity");
    } else if is_custom {
        cover("custom found");
        check(s.entity == "ent", "the slot has the entity of its declaration");
        check(s.range == ranges[n - 1] && s.value == custom(["w0", "w1"][n - 1]), "the last custom value found is returned");
        let alternatives: Vec<SlotValue> = custom_alternatives(["w0", "w1"][n - 1], wanted).iter().map(|a| custom(a)).collect();
        check(s.alternatives == alternatives, "the alternatives of the value are returned, as many as asked for");
    } else {
        cover("builtin found");
        check(s.entity == "snips/number", "the slot has the entity of its declaration");
        check(s.range == ranges[0] && s.value == number(0.), "the first builtin value found is returned");
        check(s.alternatives == builtin_alternatives(0., wanted), "the alternatives of the value are returned, as many as asked for");
    }
}

#[allow(unused)]
fn unused(_: HashMap<String, Entity>) {}

// ---- many of everything

fn many_names(n: usize) -> Vec<&'static str> {
    (0..n).map(|i| &*Box::leak(format!("intent {}", i).into_boxed_str())).collect()
}
fn many_dataset(names: &[&str], slots: &[(&str, &str)]) -> crate::lib::DatasetMetadata {
    let intents: Vec<(&str, &[(&str, &str)])> = names.iter().map(|n| (*n, slots)).collect();
    dataset(&intents, &[("ent", true)])
}

/// C03: filters of many names
pub fn c03_many() {
    expect(&["white", "black"]);
    let n = bound(300, 1000);
    let names = many_names(n);
    // the whitelist leaves one out, the blacklist names another
    let out = [0, 1, n / 2, n - 2, n - 1][choose("left out", 5)];
    let black = [0, 7, n - 1][choose("blacklisted", 3)];
    let (white, with_black) = (choose_bool("whitelist"), choose_bool("blacklist"));
    cover_if(white, "white");
    cover_if(with_black, "black");
    let seen: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let (s2, n2) = (seen.clone(), names.clone());
    let parse: Box<ParseFn> = Box::new(move |_: &str, wl: Option<&[&str]>| {
        *s2.lock().unwrap() = n2.iter().filter(|n| allows(wl, n)).map(|n| n.to_string()).collect();
        Ok(result(None, 0.5, vec![]))
    });
    let n3 = names.clone();
    let intents: Box<IntentsFn> =
        Box::new(move |_: &str| Ok(n3.iter().enumerate().map(|(i, n)| intent(Some(n), 1. - i as f32 / 1000.)).collect()));
    let engine = SnipsNluEngine::from_parts(many_dataset(&names, &[]), vec![parser(parse, intents, no_slots())], resources(&NO_RES));
    let w: Option<Vec<&str>> =
        if white { Some(names.iter().enumerate().filter(|(i, _)| *i != out).map(|(_, n)| *n).collect()) } else { None };
    let b: Option<Vec<&str>> = if with_black { Some(vec![names[black]]) } else { None };
    let res = engine.parse_with_alternatives(typed(TYPED), w, b, usize::MAX, 0).unwrap();
    let expected: Vec<String> = names
        .iter()
        .enumerate()
        .filter(|(i, _)| !(white && *i == out) && !(with_black && *i == black))
        .map(|(_, n)| n.to_string())
        .collect();
    check(*seen.lock().unwrap() == expected, "parsers may return exactly the whitelisted intents that are not blacklisted");
    let got: Vec<String> = res.alternatives.iter().map(|a| a.intent.intent_name.clone().unwrap()).collect();
    check(got == expected, "every other allowed intent is an alternative");
}

/// C04, C05: many intents, of two parsers, and as many alternatives as one can ask for
pub fn c04_many() {
    expect(&["all", "some"]);
    choose_map_order();
    let n = bound(300, 1000);
    let names = many_names(n);
    let (n1, n2, n3) = (names.clone(), names.clone(), names.clone());
    // the second parser gives one of them the best score
    let best = [0, n / 2, n - 1][choose("best", 3)];
    let parse: Box<ParseFn> = Box::new(move |_: &str, _: Option<&[&str]>| Ok(result(Some(n1[5]), 0.5, vec![])));
    let first: Box<IntentsFn> =
        Box::new(move |_: &str| Ok(n2.iter().enumerate().map(|(i, n)| intent(Some(n), i as f32 / 1000.)).collect()));
    let second: Box<IntentsFn> = Box::new(move |_: &str| {
        Ok(n3.iter().enumerate().map(|(i, n)| intent(Some(n), if i == best { 0.9 } else { 0. })).collect())
    });
    let slots: Box<SlotsFn> = Box::new(|_: &str, _: &str| Ok((0..5).map(|i| slot(&format!("v{}", i), i..i + 1, "ent", "s")).collect()));
    let parsers = vec![
        parser(parse, first, no_slots()),
        parser(Box::new(|_: &str, _: Option<&[&str]>| Ok(result(None, 0., vec![]))), second, slots),
    ];
    let engine = SnipsNluEngine::from_parts(many_dataset(&names, &[("s", "ent")]), parsers, resources(&NO_RES));
    let k = [1, 9, n - 2, n - 1, n, 256, 65536, usize::MAX][choose("asked for", 8)];
    let res = engine.parse_with_alternatives(typed(TYPED), None, None, k, 0).unwrap();
    check(res.intent.intent_name.as_ref().map(|s| s.as_str()) == Some(names[5]), "alternatives do not change the returned intent");
    let mut expected: Vec<usize> = (0..n).rev().filter(|i| *i != 5 && *i != best).collect();
    expected.insert(0, best);
    expected.truncate(k);
    cover(if expected.len() < n - 1 { "some" } else { "all" });
    check(res.alternatives.len() == expected.len(), "as many alternatives as asked for and available");
    for (a, i) in res.alternatives.iter().zip(expected.iter()) {
        check(a.intent.intent_name.as_ref().map(|s| s.as_str()) == Some(names[*i]), "alternatives come by decreasing confidence");
        check(a.intent.confidence_score == if *i == best { 0.9 } else { *i as f32 / 1000. }, "an alternative keeps its best confidence score");
        check(a.slots.len() == 5, "an alternative carries the slots of its intent");
    }
    let all = engine.get_intents(typed(TYPED)).unwrap();
    check(all.len() == n && all[0].intent_name.as_ref().map(|s| s.as_str()) == Some(names[best]), "every intent is listed exactly once, the best first");
}

/// C06: many parsers
pub fn c06_many() {
    let n = bound(12, 40);
    let at = [0, 3, n - 1, n][choose("answers", 4)];
    let asked = Arc::new(Mutex::new(0));
    let parsers: Vec<Box<dyn IntentParser>> = (0..n)
        .map(|i| {
            let asked = asked.clone();
            let parse: Box<ParseFn> = Box::new(move |_: &str, _: Option<&[&str]>| {
                *asked.lock().unwrap() += 1;
                Ok(if i >= at { result(Some("x"), i as f32, vec![]) } else { result(None, i as f32, vec![]) })
            });
            let slots: Box<SlotsFn> =
                Box::new(move |_: &str, _: &str| Ok(if i >= at { vec![slot(&format!("{}", i), 0..1, "ent", "s")] } else { vec![] }));
            parser(parse, no_intents(), slots)
        })
        .collect();
    let engine = SnipsNluEngine::from_parts(many_dataset(&["x"], &[("s", "ent")]), parsers, resources(&NO_RES));
    let res = engine.parse(typed(TYPED), None, None).unwrap();
    check(res.intent.intent_name.is_some() == (at < n), "the first parser that finds an intent decides");
    check(res.intent.confidence_score == at.min(n - 1) as f32, "the confidence is that of the deciding, or last, parser");
    check(*asked.lock().unwrap() == (at + 1).min(n), "no parser is asked after the deciding one");
    let slots = engine.get_slots(typed(TYPED), "x").unwrap();
    check(slots.len() == (at < n) as usize, "the first parser that finds slots decides");
    check(slots.iter().all(|s| s.raw_value == format!("{}", at)), "the first parser that finds slots decides");
}

/// C17: many slots, far into a text, with more entities and alternatives than that
pub fn c17_many() {
    expect(&["builtin", "custom"]);
    let n = bound(12, 40);
    let far = [0, 250, 70000][choose("far", bound(2, 3))];
    let text: String = "é".repeat(far + 2 * n);
    let is_custom = choose_bool("custom");
    cover(if is_custom { "custom" } else { "builtin" });
    let missing = [0, n / 2, n - 1, n][choose("missing", 4)];
    let (entity, name) = if is_custom { ("ent", "cust") } else { ("snips/number", "num") };
    let slots: Vec<InternalSlot> = (0..n).map(|i| slot(&format!("{}", i), far + 2 * i..far + 2 * i + 1, entity, name)).collect();
    pe::reset();
    let engine = engine_with_slots(slots, false);
    let wanted = [0, 10, 300, usize::MAX][choose("alternatives", 4)];
    let t2 = text.clone();
    pe::script_builtin(Arc::new(move |t: &str, _: Option<&[BuiltinEntityKind]>, max: usize| {
        let mut v = vec![];
        // the last slot's entity comes first
        for i in (0..n).rev().filter(|i| t == t2 && *i != missing) {
            let mut e = builtin_entity("w", far + 2 * i..far + 2 * i + 1, BuiltinEntityKind::Number, i as f64, 0);
            e.alternatives = (0..max.min(20)).map(|k| number(k as f64)).collect();
            v.push(e);
        }
        Ok(v)
    }));
    let t3 = text.clone();
    pe::script_custom(Arc::new(move |t: &str, _: Option<&[String]>, max: usize| {
        let mut v = vec![];
        for i in (0..n).rev().filter(|i| t == t3 && *i != missing) {
            let mut e = custom_entity("w", far + 2 * i..far + 2 * i + 1, "ent", &format!("r{}", i), 0);
            e.alternative_resolved_values = (0..max.min(20)).map(|k| format!("{}", k)).collect();
            v.push(e);
        }
        Ok(v)
    }));
    let res = engine.parse_with_alternatives(&text, None, None, 0, wanted).unwrap();
    check(res.input == text, "the result carries the parsed text");
    let expected: Vec<usize> = (0..n).filter(|i| *i != missing).collect();
    check(res.slots.len() == expected.len(), "the slots that resolve are kept, the others dropped");
    for (s, i) in res.slots.iter().zip(expected.iter()) {
        check(s.range == (far + 2 * i..far + 2 * i + 1) && s.raw_value == format!("{}", i), "resolution keeps range and raw value");
        check(s.value == if is_custom { custom(&format!("r{}", i)) } else { number(*i as f64) }, "a slot gets the value of the entity at its place");
        check(s.alternatives.len() == wanted.min(20), "a slot gets the alternatives of its entity, as many as asked for");
    }
}
