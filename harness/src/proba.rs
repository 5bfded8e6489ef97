//! Probabilistic intent parser: a classifier and a slot filler per intent.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{CRFSlotFiller, IntentClassifier, IntentParser, LogRegIntentClassifier, ProbabilisticIntentParser, SlotFiller};
use crate::rt::*;
use std::sync::Arc;

/// C24: the intent is the classifier's, the slots are those of the slot filler of that intent
pub fn c24_probabilistic() {
    expect(&["intent", "no intent", "intent without slot filler", "slots", "unknown intent"]);
    choose_map_order();
    let shared = resources(&NO_RES);
    put("p/intent_parser.json", [
        "{\"slot_fillers\":[{\"intent\":\"A\",\"slot_filler_name\":\"fa\"},{\"intent\":\"B\",\"slot_filler_name\":\"fb\"}]}",
        "{\"slot_fillers\":[{\"intent\":\"B\",\"slot_filler_name\":\"fb\"},{\"intent\":\"A\",\"slot_filler_name\":\"fa\"}]}",
    ][choose("order", 2)]);
    put("p/intent_classifier/metadata.json", "{\"unit_name\":\"log_reg_intent_classifier\"}");
    put(
        "p/intent_classifier/intent_classifier.json",
        "{\"featurizer\":\"f\",\"intercept\":[-0.5,-0.25,0.0,-1.0],\"coeffs\":[[3,-1,-1],[-1,3,-2],[-1,-2,-2],[0,0,4]],\"intent_list\":[\"A\",\"B\",null,\"C\"]}",
    );
    put("p/intent_classifier/f/featurizer.json", "{\"language_code\":\"en\",\"tfidf_vectorizer\":\"t\",\"cooccurrence_vectorizer\":null}");
    put(
        "p/intent_classifier/f/t/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"vectorizer\":{\"idf_diag\":[1.0,1.0,1.0],\"vocab\":{\"a\":0,\"b\":1,\"c\":2}},\"config\":{\"use_stemming\":false,\"word_clusters_name\":null}}",
    );
    for (f, intent, mapping) in [("fa", "A", "{\"x\":\"ex\"}"), ("fb", "B", "{\"x\":\"fx\",\"y\":\"fy\"}")].iter() {
        put(&format!("p/{}/metadata.json", f), "{\"unit_name\":\"crf_slot_filler\"}");
        put(
            &format!("p/{}/slot_filler.json", f),
            &format!("{{\"language_code\":\"en\",\"intent\":\"{}\",\"slot_name_mapping\":{},\"crf_model_file\":\"m\",\"config\":{{\"tagging_scheme\":1,\"feature_factory_configs\":[{{\"factory_name\":\"length\",\"offsets\":[0],\"args\":{{}}}}]}}}}", intent, mapping),
        );
        put(&format!("p/{}/m", f), "x");
    }
    let parser = ProbabilisticIntentParser::from_path(root().join("p"), shared.clone()).expect("parser");
    let classifier = LogRegIntentClassifier::from_path(root().join("p/intent_classifier"), shared.clone()).expect("classifier");
    let fillers: Vec<CRFSlotFiller> = ["fa", "fb"].iter().map(|f| CRFSlotFiller::from_path(root().join("p").join(f), shared.clone()).expect("filler")).collect();
    let n = choose("words", bound(3, 4));
    let words: Vec<String> = (0..n).map(|_| any_text("word", 1, &[('a', 'd')])).collect();
    // the text as typed: spaces around it, accents, capital letters
    let mut text = words.join(" ");
    match choose("typed", 4) {
        0 => {}
        1 => text = format!(" {}  ", words.join("  ")),
        2 => text = text.to_uppercase(),
        _ => text = format!("\u{e9}{}", text),
    }
    let tags: Vec<String> = (0..n).map(|_| ["O", "B-x", "I-x", "B-y"][choose("tag", bound(3, 4))].to_string()).collect();
    let encoded: Vec<String> = tags.iter().map(|t| base64::encode(t)).collect();
    crfsuite::env::script_tag(Arc::new(move |_: usize| encoded.clone()));
    let filters: [Option<&[&str]>; 4] = [None, Some(&["A"]), Some(&["B", "C"]), Some(&[])];
    let filter = filters[choose("filter", 4)];
    let slots_of = |intent: &str| -> Option<Vec<InternalSlot>> {
        let f = match intent {
            "A" => &fillers[0],
            "B" => &fillers[1],
            _ => return None,
        };
        f.get_slots(&text).ok()
    };
    let expected = classifier.get_intent(&text, filter).unwrap();
    let res = parser.parse(&text, filter);
    match expected.intent_name.as_ref() {
        None => {
            cover("no intent");
            let res = res.unwrap();
            check(res.intent == expected && res.slots.is_empty(), "without an intent there are no slots");
        }
        Some(name) => match slots_of(name) {
            None => {
                cover_if(name == "C", "intent without slot filler");
                check(res.is_err(), "an intent whose slots cannot be filled is an error");
            }
            Some(slots) => {
                cover("intent");
                cover_if(!slots.is_empty(), "slots");
                let res = res.unwrap();
                check(res.intent == expected, "the intent and confidence are the classifier's");
                check(res.slots == slots, "the slots are those of the slot filler of the intent");
            }
        },
    }
    check(parser.get_intents(&text).unwrap() == classifier.get_intents(&text).unwrap(), "the intents are the classifier's");
    let asked = any_text("asked", 1, &[('A', 'D')]);
    match (parser.get_slots(&text, &asked), slots_of(&asked)) {
        (Ok(got), Some(slots)) => check(got == slots, "the slots of an intent are those of its slot filler"),
        (Err(_), None) => cover_if(asked == "D", "unknown intent"),
        _ => check(false, "slots are refused for intents without a slot filler only"),
    }
}

/// C25: entities replaced by placeholders, in texts of any length
pub fn c25_placeholders() {
    expect(&["nothing", "overlap", "long text", "multi-byte", "several"]);
    // the text starts with a filler of that many characters, all before the entities
    let offsets = [0, 1, 32757, 32766, 40000, 65534];
    let offset = offsets[choose("offset", bound(5, 6))];
    let long = offset > 1;
    let k = choose("entities", if long { 3 } else { 4 });
    let fixed = long || (k == 3 && offset == 0);
    let n = if long { 3 } else if fixed { bound(5, 6) } else { bound(6, 7) };
    assume(fixed || k < 3 || bound(0, 1) == 1);
    let tail = if fixed {
        "aébcçd".chars().take(n).collect()
    } else {
        any_text("text", n, &[('a', 'c'), ('é', 'é')])
    };
    let mut text = "x".repeat(offset);
    text.push_str(&tail);
    let names = ["e", "é long name", "é"];
    let mut entities = vec![];
    for i in 0..k {
        let a = choose("start", n);
        let b = a + 1 + choose("len", (n - a).min(3));
        entities.push(MatchedEntity { range: offset + a..offset + b, entity_name: names[i].to_string() });
    }
    let (mapping, processed) = replace_entities(&text, entities.clone(), |name| format!("<{}>", name));
    // the entities that are kept: the longest first, then the first given
    let mut left = entities.clone();
    let mut kept: Vec<MatchedEntity> = vec![];
    while !left.is_empty() {
        let mut best = 0;
        for i in 1..left.len() {
            if left[i].range.len() > left[best].range.len() {
                best = i;
            }
        }
        let e = left.remove(best);
        if kept.iter().all(|o| o.range.end <= e.range.start || e.range.end <= o.range.start) {
            kept.push(e);
        } else {
            cover("overlap");
        }
    }
    kept.sort_by_key(|e| e.range.start);
    let chars: Vec<char> = tail.chars().collect();
    let mut expected = "x".repeat(offset);
    let mut length = offset;
    let mut at = 0;
    for e in &kept {
        for c in &chars[at..e.range.start - offset] {
            expected.push(*c);
            length += 1;
        }
        let p = format!("<{}>", e.entity_name);
        expected.push_str(&p);
        let l = p.chars().count();
        check(mapping.get(&(length..length + l)) == Some(&e.range), "the range of a placeholder leads back to its entity");
        length += l;
        at = e.range.end - offset;
    }
    expected.extend(&chars[at..]);
    check(mapping.len() == kept.len(), "only placeholders have a range");
    check(processed == expected, "everything but the entities is kept");
    cover_if(kept.is_empty(), "nothing");
    cover_if(offset > 30000 && !kept.is_empty(), "long text");
    cover_if(kept.len() > 1, "several");
    cover_if(k > 0 && text.len() > offset + n, "multi-byte");
}
