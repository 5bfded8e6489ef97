//! Slot filler: tags of tokens, slots, and the features the tagger is given.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{CRFSlotFiller, SlotFiller};
use crate::rt::*;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{env as pe, GazetteerEntityMatch};
use snips_nlu_utils::language::Language as L;
use snips_nlu_utils::string::get_shape;
use snips_nlu_utils::token::{tokenize, Token};
use std::collections::HashMap;
use std::ops::Range;
use std::sync::Arc;

fn chars(s: &str) -> usize {
    s.chars().count()
}

/// `n` words, one or two characters each, some of several bytes, unevenly spaced
fn sentence(n: usize) -> String {
    let words = ["É", "bC", "日", "d", "F\u{308}g", "h"];
    let mut text = String::from([" ", ""][choose("lead", 2)]);
    let wide = choose_bool("wide");
    for i in 0..n {
        text.push_str(if i % 2 == 1 || wide { words[i] } else { ["a", "x", "b", "c", "d", "e"][i] });
        text.push_str(if i + 1 < n { [" ", " , "][i % 2] } else { "" });
    }
    text
}

struct Tag {
    out: bool,
    prefix: u8,
    name: u8,
}
fn any_tags(n: usize, scheme: usize) -> Vec<Tag> {
    (0..n)
        .map(|_| {
            if choose_bool("outside") {
                return Tag { out: true, prefix: 0, name: 0 };
            }
            let prefix = any_u8("prefix", b'B', b'U');
            let valid = match scheme {
                0 => prefix == b'I',
                1 => (prefix == b'I') | (prefix == b'B'),
                _ => (prefix == b'I') | (prefix == b'B') | (prefix == b'L') | (prefix == b'U'),
            };
            assume(valid);
            Tag { out: false, prefix, name: any_u8("name", b'x', b'y') }
        })
        .collect()
}
fn label(t: &Tag) -> String {
    if t.out {
        "O".to_string()
    } else {
        let mut s = String::new();
        s.push(t.prefix as char);
        s.push('-');
        s.push(t.name as char);
        s
    }
}
fn starts(tags: &[Tag], i: usize, scheme: usize) -> bool {
    if tags[i].out {
        return false;
    }
    if i == 0 || tags[i - 1].out {
        return true;
    }
    match scheme {
        0 => false,
        1 => tags[i].prefix == b'B',
        _ => (tags[i].prefix == b'B') | (tags[i].prefix == b'U') | (tags[i - 1].prefix == b'L') | (tags[i - 1].prefix == b'U'),
    }
}
fn scheme_of(k: usize) -> TaggingScheme {
    TaggingScheme::from_u8(k as u8).unwrap()
}
fn mapping() -> HashMap<String, String> {
    [("x", "ex"), ("y", "ey"), ("z", "ez")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// the slots a sequence of tags stands for
fn check_slots(text: &str, tokens: &[Token], tags: &[Tag], scheme: usize, slots: &[InternalSlot]) {
    faithful(text, slots);
    let mut k = 0;
    let mut i = 0;
    while i < tags.len() {
        if tags[i].out {
            i += 1;
            continue;
        }
        let start = i;
        let mut same = true;
        i += 1;
        while i < tags.len() && !tags[i].out && !starts(tags, i, scheme) {
            same &= tags[i].name == tags[start].name;
            i += 1;
        }
        check(k < slots.len(), "every run of tagged tokens is a slot");
        let s = &slots[k];
        check(
            s.char_range == (tokens[start].char_range.start..tokens[i - 1].char_range.end),
            "a slot goes from the first to the last of its tokens",
        );
        let n = s.slot_name.as_bytes();
        check(n.len() == 1 && (!same || n[0] == tags[start].name), "a slot has the name its tags give it");
        check(s.entity.as_bytes().len() == 2 && s.entity.as_bytes()[1] == n[0], "a slot has the entity of its name");
        k += 1;
    }
    check(k == slots.len(), "only runs of tagged tokens are slots");
}

/// C09: tags to slots
pub fn c09_tags() {
    expect(&["IO", "BIO", "BILOU", "adjacent slots", "slot at the end"]);
    let scheme = choose("scheme", 3);
    cover(["IO", "BIO", "BILOU"][scheme]);
    let n = choose("tokens", bound(5, 6));
    let text = sentence(n);
    let tokens = tokenize(&text, L::EN);
    check(tokens.len() == n, "tokens");
    let tags = any_tags(n, scheme);
    let labels: Vec<String> = tags.iter().map(label).collect();
    let slots = tags_to_slots(&text, &tokens, &labels, scheme_of(scheme), &mapping()).unwrap();
    cover_if(slots.len() > 1 && slots.windows(2).any(|w| w[1].char_range.start - w[0].char_range.end <= 1), "adjacent slots");
    cover_if(slots.last().map(|s| s.char_range.end == chars(&text)).unwrap_or(false), "slot at the end");
    check_slots(&text, &tokens, &tags, scheme, &slots);
}

/// C09: slots survive being turned into tags and back, as they do between training and parsing
pub fn c09_roundtrip() {
    expect(&["one token", "several tokens", "adjacent slots"]);
    let scheme = choose("scheme", 3);
    let n = 1 + choose("tokens", bound(5, 6));
    let text = sentence(n);
    let tokens = tokenize(&text, L::EN);
    let mut expected: Vec<(Range<usize>, &str)> = vec![];
    let mut tags: Vec<String> = vec![];
    let mut i = 0;
    let mut after_slot = false;
    while i < n {
        // outside, or a slot of 1.. tokens
        let len = choose("slot.len", (n - i).min(3) + 1);
        if len == 0 || (scheme == 0 && after_slot) {
            tags.push("O".to_string());
            i += 1;
            after_slot = false;
            continue;
        }
        let name = if expected.len() % 2 == 0 { "x" } else { "y" };
        let indexes: Vec<usize> = (i..i + len).collect();
        for k in i..i + len {
            tags.push(format!("{}{}", get_scheme_prefix(k, &indexes, scheme_of(scheme)), name));
        }
        expected.push((i..i + len, name));
        cover(if len == 1 { "one token" } else { "several tokens" });
        cover_if(after_slot, "adjacent slots");
        after_slot = true;
        i += len;
    }
    let slots = tags_to_slots(&text, &tokens, &tags, scheme_of(scheme), &mapping()).unwrap();
    check(slots.len() == expected.len(), "as many slots come back");
    for (s, (r, name)) in slots.iter().zip(expected.iter()) {
        check(
            s.char_range == (tokens[r.start].char_range.start..tokens[r.end - 1].char_range.end) && s.slot_name == *name,
            "every slot comes back at its place",
        );
    }
    faithful(&text, &slots);
}

fn filler(scheme: usize, features: &str, trained: bool, r: &Res) -> CRFSlotFiller {
    let shared = resources(r);
    put(
        "filler/slot_filler.json",
        &format!(
            "{{\"language_code\":\"en\",\"intent\":\"A\",\"slot_name_mapping\":{{\"x\":\"ex\",\"y\":\"ey\"}},\"crf_model_file\":{},\"config\":{{\"tagging_scheme\":{},\"feature_factory_configs\":[{}]}}}}",
            if trained { "\"model.crfsuite\"" } else { "null" },
            scheme,
            features
        ),
    );
    put("filler/model.crfsuite", "x");
    CRFSlotFiller::from_path(root().join("filler"), shared).expect("slot filler")
}

/// C09: the slot filler asks the tagger about the tokens of the text and decodes its tags
pub fn c09_filler() {
    expect(&["nothing to tag", "untrained", "slots", "unknown slot", "tagger fails"]);
    let trained = choose_bool("trained");
    let n = choose("tokens", bound(4, 5));
    let scheme = choose("scheme", 3);
    let f = filler(scheme, "{\"factory_name\":\"length\",\"offsets\":[0],\"args\":{}}", trained, &NO_RES);
    let text = if n == 0 { [" , ", ""][choose("blank", 2)].to_string() } else { sentence(n) };
    let tokens = tokenize(&text, L::EN);
    let tags = any_tags(n, scheme);
    let fails = trained && n > 0 && choose_bool("fails");
    let unknown = trained && n > 0 && !fails && choose_bool("unknown");
    let mut encoded: Vec<String> = tags.iter().map(|t| base64::encode(&label(t))).collect();
    if unknown {
        encoded[0] = base64::encode("B-unknown");
    }
    crfsuite::env::script_tag(Arc::new(move |k: usize| {
        check(k == n, "the tagger is given every token");
        if fails { vec!["***".to_string(); k] } else { encoded.clone() }
    }));
    let res = f.get_slots(&text);
    if n == 0 || !trained {
        cover(if trained { "nothing to tag" } else { "untrained" });
        check(res.unwrap().is_empty(), "without tokens or a model there are no slots");
        return;
    }
    if fails {
        cover("tagger fails");
        check(res.is_err(), "an undecodable tag is an error");
        return;
    }
    if unknown {
        cover("unknown slot");
        // the slot is named by the last of its tokens
        let alone = n == 1 || tags[1].out;
        check(!alone || res.is_err(), "a slot the intent does not have is an error");
        return;
    }
    cover("slots");
    check_slots(&text, &tokens, &tags, scheme, &res.unwrap());
}

/// C09: probability of a sequence of tags
pub fn c09_probability() {
    expect(&["untrained", "unseen tag", "seen tags"]);
    let trained = choose_bool("trained");
    let with_outside = choose_bool("outside is a label");
    let f = filler(1, "{\"factory_name\":\"length\",\"offsets\":[0],\"args\":{}}", trained, &NO_RES);
    let n = 1 + choose("tokens", 3);
    let text = sentence(n);
    let tokens = tokenize(&text, L::EN);
    let all = ["O", "B-x", "I-x", "B-y", "I-y"];
    let labels: Vec<&str> = if with_outside { vec!["B-x", "O", "I-x"] } else { vec!["I-x", "B-x"] };
    crfsuite::env::script_labels(labels.iter().map(|l| base64::encode(l)).collect(), 0.25);
    let tags: Vec<&str> = (0..n).map(|_| *pick("tag", &all)).collect();
    let p = f.get_sequence_probability(&tokens, tags.iter().map(|t| t.to_string()).collect()).unwrap();
    if !trained {
        cover("untrained");
        check(p == if tags.iter().all(|t| *t == "O") { 1. } else { 0. }, "without a model only the empty tagging is possible");
        return;
    }
    check(p == 0.25, "the probability is the tagger's");
    let seen = crfsuite::env::LAST_TAGS.lock().unwrap().clone();
    check(seen.len() == n, "every token has a tag");
    for (s, t) in seen.iter().zip(tags.iter()) {
        let e = if labels.contains(t) { *t } else if with_outside { "O" } else { "I-x" };
        cover(if e == *t { "seen tags" } else { "unseen tag" });
        check(*s == base64::encode(e), "tags the model has are kept, others are replaced by one it has");
    }
}

type Features = Vec<Vec<(String, String)>>;

/// the features of a token: those of its neighbours at their offset
fn check_features(got: &Features, base: &dyn Fn(usize) -> Vec<(String, String)>, offsets: &[i32]) {
    let n = got.len();
    for t in 0..n {
        let mut count = 0;
        for o in offsets.iter() {
            let at = t as i32 + *o;
            if at < 0 || at >= n as i32 {
                continue;
            }
            for (name, value) in base(at as usize) {
                let name = match *o {
                    0 => name,
                    o if o > 0 => format!("{}[+{}]", name, o),
                    o => format!("{}[-{}]", name, -o),
                };
                count += 1;
                check(got[t].iter().any(|(n, v)| *n == name && *v == value), "every feature of a token, and of those around it, is there");
            }
        }
        check(got[t].len() == count, "a token has no other features");
    }
}

fn normalized(c: char) -> char {
    match c {
        'B' | 'b' => 'b',
        'é' => 'e',
        c => c,
    }
}

/// C10: features of words
pub fn c10_words() {
    expect(&["digits", "stemmed", "rare word", "cluster", "two tokens"]);
    let n = 1 + choose("len", bound(3, 4));
    let stemming = choose_bool("stemming");
    // a digit, or a numeral that is none of 0 to 9
    let digit = if stemming { '٣' } else { '5' };
    let text = any_text("text", n, &[('a', 'b'), ('B', 'B'), ('é', 'é'), (digit, digit), (' ', ' ')]);
    let rare = choose_bool("gazetteer");
    let offsets: [&[i32]; 2] = [&[0, 1], &[-1, 2]];
    let offsets = offsets[choose("offsets", 2)];
    let o: Vec<String> = offsets.iter().map(|o| o.to_string()).collect();
    let o = o.join(",");
    let mut config = vec![];
    let mut add = |name: &str, args: &str| config.push(format!("{{\"factory_name\":\"{}\",\"offsets\":[{}],\"args\":{{{}}}}}", name, o, args));
    let ngram = |k: usize| {
        format!(
            "\"n\":{},\"use_stemming\":{},\"common_words_gazetteer_name\":{}",
            k,
            stemming,
            if rare { "\"common\"" } else { "null" }
        )
    };
    add("is_digit", "");
    add("length", "");
    add("is_first", "");
    add("is_last", "");
    add("ngram", &ngram(1));
    add("ngram", &ngram(2));
    add("shape_ngram", "\"n\":1");
    add("shape_ngram", "\"n\":2");
    add("prefix", "\"prefix_size\":2");
    add("suffix", "\"suffix_size\":2");
    add("word_cluster", "\"cluster_name\":\"k\"");
    let f = filler(
        0,
        &config.join(","),
        true,
        &Res {
            stems: &[("a", &["ab"]), ("É", &["e"])],
            gazetteers: &[("common", &["a", "bb"])],
            clusters: &[("k", &[("ab", "c1"), ("é", "c2")])],
            ..NO_RES
        },
    );
    // oracle
    let mut words: Vec<Vec<char>> = vec![];
    let mut inside = false;
    for c in text.chars() {
        if c != ' ' {
            if !inside {
                words.push(vec![]);
            }
            words.last_mut().unwrap().push(c);
        }
        inside = c != ' ';
    }
    let string = |v: &[char]| v.iter().collect::<String>();
    let got = f.compute_features(&text).unwrap();
    check(got.len() == words.len(), "every token has features");
    cover_if(words.len() == 2, "two tokens");
    let stem = |i: usize| -> String {
        let w: String = words[i].iter().map(|c| normalized(*c)).collect();
        let w = if stemming && (w == "ab" || w == "e") {
            cover("stemmed");
            // a stem is what the stems' file says
            if w == "ab" { "a" } else { "É" }.to_string()
        } else {
            w
        };
        if rare && w != "a" && w != "bb" {
            cover("rare word");
            "rare_word".to_string()
        } else {
            w
        }
    };
    let base = |i: usize| -> Vec<(String, String)> {
        let w = &words[i];
        let norm: Vec<char> = w.iter().map(|c| normalized(*c)).collect();
        let mut v: Vec<(String, String)> = vec![];
        let mut add = |n: &str, x: String| v.push((n.to_string(), x));
        if w.iter().all(|c| *c == '5') {
            cover("digits");
            add("is_digit", "1".to_string());
        }
        add("length", w.len().to_string());
        if i == 0 {
            add("is_first", "1".to_string());
        }
        if i + 1 == words.len() {
            add("is_last", "1".to_string());
        }
        add("ngram_1", stem(i));
        add("shape_ngram_1", get_shape(&string(w)));
        if i + 1 < words.len() {
            add("ngram_2", format!("{} {}", stem(i), stem(i + 1)));
            add("shape_ngram_2", format!("{} {}", get_shape(&string(w)), get_shape(&string(&words[i + 1]))));
        }
        if w.len() >= 2 {
            add("prefix_2", string(&norm[..2]));
            add("suffix_2", string(&norm[norm.len() - 2..]));
        }
        let lower: Vec<char> = w.iter().map(|c| if *c == 'B' { 'b' } else { *c }).collect();
        if lower == ['a', 'b'] || lower == ['é'] {
            cover("cluster");
            add("word_cluster_k", if lower.len() == 2 { "c1" } else { "c2" }.to_string());
        }
        v
    };
    check_features(&got, &base, offsets);
}

/// C10: features of entities
pub fn c10_entities() {
    expect(&["no entity", "one token", "several tokens", "shorter stem"]);
    let scheme = choose("scheme", 3);
    let stemming = choose_bool("stemming");
    // " walked, é on 日日": stems and separators move the words
    let text = " walked, É on 日日";
    let spans = [1..7, 9..10, 11..13, 14..16];
    let words = [if stemming { "walk" } else { "walked" }, "e", "on", "日日"];
    let mut at = vec![];
    let mut p = 0;
    for w in words.iter() {
        at.push(p..p + chars(w));
        p += chars(w) + 1;
    }
    // any range of the text given to the parsers
    let len = p - 1;
    let a = any_usize("custom.start", 0, len - 1);
    let b = any_usize("custom.end", 1, len);
    assume(a < b);
    let c = any_usize("builtin.start", 1, 15);
    let d = any_usize("builtin.end", 2, 16);
    assume(c < d);
    let with_custom = choose_bool("custom");
    let with_builtin = choose_bool("builtin");
    let args = format!("\"tagging_scheme_code\":{},\"use_stemming\":{}", scheme, stemming);
    let f = filler(
        1,
        &format!(
            "{{\"factory_name\":\"entity_match\",\"offsets\":[0,-1],\"args\":{{\"entities\":[\"ex\",\"ey\"],{}}}}},{{\"factory_name\":\"builtin_entity_match\",\"offsets\":[0,-1],\"args\":{{\"entity_labels\":[\"snips/number\"],{}}}}}",
            args, args
        ),
        true,
        &Res { stems: &[("walk", &["walked", "walking"])], ..NO_RES },
    );
    let expected_text = words.join(" ");
    pe::script_custom(Arc::new(move |t: &str, scope: Option<&[String]>, _: usize| {
        check(t == expected_text, "custom entities are looked for in the normalised words");
        let scope = scope.unwrap();
        check(scope.len() == 1, "one entity at a time");
        Ok(if with_custom && scope[0] == "ex" {
            vec![GazetteerEntityMatch {
                value: "v".to_string(),
                resolved_value: "v".to_string(),
                alternative_resolved_values: vec![],
                range: a..b,
                entity_identifier: "ex".to_string(),
            }]
        } else {
            vec![]
        })
    }));
    pe::script_builtin(Arc::new(move |t: &str, scope: Option<&[BuiltinEntityKind]>, _: usize| {
        check(t == " walked  é on 日日", "builtin entities are looked for in the words at their places");
        check(scope == Some(&[BuiltinEntityKind::Number][..]), "one entity at a time");
        Ok(if with_builtin {
            vec![BuiltinEntity { value: "v".to_string(), range: c..d, entity: number(1.), alternatives: vec![], entity_kind: BuiltinEntityKind::Number }]
        } else {
            vec![]
        })
    }));
    let got = f.compute_features(text).unwrap();
    check(got.len() == 4, "every token has features");
    let prefix = |spans: &[Range<usize>], a: usize, b: usize, i: usize| -> Option<&str> {
        let inside: Vec<usize> = (0..4).filter(|k| spans[*k].start < b && a < spans[*k].end).collect();
        if !inside.contains(&i) {
            return None;
        }
        cover(if inside.len() == 1 { "one token" } else { "several tokens" });
        Some(match scheme {
            0 => "I-",
            1 => if inside[0] == i { "B-" } else { "I-" },
            _ => {
                if inside.len() == 1 {
                    "U-"
                } else if inside[0] == i {
                    "B-"
                } else if inside[inside.len() - 1] == i {
                    "L-"
                } else {
                    "I-"
                }
            }
        })
    };
    let base = |i: usize| -> Vec<(String, String)> {
        let mut v = vec![];
        if with_custom {
            if let Some(p) = prefix(&at, a, b, i) {
                cover_if(stemming, "shorter stem");
                v.push(("entity_match_ex".to_string(), p.to_string()));
            }
        }
        if with_builtin {
            if let Some(p) = prefix(&spans, c, d, i) {
                v.push(("builtin_entity_match_snips/number".to_string(), p.to_string()));
            }
        }
        cover_if(v.is_empty(), "no entity");
        v
    };
    check_features(&got, &base, &[0, -1]);
}

/// C10: lists of entities, in any order, one over another
pub fn c10_entity_lists() {
    expect(&["first of several", "second of the list", "second entity of the factory", "no entity"]);
    let text = "aa b, cc d";
    let spans = [0..2, 3..4, 6..8, 9..10];
    // custom entities are looked for in the words, one space apart
    let at = [0..2, 3..4, 5..7, 8..9];
    let stemming = choose_bool("stemming");
    let builtins = choose_bool("builtin");
    let n = 1 + choose("entities", 2);
    let len = if builtins { 10 } else { 9 };
    let mut ranges: Vec<Range<usize>> = vec![];
    for _ in 0..n {
        let a = any_usize("start", 0, len - 1);
        let b = any_usize("end", 1, len);
        assume(a < b);
        ranges.push(a..b);
    }
    // the entity of the list these ranges are of
    let which = choose("which", 2);
    let args = format!("\"tagging_scheme_code\":2,\"use_stemming\":{}", stemming);
    let f = filler(
        2,
        &format!(
            "{{\"factory_name\":\"entity_match\",\"offsets\":[0],\"args\":{{\"entities\":[\"ex\",\"ey\"],{}}}}},{{\"factory_name\":\"builtin_entity_match\",\"offsets\":[0],\"args\":{{\"entity_labels\":[\"snips/number\",\"snips/percentage\"],{}}}}}",
            args, args
        ),
        true,
        &Res { stems: &[("dd", &["zz"])], ..NO_RES },
    );
    let customs: Vec<GazetteerEntityMatch<String>> = ranges
        .iter()
        .map(|r| GazetteerEntityMatch {
            value: "v".to_string(),
            resolved_value: "v".to_string(),
            alternative_resolved_values: vec![],
            range: r.clone(),
            entity_identifier: ["ex", "ey"][which].to_string(),
        })
        .collect();
    let kinds = [BuiltinEntityKind::Number, BuiltinEntityKind::Percentage];
    let found: Vec<BuiltinEntity> = ranges
        .iter()
        .map(|r| BuiltinEntity { value: "v".to_string(), range: r.clone(), entity: number(1.), alternatives: vec![], entity_kind: kinds[which] })
        .collect();
    pe::script_custom(Arc::new(move |_: &str, scope: Option<&[String]>, _: usize| {
        Ok(if !builtins && scope.map_or(true, |s| s.iter().any(|e| e == ["ex", "ey"][which])) { customs.clone() } else { vec![] })
    }));
    pe::script_builtin(Arc::new(move |_: &str, scope: Option<&[BuiltinEntityKind]>, _: usize| {
        Ok(if builtins && scope.map_or(true, |s| s.contains(&kinds[which])) { found.clone() } else { vec![] })
    }));
    let got = f.compute_features(text).unwrap();
    check(got.len() == 4, "every token has features");
    let spans = if builtins { &spans } else { &at };
    let base = |i: usize| -> Vec<(String, String)> {
        let over = |k: usize, r: &Range<usize>| spans[k].start < r.end && r.start < spans[k].end;
        let entity = match ranges.iter().position(|r| over(i, r)) {
            None => {
                cover("no entity");
                return vec![];
            }
            Some(p) => p,
        };
        cover_if(entity == 1, "second of the list");
        cover_if(entity == 0 && n == 2 && over(i, &ranges[1]), "first of several");
        cover_if(which == 1, "second entity of the factory");
        let before = i > 0 && over(i - 1, &ranges[entity]);
        let after = i < 3 && over(i + 1, &ranges[entity]);
        let prefix = match (before, after) {
            (false, false) => "U-",
            (false, true) => "B-",
            (true, true) => "I-",
            (true, false) => "L-",
        };
        let name = if builtins {
            ["builtin_entity_match_snips/number", "builtin_entity_match_snips/percentage"][which]
        } else {
            ["entity_match_ex", "entity_match_ey"][which]
        };
        vec![(name.to_string(), prefix.to_string())]
    };
    check_features(&got, &base, &[0]);
}

/// C10: pieces of words
pub fn c10_chunks() {
    expect(&["piece", "out of the word"]);
    let n = choose("len", 5);
    let word = any_text("word", n, &[('a', 'z'), ('à', 'ÿ')]);
    let size = any_usize("size", 0, 6);
    let start = any_usize("start", 0, 6);
    let reverse = choose_bool("reverse");
    let got = get_word_chunk(&word, size, start, reverse);
    let first = if reverse { start as i64 - size as i64 } else { start as i64 };
    let inside = first >= 0 && first as usize + size <= n;
    match got {
        None => {
            cover("out of the word");
            check(!inside, "a piece inside the word is returned");
        }
        Some(s) => {
            cover("piece");
            check(inside, "nothing outside the word is returned");
            let e: String = word.chars().skip(first as usize).take(size).collect();
            check(s == e, "the piece has its size and place");
        }
    }
}

// ---- many of everything

/// C09: many tokens, long slots, many slots
pub fn c09_many() {
    expect(&["long slot", "many slots"]);
    let n = bound(300, 600);
    let scheme = choose("scheme", 3);
    let words: Vec<String> = (0..n).map(|i| ["é", "longer", "日"][i % 3].to_string()).collect();
    let text = words.join(" ");
    let tokens = tokenize(&text, L::EN);
    check(tokens.len() == n, "tokens");
    // slots of that many tokens, a token outside after each
    let len = [1, 2, 150, 256, n][choose("slot length", 5)];
    let last = choose_bool("last outside");
    let mut tags: Vec<Tag> = vec![];
    let mut expected: Vec<(usize, usize)> = vec![];
    while tags.len() < n {
        let a = tags.len();
        for i in 0..len.min(n - a) {
            let k = len.min(n - a);
            let prefix = match scheme {
                0 => b'I',
                1 => if i == 0 { b'B' } else { b'I' },
                _ => if k == 1 { b'U' } else if i == 0 { b'B' } else if i + 1 == k { b'L' } else { b'I' },
            };
            tags.push(Tag { out: false, prefix, name: b'x' + (expected.len() % 2) as u8 });
        }
        expected.push((a, tags.len() - 1));
        if tags.len() < n {
            tags.push(Tag { out: true, prefix: 0, name: 0 });
        }
    }
    if last && !tags[n - 1].out {
        let k = expected.len() - 1;
        if expected[k].0 == n - 1 {
            expected.pop();
        } else {
            expected[k].1 = n - 2;
        }
        tags[n - 1] = Tag { out: true, prefix: 0, name: 0 };
    }
    let labels: Vec<String> = tags.iter().map(label).collect();
    let f = filler(scheme, "{\"factory_name\":\"length\",\"offsets\":[0],\"args\":{}}", true, &NO_RES);
    crfsuite::env::script_tag(Arc::new(move |_: usize| labels.iter().map(|l| base64::encode(l)).collect()));
    let slots = f.get_slots(&text).unwrap();
    cover_if(len > 100, "long slot");
    cover_if(expected.len() > 90, "many slots");
    check(slots.len() == expected.len(), "every run of tagged tokens is a slot");
    for (s, (a, b)) in slots.iter().zip(expected.iter()) {
        check(s.char_range == (tokens[*a].char_range.start..tokens[*b].char_range.end), "a slot goes from the first to the last of its tokens");
    }
    faithful(&text, &slots);
}

/// C10: many tokens, long words, far neighbours
pub fn c10_many() {
    let n = 300;
    let offsets: &[i32] = [&[0, 1, 255, 256, 299, 300][..], &[-1, -128, -256, -299, -300]][choose("offsets", 2)];
    let o: Vec<String> = offsets.iter().map(|o| o.to_string()).collect();
    let config: Vec<String> = [("length", ""), ("is_first", ""), ("is_last", ""), ("suffix", "\"suffix_size\":257")]
        .iter()
        .map(|(name, args)| format!("{{\"factory_name\":\"{}\",\"offsets\":[{}],\"args\":{{{}}}}}", name, o.join(","), args))
        .collect();
    let f = filler(0, &config.join(","), true, &NO_RES);
    // a word longer than the others
    let (at, long) = ([0, 1, n - 1][choose("place", 3)], [255, 256, 257, 300][choose("length", 4)]);
    let words: Vec<String> = (0..n).map(|i| if i == at { "aéb".repeat(100).chars().take(long).collect() } else { format!("w{}", i) }).collect();
    let got = f.compute_features(&words.join(" ")).unwrap();
    check(got.len() == n, "every token has features");
    let base = |i: usize| -> Vec<(String, String)> {
        let mut v = vec![("length".to_string(), words[i].chars().count().to_string())];
        if i == 0 {
            v.push(("is_first".to_string(), "1".to_string()));
        }
        if i + 1 == n {
            v.push(("is_last".to_string(), "1".to_string()));
        }
        if i == at && long >= 257 {
            let s: String = words[i].chars().skip(long - 257).map(normalized).collect();
            v.push(("suffix_257".to_string(), s));
        }
        v
    };
    check_features(&got, &base, offsets);
}
