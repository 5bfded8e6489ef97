//! Loading of resources, models and zip archives.
use crate::env::*;
use crate::lib::verif_hooks::*;
use crate::lib::{ProcessingUnitMetadata, SnipsNluEngine, MODEL_VERSION};
use crate::model::*;
use crate::rt::*;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::{Path, PathBuf};

fn shared_from(base: &str) -> crate::lib::Result<std::sync::Arc<crate::lib::SharedResources>> {
    let b = root().join(base);
    load_shared_resources(b.join("resources/en"), b.join("builtin_entity_parser"), b.join("custom_entity_parser"))
}

fn line_end() -> &'static str {
    ["\n", "\r\n"][choose("line end", 2)]
}
fn word(name: &str, max: usize) -> String {
    let n = 1 + choose(&format!("{}.len", name), max);
    any_text(name, n, &[('a', 'c'), ('"', '"'), ('é', 'é')])
}

/// C23: stems
pub fn c23_stemmer() {
    expect(&["stemmed", "unknown word", "listed twice", "normalised"]);
    let lines = bound(2, 3);
    let mut text = String::from(["", "\n"][choose("blank line", 2)]);
    let mut all: Vec<(String, String)> = vec![];
    for i in 0..lines {
        let stem = ["run", "x", "ré"][i];
        text.push_str(stem);
        for _ in 0..if i == 0 { 2 } else { 1 } {
            let w = word("word", 1);
            text.push(',');
            text.push_str(&w);
            all.push((w, stem.to_string()));
        }
        if i + 1 < lines || choose_bool("last line ends") {
            text.push_str(line_end());
        }
    }
    write_resources("res", &Res { stems: &[("z", &["z"])], ..NO_RES });
    put("res/resources/en/stemming/stems.txt", &text);
    let shared = shared_from("res").expect("resources");
    let query = any_text("query", 1, &[('a', 'c'), ('A', 'C'), ('"', '"'), ('é', 'é')]);
    let normalized: String = query.chars().map(|c| if c == 'é' { 'e' } else { c.to_ascii_lowercase() }).collect();
    let listed: Vec<&(String, String)> = all.iter().filter(|(w, _)| *w == normalized).collect();
    let got = shared.stemmer.as_ref().expect("stemmer").stem(&query);
    match listed.last() {
        Some((_, stem)) => {
            cover("stemmed");
            cover_if(listed.len() > 1, "listed twice");
            cover_if(query != normalized, "normalised");
            check(got == *stem, "the stem of a word is that of the last line it is on");
        }
        None => {
            cover("unknown word");
            check(got == query, "a word without a stem is its own stem");
        }
    }
}

/// C23: gazetteers and stop words
pub fn c23_words() {
    expect(&["known", "unknown"]);
    let stop = choose_bool("stop words");
    let mut text = String::new();
    let mut all: Vec<String> = vec![];
    let n = choose("lines", bound(3, 4));
    for i in 0..n {
        let w = if choose_bool("empty line") { String::new() } else { word("word", 2) };
        text.push_str(&w);
        if i + 1 < n || choose_bool("last line ends") {
            text.push_str(line_end());
        }
        all.push(w);
    }
    write_resources("res", &Res { gazetteers: &[("g", &["z"]), ("h", &["b"])], stop_words: &["b"], ..NO_RES });
    put(if stop { "res/resources/en/stop_words.txt" } else { "res/resources/en/gazetteers/g.txt" }, &text);
    let shared = shared_from("res").expect("resources");
    let query = if choose_bool("empty") { String::new() } else { word("query", 2) };
    let known = !query.is_empty() && all.iter().any(|w| *w == query);
    cover(if known { "known" } else { "unknown" });
    if stop {
        check(shared.stop_words.contains(&query) == known, "the stop words are the words of the file");
    } else {
        check(shared.gazetteers["g"].contains(&query) == known, "a gazetteer has the words of its file");
        check(shared.gazetteers["h"].contains(&query) == (query == "b"), "another gazetteer has its own words");
    }
}

/// C23: word clusters
pub fn c23_clusters() {
    expect(&["numbers", "not numbers", "both", "malformed", "unknown word"]);
    let n = 1 + choose("lines", bound(2, 3));
    let mut text = String::new();
    let mut all: Vec<(String, String)> = vec![];
    let malformed = choose("malformed", 3);
    for i in 0..n {
        let w = any_text("word", 1, &[('a', 'b'), ('"', '"')]);
        let len = 1 + choose("label.len", bound(2, 3));
        let label = if i == 0 && choose_bool("label.long") {
            // a number of 4 to 6 digits: some are too large for a u16
            any_text("label", 3 + len, &[('0', '9')])
        } else {
            any_text("label", len, &[('0', '9'), ('+', '+'), ('x', 'y')])
        };
        text.push_str(&w);
        match malformed {
            1 if i + 1 == n => text.push_str("\tx\ty"),
            2 => (),
            _ => {
                text.push('\t');
                text.push_str(&label);
            }
        }
        text.push_str(line_end());
        all.push((w, label));
    }
    write_resources("res", &Res { clusters: &[("k", &[("z", "1")]), ("l", &[("a", "7")])], ..NO_RES });
    put("res/resources/en/word_clusters/k.txt", &text);
    let shared = shared_from("res");
    if malformed > 0 && !(malformed == 1 && n == 1) {
        cover("malformed");
        check(shared.is_err(), "a malformed file is refused");
        return;
    }
    if malformed > 0 {
        return;
    }
    let shared = shared.expect("resources");
    let query = any_text("query", 1, &[('a', 'c'), ('"', '"')]);
    let numbers = all.iter().filter(|(_, l)| l.chars().all(|c| c.is_ascii_digit())).count();
    cover(if numbers == n { "numbers" } else if numbers == 0 { "not numbers" } else { "both" });
    let expected = all.iter().filter(|(w, _)| *w == query).last().map(|(_, l)| l.clone());
    cover_if(expected.is_none(), "unknown word");
    check(shared.word_clusterers["k"].get_cluster(&query) == expected, "the cluster of a word is the label its last line gives");
    check(shared.word_clusterers["l"].get_cluster("a") == Some("7".to_string()), "other clusters have their own labels");
}

/// C19: a model is loaded if it has the supported version, and only then
pub fn c19_version() {
    expect(&["supported", "unsupported", "supported length"]);
    let n = choose("len", bound(8, 10));
    let classes = [('#', '['), (' ', '!'), (']', '~'), ('é', 'ê')];
    let version = any_text("version", n, if n > MODEL_VERSION.len() { &classes[..bound(1, 2)] } else { &classes });
    write_engine(&engine_files(&version, ""));
    // models of other versions need not have the fields of this one
    let fields = choose_bool("fields");
    if !fields {
        put("engine/nlu_engine.json", &format!("{{\"model_version\":\"{}\",\"dataset_metadata\":[],\"x\":{{\"model_version\":1}}}}", version));
    }
    let res = SnipsNluEngine::from_path(root().join("engine"));
    if version == MODEL_VERSION {
        cover("supported");
        check(res.is_ok() == fields, "a model of the supported version is loaded");
    } else {
        cover("unsupported");
        cover_if(n == MODEL_VERSION.len(), "supported length");
        check(res.is_err(), "a model of another version is refused");
        let told = format!("Mismatched model version: model is {} but runner is {}", version, MODEL_VERSION);
        check(
            res.err().unwrap().iter_chain().any(|c| c.to_string() == told),
            "the error tells that the version is the reason",
        );
    }
}

const UNITS: [&str; 5] = [
    "lookup_intent_parser",
    "deterministic_intent_parser",
    "probabilistic_intent_parser",
    "log_reg_intent_classifier",
    "crf_slot_filler",
];

/// C19: a processing unit is only loaded where its kind belongs
pub fn c19_units() {
    expect(&["accepted", "refused"]);
    // where: intent parser, intent classifier, slot filler
    let (folder, good): (&str, &str) = [
        ("lookup", "lookup_intent_parser"),
        ("det", "deterministic_intent_parser"),
        ("proba", "probabilistic_intent_parser"),
        ("proba/intent_classifier", "log_reg_intent_classifier"),
        ("proba/filler", "crf_slot_filler"),
    ][choose("place", 5)];
    // the name of some unit, with any two characters in the place of two of its own
    let base = UNITS[choose("base", 5)];
    let at = choose("at", if folder == "det" || folder == "proba" { bound(1, 27) } else { bound(3, 27) });
    let at = if at == 0 { 0 } else { (at * bound(7, 1)).min(base.len() - 2) };
    let name = format!("{}{}{}", &base[..at], any_text("name", 2, &[('_', 'z')]), &base[at + 2..]);
    let name = if choose_bool("cut") { name[..base.len() - 1].to_string() } else { name };
    let parser = folder.split('/').next().unwrap();
    let mut files = engine_files(MODEL_VERSION, &format!("\"{}\"", parser));
    for f in &mut files {
        if f.0 == format!("{}/metadata.json", folder) {
            f.1 = format!("{{\"unit_name\":\"{}\"}}", name);
        }
    }
    write_engine(&files);
    let res = SnipsNluEngine::from_path(root().join("engine"));
    cover(if name == good { "accepted" } else { "refused" });
    check(res.is_ok() == (name == good), "a processing unit is accepted only in its place, with its own model");
}

/// C19: of all names, five are names of processing units
pub fn c19_unit_names() {
    use serde::de::value::{Error, MapDeserializer};
    use serde::Deserialize;
    expect(&["unit", "no unit", "other key"]);
    let n = choose("len", bound(33, 41));
    let name = any_text("name", n, &[('A', '~')]);
    let key = if choose_bool("key") { any_text("key", 8 + choose("key.len", 3), &[('A', '~')]) } else { "unit_name".to_string() };
    let fields = vec![(key.as_str(), name.as_str()), ("other", "lookup_intent_parser")];
    let res: Result<ProcessingUnitMetadata, Error> =
        ProcessingUnitMetadata::deserialize(MapDeserializer::new(fields.into_iter()));
    use crate::lib::ProcessingUnitMetadata::*;
    let units = [
        ("lookup_intent_parser", LookupIntentParser),
        ("deterministic_intent_parser", DeterministicIntentParser),
        ("probabilistic_intent_parser", ProbabilisticIntentParser),
        ("log_reg_intent_classifier", LogRegIntentClassifier),
        ("crf_slot_filler", CrfSlotFiller),
    ];
    let expected = if key == "unit_name" { units.iter().find(|u| name == u.0).map(|u| u.1) } else { None };
    cover(if expected.is_some() { "unit" } else { "no unit" });
    cover_if(key != "unit_name", "other key");
    check(res.ok() == expected, "a name is that of one kind of processing unit, or of none");
}

/// a key of a file of the model: may it be missing, may it be null
const FIELDS: [(&str, &str, bool, bool); 73] = [
    ("nlu_engine.json", "dataset_metadata", false, false),
    ("nlu_engine.json", "language_code", false, false),
    ("nlu_engine.json", "entities", false, false),
    ("nlu_engine.json", "automatically_extensible", false, false),
    ("nlu_engine.json", "slot_name_mappings", false, false),
    ("nlu_engine.json", "intent_parsers", false, false),
    ("nlu_engine.json", "model_version", false, false),
    ("nlu_engine.json", "training_package_version", false, false),
    ("nlu_engine.json", "builtin_entity_parser", false, false),
    ("nlu_engine.json", "custom_entity_parser", false, false),
    ("det/metadata.json", "unit_name", false, false),
    ("det/intent_parser.json", "language_code", false, false),
    ("det/intent_parser.json", "patterns", false, false),
    ("det/intent_parser.json", "group_names_to_slot_names", false, false),
    ("det/intent_parser.json", "slot_names_to_entities", false, false),
    ("det/intent_parser.json", "stop_words_whitelist", true, false),
    ("det/intent_parser.json", "config", false, false),
    ("det/intent_parser.json", "ignore_stop_words", true, false),
    ("lookup/metadata.json", "unit_name", false, false),
    ("lookup/intent_parser.json", "language_code", false, false),
    ("lookup/intent_parser.json", "slots_names", false, false),
    ("lookup/intent_parser.json", "intents_names", false, false),
    ("lookup/intent_parser.json", "map", false, false),
    ("lookup/intent_parser.json", "entity_scopes", false, false),
    ("lookup/intent_parser.json", "intent_group", false, false),
    ("lookup/intent_parser.json", "entity_scope", false, false),
    ("lookup/intent_parser.json", "builtin", false, false),
    ("lookup/intent_parser.json", "custom", false, false),
    ("lookup/intent_parser.json", "stop_words_whitelist", false, false),
    ("lookup/intent_parser.json", "config", false, false),
    ("lookup/intent_parser.json", "ignore_stop_words", true, false),
    ("proba/metadata.json", "unit_name", false, false),
    ("proba/intent_parser.json", "slot_fillers", false, false),
    ("proba/intent_parser.json", "intent", false, false),
    ("proba/intent_parser.json", "slot_filler_name", false, false),
    ("proba/intent_classifier/metadata.json", "unit_name", false, false),
    ("proba/intent_classifier/intent_classifier.json", "featurizer", true, true),
    ("proba/intent_classifier/intent_classifier.json", "intercept", true, true),
    ("proba/intent_classifier/intent_classifier.json", "coeffs", true, true),
    ("proba/intent_classifier/intent_classifier.json", "intent_list", false, false),
    ("proba/intent_classifier/f/featurizer.json", "language_code", false, false),
    ("proba/intent_classifier/f/featurizer.json", "tfidf_vectorizer", false, false),
    ("proba/intent_classifier/f/featurizer.json", "cooccurrence_vectorizer", true, true),
    ("proba/intent_classifier/f/t/vectorizer.json", "language_code", false, false),
    ("proba/intent_classifier/f/t/vectorizer.json", "builtin_entity_scope", false, false),
    ("proba/intent_classifier/f/t/vectorizer.json", "vectorizer", false, false),
    ("proba/intent_classifier/f/t/vectorizer.json", "idf_diag", false, false),
    ("proba/intent_classifier/f/t/vectorizer.json", "vocab", false, false),
    ("proba/intent_classifier/f/t/vectorizer.json", "config", false, false),
    ("proba/intent_classifier/f/t/vectorizer.json", "use_stemming", false, false),
    ("proba/intent_classifier/f/t/vectorizer.json", "word_clusters_name", true, true),
    ("proba/intent_classifier/f/c/vectorizer.json", "language_code", false, false),
    ("proba/intent_classifier/f/c/vectorizer.json", "builtin_entity_scope", false, false),
    ("proba/intent_classifier/f/c/vectorizer.json", "word_pairs", false, false),
    ("proba/intent_classifier/f/c/vectorizer.json", "config", false, false),
    ("proba/intent_classifier/f/c/vectorizer.json", "window_size", true, true),
    ("proba/intent_classifier/f/c/vectorizer.json", "filter_stop_words", false, false),
    ("proba/intent_classifier/f/c/vectorizer.json", "keep_order", false, false),
    ("proba/intent_classifier/f/c/vectorizer.json", "unknown_words_replacement_string", true, true),
    ("proba/filler/metadata.json", "unit_name", false, false),
    ("proba/filler/slot_filler.json", "language_code", false, false),
    ("proba/filler/slot_filler.json", "intent", false, false),
    ("proba/filler/slot_filler.json", "slot_name_mapping", false, false),
    ("proba/filler/slot_filler.json", "crf_model_file", true, true),
    ("proba/filler/slot_filler.json", "config", false, false),
    ("proba/filler/slot_filler.json", "tagging_scheme", false, false),
    ("proba/filler/slot_filler.json", "feature_factory_configs", false, false),
    ("proba/filler/slot_filler.json", "factory_name", false, false),
    ("proba/filler/slot_filler.json", "offsets", false, false),
    ("proba/filler/slot_filler.json", "args", false, false),
    ("proba/filler/slot_filler.json", "n", false, false),
    ("proba/filler/slot_filler.json", "use_stemming", false, false),
    ("proba/filler/slot_filler.json", "cluster_name", false, false),
];

/// C19: a file without one of its fields is refused, unless the field is optional; what the engine
/// does not know is skipped
pub fn c19_fields() {
    expect(&["optional", "required", "null accepted", "null refused", "unknown field"]);
    let (file, key, missing, null) = *pick("field", &FIELDS);
    let mut files = engine_files(MODEL_VERSION, &match file.find('/') {
        Some(n) => format!("\"{}\"", &file[..n]),
        None => String::new(),
    });
    let f = files.iter_mut().find(|f| f.0 == file).unwrap();
    let quoted = format!("\"{}\":", key);
    assert!(f.1.contains(&quoted));
    let (by, ok) = match choose("change", 3) {
        0 => {
            cover(if missing { "optional" } else { "required" });
            (format!("\"other\":"), missing)
        }
        1 => {
            cover(if null { "null accepted" } else { "null refused" });
            (format!("\"{}\":null,\"other\":", key), null)
        }
        _ => {
            cover("unknown field");
            (format!("\"other\":[null,{{\"a\":1.5}},\"x\"],{}", quoted), true)
        }
    };
    f.1 = f.1.replacen(&quoted, &by, 1);
    write_engine(&files);
    let res = SnipsNluEngine::from_path(root().join("engine"));
    check(res.is_ok() == ok, "a field may be missing or null only where it is optional, unknown fields are skipped");
}

/// C19: the resources an engine does not have need no files; all it names are loaded
pub fn c19_resources() {
    expect(&["absent", "null", "named", "without language"]);
    write_engine(&engine_files(MODEL_VERSION, ""));
    let mut members: Vec<String> = vec![];
    let mut named = [false; 4];
    let fields = [("stems", "\"stems\""), ("stop_words", "\"stop_words\""), ("gazetteers", "[\"top\"]"), ("word_clusters", "[\"k\"]")];
    for (i, (name, value)) in fields.iter().enumerate() {
        match choose("resource", 3) {
            0 => cover("absent"),
            1 => {
                cover("null");
                members.push(format!("\"{}\":null", name))
            }
            _ => {
                cover("named");
                named[i] = true;
                members.push(format!("\"{}\":{}", name, value))
            }
        }
    }
    let language = choose("language", 3);
    if language > 0 {
        members.push(["", "\"language\":\"en\"", "\"language\":\"en\",\"license\":{}"][language].to_string());
    }
    put("engine/resources/en/metadata.json", &format!("{{{}}}", members.join(",")));
    let missing = choose("missing file", 5);
    if missing < 4 {
        std::fs::remove_file(root().join("engine").join(RESOURCE_FILES[[2, 1, 3, 4][missing]])).unwrap();
    }
    let res = shared_from("engine");
    let ok = language > 0 && (missing == 4 || !named[missing]);
    cover_if(language == 0, "without language");
    check(res.is_ok() == ok, "resources are refused only for want of a file they name");
    if let Ok(shared) = res {
        check(shared.stemmer.is_some() == named[0], "there are stems where the resources have them");
        check(shared.stop_words.contains("the") == named[1], "there are stop words where the resources have them");
        check(shared.gazetteers.contains_key("top") == named[2], "there are gazetteers where the resources have them");
        check(shared.word_clusterers.contains_key("k") == named[3], "there are clusters where the resources have them");
    }
}

/// C19: tagging schemes
pub fn c19_scheme() {
    expect(&["accepted", "refused"]);
    let digits = any_text("scheme", 1 + choose("digits", 3), &[('0', '9')]);
    let (from, to) = match choose("place", 3) {
        0 => ("\"tagging_scheme\":1", format!("\"tagging_scheme\":{}", digits)),
        1 => (
            "\"word_cluster\",\"offsets\":[0],\"args\":{",
            format!("\"entity_match\",\"offsets\":[0],\"args\":{{\"entities\":[\"e\"],\"use_stemming\":true,\"tagging_scheme_code\":{},", digits),
        ),
        _ => (
            "\"word_cluster\",\"offsets\":[0],\"args\":{",
            format!("\"builtin_entity_match\",\"offsets\":[0],\"args\":{{\"entity_labels\":[\"snips/number\"],\"tagging_scheme_code\":{},", digits),
        ),
    };
    let mut files = engine_files(MODEL_VERSION, "\"proba\"");
    let f = files.iter_mut().find(|f| f.0 == "proba/filler/slot_filler.json").unwrap();
    assert!(f.1.contains(from));
    f.1 = f.1.replace(from, &to);
    write_engine(&files);
    let res = SnipsNluEngine::from_path(root().join("engine"));
    let known = digits == "0" || digits == "1" || digits == "2";
    cover(if known { "accepted" } else { "refused" });
    check(res.is_ok() == known, "only the known tagging schemes are accepted");
}

/// C19: an engine is found, or found missing or of another version, in a folder of any name
pub fn c19_path() {
    use std::os::unix::ffi::OsStringExt;
    expect(&["loaded", "no engine", "wrong version", "name that is no text"]);
    let byte = any_u8("byte", bound(0x7d, 1) as u8, bound(0x82, 255) as u8);
    assume(byte != b'/');
    let found = choose("engine", 3);
    write_engine(&engine_files(if found == 2 { "0.19.0" } else { MODEL_VERSION }, "\"lookup\""));
    let folder = root().join(PathBuf::from(std::ffi::OsString::from_vec(vec![b'e', byte])));
    if found > 0 {
        std::fs::rename(root().join("engine"), &folder).unwrap();
    }
    let res = SnipsNluEngine::from_path(&folder);
    cover(["no engine", "loaded", "wrong version"][found]);
    cover_if(byte == 0x80 && found == 0, "name that is no text");
    check(res.is_ok() == (found == 1), "an engine is loaded from a folder of any name, and refused with an error");
}

/// C19: a missing or cut file is an error; the parsers are tried in the order of the model
pub fn c19_files() {
    expect(&["complete", "missing file", "cut file"]);
    let order = ["\"lookup\",\"det\",\"proba\"", "\"det\",\"proba\",\"lookup\""][choose("order", 2)];
    let files = engine_files(MODEL_VERSION, order);
    write_engine(&files);
    let all: Vec<String> = files.iter().map(|f| f.0.clone()).chain(RESOURCE_FILES.iter().map(|s| s.to_string())).collect();
    let k = choose("file", all.len() + 1);
    if k < all.len() {
        let p = root().join("engine").join(&all[k]);
        if choose_bool("cut") {
            if !all[k].ends_with(".json") {
                return;
            }
            let content = std::fs::read(&p).unwrap();
            let at = if bound(0, 1) == 1 { choose("at", content.len()) } else { [0, 1, content.len() / 2, content.len() - 1][choose("at", 4)] };
            std::fs::write(&p, &content[..at]).unwrap();
            cover("cut file");
        } else {
            std::fs::remove_file(&p).unwrap();
            cover("missing file");
        }
        check(SnipsNluEngine::from_path(root().join("engine")).is_err(), "a model with a missing or cut file is refused");
        return;
    }
    cover("complete");
    let engine = SnipsNluEngine::from_path(root().join("engine"));
    check(engine.is_ok(), "a complete model is loaded");
    let got = engine.unwrap().parse("hey", None, None).unwrap().intent.intent_name;
    check(
        got == Some(if order.starts_with("\"lookup") { "A" } else { "B" }.to_string()),
        "the parsers are tried in the order of the model",
    );
}

/// C19: one wrong byte never makes loading panic
pub fn c19_corrupted() {
    expect(&["loaded", "refused"]);
    let mut files = engine_files(MODEL_VERSION, "");
    files.retain(|f| f.0.ends_with(".json"));
    let k = choose("file", files.len());
    let path = files[k].0.clone();
    let at = choose("at", files[k].1.len());
    let parser = match path.find('/') {
        Some(n) => format!("\"{}\"", &path[..n]),
        None => String::new(),
    };
    write_engine(&engine_files(MODEL_VERSION, &parser));
    let mut content = files[k].1.clone().into_bytes();
    // in the quick check, the bytes around the values of the model
    assume(bound(0, 1) == 1 || !content[at].is_ascii_alphabetic());
    content[at] = any_u8("byte", 0, 255);
    std::fs::write(root().join("engine").join(&path), &content).unwrap();
    let res = SnipsNluEngine::from_path(root().join("engine"));
    cover(if res.is_ok() { "loaded" } else { "refused" });
    check(true, "loading a model with a wrong byte ends with an engine or an error");
}

fn walk(dir: &Path, prefix: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let name = format!("{}{}", prefix, e.file_name().to_str().unwrap());
        if e.file_type().unwrap().is_dir() {
            walk(&e.path(), &format!("{}/", name), out);
            out.insert(name, None);
        } else {
            out.insert(name, Some(std::fs::read(e.path()).unwrap()));
        }
    }
}

/// the components of the name of an archive entry that count
fn parts(name: &str) -> Vec<String> {
    name.split(|c| c == '/' || c == '\\').filter(|p| !(p.is_empty() || *p == "." || *p == "..")).map(|p| p.to_string()).collect()
}

/// C21: a zip archive is unpacked under the given folder only, whatever its names
pub fn c21_unpack() {
    expect(&["unpacked", "refused", "climbing name", "absolute name", "folder entry", "name clash"]);
    let dest: PathBuf = root().join("z/1/2/3/4");
    std::fs::create_dir_all(&dest).unwrap();
    let n = 1 + choose("entries", 2);
    let mut names: Vec<String> = vec![];
    for i in 0..n {
        let name = if choose_bool("absolute") {
            // an absolute name is that of a file beside the folder: nothing can escape the test
            let sep = ["/", "\\"][choose("sep", 2)];
            cover("absolute name");
            format!("{}{}", root().join("z/1/x").to_str().unwrap(), sep)
        } else {
            let len = choose("len", if i == 0 { bound(6, 7) } else { bound(4, 6) });
            let s = any_text("name", len, &[('.', '/'), ('a', 'a'), ('\\', '\\')]);
            assume(!s.starts_with('/') && !s.starts_with('\\'));
            s
        };
        names.push(name);
    }
    let contents = ["one", "second"];
    let entries: Vec<(&str, &[u8])> = (0..n).map(|i| (names[i].as_str(), contents[i].as_bytes())).collect();
    let archive = zip::write_archive(&entries);
    let res = extract_nlu_engine_zip_archive(Cursor::new(archive), &dest);
    let mut found = BTreeMap::new();
    walk(&root(), "", &mut found);
    let base = "z/1/2/3/4";
    for (p, _) in &found {
        check(base.starts_with(p.as_str()) || p.starts_with(&format!("{}/", base)), "nothing is written outside the folder");
    }
    // the expected tree
    let mut tree: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
    let mut clash = false;
    for i in 0..n {
        let ps = parts(&names[i]);
        let dir = names[i].ends_with('/') || names[i].ends_with('\\');
        cover_if(dir, "folder entry");
        cover_if(names[i].contains(".."), "climbing name");
        clash |= ps.is_empty() && !dir;
        for k in 1..=ps.len() {
            let p = ps[..k].join("/");
            let file = !dir && k == ps.len();
            match tree.get(&p) {
                Some(None) if file => clash = true,
                Some(Some(_)) if !file => clash = true,
                _ => (),
            }
            if clash {
                break;
            }
            tree.insert(p, if file { Some(contents[i].as_bytes().to_vec()) } else { None });
        }
        if clash {
            break;
        }
    }
    cover_if(clash, "name clash");
    let first = parts(&names[0]);
    if clash || first.is_empty() {
        cover("refused");
        check(res.is_err(), "an archive without a first folder, or whose names clash, is refused");
        return;
    }
    cover("unpacked");
    check(res.is_ok() && res.unwrap() == dest.join(&first[0]), "the engine is the first folder of the archive");
    let below: BTreeMap<String, Option<Vec<u8>>> = found
        .into_iter()
        .filter(|(p, _)| p.starts_with(&format!("{}/", base)))
        .map(|(p, c)| (p[base.len() + 1..].to_string(), c))
        .collect();
    check(below == tree, "the folder has exactly the files of the archive");
}

/// C21: an engine loaded from an archive; nothing is left of the temporary folder
pub fn c21_engine() {
    expect(&["loaded", "refused", "not an archive"]);
    std::fs::create_dir_all(std::env::temp_dir()).unwrap();
    let parser = ["\"lookup\"", "\"det\"", "\"proba\""][choose("parser", 3)];
    let files = engine_files(MODEL_VERSION, parser);
    write_engine(&files);
    let all: Vec<String> = files.iter().map(|f| f.0.clone()).chain(RESOURCE_FILES.iter().map(|s| s.to_string())).collect();
    let missing = choose("missing", all.len() + 1);
    let mut contents: Vec<(String, Vec<u8>)> = vec![];
    for (i, p) in all.iter().enumerate() {
        if i != missing {
            contents.push((format!("engine/{}", p), std::fs::read(root().join("engine").join(p)).unwrap()));
        }
    }
    let entries: Vec<(&str, &[u8])> = contents.iter().map(|(n, c)| (n.as_str(), c.as_slice())).collect();
    let mut archive = zip::write_archive(&entries);
    let damaged = missing == all.len() && choose_bool("damaged");
    if damaged {
        archive[0] = any_u8("magic", 0, 255);
        assume(archive[0] != b'Z');
    }
    let res = SnipsNluEngine::from_zip(Cursor::new(archive));
    if damaged {
        cover("not an archive");
        check(res.is_err(), "data that is no archive is refused");
    } else {
        let direct = {
            if missing < all.len() {
                std::fs::remove_file(root().join("engine").join(&all[missing])).unwrap();
            }
            SnipsNluEngine::from_path(root().join("engine"))
        };
        cover(if direct.is_ok() { "loaded" } else { "refused" });
        check(res.is_ok() == direct.is_ok(), "an engine is loaded from an archive as from its folder");
        if let (Ok(a), Ok(b)) = (res, direct) {
            let t = any_text("text", 3, &[('a', 'h')]);
            let (a, b) = (a.parse(&t, None, None), b.parse(&t, None, None));
            check(a.is_ok() == b.is_ok() && (a.is_err() || a.unwrap() == b.unwrap()), "an engine from an archive parses as one from its folder");
        }
    }
    let mine = format!("{}_", std::process::id());
    let left = std::fs::read_dir(std::env::temp_dir()).unwrap().filter(|e| {
        let name = e.as_ref().unwrap().file_name();
        name.to_str().map_or(false, |n| n.starts_with("temp_dir_nlu_") && n.contains(&mine))
    });
    check(left.count() == 0, "the temporary folder is removed");
}

// ---- many of everything

/// C23: files of many and long lines
pub fn c23_many() {
    expect(&["known", "unknown"]);
    let n = bound(300, 3000);
    let mut stems = String::new();
    let mut list = String::new();
    let mut clusters = String::new();
    for i in 0..n {
        stems.push_str(&format!("stem{},a{}", i, i));
        if i == 5 {
            for k in 0..n {
                stems.push_str(&format!(",b{}", k));
            }
        }
        stems.push('\n');
        list.push_str(&format!("é{}\n", i));
        clusters.push_str(&format!("w{}\t{}\n", i, i * 300));
    }
    let long = "x".repeat(70000);
    list.push_str(&long);
    write_resources("res", &Res { stems: &[("z", &["z"])], gazetteers: &[("g", &["z"])], stop_words: &["b"], clusters: &[("k", &[("z", "1")])] });
    put("res/resources/en/stemming/stems.txt", &stems);
    put("res/resources/en/stop_words.txt", &list);
    put("res/resources/en/gazetteers/g.txt", &list);
    put("res/resources/en/word_clusters/k.txt", &clusters);
    let shared = shared_from("res").expect("resources");
    let at = [0, 1, 255, 256, n - 1, n][choose("at", 6)];
    let known = at < n;
    cover(if known { "known" } else { "unknown" });
    let stemmer = shared.stemmer.as_ref().unwrap();
    let word = format!("a{}", at);
    check(stemmer.stem(&word) == if known { format!("stem{}", at) } else { word.clone() }, "the stem of a word is that of the line it is on");
    let word = format!("b{}", at);
    check(stemmer.stem(&word) == if known { "stem5".to_string() } else { word.clone() }, "the stem of a word is that of the line it is on");
    let word = format!("é{}", at);
    check(shared.stop_words.contains(&word) == known && shared.stop_words.contains(&long), "the stop words are the words of the file");
    check(shared.gazetteers["g"].contains(&word) == known && shared.gazetteers["g"].contains(&long), "a gazetteer has the words of its file");
    // labels beyond 65535 among numbers
    let expected = if known { Some((at * 300).to_string()) } else { None };
    check(shared.word_clusterers["k"].get_cluster(&format!("w{}", at)) == expected, "the cluster of a word is the label its line gives");
}

/// C21: archives of many and large entries
pub fn c21_many() {
    let dest: PathBuf = root().join("z/1");
    std::fs::create_dir_all(&dest).unwrap();
    let n = bound(300, 1000);
    let deep = "d/".repeat([1, 40][choose("depth", 2)]);
    let names: Vec<String> = (0..n).map(|i| format!("engine/{}f{}", if i % 2 == 0 { deep.as_str() } else { "" }, i)).collect();
    let sizes: Vec<usize> = (0..n).map(|i| [i, 0, 9000, 70000][if i > 5 { 0 } else { i % 4 }]).collect();
    let contents: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, s)| (0..*s).map(|k| (i + k / 3) as u8).collect()).collect();
    let entries: Vec<(&str, &[u8])> = names.iter().zip(contents.iter()).map(|(n, c)| (n.as_str(), c.as_slice())).collect();
    let res = extract_nlu_engine_zip_archive(Cursor::new(zip::write_archive(&entries)), &dest).unwrap();
    check(res == dest.join("engine"), "the first folder of the archive is the engine's");
    for (name, content) in names.iter().zip(contents.iter()) {
        check(std::fs::read(dest.join(name)).unwrap() == *content, "every entry is written whole");
    }
    let mut found = BTreeMap::new();
    walk(&root().join("z"), "", &mut found);
    check(found.values().filter(|f| f.is_some()).count() == n, "nothing else is written");
}
