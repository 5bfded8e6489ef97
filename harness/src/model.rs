//! The files of a whole engine.
use crate::env::*;
use crate::rt::*;

pub const FULL: Res<'static> = Res {
    stop_words: &["the"],
    stems: &[("go", &["going"])],
    gazetteers: &[("top", &["b"])],
    clusters: &[("k", &[("b", "7")])],
};

/// the files of a whole engine: path, content
pub fn engine_files(version: &str, parsers: &str) -> Vec<(String, String)> {
    let unit = |name: &str| format!("{{\"unit_name\":\"{}\"}}", name);
    let mut v: Vec<(&str, String)> = vec![];
    v.push((
        "nlu_engine.json",
        format!(
            "{{\"dataset_metadata\":{{\"language_code\":\"en\",\"entities\":{{\"e\":{{\"automatically_extensible\":true}}}},\"slot_name_mappings\":{{\"A\":{{\"s\":\"e\"}},\"B\":{{}}}}}},\"intent_parsers\":[{}],\"model_version\":\"{}\",\"training_package_version\":\"0.20.0\",\"builtin_entity_parser\":\"builtin_entity_parser\",\"custom_entity_parser\":\"custom_entity_parser\"}}",
            parsers, version
        ),
    ));
    v.push(("det/metadata.json", unit("deterministic_intent_parser")));
    v.push((
        "det/intent_parser.json",
        "{\"language_code\":\"en\",\"patterns\":{\"B\":[\"^\\\\s*(?P<group0>%E%)\\\\s*$\",\"^\\\\s*hey\\\\s*$\"]},\"group_names_to_slot_names\":{\"group0\":\"s\"},\"slot_names_to_entities\":{\"B\":{\"s\":\"e\"}},\"stop_words_whitelist\":{\"B\":[\"the\"]},\"config\":{\"ignore_stop_words\":true}}".to_string(),
    ));
    v.push(("lookup/metadata.json", unit("lookup_intent_parser")));
    v.push((
        "lookup/intent_parser.json",
        format!("{{\"language_code\":\"en\",\"slots_names\":[\"s\"],\"intents_names\":[\"A\"],\"map\":{{\"{}\":[0,[]]}},{}", snips_nlu_utils::string::hash_str_to_i32("hey"), "\"entity_scopes\":[{\"intent_group\":[\"A\"],\"entity_scope\":{\"builtin\":[\"snips/number\"],\"custom\":[\"e\"]}}],\"stop_words_whitelist\":{\"A\":[\"the\"]},\"config\":{\"ignore_stop_words\":true}}"),
    ));
    v.push(("proba/metadata.json", unit("probabilistic_intent_parser")));
    v.push(("proba/intent_parser.json", "{\"slot_fillers\":[{\"intent\":\"A\",\"slot_filler_name\":\"filler\"}]}".to_string()));
    v.push(("proba/intent_classifier/metadata.json", unit("log_reg_intent_classifier")));
    v.push((
        "proba/intent_classifier/intent_classifier.json",
        "{\"featurizer\":\"f\",\"intercept\":[0.5,-1.5,1.0],\"coeffs\":[[1.0,0.0],[0.5,1],[0,0]],\"intent_list\":[\"A\",null,\"B\"]}".to_string(),
    ));
    v.push((
        "proba/intent_classifier/f/featurizer.json",
        "{\"language_code\":\"en\",\"tfidf_vectorizer\":\"t\",\"cooccurrence_vectorizer\":\"c\"}".to_string(),
    ));
    v.push((
        "proba/intent_classifier/f/t/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[\"snips/number\"],\"vectorizer\":{\"idf_diag\":[1.0],\"vocab\":{\"b\":0}},\"config\":{\"use_stemming\":true,\"word_clusters_name\":\"k\"}}".to_string(),
    ));
    v.push((
        "proba/intent_classifier/f/c/vectorizer.json",
        "{\"language_code\":\"en\",\"builtin_entity_scope\":[],\"word_pairs\":{\"0\":[\"a\",\"c\"]},\"config\":{\"window_size\":2,\"filter_stop_words\":false,\"keep_order\":true,\"unknown_words_replacement_string\":null}}".to_string(),
    ));
    v.push(("proba/filler/metadata.json", unit("crf_slot_filler")));
    v.push((
        "proba/filler/slot_filler.json",
        "{\"language_code\":\"en\",\"intent\":\"A\",\"slot_name_mapping\":{\"s\":\"e\"},\"crf_model_file\":\"model.crfsuite\",\"config\":{\"tagging_scheme\":1,\"feature_factory_configs\":[{\"factory_name\":\"ngram\",\"offsets\":[0,-1],\"args\":{\"n\":1,\"use_stemming\":true,\"common_words_gazetteer_name\":\"top\"}},{\"factory_name\":\"word_cluster\",\"offsets\":[0],\"args\":{\"cluster_name\":\"k\"}}]}}".to_string(),
    ));
    v.push(("proba/filler/model.crfsuite", "x".to_string()));
    v.into_iter().map(|(p, c)| (p.to_string(), c)).collect()
}

pub const RESOURCE_FILES: [&str; 6] = [
    "resources/en/metadata.json",
    "resources/en/stop_words.txt",
    "resources/en/stemming/stems.txt",
    "resources/en/gazetteers/top.txt",
    "resources/en/word_clusters/k.txt",
    "custom_entity_parser/metadata.json",
];

pub fn write_engine(files: &[(String, String)]) {
    snips_nlu_parsers::env::reset();
    write_resources("engine", &FULL);
    for (p, c) in files {
        put(&format!("engine/{}", p), c);
    }
}
