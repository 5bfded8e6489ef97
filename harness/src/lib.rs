//! Harnesses of the checks: each drives the repository's real code on symbolic inputs.
#![allow(clippy::all)]
pub mod env;
#[cfg(feature = "model")]
pub mod model;
pub mod rt;
pub use snips_nlu_lib as lib;

/// the modules of harnesses, each with a feature of its own: a module can be built without the others
macro_rules! harnesses {
    ($($feature:tt $module:ident { $($name:ident,)* })*) => {
        $(
            #[cfg(feature = $feature)]
            mod $module;
            $(
                #[cfg(feature = $feature)]
                #[no_mangle]
                pub extern "C" fn $name() {
                    $module::$name()
                }
            )*
        )*
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = vec![];
            $(
                #[cfg(feature = $feature)]
                {
                    $(v.push((stringify!($name), $module::$name as fn()));)*
                }
            )*
            v
        }
    };
}

harnesses! {
    "smoke" smoke {
        smoke_1,
        smoke_2,
        smoke_3,
    }
    "engine" engine {
        c03_filter,
        c04_alternatives,
        c05_one_parser,
        c05_two_parsers,
        c05_three_parsers,
        c05_partial,
        c06_cascade,
        c06_get_slots,
        c17_builtin,
        c17_custom,
        c17_fresh,
        c18_fresh,
        c18_unknown,
        c18_extract,
        c03_many,
        c04_many,
        c06_many,
        c17_many,
        c17_mixed,
    }
    "det" det {
        c01_structure,
        c01_literal,
        c01_free,
        c01_overlap,
        c07_ambiguity,
        c13_stop_words,
        c01_many,
        c07_many,
        c07_order,
        c07_shares,
        c13_many,
    }
    "lookup" lookup {
        c14_structure,
        c14_free,
        c14_subsets,
        c14_ambiguity,
        c14_literal_placeholder,
        c13_lookup_stop_words,
        c14_many,
        c14_shares,
    }
    "classify" classify {
        c15_tfidf,
        c16_cooccurrence,
        c08_logreg,
        c08_sizes,
        c08_classifier,
        c15_many,
        c16_many,
        c08_many,
    }
    "crf" crf {
        c09_tags,
        c09_roundtrip,
        c09_filler,
        c09_probability,
        c10_words,
        c10_entities,
        c10_entity_lists,
        c10_chunks,
        c09_many,
        c10_many,
    }
    "entities" entities {
        c11_custom,
        c11_builtin,
        c12_custom_cache,
        c12_builtin_cache,
        c11_many,
        c12_many,
    }
    "inject" inject {
        c20_values,
        c20_history,
        c20_refused,
        c20_failing,
        c20_many,
    }
    "load" load {
        c19_version,
        c19_units,
        c19_unit_names,
        c19_scheme,
        c19_fields,
        c19_resources,
        c19_path,
        c19_files,
        c19_corrupted,
        c21_unpack,
        c21_engine,
        c23_stemmer,
        c23_words,
        c23_clusters,
        c23_many,
        c21_many,
    }
    "proba" proba {
        c24_probabilistic,
        c25_placeholders,
    }
    "wrong" wrong {
        c26_requests, c26_lookup_ids, c26_vectorizers, c26_window, c26_features, c26_offsets,
    }
    "conc" conc {
        c02_filler,
        c02_entities,
        c02_engine,
    }
    "whole" whole {
        c27_agreement,
        c28_languages,
        c29_order,
    }
    "ffi" ffi {
        c22_requests,
        c22_slots,
        c22_failures,
        c22_loading,
    }
}
