// One list of harnesses, expanded to symbolic entry points or to the native dispatch table.
#[macro_export]
macro_rules! harness_list {
  ($m:ident) => {
    $m! {
      h_dictionary => ngrams::dictionary,
      h_record => ngrams::record,
      h_anchored => ngrams::anchored,
      h_dnm => dnmh::create,
      h_dnm_order => dnmh::order,
      h_dnm_default => dnmh::defaults,
      h_dnm_names => dnmh::names,
      h_dnm_long => dnmh::long,
      h_dnm_str => dnmh::from_str,
      h_range => rangeh::range,
      h_xptr => rangeh::xptr,
      h_xptr_ids => rangeh::xptr_ids,
      h_xptr_root => rangeh::xptr_root,
      h_sent => tokh::sentences,
      h_words => tokh::words,
      h_breaks => tokh::breaks,
      h_breaks2 => tokh::breaks2,
      h_canon => c14nh::canonical,
      h_canon_inv => c14nh::invariant,
      h_rebuild => c14nh::rebuild,
      h_lexemes => c14nh::lexemes,
      h_lexeme_marks => c14nh::lexeme_marks,
      h_lexeme_sources => c14nh::lexeme_sources,
      h_preset => c14nh::preset,
      h_match_seq => pat::seqs,
      h_match_word => pat::word_patterns,
      h_match_phrase => pat::phrases,
      h_match_math => pat::formulas,
      h_match_rules => pat::rules,
      h_match_errors => pat::match_errors,
      h_breaks3 => tokh::breaks3,
      h_stopwords => tokh::stopwords,
      h_load_names => pat::load_names,
      h_load_text => pat::load_text,
      h_load_text_any => pat::load_text_any,
      h_load_faults => pat::load_faults,
      h_walk => walk::walk,
      h_catalog => walk::catalog,
      h_selectors => docs::selectors,
      h_iterators => docs::iterators,
      h_word => utilh::word,
      h_path_words => utilh::path_words,
      h_tokens => utilh::tokens,
      h_heading_type => utilh::heading_type,
      h_heading_context => utilh::heading_context,
      h_heading_words => utilh::heading_words,
      h_heading_node => utilh::heading_node,
      h_plot => utilh::plot,
      h_language => utilh::language,
      h_envs => utilh::envs,
      h_smoke => smoke::smoke,
      h_std => stdh::go,
      h_smoke_dnm => smoke::smoke_dnm,
    }
  };
}
