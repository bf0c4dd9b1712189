// Code generated by the engine (gen); DO NOT EDIT.

package main

import (
	"vfh/core"
	"vfh/hmmh"
	"vfh/idfh"
	"vfh/posh"
	"vfh/utilh"
)

var registry = map[string]func(){
	"C01_bytes":      core.C01_bytes,
	"C01_changed":    core.C01_changed,
	"C01_long":       core.C01_long,
	"C01_runes":      core.C01_runes,
	"C01_scenes":     core.C01_scenes,
	"C01_words":      core.C01_words,
	"C02_free":       core.C02_free,
	"C02_scenes":     core.C02_scenes,
	"C02_sets":       core.C02_sets,
	"C03_free":       core.C03_free,
	"C03_near":       core.C03_near,
	"C03_scenes":     core.C03_scenes,
	"C03_sets":       core.C03_sets,
	"C03_single":     core.C03_single,
	"C04_ascii":      core.C04_ascii,
	"C04_bytes":      core.C04_bytes,
	"C04_huge":       core.C04_huge,
	"C04_long":       core.C04_long,
	"C04_options":    core.C04_options,
	"C04_words":      core.C04_words,
	"C05_kana":       core.C05_kana,
	"C05_mixed":      core.C05_mixed,
	"C05_normal":     core.C05_normal,
	"C05_scenes":     core.C05_scenes,
	"C05_search":     core.C05_search,
	"C06_free":       core.C06_free,
	"C06_kana":       core.C06_kana,
	"C06_scenes":     core.C06_scenes,
	"C06_sets":       core.C06_sets,
	"C07_any":        core.C07_any,
	"C07_free":       core.C07_free,
	"C07_mixed":      core.C07_mixed,
	"C07_scenes":     core.C07_scenes,
	"C07_sets":       core.C07_sets,
	"C08_any":        core.C08_any,
	"C08_free":       core.C08_free,
	"C08_mixed":      core.C08_mixed,
	"C08_regs":       core.C08_regs,
	"C08_runs":       core.C08_runs,
	"C08_scenes":     core.C08_scenes,
	"C08_sets":       core.C08_sets,
	"C09_free":       core.C09_free,
	"C09_mixed":      core.C09_mixed,
	"C09_scenes":     core.C09_scenes,
	"C09_sets":       core.C09_sets,
	"C10_free":       core.C10_free,
	"C10_scenes":     core.C10_scenes,
	"C10_sets":       core.C10_sets,
	"C11_blocks":     hmmh.C11_blocks,
	"C11_bytes":      hmmh.C11_bytes,
	"C11_classes":    hmmh.C11_classes,
	"C11_long":       hmmh.C11_long,
	"C11_numbers":    hmmh.C11_numbers,
	"C11_regexps":    hmmh.C11_regexps,
	"C12_deep":       hmmh.C12_deep,
	"C12_default":    core.C12_default,
	"C12_emit":       hmmh.C12_emit,
	"C12_long":       hmmh.C12_long,
	"C12_missing":    hmmh.C12_missing,
	"C12_mod":        core.C12_mod,
	"C12_runes":      hmmh.C12_runes,
	"C12_words":      hmmh.C12_words,
	"C13_bytes":      core.C13_bytes,
	"C13_letters":    core.C13_letters,
	"C13_many":       core.C13_many,
	"C13_nested":     core.C13_nested,
	"C13_pos":        posh.C13_pos,
	"C13_segment":    core.C13_segment,
	"C13_trie":       core.C13_trie,
	"C13_words":      core.C13_words,
	"C13_zero":       core.C13_zero,
	"C14_history":    core.C14_history,
	"C14_many":       core.C14_many,
	"C14_order":      core.C14_order,
	"C14_total":      core.C14_total,
	"C15_any":        core.C15_any,
	"C15_crlf":       core.C15_crlf,
	"C15_fault":      core.C15_fault,
	"C15_file":       core.C15_file,
	"C15_freqs":      core.C15_freqs,
	"C15_many":       core.C15_many,
	"C15_map":        core.C15_map,
	"C15_missing":    core.C15_missing,
	"C15_reader":     core.C15_reader,
	"C15_same":       core.C15_same,
	"C15_str":        core.C15_str,
	"C16_free":       core.C16_free,
	"C16_long":       core.C16_long,
	"C16_names":      core.C16_names,
	"C17_any":        core.C17_any,
	"C17_cut":        core.C17_cut,
	"C17_filters":    core.C17_filters,
	"C17_history":    core.C17_history,
	"C17_lists":      core.C17_lists,
	"C17_marks":      core.C17_marks,
	"C17_pairs":      core.C17_pairs,
	"C18_bytes":      core.C18_bytes,
	"C18_cuts":       core.C18_cuts,
	"C18_html":       core.C18_html,
	"C18_lang":       core.C18_lang,
	"C18_long":       core.C18_long,
	"C18_numbers":    core.C18_numbers,
	"C18_runes":      core.C18_runes,
	"C19_cut":        core.C19_cut,
	"C19_empty":      core.C19_empty,
	"C19_long":       core.C19_long,
	"C19_occs":       core.C19_occs,
	"C19_overlap":    core.C19_overlap,
	"C19_repeats":    core.C19_repeats,
	"C19_scenes":     core.C19_scenes,
	"C19_words":      core.C19_words,
	"C20_equals":     core.C20_equals,
	"C20_join":       core.C20_join,
	"C20_long":       core.C20_long,
	"C20_strings":    core.C20_strings,
	"C20_units":      core.C20_units,
	"C21_any":        posh.C21_any,
	"C21_fresh":      posh.C21_fresh,
	"C21_load":       posh.C21_load,
	"C21_mixed":      posh.C21_mixed,
	"C21_model":      posh.C21_model,
	"C21_order":      posh.C21_order,
	"C21_plain":      posh.C21_plain,
	"C21_runs":       posh.C21_runs,
	"C22_bytes":      utilh.C22_bytes,
	"C22_group":      utilh.C22_group,
	"C22_limit":      utilh.C22_limit,
	"C22_many":       utilh.C22_many,
	"C22_plain":      utilh.C22_plain,
	"C23_case":       idfh.C23_case,
	"C23_fresh":      idfh.C23_fresh,
	"C23_load":       idfh.C23_load,
	"C23_many":       idfh.C23_many,
	"C23_order":      idfh.C23_order,
	"C23_stop":       idfh.C23_stop,
	"C23_tags":       idfh.C23_tags,
	"C24_fresh":      idfh.C24_fresh,
	"C24_many":       idfh.C24_many,
	"C24_order":      idfh.C24_order,
	"C24_pos":        idfh.C24_pos,
	"C24_rank":       idfh.C24_rank,
	"C24_window":     idfh.C24_window,
	"C25_cut":        core.C25_cut,
	"C25_filters":    core.C25_filters,
	"C25_input":      core.C25_input,
	"C25_pos":        posh.C25_pos,
	"C25_scenes":     core.C25_scenes,
	"C25_segment":    core.C25_segment,
	"C25_tags":       idfh.C25_tags,
	"C25_texts":      core.C25_texts,
	"C26_cut":        core.C26_cut,
	"C26_empty":      core.C26_empty,
	"C26_huge":       core.C26_huge,
	"C26_load":       core.C26_load,
	"C26_long":       core.C26_long,
	"C26_nested":     core.C26_nested,
	"C26_scenes":     core.C26_scenes,
	"C26_segment":    core.C26_segment,
	"C27_change":     core.C27_change,
	"C27_dict":       core.C27_dict,
	"C27_off":        core.C27_off,
	"C27_scenes":     core.C27_scenes,
	"C27_text":       core.C27_text,
	"C27_unicode":    core.C27_unicode,
	"C28_calls":      core.C28_calls,
	"C28_fresh":      core.C28_fresh,
	"C28_scenes":     core.C28_scenes,
	"C28_segmenters": core.C28_segmenters,
	"C29_any":        core.C29_any,
	"C29_file":       core.C29_file,
	"C29_long":       core.C29_long,
	"C29_many":       core.C29_many,
	"C29_missing":    core.C29_missing,
	"C29_str":        core.C29_str,
	"C30_any":        core.C30_any,
	"C30_cut":        core.C30_cut,
	"C30_filters":    core.C30_filters,
	"C30_lists":      core.C30_lists,
	"C30_pos":        posh.C30_pos,
	"C31_free":       core.C31_free,
	"C31_parts":      core.C31_parts,
	"C31_scenes":     core.C31_scenes,
	"C31_sets":       core.C31_sets,
	"C32_embed":      core.C32_embed,
	"C32_files":      core.C32_files,
	"C32_stop":       core.C32_stop,
	"C33_loads":      core.C33_loads,
	"C33_order":      core.C33_order,
	"C33_scenes":     core.C33_scenes,
}
