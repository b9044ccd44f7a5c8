CL = ['cmdline.cpp']
CF = ['config.cpp']
def E(name, *covers, **kw):
    d = {'name': name, 'covers': list(covers)}
    d.update(kw)
    return d
PROPS = {
 'C01': {'harness': CL, 'entries': [E('h_conserve', 'ok', 'error', 'terminator'), E('h_model', 'ok', 'error'), E('h_sequence', 'ok', 'error'), E('h_sequence_long', 'ok', 'error'), E('h_bytes', 'ok')]},
 'C02': {'harness': CL, 'entries': [E('h_long', 'ok', 'unknown', 'syntax', 'ambiguous'), E('h_long_value', 'same', 'extra'), E('h_long_edges', 'none', 'missing'), E('h_long_sizes', 'ok')]},
 'C03': {'harness': CL, 'entries': [E('h_guess', 'ok', 'unknown', 'ambiguous'), E('h_guess_many', 'ok', 'unknown', 'ambiguous')]},
 'C04': {'harness': CL, 'entries': [E('h_short', 'ok', 'unknown', 'syntax'), E('h_group', 'plain', 'value'), E('h_group_long', 'plain', 'value')]},
 'C05': {'harness': CL, 'entries': [E('h_positional', 'named', 'toomany'), E('h_posdesc', 'fixed', 'trailing'), E('h_terminator', 'ok'), E('h_many_positionals', 'named', 'toomany'), E('h_sequence_positional', 'ok', 'error'), E('h_bytes', 'ok')]},
 'C06': {'harness': CL, 'entries': [E('h_unreg', 'unregistered'), E('h_sequence_unreg', 'ok', 'error'), E('h_unreg_stages', 'error', 'rest', 'nothing left')]},
 'C07': {'harness': CL, 'entries': [E('h_check_style', 'rejected', 'accepted'), E('h_style', 'default', 'error', 'positional', 'option')]},
 'C08': {'harness': CL, 'entries': [E('h_case', 'stored', 'error'), E('h_case_next', 'missing', 'error', 'value'), E('h_case_wild', 'stored', 'unknown')]},
 'C09': {'harness': CL, 'entries': [E('h_multi', 'several', 'error'), E('h_multi_long', 'many')]},
 'C10': {'harness': CL, 'entries': [E('h_ext', 'ok', 'error'), E('h_extra_style', 'ok', 'error'), E('h_extra_pair', 'ok', 'error')]},
 'C11': {'harness': CL, 'entries': [E('h_robust_bytes', 'ok', 'error'), E('h_robust_dups', 'ok', 'error'), E('h_robust_style', 'ok', 'error')]},
 'C12': {'harness': CF, 'entries': [E('h_cfg_text', 'syntax', 'none', 'one', 'several'), E('h_cfg_bytes', 'syntax', 'one'), E('h_cfg_lines', 'several'), E('h_cfg_newline', 'same'), E('h_cfg_long', 'syntax', 'several'), E('h_cfg_sections', 'several')]},
 'C13': {'harness': CF, 'entries': [E('h_cfg_names', 'conflict', 'unknown', 'registered', 'unregistered'), E('h_cfg_sect', 'known', 'unknown'), E('h_cfg_short', 'rejected', 'ok'), E('h_cfg_many', 'registered', 'unregistered', 'unknown')]},
 'C14': {'harness': CF, 'entries': [E('h_env', 'one', 'several'), E('h_env_value', 'ok'), E('h_env_many', 'several', 'few')]},
 'C15': {'harness': CF, 'entries': [E('h_split', 'bad', 'several'), E('h_split_bytes', 'bad'), E('h_split_words', 'ok'), E('h_split_args', 'ok', 'bad'), E('h_split_many', 'several', 'bad')]},
 'C33': {'harness': CF, 'entries': [E('h_cfg_robust', 'ok', 'error'), E('h_env_robust', 'ok', 'error')]},
}
VA = ['values.cpp']
PROPS['C22'] = {'harness': VA, 'entries': [E('h_int_bytes', 'ok', 'bad'), E('h_int_range', 'ok', 'range'), E('h_short_range', 'ok', 'range'), E('h_unsigned', 'ok', 'bad', 'range'),
                                           E('h_bool', 'yes', 'no', 'bad'), E('h_string', 'ok'), E('h_elements', 'ok', 'bad'), E('h_more_types', 'ok', 'bad', 'range'), E('h_char', 'ok', 'bad'), E('h_string_long', 'ok'), E('h_elements_many', 'ok', 'bad'), E('h_user_validate', 'ok', 'bad')]}
PROPS['C23'] = {'harness': VA, 'entries': [E('h_switch', 'rejected', 'given', 'implicit', 'default'), E('h_switch_more', 'ok'), E('h_switch_plain', 'ok'), E('h_switch_many', 'ok', 'twice')]}
ST = ['store.cpp']
PROPS['C16'] = {'harness': ST, 'entries': [E('h_first', 'several', 'single', 'multiple'), E('h_first_later', 'ok'), E('h_first_failed', 'ok'), E('h_failed_composing', 'ok', 'failed'), E('h_first_sources', 'default', 'given'), E('h_first_switch', 'default', 'given'), E('h_first_many', 'ok')]}
PROPS['C17'] = {'harness': ST, 'entries': [E('h_compose', 'several', 'single', 'multiple'), E('h_multiple', 'ok'), E('h_vector_cmdline', 'vector', 'composing'), E('h_compose_many', 'ok')]}
PROPS['C18'] = {'harness': ST, 'entries': [E('h_defaults', 'several', 'single', 'multiple'), E('h_default_names', 'default', 'none'), E('h_defaults_many', 'ok')]}
PROPS['C19'] = {'harness': ST, 'entries': [E('h_required', 'missing', 'ok'), E('h_required_file', 'missing', 'ok'), E('h_required_case', 'ok'), E('h_required_failed', 'missing', 'ok'), E('h_required_many', 'missing', 'ok')]}
PROPS['C20'] = {'harness': ST, 'entries': [E('h_notify', 'given', 'absent'), E('h_notify_user', 'some', 'none'), E('h_notify_many', 'many', 'few')]}
PROPS['C21'] = {'harness': ST, 'entries': [E('h_chain', 'none', 'explicit', 'explicit behind', 'default'), E('h_chain_store', 'inner', 'outer', 'default'), E('h_chain_long', 'ok')]}
PROPS['C32'] = {'harness': ST, 'entries': [E('h_e2e', 'parse error', 'ab', 'num', 'vec', 'flag', 'p'), E('h_e2e_long', 'store error', 'ab', 'num', 'vec', 'flag', 'p')]}
PROPS['C33'] = {'harness': CF + ST, 'entries': [E('h_cfg_robust', 'ok', 'error'), E('h_env_robust', 'ok', 'error'), E('h_store_robust', 'ok', 'error', 'notified')]}
DE = ['desc.cpp']
PROPS['C24'] = {'harness': DE, 'entries': [E('h_names', 'hit', 'miss', 'aliases', 'short only'), E('h_names_cmdline', 'ok', 'unknown'), E('h_names_many', 'hit', 'part', 'miss')]}
PROPS['C25'] = {'harness': DE, 'entries': [E('h_find', 'found', 'none', 'ambiguous'), E('h_find_case', 'found', 'none', 'ambiguous'), E('h_find_three', 'found', 'none', 'ambiguous'), E('h_find_aliases', 'found', 'none', 'ambiguous'), E('h_find_many', 'found', 'none', 'ambiguous')]}
PROPS['C26'] = {'harness': DE, 'entries': [E('h_group', 'ok', 'error'), E('h_group_tree', 'ok', 'error'), E('h_group_indep', 'ok'), E('h_group_many', 'ok', 'error')]}
PROPS['C27'] = {'harness': DE, 'entries': [E('h_err_value', 'ok'), E('h_err_name', 'ok'), E('h_err_holder', 'ok'), E('h_err_copy', 'ok'), E('h_err_ambiguous', 'ok'), E('h_err_group', 'ok'), E('h_err_file', 'ok'), E('h_err_env', 'ok')]}
HE = ['help.cpp']
PROPS['C29'] = {'harness': HE, 'entries': [E('h_wrap', 'wrapped'), E('h_wrap_tab', 'tabs', 'paragraphs', 'wrapped'), E('h_wrap_tab_late', 'tabs', 'wrapped'), E('h_wrap_long_name', 'paragraphs', 'wrapped'), E('h_wrap_bytes', 'paragraphs', 'wrapped'), E('h_wrap_col', 'wrapped'), E('h_wrap_real', 'wrapped'), E('h_wrap_many', 'wrapped', 'paragraphs', 'tabs')]}
PROPS['C28'] = {'harness': HE, 'entries': [E('h_help_opts', 'same line'), E('h_help_width', 'same line', 'new line'), E('h_help_groups', 'nested', 'flat'), E('h_help_many', 'same line'), E('h_help_print', 'same line', 'new line')]}
PROPS['C30'] = {'harness': ['convert.cpp'], 'entries': [E('h_utf8_round', 'ok'), E('h_utf8_chunk', 'long', 'short'), E('h_utf8_ascii', 'ok'), E('h_utf8_bytes', 'valid', 'malformed', 'open'), E('h_utf8_bytes_chunk', 'valid', 'malformed'), E('h_utf8_anywide', 'scalar', 'other'), E('h_local_bytes', 'ascii', 'other'), E('h_utf8_long', 'ok'), E('h_utf8_bytes_long', 'valid', 'malformed')]}
PROPS['C31'] = {'harness': ['wide.cpp'], 'entries': [E('h_wide_parse', 'ok', 'error'), E('h_wide_store', 'ok', 'error', 'store error'), E('h_wide_value_kinds', 'ok', 'store error', 'num', 'flag'), E('h_wide_bytes', 'ok', 'error'),
                                                     E('h_wide_config', 'error', 'none', 'some'), E('h_wide_exact', 'ok'), E('h_wide_exact_config', 'ok'), E('h_wide_mixed', 'ascii', 'other'), E('h_wide_tokens', 'ok'), E('h_wide_split', 'ok', 'error'), E('h_wide_argv', 'ok', 'error'), E('h_wide_long', 'ok'), E('h_wide_exact_long', 'ok')]}
PROPS['C34'] = {'harness': ['winmain.cpp'], 'entries': [E('h_win_round', 'several', 'one'), E('h_win_many', 'ok'), E('h_win_text', 'some', 'none', 'open'), E('h_win_bytes', 'some', 'none'), E('h_win_wide', 'ascii', 'other'), E('h_win_long', 'ok')]}
PROPS['C35'] = {'harness': ST, 'entries': [E('h_clear', 'ok', 'missing'), E('h_access', 'value', 'wrong')]}
SA = ['state.cpp']
PROPS['C36'] = {'harness': SA, 'entries': [E('h_again_cmdline', 'ok', 'error'), E('h_again_between', 'ok', 'error'), E('h_again_file', 'ok', 'error'), E('h_again_grow', 'ok', 'error'), E('h_again_env', 'none', 'some'), E('h_again_store', 'ok', 'error')]}
PROPS['C37'] = {'harness': SA, 'entries': [E('h_entry_argv', 'ok', 'error'), E('h_entry_builder', 'ok', 'error'), E('h_entry_ext', 'ok', 'error'), E('h_entry_env', 'several', 'few'), E('h_entry_file', 'ok', 'error'), E('h_entry_split', 'ok', 'bad'), E('h_entry_declare', 'ok', 'error'), E('h_entry_named', 'ok', 'error', 'missing', 'unreadable')]}
PROPS['C38'] = {'harness': SA, 'entries': [E('h_leak_cmdline', 'ok'), E('h_leak_text', 'ok'), E('h_leak_file', 'ok'), E('h_own', 'stored', 'failed')]}
US = ['user.cpp']
PROPS['C39'] = {'harness': US, 'entries': [E('h_err_kinds', 'ok'), E('h_err_config', 'ok'), E('h_err_setters', 'ok'), E('h_err_many', 'error', 'none'), E('h_err_made', 'ok')]}
PROPS['C40'] = {'harness': US, 'entries': [E('h_arity', 'ok', 'error'), E('h_protocol', 'value', 'none'), E('h_declared', 'untyped', 'typed')]}
PROPS['C41'] = {'harness': US, 'entries': [E('h_throw_semantic', 'parse', 'default', 'notify'), E('h_throw_callback', 'notifier', 'additional', 'style', 'mapper'), E('h_throw_validator', 'arrives', 'converted'), E('h_throw_context', 'ok')]}
PROPS['C42'] = {'harness': US, 'entries': [E('h_order_cmdline', 'ok', 'error'), E('h_order_file', 'ok', 'error'), E('h_order_store', 'ok', 'error')]}
LA = ['law.cpp']
PROPS['C43'] = {'harness': LA, 'entries': [E('h_copy_map', 'ok', 'missing'), E('h_copy_value', 'ok'), E('h_copy_desc', 'ok', 'error'), E('h_copy_parser', 'ok', 'error')]}
PROPS['C44'] = {'harness': LA, 'entries': [E('h_extra_cmdline', 'ok', 'error'), E('h_extra_file', 'ok', 'error'), E('h_extra_env', 'some'), E('h_extra_store', 'ok', 'error')]}
PROPS['C45'] = {'harness': LA, 'entries': [E('h_concat_cmdline', 'ok', 'error', 'open'), E('h_concat_file', 'ok', 'error'), E('h_concat_env', 'several', 'few'), E('h_concat_split', 'ok', 'bad', 'open')]}
SH = ['shared.cpp']
PROPS['C46'] = {'harness': SH, 'entries': [E('h_mt_cmdline', 'ok'), E('h_mt_file', 'ok'), E('h_mt_env', 'ok'), E('h_mt_split', 'ok'), E('h_mt_help', 'ok'), E('h_mt_map', 'ok'), E('h_mt_store', 'ok', 'error'), E('h_mt_build', 'ok'), E('h_mt_wide', 'ok')]}
PROPS['C47'] = {'harness': LA, 'entries': [E('h_spell', 'ok', 'error'), E('h_spell_group', 'ok', 'error')]}
PROPS['C48'] = {'harness': LA, 'entries': [E('h_source', 'ok', 'error', 'missing')]}
OP = ['opaque.cpp']
PROPS['C49'] = {'harness': OP, 'entries': [E('h_rename_cmdline', 'ok', 'error'), E('h_rename_file', 'ok', 'error'), E('h_rename_env', 'ok', 'error'), E('h_rename_help', 'plain', 'caption'), E('h_rename_split', 'ok', 'bad')]}
PROPS['C50'] = {'harness': OP, 'entries': [E('h_swap_cmdline', 'ok', 'error'), E('h_swap_file', 'ok', 'error')]}
