table! {
    conn::h_frame_text,
    conn::h_frame_large,
    conn::h_frame_quit,
    conn::h_frame_execute,
    conn::h_read_split,
    conn::h_read_seq,
    conn::h_read_eof,
    conn::h_read_big,
    conn::h_read_wrap,
    conn::h_flush,
    conv::h_show_int,
    conv::h_show_bytes,
    conv::h_show_date,
    conv::h_conv_num,
    conv::h_conv_back,
    conv::h_conv_text,
    conv::h_conv_date,
    conv::h_conv_datetime,
    conv::h_conv_from_date,
    conv::h_conv_time,
    conv::h_conv_span,
    conv::h_conv_wrong,
    conv::h_conv_option,
    conv::h_conv_big_span,
    cut::h_interrupt,
    cut::h_interrupt_row,
    cut::h_pool_replaces,
    exec::h_exec,
    exec::h_exec_many,
    exec::h_exec_long_text,
    exec::h_count_mismatch,
    exec::h_two_statements,
    exec::h_long_data,
    hist::h_history,
    hist::h_result_set,
    hist::h_no_result_set,
    keys::h_key,
    keys::h_key_bad,
    keys::h_key_text,
    login::h_login,
    login::h_refused,
    login::h_full_auth,
    login::h_response,
    login::h_challenge,
    login::h_wild_greeting,
    login::h_wild_auth,
    login::h_settings,
    migr::h_migrate,
    migr::h_unknown_migration,
    migr::h_one_down,
    migr::h_versions,
    migr::h_version_lists,
    models::h_insert,
    models::h_insert_whole,
    models::h_update,
    models::h_read_model,
    models::h_read_wrong,
    models::h_select_model,
    pools::h_buffers,
    pools::h_things,
    pools::h_things_threads,
    pools::h_pool,
    pools::h_pool_threads,
    rows::h_bin_one,
    rows::h_bin_many,
    rows::h_bin_short,
    rows::h_text_int,
    rows::h_text_date,
    rows::h_text_time,
    rows::h_text_datetime,
    rows::h_text_bytes,
    rows::h_text_short,
    rows::h_text_float,
    rows::h_ok,
    rows::h_end,
    rows::h_err,
    rows::h_ok_cut,
    rows::h_lestr,
    rows::h_count,
    rows::h_columns,
    rows::h_long_name,
    rows::h_bad_column,
    values::h_hex_enc,
    values::h_hex_dec,
    values::h_hex_serde,
    values::h_string_escape,
    values::h_ident_escape,
    values::h_unquoted,
    values::h_version,
    values::h_ordered,
    waits::h_timeout_race,
    waits::h_slow,
    wild::h_wild_answer,
}
