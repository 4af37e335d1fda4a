//! Real files of the repository (copies).
pub const OSU: &[&str] = &[
    include_str!("../../corpus/aspire15.osu"),
    include_str!("../../corpus/aspire18.osu"),
    include_str!("../../corpus/aspire20.osu"),
    include_str!("../../corpus/error_line_index_sb.osu"),
    include_str!("../../corpus/event4.osu"),
    include_str!("../../corpus/missing_effects_field.osu"),
    include_str!("../../corpus/v10.osu"),
    include_str!("../../corpus/v11.osu"),
    include_str!("../../corpus/v12.osu"),
    include_str!("../../corpus/v13.osu"),
    include_str!("../../corpus/v14_3.osu"),
    include_str!("../../corpus/v3.osu"),
    include_str!("../../corpus/v3_v14.osu"),
    include_str!("../../corpus/v4.osu"),
    include_str!("../../corpus/v5.osu"),
    include_str!("../../corpus/v5_timingpoint_full.osu"),
    include_str!("../../corpus/v6.osu"),
    include_str!("../../corpus/v7.osu"),
    include_str!("../../corpus/v8.osu"),
    include_str!("../../corpus/v9.osu"),
];
pub const OSB: &[&str] = &[
    include_str!("../../corpus/error_line_index.osb"),
    include_str!("../../corpus/error_line_index_variable.osb"),
    include_str!("../../corpus/legacy_event.osb"),
    include_str!("../../corpus/match_test.osb"),
    include_str!("../../corpus/match_test2.osb"),
    include_str!("../../corpus/osb.osb"),
    include_str!("../../corpus/variable.osb"),
];
