prop = 'C13'
edits = [('src/tables.rs', "'\\u{10080}'..='\\u{100FA}'", "'\\u{10080}'..='\\u{100FB}'")]
needs = 'asking about the unassigned U+100FB'
breaks = 'is_public_assigned is true for an unassigned character'
demo = r'''
    assert!(!uc::is_public_assigned('\u{100fb}'));
'''
