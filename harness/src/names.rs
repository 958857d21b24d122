//! The harness' own names for categories and versions, written down independently of the crate.
use unicode_intervals::{UnicodeCategory as C, UnicodeCategorySet, UnicodeVersion as V};

pub const MAX: u32 = 0x10_FFFF;
pub const ALL: u32 = (1 << 30) - 1;

/// (abbreviation, full name, value, value through the full-name constant), alphabetical by full name.
pub const CATS: [(&str, &str, C, C); 30] = [
    ("Pe", "Close_Punctuation", C::Pe, C::CLOSE_PUNCTUATION),
    ("Pc", "Connector_Punctuation", C::Pc, C::CONNECTOR_PUNCTUATION),
    ("Cc", "Control", C::Cc, C::CONTROL),
    ("Sc", "Currency_Symbol", C::Sc, C::CURRENCY_SYMBOL),
    ("Pd", "Dash_Punctuation", C::Pd, C::DASH_PUNCTUATION),
    ("Nd", "Decimal_Number", C::Nd, C::DECIMAL_NUMBER),
    ("Me", "Enclosing_Mark", C::Me, C::ENCLOSING_MARK),
    ("Pf", "Final_Punctuation", C::Pf, C::FINAL_PUNCTUATION),
    ("Cf", "Format", C::Cf, C::FORMAT),
    ("Pi", "Initial_Punctuation", C::Pi, C::INITIAL_PUNCTUATION),
    ("Nl", "Letter_Number", C::Nl, C::LETTER_NUMBER),
    ("Zl", "Line_Separator", C::Zl, C::LINE_SEPARATOR),
    ("Ll", "Lowercase_Letter", C::Ll, C::LOWERCASE_LETTER),
    ("Sm", "Math_Symbol", C::Sm, C::MATH_SYMBOL),
    ("Lm", "Modifier_Letter", C::Lm, C::MODIFIER_LETTER),
    ("Sk", "Modifier_Symbol", C::Sk, C::MODIFIER_SYMBOL),
    ("Mn", "Nonspacing_Mark", C::Mn, C::NONSPACING_MARK),
    ("Ps", "Open_Punctuation", C::Ps, C::OPEN_PUNCTUATION),
    ("Lo", "Other_Letter", C::Lo, C::OTHER_LETTER),
    ("No", "Other_Number", C::No, C::OTHER_NUMBER),
    ("Po", "Other_Punctuation", C::Po, C::OTHER_PUNCTUATION),
    ("So", "Other_Symbol", C::So, C::OTHER_SYMBOL),
    ("Zp", "Paragraph_Separator", C::Zp, C::PARAGRAPH_SEPARATOR),
    ("Co", "Private_Use", C::Co, C::PRIVATE_USE),
    ("Zs", "Space_Separator", C::Zs, C::SPACE_SEPARATOR),
    ("Mc", "Spacing_Mark", C::Mc, C::SPACING_MARK),
    ("Cs", "Surrogate", C::Cs, C::SURROGATE),
    ("Lt", "Titlecase_Letter", C::Lt, C::TITLECASE_LETTER),
    ("Cn", "Unassigned", C::Cn, C::UNASSIGNED),
    ("Lu", "Uppercase_Letter", C::Lu, C::UPPERCASE_LETTER),
];

pub const MAJORS: [(&str, UnicodeCategorySet); 7] = [
    ("L", C::L),
    ("M", C::M),
    ("N", C::N),
    ("P", C::P),
    ("S", C::S),
    ("Z", C::Z),
    ("C", C::C),
];

pub const VERSIONS: [(&str, V); 11] = [
    ("9.0.0", V::V9_0_0),
    ("10.0.0", V::V10_0_0),
    ("11.0.0", V::V11_0_0),
    ("12.0.0", V::V12_0_0),
    ("12.1.0", V::V12_1_0),
    ("13.0.0", V::V13_0_0),
    ("14.0.0", V::V14_0_0),
    ("15.0.0", V::V15_0_0),
    ("15.1.0", V::V15_1_0),
    ("16.0.0", V::V16_0_0),
    ("17.0.0", V::V17_0_0),
];

pub fn cat_index(abbr: &str) -> Option<usize> {
    CATS.iter().position(|c| c.0 == abbr)
}

/// The crate's set for one of our masks (bit = index in `CATS`).
pub fn set_of(mask: u32) -> UnicodeCategorySet {
    let mut s = UnicodeCategorySet::new();
    let mut m = mask;
    while m != 0 {
        let i = m.trailing_zeros() as usize;
        s.add(CATS[i].2);
        m &= m - 1;
    }
    s
}

/// Our mask for a crate value (by variant, not by discriminant).
pub fn index_of(c: C) -> usize {
    CATS.iter().position(|x| x.2 == c).expect("a category")
}

/// Our mask of the categories whose abbreviation starts with `letter`.
pub fn major_mask(letter: &str) -> u32 {
    (0..30).filter(|i| CATS[*i].0.starts_with(letter)).map(|i| 1 << i).sum()
}

pub fn mask_str(mask: u32) -> String {
    if mask == ALL {
        return "{all}".into();
    }
    if mask.count_ones() > 20 {
        return format!("{{all but {}}}", mask_str(ALL & !mask));
    }
    let names: Vec<&str> = (0..30).filter(|i| mask >> i & 1 != 0).map(|i| CATS[i].0).collect();
    format!("{{{}}}", names.join(","))
}
