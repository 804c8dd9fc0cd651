//! Reference copy of the character tables (see tools/gen_tables.py).
#![cfg_attr(rustfmt, rustfmt_skip)]
pub static BASE: [&str; 128] = ["\u{0000}", "\u{0001}", "\u{0002}", "\u{0003}", "\u{0004}", "\u{0005}", "\u{0006}", "\u{0007}", "\u{0008}", "\u{0009}", "\u{000A}", "\u{000B}", "\u{000C}", "\u{000D}", "\u{000E}", "\u{000F}", "\u{0010}", "\u{0011}", "\u{0012}", "\u{0013}", "\u{0014}", "\u{0015}", "\u{0016}", "\u{0017}", "\u{0018}", "\u{0019}", "\u{001A}", "\u{001B}", "\u{001C}", "\u{001D}", "\u{001E}", "\u{001F}", " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~", "\u{007F}"];
pub static P13: [&str; 128] = ["Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ı", "Ä", "Å", "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "İ", "Ö", "Ü", "ø", "£", "Ø", "Ş", "ş", "á", "í", "ó", "ú", "ñ", "Ñ", "Ğ", "ğ", "¿", "®", "¬", "½", "¼", "¡", "«", "»", "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", "º", "ª", "Ê", "Ë", "È", "€", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "", "×", "Ú", "Û", "Ù", "ì", "ÿ", "¯", "´", "\u{00AD}", "±", "", "¾", "¶", "§", "÷", "¸", "°", "¨", "·", "¹", "³", "²", "■", "\u{00A0}"];
pub static P12: [&str; 128] = ["Ç", "ü", "é", "â", "ä", "à", "ĉ", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Ĉ", "É", "ċ", "Ċ", "ô", "ö", "ò", "û", "ù", "İ", "Ö", "Ü", "ĝ", "£", "Ĝ", "×", "ĵ", "á", "í", "ó", "ú", "ñ", "Ñ", "Ğ", "ğ", "Ĥ", "ĥ", "", "½", "Ĵ", "ş", "«", "»", "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "Ş", "╣", "║", "╗", "╝", "Ż", "ż", "┐", "└", "┴", "┬", "├", "─", "┼", "Ŝ", "ŝ", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", "", "", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "", "Ì", "▀", "Ó", "ß", "Ô", "Ò", "Ġ", "ġ", "µ", "Ħ", "ħ", "Ú", "Û", "Ù", "Ŭ", "ŭ", "·", "´", "\u{00AD}", "", "ℓ", "ŉ", "˘", "§", "÷", "¸", "°", "¨", "˙", "", "³", "²", "■", "\u{00A0}"];
pub static P11: [&str; 128] = ["Ç", "ü", "é", "â", "ä", "à", "Ά", "ç", "ê", "ë", "è", "ï", "î", "Έ", "Ä", "Ή", "Ί", "", "Ό", "ô", "ö", "Ύ", "û", "ù", "Ώ", "Ö", "Ü", "ά", "£", "έ", "ή", "ί", "ϊ", "ΐ", "ό", "ύ", "Α", "Β", "Γ", "Δ", "Ε", "Ζ", "Η", "½", "Θ", "Ι", "«", "»", "░", "▒", "▓", "│", "┤", "Κ", "Λ", "Μ", "Ν", "╣", "║", "╗", "╝", "Ξ", "Ο", "┐", "└", "┴", "┬", "├", "─", "┼", "Π", "Ρ", "╚", "╔", "╩", "╦", "╠", "═", "╬", "Σ", "Τ", "Υ", "Φ", "Χ", "Ψ", "Ω", "α", "β", "γ", "┘", "┌", "█", "▄", "δ", "ε", "▀", "ζ", "η", "θ", "ι", "κ", "λ", "μ", "ν", "ξ", "ο", "π", "ρ", "σ", "ς", "τ", "´", "\u{00AD}", "±", "υ", "φ", "χ", "§", "ψ", "¸", "°", "¨", "ω", "ϋ", "ΰ", "ώ", "■", "\u{00A0}"];
pub static P5: [&str; 128] = ["Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤", "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚", "╔", "╩", "╦", "╠", "═", "╬", "╧", "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪", "┘", "┌", "█", "▄", "▌", "▐", "▀", "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ", "Θ", "Ω", "δ", "∞", "φ", "ε", "∩", "≡", "±", "≥", "≤", "⌠", "⌡", "÷", "≈", "°", "∙", "·", "√", "ⁿ", "²", "■", "\u{00A0}"];
pub static P4: [&str; 128] = ["Ç", "ü", "é", "â", "Â", "à", "¶", "ç", "ê", "ë", "è", "ï", "î", "‗", "À", "§", "É", "È", "Ê", "ô", "Ë", "Ï", "û", "ù", "¤", "Ô", "Ü", "¢", "£", "Ù", "Û", "ƒ", "¦", "´", "ó", "ú", "¨", "¸", "³", "¯", "Î", "⌐", "¬", "½", "¼", "¾", "«", "»", "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐", "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚", "╔", "╩", "╦", "╠", "═", "╬", "╧", "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪", "┘", "┌", "█", "▄", "▌", "▐", "▀", "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ", "Θ", "Ω", "δ", "∞", "φ", "ε", "∩", "≡", "±", "≥", "≤", "⌠", "⌡", "÷", "≈", "°", "∙", "·", "√", "ⁿ", "²", "■", "\u{00A0}"];
pub static P3: [&str; 128] = ["Ç", "ü", "é", "â", "ã", "à", "Á", "ç", "ê", "Ê", "è", "Í", "Ô", "ì", "Ã", "Â", "É", "À", "È", "ô", "õ", "ò", "Ú", "ù", "Ì", "Õ", "Ü", "¢", "£", "Ù", "₧", "Ó", "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "Ò", "¬", "½", "¼", "¡", "«", "»", "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐", "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚", "╔", "╩", "╦", "╠", "═", "╬", "╧", "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪", "┘", "┌", "█", "▄", "▌", "▐", "▀", "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ", "Θ", "Ω", "δ", "∞", "φ", "ε", "∩", "≡", "±", "≥", "≤", "⌠", "⌡", "÷", "≈", "°", "∙", "·", "√", "ⁿ", "²", "■", "\u{00A0}"];
pub static P2: [&str; 128] = ["Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", "-", "±", "‗", "¾", "¶", "§", "÷", "¸", "°", "¨", "·", "¹", "³", "²", "■", "\u{00A0}"];
pub static P1: [&str; 128] = ["▁", "▂", "▃", "▄", "▅", "▆", "▇", "█", "▏", "▎", "▍", "▌", "▋", "▊", "▉", "┼", "┴", "┬", "┤", "├", "¯", "─", "│", "▕", "┌", "┐", "└", "┘", "╭", "╮", "╰", "╯", " ", "｡", "｢", "｣", "､", "･", "ｦ", "ｧ", "ｨ", "ｩ", "ｪ", "ｫ", "ｬ", "ｭ", "ｮ", "ｯ", "ｰ", "ｱ", "ｲ", "ｳ", "ｴ", "ｵ", "ｶ", "ｷ", "ｸ", "ｹ", "ｺ", "ｻ", "ｼ", "ｽ", "ｾ", "ｿ", "ﾀ", "ﾁ", "ﾂ", "ﾃ", "ﾄ", "ﾅ", "ﾆ", "ﾇ", "ﾈ", "ﾉ", "ﾊ", "ﾋ", "ﾌ", "ﾍ", "ﾎ", "ﾏ", "ﾐ", "ﾑ", "ﾒ", "ﾓ", "ﾔ", "ﾕ", "ﾖ", "ﾗ", "ﾘ", "ﾙ", "ﾚ", "ﾛ", "ﾜ", "ﾝ", "ﾞ", "ﾟ", "═", "╞", "╪", "╡", "◢", "◣", "◥", "◤", "♠", "♥", "♦", "♣", "●", "○", "╱", "╲", "╳", "円", "年", "月", "日", "時", "分", "秒", "〒", "市", "区", "町", "村", "人", "▓", "\u{00A0}"];
pub static P0: [&str; 128] = ["Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "¢", "£", "¥", "₧", "ƒ", "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "»", "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐", "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚", "╔", "╩", "╦", "╠", "═", "╬", "╧", "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪", "┘", "┌", "█", "▄", "▌", "▐", "▀", "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ", "Θ", "Ω", "δ", "∞", "φ", "ε", "∩", "≡", "±", "≥", "≤", "⌠", "⌡", "÷", "≈", "°", "∙", "·", "√", "ⁿ", "²", "■", "\u{00A0}"];
pub fn page(n: u8) -> &'static [&'static str; 128] { match n {
    1 => &P1,
    2 => &P2,
    3 => &P3,
    4 => &P4,
    5 => &P5,
    11 => &P11,
    12 => &P12,
    13 => &P13,
    _ => &P0,
} }
pub fn language(n: u8) -> &'static [(u8, &'static str)] { match n {
    1 => &[(0x40, "à"), (0x5B, "ç"), (0x5C, "§"), (0x5D, "^"), (0x5E, "é"), (0x60, "ù"), (0x7B, "è"), (0x7C, "¨"), (0x7D, "û"), (0x7E, "ü")],
    2 => &[(0x40, "§"), (0x5B, "Ä"), (0x5C, "Ö"), (0x5D, "Ü"), (0x60, "ä"), (0x7B, "ö"), (0x7C, "ü"), (0x7D, "ß")],
    3 => &[(0x23, "£")],
    4 => &[(0x40, "Ä"), (0x5B, "Æ"), (0x5C, "Ø"), (0x5D, "Å"), (0x5E, "^"), (0x60, "ä"), (0x7B, "æ"), (0x7C, "ø"), (0x7D, "å"), (0x7E, "~")],
    5 => &[(0x40, "É"), (0x5B, "Ä"), (0x5C, "Ö"), (0x5D, "Å"), (0x5E, "Ü"), (0x60, "é"), (0x7B, "ä"), (0x7C, "ö"), (0x7D, "å"), (0x7E, "ü")],
    6 => &[(0x40, "§"), (0x5C, "ù"), (0x5E, "é"), (0x60, "à"), (0x7B, "ò"), (0x7C, "ç"), (0x7D, "è"), (0x7E, "ì")],
    7 => &[(0x40, "Ñ"), (0x5B, "¡"), (0x5C, "¿"), (0x5D, "ç"), (0x7B, "ñ"), (0x7C, "¬"), (0x7D, "½"), (0x7E, "¼")],
    8 => &[(0x5C, "¥"), (0x7C, "¦")],
    9 => &[(0x40, "Ä"), (0x5B, "Æ"), (0x5C, "Ø"), (0x5D, "Å"), (0x5E, "Ü"), (0x60, "ä"), (0x7B, "æ"), (0x7C, "ø"), (0x7D, "å"), (0x7E, "ü")],
    10 => &[(0x40, "É"), (0x5B, "Æ"), (0x5C, "Ø"), (0x5D, "Å"), (0x5E, "Ü"), (0x60, "é"), (0x7B, "æ"), (0x7C, "ø"), (0x7D, "å"), (0x7E, "ü")],
    11 => &[(0x40, "á"), (0x5B, "í"), (0x5C, "Ñ"), (0x5D, "Ó"), (0x5E, "Ú"), (0x60, "ñ"), (0x7B, "á"), (0x7C, "í"), (0x7D, "ó"), (0x7E, "ú")],
    12 => &[(0x40, "á"), (0x5B, "í"), (0x5C, "Ñ"), (0x5D, "Ó"), (0x5E, "Ú"), (0x60, "ñ"), (0x7B, "é"), (0x7C, "í"), (0x7D, "ó"), (0x7E, "ú")],
    13 => &[(0x5C, "₩"), (0x7C, "₩")],
    14 => &[(0x5B, "Š"), (0x5C, "Đ"), (0x5D, "Č"), (0x7B, "ž"), (0x7C, "đ"), (0x7D, "č")],
    15 => &[(0x5C, "¥")],
    16 => &[(0x23, "đ")],
    17 => &[(0x2A, "٭")],
    66 => &[(0x30, "०"), (0x31, "१"), (0x32, "२"), (0x33, "३"), (0x34, "४"), (0x35, "५"), (0x36, "६"), (0x37, "७"), (0x38, "८"), (0x39, "९")],
    67 => &[(0x30, "০"), (0x31, "১"), (0x32, "২"), (0x33, "৩"), (0x34, "৪"), (0x35, "৫"), (0x36, "৬"), (0x37, "৭"), (0x38, "৮"), (0x39, "৯")],
    68 => &[(0x30, "௦"), (0x31, "௧"), (0x32, "௨"), (0x33, "௩"), (0x34, "௪"), (0x35, "௫"), (0x36, "௬"), (0x37, "௭"), (0x38, "௮"), (0x39, "௯")],
    69 => &[(0x30, "౦"), (0x31, "౧"), (0x32, "౨"), (0x33, "౩"), (0x34, "౪"), (0x35, "౫"), (0x36, "౬"), (0x37, "౭"), (0x38, "౮"), (0x39, "౯")],
    70 => &[(0x30, "০"), (0x31, "১"), (0x32, "২"), (0x33, "৩"), (0x34, "৪"), (0x35, "৫"), (0x36, "৬"), (0x37, "৭"), (0x38, "৮"), (0x39, "৯")],
    71 => &[(0x30, "୦"), (0x31, "୧"), (0x32, "୨"), (0x33, "୩"), (0x34, "୪"), (0x35, "୫"), (0x36, "୬"), (0x37, "୭"), (0x38, "୮"), (0x39, "୯")],
    72 => &[(0x30, "೦"), (0x31, "೧"), (0x32, "೨"), (0x33, "೩"), (0x34, "೪"), (0x35, "೫"), (0x36, "೬"), (0x37, "೭"), (0x38, "೮"), (0x39, "೯")],
    73 => &[(0x30, "൦"), (0x31, "൧"), (0x32, "൨"), (0x33, "൩"), (0x34, "൪"), (0x35, "൫"), (0x36, "൬"), (0x37, "൭"), (0x38, "൮"), (0x39, "൯")],
    74 => &[(0x30, "૦"), (0x31, "૧"), (0x32, "૨"), (0x33, "૩"), (0x34, "૪"), (0x35, "૫"), (0x36, "૬"), (0x37, "૭"), (0x38, "૮"), (0x39, "૯")],
    75 => &[(0x30, "੦"), (0x31, "੧"), (0x32, "੨"), (0x33, "੩"), (0x34, "੪"), (0x35, "੫"), (0x36, "੬"), (0x37, "੭"), (0x38, "੮"), (0x39, "੯")],
    82 => &[(0x30, "०"), (0x31, "१"), (0x32, "२"), (0x33, "३"), (0x34, "४"), (0x35, "५"), (0x36, "६"), (0x37, "७"), (0x38, "८"), (0x39, "९")],
    _ => &[],
} }

pub fn decode(table: u8, charset: u8, b: u8) -> &'static str {
    let mut s = if b < 128 { BASE[b as usize] } else { page(table)[b as usize - 128] };
    for (i, r) in language(charset) {
        if *i == b {
            s = r;
        }
    }
    s
}
