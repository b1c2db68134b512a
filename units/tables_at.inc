pub open spec fn s_at_code(s: Seq<char>) -> int { s.len() + 100 * (s[0] as int) + 100000 * (s[s.len() as int / 2] as int) + 100000000 * (s[s.len() - 1] as int) + 100000000000 * (s[s.len() as int / 4] as int) }
pub open spec fn s_at_num(x: AnnotationType) -> int { match x { AnnotationType::TEXT => 10111612011604, AnnotationType::TOKEN => 11111010711605, AnnotationType::DIVISION => 11811011510008, AnnotationType::PARAGRAPH => 11410410311209, AnnotationType::HEAD => 10110009710404, AnnotationType::LIST => 10511611510804, AnnotationType::FIGURE => 10510111710206, AnnotationType::WHITESPACE => 10510111511910, AnnotationType::LINEBREAK => 11010709810809, AnnotationType::SENTENCE => 11010110111508, AnnotationType::POS => 11211511111203, AnnotationType::LEMMA => 10109710910805, AnnotationType::DOMAIN => 11111009710006, AnnotationType::SENSE => 10110111011505, AnnotationType::SYNTAX => 12112011611506, AnnotationType::CHUNKING => 11710310709908, AnnotationType::ENTITY => 11012110510106, AnnotationType::CORRECTION => 11411009909910, AnnotationType::ERRORDETECTION => 11111011610114, AnnotationType::PHON => 10411011111204, AnnotationType::SUBJECTIVITY => 10612111611512, AnnotationType::MORPHOLOGICAL => 11210810810913, AnnotationType::EVENT => 11811610110105, AnnotationType::DEPENDENCY => 11212110010010, AnnotationType::TIMESEGMENT => 10911610111611, AnnotationType::GAP => 10311209710303, AnnotationType::QUOTE => 11710111111305, AnnotationType::NOTE => 11110111611004, AnnotationType::REFERENCE => 10210111411409, AnnotationType::RELATION => 10811011611408, AnnotationType::SPANRELATION => 11011010811512, AnnotationType::COREFERENCE => 11410110109911, AnnotationType::SEMROLE => 10110111411507, AnnotationType::METRIC => 10109911410906, AnnotationType::LANG => 9710311010804, AnnotationType::STRING => 11610310511506, AnnotationType::TABLE => 9710109811605, AnnotationType::STYLE => 11610112111505, AnnotationType::PART => 9711611411204, AnnotationType::UTTERANCE => 11610111411709, AnnotationType::ENTRY => 11012111610105, AnnotationType::TERM => 10110911411604, AnnotationType::DEFINITION => 10211010510010, AnnotationType::EXAMPLE => 12010110910107, AnnotationType::PHONOLOGICAL => 11010811111212, AnnotationType::PREDICATE => 10110110511209, AnnotationType::OBSERVATION => 11511011811111, AnnotationType::SENTIMENT => 11011610511509, AnnotationType::STATEMENT => 9711610111509, AnnotationType::ALTERNATIVE => 11610111009711, AnnotationType::RAWCONTENT => 11911611011410, AnnotationType::COMMENT => 11111610909907, AnnotationType::DESCRIPTION => 11511010510011, AnnotationType::HYPHENATION => 11211011010411, AnnotationType::HIDDENTOKEN => 10011011010411, AnnotationType::MODALITY => 10012110810908, AnnotationType::EXTERNAL => 11610811410108, AnnotationType::HSPACE => 11510109710406 } }
pub open spec fn s_at_unnum(n: int) -> AnnotationType { if n == 10111612011604 { AnnotationType::TEXT } else if n == 11111010711605 { AnnotationType::TOKEN } else if n == 11811011510008 { AnnotationType::DIVISION } else if n == 11410410311209 { AnnotationType::PARAGRAPH } else if n == 10110009710404 { AnnotationType::HEAD } else if n == 10511611510804 { AnnotationType::LIST } else if n == 10510111710206 { AnnotationType::FIGURE } else if n == 10510111511910 { AnnotationType::WHITESPACE } else if n == 11010709810809 { AnnotationType::LINEBREAK } else if n == 11010110111508 { AnnotationType::SENTENCE } else if n == 11211511111203 { AnnotationType::POS } else if n == 10109710910805 { AnnotationType::LEMMA } else if n == 11111009710006 { AnnotationType::DOMAIN } else if n == 10110111011505 { AnnotationType::SENSE } else if n == 12112011611506 { AnnotationType::SYNTAX } else if n == 11710310709908 { AnnotationType::CHUNKING } else if n == 11012110510106 { AnnotationType::ENTITY } else if n == 11411009909910 { AnnotationType::CORRECTION } else if n == 11111011610114 { AnnotationType::ERRORDETECTION } else if n == 10411011111204 { AnnotationType::PHON } else if n == 10612111611512 { AnnotationType::SUBJECTIVITY } else if n == 11210810810913 { AnnotationType::MORPHOLOGICAL } else if n == 11811610110105 { AnnotationType::EVENT } else if n == 11212110010010 { AnnotationType::DEPENDENCY } else if n == 10911610111611 { AnnotationType::TIMESEGMENT } else if n == 10311209710303 { AnnotationType::GAP } else if n == 11710111111305 { AnnotationType::QUOTE } else if n == 11110111611004 { AnnotationType::NOTE } else if n == 10210111411409 { AnnotationType::REFERENCE } else if n == 10811011611408 { AnnotationType::RELATION } else if n == 11011010811512 { AnnotationType::SPANRELATION } else if n == 11410110109911 { AnnotationType::COREFERENCE } else if n == 10110111411507 { AnnotationType::SEMROLE } else if n == 10109911410906 { AnnotationType::METRIC } else if n == 9710311010804 { AnnotationType::LANG } else if n == 11610310511506 { AnnotationType::STRING } else if n == 9710109811605 { AnnotationType::TABLE } else if n == 11610112111505 { AnnotationType::STYLE } else if n == 9711611411204 { AnnotationType::PART } else if n == 11610111411709 { AnnotationType::UTTERANCE } else if n == 11012111610105 { AnnotationType::ENTRY } else if n == 10110911411604 { AnnotationType::TERM } else if n == 10211010510010 { AnnotationType::DEFINITION } else if n == 12010110910107 { AnnotationType::EXAMPLE } else if n == 11010811111212 { AnnotationType::PHONOLOGICAL } else if n == 10110110511209 { AnnotationType::PREDICATE } else if n == 11511011811111 { AnnotationType::OBSERVATION } else if n == 11011610511509 { AnnotationType::SENTIMENT } else if n == 9711610111509 { AnnotationType::STATEMENT } else if n == 11610111009711 { AnnotationType::ALTERNATIVE } else if n == 11911611011410 { AnnotationType::RAWCONTENT } else if n == 11111610909907 { AnnotationType::COMMENT } else if n == 11511010510011 { AnnotationType::DESCRIPTION } else if n == 11211011010411 { AnnotationType::HYPHENATION } else if n == 10011011010411 { AnnotationType::HIDDENTOKEN } else if n == 10012110810908 { AnnotationType::MODALITY } else if n == 11610811410108 { AnnotationType::EXTERNAL } else if n == 11510109710406 { AnnotationType::HSPACE } else  { arbitrary() } }
pub open spec fn s_at_is_name(s: Seq<char>) -> bool { s == "text"@ || s == "token"@ || s == "division"@ || s == "paragraph"@ || s == "head"@ || s == "list"@ || s == "figure"@ || s == "whitespace"@ || s == "linebreak"@ || s == "sentence"@ || s == "pos"@ || s == "lemma"@ || s == "domain"@ || s == "sense"@ || s == "syntax"@ || s == "chunking"@ || s == "entity"@ || s == "correction"@ || s == "errordetection"@ || s == "phon"@ || s == "subjectivity"@ || s == "morphological"@ || s == "event"@ || s == "dependency"@ || s == "timesegment"@ || s == "gap"@ || s == "quote"@ || s == "note"@ || s == "reference"@ || s == "relation"@ || s == "spanrelation"@ || s == "coreference"@ || s == "semrole"@ || s == "metric"@ || s == "lang"@ || s == "string"@ || s == "table"@ || s == "style"@ || s == "part"@ || s == "utterance"@ || s == "entry"@ || s == "term"@ || s == "definition"@ || s == "example"@ || s == "phonological"@ || s == "predicate"@ || s == "observation"@ || s == "sentiment"@ || s == "statement"@ || s == "alternative"@ || s == "rawcontent"@ || s == "comment"@ || s == "description"@ || s == "hyphenation"@ || s == "hiddentoken"@ || s == "modality"@ || s == "external"@ || s == "hspace"@ }
//# if prove
proof fn lemma_s_at_is_name(t: AnnotationType) ensures s_at_is_name(s_at_name(t)) { match t { AnnotationType::TEXT => {}, AnnotationType::TOKEN => {}, AnnotationType::DIVISION => {}, AnnotationType::PARAGRAPH => {}, AnnotationType::HEAD => {}, AnnotationType::LIST => {}, AnnotationType::FIGURE => {}, AnnotationType::WHITESPACE => {}, AnnotationType::LINEBREAK => {}, AnnotationType::SENTENCE => {}, AnnotationType::POS => {}, AnnotationType::LEMMA => {}, AnnotationType::DOMAIN => {}, AnnotationType::SENSE => {}, AnnotationType::SYNTAX => {}, AnnotationType::CHUNKING => {}, AnnotationType::ENTITY => {}, AnnotationType::CORRECTION => {}, AnnotationType::ERRORDETECTION => {}, AnnotationType::PHON => {}, AnnotationType::SUBJECTIVITY => {}, AnnotationType::MORPHOLOGICAL => {}, AnnotationType::EVENT => {}, AnnotationType::DEPENDENCY => {}, AnnotationType::TIMESEGMENT => {}, AnnotationType::GAP => {}, AnnotationType::QUOTE => {}, AnnotationType::NOTE => {}, AnnotationType::REFERENCE => {}, AnnotationType::RELATION => {}, AnnotationType::SPANRELATION => {}, AnnotationType::COREFERENCE => {}, AnnotationType::SEMROLE => {}, AnnotationType::METRIC => {}, AnnotationType::LANG => {}, AnnotationType::STRING => {}, AnnotationType::TABLE => {}, AnnotationType::STYLE => {}, AnnotationType::PART => {}, AnnotationType::UTTERANCE => {}, AnnotationType::ENTRY => {}, AnnotationType::TERM => {}, AnnotationType::DEFINITION => {}, AnnotationType::EXAMPLE => {}, AnnotationType::PHONOLOGICAL => {}, AnnotationType::PREDICATE => {}, AnnotationType::OBSERVATION => {}, AnnotationType::SENTIMENT => {}, AnnotationType::STATEMENT => {}, AnnotationType::ALTERNATIVE => {}, AnnotationType::RAWCONTENT => {}, AnnotationType::COMMENT => {}, AnnotationType::DESCRIPTION => {}, AnnotationType::HYPHENATION => {}, AnnotationType::HIDDENTOKEN => {}, AnnotationType::MODALITY => {}, AnnotationType::EXTERNAL => {}, AnnotationType::HSPACE => {} } }
proof fn lemma_s_at_num(t: AnnotationType) ensures s_at_unnum(s_at_num(t)) == t { match t { AnnotationType::TEXT => {}, AnnotationType::TOKEN => {}, AnnotationType::DIVISION => {}, AnnotationType::PARAGRAPH => {}, AnnotationType::HEAD => {}, AnnotationType::LIST => {}, AnnotationType::FIGURE => {}, AnnotationType::WHITESPACE => {}, AnnotationType::LINEBREAK => {}, AnnotationType::SENTENCE => {}, AnnotationType::POS => {}, AnnotationType::LEMMA => {}, AnnotationType::DOMAIN => {}, AnnotationType::SENSE => {}, AnnotationType::SYNTAX => {}, AnnotationType::CHUNKING => {}, AnnotationType::ENTITY => {}, AnnotationType::CORRECTION => {}, AnnotationType::ERRORDETECTION => {}, AnnotationType::PHON => {}, AnnotationType::SUBJECTIVITY => {}, AnnotationType::MORPHOLOGICAL => {}, AnnotationType::EVENT => {}, AnnotationType::DEPENDENCY => {}, AnnotationType::TIMESEGMENT => {}, AnnotationType::GAP => {}, AnnotationType::QUOTE => {}, AnnotationType::NOTE => {}, AnnotationType::REFERENCE => {}, AnnotationType::RELATION => {}, AnnotationType::SPANRELATION => {}, AnnotationType::COREFERENCE => {}, AnnotationType::SEMROLE => {}, AnnotationType::METRIC => {}, AnnotationType::LANG => {}, AnnotationType::STRING => {}, AnnotationType::TABLE => {}, AnnotationType::STYLE => {}, AnnotationType::PART => {}, AnnotationType::UTTERANCE => {}, AnnotationType::ENTRY => {}, AnnotationType::TERM => {}, AnnotationType::DEFINITION => {}, AnnotationType::EXAMPLE => {}, AnnotationType::PHONOLOGICAL => {}, AnnotationType::PREDICATE => {}, AnnotationType::OBSERVATION => {}, AnnotationType::SENTIMENT => {}, AnnotationType::STATEMENT => {}, AnnotationType::ALTERNATIVE => {}, AnnotationType::RAWCONTENT => {}, AnnotationType::COMMENT => {}, AnnotationType::DESCRIPTION => {}, AnnotationType::HYPHENATION => {}, AnnotationType::HIDDENTOKEN => {}, AnnotationType::MODALITY => {}, AnnotationType::EXTERNAL => {}, AnnotationType::HSPACE => {} } }
proof fn lemma_s_at_code(t: AnnotationType) ensures s_at_code(s_at_name(t)) == s_at_num(t), forall|i: int| 0 <= i < s_at_name(t).len() ==> #[trigger] s_at_name(t)[i] != '/' { match t {
    AnnotationType::TEXT => { let s = "text"@; reveal_strlit("text"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'e' && s[2] == 'x' && s[3] == 't'); }
    AnnotationType::TOKEN => { let s = "token"@; reveal_strlit("token"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'o' && s[2] == 'k' && s[4] == 'n'); }
    AnnotationType::DIVISION => { let s = "division"@; reveal_strlit("division"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'd' && s[2] == 'v' && s[4] == 's' && s[7] == 'n'); }
    AnnotationType::PARAGRAPH => { let s = "paragraph"@; reveal_strlit("paragraph"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'p' && s[2] == 'r' && s[4] == 'g' && s[8] == 'h'); }
    AnnotationType::HEAD => { let s = "head"@; reveal_strlit("head"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'h' && s[1] == 'e' && s[2] == 'a' && s[3] == 'd'); }
    AnnotationType::LIST => { let s = "list"@; reveal_strlit("list"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'i' && s[2] == 's' && s[3] == 't'); }
    AnnotationType::FIGURE => { let s = "figure"@; reveal_strlit("figure"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'f' && s[1] == 'i' && s[3] == 'u' && s[5] == 'e'); }
    AnnotationType::WHITESPACE => { let s = "whitespace"@; reveal_strlit("whitespace"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'w' && s[2] == 'i' && s[5] == 's' && s[9] == 'e'); }
    AnnotationType::LINEBREAK => { let s = "linebreak"@; reveal_strlit("linebreak"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'l' && s[2] == 'n' && s[4] == 'b' && s[8] == 'k'); }
    AnnotationType::SENTENCE => { let s = "sentence"@; reveal_strlit("sentence"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'n' && s[4] == 'e' && s[7] == 'e'); }
    AnnotationType::POS => { let s = "pos"@; reveal_strlit("pos"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'p' && s[0] == 'p' && s[1] == 'o' && s[2] == 's'); }
    AnnotationType::LEMMA => { let s = "lemma"@; reveal_strlit("lemma"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'e' && s[2] == 'm' && s[4] == 'a'); }
    AnnotationType::DOMAIN => { let s = "domain"@; reveal_strlit("domain"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'd' && s[1] == 'o' && s[3] == 'a' && s[5] == 'n'); }
    AnnotationType::SENSE => { let s = "sense"@; reveal_strlit("sense"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'e' && s[2] == 'n' && s[4] == 'e'); }
    AnnotationType::SYNTAX => { let s = "syntax"@; reveal_strlit("syntax"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'y' && s[3] == 't' && s[5] == 'x'); }
    AnnotationType::CHUNKING => { let s = "chunking"@; reveal_strlit("chunking"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'c' && s[2] == 'u' && s[4] == 'k' && s[7] == 'g'); }
    AnnotationType::ENTITY => { let s = "entity"@; reveal_strlit("entity"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'e' && s[1] == 'n' && s[3] == 'i' && s[5] == 'y'); }
    AnnotationType::CORRECTION => { let s = "correction"@; reveal_strlit("correction"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'c' && s[2] == 'r' && s[5] == 'c' && s[9] == 'n'); }
    AnnotationType::ERRORDETECTION => { let s = "errordetection"@; reveal_strlit("errordetection"); assert(s.len() == 14 && s.len() as int / 2 == 7 && s.len() as int / 4 == 3 && s[0] == 'e' && s[3] == 'o' && s[7] == 't' && s[13] == 'n'); }
    AnnotationType::PHON => { let s = "phon"@; reveal_strlit("phon"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'p' && s[1] == 'h' && s[2] == 'o' && s[3] == 'n'); }
    AnnotationType::SUBJECTIVITY => { let s = "subjectivity"@; reveal_strlit("subjectivity"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 's' && s[3] == 'j' && s[6] == 't' && s[11] == 'y'); }
    AnnotationType::MORPHOLOGICAL => { let s = "morphological"@; reveal_strlit("morphological"); assert(s.len() == 13 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 'm' && s[3] == 'p' && s[6] == 'l' && s[12] == 'l'); }
    AnnotationType::EVENT => { let s = "event"@; reveal_strlit("event"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'e' && s[1] == 'v' && s[2] == 'e' && s[4] == 't'); }
    AnnotationType::DEPENDENCY => { let s = "dependency"@; reveal_strlit("dependency"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'd' && s[2] == 'p' && s[5] == 'd' && s[9] == 'y'); }
    AnnotationType::TIMESEGMENT => { let s = "timesegment"@; reveal_strlit("timesegment"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 't' && s[2] == 'm' && s[5] == 'e' && s[10] == 't'); }
    AnnotationType::GAP => { let s = "gap"@; reveal_strlit("gap"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'g' && s[0] == 'g' && s[1] == 'a' && s[2] == 'p'); }
    AnnotationType::QUOTE => { let s = "quote"@; reveal_strlit("quote"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'q' && s[1] == 'u' && s[2] == 'o' && s[4] == 'e'); }
    AnnotationType::NOTE => { let s = "note"@; reveal_strlit("note"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'n' && s[1] == 'o' && s[2] == 't' && s[3] == 'e'); }
    AnnotationType::REFERENCE => { let s = "reference"@; reveal_strlit("reference"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'r' && s[2] == 'f' && s[4] == 'r' && s[8] == 'e'); }
    AnnotationType::RELATION => { let s = "relation"@; reveal_strlit("relation"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'r' && s[2] == 'l' && s[4] == 't' && s[7] == 'n'); }
    AnnotationType::SPANRELATION => { let s = "spanrelation"@; reveal_strlit("spanrelation"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 's' && s[3] == 'n' && s[6] == 'l' && s[11] == 'n'); }
    AnnotationType::COREFERENCE => { let s = "coreference"@; reveal_strlit("coreference"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'c' && s[2] == 'r' && s[5] == 'e' && s[10] == 'e'); }
    AnnotationType::SEMROLE => { let s = "semrole"@; reveal_strlit("semrole"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'e' && s[3] == 'r' && s[6] == 'e'); }
    AnnotationType::METRIC => { let s = "metric"@; reveal_strlit("metric"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'm' && s[1] == 'e' && s[3] == 'r' && s[5] == 'c'); }
    AnnotationType::LANG => { let s = "lang"@; reveal_strlit("lang"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'a' && s[2] == 'n' && s[3] == 'g'); }
    AnnotationType::STRING => { let s = "string"@; reveal_strlit("string"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 't' && s[3] == 'i' && s[5] == 'g'); }
    AnnotationType::TABLE => { let s = "table"@; reveal_strlit("table"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'a' && s[2] == 'b' && s[4] == 'e'); }
    AnnotationType::STYLE => { let s = "style"@; reveal_strlit("style"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 't' && s[2] == 'y' && s[4] == 'e'); }
    AnnotationType::PART => { let s = "part"@; reveal_strlit("part"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'p' && s[1] == 'a' && s[2] == 'r' && s[3] == 't'); }
    AnnotationType::UTTERANCE => { let s = "utterance"@; reveal_strlit("utterance"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'u' && s[2] == 't' && s[4] == 'r' && s[8] == 'e'); }
    AnnotationType::ENTRY => { let s = "entry"@; reveal_strlit("entry"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'e' && s[1] == 'n' && s[2] == 't' && s[4] == 'y'); }
    AnnotationType::TERM => { let s = "term"@; reveal_strlit("term"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'e' && s[2] == 'r' && s[3] == 'm'); }
    AnnotationType::DEFINITION => { let s = "definition"@; reveal_strlit("definition"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'd' && s[2] == 'f' && s[5] == 'i' && s[9] == 'n'); }
    AnnotationType::EXAMPLE => { let s = "example"@; reveal_strlit("example"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'e' && s[1] == 'x' && s[3] == 'm' && s[6] == 'e'); }
    AnnotationType::PHONOLOGICAL => { let s = "phonological"@; reveal_strlit("phonological"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 'p' && s[3] == 'n' && s[6] == 'o' && s[11] == 'l'); }
    AnnotationType::PREDICATE => { let s = "predicate"@; reveal_strlit("predicate"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'p' && s[2] == 'e' && s[4] == 'i' && s[8] == 'e'); }
    AnnotationType::OBSERVATION => { let s = "observation"@; reveal_strlit("observation"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'o' && s[2] == 's' && s[5] == 'v' && s[10] == 'n'); }
    AnnotationType::SENTIMENT => { let s = "sentiment"@; reveal_strlit("sentiment"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'n' && s[4] == 'i' && s[8] == 't'); }
    AnnotationType::STATEMENT => { let s = "statement"@; reveal_strlit("statement"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'a' && s[4] == 'e' && s[8] == 't'); }
    AnnotationType::ALTERNATIVE => { let s = "alternative"@; reveal_strlit("alternative"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'a' && s[2] == 't' && s[5] == 'n' && s[10] == 'e'); }
    AnnotationType::RAWCONTENT => { let s = "rawcontent"@; reveal_strlit("rawcontent"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'r' && s[2] == 'w' && s[5] == 'n' && s[9] == 't'); }
    AnnotationType::COMMENT => { let s = "comment"@; reveal_strlit("comment"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'c' && s[1] == 'o' && s[3] == 'm' && s[6] == 't'); }
    AnnotationType::DESCRIPTION => { let s = "description"@; reveal_strlit("description"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'd' && s[2] == 's' && s[5] == 'i' && s[10] == 'n'); }
    AnnotationType::HYPHENATION => { let s = "hyphenation"@; reveal_strlit("hyphenation"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'h' && s[2] == 'p' && s[5] == 'n' && s[10] == 'n'); }
    AnnotationType::HIDDENTOKEN => { let s = "hiddentoken"@; reveal_strlit("hiddentoken"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'h' && s[2] == 'd' && s[5] == 'n' && s[10] == 'n'); }
    AnnotationType::MODALITY => { let s = "modality"@; reveal_strlit("modality"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'm' && s[2] == 'd' && s[4] == 'l' && s[7] == 'y'); }
    AnnotationType::EXTERNAL => { let s = "external"@; reveal_strlit("external"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'e' && s[2] == 't' && s[4] == 'r' && s[7] == 'l'); }
    AnnotationType::HSPACE => { let s = "hspace"@; reveal_strlit("hspace"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'h' && s[1] == 's' && s[3] == 'a' && s[5] == 'e'); }
} }
pub proof fn lemma_s_at_names() ensures forall|a: AnnotationType, b: AnnotationType| #[trigger] s_at_name(a) == #[trigger] s_at_name(b) ==> a == b, forall|t: AnnotationType, i: int| 0 <= i < s_at_name(t).len() ==> #[trigger] s_at_name(t)[i] != '/', forall|t: AnnotationType| s_at_is_name(#[trigger] s_at_name(t))
{
    assert forall|t: AnnotationType, i: int| 0 <= i < s_at_name(t).len() implies #[trigger] s_at_name(t)[i] != '/' by { lemma_s_at_code(t); }
    assert forall|a: AnnotationType, b: AnnotationType| #[trigger] s_at_name(a) == #[trigger] s_at_name(b) implies a == b by { lemma_s_at_code(a); lemma_s_at_code(b); lemma_s_at_num(a); lemma_s_at_num(b); }
    assert forall|t: AnnotationType| s_at_is_name(#[trigger] s_at_name(t)) by { lemma_s_at_is_name(t); }
}
//# end-if
//# if assume
#[verifier::external_body] pub proof fn lemma_s_at_names() ensures forall|a: AnnotationType, b: AnnotationType| #[trigger] s_at_name(a) == #[trigger] s_at_name(b) ==> a == b, forall|t: AnnotationType, i: int| 0 <= i < s_at_name(t).len() ==> #[trigger] s_at_name(t)[i] != '/', forall|t: AnnotationType| s_at_is_name(#[trigger] s_at_name(t)) { unimplemented!() }
//# end-if
