pub open spec fn s_el_code(s: Seq<char>) -> int { s.len() + 100 * (s[0] as int) + 100000 * (s[s.len() as int / 2] as int) + 100000000 * (s[s.len() - 1] as int) + 100000000000 * (s[s.len() as int / 4] as int) }
pub open spec fn s_el_num(x: ElementType) -> int { match x { ElementType::ActorFeature => 9911411609705, ElementType::Alternative => 9711610809703, ElementType::AlternativeLayers => 11611509709709, ElementType::BegindatetimeFeature => 10510109709813, ElementType::Caption => 9711011609907, ElementType::Cell => 10110810809904, ElementType::Chunk => 10410711709905, ElementType::ChunkingLayer => 11710310709908, ElementType::Comment => 11111610909907, ElementType::Content => 11111611609907, ElementType::CoreferenceChain => 10211011009916, ElementType::CoreferenceLayer => 10111511409912, ElementType::CoreferenceLink => 10110710109915, ElementType::Correction => 11411009909910, ElementType::Cue => 9910111709903, ElementType::Current => 11711611409907, ElementType::Definition => 10010210110003, ElementType::DependenciesLayer => 10111510110012, ElementType::Dependency => 11212110010010, ElementType::DependencyDependent => 10011210110003, ElementType::Description => 10109911510004, ElementType::Division => 10011810510003, ElementType::DomainAnnotation => 11111009710006, ElementType::EnddatetimeFeature => 10010111610111, ElementType::EntitiesLayer => 11611511610108, ElementType::Entity => 11012110510106, ElementType::Entry => 11012111610105, ElementType::ErrorDetection => 11111011610114, ElementType::Event => 11811610110105, ElementType::Example => 10112012010102, ElementType::External => 11610811410108, ElementType::Feature => 10111609710204, ElementType::Figure => 10510111710206, ElementType::FontFeature => 11111611010204, ElementType::ForeignData => 10109711010212, ElementType::FunctionFeature => 11011011610208, ElementType::Gap => 10311209710303, ElementType::Head => 10110009710404, ElementType::HeadFeature => 9710110110411, ElementType::Headspan => 10410010010402, ElementType::Hiddenword => 10511910010407, ElementType::Hyphbreak => 4511410411605, ElementType::Label => 9710809810805, ElementType::LangAnnotation => 9710311010804, ElementType::LemmaAnnotation => 10109710910805, ElementType::LevelFeature => 10110811810805, ElementType::Linebreak => 9811411409802, ElementType::LinkReference => 11410210112004, ElementType::List => 10511611510804, ElementType::ListItem => 11610910110504, ElementType::Metric => 10109911410906, ElementType::ModalitiesLayer => 10011510510910, ElementType::Modality => 10012110810908, ElementType::ModalityFeature => 10910011110903, ElementType::Morpheme => 11410110410908, ElementType::MorphologyLayer => 11412111110910, ElementType::New => 11011910111003, ElementType::Note => 11110111611004, ElementType::Observation => 11511011811111, ElementType::ObservationLayer => 10111509711112, ElementType::Original => 10510810511108, ElementType::Paragraph => 11211211211201, ElementType::Part => 9711611411204, ElementType::PhonContent => 11210410411202, ElementType::Phoneme => 10410111011207, ElementType::PhonologyLayer => 11112111111209, ElementType::PolarityFeature => 10812111411208, ElementType::PosAnnotation => 11211511111203, ElementType::Predicate => 10110110511209, ElementType::Quote => 11710111111305, ElementType::Reference => 11410210111403, ElementType::Relation => 10811011611408, ElementType::Row => 11411911111403, ElementType::Scope => 9910111111505, ElementType::SemanticRole => 10110111411507, ElementType::SemanticRolesLayer => 10911511111508, ElementType::SenseAnnotation => 10110111011505, ElementType::Sentence => 11511511511501, ElementType::Sentiment => 11011610511509, ElementType::SentimentLayer => 11011510911510, ElementType::SizeFeature => 10510112211504, ElementType::Source => 11110111411506, ElementType::SpanRelation => 11011010811512, ElementType::SpanRelationLayer => 11011510811513, ElementType::Speech => 11210410111506, ElementType::Statement => 9711610111509, ElementType::StatementLayer => 9711510911510, ElementType::StatementRelation => 11410810111403, ElementType::StrengthFeature => 11410411011508, ElementType::String => 11511411611503, ElementType::StyleFeature => 11610112111505, ElementType::SubjectivityAnnotation => 10612111611512, ElementType::Suggestion => 10311011511510, ElementType::SynsetFeature => 12111611511506, ElementType::SyntacticUnit => 11511711711502, ElementType::SyntaxLayer => 12112011611506, ElementType::Table => 9710109811605, ElementType::TableHead => 9810010111609, ElementType::Target => 9711610311606, ElementType::Term => 10110911411604, ElementType::Text => 10111612011604, ElementType::TextContent => 11611611611601, ElementType::TextMarkupCorrection => 11111010111612, ElementType::TextMarkupError => 4511411411607, ElementType::TextMarkupGap => 4511210311605, ElementType::TextMarkupHSpace => 10410111211608, ElementType::TextMarkupLanguage => 4510309711606, ElementType::TextMarkupReference => 4510211411605, ElementType::TextMarkupString => 4511411511605, ElementType::TextMarkupStyle => 4510111611607, ElementType::TextMarkupWhitespace => 10410110111612, ElementType::TimeFeature => 10510110911604, ElementType::TimeSegment => 10911610111611, ElementType::TimingLayer => 10510310511606, ElementType::Utterance => 11711611611703, ElementType::ValueFeature => 9710110811805, ElementType::Whitespace => 10510111511910, ElementType::Word => 11911911911901, ElementType::WordReference => 11410210111904 } }
pub open spec fn s_el_unnum(n: int) -> ElementType { if n == 9911411609705 { ElementType::ActorFeature } else if n == 9711610809703 { ElementType::Alternative } else if n == 11611509709709 { ElementType::AlternativeLayers } else if n == 10510109709813 { ElementType::BegindatetimeFeature } else if n == 9711011609907 { ElementType::Caption } else if n == 10110810809904 { ElementType::Cell } else if n == 10410711709905 { ElementType::Chunk } else if n == 11710310709908 { ElementType::ChunkingLayer } else if n == 11111610909907 { ElementType::Comment } else if n == 11111611609907 { ElementType::Content } else if n == 10211011009916 { ElementType::CoreferenceChain } else if n == 10111511409912 { ElementType::CoreferenceLayer } else if n == 10110710109915 { ElementType::CoreferenceLink } else if n == 11411009909910 { ElementType::Correction } else if n == 9910111709903 { ElementType::Cue } else if n == 11711611409907 { ElementType::Current } else if n == 10010210110003 { ElementType::Definition } else if n == 10111510110012 { ElementType::DependenciesLayer } else if n == 11212110010010 { ElementType::Dependency } else if n == 10011210110003 { ElementType::DependencyDependent } else if n == 10109911510004 { ElementType::Description } else if n == 10011810510003 { ElementType::Division } else if n == 11111009710006 { ElementType::DomainAnnotation } else if n == 10010111610111 { ElementType::EnddatetimeFeature } else if n == 11611511610108 { ElementType::EntitiesLayer } else if n == 11012110510106 { ElementType::Entity } else if n == 11012111610105 { ElementType::Entry } else if n == 11111011610114 { ElementType::ErrorDetection } else if n == 11811610110105 { ElementType::Event } else if n == 10112012010102 { ElementType::Example } else if n == 11610811410108 { ElementType::External } else if n == 10111609710204 { ElementType::Feature } else if n == 10510111710206 { ElementType::Figure } else if n == 11111611010204 { ElementType::FontFeature } else if n == 10109711010212 { ElementType::ForeignData } else if n == 11011011610208 { ElementType::FunctionFeature } else if n == 10311209710303 { ElementType::Gap } else if n == 10110009710404 { ElementType::Head } else if n == 9710110110411 { ElementType::HeadFeature } else if n == 10410010010402 { ElementType::Headspan } else if n == 10511910010407 { ElementType::Hiddenword } else if n == 4511410411605 { ElementType::Hyphbreak } else if n == 9710809810805 { ElementType::Label } else if n == 9710311010804 { ElementType::LangAnnotation } else if n == 10109710910805 { ElementType::LemmaAnnotation } else if n == 10110811810805 { ElementType::LevelFeature } else if n == 9811411409802 { ElementType::Linebreak } else if n == 11410210112004 { ElementType::LinkReference } else if n == 10511611510804 { ElementType::List } else if n == 11610910110504 { ElementType::ListItem } else if n == 10109911410906 { ElementType::Metric } else if n == 10011510510910 { ElementType::ModalitiesLayer } else if n == 10012110810908 { ElementType::Modality } else if n == 10910011110903 { ElementType::ModalityFeature } else if n == 11410110410908 { ElementType::Morpheme } else if n == 11412111110910 { ElementType::MorphologyLayer } else if n == 11011910111003 { ElementType::New } else if n == 11110111611004 { ElementType::Note } else if n == 11511011811111 { ElementType::Observation } else if n == 10111509711112 { ElementType::ObservationLayer } else if n == 10510810511108 { ElementType::Original } else if n == 11211211211201 { ElementType::Paragraph } else if n == 9711611411204 { ElementType::Part } else if n == 11210410411202 { ElementType::PhonContent } else if n == 10410111011207 { ElementType::Phoneme } else if n == 11112111111209 { ElementType::PhonologyLayer } else if n == 10812111411208 { ElementType::PolarityFeature } else if n == 11211511111203 { ElementType::PosAnnotation } else if n == 10110110511209 { ElementType::Predicate } else if n == 11710111111305 { ElementType::Quote } else if n == 11410210111403 { ElementType::Reference } else if n == 10811011611408 { ElementType::Relation } else if n == 11411911111403 { ElementType::Row } else if n == 9910111111505 { ElementType::Scope } else if n == 10110111411507 { ElementType::SemanticRole } else if n == 10911511111508 { ElementType::SemanticRolesLayer } else if n == 10110111011505 { ElementType::SenseAnnotation } else if n == 11511511511501 { ElementType::Sentence } else if n == 11011610511509 { ElementType::Sentiment } else if n == 11011510911510 { ElementType::SentimentLayer } else if n == 10510112211504 { ElementType::SizeFeature } else if n == 11110111411506 { ElementType::Source } else if n == 11011010811512 { ElementType::SpanRelation } else if n == 11011510811513 { ElementType::SpanRelationLayer } else if n == 11210410111506 { ElementType::Speech } else if n == 9711610111509 { ElementType::Statement } else if n == 9711510911510 { ElementType::StatementLayer } else if n == 11410810111403 { ElementType::StatementRelation } else if n == 11410411011508 { ElementType::StrengthFeature } else if n == 11511411611503 { ElementType::String } else if n == 11610112111505 { ElementType::StyleFeature } else if n == 10612111611512 { ElementType::SubjectivityAnnotation } else if n == 10311011511510 { ElementType::Suggestion } else if n == 12111611511506 { ElementType::SynsetFeature } else if n == 11511711711502 { ElementType::SyntacticUnit } else if n == 12112011611506 { ElementType::SyntaxLayer } else if n == 9710109811605 { ElementType::Table } else if n == 9810010111609 { ElementType::TableHead } else if n == 9711610311606 { ElementType::Target } else if n == 10110911411604 { ElementType::Term } else if n == 10111612011604 { ElementType::Text } else if n == 11611611611601 { ElementType::TextContent } else if n == 11111010111612 { ElementType::TextMarkupCorrection } else if n == 4511411411607 { ElementType::TextMarkupError } else if n == 4511210311605 { ElementType::TextMarkupGap } else if n == 10410111211608 { ElementType::TextMarkupHSpace } else if n == 4510309711606 { ElementType::TextMarkupLanguage } else if n == 4510211411605 { ElementType::TextMarkupReference } else if n == 4511411511605 { ElementType::TextMarkupString } else if n == 4510111611607 { ElementType::TextMarkupStyle } else if n == 10410110111612 { ElementType::TextMarkupWhitespace } else if n == 10510110911604 { ElementType::TimeFeature } else if n == 10911610111611 { ElementType::TimeSegment } else if n == 10510310511606 { ElementType::TimingLayer } else if n == 11711611611703 { ElementType::Utterance } else if n == 9710110811805 { ElementType::ValueFeature } else if n == 10510111511910 { ElementType::Whitespace } else if n == 11911911911901 { ElementType::Word } else if n == 11410210111904 { ElementType::WordReference } else  { arbitrary() } }
pub open spec fn s_el_is_name(s: Seq<char>) -> bool { s == "actor"@ || s == "alt"@ || s == "altlayers"@ || s == "begindatetime"@ || s == "caption"@ || s == "cell"@ || s == "chunk"@ || s == "chunking"@ || s == "comment"@ || s == "content"@ || s == "coreferencechain"@ || s == "coreferences"@ || s == "coreferencelink"@ || s == "correction"@ || s == "cue"@ || s == "current"@ || s == "def"@ || s == "dependencies"@ || s == "dependency"@ || s == "dep"@ || s == "desc"@ || s == "div"@ || s == "domain"@ || s == "enddatetime"@ || s == "entities"@ || s == "entity"@ || s == "entry"@ || s == "errordetection"@ || s == "event"@ || s == "ex"@ || s == "external"@ || s == "feat"@ || s == "figure"@ || s == "font"@ || s == "foreign-data"@ || s == "function"@ || s == "gap"@ || s == "head"@ || s == "headfeature"@ || s == "hd"@ || s == "hiddenw"@ || s == "t-hbr"@ || s == "label"@ || s == "lang"@ || s == "lemma"@ || s == "level"@ || s == "br"@ || s == "xref"@ || s == "list"@ || s == "item"@ || s == "metric"@ || s == "modalities"@ || s == "modality"@ || s == "mod"@ || s == "morpheme"@ || s == "morphology"@ || s == "new"@ || s == "note"@ || s == "observation"@ || s == "observations"@ || s == "original"@ || s == "p"@ || s == "part"@ || s == "ph"@ || s == "phoneme"@ || s == "phonology"@ || s == "polarity"@ || s == "pos"@ || s == "predicate"@ || s == "quote"@ || s == "ref"@ || s == "relation"@ || s == "row"@ || s == "scope"@ || s == "semrole"@ || s == "semroles"@ || s == "sense"@ || s == "s"@ || s == "sentiment"@ || s == "sentiments"@ || s == "size"@ || s == "source"@ || s == "spanrelation"@ || s == "spanrelations"@ || s == "speech"@ || s == "statement"@ || s == "statements"@ || s == "rel"@ || s == "strength"@ || s == "str"@ || s == "style"@ || s == "subjectivity"@ || s == "suggestion"@ || s == "synset"@ || s == "su"@ || s == "syntax"@ || s == "table"@ || s == "tablehead"@ || s == "target"@ || s == "term"@ || s == "text"@ || s == "t"@ || s == "t-correction"@ || s == "t-error"@ || s == "t-gap"@ || s == "t-hspace"@ || s == "t-lang"@ || s == "t-ref"@ || s == "t-str"@ || s == "t-style"@ || s == "t-whitespace"@ || s == "time"@ || s == "timesegment"@ || s == "timing"@ || s == "utt"@ || s == "value"@ || s == "whitespace"@ || s == "w"@ || s == "wref"@ }
//# if prove
proof fn lemma_s_el_is_name(t: ElementType) ensures s_el_is_name(s_el_name(t)) { match t { ElementType::ActorFeature => {}, ElementType::Alternative => {}, ElementType::AlternativeLayers => {}, ElementType::BegindatetimeFeature => {}, ElementType::Caption => {}, ElementType::Cell => {}, ElementType::Chunk => {}, ElementType::ChunkingLayer => {}, ElementType::Comment => {}, ElementType::Content => {}, ElementType::CoreferenceChain => {}, ElementType::CoreferenceLayer => {}, ElementType::CoreferenceLink => {}, ElementType::Correction => {}, ElementType::Cue => {}, ElementType::Current => {}, ElementType::Definition => {}, ElementType::DependenciesLayer => {}, ElementType::Dependency => {}, ElementType::DependencyDependent => {}, ElementType::Description => {}, ElementType::Division => {}, ElementType::DomainAnnotation => {}, ElementType::EnddatetimeFeature => {}, ElementType::EntitiesLayer => {}, ElementType::Entity => {}, ElementType::Entry => {}, ElementType::ErrorDetection => {}, ElementType::Event => {}, ElementType::Example => {}, ElementType::External => {}, ElementType::Feature => {}, ElementType::Figure => {}, ElementType::FontFeature => {}, ElementType::ForeignData => {}, ElementType::FunctionFeature => {}, ElementType::Gap => {}, ElementType::Head => {}, ElementType::HeadFeature => {}, ElementType::Headspan => {}, ElementType::Hiddenword => {}, ElementType::Hyphbreak => {}, ElementType::Label => {}, ElementType::LangAnnotation => {}, ElementType::LemmaAnnotation => {}, ElementType::LevelFeature => {}, ElementType::Linebreak => {}, ElementType::LinkReference => {}, ElementType::List => {}, ElementType::ListItem => {}, ElementType::Metric => {}, ElementType::ModalitiesLayer => {}, ElementType::Modality => {}, ElementType::ModalityFeature => {}, ElementType::Morpheme => {}, ElementType::MorphologyLayer => {}, ElementType::New => {}, ElementType::Note => {}, ElementType::Observation => {}, ElementType::ObservationLayer => {}, ElementType::Original => {}, ElementType::Paragraph => {}, ElementType::Part => {}, ElementType::PhonContent => {}, ElementType::Phoneme => {}, ElementType::PhonologyLayer => {}, ElementType::PolarityFeature => {}, ElementType::PosAnnotation => {}, ElementType::Predicate => {}, ElementType::Quote => {}, ElementType::Reference => {}, ElementType::Relation => {}, ElementType::Row => {}, ElementType::Scope => {}, ElementType::SemanticRole => {}, ElementType::SemanticRolesLayer => {}, ElementType::SenseAnnotation => {}, ElementType::Sentence => {}, ElementType::Sentiment => {}, ElementType::SentimentLayer => {}, ElementType::SizeFeature => {}, ElementType::Source => {}, ElementType::SpanRelation => {}, ElementType::SpanRelationLayer => {}, ElementType::Speech => {}, ElementType::Statement => {}, ElementType::StatementLayer => {}, ElementType::StatementRelation => {}, ElementType::StrengthFeature => {}, ElementType::String => {}, ElementType::StyleFeature => {}, ElementType::SubjectivityAnnotation => {}, ElementType::Suggestion => {}, ElementType::SynsetFeature => {}, ElementType::SyntacticUnit => {}, ElementType::SyntaxLayer => {}, ElementType::Table => {}, ElementType::TableHead => {}, ElementType::Target => {}, ElementType::Term => {}, ElementType::Text => {}, ElementType::TextContent => {}, ElementType::TextMarkupCorrection => {}, ElementType::TextMarkupError => {}, ElementType::TextMarkupGap => {}, ElementType::TextMarkupHSpace => {}, ElementType::TextMarkupLanguage => {}, ElementType::TextMarkupReference => {}, ElementType::TextMarkupString => {}, ElementType::TextMarkupStyle => {}, ElementType::TextMarkupWhitespace => {}, ElementType::TimeFeature => {}, ElementType::TimeSegment => {}, ElementType::TimingLayer => {}, ElementType::Utterance => {}, ElementType::ValueFeature => {}, ElementType::Whitespace => {}, ElementType::Word => {}, ElementType::WordReference => {} } }
proof fn lemma_s_el_num(t: ElementType) ensures s_el_unnum(s_el_num(t)) == t { match t { ElementType::ActorFeature => {}, ElementType::Alternative => {}, ElementType::AlternativeLayers => {}, ElementType::BegindatetimeFeature => {}, ElementType::Caption => {}, ElementType::Cell => {}, ElementType::Chunk => {}, ElementType::ChunkingLayer => {}, ElementType::Comment => {}, ElementType::Content => {}, ElementType::CoreferenceChain => {}, ElementType::CoreferenceLayer => {}, ElementType::CoreferenceLink => {}, ElementType::Correction => {}, ElementType::Cue => {}, ElementType::Current => {}, ElementType::Definition => {}, ElementType::DependenciesLayer => {}, ElementType::Dependency => {}, ElementType::DependencyDependent => {}, ElementType::Description => {}, ElementType::Division => {}, ElementType::DomainAnnotation => {}, ElementType::EnddatetimeFeature => {}, ElementType::EntitiesLayer => {}, ElementType::Entity => {}, ElementType::Entry => {}, ElementType::ErrorDetection => {}, ElementType::Event => {}, ElementType::Example => {}, ElementType::External => {}, ElementType::Feature => {}, ElementType::Figure => {}, ElementType::FontFeature => {}, ElementType::ForeignData => {}, ElementType::FunctionFeature => {}, ElementType::Gap => {}, ElementType::Head => {}, ElementType::HeadFeature => {}, ElementType::Headspan => {}, ElementType::Hiddenword => {}, ElementType::Hyphbreak => {}, ElementType::Label => {}, ElementType::LangAnnotation => {}, ElementType::LemmaAnnotation => {}, ElementType::LevelFeature => {}, ElementType::Linebreak => {}, ElementType::LinkReference => {}, ElementType::List => {}, ElementType::ListItem => {}, ElementType::Metric => {}, ElementType::ModalitiesLayer => {}, ElementType::Modality => {}, ElementType::ModalityFeature => {}, ElementType::Morpheme => {}, ElementType::MorphologyLayer => {}, ElementType::New => {}, ElementType::Note => {}, ElementType::Observation => {}, ElementType::ObservationLayer => {}, ElementType::Original => {}, ElementType::Paragraph => {}, ElementType::Part => {}, ElementType::PhonContent => {}, ElementType::Phoneme => {}, ElementType::PhonologyLayer => {}, ElementType::PolarityFeature => {}, ElementType::PosAnnotation => {}, ElementType::Predicate => {}, ElementType::Quote => {}, ElementType::Reference => {}, ElementType::Relation => {}, ElementType::Row => {}, ElementType::Scope => {}, ElementType::SemanticRole => {}, ElementType::SemanticRolesLayer => {}, ElementType::SenseAnnotation => {}, ElementType::Sentence => {}, ElementType::Sentiment => {}, ElementType::SentimentLayer => {}, ElementType::SizeFeature => {}, ElementType::Source => {}, ElementType::SpanRelation => {}, ElementType::SpanRelationLayer => {}, ElementType::Speech => {}, ElementType::Statement => {}, ElementType::StatementLayer => {}, ElementType::StatementRelation => {}, ElementType::StrengthFeature => {}, ElementType::String => {}, ElementType::StyleFeature => {}, ElementType::SubjectivityAnnotation => {}, ElementType::Suggestion => {}, ElementType::SynsetFeature => {}, ElementType::SyntacticUnit => {}, ElementType::SyntaxLayer => {}, ElementType::Table => {}, ElementType::TableHead => {}, ElementType::Target => {}, ElementType::Term => {}, ElementType::Text => {}, ElementType::TextContent => {}, ElementType::TextMarkupCorrection => {}, ElementType::TextMarkupError => {}, ElementType::TextMarkupGap => {}, ElementType::TextMarkupHSpace => {}, ElementType::TextMarkupLanguage => {}, ElementType::TextMarkupReference => {}, ElementType::TextMarkupString => {}, ElementType::TextMarkupStyle => {}, ElementType::TextMarkupWhitespace => {}, ElementType::TimeFeature => {}, ElementType::TimeSegment => {}, ElementType::TimingLayer => {}, ElementType::Utterance => {}, ElementType::ValueFeature => {}, ElementType::Whitespace => {}, ElementType::Word => {}, ElementType::WordReference => {} } }
proof fn lemma_s_el_code(t: ElementType) ensures s_el_code(s_el_name(t)) == s_el_num(t), forall|i: int| 0 <= i < s_el_name(t).len() ==> #[trigger] s_el_name(t)[i] != '/' { match t {
    ElementType::ActorFeature => { let s = "actor"@; reveal_strlit("actor"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'a' && s[1] == 'c' && s[2] == 't' && s[4] == 'r'); }
    ElementType::Alternative => { let s = "alt"@; reveal_strlit("alt"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'a' && s[0] == 'a' && s[1] == 'l' && s[2] == 't'); }
    ElementType::AlternativeLayers => { let s = "altlayers"@; reveal_strlit("altlayers"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'a' && s[2] == 't' && s[4] == 'a' && s[8] == 's'); }
    ElementType::BegindatetimeFeature => { let s = "begindatetime"@; reveal_strlit("begindatetime"); assert(s.len() == 13 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 'b' && s[3] == 'i' && s[6] == 'a' && s[12] == 'e'); }
    ElementType::Caption => { let s = "caption"@; reveal_strlit("caption"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'c' && s[1] == 'a' && s[3] == 't' && s[6] == 'n'); }
    ElementType::Cell => { let s = "cell"@; reveal_strlit("cell"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'c' && s[1] == 'e' && s[2] == 'l' && s[3] == 'l'); }
    ElementType::Chunk => { let s = "chunk"@; reveal_strlit("chunk"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'c' && s[1] == 'h' && s[2] == 'u' && s[4] == 'k'); }
    ElementType::ChunkingLayer => { let s = "chunking"@; reveal_strlit("chunking"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'c' && s[2] == 'u' && s[4] == 'k' && s[7] == 'g'); }
    ElementType::Comment => { let s = "comment"@; reveal_strlit("comment"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'c' && s[1] == 'o' && s[3] == 'm' && s[6] == 't'); }
    ElementType::Content => { let s = "content"@; reveal_strlit("content"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'c' && s[1] == 'o' && s[3] == 't' && s[6] == 't'); }
    ElementType::CoreferenceChain => { let s = "coreferencechain"@; reveal_strlit("coreferencechain"); assert(s.len() == 16 && s.len() as int / 2 == 8 && s.len() as int / 4 == 4 && s[0] == 'c' && s[4] == 'f' && s[8] == 'n' && s[15] == 'n'); }
    ElementType::CoreferenceLayer => { let s = "coreferences"@; reveal_strlit("coreferences"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 'c' && s[3] == 'e' && s[6] == 'r' && s[11] == 's'); }
    ElementType::CoreferenceLink => { let s = "coreferencelink"@; reveal_strlit("coreferencelink"); assert(s.len() == 15 && s.len() as int / 2 == 7 && s.len() as int / 4 == 3 && s[0] == 'c' && s[3] == 'e' && s[7] == 'e' && s[14] == 'k'); }
    ElementType::Correction => { let s = "correction"@; reveal_strlit("correction"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'c' && s[2] == 'r' && s[5] == 'c' && s[9] == 'n'); }
    ElementType::Cue => { let s = "cue"@; reveal_strlit("cue"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'c' && s[0] == 'c' && s[1] == 'u' && s[2] == 'e'); }
    ElementType::Current => { let s = "current"@; reveal_strlit("current"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'c' && s[1] == 'u' && s[3] == 'r' && s[6] == 't'); }
    ElementType::Definition => { let s = "def"@; reveal_strlit("def"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'd' && s[0] == 'd' && s[1] == 'e' && s[2] == 'f'); }
    ElementType::DependenciesLayer => { let s = "dependencies"@; reveal_strlit("dependencies"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 'd' && s[3] == 'e' && s[6] == 'e' && s[11] == 's'); }
    ElementType::Dependency => { let s = "dependency"@; reveal_strlit("dependency"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'd' && s[2] == 'p' && s[5] == 'd' && s[9] == 'y'); }
    ElementType::DependencyDependent => { let s = "dep"@; reveal_strlit("dep"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'd' && s[0] == 'd' && s[1] == 'e' && s[2] == 'p'); }
    ElementType::Description => { let s = "desc"@; reveal_strlit("desc"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'd' && s[1] == 'e' && s[2] == 's' && s[3] == 'c'); }
    ElementType::Division => { let s = "div"@; reveal_strlit("div"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'd' && s[0] == 'd' && s[1] == 'i' && s[2] == 'v'); }
    ElementType::DomainAnnotation => { let s = "domain"@; reveal_strlit("domain"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'd' && s[1] == 'o' && s[3] == 'a' && s[5] == 'n'); }
    ElementType::EnddatetimeFeature => { let s = "enddatetime"@; reveal_strlit("enddatetime"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'e' && s[2] == 'd' && s[5] == 't' && s[10] == 'e'); }
    ElementType::EntitiesLayer => { let s = "entities"@; reveal_strlit("entities"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'e' && s[2] == 't' && s[4] == 't' && s[7] == 's'); }
    ElementType::Entity => { let s = "entity"@; reveal_strlit("entity"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'e' && s[1] == 'n' && s[3] == 'i' && s[5] == 'y'); }
    ElementType::Entry => { let s = "entry"@; reveal_strlit("entry"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'e' && s[1] == 'n' && s[2] == 't' && s[4] == 'y'); }
    ElementType::ErrorDetection => { let s = "errordetection"@; reveal_strlit("errordetection"); assert(s.len() == 14 && s.len() as int / 2 == 7 && s.len() as int / 4 == 3 && s[0] == 'e' && s[3] == 'o' && s[7] == 't' && s[13] == 'n'); }
    ElementType::Event => { let s = "event"@; reveal_strlit("event"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'e' && s[1] == 'v' && s[2] == 'e' && s[4] == 't'); }
    ElementType::Example => { let s = "ex"@; reveal_strlit("ex"); assert(s.len() == 2 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'e' && s[0] == 'e' && s[1] == 'x' && s[1] == 'x'); }
    ElementType::External => { let s = "external"@; reveal_strlit("external"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'e' && s[2] == 't' && s[4] == 'r' && s[7] == 'l'); }
    ElementType::Feature => { let s = "feat"@; reveal_strlit("feat"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'f' && s[1] == 'e' && s[2] == 'a' && s[3] == 't'); }
    ElementType::Figure => { let s = "figure"@; reveal_strlit("figure"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'f' && s[1] == 'i' && s[3] == 'u' && s[5] == 'e'); }
    ElementType::FontFeature => { let s = "font"@; reveal_strlit("font"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'f' && s[1] == 'o' && s[2] == 'n' && s[3] == 't'); }
    ElementType::ForeignData => { let s = "foreign-data"@; reveal_strlit("foreign-data"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 'f' && s[3] == 'e' && s[6] == 'n' && s[11] == 'a'); }
    ElementType::FunctionFeature => { let s = "function"@; reveal_strlit("function"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'f' && s[2] == 'n' && s[4] == 't' && s[7] == 'n'); }
    ElementType::Gap => { let s = "gap"@; reveal_strlit("gap"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'g' && s[0] == 'g' && s[1] == 'a' && s[2] == 'p'); }
    ElementType::Head => { let s = "head"@; reveal_strlit("head"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'h' && s[1] == 'e' && s[2] == 'a' && s[3] == 'd'); }
    ElementType::HeadFeature => { let s = "headfeature"@; reveal_strlit("headfeature"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'h' && s[2] == 'a' && s[5] == 'e' && s[10] == 'e'); }
    ElementType::Headspan => { let s = "hd"@; reveal_strlit("hd"); assert(s.len() == 2 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'h' && s[0] == 'h' && s[1] == 'd' && s[1] == 'd'); }
    ElementType::Hiddenword => { let s = "hiddenw"@; reveal_strlit("hiddenw"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'h' && s[1] == 'i' && s[3] == 'd' && s[6] == 'w'); }
    ElementType::Hyphbreak => { let s = "t-hbr"@; reveal_strlit("t-hbr"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == '-' && s[2] == 'h' && s[4] == 'r'); }
    ElementType::Label => { let s = "label"@; reveal_strlit("label"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'a' && s[2] == 'b' && s[4] == 'l'); }
    ElementType::LangAnnotation => { let s = "lang"@; reveal_strlit("lang"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'a' && s[2] == 'n' && s[3] == 'g'); }
    ElementType::LemmaAnnotation => { let s = "lemma"@; reveal_strlit("lemma"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'e' && s[2] == 'm' && s[4] == 'a'); }
    ElementType::LevelFeature => { let s = "level"@; reveal_strlit("level"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'e' && s[2] == 'v' && s[4] == 'l'); }
    ElementType::Linebreak => { let s = "br"@; reveal_strlit("br"); assert(s.len() == 2 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'b' && s[0] == 'b' && s[1] == 'r' && s[1] == 'r'); }
    ElementType::LinkReference => { let s = "xref"@; reveal_strlit("xref"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'x' && s[1] == 'r' && s[2] == 'e' && s[3] == 'f'); }
    ElementType::List => { let s = "list"@; reveal_strlit("list"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'l' && s[1] == 'i' && s[2] == 's' && s[3] == 't'); }
    ElementType::ListItem => { let s = "item"@; reveal_strlit("item"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'i' && s[1] == 't' && s[2] == 'e' && s[3] == 'm'); }
    ElementType::Metric => { let s = "metric"@; reveal_strlit("metric"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'm' && s[1] == 'e' && s[3] == 'r' && s[5] == 'c'); }
    ElementType::ModalitiesLayer => { let s = "modalities"@; reveal_strlit("modalities"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'm' && s[2] == 'd' && s[5] == 'i' && s[9] == 's'); }
    ElementType::Modality => { let s = "modality"@; reveal_strlit("modality"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'm' && s[2] == 'd' && s[4] == 'l' && s[7] == 'y'); }
    ElementType::ModalityFeature => { let s = "mod"@; reveal_strlit("mod"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'm' && s[0] == 'm' && s[1] == 'o' && s[2] == 'd'); }
    ElementType::Morpheme => { let s = "morpheme"@; reveal_strlit("morpheme"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'm' && s[2] == 'r' && s[4] == 'h' && s[7] == 'e'); }
    ElementType::MorphologyLayer => { let s = "morphology"@; reveal_strlit("morphology"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'm' && s[2] == 'r' && s[5] == 'o' && s[9] == 'y'); }
    ElementType::New => { let s = "new"@; reveal_strlit("new"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'n' && s[0] == 'n' && s[1] == 'e' && s[2] == 'w'); }
    ElementType::Note => { let s = "note"@; reveal_strlit("note"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'n' && s[1] == 'o' && s[2] == 't' && s[3] == 'e'); }
    ElementType::Observation => { let s = "observation"@; reveal_strlit("observation"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'o' && s[2] == 's' && s[5] == 'v' && s[10] == 'n'); }
    ElementType::ObservationLayer => { let s = "observations"@; reveal_strlit("observations"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 'o' && s[3] == 'e' && s[6] == 'a' && s[11] == 's'); }
    ElementType::Original => { let s = "original"@; reveal_strlit("original"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'o' && s[2] == 'i' && s[4] == 'i' && s[7] == 'l'); }
    ElementType::Paragraph => { let s = "p"@; reveal_strlit("p"); assert(s.len() == 1 && s.len() as int / 2 == 0 && s.len() as int / 4 == 0 && s[0] == 'p' && s[0] == 'p' && s[0] == 'p' && s[0] == 'p'); }
    ElementType::Part => { let s = "part"@; reveal_strlit("part"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'p' && s[1] == 'a' && s[2] == 'r' && s[3] == 't'); }
    ElementType::PhonContent => { let s = "ph"@; reveal_strlit("ph"); assert(s.len() == 2 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'p' && s[0] == 'p' && s[1] == 'h' && s[1] == 'h'); }
    ElementType::Phoneme => { let s = "phoneme"@; reveal_strlit("phoneme"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 'p' && s[1] == 'h' && s[3] == 'n' && s[6] == 'e'); }
    ElementType::PhonologyLayer => { let s = "phonology"@; reveal_strlit("phonology"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'p' && s[2] == 'o' && s[4] == 'o' && s[8] == 'y'); }
    ElementType::PolarityFeature => { let s = "polarity"@; reveal_strlit("polarity"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'p' && s[2] == 'l' && s[4] == 'r' && s[7] == 'y'); }
    ElementType::PosAnnotation => { let s = "pos"@; reveal_strlit("pos"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'p' && s[0] == 'p' && s[1] == 'o' && s[2] == 's'); }
    ElementType::Predicate => { let s = "predicate"@; reveal_strlit("predicate"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'p' && s[2] == 'e' && s[4] == 'i' && s[8] == 'e'); }
    ElementType::Quote => { let s = "quote"@; reveal_strlit("quote"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'q' && s[1] == 'u' && s[2] == 'o' && s[4] == 'e'); }
    ElementType::Reference => { let s = "ref"@; reveal_strlit("ref"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'r' && s[0] == 'r' && s[1] == 'e' && s[2] == 'f'); }
    ElementType::Relation => { let s = "relation"@; reveal_strlit("relation"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 'r' && s[2] == 'l' && s[4] == 't' && s[7] == 'n'); }
    ElementType::Row => { let s = "row"@; reveal_strlit("row"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'r' && s[0] == 'r' && s[1] == 'o' && s[2] == 'w'); }
    ElementType::Scope => { let s = "scope"@; reveal_strlit("scope"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'c' && s[2] == 'o' && s[4] == 'e'); }
    ElementType::SemanticRole => { let s = "semrole"@; reveal_strlit("semrole"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'e' && s[3] == 'r' && s[6] == 'e'); }
    ElementType::SemanticRolesLayer => { let s = "semroles"@; reveal_strlit("semroles"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'm' && s[4] == 'o' && s[7] == 's'); }
    ElementType::SenseAnnotation => { let s = "sense"@; reveal_strlit("sense"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'e' && s[2] == 'n' && s[4] == 'e'); }
    ElementType::Sentence => { let s = "s"@; reveal_strlit("s"); assert(s.len() == 1 && s.len() as int / 2 == 0 && s.len() as int / 4 == 0 && s[0] == 's' && s[0] == 's' && s[0] == 's' && s[0] == 's'); }
    ElementType::Sentiment => { let s = "sentiment"@; reveal_strlit("sentiment"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'n' && s[4] == 'i' && s[8] == 't'); }
    ElementType::SentimentLayer => { let s = "sentiments"@; reveal_strlit("sentiments"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'n' && s[5] == 'm' && s[9] == 's'); }
    ElementType::SizeFeature => { let s = "size"@; reveal_strlit("size"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'i' && s[2] == 'z' && s[3] == 'e'); }
    ElementType::Source => { let s = "source"@; reveal_strlit("source"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'o' && s[3] == 'r' && s[5] == 'e'); }
    ElementType::SpanRelation => { let s = "spanrelation"@; reveal_strlit("spanrelation"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 's' && s[3] == 'n' && s[6] == 'l' && s[11] == 'n'); }
    ElementType::SpanRelationLayer => { let s = "spanrelations"@; reveal_strlit("spanrelations"); assert(s.len() == 13 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 's' && s[3] == 'n' && s[6] == 'l' && s[12] == 's'); }
    ElementType::Speech => { let s = "speech"@; reveal_strlit("speech"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'p' && s[3] == 'e' && s[5] == 'h'); }
    ElementType::Statement => { let s = "statement"@; reveal_strlit("statement"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'a' && s[4] == 'e' && s[8] == 't'); }
    ElementType::StatementLayer => { let s = "statements"@; reveal_strlit("statements"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'a' && s[5] == 'm' && s[9] == 's'); }
    ElementType::StatementRelation => { let s = "rel"@; reveal_strlit("rel"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'r' && s[0] == 'r' && s[1] == 'e' && s[2] == 'l'); }
    ElementType::StrengthFeature => { let s = "strength"@; reveal_strlit("strength"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'r' && s[4] == 'n' && s[7] == 'h'); }
    ElementType::String => { let s = "str"@; reveal_strlit("str"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 's' && s[0] == 's' && s[1] == 't' && s[2] == 'r'); }
    ElementType::StyleFeature => { let s = "style"@; reveal_strlit("style"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 't' && s[2] == 'y' && s[4] == 'e'); }
    ElementType::SubjectivityAnnotation => { let s = "subjectivity"@; reveal_strlit("subjectivity"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 's' && s[3] == 'j' && s[6] == 't' && s[11] == 'y'); }
    ElementType::Suggestion => { let s = "suggestion"@; reveal_strlit("suggestion"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 's' && s[2] == 'g' && s[5] == 's' && s[9] == 'n'); }
    ElementType::SynsetFeature => { let s = "synset"@; reveal_strlit("synset"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'y' && s[3] == 's' && s[5] == 't'); }
    ElementType::SyntacticUnit => { let s = "su"@; reveal_strlit("su"); assert(s.len() == 2 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 's' && s[0] == 's' && s[1] == 'u' && s[1] == 'u'); }
    ElementType::SyntaxLayer => { let s = "syntax"@; reveal_strlit("syntax"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 's' && s[1] == 'y' && s[3] == 't' && s[5] == 'x'); }
    ElementType::Table => { let s = "table"@; reveal_strlit("table"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'a' && s[2] == 'b' && s[4] == 'e'); }
    ElementType::TableHead => { let s = "tablehead"@; reveal_strlit("tablehead"); assert(s.len() == 9 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 't' && s[2] == 'b' && s[4] == 'e' && s[8] == 'd'); }
    ElementType::Target => { let s = "target"@; reveal_strlit("target"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'a' && s[3] == 'g' && s[5] == 't'); }
    ElementType::Term => { let s = "term"@; reveal_strlit("term"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'e' && s[2] == 'r' && s[3] == 'm'); }
    ElementType::Text => { let s = "text"@; reveal_strlit("text"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'e' && s[2] == 'x' && s[3] == 't'); }
    ElementType::TextContent => { let s = "t"@; reveal_strlit("t"); assert(s.len() == 1 && s.len() as int / 2 == 0 && s.len() as int / 4 == 0 && s[0] == 't' && s[0] == 't' && s[0] == 't' && s[0] == 't'); }
    ElementType::TextMarkupCorrection => { let s = "t-correction"@; reveal_strlit("t-correction"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 't' && s[3] == 'o' && s[6] == 'e' && s[11] == 'n'); }
    ElementType::TextMarkupError => { let s = "t-error"@; reveal_strlit("t-error"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == '-' && s[3] == 'r' && s[6] == 'r'); }
    ElementType::TextMarkupGap => { let s = "t-gap"@; reveal_strlit("t-gap"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == '-' && s[2] == 'g' && s[4] == 'p'); }
    ElementType::TextMarkupHSpace => { let s = "t-hspace"@; reveal_strlit("t-hspace"); assert(s.len() == 8 && s.len() as int / 2 == 4 && s.len() as int / 4 == 2 && s[0] == 't' && s[2] == 'h' && s[4] == 'p' && s[7] == 'e'); }
    ElementType::TextMarkupLanguage => { let s = "t-lang"@; reveal_strlit("t-lang"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == '-' && s[3] == 'a' && s[5] == 'g'); }
    ElementType::TextMarkupReference => { let s = "t-ref"@; reveal_strlit("t-ref"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == '-' && s[2] == 'r' && s[4] == 'f'); }
    ElementType::TextMarkupString => { let s = "t-str"@; reveal_strlit("t-str"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == '-' && s[2] == 's' && s[4] == 'r'); }
    ElementType::TextMarkupStyle => { let s = "t-style"@; reveal_strlit("t-style"); assert(s.len() == 7 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == '-' && s[3] == 't' && s[6] == 'e'); }
    ElementType::TextMarkupWhitespace => { let s = "t-whitespace"@; reveal_strlit("t-whitespace"); assert(s.len() == 12 && s.len() as int / 2 == 6 && s.len() as int / 4 == 3 && s[0] == 't' && s[3] == 'h' && s[6] == 'e' && s[11] == 'e'); }
    ElementType::TimeFeature => { let s = "time"@; reveal_strlit("time"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'i' && s[2] == 'm' && s[3] == 'e'); }
    ElementType::TimeSegment => { let s = "timesegment"@; reveal_strlit("timesegment"); assert(s.len() == 11 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 't' && s[2] == 'm' && s[5] == 'e' && s[10] == 't'); }
    ElementType::TimingLayer => { let s = "timing"@; reveal_strlit("timing"); assert(s.len() == 6 && s.len() as int / 2 == 3 && s.len() as int / 4 == 1 && s[0] == 't' && s[1] == 'i' && s[3] == 'i' && s[5] == 'g'); }
    ElementType::Utterance => { let s = "utt"@; reveal_strlit("utt"); assert(s.len() == 3 && s.len() as int / 2 == 1 && s.len() as int / 4 == 0 && s[0] == 'u' && s[0] == 'u' && s[1] == 't' && s[2] == 't'); }
    ElementType::ValueFeature => { let s = "value"@; reveal_strlit("value"); assert(s.len() == 5 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'v' && s[1] == 'a' && s[2] == 'l' && s[4] == 'e'); }
    ElementType::Whitespace => { let s = "whitespace"@; reveal_strlit("whitespace"); assert(s.len() == 10 && s.len() as int / 2 == 5 && s.len() as int / 4 == 2 && s[0] == 'w' && s[2] == 'i' && s[5] == 's' && s[9] == 'e'); }
    ElementType::Word => { let s = "w"@; reveal_strlit("w"); assert(s.len() == 1 && s.len() as int / 2 == 0 && s.len() as int / 4 == 0 && s[0] == 'w' && s[0] == 'w' && s[0] == 'w' && s[0] == 'w'); }
    ElementType::WordReference => { let s = "wref"@; reveal_strlit("wref"); assert(s.len() == 4 && s.len() as int / 2 == 2 && s.len() as int / 4 == 1 && s[0] == 'w' && s[1] == 'r' && s[2] == 'e' && s[3] == 'f'); }
} }
pub proof fn lemma_s_el_names() ensures forall|a: ElementType, b: ElementType| #[trigger] s_el_name(a) == #[trigger] s_el_name(b) ==> a == b, forall|t: ElementType, i: int| 0 <= i < s_el_name(t).len() ==> #[trigger] s_el_name(t)[i] != '/', forall|t: ElementType| s_el_is_name(#[trigger] s_el_name(t))
{
    assert forall|t: ElementType, i: int| 0 <= i < s_el_name(t).len() implies #[trigger] s_el_name(t)[i] != '/' by { lemma_s_el_code(t); }
    assert forall|a: ElementType, b: ElementType| #[trigger] s_el_name(a) == #[trigger] s_el_name(b) implies a == b by { lemma_s_el_code(a); lemma_s_el_code(b); lemma_s_el_num(a); lemma_s_el_num(b); }
    assert forall|t: ElementType| s_el_is_name(#[trigger] s_el_name(t)) by { lemma_s_el_is_name(t); }
}
//# end-if
//# if assume
#[verifier::external_body] pub proof fn lemma_s_el_names() ensures forall|a: ElementType, b: ElementType| #[trigger] s_el_name(a) == #[trigger] s_el_name(b) ==> a == b, forall|t: ElementType, i: int| 0 <= i < s_el_name(t).len() ==> #[trigger] s_el_name(t)[i] != '/', forall|t: ElementType| s_el_is_name(#[trigger] s_el_name(t)) { unimplemented!() }
//# end-if
