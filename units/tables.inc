// written by bin/mktables from oracle/src/spec.txt; independent of the tables in /repo
pub open spec fn s_at_name(x: AnnotationType) -> Seq<char> { match x {
    AnnotationType::TEXT => "text"@,
    AnnotationType::TOKEN => "token"@,
    AnnotationType::DIVISION => "division"@,
    AnnotationType::PARAGRAPH => "paragraph"@,
    AnnotationType::HEAD => "head"@,
    AnnotationType::LIST => "list"@,
    AnnotationType::FIGURE => "figure"@,
    AnnotationType::WHITESPACE => "whitespace"@,
    AnnotationType::LINEBREAK => "linebreak"@,
    AnnotationType::SENTENCE => "sentence"@,
    AnnotationType::POS => "pos"@,
    AnnotationType::LEMMA => "lemma"@,
    AnnotationType::DOMAIN => "domain"@,
    AnnotationType::SENSE => "sense"@,
    AnnotationType::SYNTAX => "syntax"@,
    AnnotationType::CHUNKING => "chunking"@,
    AnnotationType::ENTITY => "entity"@,
    AnnotationType::CORRECTION => "correction"@,
    AnnotationType::ERRORDETECTION => "errordetection"@,
    AnnotationType::PHON => "phon"@,
    AnnotationType::SUBJECTIVITY => "subjectivity"@,
    AnnotationType::MORPHOLOGICAL => "morphological"@,
    AnnotationType::EVENT => "event"@,
    AnnotationType::DEPENDENCY => "dependency"@,
    AnnotationType::TIMESEGMENT => "timesegment"@,
    AnnotationType::GAP => "gap"@,
    AnnotationType::QUOTE => "quote"@,
    AnnotationType::NOTE => "note"@,
    AnnotationType::REFERENCE => "reference"@,
    AnnotationType::RELATION => "relation"@,
    AnnotationType::SPANRELATION => "spanrelation"@,
    AnnotationType::COREFERENCE => "coreference"@,
    AnnotationType::SEMROLE => "semrole"@,
    AnnotationType::METRIC => "metric"@,
    AnnotationType::LANG => "lang"@,
    AnnotationType::STRING => "string"@,
    AnnotationType::TABLE => "table"@,
    AnnotationType::STYLE => "style"@,
    AnnotationType::PART => "part"@,
    AnnotationType::UTTERANCE => "utterance"@,
    AnnotationType::ENTRY => "entry"@,
    AnnotationType::TERM => "term"@,
    AnnotationType::DEFINITION => "definition"@,
    AnnotationType::EXAMPLE => "example"@,
    AnnotationType::PHONOLOGICAL => "phonological"@,
    AnnotationType::PREDICATE => "predicate"@,
    AnnotationType::OBSERVATION => "observation"@,
    AnnotationType::SENTIMENT => "sentiment"@,
    AnnotationType::STATEMENT => "statement"@,
    AnnotationType::ALTERNATIVE => "alternative"@,
    AnnotationType::RAWCONTENT => "rawcontent"@,
    AnnotationType::COMMENT => "comment"@,
    AnnotationType::DESCRIPTION => "description"@,
    AnnotationType::HYPHENATION => "hyphenation"@,
    AnnotationType::HIDDENTOKEN => "hiddentoken"@,
    AnnotationType::MODALITY => "modality"@,
    AnnotationType::EXTERNAL => "external"@,
    AnnotationType::HSPACE => "hspace"@,
} }
pub open spec fn s_at_element(x: AnnotationType) -> ElementType { match x {
    AnnotationType::TEXT => ElementType::TextContent,
    AnnotationType::TOKEN => ElementType::Word,
    AnnotationType::DIVISION => ElementType::Division,
    AnnotationType::PARAGRAPH => ElementType::Paragraph,
    AnnotationType::HEAD => ElementType::Head,
    AnnotationType::LIST => ElementType::List,
    AnnotationType::FIGURE => ElementType::Figure,
    AnnotationType::WHITESPACE => ElementType::Whitespace,
    AnnotationType::LINEBREAK => ElementType::Linebreak,
    AnnotationType::SENTENCE => ElementType::Sentence,
    AnnotationType::POS => ElementType::PosAnnotation,
    AnnotationType::LEMMA => ElementType::LemmaAnnotation,
    AnnotationType::DOMAIN => ElementType::DomainAnnotation,
    AnnotationType::SENSE => ElementType::SenseAnnotation,
    AnnotationType::SYNTAX => ElementType::SyntacticUnit,
    AnnotationType::CHUNKING => ElementType::Chunk,
    AnnotationType::ENTITY => ElementType::Entity,
    AnnotationType::CORRECTION => ElementType::Correction,
    AnnotationType::ERRORDETECTION => ElementType::ErrorDetection,
    AnnotationType::PHON => ElementType::PhonContent,
    AnnotationType::SUBJECTIVITY => ElementType::SubjectivityAnnotation,
    AnnotationType::MORPHOLOGICAL => ElementType::Morpheme,
    AnnotationType::EVENT => ElementType::Event,
    AnnotationType::DEPENDENCY => ElementType::Dependency,
    AnnotationType::TIMESEGMENT => ElementType::TimeSegment,
    AnnotationType::GAP => ElementType::Gap,
    AnnotationType::QUOTE => ElementType::Quote,
    AnnotationType::NOTE => ElementType::Note,
    AnnotationType::REFERENCE => ElementType::Reference,
    AnnotationType::RELATION => ElementType::Relation,
    AnnotationType::SPANRELATION => ElementType::SpanRelation,
    AnnotationType::COREFERENCE => ElementType::CoreferenceChain,
    AnnotationType::SEMROLE => ElementType::SemanticRole,
    AnnotationType::METRIC => ElementType::Metric,
    AnnotationType::LANG => ElementType::LangAnnotation,
    AnnotationType::STRING => ElementType::String,
    AnnotationType::TABLE => ElementType::Table,
    AnnotationType::STYLE => ElementType::TextMarkupStyle,
    AnnotationType::PART => ElementType::Part,
    AnnotationType::UTTERANCE => ElementType::Utterance,
    AnnotationType::ENTRY => ElementType::Entry,
    AnnotationType::TERM => ElementType::Term,
    AnnotationType::DEFINITION => ElementType::Definition,
    AnnotationType::EXAMPLE => ElementType::Example,
    AnnotationType::PHONOLOGICAL => ElementType::Phoneme,
    AnnotationType::PREDICATE => ElementType::Predicate,
    AnnotationType::OBSERVATION => ElementType::Observation,
    AnnotationType::SENTIMENT => ElementType::Sentiment,
    AnnotationType::STATEMENT => ElementType::Statement,
    AnnotationType::ALTERNATIVE => ElementType::Alternative,
    AnnotationType::RAWCONTENT => ElementType::Content,
    AnnotationType::COMMENT => ElementType::Comment,
    AnnotationType::DESCRIPTION => ElementType::Description,
    AnnotationType::HYPHENATION => ElementType::Hyphbreak,
    AnnotationType::HIDDENTOKEN => ElementType::Hiddenword,
    AnnotationType::MODALITY => ElementType::Modality,
    AnnotationType::EXTERNAL => ElementType::External,
    AnnotationType::HSPACE => ElementType::TextMarkupHSpace,
} }
pub open spec fn s_at_layer(x: AnnotationType) -> Option<ElementType> { match x {
    AnnotationType::SYNTAX => Some(ElementType::SyntaxLayer),
    AnnotationType::CHUNKING => Some(ElementType::ChunkingLayer),
    AnnotationType::ENTITY => Some(ElementType::EntitiesLayer),
    AnnotationType::MORPHOLOGICAL => Some(ElementType::MorphologyLayer),
    AnnotationType::DEPENDENCY => Some(ElementType::DependenciesLayer),
    AnnotationType::TIMESEGMENT => Some(ElementType::TimingLayer),
    AnnotationType::SPANRELATION => Some(ElementType::SpanRelationLayer),
    AnnotationType::COREFERENCE => Some(ElementType::CoreferenceLayer),
    AnnotationType::SEMROLE => Some(ElementType::SemanticRolesLayer),
    AnnotationType::PHONOLOGICAL => Some(ElementType::PhonologyLayer),
    AnnotationType::PREDICATE => Some(ElementType::SemanticRolesLayer),
    AnnotationType::OBSERVATION => Some(ElementType::ObservationLayer),
    AnnotationType::SENTIMENT => Some(ElementType::SentimentLayer),
    AnnotationType::STATEMENT => Some(ElementType::StatementLayer),
    AnnotationType::MODALITY => Some(ElementType::ModalitiesLayer),
    _ => None,
} }
pub open spec fn s_el_name(x: ElementType) -> Seq<char> { match x {
    ElementType::ActorFeature => "actor"@,
    ElementType::Alternative => "alt"@,
    ElementType::AlternativeLayers => "altlayers"@,
    ElementType::BegindatetimeFeature => "begindatetime"@,
    ElementType::Caption => "caption"@,
    ElementType::Cell => "cell"@,
    ElementType::Chunk => "chunk"@,
    ElementType::ChunkingLayer => "chunking"@,
    ElementType::Comment => "comment"@,
    ElementType::Content => "content"@,
    ElementType::CoreferenceChain => "coreferencechain"@,
    ElementType::CoreferenceLayer => "coreferences"@,
    ElementType::CoreferenceLink => "coreferencelink"@,
    ElementType::Correction => "correction"@,
    ElementType::Cue => "cue"@,
    ElementType::Current => "current"@,
    ElementType::Definition => "def"@,
    ElementType::DependenciesLayer => "dependencies"@,
    ElementType::Dependency => "dependency"@,
    ElementType::DependencyDependent => "dep"@,
    ElementType::Description => "desc"@,
    ElementType::Division => "div"@,
    ElementType::DomainAnnotation => "domain"@,
    ElementType::EnddatetimeFeature => "enddatetime"@,
    ElementType::EntitiesLayer => "entities"@,
    ElementType::Entity => "entity"@,
    ElementType::Entry => "entry"@,
    ElementType::ErrorDetection => "errordetection"@,
    ElementType::Event => "event"@,
    ElementType::Example => "ex"@,
    ElementType::External => "external"@,
    ElementType::Feature => "feat"@,
    ElementType::Figure => "figure"@,
    ElementType::FontFeature => "font"@,
    ElementType::ForeignData => "foreign-data"@,
    ElementType::FunctionFeature => "function"@,
    ElementType::Gap => "gap"@,
    ElementType::Head => "head"@,
    ElementType::HeadFeature => "headfeature"@,
    ElementType::Headspan => "hd"@,
    ElementType::Hiddenword => "hiddenw"@,
    ElementType::Hyphbreak => "t-hbr"@,
    ElementType::Label => "label"@,
    ElementType::LangAnnotation => "lang"@,
    ElementType::LemmaAnnotation => "lemma"@,
    ElementType::LevelFeature => "level"@,
    ElementType::Linebreak => "br"@,
    ElementType::LinkReference => "xref"@,
    ElementType::List => "list"@,
    ElementType::ListItem => "item"@,
    ElementType::Metric => "metric"@,
    ElementType::ModalitiesLayer => "modalities"@,
    ElementType::Modality => "modality"@,
    ElementType::ModalityFeature => "mod"@,
    ElementType::Morpheme => "morpheme"@,
    ElementType::MorphologyLayer => "morphology"@,
    ElementType::New => "new"@,
    ElementType::Note => "note"@,
    ElementType::Observation => "observation"@,
    ElementType::ObservationLayer => "observations"@,
    ElementType::Original => "original"@,
    ElementType::Paragraph => "p"@,
    ElementType::Part => "part"@,
    ElementType::PhonContent => "ph"@,
    ElementType::Phoneme => "phoneme"@,
    ElementType::PhonologyLayer => "phonology"@,
    ElementType::PolarityFeature => "polarity"@,
    ElementType::PosAnnotation => "pos"@,
    ElementType::Predicate => "predicate"@,
    ElementType::Quote => "quote"@,
    ElementType::Reference => "ref"@,
    ElementType::Relation => "relation"@,
    ElementType::Row => "row"@,
    ElementType::Scope => "scope"@,
    ElementType::SemanticRole => "semrole"@,
    ElementType::SemanticRolesLayer => "semroles"@,
    ElementType::SenseAnnotation => "sense"@,
    ElementType::Sentence => "s"@,
    ElementType::Sentiment => "sentiment"@,
    ElementType::SentimentLayer => "sentiments"@,
    ElementType::SizeFeature => "size"@,
    ElementType::Source => "source"@,
    ElementType::SpanRelation => "spanrelation"@,
    ElementType::SpanRelationLayer => "spanrelations"@,
    ElementType::Speech => "speech"@,
    ElementType::Statement => "statement"@,
    ElementType::StatementLayer => "statements"@,
    ElementType::StatementRelation => "rel"@,
    ElementType::StrengthFeature => "strength"@,
    ElementType::String => "str"@,
    ElementType::StyleFeature => "style"@,
    ElementType::SubjectivityAnnotation => "subjectivity"@,
    ElementType::Suggestion => "suggestion"@,
    ElementType::SynsetFeature => "synset"@,
    ElementType::SyntacticUnit => "su"@,
    ElementType::SyntaxLayer => "syntax"@,
    ElementType::Table => "table"@,
    ElementType::TableHead => "tablehead"@,
    ElementType::Target => "target"@,
    ElementType::Term => "term"@,
    ElementType::Text => "text"@,
    ElementType::TextContent => "t"@,
    ElementType::TextMarkupCorrection => "t-correction"@,
    ElementType::TextMarkupError => "t-error"@,
    ElementType::TextMarkupGap => "t-gap"@,
    ElementType::TextMarkupHSpace => "t-hspace"@,
    ElementType::TextMarkupLanguage => "t-lang"@,
    ElementType::TextMarkupReference => "t-ref"@,
    ElementType::TextMarkupString => "t-str"@,
    ElementType::TextMarkupStyle => "t-style"@,
    ElementType::TextMarkupWhitespace => "t-whitespace"@,
    ElementType::TimeFeature => "time"@,
    ElementType::TimeSegment => "timesegment"@,
    ElementType::TimingLayer => "timing"@,
    ElementType::Utterance => "utt"@,
    ElementType::ValueFeature => "value"@,
    ElementType::Whitespace => "whitespace"@,
    ElementType::Word => "w"@,
    ElementType::WordReference => "wref"@,
} }
pub open spec fn s_el_at(x: ElementType) -> Option<AnnotationType> { match x {
    ElementType::Alternative => Some(AnnotationType::ALTERNATIVE),
    ElementType::AlternativeLayers => Some(AnnotationType::ALTERNATIVE),
    ElementType::Chunk => Some(AnnotationType::CHUNKING),
    ElementType::ChunkingLayer => Some(AnnotationType::CHUNKING),
    ElementType::Comment => Some(AnnotationType::COMMENT),
    ElementType::Content => Some(AnnotationType::RAWCONTENT),
    ElementType::CoreferenceChain => Some(AnnotationType::COREFERENCE),
    ElementType::CoreferenceLayer => Some(AnnotationType::COREFERENCE),
    ElementType::CoreferenceLink => Some(AnnotationType::COREFERENCE),
    ElementType::Correction => Some(AnnotationType::CORRECTION),
    ElementType::Current => Some(AnnotationType::CORRECTION),
    ElementType::Definition => Some(AnnotationType::DEFINITION),
    ElementType::DependenciesLayer => Some(AnnotationType::DEPENDENCY),
    ElementType::Dependency => Some(AnnotationType::DEPENDENCY),
    ElementType::Description => Some(AnnotationType::DESCRIPTION),
    ElementType::Division => Some(AnnotationType::DIVISION),
    ElementType::DomainAnnotation => Some(AnnotationType::DOMAIN),
    ElementType::EntitiesLayer => Some(AnnotationType::ENTITY),
    ElementType::Entity => Some(AnnotationType::ENTITY),
    ElementType::Entry => Some(AnnotationType::ENTRY),
    ElementType::ErrorDetection => Some(AnnotationType::ERRORDETECTION),
    ElementType::Event => Some(AnnotationType::EVENT),
    ElementType::Example => Some(AnnotationType::EXAMPLE),
    ElementType::External => Some(AnnotationType::EXTERNAL),
    ElementType::Figure => Some(AnnotationType::FIGURE),
    ElementType::Gap => Some(AnnotationType::GAP),
    ElementType::Head => Some(AnnotationType::HEAD),
    ElementType::Hiddenword => Some(AnnotationType::HIDDENTOKEN),
    ElementType::Hyphbreak => Some(AnnotationType::HYPHENATION),
    ElementType::LangAnnotation => Some(AnnotationType::LANG),
    ElementType::LemmaAnnotation => Some(AnnotationType::LEMMA),
    ElementType::Linebreak => Some(AnnotationType::LINEBREAK),
    ElementType::List => Some(AnnotationType::LIST),
    ElementType::Metric => Some(AnnotationType::METRIC),
    ElementType::ModalitiesLayer => Some(AnnotationType::MODALITY),
    ElementType::Modality => Some(AnnotationType::MODALITY),
    ElementType::Morpheme => Some(AnnotationType::MORPHOLOGICAL),
    ElementType::MorphologyLayer => Some(AnnotationType::MORPHOLOGICAL),
    ElementType::New => Some(AnnotationType::CORRECTION),
    ElementType::Note => Some(AnnotationType::NOTE),
    ElementType::Observation => Some(AnnotationType::OBSERVATION),
    ElementType::ObservationLayer => Some(AnnotationType::OBSERVATION),
    ElementType::Original => Some(AnnotationType::CORRECTION),
    ElementType::Paragraph => Some(AnnotationType::PARAGRAPH),
    ElementType::Part => Some(AnnotationType::PART),
    ElementType::PhonContent => Some(AnnotationType::PHON),
    ElementType::Phoneme => Some(AnnotationType::PHONOLOGICAL),
    ElementType::PhonologyLayer => Some(AnnotationType::PHONOLOGICAL),
    ElementType::PosAnnotation => Some(AnnotationType::POS),
    ElementType::Predicate => Some(AnnotationType::PREDICATE),
    ElementType::Quote => Some(AnnotationType::QUOTE),
    ElementType::Reference => Some(AnnotationType::REFERENCE),
    ElementType::Relation => Some(AnnotationType::RELATION),
    ElementType::SemanticRole => Some(AnnotationType::SEMROLE),
    ElementType::SemanticRolesLayer => Some(AnnotationType::SEMROLE),
    ElementType::SenseAnnotation => Some(AnnotationType::SENSE),
    ElementType::Sentence => Some(AnnotationType::SENTENCE),
    ElementType::Sentiment => Some(AnnotationType::SENTIMENT),
    ElementType::SentimentLayer => Some(AnnotationType::SENTIMENT),
    ElementType::SpanRelation => Some(AnnotationType::SPANRELATION),
    ElementType::SpanRelationLayer => Some(AnnotationType::SPANRELATION),
    ElementType::Statement => Some(AnnotationType::STATEMENT),
    ElementType::StatementLayer => Some(AnnotationType::STATEMENT),
    ElementType::String => Some(AnnotationType::STRING),
    ElementType::SubjectivityAnnotation => Some(AnnotationType::SUBJECTIVITY),
    ElementType::Suggestion => Some(AnnotationType::CORRECTION),
    ElementType::SyntacticUnit => Some(AnnotationType::SYNTAX),
    ElementType::SyntaxLayer => Some(AnnotationType::SYNTAX),
    ElementType::Table => Some(AnnotationType::TABLE),
    ElementType::Term => Some(AnnotationType::TERM),
    ElementType::TextContent => Some(AnnotationType::TEXT),
    ElementType::TextMarkupCorrection => Some(AnnotationType::CORRECTION),
    ElementType::TextMarkupError => Some(AnnotationType::ERRORDETECTION),
    ElementType::TextMarkupGap => Some(AnnotationType::GAP),
    ElementType::TextMarkupHSpace => Some(AnnotationType::HSPACE),
    ElementType::TextMarkupLanguage => Some(AnnotationType::LANG),
    ElementType::TextMarkupReference => Some(AnnotationType::REFERENCE),
    ElementType::TextMarkupString => Some(AnnotationType::STRING),
    ElementType::TextMarkupStyle => Some(AnnotationType::STYLE),
    ElementType::TextMarkupWhitespace => Some(AnnotationType::WHITESPACE),
    ElementType::TimeSegment => Some(AnnotationType::TIMESEGMENT),
    ElementType::TimingLayer => Some(AnnotationType::TIMESEGMENT),
    ElementType::Utterance => Some(AnnotationType::UTTERANCE),
    ElementType::Whitespace => Some(AnnotationType::WHITESPACE),
    ElementType::Word => Some(AnnotationType::TOKEN),
    _ => None,
} }
pub open spec fn s_at_tag(x: AnnotationType) -> Seq<char> { match x {
    AnnotationType::TEXT => "t"@,
    AnnotationType::TOKEN => "w"@,
    AnnotationType::DIVISION => "div"@,
    AnnotationType::PARAGRAPH => "p"@,
    AnnotationType::HEAD => "head"@,
    AnnotationType::LIST => "list"@,
    AnnotationType::FIGURE => "figure"@,
    AnnotationType::WHITESPACE => "whitespace"@,
    AnnotationType::LINEBREAK => "br"@,
    AnnotationType::SENTENCE => "s"@,
    AnnotationType::POS => "pos"@,
    AnnotationType::LEMMA => "lemma"@,
    AnnotationType::DOMAIN => "domain"@,
    AnnotationType::SENSE => "sense"@,
    AnnotationType::SYNTAX => "su"@,
    AnnotationType::CHUNKING => "chunk"@,
    AnnotationType::ENTITY => "entity"@,
    AnnotationType::CORRECTION => "correction"@,
    AnnotationType::ERRORDETECTION => "errordetection"@,
    AnnotationType::PHON => "ph"@,
    AnnotationType::SUBJECTIVITY => "subjectivity"@,
    AnnotationType::MORPHOLOGICAL => "morpheme"@,
    AnnotationType::EVENT => "event"@,
    AnnotationType::DEPENDENCY => "dependency"@,
    AnnotationType::TIMESEGMENT => "timesegment"@,
    AnnotationType::GAP => "gap"@,
    AnnotationType::QUOTE => "quote"@,
    AnnotationType::NOTE => "note"@,
    AnnotationType::REFERENCE => "ref"@,
    AnnotationType::RELATION => "relation"@,
    AnnotationType::SPANRELATION => "spanrelation"@,
    AnnotationType::COREFERENCE => "coreferencechain"@,
    AnnotationType::SEMROLE => "semrole"@,
    AnnotationType::METRIC => "metric"@,
    AnnotationType::LANG => "lang"@,
    AnnotationType::STRING => "str"@,
    AnnotationType::TABLE => "table"@,
    AnnotationType::STYLE => "t-style"@,
    AnnotationType::PART => "part"@,
    AnnotationType::UTTERANCE => "utt"@,
    AnnotationType::ENTRY => "entry"@,
    AnnotationType::TERM => "term"@,
    AnnotationType::DEFINITION => "def"@,
    AnnotationType::EXAMPLE => "ex"@,
    AnnotationType::PHONOLOGICAL => "phoneme"@,
    AnnotationType::PREDICATE => "predicate"@,
    AnnotationType::OBSERVATION => "observation"@,
    AnnotationType::SENTIMENT => "sentiment"@,
    AnnotationType::STATEMENT => "statement"@,
    AnnotationType::ALTERNATIVE => "alt"@,
    AnnotationType::RAWCONTENT => "content"@,
    AnnotationType::COMMENT => "comment"@,
    AnnotationType::DESCRIPTION => "desc"@,
    AnnotationType::HYPHENATION => "t-hbr"@,
    AnnotationType::HIDDENTOKEN => "hiddenw"@,
    AnnotationType::MODALITY => "modality"@,
    AnnotationType::EXTERNAL => "external"@,
    AnnotationType::HSPACE => "t-hspace"@,
} }
pub open spec fn s_in_group(g: ElementGroup, x: ElementType) -> bool { match g {
    ElementGroup::Layer => x is ChunkingLayer || x is CoreferenceLayer || x is DependenciesLayer || x is EntitiesLayer || x is ModalitiesLayer || x is MorphologyLayer || x is ObservationLayer || x is PhonologyLayer || x is SemanticRolesLayer || x is SentimentLayer || x is SpanRelationLayer || x is StatementLayer || x is SyntaxLayer || x is TimingLayer,
    ElementGroup::Content => x is Content || x is PhonContent || x is TextContent,
    ElementGroup::CorrectionChild => x is Current || x is New || x is Original || x is Suggestion,
    ElementGroup::HigherOrder => x is Alternative || x is AlternativeLayers || x is Comment || x is Correction || x is Description || x is External || x is Feature || x is ForeignData || x is Gap || x is Metric || x is Relation || x is SpanRelation || x is String,
    ElementGroup::Inline => x is DomainAnnotation || x is ErrorDetection || x is LangAnnotation || x is LemmaAnnotation || x is PosAnnotation || x is SenseAnnotation || x is SubjectivityAnnotation,
    ElementGroup::Span => x is Chunk || x is CoreferenceChain || x is Dependency || x is Entity || x is Modality || x is Observation || x is Predicate || x is SemanticRole || x is Sentiment || x is Statement || x is SyntacticUnit || x is TimeSegment,
    ElementGroup::SpanRole => x is CoreferenceLink || x is Cue || x is DependencyDependent || x is Headspan || x is Scope || x is Source || x is StatementRelation || x is Target,
    ElementGroup::Structure => x is Caption || x is Cell || x is Definition || x is Division || x is Entry || x is Event || x is Example || x is Figure || x is Head || x is Hiddenword || x is Label || x is Linebreak || x is List || x is ListItem || x is Note || x is Paragraph || x is Part || x is Quote || x is Reference || x is Row || x is Sentence || x is Speech || x is Table || x is TableHead || x is Term || x is Text || x is Utterance || x is Whitespace || x is Word,
    ElementGroup::Subtoken => x is Morpheme || x is Phoneme,
    ElementGroup::TextMarkup => x is Hyphbreak || x is TextMarkupCorrection || x is TextMarkupError || x is TextMarkupGap || x is TextMarkupHSpace || x is TextMarkupLanguage || x is TextMarkupReference || x is TextMarkupString || x is TextMarkupStyle || x is TextMarkupWhitespace,
    ElementGroup::Feature => x is ActorFeature || x is BegindatetimeFeature || x is EnddatetimeFeature || x is FontFeature || x is FunctionFeature || x is HeadFeature || x is LevelFeature || x is ModalityFeature || x is PolarityFeature || x is SizeFeature || x is StrengthFeature || x is StyleFeature || x is SynsetFeature || x is TimeFeature || x is ValueFeature,
} }
