"""Words the generated texts are made of, and a part-of-speech guess for them (names of scrappybara's tags)"""

NOUNS = """dog dogs cat cats house houses apple apples colour color colours colors woman women man men child children
mouse mice city cities company companies catalogue catalog catalogues centre analysis knife knives wolf wolves box
boxes price prices tomato tomatoes market stock oil bread sister teacher phone phones leukaemia leukemia defence
defense defences traveller traveler player players user users engine car cars coffee tea book books grandson subtitle
neighbour neighbor news people criterion criteria hero heroes baby babies gas gases bus buses customer service food
restaurant waiter hotel room rooms staff battery screen camera program programme data glorp grandchildren subgroups
grandmothers co-authors submenus outskirts companions thieves berries axes nuclei photos oestrogen encyclopaedia
licence licenses dialogue dialogs specialisation specialization hot dogs submen grandmen""".split()
VERBS = """eat eats ate eaten eating drink drinks drank drunk drinking have has had having see sees saw seen seeing
take takes took taken taking make makes made making give gives gave given giving stop stopped stopping stops organise
organised organize organizing realise realised analyse analyzed travel travelled traveled travelling cancel cancelled
study studies studied studying carry carried die died dying lie lied lying love loved loves loving hate hated hope
hoped plan planned planning undo undid undone redo redid rewrite rewrote rewritten mislead misled outrun outran buy
bought buying sell sold think thought find found call called play played playing use used write wrote written run ran
running go goes went gone panic panicked recommend recommended like liked need needed say said be is are was were been
being am do does did done doing get got underwent undergone understood misunderstood overcame overtook outdid retook
retold misheard unwound rewound co-wrote re-took co-founded discovered outgrown dismissed picnicking rolled rolling
baked freed dyed singeing parties counselled labelled modeling specialises colouring honoured reorganised""".split()
ADJS = """big bigger biggest small smaller smallest good better best bad worse worst happy happier happiest red
derpy new old broken stolen tired grey gray beautiful cheap cheaper expensive loved hated busy busier busiest late
later thin thinner thinnest funny nice nicer nicest great zumbly""".split()
ADVS = "not never very quickly often well n't really too always".split()
PREPS = "in on at with by from of for about near".split()
DETS = "the a an this that these some any every no my his".split()
PRONS = "i you he she it we they me him her us them myself itself themselves who which what everybody".split()
MATS = "will would can could should must may might".split()
CONJS = "and or but because if that while".split()
FRAGS = "up off out over to down".split()
THERE = ["there", "here"]
PROPNS = "John Mary Paris London Smith Google Apple Anna Peter Monday IBM Texas Kate".split()
NUMS = "1 2 34 1,000 3.5 2019 one two three seven".split()
SYMS = ["http://a.b.com/x", "www.site.org", "example.co.uk/a/b", "#OnSale", "@joe", ":)", ";-)", ":(", "%", "$"]

TAG = {}
for _words, _tag in ((NUMS, 'NUM'), (PRONS, 'PRON'), (THERE, 'THERE'), (FRAGS, 'FRAG'), (CONJS, 'CONJ'), (MATS, 'MAT'),
                     (DETS, 'DET'), (PREPS, 'PREP'), (ADVS, 'ADV'), (ADJS, 'ADJ'), (VERBS, 'VERB'), (NOUNS, 'NOUN')):
    for _w in _words:
        TAG[_w] = _tag
for _w in ("'s", "'m", "'re"):
    TAG[_w] = 'VERB'
TAG["'ll"] = TAG["'d"] = TAG["'ve"] = 'MAT'

ALL_WORDS = sorted(set(NOUNS + VERBS + ADJS + ADVS + PREPS + DETS + PRONS + MATS + CONJS + FRAGS + THERE))
