"""What is proved, what is bounded and what is assumed, per property.

level 'proof': every function the property depends on is under contract and
the property is a consequence of the contracts; 'other': part of it is proved
and the rest is left to the bounded stand-in, as said."""

SUBSET = 'the strings are str of Python 3 (no bytes, no surrogate handling)'
HASH = 'hash() does not collide on the pattern paths that split_by_pattern ' \
    'groups'
PAPER = 'the definitions of pv/lean restate the contracts (read side by ' \
    'side, not derived by a machine)'

NOTES = {
    'C01': {
        'level': 'proof',
        'proved': 'specify_rule and wildcard_rule give [rule], [rule]{n}, '
                  '[rule]+; the text of a piece matches that piece and no '
                  'other, piece_length is its number of characters (C06); '
                  'the parts of a view concatenate to the piece (C10).  '
                  'Every cluster class, with any bags and any '
                  'min_cluster_num: a bag gets its own literal, or the '
                  'length pattern of the bucket of its length, or the '
                  'concatenation of the patterns of the parts of its view, '
                  'or [rule]+, each with the rule of its own pieces, or is '
                  'handed to a later class unchanged; bags hold the nodes '
                  'that were put in, and giving a bag a pattern gives it to '
                  'those nodes; processors of every level; '
                  '_can_be_splited is False only when there is one pattern '
                  'per level; split_by_pattern and cluster keep pieces and '
                  'patterns of each path.',
        'bounded': 'nothing; the end-to-end statement is searched on '
                   'generated URL sets besides.',
        'argument': 'lemma_cluster (Lean), in words: '
                    'the pattern of a node matches its piece and '
                    'has its rules.  It holds for the literal (C06), is kept '
                    'by every set_pattern of the cluster classes (their '
                    'contracts; for the classes by views by induction on the '
                    'number of runs: the tree of the parts is clustered by '
                    'the same code, and regular expressions of consecutive '
                    'parts concatenate), and split/cluster only copy nodes.  '
                    'A tree that cluster yields has one pattern per level, '
                    'because _can_be_splited was False, so the pattern of '
                    'any path is that of all; the structure is that of the '
                    'digest (C03, C08).',
        'assumes': [HASH, PAPER],
    },
    'C02': {
        'level': 'proof',
        'proved': 'build_tree, add_child, children, meta, counts, dump_tree '
                  'of any tree; PatternMaker.load and Maker.load on any '
                  'makers: the maker of the digest, a new one if there was '
                  'none; build_from_parsed_pieces and '
                  'build_from_piece_pattern_nodes: one node per piece, '
                  'count and meta added at the leaf; split_by_pattern: every '
                  'path is copied once, with count and meta, to the tree of '
                  'its pattern path; cluster yields the root or, once each, '
                  'what clustering the split trees yields; make gives every '
                  'cluster of every maker once; combine adds the path of '
                  'each cluster with its count.',
        'bounded': 'nothing; the search runs besides.',
        'argument': 'lemma_loads and lemma_partition (Lean), in words: by '
                    'induction on the recursion of cluster, what it '
                    'yields partitions the paths of its root (split: each '
                    'path in exactly one tree; a yielded root is given '
                    'whole); the roots of the makers partition the loaded '
                    'paths by digest (C03).  Clustering only sets patterns '
                    'of nodes (bag contracts); counts are exact by C12.',
        'assumes': [HASH, 'md5 does not collide on the texts digested',
                    PAPER],
    },
    'C03': {
        'level': 'proof',
        'proved': 'fuzzy_rule of a piece and of a pattern is the sorted '
                  'concatenation of its distinct rules; a text of rules is '
                  'read in one way (prefix code), so equal texts mean equal '
                  'sets; pack writes structure and texts so that '
                  'analyze_url_pattern_string reads them back, for rule '
                  'texts too; fuzzy_digest of objects is the md5 of the '
                  'packed text of their rules; of a text, that of what '
                  'parse gives for it.',
        'bounded': 'nothing; the search runs besides.',
        'argument': 'lemma_digest and lemma_cluster (Lean), in words: pack '
                    'is injective on structures and rule texts, as it '
                    'has a left inverse (round_trip); rule texts are '
                    'injective on sets of rules (prefix code); md5 is '
                    'injective by assumption.  A made pattern has the rules '
                    'of its pieces at each position (C01) and the structure '
                    'of its maker.',
        'assumes': ['md5 has no collisions on the texts that are digested',
                    PAPER],
    },
    'C04': {
        'level': 'proof',
        'proved': 'load and match of PatternMatcher and Matcher on any '
                  'matchers: only the matcher of the digest is asked; '
                  'PatternMatchNode.match gives the leaves that the view '
                  'matchers give and, for inner nodes, those their children '
                  'give for the next piece; every view matcher gives '
                  'exactly the nodes kept under the text, the length or the '
                  'view of the piece; adding a node keeps it under the text, '
                  'number or rules of its pattern; the matcher that is found or '
                  'made has the view class asked for; is_literal, view_cls_from_pattern and the '
                  'units of a pattern.',
        'bounded': 'nothing; the search runs besides.',
        'argument': 'lemma_match (Lean) for one position, lemma_walk (Lean) '
                    'for the path: a leaf is only given when every '
                    'position of its path was given by a view matcher.  '
                    'Literal: equal text.  Length and wildcard: equal '
                    'digest, so equal rule sets, and for lengths an equal '
                    'number of characters (C06, C09).  By views: the parts '
                    'have the rules of the units in order (the key) and '
                    'each part is given by the same code for its unit; '
                    'parts concatenate to the piece (C10).  One result per '
                    'pattern: lemma_walk, as a path of patterns is one leaf '
                    '(C12), and each view class is asked once.',
        'assumes': ['md5 has no collisions on the texts that are digested',
                    PAPER],
    },
    'C05': {
        'level': 'proof',
        'proved': 'the matcher contracts of C04: what is kept under the '
                  'text, number or rules of the pattern is found for a '
                  'piece with that text, length or view; the pattern that a '
                  'bag gets (C01) and its digest (C03); the exact cuts of '
                  'the views, the groups of units a matcher by views keeps '
                  'a node under, and the view of a pattern; that the '
                  'view of a made pattern cuts its pieces as the matcher '
                  'groups its units (lemma_views).',
        'bounded': 'nothing; generated URL sets are made and matched back '
                   'and all the small pieces are cut and looked up besides.',
        'argument': 'lemma_views (Lean): whatever view a piece was cut by '
                    'and whatever its parts got, literal, length or '
                    'wildcard, the view of the pattern (view_of_pattern) '
                    'cuts the piece into the parts that the groups of its '
                    'units are made of, and each group is the literal of '
                    'its part or one unit with the rules of its part.  So '
                    'the key of the node is the view of the piece and the '
                    'matchers of the parts find the groups (contracts of '
                    'C04); the digest of the pattern is that of its URLs '
                    '(C03), so the matcher is the one asked.',
        'assumes': [HASH, 'md5 has no collisions on the texts digested',
                    PAPER],
    },
    'C06': {
        'level': 'proof',
        'proved': 'PieceParser.parse on a parser with any history and any '
                  'text: the runs, their rules and their canonical texts, or '
                  'InvalidCharException exactly for unsupported characters; '
                  'piece_length of any canonical text; that a canonical text '
                  'as a regular expression matches exactly its run is a '
                  'property of the token (evaluated for every rule with re).',
        'bounded': 'nothing; the search runs besides.',
        'assumes': [SUBSET],
    },
    'C07': {
        'level': 'proof',
        'proved': 'parse_query_string on any text: the items between the '
                  "'&', cut behind their first '=', the single item without "
                  "'=' as a value with an empty key, IrregularURLException "
                  'exactly when there is an empty item and the text is not '
                  'empty; hence the items concatenate to the text.',
        'bounded': 'nothing; the search runs besides.',
        'assumes': [SUBSET],
    },
    'C08': {
        'level': 'proof',
        'proved': 'parse_url, filter_useless and unpack on any URL: the '
                  'parts are those written; pack, parse_url_pattern_string '
                  'and analyze_url_pattern_string: analysing the packed text '
                  'of any canonical structure and texts gives them back.',
        'bounded': 'nothing; the search runs besides.',
        'assumes': [SUBSET, 'urlparse of the standard library, which is '
                    'executed for scheme and netloc as modelled: a URL with '
                    'scheme and netloc is cut at the first "/", "?" or "#" '
                    'behind them (contract on the dependency)'],
    },
    'C09': {
        'level': 'proof',
        'proved': 'parse_pattern_string on any text: units that concatenate '
                  'to it, or InvalidPatternException exactly when it is not '
                  'made of runs and bracket units; '
                  'parse_pattern_unit_string on every unit: its rules and '
                  'its number, rejected exactly when the brackets hold '
                  'anything else than rules, or the number is 0 or smaller '
                  'than the number of rules; Pattern(text) has these units.',
        'bounded': 'nothing; the search runs besides.',
        'assumes': [SUBSET, 'int() of ASCII digits is some number >= 0'],
    },
    'C10': {
        'level': 'proof',
        'proved': 'the parts of MultiView, MixedView, LastDotSplitFuzzyView '
                  'and FuzzyView of any parsed piece cut its runs; their '
                  'texts are the runs\' texts, their rules the sorted sets '
                  'of the runs\' rules; mix() makes the maximal groups; '
                  'views are equal exactly when their view texts are, which '
                  'are prefix codes of the part rules.',
        'bounded': 'nothing; the search runs besides.',
        'assumes': [SUBSET],
    },
    'C11': {
        'level': 'proof',
        'proved': 'the order of patterns is a strict weak order, literal '
                  'text above partly generalised text above length above '
                  'wildcard, whatever texts their keys are; the keys only depend on the '
                  'views of the units; the order of '
                  'nodes, when those of patterns and of parents are strict '
                  'weak orders, is one in which the last difference '
                  'decides; the view class of a pattern; the match command '
                  'prints the greatest result.',
        'bounded': 'nothing; generated match results are ordered besides.',
        'argument': 'lemma_order (Lean), in words: induction on depth; results of one URL have one depth; '
                    'the roots are equal; the lexicographic order of strict '
                    'weak orders from the last position is one.  A total '
                    'preorder makes the maximum well defined.',
        'assumes': [PAPER],
    },
    'C12': {
        'level': 'proof',
        'proved': 'build_tree and build_from_parsed_pieces on any tree: one '
                  'child per key down from the root, new nodes exactly where '
                  'there were none, counts added from the leaf up to the '
                  'root exactly when the path is new, meta added to the '
                  'leaf; add_child, children, leaf, incr_count, add_meta, '
                  'update_meta; dump_tree yields the path to every leaf '
                  'once; Maker.load and PatternMaker.load report what '
                  'build gave.',
        'bounded': 'nothing; the search runs besides.',
        'argument': 'lemma_loads (Lean), in words: induction on the '
                    'sequence of loads; the paths of the '
                    'tree are the paths loaded, all of one length, so a '
                    'leaf is new exactly when the path is.  lemma_dump (Lean) for '
                    'the dump.',
        'assumes': [PAPER],
    },
    'C13': {
        'level': 'proof',
        'proved': 'the match command on any pattern files, any input lines '
                  'and any matcher: the patterns that are loaded, one line '
                  'per input line, in order, with the answer the property '
                  'states; the matcher rejects what is not a URL with '
                  'ValueError or InvalidCharException, which the command '
                  'answers with E; parse on any text raises nothing else.',
        'bounded': 'the argument parser, the file objects and the logging '
                   'of the progress (LogSpeedAdapter): the command is run on '
                   'generated files, and on up to 10100 lines with the log '
                   'on and off, besides.',
        'assumes': ['binary files iterate over lines; decode gives a text '
                    'or UnicodeDecodeError; a write is written'],
    },
    'C14': {
        'level': 'proof',
        'proved': 'the make command on any input lines, any loads that may '
                  'raise and any clusters: every line that is not blank and '
                  'can be decoded is loaded, a line that is rejected has no '
                  'effect, the output is the formatted clusters in order; '
                  'process_args reads the config file of the command line '
                  'into the config; the maker rejects what is not a URL '
                  'before it is changed.',
        'bounded': 'the argument parser, ConfigParser, the file objects and '
                   'the logging of the progress (LogSpeedAdapter): the '
                   'command is run on generated files, and on up to 10100 '
                   'lines with the log on and off, besides.',
        'assumes': ['binary files iterate over lines; decode gives a text '
                    'or UnicodeDecodeError; a write is written',
                    'ConfigParser reads what the file says'],
    },
    'C15': {
        'level': 'proof',
        'proved': 'every format, for any structure and any tree with one '
                  'pattern per level: the lines the property states; '
                  'dump_tree yields every leaf once.',
        'bounded': 'nothing; generated clusters are formatted besides.  The '
                   'ete format is not part of the property.',
        'assumes': ['json.dumps writes what json reads'],
    },
    'C16': {
        'level': 'proof',
        'proved': 'normalize(s, reserved) on any text and any reserved set: '
                  'runs of a sign that is not reserved get their canonical '
                  'text, everything else stays, InvalidCharException exactly '
                  'for unsupported characters; unpack normalises the keys '
                  'with "=" reserved.',
        'bounded': 'nothing; the search runs besides.',
        'assumes': [SUBSET],
    },
    'C17': {
        'level': 'proof',
        'proved': 'for any min_cluster_num: a cluster class gives a length '
                  'or wildcard pattern, or a pattern by views, only to '
                  'bags that together have at least min_cluster_num '
                  'nodes; below it a bag keeps its literal.',
        'bounded': 'nothing; the end-to-end statement is searched on '
                   'generated URL sets besides.',
        'argument': 'lemma_threshold (Lean), in words: the counts of bags are numbers of paths (C12, bag '
                    'contracts); with fewer than min_cluster_num paths no '
                    'bag, bucket or cache reaches it at any level, so each '
                    'node keeps the literal that it was given first.',
        'assumes': [PAPER],
    },
}

NA = {
    'C18': 'Order independence relates two runs of the whole clustering '
           'under different load orders: a two-run hyperproperty of set and '
           'dict iteration.  No per-function contract over one run states '
           'it, and no relational verifier for this Python code is '
           'available here.',
    'C19': 'Termination of the mutual recursion cluster/process/split over '
           're-clustered sub-trees: the contracts here are for partial '
           'correctness, and no ranking function of the split recursion is '
           'within reach of the verifier.',
}
